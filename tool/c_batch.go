package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tBulk      = "common.BulkWireMsg"
	fBulkFrom  = "common.BulkWireMsg.Routing.From.Id"
	fBulkBcast = "common.BulkWireMsg.Routing.IsBroadcast"
	fBulkID    = "common.BulkWireMsg.MsgIdentifier"
	fBulkBytes = "common.BulkWireMsg.WiredBulkMsgs"
	fWireBcast = "messages.WireMessage.Routing.IsBroadcast"
	fPartyMap  = "common.PartyInfo.PartyMap"
	fAccepted  = "blame.Manager.acceptedShares"
	fRoundID   = "blame.RoundInfo.MsgIdentifier"
	fCulprits  = "common.TssCommon.culprits"
)

// shareRoles: which field of a job struct plays which role when the worker
// applies the share.
type shareRoles struct {
	typ                         string
	party, bytes, from, bc, ids string // field names
}

// share is what a sink applies: the values of one share.
type share struct {
	party, bytes, from, bc, id *ctxVal
}

func (w *World) shareRolesOf() map[string]*shareRoles {
	m := map[string]*shareRoles{}
	for _, fn := range w.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			cc := isUpdateCall(in)
			if cc == nil || len(cc.Args) < 3 {
				return
			}
			recv, a := callArgs(cc)
			vals := []ssa.Value{recv, a[0], a[1], a[2]}
			var names []string
			typ := ""
			for _, v := range vals {
				_, o := w.origin(w.Root(fn), v)
				f := addrField(o)
				i := strings.LastIndex(f, ".")
				if i < 0 {
					return
				}
				if typ == "" {
					typ = f[:i]
				}
				if f[:i] != typ {
					return
				}
				names = append(names, f[i+1:])
			}
			r := &shareRoles{typ: typ, party: names[0], bytes: names[1], from: names[2], bc: names[3]}
			if m[typ] == nil {
				m[typ] = r
			}
		})
	}
	// the identifier: the field the worker files the share's round under
	for _, fn := range w.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			f, st := storeField(in)
			if f != fRoundID {
				return
			}
			t := w.T(w.Root(fn), st.Val).String()
			for typ, r := range m {
				if strings.HasPrefix(t, typ+".") {
					r.ids = t[len(typ)+1:]
				}
			}
		})
	}
	return m
}

func (w *World) jobShare(ctx *Ctx, v ssa.Value, roles map[string]*shareRoles) *share {
	n := namedOf(v.Type())
	if n == nil {
		return nil
	}
	r := roles[tname(n)]
	st, ok := n.Underlying().(*types.Struct)
	if r == nil || !ok {
		return nil
	}
	get := func(name string) *ctxVal {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				vs := w.fieldVals(ctx, v, i)
				if len(vs) == 1 {
					return &vs[0]
				}
			}
		}
		return nil
	}
	return &share{get(r.party), get(r.bytes), get(r.from), get(r.bc), get(r.ids)}
}

func (w *World) tv(c *ctxVal) *Term {
	if c == nil {
		return mk("unknown", "")
	}
	return w.T(c.ctx, c.v)
}

func (w *World) ev(c *ctxVal) string {
	if c == nil {
		return ""
	}
	return w.elemIndex(c.ctx, c.v, tBulk)
}

// senderEq: b compares the sender (broadcast flag) of an element of the batch
// with that of the verified message; gives the element.
func (w *World) batchEq(ctx *Ctx, b *ssa.BinOp, bulk, wire string) (string, bool) {
	for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		x, y := w.T(ctx, p[0]), w.T(ctx, p[1])
		if stripPartyID(x).String() == bulk && stripPartyID(y).String() == wire {
			return w.elemIndex(ctx, p[0], tBulk), true
		}
	}
	return "", false
}

// stripPartyID: PartyIDMap[x].Id is x (entries are filed under their own id).
func stripPartyID(t *Term) *Term {
	if t.Op == "field" && t.Name == "Id" && len(t.Args) == 1 {
		if a := t.Args[0]; a.Op == "index" && a.Args[0].String() == fPartyIDs {
			return a.Args[1]
		}
	}
	if t.Op == "call" && strings.HasSuffix(t.Name, ".GetId") && len(t.Args) == 1 {
		if a := t.Args[0]; a.Op == "index" && a.Args[0].String() == fPartyIDs {
			return a.Args[1]
		}
	}
	return t
}

// batchHooks: the facts about the element at hand that C02 and C05 use.
type batchFacts struct {
	w     *World
	roles map[string]*shareRoles
	memb  []*Memb
}

func isStringEq(in ssa.Instruction) *ssa.BinOp {
	b, ok := in.(*ssa.BinOp)
	if !ok || (b.Op.String() != "==" && b.Op.String() != "!=") {
		return nil
	}
	return b
}

func batchLoopHeader(in ssa.Instruction) bool {
	c, _, ok := loopHeader(in)
	return ok && isBulkSlice(c.Type())
}

// shareSink: in applies or queues a share.
func (w *World) shareSink(s *State, in ssa.Instruction, k int, roles map[string]*shareRoles) (*share, bool) {
	if v := jobSendVal(in, k); v != nil {
		sh := w.jobShare(s.ctx, v, roles)
		if sh == nil {
			sh = &share{}
		}
		return sh, true
	}
	if cc := isUpdateCall(in); cc != nil && callAt(s, in) != nil {
		recv, a := callArgs(cc)
		if len(a) < 3 || w.fromChannel(s.ctx, a[0]) {
			return nil, false
		}
		c := s.ctx
		return &share{party: &ctxVal{c, recv}, bytes: &ctxVal{c, a[0]}, from: &ctxVal{c, a[1]}, bc: &ctxVal{c, a[2]}}, true
	}
	return nil, false
}

func sessionStop(w *World) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		return hasInstr(fn, func(in ssa.Instruction) bool { return w.recvField(in, fTssMsg) })
	}
}

func shareSinkInstr(fn *ssa.Function, in ssa.Instruction) bool {
	if isUpdateCall(in) != nil || jobSendVal(in, 0) != nil {
		return true
	}
	if sel, ok := in.(*ssa.Select); ok {
		for k := range sel.States {
			if jobSendVal(sel, k) != nil {
				return true
			}
		}
	}
	return false
}

// runEntries runs the hooks from every entry leading to pred and requires
// every function holding such an instruction to have been visited.
func runEntries(w *World, r *Report, hooks *Hooks, pred func(fn *ssa.Function, in ssa.Instruction) bool, stop func(fn *ssa.Function) bool) {
	visited := map[string]bool{}
	for _, en := range w.entries(pred, stop) {
		e := NewEngine(w, hooks)
		e.Run(en, nil)
		r.Merge(e)
		r.Notes = append(r.Notes, "entry "+fname(en))
		for fn := range e.Fns {
			visited[fname(fn)] = true
		}
	}
	for _, fn := range w.Funcs {
		if !isMockFile(w, fn) && hasInstr(fn, func(in ssa.Instruction) bool { return pred(fn, in) }) {
			r.ObFn(fn, visited[fname(fn)], "construct reached by the analysis")
		}
	}
}

func init() {
	register(&propDef{
		ID:    "C02",
		Title: "The shares of a batch speak only for the verified sender",
		Rule: "Path-sensitive interprocedural dataflow: at every point where a share is queued for a worker or applied, the party is the one filed under the identifier the share names, the bytes are that share's bytes, " +
			"the sender is the committee entry of the message's verified sender (taken from the message, or from the share after comparing the two), the broadcast flag is the message's (likewise), the identifier filed with the job is the share's, and all of these come from the same element of the batch. " +
			"The worker hands the job's fields to the party in the same roles.",
		Assume: []string{"the entry of PartyIDMap under an id is the party with that id (checked where the map is built, C22)"},
		Run:    runC02,
	})
	register(&propDef{
		ID:    "C05",
		Title: "Each share takes effect at most once and only accepted shares count",
		Rule: "Path-sensitive interprocedural dataflow: a share is queued or applied only where (a) the record of accepted shares for its round and message does not name its sender, (b) the batch has not already queued a share of that round and message, and the batch's own record is updated before the next share, " +
			"(c) its sender is not among the culprits (compared by id). All workers have finished before the next message is taken. A share enters the record of accepted shares only where UpdateFromBytes reported it as accepted, under the round parsed from that share with the job's identifier and under the job's sender; where the party rejects a share all the culprits are recorded before the worker takes the next share.",
		Assume: []string{"UpdateFromBytes reports ok only for a share it took into account"},
		Run:    runC05,
	})
}

// recordsCulprit: the loop stores to the list of culprits.
func recordsCulprit(h *ssa.BasicBlock) bool {
	for _, b := range h.Parent().Blocks {
		for _, in := range b.Instrs {
			if f, st := storeField(in); st != nil && f == fCulprits && inLoop(h, b) {
				return true
			}
		}
	}
	return false
}

func inLoop(h, b *ssa.BasicBlock) bool {
	for p := b; p != nil; p = p.Idom() {
		if p == h {
			return b == h || reachesAvoiding(b, h, nil)
		}
	}
	return false
}

// allCulprits: what the store adds to the list is all the party named: the
// whole list, or each element of it in a loop over it.
func allCulprits(e *Engine, s *State, st *ssa.Store) bool {
	q := &culprits{e.w, e, s}
	_, o := e.Resolve(s, s.ctx, st.Val)
	c, ok := o.(*ssa.Call)
	if !ok || len(c.Call.Args) != 2 {
		return true
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return true
	}
	if q.aligned(s.ctx, c.Call.Args[1], 0) {
		return true
	}
	els := storedElems(c)
	h := innermost(st.Block())
	if len(els) == 0 || h == nil {
		return false
	}
	over := false
	for _, i := range h.Instrs {
		if coll, _, ok := loopHeader(i); ok && q.aligned(s.ctx, coll, 0) {
			over = true
		}
	}
	for _, el := range els {
		if q.whose(s.ctx, el, 0) == "" {
			return false
		}
	}
	return over
}

func runC02(w *World, r *Report) {
	roles := w.shareRolesOf()
	hooks := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if shareSinkInstr(nil, in) || w.recvField(in, fTssMsg) || batchLoopHeader(in) {
			return true
		}
		if f, _ := storeField(in); f == fRoundID {
			return true
		}
		if b := isStringEq(in); b != nil {
			return strings.HasSuffix(addrFieldAny(b.X), ".Id") || strings.HasSuffix(addrFieldAny(b.X), ".IsBroadcast")
		}
		return false
	}}
	check := func(e *Engine, s *State, in ssa.Instruction, sh *share) {
		e.Hit("share queued or applied", in)
		el := w.ev(sh.bytes)
		pt := w.tv(sh.party)
		okParty := pt.every(func(t *Term) bool {
			return t.Op == "call" && strings.HasSuffix(t.Name, "sync.Map.Load") && len(t.Args) == 2 && t.Args[0].String() == fPartyMap && t.Args[1].String() == fBulkID
		})
		e.Ob(s, in, okParty, "a share is given to a party other than the one its message identifier names")
		e.Ob(s, in, w.tv(sh.bytes).String() == fBulkBytes && el != "", "the bytes given to the party are not those of the share at hand")
		ft := w.tv(sh.from)
		okFrom := ft.every(func(t *Term) bool {
			if t.Op != "index" || t.Args[0].String() != fPartyIDs {
				return false
			}
			switch stripPartyID(t.Args[1]).String() {
			case fWireFrom:
				return true
			case fBulkFrom:
				return s.Get("from") != "" && s.Get("from") == w.ev(sh.from)
			}
			return false
		})
		e.Ob(s, in, okFrom, "a share is applied under a sender that was not compared with the verified sender of the message")
		bt := w.tv(sh.bc)
		okB := bt.every(func(t *Term) bool {
			switch t.String() {
			case fWireBcast:
				return true
			case fBulkBcast:
				return s.Get("bc") != "" && s.Get("bc") == w.ev(sh.bc)
			}
			return false
		})
		e.Ob(s, in, okB, "a share is applied with a broadcast flag that was not compared with that of the verified message")
		if sh.id != nil {
			it := w.tv(sh.id).String()
			e.Ob(s, in, it == fBulkID && w.ev(sh.id) == el || it == fRoundID && s.Get("rid") == el, "a share is filed under an identifier that is not its own")
		}
		same := func(c *ctxVal) bool {
			x := w.ev(c)
			return x == "" || x == el
		}
		e.Ob(s, in, same(sh.party) && same(sh.from) && same(sh.bc), "party, bytes, sender and flag handed on come from different shares of the batch")
	}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 {
			if sel.States[k].Dir == types.RecvOnly && addrField(sel.States[k].Chan) == fTssMsg {
				return s.With("from", "", "bc", "")
			}
			if sh, ok := w.shareSink(s, sel, k, roles); ok {
				check(e, s, sel, sh)
			}
		}
		return s
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if batchLoopHeader(in) {
			return []Outcome{{S: s.With("from", "", "bc", "", "rid", "")}}
		}
		if f, st := storeField(in); f == fRoundID {
			if w.T(s.ctx, st.Val).String() == fBulkID {
				return []Outcome{{S: s.With("rid", w.elemIndex(s.ctx, st.Val, tBulk))}}
			}
			return []Outcome{{S: s.With("rid", "")}}
		}
		if b := isStringEq(in); b != nil {
			for _, p := range [][3]string{{"from", fBulkFrom, fWireFrom}, {"bc", fBulkBcast, fWireBcast}} {
				if el, ok := w.batchEq(s.ctx, b, p[1], p[2]); ok {
					e.Hit("comparison with the verified message: "+p[0], in)
					if b.Op.String() == "==" {
						return e.Fork(s, b, []string{p[0], el}, nil)
					}
					return e.Fork(s, b, nil, []string{p[0], el})
				}
			}
			return nil
		}
		if _, isSel := in.(*ssa.Select); !isSel {
			if sh, ok := w.shareSink(s, in, 0, roles); ok {
				check(e, s, in, sh)
			}
		}
		return nil
	}
	runEntries(w, r, hooks, shareSinkInstr, sessionStop(w))
	// the worker side: fields keep their roles
	for _, fn := range w.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			cc := isUpdateCall(in)
			if cc == nil || len(cc.Args) < 3 {
				return
			}
			recv, a := callArgs(cc)
			ctx := w.Root(fn)
			if !w.fromChannel(ctx, a[0]) {
				return
			}
			ok := true
			typ := ""
			for _, v := range []ssa.Value{recv, a[0], a[1], a[2]} {
				_, o := w.origin(ctx, v)
				f := addrField(o)
				i := strings.LastIndex(f, ".")
				if i < 0 || (typ != "" && f[:i] != typ) {
					ok = false
					break
				}
				typ = f[:i]
			}
			r.Anchor("worker applies the job's share", in)
			r.Ob(in, ok, "the worker applies the fields of the job it took")
		})
	}
	w.noRewrite(r)
	r.Need("share queued or applied", 1)
}

// noRewrite: what was verified stays what it was; nothing writes into a
// decoded message or into a routing it did not just build.
func (w *World) noRewrite(r *Report) {
	wire := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		if _, ptr := p.Elem().Underlying().(*types.Pointer); ptr {
			return false
		}
		n := tname(p.Elem())
		return n == "messages.WireMessage" || strings.HasSuffix(n, "tss.MessageRouting")
	}
	for _, fn := range w.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			v := st.Addr
			for {
				if wire(v.Type()) {
					break
				}
				fa, ok := v.(*ssa.FieldAddr)
				if !ok {
					return
				}
				v = fa.X
			}
			if al, ok := v.(*ssa.Alloc); ok {
				decoded := false
				for _, ref := range *al.Referrers() {
					if mi, ok := ref.(*ssa.MakeInterface); ok && mi.Referrers() != nil {
						for _, u := range *mi.Referrers() {
							decoded = decoded || isCall(u, "encoding/json.Unmarshal") != nil
						}
					}
				}
				if !decoded || st.Addr == v {
					return
				}
			}
			r.Ob(in, false, "a message that was received, or its routing, is written to after it was decoded")
		})
	}
}

func addrFieldAny(v ssa.Value) string {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			f, n := structField(x.X.Type(), x.Field)
			if n != nil {
				return tname(n) + "." + f
			}
			return "." + f
		case *ssa.Field:
			f, n := structField(x.X.Type(), x.Field)
			if n != nil {
				return tname(n) + "." + f
			}
			return "." + f
		case *ssa.ChangeType:
			v = x.X
		default:
			return ""
		}
	}
	return ""
}

func runC05(w *World, r *Report) {
	roles := w.shareRolesOf()
	idOK := func(t *Term) bool {
		return t.every(func(t *Term) bool {
			switch stripPartyID(t).String() {
			case fWireFrom, fBulkFrom:
				return true
			}
			return false
		})
	}
	acc := &Memb{Atom: "accepted", w: w,
		Coll: func(ctx *Ctx, v ssa.Value) bool {
			t := w.T(ctx, v)
			return t.every(func(t *Term) bool { return t.Op == "index" && t.Args[0].String() == fAccepted })
		},
		Eq: func(ctx *Ctx, x, y ssa.Value) bool {
			xt := w.T(ctx, x)
			return xt.Op == "elem" && xt.Args[0].Op == "index" && xt.Args[0].Args[0].String() == fAccepted && idOK(w.T(ctx, y))
		},
		Empty: func(ctx *Ctx, in ssa.Instruction) (bool, bool) {
			if ex, ok := in.(*ssa.Extract); ok && ex.Index == 1 {
				if lk, ok := ex.Tuple.(*ssa.Lookup); ok && addrField(lk.X) == fAccepted {
					return false, true
				}
			}
			return false, false
		},
	}
	cul := &Memb{Atom: "culprits", w: w,
		Coll: func(ctx *Ctx, v ssa.Value) bool { return w.T(ctx, v).String() == fCulprits },
		Eq: func(ctx *Ctx, x, y ssa.Value) bool {
			xt, yt := w.T(ctx, x), w.T(ctx, y)
			el := fCulprits + "[]"
			return (xt.String() == el+".Id" || (xt.Op == "call" && strings.HasSuffix(xt.Name, ".GetId") && xt.Args[0].String() == el)) && idOK(yt)
		},
	}
	membs := []*Memb{acc, cul}
	// the batch's own record of queued shares: a local map consulted with the round
	seenLookup := func(s *State, in ssa.Instruction) (*ssa.Lookup, ssa.Value, bool) {
		switch x := in.(type) {
		case *ssa.Lookup:
			if !x.CommaOk && isLocalMap(w, s.ctx, x.X) && types.Identical(x.Type().Underlying(), types.Typ[types.Bool]) {
				return x, x, true
			}
		case *ssa.Extract:
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && isLocalMap(w, s.ctx, lk.X) {
				return lk, x, true
			}
		}
		return nil, nil, false
	}
	isRound := func(ctx *Ctx, v ssa.Value) bool {
		t := w.T(ctx, v)
		return t.mentions("blame.RoundInfo") || tname(v.Type()) == "blame.RoundInfo"
	}
	hooks := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if shareSinkInstr(nil, in) || w.recvField(in, fTssMsg) || batchLoopHeader(in) || isCall(in, "sync.WaitGroup.Wait") != nil {
			return true
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return addrField(x.Map) == fAccepted
		case *ssa.Lookup:
			return addrField(x.X) == fAccepted || tname(x.Index.Type()) == "blame.RoundInfo"
		case *ssa.Store:
			f, _ := storeField(in)
			return f == fRoundID || f == fCulprits
		case *ssa.BinOp:
			return strings.HasSuffix(addrFieldAny(x.X), "PartyID.Id")
		}
		return false
	}}
	clear := []string{"rid", "", "seen", "", "marked", "", "sent", "", "upd", "", "uperr", ""}
	sink := func(e *Engine, s *State, in ssa.Instruction) *State {
		e.Hit("share queued or applied", in)
		e.Ob(s, in, s.Get("accepted.out") == "1", "a share is queued or applied although the record of accepted shares was not searched in vain for its sender, round and message")
		e.Ob(s, in, s.Get("seen") == "1", "a share is queued or applied without checking that this batch has not already queued one of the same round and message")
		e.Ob(s, in, s.Get("culprits.out") == "1", "a share is queued or applied although its sender may be a culprit")
		return s.With("sent", "1", "pending", "1")
	}
	newMsg := func(e *Engine, s *State, in ssa.Instruction) *State {
		e.Ob(s, in, s.Get("pending") == "", "the next message is taken while shares of the previous one may still be in the hands of workers")
		s = s.With(clear...)
		for _, m := range membs {
			s = m.reset(s)
		}
		return s
	}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 {
			if sel.States[k].Dir == types.RecvOnly && addrField(sel.States[k].Chan) == fTssMsg {
				return newMsg(e, s, sel)
			}
			if _, ok := w.shareSink(s, sel, k, roles); ok {
				return sink(e, s, sel)
			}
		}
		return s
	}
	fromUpdate := func(ctx *Ctx, v ssa.Value, idx int) bool {
		_, o := w.origin(ctx, v)
		ex, ok := o.(*ssa.Extract)
		if !ok || ex.Index != idx {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		return ok && isUpdateCall(c) != nil
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if u, ok := in.(*ssa.UnOp); ok && w.recvField(u, fTssMsg) {
			return []Outcome{{S: newMsg(e, s, in)}}
		}
		if batchLoopHeader(in) {
			e.Ob(s, in, s.Get("sent") == "" || s.Get("marked") == "1", "a share is queued without noting its round and message for the rest of the batch")
			s2 := s.With(clear...)
			for _, m := range membs {
				s2 = m.reset(s2)
			}
			return []Outcome{{S: s2}}
		}
		// going through the culprits to record each
		if coll, _, ok := loopHeader(in); ok && s.Get("uperr") != "" && recordsCulprit(in.Block()) && (&culprits{w, e, s}).aligned(s.ctx, coll, 0) {
			return []Outcome{{S: s.With("uperr", "")}}
		}
		for _, m := range membs {
			if o := m.On(e, s, in); o != nil {
				if m == acc && s.Get("rid") != "1" {
					// looked up before the round named the message
					for i := range o {
						o[i].S = o[i].S.With("accepted.out", "")
					}
				}
				if ex, ok := in.(*ssa.Extract); ok && m == acc && ex.Index == 1 {
					for i := range o {
						new := ""
						if e.Eval(o[i].S, ex) == aFalse {
							new = "1"
						}
						o[i].S = o[i].S.With("accnew", new)
					}
				}
				return o
			}
		}
		if lk, v, ok := seenLookup(s, in); ok && isRound(s.ctx, lk.Index) && s.Get("rid") == "1" {
			e.Hit("batch's own record consulted", in)
			return e.Fork(s, v, nil, []string{"seen", "1"})
		}
		switch x := in.(type) {
		case *ssa.Store:
			f, st := storeField(in)
			switch f {
			case fRoundID:
				t := w.T(s.ctx, st.Val).String()
				if t == fBulkID {
					return []Outcome{{S: s.With("rid", "1")}}
				}
				for typ, ro := range roles {
					if ro.ids != "" && t == typ+"."+ro.ids {
						return []Outcome{{S: s.With("jid", "1")}}
					}
				}
				return []Outcome{{S: s.With("rid", "", "jid", "")}}
			case fCulprits:
				if t := w.T(s.ctx, st.Val); t.mentionsCall(".Culprits") {
					e.Hit("culprits recorded", in)
					e.Ob(s, in, t.every(func(t *Term) bool {
						fl := t.flat()
						return len(fl) > 0 && fl[0].mentions(fCulprits) && fl[0].Op != "slice"
					}), "recording culprits forgets those recorded before")
					e.Ob(s, in, allCulprits(e, s, st), "not all of the culprits of a rejected share are recorded")
					return []Outcome{{S: s.With("uperr", "")}}
				}
			}
		case *ssa.MapUpdate:
			if addrField(x.Map) == fAccepted {
				e.Hit("share recorded as accepted", in)
				e.Ob(s, in, s.Get("upd") == "1", "a share is recorded as accepted although the party did not report it as accepted")
				e.Ob(s, in, s.Get("jid") == "1" || s.Get("rid") == "1", "a share is recorded as accepted under a round that does not name its message")
				rec := w.T(s.ctx, x.Value)
				okID := rec.every(func(t *Term) bool {
					fl := t.flat()
					if len(fl) == 0 {
						return false
					}
					id := fl[len(fl)-1].String()
					for typ, ro := range roles {
						if id == typ+"."+ro.from+".Id" || strings.HasSuffix(id, "GetId("+typ+"."+ro.from+")") {
							return true
						}
					}
					return idOK(fl[len(fl)-1])
				})
				e.Ob(s, in, okID, "a share is recorded as accepted under an id other than its sender's")
				// nothing recorded earlier is lost
				okKeep := rec.every(func(t *Term) bool {
					if fl := t.flat(); len(fl) > 1 {
						return fl[0].Op == "index" && fl[0].Args[0].String() == fAccepted
					}
					return s.Get("accnew") == "1"
				})
				e.Ob(s, in, okKeep, "recording an accepted share forgets shares recorded before")
				return nil
			}
			if isLocalMap(w, s.ctx, x.Map) && isRound(s.ctx, x.Key) && s.Get("rid") == "1" {
				return []Outcome{{S: s.With("marked", "1")}}
			}
		case *ssa.Extract:
			if x.Index == 0 {
				if c, ok := x.Tuple.(*ssa.Call); ok && isUpdateCall(c) != nil {
					return e.Fork(s, x, []string{"upd", "1"}, []string{"upd", ""})
				}
			}
		case *ssa.BinOp:
			if x.Op.String() == "!=" || x.Op.String() == "==" {
				for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if c, ok := p[1].(*ssa.Const); ok && c.IsNil() && fromUpdate(s.ctx, p[0], 1) && x.Parent() != nil {
						if x.Op.String() == "!=" {
							return e.Fork(s, x, []string{"uperr", "1"}, nil)
						}
						return e.Fork(s, x, nil, []string{"uperr", "1"})
					}
				}
			}
		case *ssa.UnOp:
			got := x.Type()
			if tp, ok := got.(*types.Tuple); ok {
				got = tp.At(0).Type()
			}
			if x.Op.String() == "<-" && jobStruct(deref(got)) {
				e.Ob(s, in, s.Get("uperr") == "", "a worker goes on to the next share without recording the culprits of one the party rejected")
				s = s.With("upd", "", "uperr", "", "jid", "", "accnew", "")
				for _, m := range membs {
					s = m.reset(s)
				}
				return []Outcome{{S: s}}
			}
		}
		if isUpdateCall(in) != nil && callAt(s, in) != nil {
			s = s.With("upd", "", "uperr", "")
			if _, ok := w.shareSink(s, in, 0, roles); ok {
				s = sink(e, s, in)
			}
			return []Outcome{{S: s}}
		}
		if isCall(in, "sync.WaitGroup.Wait") != nil && callAt(s, in) != nil {
			return []Outcome{{S: s.With("pending", "")}}
		}
		if _, isSel := in.(*ssa.Select); !isSel && jobSendVal(in, 0) != nil {
			return []Outcome{{S: sink(e, s, in)}}
		}
		return nil
	}
	runEntries(w, r, hooks, func(fn *ssa.Function, in ssa.Instruction) bool {
		if mu, ok := in.(*ssa.MapUpdate); ok && addrField(mu.Map) == fAccepted {
			return true
		}
		return shareSinkInstr(fn, in)
	}, sessionStop(w))
	r.Need("share queued or applied", 1)
	r.Need("share recorded as accepted", 1)
	r.Need("culprits recorded", 1)
	r.Need("search over accepted", 1)
	r.Need("search over culprits", 1)
}

// isLocalMap: v is a map made in this analysis (not a field).
func isLocalMap(w *World, ctx *Ctx, v ssa.Value) bool {
	_, o := w.origin(ctx, v)
	if mm, ok := o.(*ssa.MakeMap); ok {
		_ = mm
		return true
	}
	return false
}

func (t *Term) mentionsCall(suffix string) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x.Op == "call" && strings.HasSuffix(x.Name, suffix) {
			found = true
		}
		return !found
	})
	return found
}
