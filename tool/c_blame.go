package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tNode       = "blame.Node"
	tBlame      = "blame.Blame"
	fNodes      = "blame.Blame.BlameNodes"
	keysOfIDs   = "conversion.AccPubKeysFromPartyIDs"
	keyOfParty  = "conversion.PartyIDtoPubKey"
	wrongShare  = "blame.Manager.TssWrongShareBlame"
	fPeersOfMgr = "blame.Manager.PartyIDtoP2PID"
	fLocalOfMgr = "blame.Manager.localPartyID"
)

func init() {
	register(&propDef{
		ID:    "C08",
		Title: "Blame falls only on those it can be put on, with their own evidence",
		Rule: "Path-sensitive interprocedural dataflow from every construction of a blamed node, every change of the blame record, and every place that asks for blame. " +
			"Evidence is the content and signature of one and the same recorded message, which is that of the very culprit whose key is named (lists built in lockstep are matched by position), or empty. " +
			"A node is blamed for missing if it is in the committee, not the node itself, and not in the whole list of those heard of; nobody of that kind is left out. " +
			"The lists guessed from unicast or missing shares count only if not empty and at most the threshold; the missing ones only if nobody is blamed yet, asked for with the rounds of the protocol. " +
			"The record only grows, is copied whole, and the response of a failed session carries it; one that failed to form its party carries those that did not show up, or the leader.",
		Assume: []string{"tss-lib names the right culprits", "party objects and peers of a session belong to its committee (C22)"},
		Run:    runC08,
	})
}

func runC08(w *World, r *Report) {
	blameEvidence(w, r)
	blameRecord(w, r)
	blameLists(w, r)
	blameSessions(w, r)
	blameJoin(w, r)
}

// ident names a value on a path by how it was reached.
func (e *Engine) ident(s *State, ctx *Ctx, v ssa.Value) string { return e.identN(s, ctx, v, 0) }

func (e *Engine) identN(s *State, ctx *Ctx, v ssa.Value, d int) string {
	c, o := e.Resolve(s, ctx, v)
	if d > 12 {
		return e.w.idxKey(c, o)
	}
	switch x := o.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return e.identN(s, c, a.X, d+1) + "." + fieldOf(a.X.Type(), a.Field)
			case *ssa.IndexAddr:
				return e.identN(s, c, a.X, d+1) + "[" + e.identN(s, c, a.Index, d+1) + "]"
			}
		}
	case *ssa.Field:
		return e.identN(s, c, x.X, d+1) + "." + fieldOf(x.X.Type(), x.Field)
	case *ssa.Const:
		return x.String()
	}
	return e.w.idxKey(c, o)
}

// nodeFields: the values stored into the fields of the node built at al.
func nodeFields(al *ssa.Alloc) map[string]ssa.Value {
	out := map[string]ssa.Value{}
	if tname(deref(al.Type())) != tNode {
		return out
	}
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			for _, st := range storesTo(fa) {
				out[fieldOf(fa.X.Type(), fa.Field)] = st.Val
			}
		}
	}
	return out
}

// nodeBuilt: in takes the node that was put together field by field.
func nodeBuilt(in ssa.Instruction) map[string]ssa.Value {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || tname(deref(al.Type())) != tNode {
		return nil
	}
	if f := nodeFields(al); len(f) > 0 {
		return f
	}
	return nil
}

// emptyBytes: v is nil or of no length.
func emptyBytes(v ssa.Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		k, ok := x.Len.(*ssa.Const)
		return ok && k.Int64() == 0
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			a, ok := deref(al.Type()).Underlying().(*types.Array)
			return ok && a.Len() == 0
		}
	}
	return false
}

// partOfMsg: the message v is field f of.
func partOfMsg(v ssa.Value, f string) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || addrField(u) != tWire+"."+f {
		return nil
	}
	return fa.X
}

func culpritsCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && strings.HasSuffix(callName(&c.Call), "tss-lib/tss.Error.Culprits")
}

// everyPass: in is executed in each round of the loop it is in.
func everyPass(in ssa.Instruction) bool {
	b := in.Block()
	h := innermost(b)
	if h == nil {
		return false
	}
	if b == h {
		return true
	}
	for _, s := range h.Succs {
		if s != h && !reachesBlock(s, h) {
			continue
		}
		if s != b && (s == h || reachesAvoiding(s, h, b)) {
			return false
		}
	}
	return true
}

type culprits struct {
	w *World
	e *Engine
	s *State
}

// whose: the position in the list of culprits that v belongs to ("" if none).
func (q *culprits) whose(ctx *Ctx, v ssa.Value, d int) string {
	if d > 16 || v == nil {
		return ""
	}
	c, o := q.e.Resolve(q.s, ctx, v)
	switch x := o.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			if q.aligned(c, a.X, d+1) {
				return q.e.ident(q.s, c, a.Index)
			}
			return ""
		case *ssa.FieldAddr:
			return q.whose(c, a.X, d+1)
		}
	case *ssa.Field:
		return q.whose(c, x.X, d+1)
	case *ssa.FieldAddr:
		return q.whose(c, x.X, d+1)
	case *ssa.Lookup:
		return q.whose(c, x.Index, d+1)
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Lookup:
			return q.whose(c, y.Index, d+1)
		case *ssa.Call:
			return q.whose(c, y, d+1)
		case *ssa.Next:
			return ""
		}
	case *ssa.MakeInterface:
		return q.whose(c, x.X, d+1)
	case *ssa.BinOp:
		if x.Op == token.ADD { // a key put together
			a, b := q.whose(c, x.X, d+1), q.whose(c, x.Y, d+1)
			if a == "" || b == a {
				return b
			}
			if b == "" {
				return a
			}
		}
	case *ssa.Call:
		n := callName(&x.Call)
		switch {
		case n == "fmt.Sprintf":
			p := ""
			for _, a := range x.Call.Args {
				for _, el := range varElems(a) {
					if k := q.whose(c, el, d+1); k != "" {
						if p != "" && p != k {
							return ""
						}
						p = k
					}
				}
			}
			return p
		case n == keyOfParty, n == "blame.RoundMgr.Get", strings.HasSuffix(n, ".GetId"), strings.HasSuffix(n, ".GetKey"):
			return q.whose(c, x.Call.Args[len(x.Call.Args)-1], d+1)
		}
	}
	return ""
}

// varElems: the elements of a variadic argument.
func varElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, st := range storesTo(ia) {
				out = append(out, st.Val)
			}
		}
	}
	return out
}

// aligned: position i of the list v belongs to culprit i.
func (q *culprits) aligned(ctx *Ctx, v ssa.Value, d int) bool {
	if d > 16 {
		return false
	}
	c, o := q.e.Resolve(q.s, ctx, v)
	if culpritsCall(o) {
		return true
	}
	if ex, ok := o.(*ssa.Extract); ok && ex.Index == 0 {
		if call, ok := ex.Tuple.(*ssa.Call); ok && callName(&call.Call) == keysOfIDs {
			return q.aligned(c, call.Call.Args[0], d+1)
		}
	}
	// appended in each round of a loop over an aligned list
	sites, ok := q.e.appendSites(q.s, c, o)
	if ok && len(sites) == 1 {
		in := sites[0].v.(ssa.Instruction)
		els := storedElems(in)
		return len(els) == 1 && q.perRound(sites[0].ctx, in, els[0], d)
	}
	// or stored at its position
	if mk, ok := o.(*ssa.MakeSlice); ok {
		n := 0
		good := true
		for _, ref := range *mk.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, st := range storesTo(ia) {
					n++
					good = good && q.perRound(c, st, st.Val, d) && q.whose(c, st.Val, d+1) == q.e.ident(q.s, c, ia.Index)
				}
			}
		}
		return n == 1 && good
	}
	return false
}

func (q *culprits) perRound(ctx *Ctx, in ssa.Instruction, v ssa.Value, d int) bool {
	h := innermost(in.Block())
	if h == nil || !everyPass(in) {
		return false
	}
	over := false
	for _, i := range h.Instrs {
		if coll, _, ok := loopHeader(i); ok && q.aligned(ctx, coll, d+1) {
			over = true
		}
	}
	return over && q.whose(ctx, v, d+1) != ""
}

func blameEvidence(w *World, r *Report) {
	// the ids named in a list give their keys in the same order
	keyListing(w, r)
	builds := func(in ssa.Instruction) bool { return nodeBuilt(in) != nil }
	record := func(in ssa.Instruction) *ssa.MapUpdate {
		if mu, ok := in.(*ssa.MapUpdate); ok && addrField(mu.Map) == fStored {
			return mu
		}
		return nil
	}
	cacheKey := ""
	if fn := w.Fn("messages.WireMessage.GetCacheKey"); fn != nil {
		cacheKey = w.T(w.Root(fn), returnsOf(fn)[0].Results[0]).String()
	}
	r.ObGlobal(cacheKey != "", "a message has a key to record it by")
	h := &Hooks{
		Track: func(v ssa.Value) bool {
			t := v.Type()
			if a, ok := v.(*ssa.Alloc); ok {
				t = deref(a.Type())
			}
			if tp, ok := t.(*types.Tuple); ok {
				for i := 0; i < tp.Len(); i++ {
					if r := tp.At(i).Type(); r.String() == "[]byte" || tname(deref(r)) == tWire {
						return true
					}
				}
				return false
			}
			s := t.String()
			return s == "[]byte" || tname(deref(t)) == tWire || s == "string"
		},
		NoInline: func(f *ssa.Function) bool {
			switch fname(f) {
			case keysOfIDs, keyOfParty, wrongShare, "blame.RoundMgr.Get":
				return true
			}
			return false
		},
	}
	h.Interesting = func(in ssa.Instruction) bool {
		return builds(in) || record(in) != nil || isCall(in, wrongShare) != nil
	}
	// a message, or a part of one, that a loop carries over to its next round
	carried := func(v ssa.Value) bool {
		t := v.Type()
		return t.String() == "[]byte" || tname(deref(t)) == tWire
	}
	h.OnPhi = func(e *Engine, pre, s *State, p *ssa.Phi, edge ssa.Value) {
		if !carried(p) {
			return
		}
		c, o := e.Resolve(pre, pre.ctx, edge)
		in, ok := o.(ssa.Instruction)
		if !ok || emptyBytes(o) {
			return
		}
		for cx := c; cx != nil && cx != s.ctx && cx.Site != nil; cx = cx.Parent {
			in = cx.Site
		}
		// made below the head of the loop, so in the round before
		if in.Parent() == p.Parent() && in.Block() != p.Block() && p.Block().Dominates(in.Block()) {
			s.A["old:"+w.idxKey(c, o)] = fmt.Sprint(s.ctx.ID)
		}
	}
	h.OnRet = func(e *Engine, s *State, rt *ssa.Return) *State {
		var kv []string
		for k, v := range s.A {
			if strings.HasPrefix(k, "old:") && v == fmt.Sprint(s.ctx.ID) {
				kv = append(kv, k, "")
			}
		}
		if kv == nil {
			return s
		}
		return s.With(kv...)
	}
	now := func(s *State, c *Ctx, v ssa.Value) bool { return v == nil || s.Get("old:"+w.idxKey(c, v)) == "" }
	var step func(e *Engine, s *State, in ssa.Instruction) []Outcome
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if v, ok := in.(ssa.Value); ok && carried(v) {
			if k := "old:" + w.idxKey(s.ctx, v); s.Get(k) != "" {
				s = s.With(k, "")
				if outs := step(e, s, in); outs != nil {
					return outs
				}
				return []Outcome{{S: s}}
			}
		}
		return step(e, s, in)
	}
	step = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if cc := isCall(in, wrongShare); cc != nil {
			c := in.(*ssa.Call)
			k := e.ident(s, s.ctx, cc.Args[1])
			return e.ForkErr(s, c, errIdx(c), []string{"ws:" + w.idxKey(s.ctx, c), k}, []string{"ws:" + w.idxKey(s.ctx, c), ""})
		}
		if mu := record(in); mu != nil {
			e.Hit("message recorded", in)
			kt, vt := w.T(s.ctx, mu.Key).String(), w.T(s.ctx, mu.Value)
			e.Ob(s, in, vt.every(func(t *Term) bool { return t.String() == fCacheMsg || t.String() == tWire }) && (kt == cacheKey || strings.Contains(kt, "BroadcastConfirmMessage.Key") || strings.Contains(kt, cacheKey)), "a message is recorded under a key other than its own ("+short(kt)+")")
			return nil
		}
		if cc := isCall(in, "blame.RoundMgr.Get"); cc != nil {
			if q := (&culprits{w, e, s}); q.whose(s.ctx, cc.Args[1], 0) != "" {
				// asked for as it was recorded: who, and which message of the round
				own := strings.Split(cacheKey, "(messages.WireMessage.")[0] + "("
				kt := w.T(s.ctx, cc.Args[1]).String()
				e.Ob(s, in, strings.HasPrefix(kt, own) && strings.HasSuffix(kt, ".Id,blame.RoundInfo.RoundMsg))"), "the message of a culprit is asked for under a key it is not recorded by ("+short(kt)+")")
			}
		}
		f := nodeBuilt(in)
		if f == nil {
			return nil
		}
		e.Hit("blamed node", in)
		get := func(n string) (*Ctx, ssa.Value) {
			if f[n] == nil {
				return nil, nil
			}
			return e.Resolve(s, s.ctx, f[n])
		}
		dc, data := get("BlameData")
		sc, sig := get("BlameSignature")
		pc, pk := get("Pubkey")
		e.Ob(s, in, pk != nil, "nobody is named in a blamed node")
		if pk == nil {
			return nil
		}
		if emptyBytes(data) && emptyBytes(sig) {
			return nil
		}
		e.Hit("evidence", in)
		m1, m2 := partOfMsg(data, "Message"), partOfMsg(sig, "Sig")
		fresh := func(c *Ctx, v, m ssa.Value) bool {
			if m == nil || !now(s, c, v) {
				return m == nil
			}
			c, o := e.Resolve(s, c, m)
			return now(s, c, o)
		}
		e.Ob(s, in, fresh(dc, data, m1) && fresh(sc, sig, m2), "the evidence given is left from another node")
		if m1 == nil || m2 == nil {
			e.Ob(s, in, false, "the evidence against a node is not the content and the signature of a message")
			return nil
		}
		e.Ob(s, in, e.ident(s, dc, m1) == e.ident(s, sc, m2), "the content and the signature given as evidence are those of different messages")
		// the message is the blamed one's
		if ex, ok := pk.(*ssa.Extract); ok && ex.Index == 0 {
			if call, ok := ex.Tuple.(*ssa.Call); ok && callName(&call.Call) == wrongShare {
				e.Ob(s, in, s.Get("ws:"+w.idxKey(pc, call)) == e.ident(s, dc, m1), "a node is blamed with the message of another, or although its owner was not found")
				return nil
			}
		}
		q := &culprits{w, e, s}
		a, b := q.whose(pc, pk, 0), q.whose(dc, m1, 0)
		e.Ob(s, in, a != "" && a == b, fmt.Sprintf("the evidence is not taken from the record of the node that is blamed (%q, %q)", a, b))
		return nil
	}
	pred := func(fn *ssa.Function, in ssa.Instruction) bool { return builds(in) || record(in) != nil }
	stop := func(fn *ssa.Function) bool {
		return hasInstr(fn, func(in ssa.Instruction) bool { return w.recvField(in, fTssMsg) }) || hasInstr(fn, func(in ssa.Instruction) bool { return isUpdateCall(in) != nil })
	}
	runEntries(w, r, h, pred, stop)
	ownerOf(w, r)
	r.Need("evidence", 1)
	r.Need("message recorded", 1)
}

// ownerOf: the key of a message's owner is that of its sender.
func ownerOf(w *World, r *Report) {
	fn := w.Fn(wrongShare)
	if !r.ObGlobal(fn != nil, wrongShare+" exists") {
		return
	}
	isKey := func(in ssa.Instruction) bool { return isCall(in, keyOfParty) != nil }
	h := &Hooks{
		Track: func(v ssa.Value) bool {
			return v.Type().String() == "string" || strings.HasSuffix(v.Type().String(), ".PartyID")
		},
		NoInline:    func(f *ssa.Function) bool { return fname(f) == keyOfParty },
		Interesting: isKey,
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		cc := isCall(in, keyOfParty)
		if cc == nil {
			return nil
		}
		c := in.(*ssa.Call)
		k := ""
		cx, o := e.Resolve(s, s.ctx, cc.Args[0])
		if strings.HasSuffix(w.T(cx, o).String(), "PartyInfo.PartyIDMap["+fWireFrom+"]") {
			k = "1"
		}
		return e.ForkErr(s, c, errIdx(c), []string{"own:" + w.idxKey(s.ctx, c), k}, nil)
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[1])) {
			return
		}
		e.Hit("owner of a message", rt)
		c, o := e.Resolve(s, s.ctx, rt.Results[0])
		ex, ok := o.(*ssa.Extract)
		e.Ob(s, rt, ok && ex.Index == 0 && s.Get("own:"+w.idxKey(c, ex.Tuple)) == "1", "the key returned is not that of the message's sender")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("owner of a message", 1)
}

// keyListing: one key for each id, in order.
func keyListing(w *World, r *Report) {
	fn := w.Fn(keysOfIDs)
	kept := map[ssa.Value]bool{}
	add := func(e *Engine, s *State, in ssa.Instruction) (bool, bool) {
		vs := storedElems(in)
		if len(vs) == 0 || vs[0].Type().String() != "string" {
			return false, false
		}
		good := s.Get("peer") != ""
		for _, v := range vs {
			kept[v] = true
			c, o := e.Resolve(s, s.ctx, v)
			ex, ok := o.(*ssa.Extract)
			good = good && ok && ex.Index == 0 && s.Get("peer") == w.idxKey(c, ex.Tuple)
		}
		return true, good
	}
	extra := func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if cc := isCall(in, keyOfParty); cc != nil {
			c := in.(*ssa.Call)
			k := ""
			cc2, o := e.Resolve(s, s.ctx, cc.Args[0])
			if ex, ok := o.(*ssa.Extract); ok {
				o = ex.Tuple
			}
			if lk, ok := o.(*ssa.Lookup); ok && curElem(w, e, s, cc2, lk.Index) {
				k = w.idxKey(s.ctx, c)
			}
			return e.ForkErr(s, c, errIdx(c), []string{"peer", k}, []string{"peer", ""})
		}
		return nil
	}
	done := func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[1])) {
			return
		}
		e.Hit("table complete: "+keysOfIDs, rt)
		e.Ob(s, rt, s.Get("el.all") == "1", "the keys are returned before all were found")
	}
	f := func(in ssa.Instruction) bool { return len(storedElems(in)) > 0 || isCall(in, keyOfParty) != nil }
	if fn != nil {
		tableFn(w, r, keysOfIDs, add, done, extra, f, func(f *ssa.Function) bool { return fname(f) == keyOfParty })
	}
}
