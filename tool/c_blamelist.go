package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fReason   = "blame.Blame.FailReason"
	fUnicast  = "blame.Blame.IsUnicast"
	fNodeKey  = "blame.Node.Pubkey"
	fUniPeers = "blame.Manager.lastUnicastPeer"
)

// blameRecord: what was recorded stays, and is handed out as it is.
func blameRecord(w *World, r *Report) {
	// no change of the list drops what is on it
	for _, fn := range w.Funcs {
		if fn.Synthetic != "" || isMockFile(w, fn) {
			continue
		}
		root := w.Root(fn)
		eachInstr(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok || addrField(st.Addr) != fNodes {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			_, o := w.origin(root, fa.X)
			sp := w.sliceParts(root, st.Val, nil)
			keeps := false
			for _, t := range sp.Spread {
				keeps = keeps || t.String() == fNodes && !sp.Part
			}
			if c, ok := st.Val.(*ssa.Call); ok && !keeps && len(c.Call.Args) > 0 {
				if u, ok := c.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL && addrField(u.X) == fNodes {
					fb, ok := u.X.(*ssa.FieldAddr)
					keeps = ok && fb.X == fa.X
				}
			}
			if _, fresh := o.(*ssa.Alloc); fresh {
				lit := true // the first value of a new record
				eachInstr(fn, func(i2 ssa.Instruction) {
					if ld, ok := i2.(*ssa.UnOp); ok && ld.Op == token.MUL && addrField(ld.X) == fNodes {
						lit = false
					}
				})
				keeps = keeps || lit
			}
			r.Anchor("list changed", in)
			r.Ob(in, keeps, "what was blamed so far is dropped")
		})
	}
	recv := func(fn *ssa.Function, i int) func(ctx *Ctx, v ssa.Value) bool {
		return func(ctx *Ctx, v ssa.Value) bool {
			c, o := w.origin(ctx, v)
			return c.Parent == nil && i < len(fn.Params) && o == ssa.Value(fn.Params[i])
		}
	}
	ownNodes := func(ctx *Ctx, v ssa.Value) bool {
		_, o := w.origin(ctx, v)
		u, ok := o.(*ssa.UnOp)
		return ok && u.Op == token.MUL && addrField(u.X) == fNodes
	}
	// SetBlame: everything given is recorded
	if fn := w.Fn("blame.Blame.SetBlame"); r.ObGlobal(fn != nil && len(fn.Params) == 4, "blame.Blame.SetBlame exists") {
		each := &Each{Atom: "el", w: w, Coll: recv(fn, 2)}
		h := &Hooks{Track: trackAll}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if outs := each.On(e, s, in, "a blamed node is left out"); outs != nil {
				return outs
			}
			st, ok := in.(*ssa.Store)
			if !ok {
				return nil
			}
			switch addrField(st.Addr) {
			case fReason:
				e.Ob(s, in, recv(fn, 1)(s.ctx, st.Val), "the reason recorded is not the one given")
				return []Outcome{{S: s.With("reason", "1")}}
			case fUnicast:
				e.Ob(s, in, recv(fn, 3)(s.ctx, st.Val), "whether it is about a unicast is not recorded as given")
				return []Outcome{{S: s.With("uni", "1")}}
			case fNodes:
				sp := w.sliceParts(s.ctx, st.Val, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
				for _, v := range sp.SpVals {
					if recv(fn, 2)(v.ctx, v.v) && !sp.Part {
						return []Outcome{{S: s.With("el.all", "1")}}
					}
				}
				for _, v := range sp.Vals {
					if curElem(w, e, s, v.ctx, v.v) {
						return []Outcome{{S: s.With("el.p", "")}}
					}
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			e.Hit("blame recorded", rt)
			e.Ob(s, rt, s.Get("reason") == "1" && s.Get("uni") == "1" && s.Get("el.all") == "1", "not everything given is recorded")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		r.Need("blame recorded", 1)
	}
	// AddBlameNodes: each is recorded unless the same is already there
	if fn := w.Fn("blame.Blame.AddBlameNodes"); r.ObGlobal(fn != nil && len(fn.Params) == 2, "blame.Blame.AddBlameNodes exists") {
		each := &Each{Atom: "el", w: w, Coll: recv(fn, 1)}
		memb := &Memb{Atom: "known", w: w, Coll: ownNodes}
		h := &Hooks{Track: trackAll, NoInline: func(f *ssa.Function) bool { return fname(f) == "blame.Node.Equal" }}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if outs := each.On(e, s, in, "a blamed node is left out although it is not there yet"); outs != nil {
				for i := range outs {
					outs[i].S = memb.reset(outs[i].S)
				}
				return outs
			}
			if outs := memb.On(e, s, in); outs != nil {
				return outs
			}
			if cc := isCall(in, "blame.Node.Equal"); cc != nil {
				mine := false
				known := false
				for _, a := range cc.Args {
					c, o := e.Resolve(s, s.ctx, a)
					if al, ok := o.(*ssa.Alloc); ok { // the address of a copy
						if sts := storesTo(al); len(sts) == 1 {
							c, o = e.Resolve(s, c, sts[0].Val)
						}
					}
					if curElem(w, e, s, c, o) {
						mine = true
						continue
					}
					if ia, ok := o.(*ssa.IndexAddr); ok {
						if w.idxKey(c, ia.Index) == s.Get("el.i") {
							mine = true
						}
						if ownNodes(c, ia.X) && w.idxKey(c, ia.Index) == s.Get("known.i") {
							known = true
						}
					}
					if u, ok := o.(*ssa.UnOp); ok {
						if ia, ok := u.X.(*ssa.IndexAddr); ok && ownNodes(c, ia.X) && w.idxKey(c, ia.Index) == s.Get("known.i") {
							known = true
						}
					}
				}
				if mine && known {
					return e.Fork(s, in.(ssa.Value), []string{"known.in", "1", "el.p", ""}, []string{"known.c", "1"})
				}
				return nil
			}
			if st, ok := in.(*ssa.Store); ok && addrField(st.Addr) == fNodes {
				sp := w.sliceParts(s.ctx, st.Val, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
				for _, v := range sp.Vals {
					if curElem(w, e, s, v.ctx, v.v) {
						e.Hit("node added", in)
						return []Outcome{{S: s.With("el.p", "")}}
					}
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			e.Ob(s, rt, s.Get("el.all") == "1", "not all nodes are recorded")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		r.Need("node added", 1)
	}
	// Equal: the same node with the same signature
	if fn := w.Fn("blame.Node.Equal"); r.ObGlobal(fn != nil, "blame.Node.Equal exists") {
		role := func(ctx *Ctx, a, b ssa.Value) string {
			x, y := w.T(ctx, a).String(), w.T(ctx, b).String()
			if x == y && (x == fNodeKey || x == "blame.Node.BlameSignature") {
				_, ra := w.partOf(ctx, a)
				_, rb := w.partOf(ctx, b)
				if ra != rb {
					return x
				}
			}
			return ""
		}
		h := &Hooks{Track: trackAll}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if f := role(s.ctx, b.X, b.Y); f != "" {
					if b.Op == token.EQL {
						return e.Fork(s, b, []string{f, "1"}, nil)
					}
					return e.Fork(s, b, nil, []string{f, "1"})
				}
			}
			if cc := isCall(in, "bytes.Equal"); cc != nil {
				if f := role(s.ctx, cc.Args[0], cc.Args[1]); f != "" {
					return e.Fork(s, in.(ssa.Value), []string{f, "1"}, nil)
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if e.Eval(s, rt.Results[0]) == aFalse {
				return
			}
			e.Hit("same node", rt)
			e.Ob(s, rt, s.Get(fNodeKey) == "1" && s.Get("blame.Node.BlameSignature") == "1", "two nodes count as the same although their keys or signatures differ")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		r.Need("same node", 1)
	}
	// Snapshot: all of it
	if fn := w.Fn("blame.Blame.Snapshot"); r.ObGlobal(fn != nil, "blame.Blame.Snapshot exists") {
		root := w.Root(fn)
		st := structOf(fn.Signature.Results().At(0).Type())
		for _, rt := range returnsOf(fn) {
			r.Anchor("snapshot", rt)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				f := tBlame + "." + st.Field(i).Name()
				if f != fReason && f != fUnicast && f != fNodes {
					continue
				}
				vs := w.fieldVals(root, rt.Results[0], i)
				n := 0
				for _, v := range vs {
					t := w.T(v.ctx, v.v)
					if f == fNodes {
						sp := w.sliceParts(v.ctx, v.v, nil)
						for _, x := range sp.Spread {
							if x.String() == fNodes && !sp.Part {
								n++
							}
						}
					} else if t.String() == f {
						n++
					}
				}
				r.Ob(rt, n > 0, "a copy of the blame goes without "+st.Field(i).Name())
			}
		}
		r.Need("snapshot", 1)
	}
	if fn := w.Fn("blame.Blame.AlreadyBlame"); r.ObGlobal(fn != nil, "blame.Blame.AlreadyBlame exists") {
		h := &Hooks{Track: trackAll}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if c, empty, ok := lenZero(in); ok && ownNodes(s.ctx, c) {
				if empty {
					return e.Fork(s, in.(ssa.Value), []string{"n", "0"}, []string{"n", "1"})
				}
				return e.Fork(s, in.(ssa.Value), []string{"n", "1"}, []string{"n", "0"})
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			e.Hit("already blamed", rt)
			v := e.Eval(s, rt.Results[0])
			e.Ob(s, rt, v == aTrue && s.Get("n") == "1" || v == aFalse && s.Get("n") == "0", "whether somebody is blamed is not told from the nodes recorded")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		r.Need("already blamed", 1)
	}
	r.Need("list changed", 2)
}

// partOf: the struct the field read by v is part of.
func (w *World) partOf(ctx *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	c, o := w.origin(ctx, v)
	switch x := o.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return w.origin(c, fa.X)
		}
	case *ssa.Field:
		return w.origin(c, x.X)
	}
	return c, o
}

// committee: v is the whole committee of a session, by party id.
func (w *World) committee(ctx *Ctx, v ssa.Value) bool {
	t := w.T(ctx, v).String()
	return t == fPeersOfMgr || strings.HasSuffix(t, "PartyInfo.PartyIDMap")
}

// notIn: the results of the functions of the blame manager that are the keys
// of all members of the committee that are not in the list given, the node
// itself left out.
func notIn(w *World, r *Report) map[string]int {
	out := map[string]int{}
	var cands []*ssa.Function
	for _, fn := range w.Funcs {
		if fn.Synthetic != "" || !strings.HasPrefix(fname(fn), "blame.") || fn.Signature.Recv() == nil || len(fn.Params) != 2 {
			continue
		}
		if sl, ok := fn.Params[1].Type().Underlying().(*types.Slice); ok && sl.Elem().String() == "string" {
			cands = append(cands, fn)
		}
	}
	for _, fn := range cands {
		if i := notInResult(w, r, fn); i >= 0 {
			out[fname(fn)] = i
			r.ObFn(fn, true, "gives the keys of all but the node itself and those listed")
		}
	}
	return out
}

func notInResult(w *World, r *Report, fn *ssa.Function) int {
	list := func(ctx *Ctx, v ssa.Value) bool {
		c, o := w.origin(ctx, v)
		return c.Parent == nil && o == ssa.Value(fn.Params[1])
	}
	res := map[int]string{}
	h := &Hooks{Track: trackAll, NoInline: func(f *ssa.Function) bool { return fname(f) == keysOfIDs }}
	q := &outSearch{w: w, list: list, coll: func(ctx *Ctx, v ssa.Value) bool { return w.committee(ctx, v) }}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome { return q.On(e, s, in) }
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[len(rt.Results)-1])) {
			return
		}
		for i := 0; i < len(rt.Results)-1; i++ {
			c, o := e.Resolve(s, s.ctx, rt.Results[i])
			ok := "0"
			if ex, isE := o.(*ssa.Extract); isE && ex.Index == 0 && s.Get("keys:"+w.idxKey(c, ex.Tuple)) == "1" {
				ok = "1"
			}
			if res[i] != "0" {
				res[i] = ok
			}
		}
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	for i := 0; i < 4; i++ {
		if res[i] == "1" {
			return i
		}
	}
	return -1
}

// outSearch follows loops over the committee that collect the ids not in a list.
type outSearch struct {
	w    *World
	list func(ctx *Ctx, v ssa.Value) bool
	coll func(ctx *Ctx, v ssa.Value) bool
	// diff: the list is taken away later (sets)
	diff bool
}

func (q *outSearch) On(e *Engine, s *State, in ssa.Instruction) []Outcome {
	w := q.w
	memb := &Memb{Atom: "on", w: w, Coll: q.list, Eq: func(ctx *Ctx, x, y ssa.Value) bool {
		return q.fromList(e, s, ctx, x) && q.ofMember(e, s, ctx, y)
	}}
	if c, enter, ok := loopHeader(in); ok && q.coll(s.ctx, c) {
		e.Hit("loop over the committee", in)
		id := fmt.Sprintf("L:%s", w.loopIndex(s.ctx, in))
		bad := s.Get(id + ".bad")
		if s.Get("el.on") == "" {
			bad = ""
		}
		if s.Get("el.p") != "" {
			bad = "1"
		}
		okv := "1"
		if bad != "" {
			okv = "0"
		}
		on := []string{"el.on", "1", "el.p", "1", "el.self", "", "el.i", w.loopIndex(s.ctx, in), "el.id", id, id + ".bad", bad, "ok:" + id, ""}
		off := []string{"el.on", "", "el.p", "", "el.self", "", "el.i", "", "el.id", "", id + ".bad", "", "ok:" + id, okv}
		var outs []Outcome
		if enter {
			outs = e.Fork(s, in.(ssa.Value), on, off)
		} else {
			outs = e.Fork(s, in.(ssa.Value), off, on)
		}
		for i := range outs {
			outs[i].S = memb.reset(outs[i].S)
		}
		return outs
	}
	if s.Get("el.on") != "" {
		if outs := memb.On(e, s, in); outs != nil {
			for i := range outs {
				if outs[i].S.Get("on.in") == "1" {
					outs[i].S = outs[i].S.With("el.p", "")
				}
			}
			return outs
		}
		switch x := in.(type) {
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				a, b := w.T(s.ctx, x.X).String(), w.T(s.ctx, x.Y).String()
				if a == fLocalOfMgr && q.ofMember(e, s, s.ctx, x.Y) || b == fLocalOfMgr && q.ofMember(e, s, s.ctx, x.X) {
					self, other := []string{"el.self", "1", "el.p", ""}, []string{"el.self", "0"}
					if x.Op == token.EQL {
						return e.Fork(s, x, self, other)
					}
					return e.Fork(s, x, other, self)
				}
			}
		case *ssa.Call:
			if callName(&x.Call) == "github.com/deckarep/golang-set.Set.Add" && q.diff {
				return q.collect(e, s, x, x.Call.Args[len(x.Call.Args)-1])
			}
			if els := storedElems(x); len(els) == 1 && els[0].Type().String() == "string" && !q.diff {
				return q.collect(e, s, x, els[0])
			}
		}
	}
	if cc := isCall(in, keysOfIDs); cc != nil {
		c := in.(*ssa.Call)
		good := "0"
		if id := q.whole(e, s, s.ctx, cc.Args[0]); id {
			good = "1"
		}
		if !w.committee(s.ctx, cc.Args[1]) {
			good = "0"
		}
		k := "keys:" + w.idxKey(s.ctx, c)
		return e.ForkErr(s, c, errIdx(c), []string{k, good}, []string{k, "0"})
	}
	return nil
}

// collect: in puts v on the list of those not there.
func (q *outSearch) collect(e *Engine, s *State, in ssa.Instruction, v ssa.Value) []Outcome {
	good := q.ofMember(e, s, s.ctx, v) && s.Get("el.self") == "0" && (q.diff || s.Get("on.out") == "1")
	if good {
		return []Outcome{{S: s.With("el.p", "", "site:"+q.w.idxKey(s.ctx, in.(ssa.Value)), s.Get("el.id"))}}
	}
	return []Outcome{{S: s.With("el.p", "", s.Get("el.id")+".bad", "1")}}
}

// whole: v is a list collected by loops over the whole committee.
func (q *outSearch) whole(e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	any := s.clone() // on any path
	any.facts = nil
	sites, ok := e.appendSites(any, ctx, v)
	if !ok {
		return false
	}
	for _, st := range sites {
		h := innermost(st.v.(ssa.Instruction).Block())
		if h == nil {
			return false
		}
		ok := false
		for _, i := range h.Instrs {
			if c, _, is := loopHeader(i); is && q.coll(st.ctx, c) && s.Get(fmt.Sprintf("ok:L:%s", q.w.loopIndex(st.ctx, i))) == "1" {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(sites) > 0
}

// ofMember: v is (the id of) the member of the committee at hand.
func (q *outSearch) ofMember(e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	for i := 0; i < 8; i++ {
		if curKey(q.w, e, s, ctx, v) || curElem(q.w, e, s, ctx, v) {
			return true
		}
		c, o := e.Resolve(s, ctx, v)
		switch x := o.(type) {
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			ctx, v = c, fa.X
		case *ssa.Field:
			ctx, v = c, x.X
		case *ssa.Call:
			n := callName(&x.Call)
			if !strings.HasSuffix(n, "peer.ID.String") && !strings.HasSuffix(n, "peer.ID.Pretty") && !strings.HasSuffix(n, ".GetId") && !strings.HasSuffix(n, "peer.IDB58Encode") && !strings.HasSuffix(n, "peer.Encode") {
				return false
			}
			a := x.Call.Args
			if len(a) != 1 {
				return false
			}
			ctx, v = c, a[0]
		default:
			return false
		}
	}
	return false
}

func (q *outSearch) fromList(e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	c, o := e.Resolve(s, ctx, v)
	switch x := o.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return q.list(c, ia.X)
		}
	}
	return false
}

func blameLists(w *World, r *Report) {
	heardOf(w, r)
	outs := notIn(w, r)
	if !r.ObGlobal(len(outs) > 0, "a function of the blame manager gives the keys of all members that are not in a list, the node itself left out") {
		return
	}
	nodeLists(w, r, outs, "blame.Manager.GetUnicastBlame", func(e *Engine, s *State, q *Copies, in *ssa.Call) {
		arg := in.Call.Args[len(in.Call.Args)-1]
		heard := func(ctx *Ctx, v ssa.Value) bool {
			fl := w.T(ctx, v).String()
			return fl == fUniPeers+"[blame.Manager.GetUnicastBlame#"+paramName(w, "blame.Manager.GetUnicastBlame", 1)+"]"
		}
		e.Ob(s, in, q.Whole(e, s, s.ctx, arg, heard), "one that sent its private share of the round is not left out of the blame")
	})
	nodeLists(w, r, outs, "blame.Manager.GetBroadcastBlame", nil)
	nodeLists(w, r, outs, "blame.Manager.TssMissingShareBlame", nil)
}

func paramName(w *World, fn string, i int) string {
	f := w.Fn(fn)
	if f == nil || i >= len(f.Params) {
		return "?"
	}
	return f.Params[i].Name()
}

// nodeLists: the nodes returned are those of the keys found, one for each.
func nodeLists(w *World, r *Report, outs map[string]int, name string, arg func(e *Engine, s *State, q *Copies, in *ssa.Call)) {
	fn := w.Fn(name)
	if !r.ObGlobal(fn != nil, name+" exists") {
		return
	}
	isList := func(in ssa.Instruction) (int, bool) {
		ci, ok := in.(*ssa.Call)
		if !ok {
			return 0, false
		}
		if i, ok := outs[callName(&ci.Call)]; ok {
			return i, true
		}
		if callName(&ci.Call) == keysOfIDs {
			return 0, true
		}
		return 0, false
	}
	nodes := typWord("[]" + w.nodeType())
	missing := name == "blame.Manager.TssMissingShareBlame"
	self := func(e *Engine, s *State, ctx *Ctx, b *ssa.BinOp) (bool, bool) {
		h := curLoop(b)
		if h == nil {
			return false, false
		}
		idx := w.loopIndex(ctx, h)
		q := &Copies{w: w}
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if w.T(ctx, p[0]).String() == fLocalOfMgr && q.derived(e, s, ctx, p[1], idx, 0) {
				return b.Op == token.EQL, true
			}
		}
		return false, false
	}
	var q *Copies
	q = &Copies{w: w, Skip: self}
	q.Got = func(e *Engine, s *State, in ssa.Instruction, id string) []string {
		c, _, _ := loopHeader(curLoop(in))
		if !w.inCommittee(s.ctx, c, fn) {
			return nil
		}
		if s.Get(id+".skip") != "0" {
			return []string{id + ".own", "1"} // the node itself may be among them
		}
		return nil
	}
	q.End = func(e *Engine, s *State, in ssa.Instruction, coll ctxVal, all []string) []string {
		ex, ok := coll.v.(*ssa.Extract)
		if !ok {
			return nil
		}
		k := w.idxKey(coll.ctx, ex.Tuple)
		if s.Get("open") == k {
			for _, a := range all {
				if a == nodes || a == "*" {
					return []string{"open", ""}
				}
			}
		}
		return nil
	}
	if missing {
		missingNext(w, q)
	}
	h := &Hooks{Track: trackAll, NoInline: func(f *ssa.Function) bool {
		_, ok := outs[fname(f)]
		return ok || fname(f) == keysOfIDs || fname(f) == "blame.RoundMgr.GetByRound"
	}}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if i, ok := isList(in); ok {
			c := in.(*ssa.Call)
			e.Hit("keys asked for: "+name, in)
			e.Ob(s, in, s.Get("open") == "", "the nodes found before are not blamed")
			if callName(&c.Call) == keysOfIDs {
				e.Ob(s, in, unheard(w, e, s, q, fn, c), "those blamed are not all members but the node itself that were not heard of in the round asked for")
				e.Ob(s, in, w.inCommittee(s.ctx, c.Call.Args[1], fn) || w.committee(s.ctx, c.Call.Args[1]), "the keys are not looked up in the committee")
			}
			if arg != nil {
				arg(e, s, q, c)
			}
			kv := []string{"open", w.idxKey(s.ctx, c), "asked", "1"}
			if missing {
				missingAsked(w, e, s, q, c)
				kv = append(kv, "named", "1")
			}
			_ = i
			return e.ForkErr(s, c, errIdx(c), kv, []string{"failed", "1"})
		}
		if missing {
			if o := missingOn(w, e, s, q, in); o != nil {
				return o
			}
		}
		return q.On(e, s, in)
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[len(rt.Results)-1])) {
			return
		}
		if s.Get("asked") != "" {
			e.Hit("nodes given: "+name, rt)
		}
		e.Ob(s, rt, s.Get("inmsg") == "", "not all messages are looked at")
		e.Ob(s, rt, s.Get("failed") == "", "blame that could not be worked out is given as complete")
		e.Ob(s, rt, s.Get("open") == "", "not all nodes found are blamed")
		if s.Get("asked") != "" {
			any := s.clone()
			any.facts = nil
			sites, ok := e.appendSites(any, s.ctx, rt.Results[0])
			e.Ob(s, rt, ok && len(sites) > 0 || hasMake(e, s, rt.Results[0]), "the nodes found are not given back")
			for _, st := range sites {
				for _, el := range storedElems(st.v.(ssa.Instruction)) {
					e.Ob(s, rt, nodeOfKey(w, e, s, any, q, st, el, isList), "a node is blamed under a key that was not found")
				}
			}
		}
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("keys asked for: "+name, 1)
	r.Need("nodes given: "+name, 1)
}

func (w *World) nodeType() string {
	for _, p := range w.Pkgs {
		if strings.HasSuffix(p.Pkg.Path(), "/blame") {
			if o := p.Pkg.Scope().Lookup("Node"); o != nil {
				return o.Type().String()
			}
		}
	}
	return "?"
}

func hasMake(e *Engine, s *State, v ssa.Value) bool {
	_, o := e.Resolve(s, s.ctx, v)
	_, ok := o.(*ssa.MakeSlice)
	return ok
}

// nodeOfKey: the node put on the list at site has the key of the round.
func nodeOfKey(w *World, e *Engine, path, s *State, q *Copies, site ctxVal, el ssa.Value, isList func(ssa.Instruction) (int, bool)) bool {
	in := site.v.(ssa.Instruction)
	h := curLoop(in)
	if h == nil {
		return false
	}
	c, _, _ := loopHeader(h)
	_, o := e.Resolve(path, site.ctx, c)
	ex, ok := o.(*ssa.Extract)
	if !ok {
		return false
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	if i, ok := isList(call); !ok || i != ex.Index {
		return false
	}
	st := structOf(el.Type())
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() != "Pubkey" {
			continue
		}
		vs := w.fieldVals(site.ctx, el, i)
		if len(vs) == 0 {
			return false
		}
		for _, v := range vs {
			if !q.derived(e, s, v.ctx, v.v, w.loopIndex(site.ctx, h), 0) {
				return false
			}
		}
		return true
	}
	return false
}

// inCommittee: v is the table of the parties of the session, or the parameter
// of a helper that gets it.
func (w *World) inCommittee(ctx *Ctx, v ssa.Value, entry *ssa.Function) bool {
	c, o := w.origin(ctx, v)
	return w.committee(c, o)
}

// unheard: the ids asked for are those of the committee, the node itself left
// out, that are not among those whose message of the round is on record.
func unheard(w *World, e *Engine, s *State, q *Copies, entry *ssa.Function, c *ssa.Call) bool {
	var diff *ssa.Call
	var dctx *Ctx
	src := func(ctx *Ctx, v ssa.Value) bool {
		c, o := w.origin(ctx, v)
		if call, ok := o.(*ssa.Call); ok && callName(&call.Call) == "github.com/deckarep/golang-set.Set.Difference" {
			diff, dctx = call, c
			return true
		}
		return false
	}
	if !q.Whole(e, s, s.ctx, c.Call.Args[0], src) || diff == nil {
		return false
	}
	own := false
	members := func(ctx *Ctx, v ssa.Value) bool { return w.inCommittee(ctx, v, entry) }
	if !q.Whole(e, s, dctx, diff.Call.Value, members) {
		return false
	}
	for k := range s.A {
		if strings.HasSuffix(k, ".own") && s.Get(k) == "1" {
			own = true
		}
	}
	if own {
		return false
	}
	heard := func(ctx *Ctx, v ssa.Value) bool {
		cx, o := w.origin(ctx, v)
		call, ok := o.(*ssa.Call)
		if !ok || callName(&call.Call) != "blame.RoundMgr.GetByRound" {
			return false
		}
		c2, p := w.origin(cx, call.Call.Args[1])
		return c2.Parent == nil && len(entry.Params) > 1 && p == ssa.Value(entry.Params[1])
	}
	return q.Whole(e, s, dctx, diff.Call.Args[0], heard)
}

// heardOf: the senders of the messages on record for a round are given back.
func heardOf(w *World, r *Report) {
	name := "blame.RoundMgr.GetByRound"
	fn := w.Fn(name)
	if !r.ObGlobal(fn != nil && len(fn.Params) == 2, name+" exists") {
		return
	}
	q := &Copies{w: w}
	q.Skip = func(e *Engine, s *State, ctx *Ctx, b *ssa.BinOp) (bool, bool) {
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			c, o := w.origin(ctx, p[0])
			if c.Parent == nil && o == ssa.Value(fn.Params[1]) && w.T(ctx, p[1]).String() == "messages.WireMessage.RoundInfo" {
				return b.Op == token.NEQ, true
			}
		}
		return false, false
	}
	q.Got = func(e *Engine, s *State, in ssa.Instruction, id string) []string {
		_, vals := puts(in)
		e.Hit("sender heard of", in)
		e.Ob(s, in, s.Get(id+".skip") == "0", "a sender counts as heard of in a round it sent nothing in")
		e.Ob(s, in, len(vals) == 1 && w.T(s.ctx, vals[0]).String() == fWireFrom, "what is given is not the sender of the message")
		return nil
	}
	h := &Hooks{Track: trackAll}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome { return q.On(e, s, in) }
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		stored := func(ctx *Ctx, v ssa.Value) bool { return w.T(ctx, v).String() == fStored }
		e.Ob(s, rt, q.Whole(e, s, s.ctx, rt.Results[0], stored), "one that was heard of is left out")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("sender heard of", 1)
}

const listOfLists = "[][]string"

// missingNext: for every message, up to the first round that is not complete.
func missingNext(w *World, q *Copies) {
	end := q.End
	q.End = func(e *Engine, s *State, in ssa.Instruction, coll ctxVal, all []string) []string {
		kv := end(e, s, in, coll, all)
		if w.T(coll.ctx, coll.v).String() == fAccepted {
			for _, a := range all {
				if a == listOfLists || a == "*" {
					kv = append(kv, "grouped", "1")
				}
			}
		}
		return kv
	}
	q.Next = func(e *Engine, s *State, in ssa.Instruction, coll ctxVal, enter bool) []string {
		t := coll.v.Type().Underlying()
		if m, ok := t.(*types.Map); ok && m.Elem().String() == listOfLists {
			old := begun(s, "cl:", "cm:")
			if enter { // once for both outcomes
				e.Hit("loop over the messages", in)
				e.Ob(s, in, s.Get("grouped") == "1", "not all shares that arrived are looked at")
				if s.Get("inmsg") != "" {
					e.Ob(s, in, s.Get("short") != "" || s.Get("rall") == "1", "not all rounds of a message are looked at")
					e.Ob(s, in, s.Get("short") == "" || s.Get("named") == "1", "nobody is blamed for the shares missing from a round")
				}
				return append(old, "inmsg", "1", "short", "", "named", "", "rall", "")
			}
			return append(old, "inmsg", "", "short", "", "named", "", "rall", "")
		}
		if t.String() == listOfLists {
			if enter {
				e.Ob(s, in, s.Get("short") == "", "a round after the first incomplete one is looked at")
				return begun(s, "cl:")
			}
			return []string{"rall", "1"}
		}
		return nil
	}
}

// begun: a list made up so far is one of a former round.
func begun(s *State, pre ...string) []string {
	var kv []string
	for k := range s.A {
		for _, p := range pre {
			if strings.HasPrefix(k, p) {
				kv = append(kv, k, "")
			}
		}
	}
	return kv
}

// anew: the list was started in the round at hand.
func anew(w *World, e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	c, o := e.Resolve(s, ctx, v)
	switch x := o.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		if k, ok := x.Len.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
			return true
		}
		return s.Get("cm:"+w.idxKey(c, x)) == "1"
	case *ssa.Slice:
		if k, ok := x.High.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if a, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				return a.Len() == 0
			}
		}
	case *ssa.Call:
		return s.Get("cl:"+w.idxKey(c, x)) == "1" || builtin(x) == "" && x.Type().String() == "[]string"
	}
	return e.ident(s, c, o) == s.Get("short") && s.Get("short") != ""
}

func builtin(c *ssa.Call) string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

func missingAsked(w *World, e *Engine, s *State, q *Copies, c *ssa.Call) {
	e.Ob(s, c, s.Get("short") != "", "somebody is blamed although all shares are there")
	src := func(ctx *Ctx, v ssa.Value) bool { return s.Get("short") != "" && e.ident(s, ctx, v) == s.Get("short") }
	e.Ob(s, c, q.Whole(e, s, s.ctx, c.Call.Args[len(c.Call.Args)-1], src), "one whose share of the round arrived is not left out of the blame")
	e.Ob(s, c, anew(w, e, s, s.ctx, c.Call.Args[len(c.Call.Args)-1]), "one heard of in another round, or for another message, is left out of the blame")
}

func missingOn(w *World, e *Engine, s *State, q *Copies, in ssa.Instruction) []Outcome {
	switch x := in.(type) {
	case *ssa.Call:
		if builtin(x) == "append" && x.Type().String() == "[]string" {
			k := ""
			if anew(w, e, s, s.ctx, x.Call.Args[0]) {
				k = "1"
			}
			t := s.With("cl:"+w.idxKey(s.ctx, x), k)
			if outs := q.On(e, t, in); outs != nil {
				return outs
			}
			return []Outcome{{S: t}}
		}
	case *ssa.MakeSlice:
		if x.Type().String() == "[]string" {
			return []Outcome{{S: s.With("cm:"+w.idxKey(s.ctx, x), "1")}}
		}
	}
	h := curLoop(in)
	if h == nil {
		return nil
	}
	idx := w.loopIndex(s.ctx, h)
	coll, _, _ := loopHeader(h)
	over := w.T(s.ctx, coll).String() == fAccepted
	switch x := in.(type) {
	case *ssa.Store:
		ia, ok := x.Addr.(*ssa.IndexAddr)
		if !over || !ok || !q.derived(e, s, s.ctx, x.Val, idx, 0) {
			return nil
		}
		e.Hit("share entered", in)
		e.Ob(s, in, w.T(s.ctx, ia.Index).String() == "blame.RoundInfo.Index", "the shares that arrived are not entered under their round")
		_, o := e.Resolve(s, s.ctx, ia.X)
		if ex, ok := o.(*ssa.Extract); ok {
			o = ex.Tuple
		}
		good := false
		switch y := o.(type) {
		case *ssa.Lookup:
			good = w.T(s.ctx, y.Index).String() == "blame.RoundInfo.MsgIdentifier"
		case *ssa.MakeSlice:
			for _, ref := range *y.Referrers() {
				if mu, ok := ref.(*ssa.MapUpdate); ok {
					good = w.T(s.ctx, mu.Key).String() == "blame.RoundInfo.MsgIdentifier"
				}
			}
		}
		e.Ob(s, in, good, "the shares that arrived are not entered under their message")
	case *ssa.BinOp:
		var a ssa.Value
		for _, side := range []ssa.Value{x.X, x.Y} {
			var find func(v ssa.Value, d int)
			find = func(v ssa.Value, d int) {
				if l := lenArg(v); l != nil && l.Type().String() == "[]string" && q.derived(e, s, s.ctx, l, idx, 0) {
					a = l
				}
				if b, ok := v.(*ssa.BinOp); ok && d < 4 {
					find(b.X, d+1)
					find(b.Y, d+1)
				}
			}
			find(side, 0)
		}
		if a == nil {
			return nil
		}
		isShort := func(val bool) bool {
			cmp, ok := w.binCmp(s.ctx, x, val)
			if !ok || len(cmp.L.M) != 2 {
				return false
			}
			p := cmp.L.M["len("+fPeersOfMgr+")"]
			switch cmp.Kind {
			case "NE":
				return p == 1 && cmp.L.C == -1 || p == -1 && cmp.L.C == 1
			case "GE":
				return p == 1 && cmp.L.C == -2
			}
			return false
		}
		kv := []string{"short", e.ident(s, s.ctx, a)}
		if isShort(true) {
			return e.Fork(s, x, kv, nil)
		}
		if isShort(false) {
			return e.Fork(s, x, nil, kv)
		}
	}
	return nil
}

const (
	askUnicast   = "blame.Manager.GetUnicastBlame"
	askBroadcast = "blame.Manager.GetBroadcastBlame"
	askMissing   = "blame.Manager.TssMissingShareBlame"
	addNodes     = "blame.Blame.AddBlameNodes"
	setBlame     = "blame.Blame.SetBlame"
	prevUnicast  = "conversion.GetPreviousKeySignUicast"
)

// blameSessions: what a session that ran out of time blames.
func blameSessions(w *World, r *Report) {
	asks := func(in ssa.Instruction) *ssa.Call {
		if isCall(in, askUnicast, askBroadcast, askMissing) != nil {
			c, _ := in.(*ssa.Call)
			return c
		}
		return nil
	}
	records := func(in ssa.Instruction) *ssa.CallCommon { return isCall(in, addNodes, setBlame) }
	inSession := func(in ssa.Instruction) bool { return asks(in) != nil }
	// the value is (an element of) a list asked for
	asked := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) (*Ctx, *ssa.Call) {
		c, o := e.Resolve(s, ctx, v)
		if ex, ok := o.(*ssa.Extract); ok && ex.Index == 0 {
			if call, ok := ex.Tuple.(*ssa.Call); ok && asks(call) != nil {
				return c, call
			}
		}
		return nil, nil
	}
	isThr := func(a string) bool {
		return a == thresholdOf+"((len(common.TssCommon.P2PPeers) + 1))" || a == thresholdOf+"(len(common.PartyInfo.PartyIDMap))"
	}
	{
		h := &Hooks{Track: trackAll, Interesting: func(in ssa.Instruction) bool { return inSession(in) || records(in) != nil }}
		h.NoInline = func(f *ssa.Function) bool {
			return strings.HasPrefix(fname(f), "blame.") || fname(f) == prevUnicast || fname(f) == thresholdOf
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			signing := strings.HasPrefix(fname(rootCtx(s.ctx).Fn), "keysign.")
			if c := asks(in); c != nil {
				e.Hit("asked for blame", in)
				name := callName(&c.Call)
				arg := c.Call.Args[len(c.Call.Args)-1]
				t := w.T(s.ctx, arg).String()
				last := strings.HasSuffix(t, "tss.Message.Type(blame.Manager.lastMsg)")
				switch name {
				case askUnicast:
					good := false
					if signing {
						prev := false
						if c2, o := e.Resolve(s, s.ctx, arg); o != nil {
							if pc, ok := o.(*ssa.Call); ok && callName(&pc.Call) == prevUnicast {
								prev = strings.HasSuffix(w.T(c2, pc.Call.Args[0]).String(), "tss.Message.Type(blame.Manager.lastMsg)")
							}
						}
						good = last && s.Get("bcast") == "0" || prev && s.Get("bcast") == "1"
					} else {
						good = t == repoConst(w, "messages", "KEYGEN2aUnicast")
					}
					e.Ob(s, in, good, "the private shares asked about are not those of the round the node is in ("+short(t)+")")
				case askBroadcast:
					e.Ob(s, in, last, "the broadcast asked about is not that of the round the node is in ("+short(t)+")")
				case askMissing:
					want := "TSSKEYGENROUNDS"
					if signing {
						want = "TSSKEYSIGNROUNDS"
					}
					e.Ob(s, in, t == repoConst(w, "messages", want), "missing shares are looked for in the rounds of another protocol")
					e.Ob(s, in, s.Get("already") == "0", "missing shares are asked about although somebody is blamed already, or before those of the last round are")
				}
				k := "L" + w.idxKey(s.ctx, c)
				kv := []string{name, k, k + ".le", "", k + ".some", "", k + ".in", "", k + ".pend", "", k + ".gap", "", k + ".done", ""}
				if i := errIdx(c); i >= 0 {
					return e.ForkErr(s, c, i, kv, append(append([]string{}, kv...), k+".in", "-"))
				}
				return []Outcome{{S: s.With(kv...)}}
			}
			if isCall(in, "blame.Blame.AlreadyBlame") != nil {
				return e.Fork(s, in.(ssa.Value), []string{"already", "1"}, []string{"already", "0"})
			}
			if cc, ok := in.(*ssa.Call); ok && strings.HasSuffix(callName(&cc.Call), "tss.Message.IsBroadcast") && strings.HasSuffix(w.T(s.ctx, cc).String(), "(blame.Manager.lastMsg)") {
				return e.Fork(s, cc, []string{"bcast", "1"}, []string{"bcast", "0"})
			}
			if isCall(in, "blame.Blame.GetFailReason") != nil {
				return []Outcome{{S: s.With("why", w.idxKey(s.ctx, in.(ssa.Value)), "noreason", "")}}
			}
			if cc := records(in); cc != nil {
				list := cc.Args[len(cc.Args)-1]
				if callName(cc) == setBlame {
					list = cc.Args[2]
					rc, ro := e.Resolve(s, s.ctx, cc.Args[1])
					good := false
					if k, ok := ro.(*ssa.Const); ok {
						good = w.T(rc, k).String() == repoConst(w, "blame", "TssTimeout") && s.Get("noreason") == "1"
					} else {
						good = s.Get("why") == w.idxKey(rc, ro) && s.Get("noreason") != "1"
					}
					e.Ob(s, in, good, "the reason recorded before is replaced, or none is given")
				}
				lc, call := asked(e, s, s.ctx, list)
				one := false
				if els := varElems(list); call == nil && len(els) == 1 {
					if h := curLoop(in); h != nil {
						coll, _, _ := loopHeader(h)
						if c2, call2 := asked(e, s, s.ctx, coll); call2 != nil && (&Copies{w: w}).derived(e, s, s.ctx, els[0], w.loopIndex(s.ctx, h), 0) {
							lc, call, one = c2, call2, true
						}
					}
				}
				e.Hit("blame applied", in)
				if call == nil {
					e.Ob(s, in, false, "somebody is blamed for a timeout without having been found missing")
					return nil
				}
				k := "L" + w.idxKey(lc, call)
				if callName(&call.Call) != askBroadcast {
					e.Ob(s, in, s.Get(k+".le") == "1", "nodes are blamed although there are more of them than the threshold")
				}
				if one {
					return []Outcome{{S: s.With(k+".pend", "0", "already", "")}}
				}
				return []Outcome{{S: s.With(k+".in", "1", "already", "")}}
			}
			if coll, enter, ok := loopHeader(in); ok {
				lc, call := asked(e, s, s.ctx, coll)
				if call == nil {
					return nil
				}
				// one by one
				k := "L" + w.idxKey(lc, call)
				on, off := []string{k + ".pend", "1"}, []string{k + ".pend", ""}
				switch {
				case s.Get(k+".pend") == "1":
					on = append(on, k+".gap", "1")
				case s.Get(k+".gap") == "":
					off = append(off, k+".done", "1")
				}
				if !enter {
					on, off = off, on
				}
				return e.Fork(s, in.(ssa.Value), on, off)
			}
			b, ok := in.(*ssa.BinOp)
			if !ok {
				return nil
			}
			// no reason so far
			if b.Op == token.EQL || b.Op == token.NEQ {
				for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					c, o := e.Resolve(s, s.ctx, p[0])
					if k, ok := p[1].(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "\"\"" && s.Get("why") == w.idxKey(c, o) && s.Get("why") != "" {
						yes, no := []string{"noreason", "1"}, []string{"noreason", "0"}
						if b.Op == token.NEQ {
							yes, no = no, yes
						}
						return e.Fork(s, b, yes, no)
					}
				}
			}
			if l, empty, ok := lenZero(in); ok {
				if lc, call := asked(e, s, s.ctx, l); call != nil {
					k := "L" + w.idxKey(lc, call)
					some, none := []string{k + ".some", "1"}, []string{k + ".some", "0"}
					if empty {
						return e.Fork(s, b, none, some)
					}
					return e.Fork(s, b, some, none)
				}
			}
			for _, side := range []ssa.Value{b.X, b.Y} {
				l := lenArg(side)
				if l == nil {
					continue
				}
				lc, call := asked(e, s, s.ctx, l)
				if call == nil {
					continue
				}
				k := "L" + w.idxKey(lc, call)
				le := func(val bool) string {
					cmp, ok := w.binCmp(s.ctx, b, val)
					if !ok || cmp.Kind != "GE" || len(cmp.L.M) != 2 {
						return ""
					}
					for a, n := range cmp.L.M {
						if isThr(a) && n == 1 && cmp.L.C == 0 {
							return "1"
						}
						if isThr(a) && n == -1 && cmp.L.C == -1 {
							return "0"
						}
					}
					return ""
				}
				if le(true) != "" {
					return e.Fork(s, b, []string{k + ".le", le(true)}, []string{k + ".le", le(false)})
				}
			}
			return nil
		}
		check := func(e *Engine, s *State, rt *ssa.Return) {
			if s.Get(askUnicast) == "" && s.Get(askBroadcast) == "" && s.Get(askMissing) == "" {
				return
			}
			e.Hit("session timed out", rt)
			done := func(name string) bool {
				k := s.Get(name)
				if k == "" {
					return false
				}
				return s.Get(k+".in") != "" || s.Get(k+".done") != "" || s.Get(k+".some") == "0" || s.Get(k+".le") == "0"
			}
			e.Ob(s, rt, done(askUnicast), "those whose private shares are missing are not blamed")
			e.Ob(s, rt, done(askBroadcast) && (s.Get(s.Get(askBroadcast)+".le") != "0" || s.Get(s.Get(askBroadcast)+".in") != ""), "those whose broadcast is missing are not blamed")
			e.Ob(s, rt, s.Get(askMissing) != "" && done(askMissing) || s.Get(askMissing) == "" && s.Get("already") == "1", "nobody is blamed for the shares that are missing")
		}
		h.OnReturn = check
		runEntries(w, r, h, func(fn *ssa.Function, in ssa.Instruction) bool { return inSession(in) }, func(fn *ssa.Function) bool {
			return hasInstr(fn, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Select); return ok })
		})
	}
	r.Need("asked for blame", 6)
	r.Need("blame applied", 6)
	r.Need("session timed out", 2)
}

func rootCtx(c *Ctx) *Ctx {
	for c.Parent != nil {
		c = c.Parent
	}
	return c
}

// repoConst: the term of a constant of the repository.
func repoConst(w *World, pkg, name string) string {
	if p := w.Pkgs[pkg]; p != nil {
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return c.Val().ExactString()
		}
	}
	return "?"
}

const (
	syncBlame = "blame.Manager.NodeSyncBlame"
	newBlame  = "blame.NewBlame"
	snapshot  = "blame.Blame.Snapshot"
	keyOfPeer = "conversion.GetPubKeyFromPeerID"
	peerOfPub = "conversion.GetPeerIDFromPubKey"
)

// blameJoin: a party that could not be formed blames those that did not show
// up, or the leader; a session that failed blames those it found.
func blameJoin(w *World, r *Report) {
	if fn := w.Fn(syncBlame); r.ObGlobal(fn != nil && len(fn.Params) == 3, syncBlame+" exists") {
		param := func(i int) func(ctx *Ctx, v ssa.Value) bool {
			return func(ctx *Ctx, v ssa.Value) bool {
				c, o := w.origin(ctx, v)
				return c.Parent == nil && o == ssa.Value(fn.Params[i])
			}
		}
		each := &Each{Atom: "el", w: w, Coll: param(1)}
		h := &Hooks{Track: trackAll, NoInline: func(f *ssa.Function) bool { return fname(f) == peerOfPub }}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			memb := &Memb{Atom: "on", w: w, Coll: param(2), Eq: func(ctx *Ctx, x, y ssa.Value) bool {
				c, o := e.Resolve(s, ctx, x)
				u, ok := o.(*ssa.UnOp)
				if !ok {
					return false
				}
				ia, ok := u.X.(*ssa.IndexAddr)
				if !ok || !param(2)(c, ia.X) {
					return false
				}
				yc, yo := e.Resolve(s, ctx, y)
				ex, ok := yo.(*ssa.Extract)
				return ok && ex.Index == 0 && s.Get("peer") != "" && s.Get("peer") == w.idxKey(yc, ex.Tuple)
			}}
			if outs := each.On(e, s, in, "one that did not show up is not blamed"); outs != nil {
				for i := range outs {
					outs[i].S = memb.reset(outs[i].S).With("peer", "")
				}
				return outs
			}
			if outs := memb.On(e, s, in); outs != nil {
				for i := range outs {
					if outs[i].S.Get("on.in") == "1" {
						outs[i].S = outs[i].S.With("el.p", "")
					}
				}
				return outs
			}
			if cc := isCall(in, peerOfPub); cc != nil {
				k := ""
				if curElem(w, e, s, s.ctx, cc.Args[0]) {
					k = w.idxKey(s.ctx, in.(*ssa.Call))
				}
				return e.ForkErr(s, in.(*ssa.Call), 1, []string{"peer", k}, []string{"peer", ""})
			}
			if c, ok := in.(*ssa.Call); ok && sliceElem(c.Type()) == tNode {
				els := storedElems(in)
				if len(els) == 0 {
					return nil
				}
				e.Hit("missing node", in)
				e.Ob(s, in, s.Get("on.out") == "1", "one that showed up is blamed")
				st := structOf(els[0].Type())
				good := len(els) == 1
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() != "Pubkey" {
						continue
					}
					vs := w.fieldVals(s.ctx, els[0], i)
					good = good && len(vs) > 0
					for _, v := range vs {
						good = good && curElem(w, e, s, v.ctx, v.v)
					}
				}
				e.Ob(s, in, good, "not the one that is missing is blamed")
				return []Outcome{{S: s.With("el.p", "")}}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if mayBeNil(e.Eval(s, rt.Results[1])) {
				e.Ob(s, rt, s.Get("el.all") == "1", "not everybody is looked for")
			}
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		r.Need("missing node", 1)
	}

	joins := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		f := c.Call.StaticCallee()
		if f == nil || !strings.HasPrefix(fname(f), "tss.") {
			return nil
		}
		rs := f.Signature.Results()
		if rs.Len() != 3 || sliceElem(rs.At(0).Type()) != "github.com/libp2p/go-libp2p-core/peer.ID" || rs.At(1).Type().String() != "string" {
			return nil
		}
		return c
	}
	runs := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if ok && (strings.HasSuffix(callName(&c.Call), ".GenerateNewKey") || strings.HasSuffix(callName(&c.Call), ".SignMessage")) {
			return c
		}
		return nil
	}
	h := &Hooks{Track: func(v ssa.Value) bool {
		t := v.Type()
		if a, ok := v.(*ssa.Alloc); ok {
			t = deref(a.Type())
		}
		n := tname(t)
		return n == tBlame || sliceElem(t) == "github.com/libp2p/go-libp2p-core/peer.ID" || t.String() == "error" || strings.HasSuffix(n, ".Response")
	}}
	h.Interesting = func(in ssa.Instruction) bool {
		return joins(in) != nil || runs(in) != nil || isCall(in, syncBlame, snapshot, newBlame) != nil
	}
	h.NoInline = func(f *ssa.Function) bool {
		n := fname(f)
		if strings.HasPrefix(n, "blame.") || n == keyOfPeer || strings.HasSuffix(n, ".GenerateNewKey") || strings.HasSuffix(n, ".SignMessage") {
			return true
		}
		rs := f.Signature.Results()
		return rs.Len() == 3 && sliceElem(rs.At(0).Type()) == "github.com/libp2p/go-libp2p-core/peer.ID" && strings.HasPrefix(n, "tss.")
	}
	var kindOf func(e *Engine, s *State, ctx *Ctx, v ssa.Value) string
	// the result of the join that v is
	fromJoin := func(e *Engine, s *State, ctx *Ctx, v ssa.Value, i int) bool {
		c, o := e.Resolve(s, ctx, v)
		ex, ok := o.(*ssa.Extract)
		return ok && ex.Index == i && s.Get("join") != "" && s.Get("joinkey") == w.idxKey(c, ex.Tuple)
	}
	// what a blame is made of on a path
	kindOf = func(e *Engine, s *State, ctx *Ctx, v ssa.Value) string {
		c, o := e.Resolve(s, ctx, v)
		var call *ssa.Call
		switch x := o.(type) {
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return ""
			}
			return s.Get("bl:" + w.idxKey(c, al))
		case *ssa.Extract:
			call, _ = x.Tuple.(*ssa.Call)
		case *ssa.Call:
			call = x
		}
		if call == nil {
			return ""
		}
		switch callName(&call.Call) {
		case syncBlame:
			if s.Get("ns") == w.idxKey(c, call) {
				return "missing"
			}
		case snapshot:
			if s.Get("snap") == w.idxKey(c, call) {
				return "snapshot"
			}
		case newBlame:
			if leaderIn(w, e, s, c, call.Call.Args[1]) {
				return "leader"
			}
			if sp := w.sliceParts(c, call.Call.Args[1], nil); len(sp.Vals) == 0 && len(sp.SpVals) == 0 {
				return "empty"
			}
		}
		return ""
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if st, ok := in.(*ssa.Store); ok {
			if al, ok := st.Addr.(*ssa.Alloc); ok && tname(deref(al.Type())) == tBlame {
				return []Outcome{{S: s.With("bl:"+w.idxKey(s.ctx, al), kindOf(e, s, s.ctx, st.Val))}}
			}
			if f, _ := storeField(in); f == fNodes {
				// only adding to the list keeps what it is
				c, o := e.Resolve(s, s.ctx, st.Addr.(*ssa.FieldAddr).X)
				if al, ok := o.(*ssa.Alloc); ok {
					if fl := w.T(s.ctx, st.Val).flat(); len(fl) == 0 || !fl[0].mentions(fNodes) || fl[0].Op == "slice" {
						return []Outcome{{S: s.With("bl:"+w.idxKey(c, al), "", "snap", "", "ns", "")}}
					}
				}
			}
			return nil
		}
		if c := joins(in); c != nil {
			e.Hit("party joined", in)
			keys := ""
			for _, a := range c.Call.Args {
				if a.Type().String() == "[]string" {
					keys = w.T(s.ctx, a).String()
				}
			}
			kv := []string{"joinkey", w.idxKey(s.ctx, c), "keys", keys, "frame", fname(c.Parent()), "none", "", "lk", "", "ns", "", "added", ""}
			return e.ForkErr(s, c, 2, append([]string{"join", "ok"}, kv...), append([]string{"join", "bad"}, kv...))
		}
		if c := runs(in); c != nil {
			e.Hit("session run", in)
			return e.ForkErr(s, c, errIdx(c), []string{"run", "ok", "snap", ""}, []string{"run", "bad", "snap", ""})
		}
		if isCall(in, snapshot) != nil {
			return []Outcome{{S: s.With("snap", w.idxKey(s.ctx, in.(ssa.Value)))}}
		}
		if cc := isCall(in, syncBlame); cc != nil {
			e.Hit("missing asked for", in)
			kt := w.T(s.ctx, cc.Args[1]).String()
			e.Ob(s, in, kt == s.Get("keys") || strings.HasSuffix(kt, ".Request.SignerPubKeys") || strings.HasSuffix(kt, ".Request.Keys"), "those looked for are not those asked to take part ("+short(kt)+")")
			e.Ob(s, in, fromJoin(e, s, s.ctx, cc.Args[2], 0), "those taken for present are not those that joined")
			c := in.(*ssa.Call)
			return e.ForkErr(s, c, 1, []string{"ns", w.idxKey(s.ctx, c)}, []string{"ns", w.idxKey(s.ctx, c)})
		}
		if cc := isCall(in, keyOfPeer); cc != nil && fromJoin(e, s, s.ctx, cc.Args[0], 1) {
			c := in.(*ssa.Call)
			return e.ForkErr(s, c, 1, []string{"lk", w.idxKey(s.ctx, c)}, []string{"lk", "none"})
		}
		if cc := isCall(in, addNodes); cc != nil && s.Get("join") == "bad" {
			if leaderNodes(w, e, s, s.ctx, cc.Args[1]) {
				return []Outcome{{S: s.With("added", "1")}}
			}
		}
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if !fromJoin(e, s, s.ctx, p[0], 1) {
					continue
				}
				if k, ok := p[1].(*ssa.Const); ok && k.Value != nil {
					no, le := []string{"leader", "0"}, []string{"leader", "1"}
					if b.Op == token.NEQ {
						no, le = le, no
					}
					return e.Fork(s, b, no, le)
				}
			}
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := p[1].(*ssa.Const); ok && k.Value == nil && fromJoin(e, s, s.ctx, p[0], 0) {
					none, some := []string{"none", "1"}, []string{}
					if b.Op == token.NEQ {
						none, some = some, none
					}
					return e.Fork(s, b, none, some)
				}
			}
		}
		if l, empty, ok := lenZero(in); ok && fromJoin(e, s, s.ctx, l, 0) {
			none, some := []string{"none", "1"}, []string{"none", "0"}
			if !empty {
				none, some = some, none
			}
			return e.Fork(s, in.(ssa.Value), none, some)
		}
		return nil
	}
	h.OnRet = func(e *Engine, s *State, rt *ssa.Return) *State {
		if len(rt.Results) == 0 || !strings.HasSuffix(tname(rt.Results[0].Type()), ".Response") || s.Get("frame") != fname(rt.Parent()) {
			return s
		}
		if !(s.Get("join") == "bad" || s.Get("run") == "bad") {
			return s
		}
		keygen := strings.HasPrefix(tname(rt.Results[0].Type()), "keygen.")
		if s.Get("join") == "bad" && w.signReceived(e, s, rt) {
			return s
		}
		e.Hit("failed response", rt)
		st := structOf(rt.Results[0].Type())
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != "Blame" {
				continue
			}
			c0, o0 := e.Resolve(s, s.ctx, rt.Results[0])
			vs := w.fieldVals(c0, o0, i)
			e.Ob(s, rt, len(vs) > 0, "a failed request is answered without blame")
			for _, v := range vs {
				kind := kindOf(e, s, v.ctx, v.v)
				if s.Get("join") == "ok" {
					e.Ob(s, rt, kind == "snapshot", "a failed session does not give back the blame it found")
					continue
				}
				good := false
				switch kind {
				case "missing":
					good = s.Get("leader") == "0" || s.Get("added") == "1" || s.Get("lk") == "none"
				case "leader":
					good = s.Get("leader") == "1" && (!keygen || s.Get("none") == "1")
				case "empty":
					good = s.Get("leader") == "1" && s.Get("lk") == "none" && (!keygen || s.Get("none") == "1") || s.Get("leader") == "0" && s.Get("none") == "1"
				}
				e.Ob(s, rt, good, "a party that was not formed is not answered with those that did not show up, or its leader ("+kind+")")
			}
		}
		return s
	}
	runEntries(w, r, h, func(fn *ssa.Function, in ssa.Instruction) bool { return joins(in) != nil }, nil)
	r.Need("party joined", 2)
	r.Need("session run", 2)
	r.Need("missing asked for", 2)
	r.Need("failed response", 4)
}

// leaderIn: the list names the leader that was found.
func leaderIn(w *World, e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	sp := w.sliceParts(ctx, v, nil)
	if len(sp.Vals) != 1 || len(sp.SpVals) != 0 {
		return false
	}
	el := sp.Vals[0]
	st := structOf(el.v.Type())
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() != "Pubkey" {
			continue
		}
		for _, x := range w.fieldVals(el.ctx, el.v, i) {
			c, o := e.Resolve(s, x.ctx, x.v)
			ex, ok := o.(*ssa.Extract)
			if ok && ex.Index == 0 && s.Get("lk") == w.idxKey(c, ex.Tuple) {
				return true
			}
		}
	}
	return false
}

// leaderNodes: v is the list of nodes of a blame that names the leader.
func leaderNodes(w *World, e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	c, o := e.Resolve(s, ctx, v)
	u, ok := o.(*ssa.UnOp)
	if !ok {
		return leaderIn(w, e, s, ctx, v)
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || addrField(u.X) != fNodes {
		return leaderIn(w, e, s, ctx, v)
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	k := s.Get("bl:" + w.idxKey(c, al))
	return k == "leader" || k == "empty" && s.Get("lk") == "none"
}

// signReceived: the error returned is that the signature came from elsewhere.
func (w *World) signReceived(e *Engine, s *State, rt *ssa.Return) bool {
	v := e.Eval(s, rt.Results[len(rt.Results)-1])
	return len(rt.Results) > 1 && v != aNil && v != ""
}
