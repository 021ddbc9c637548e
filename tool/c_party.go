package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tStatus  = "p2p.PeerStatus"
	tLeadMsg = "messages.JoinPartyLeaderComm"
	tJoinReq = "messages.JoinPartyRequest"
	fGroups  = "p2p.PartyCoordinator.peersGroup"
	joinLead = "p2p.PartyCoordinator.JoinPartyWithLeader"
	joinAll  = "p2p.PartyCoordinator.JoinPartyWithRetry"
)

func init() {
	register(&propDef{
		ID:    "C15",
		Title: "A party is formed only of peers that joined it",
		Rule: "Path-sensitive interprocedural dataflow. A join request marks a peer as online only in the group filed for the message ID decoded from it, only the remote peer of its own connection and only if the group knows that peer; every known peer is marked unless enough have joined, and the waiter is woken when a peer joined (without a leader) or the threshold is reached (with one). A leader's response is stored only if it came over the connection of the leader of that group. " +
			"Forming a party succeeds, for the leader, with the online peers and itself, only if these are more than the threshold, after it told every other peer exactly this list as a success; if they are fewer it tells them of the timeout and fails; for a member, with the list of a response of type success that its leader sent, decoded in full, of at least the threshold; without a leader, with the online peers and itself, only if these are as many as all peers, after it asked all of them. A signature received ends the attempt as such. " +
			"The sessions pass their own ID, height, threshold and the peers of all participants, use the leader exactly for the versions that have one, and sign with exactly the peers that came online, if the node is one of them; keys are generated only after the party was formed.",
		Run: runC15,
	})
}

// isPeerMap: which peers of a group are online.
func isPeerMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || tname(m.Key()) != tPeer {
		return false
	}
	b, ok := m.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func runC15(w *World, r *Report) {
	joinRecords(w, r)
	partyListing(w, r)
	partyDecode(w, r)
	partyStatus(w, r)
	fans := w.fanOuts()
	for fn := range fans {
		fanOut(w, r, fn)
	}
	for _, n := range []string{joinLead, joinAll} {
		fn := w.Fn(n)
		if r.ObGlobal(fn != nil, "entry point "+n+" exists") {
			partyResult(w, r, fn, fans)
		}
	}
	for n, k := range map[string]int{"group filed": 1, "party formed": 3, "party not formed": 2, "request sent": 1, "response sent": 1, "sent to all": 2, "peers listed": 2, "online peers asked": 1, "offline peers asked": 1, "leader chosen": 1, "role decided": 1, "size compared": 3, "type compared": 1} {
		r.Need(n, k)
	}
	joinWiring(w, r)
}

// ---------------------------------------------------------------- recording

func joinRecords(w *World, r *Report) {
	visited := map[*ssa.Function]bool{}
	constBool := func(v ssa.Value) string {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			return fmt.Sprint(constant.BoolVal(k.Value))
		}
		return "?"
	}
	isSend := func(in ssa.Instruction) string { // which of the two wake-up channels
		if x, ok := in.(*ssa.Send); ok {
			return addrField(x.Chan)
		}
		return ""
	}
	n := 0
	for fn, proto := range w.handlersOf() {
		if !strings.HasPrefix(proto, "/p2p/join-party") {
			continue
		}
		n++
		var stream ssa.Value
		for _, p := range fn.Params {
			if tname(p.Type()) == tStream {
				stream = p
			}
		}
		isDec := func(in ssa.Instruction) *ssa.Call {
			c, ok := in.(*ssa.Call)
			if ok && strings.HasSuffix(callName(&c.Call), "proto.Unmarshal") {
				return c
			}
			return nil
		}
		h := &Hooks{Track: func(v ssa.Value) bool { return true }}
		h.NoInline = func(f *ssa.Function) bool {
			switch fname(f) {
			case readFrame, writeFrame, addStream:
				return true
			}
			return false
		}
		h.Interesting = func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Lookup:
				return isPeerMap(x.X.Type()) || addrField(x.X) == fGroups
			case *ssa.MapUpdate:
				return isPeerMap(x.Map.Type())
			case *ssa.Select:
				for _, st := range x.States {
					if strings.HasPrefix(addrField(st.Chan), tStatus+".") {
						return true
					}
				}
			case ssa.CallInstruction:
				if lockCall(x.Common()) != "" {
					return true
				}
			}
			if f, _ := storeField(in); f == tStatus+".leaderResponse" || f == tStatus+".reqCount" {
				return true
			}
			return strings.HasPrefix(isSend(in), tStatus+".") || isDec(in) != nil || isCall(in, readFrame) != nil
		}
		inGroup := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
			// the value of field of the group that was found
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				v = u.X
			}
			fa, ok := v.(*ssa.FieldAddr)
			return ok && s.Get("grp") != "" && e.entryOf(s, ctx, fa.X) == s.Get("grp")
		}
		wake := func(e *Engine, s *State, in ssa.Instruction, ch ssa.Value) *State {
			e.Ob(s, in, inGroup(e, s, s.ctx, ch), "a waiter of another group is woken")
			switch addrField(ch) {
			case tStatus + ".notify":
				e.Hit("waiter woken", in)
				e.Ob(s, in, s.Get("rec") == "1" && s.Get("enough") == "1" || s.Get("resp") == "1" || s.Get("alone") == "1", "the waiter is woken although the party is not complete")
				return s.With("woke", "1")
			case tStatus + ".newFound":
				e.Hit("waiter woken", in)
				e.Ob(s, in, s.Get("rec") == "1", "the waiter is woken although no peer joined")
				return s.With("woke", "1")
			}
			return s
		}
		h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
			for _, st := range sel.States {
				if st.Dir == types.SendOnly && strings.HasPrefix(addrField(st.Chan), tStatus+".") {
					return wake(e, s, sel, st.Chan)
				}
			}
			return s
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			visited[in.Parent()] = true
			if c := isDec(in); c != nil {
				_, o := e.Resolve(s, s.ctx, c.Call.Args[0])
				a := c.Call.Args[1]
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if ex, ok := o.(*ssa.Extract); ok && fmt.Sprintf("%p", ex.Tuple) == s.Get("rd") {
					return e.ForkErr(s, c, -1, []string{"dec:" + w.decoded(s.ctx, c.Call.Args[1]), tname(deref(a.Type()))}, nil)
				}
			}
			if cc := callAt(s, in); cc != nil {
				if lc := lockCall(cc); lc != "" {
					rcv, _ := callArgs(cc)
					k := "lk:" + addrField(rcv)
					if lc == "unlock" {
						return []Outcome{{S: s.With(k, "")}}
					}
					return []Outcome{{S: s.With(k, lc)}}
				}
				if callName(cc) == readFrame {
					if c, ok := in.(*ssa.Call); ok {
						return e.ForkErr(s, c, errIdx(c), []string{"rd", fmt.Sprintf("%p", c)}, nil)
					}
				}
				return nil
			}
			switch x := in.(type) {
			case *ssa.Send:
				if strings.HasPrefix(isSend(in), tStatus+".") {
					return []Outcome{{S: wake(e, s, in, x.Chan)}}
				}
			case *ssa.Lookup:
				if addrField(x.X) == fGroups {
					e.Hit("group looked up", in)
					good := false
					for k, typ := range s.A {
						if strings.HasPrefix(k, "dec:") {
							good = good || w.inDecoded(s.ctx, x.Index, strings.TrimPrefix(k, "dec:"), typ, "ID")
						}
					}
					e.Ob(s, in, good, "the group of another message ID is looked up")
					e.Ob(s, in, s.Get("lk:p2p.PartyCoordinator.joinPartyGroupLock") != "", "the groups are read without their lock")
					return e.lookupOutcomes(s, x, []string{"grp", e.lookupKey(s.ctx, x)}, nil)
				}
				if isPeerMap(x.X.Type()) {
					e.Hit("peer looked up", in)
					c, o := e.Resolve(s, s.ctx, x.Index)
					mine := w.remoteOf(c, o, stream) && inGroup(e, s, s.ctx, x.X)
					e.Ob(s, in, mine, "another peer than the one that is asking is looked up")
					e.Ob(s, in, s.Get("lk:"+tStatus+".peerStatusLock") != "", "the peers are read without their lock")
					if !mine {
						return nil
					}
					miss, off, on := s.With("known", "0"), s.With("known", "1"), s.With("known", "1", "was", "1")
					if x.CommaOk {
						for _, z := range []struct {
							s    *State
							v, k bool
						}{{miss, false, false}, {off, false, true}, {on, true, true}} {
							e.SetVal(z.s, x, 0, boolA(z.v))
							e.SetVal(z.s, x, 1, boolA(z.k))
						}
						return []Outcome{{S: miss, Handled: true}, {S: off, Handled: true}, {S: on, Handled: true}}
					}
					un := s.With("known", s.Get("known"))
					e.SetVal(un, x, -1, aFalse)
					e.SetVal(on, x, -1, aTrue)
					return []Outcome{{S: un, Handled: true}, {S: on, Handled: true}}
				}
			case *ssa.MapUpdate:
				if isPeerMap(x.Map.Type()) {
					e.Hit("peer recorded", in)
					e.Ob(s, in, constBool(x.Value) == "true", "a peer that asked is recorded as offline")
					c, o := e.Resolve(s, s.ctx, x.Key)
					e.Ob(s, in, w.remoteOf(c, o, stream), "another peer than the one that is asking is recorded as online")
					e.Ob(s, in, inGroup(e, s, s.ctx, x.Map), "a peer is recorded in another group")
					e.Ob(s, in, s.Get("known") == "1", "a peer that does not belong to the group is recorded as online")
					e.Ob(s, in, s.Get("lk:"+tStatus+".peerStatusLock") == "lock", "a peer is recorded without the lock")
					return []Outcome{{S: s.With("rec", "1")}}
				}
			case *ssa.Store:
				switch f, st := storeField(in); f {
				case tStatus + ".reqCount":
					return []Outcome{{S: s.With("enough", "")}}
				case tStatus + ".leaderResponse":
					e.Hit("response stored", in)
					e.Ob(s, in, inGroup(e, s, s.ctx, st.Addr), "a response is stored in another group")
					e.Ob(s, in, s.Get("lead") == "1", "a response is stored that did not come from the leader")
					e.Ob(s, in, s.Get("lk:"+tStatus+".leaderResponseLock") == "lock", "a response is stored without the lock")
					c, o := e.Resolve(s, s.ctx, st.Val)
					e.Ob(s, in, s.Get("dec:"+w.idxKey(c, o)) == tLeadMsg || s.Get("dec:"+w.respVar(c, o)) == tLeadMsg, "what is stored is not the response that was read")
					return []Outcome{{S: s.With("resp", "1")}}
				}
			case *ssa.BinOp:
				switch x.Op {
				case token.EQL, token.NEQ:
					for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						lead := func(v ssa.Value) bool {
							c, o := w.origin(s.ctx, v)
							u, ok := o.(*ssa.UnOp)
							if !ok || addrField(u.X) != tStatus+".leader" {
								return false
							}
							return inGroup(e, s, c, u)
						}
						if !lead(p[0]) {
							continue
						}
						_, o := w.origin(s.ctx, p[1])
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "NONE" {
							if a := s.Get("alone"); a != "" {
								return e.Decide(s, x, (a == "1") == (x.Op == token.EQL))
							}
							if x.Op == token.EQL {
								return e.Fork(s, x, []string{"alone", "1"}, []string{"alone", "0"})
							}
							return e.Fork(s, x, []string{"alone", "0"}, []string{"alone", "1"})
						}
						if c, ok := o.(*ssa.Call); ok && callName(&c.Call) == tPeer+".String" {
							c2, _ := w.origin(s.ctx, p[1])
							if w.remoteOf(c2, c.Call.Args[0], stream) {
								e.Hit("leader compared", in)
								if x.Op == token.EQL {
									return e.Fork(s, x, []string{"lead", "1"}, nil)
								}
								return e.Fork(s, x, nil, []string{"lead", "1"})
							}
						}
					}
				case token.GEQ, token.GTR, token.LSS, token.LEQ:
					want := Lin{M: map[string]int{tStatus + ".reqCount": 1, tStatus + ".threshold": -1}}
					less := Lin{M: map[string]int{tStatus + ".reqCount": -1, tStatus + ".threshold": 1}, C: -1}
					know := func(val bool) []string {
						c, ok := w.binCmp(s.ctx, x, val)
						if !ok {
							return nil
						}
						if c.impliesGE(want) {
							return []string{"enough", "1"}
						}
						if c.impliesGE(less) {
							return []string{"enough", "0"}
						}
						return nil
					}
					if t, f := know(true), know(false); t != nil || f != nil {
						e.Hit("threshold compared", in)
						return e.Fork(s, x, t, f)
					}
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if s.Get("known") == "1" {
				e.Hit("request handled", rt)
				e.Ob(s, rt, s.Get("rec") == "1" || s.Get("was") == "1" || s.Get("alone") == "0" && s.Get("enough") == "1", "a peer of the group that asks to join is not recorded")
			}
			if s.Get("rec") == "1" {
				switch s.Get("alone") {
				case "1":
					e.Ob(s, rt, s.Get("woke") == "1", "the waiter is not told that a peer joined")
				case "0":
					e.Ob(s, rt, s.Get("enough") == "0" || s.Get("woke") == "1", "the waiter is not told that the party is complete")
				}
			}
			if s.Get("resp") == "1" {
				e.Ob(s, rt, s.Get("woke") == "1", "the waiter is not told of the response")
			}
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	}
	r.ObGlobal(n >= 2, "the two join party handlers are registered")
	for k, c := range map[string]int{"group looked up": 2, "peer looked up": 1, "peer recorded": 2, "response stored": 1, "leader compared": 1, "threshold compared": 1, "waiter woken": 3, "request handled": 2} {
		r.Need(k, c)
	}
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if f, st := storeField(in); f == tStatus+".leaderResponse" && !isNil(st.Val) || f == tStatus+".leader" || f == tStatus+".threshold" {
				base := st.Addr.(*ssa.FieldAddr).X
				_, fresh := base.(*ssa.Alloc)
				r.Ob(in, fresh || visited[fn] && f == tStatus+".leaderResponse", "a peer group is changed outside of the analysed handlers")
			}
			if mu, ok := in.(*ssa.MapUpdate); ok && isPeerMap(mu.Map.Type()) && !visited[fn] {
				r.Ob(in, constBool(mu.Value) == "false", "a peer is recorded as online outside of the handlers")
			}
		})
	}
}

// ---------------------------------------------------------------- result

// mapper follows loops that build a list (or set, or fan out) from every
// element of another list. Facts: "cp:<tag>" = the list whose every element
// was stored under the tag in the last complete loop.
type mapper struct {
	w     *World
	colls map[string]ctxVal
}

func (m *mapper) isList(v ssa.Value) bool {
	t := sliceElem(v.Type())
	return t == "string" || t == tPeer
}

func (m *mapper) key(e *Engine, s *State, ctx *Ctx, v ssa.Value) string {
	c, o := e.Resolve(s, ctx, v)
	return m.w.idxKey(c, o)
}

// at: the element v derives from is the one the loop is at.
func (m *mapper) at(e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	for _, typ := range []string{"string", tPeer} {
		coll, k := m.w.elemRef(ctx, v, typ)
		if coll.v != nil && k == s.Get("mp.i") && s.Get("mp.c") != "" && m.key(e, s, coll.ctx, coll.v) == s.Get("mp.c") {
			return true
		}
	}
	return false
}

func (m *mapper) tag(s *State, tag string) *State { return s.With("mp.v", tag) }

// stored: in puts a value into a list.
func storedElems(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if _, isSl := ia.X.Type().Underlying().(*types.Slice); isSl {
				return []ssa.Value{x.Val}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			var out []ssa.Value
			for _, a := range x.Call.Args[1:] {
				if sl, ok := a.(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if ia, ok := r.(*ssa.IndexAddr); ok {
								for _, rr := range *ia.Referrers() {
									if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
										out = append(out, st.Val)
									}
								}
							}
						}
					}
				}
			}
			return out
		}
	}
	return nil
}

// On: done is called with the state at the end of a complete loop.
func (m *mapper) On(e *Engine, s *State, in ssa.Instruction, done func(s *State, coll ssa.Value, tag string) *State) []Outcome {
	if coll, enter, ok := loopHeader(in); ok && m.isList(coll) {
		k := m.key(e, s, s.ctx, coll)
		c0, o0 := e.Resolve(s, s.ctx, coll)
		m.colls[k] = ctxVal{c0, o0}
		n, last := "", ""
		if s.Get("mp.c") == k && s.Get("mp.h") == fmt.Sprintf("%p", in) {
			n, last = s.Get("mp.n"), s.Get("mp.last")
			v := s.Get("mp.v")
			switch {
			case v == "" || n == "0":
				n = "0"
			case v == "skip" && last == "":
				n, last = "1", "skip"
			case v == "skip" || last == "" || last == "skip" || last == v:
				n = "1"
				if v != "skip" {
					last = v
				}
			default:
				n = "0"
			}
			if v == "skip" && n == "1" {
				s = s.With("mp.sk", "1")
			}
		} else {
			s = s.With("mp.sk", "")
		}
		sk := s.Get("mp.sk")
		on := []string{"mp.c", k, "mp.h", fmt.Sprintf("%p", in), "mp.i", m.w.loopIndex(s.ctx, in), "mp.v", "", "mp.n", n, "mp.last", last}
		off := []string{"mp.c", "", "mp.h", "", "mp.i", "", "mp.v", "", "mp.n", "", "mp.last", "", "mp.sk", ""}
		if c, ok := o0.(*ssa.Call); ok && n == "" && len(storedElems(c)) > 0 {
			// something was just appended, there is a first element
			o := e.Decide(s, in.(ssa.Value), enter)
			o[0].S = o[0].S.With(on...)
			return o
		}
		switch n {
		case "":
			off = append(off, "empty:"+k, "1")
		case "1":
			if sk == "" || !strings.HasPrefix(last, "val:") {
				off = append(off, "cp:"+last, k, "empty:"+k, "")
			}
		}
		var outs []Outcome
		if enter {
			outs = e.Fork(s, in.(ssa.Value), on, off)
		} else {
			outs = e.Fork(s, in.(ssa.Value), off, on)
		}
		if done != nil {
			tag := ""
			if n == "1" {
				tag = last
			} else if n == "" {
				tag = "empty"
			}
			for i := range outs {
				if e.Eval(outs[i].S, in.(ssa.Value)) == boolA(!enter) {
					outs[i].S = done(outs[i].S, coll, tag)
				}
			}
		}
		return outs
	}
	for _, v := range storedElems(in) {
		if c, o := e.Resolve(s, s.ctx, v); s.Get("mp.c") != "" && (m.at(e, s, s.ctx, v) || m.at(e, s, c, o)) {
			return []Outcome{{S: m.tag(s, "val:"+m.w.idxKey(s.ctx, v))}}
		}
	}
	return nil
}

// source: the list D was built from, element by element, with f.
func (m *mapper) source(e *Engine, s *State, ctx *Ctx, d ssa.Value, f func(ctx *Ctx, v ssa.Value) bool) (ctxVal, bool) {
	if l := m.sources(e, s, ctx, d, f); len(l) > 0 {
		return l[0], true
	}
	return ctxVal{}, false
}

// sources: as source; an empty list may have been built from any empty list.
func (m *mapper) sources(e *Engine, s *State, ctx *Ctx, d ssa.Value, f func(ctx *Ctx, v ssa.Value) bool) []ctxVal {
	c, o := e.Resolve(s, ctx, d)
	p := m.w.sliceParts(c, o, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
	if k, ok := o.(*ssa.Const); ok && k.IsNil() || p.OK && len(p.Vals) == 0 && len(p.Spread) == 0 {
		var out []ctxVal
		for k, v := range s.A {
			if strings.HasPrefix(k, "empty:") && v == "1" {
				if c, ok := m.colls[strings.TrimPrefix(k, "empty:")]; ok {
					out = append(out, c)
				}
			}
		}
		return out
	}
	if !p.OK || len(p.Vals) != 1 || len(p.Spread) > 0 {
		return nil
	}
	v := p.Vals[0]
	if mk, ok := o.(*ssa.MakeSlice); ok {
		if l := lenArg(mk.Len); l != nil {
			if ck := m.key(e, s, c, l); s.Get("empty:"+ck) == "1" {
				lc, lo := e.Resolve(s, c, l)
				return []ctxVal{{lc, lo}}
			}
		}
	}
	vc, vo := e.Resolve(s, v.ctx, v.v)
	vc, vo = m.w.origin(vc, vo)
	if !f(vc, vo) {
		return nil
	}
	for _, typ := range []string{"string", tPeer} {
		coll, k := m.w.elemRef(v.ctx, v.v, typ)
		if coll.v == nil || k == "" {
			coll, k = m.w.elemRef(vc, vo, typ)
		}
		if coll.v == nil || k == "" {
			continue
		}
		ck := m.key(e, s, coll.ctx, coll.v)
		if s.Get("cp:val:"+m.w.idxKey(v.ctx, v.v)) == ck || s.Get("empty:"+ck) == "1" {
			return []ctxVal{coll}
		}
	}
	return nil
}

func resultOf(v ssa.Value, names ...string) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	for _, n := range names {
		if strings.HasSuffix(callName(&c.Call), n) {
			return true
		}
	}
	return false
}

// appendSites: the append calls a list is the result of, on this path.
func (e *Engine) appendSites(s *State, ctx *Ctx, v ssa.Value) (sites []ctxVal, ok bool) {
	seen := map[ctxVal]bool{}
	ok = true
	var walk func(ctx *Ctx, v ssa.Value)
	walk = func(ctx *Ctx, v ssa.Value) {
		ctx, v = e.Resolve(s, ctx, v)
		if seen[ctxVal{ctx, v}] {
			return
		}
		seen[ctxVal{ctx, v}] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, ed := range x.Edges {
				walk(ctx, ed)
			}
		case *ssa.MakeSlice:
			if k, isK := x.Len.(*ssa.Const); !isK || k.Int64() != 0 {
				ok = false
			}
		case *ssa.Slice:
			if al, isA := x.X.(*ssa.Alloc); isA && deref(al.Type()).Underlying().(*types.Array).Len() == 0 {
				return
			}
			ok = false
		case *ssa.Call:
			b, isB := x.Call.Value.(*ssa.Builtin)
			if !isB || b.Name() != "append" {
				ok = false
				return
			}
			sites = append(sites, ctxVal{ctx, x})
			walk(ctx, x.Call.Args[0])
			if len(storedElems(x)) == 0 {
				for _, a := range x.Call.Args[1:] {
					walk(ctx, a)
				}
			}
		case *ssa.UnOp:
			if al, ac := e.w.cellOf(ctx, x.X); x.Op == token.MUL && al != nil {
				for _, st := range storesTo(al) {
					sc := ac
					if st.Parent() != al.Parent() {
						sc = e.w.closureCtxFor(ac, st.Parent())
					}
					walk(sc, st.Val)
				}
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	walk(ctx, v)
	return sites, ok
}

const (
	fnListing = "p2p.PeerStatus.getPeersStatus"
	fnDecode  = "p2p.PartyCoordinator.getPeerIDs"
	fnStatus  = "p2p.NewPeerStatus"
	fnLeader  = "p2p.LeaderNode"
)

func streamOpen(in ssa.Instruction) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if ok && strings.HasSuffix(callName(&c.Call), "host.Host.NewStream") {
		return c
	}
	return nil
}

// peerRange: the map of peers an iteration is over.
func peerRange(v ssa.Value) bool {
	nx, ok := v.(*ssa.Next)
	if !ok {
		return false
	}
	rg, ok := nx.Iter.(*ssa.Range)
	return ok && isPeerMap(rg.X.Type())
}

// partyListing: the peers a group knows are split into those online and the others.
func partyListing(w *World, r *Report) {
	fn := w.Fn(fnListing)
	if !r.ObGlobal(fn != nil, "peers are listed by "+fnListing) {
		return
	}
	peerKey := func(ctx *Ctx, v ssa.Value) bool {
		_, o := w.origin(ctx, v)
		ex, ok := o.(*ssa.Extract)
		return ok && ex.Index == 1 && peerRange(ex.Tuple)
	}
	site := func(x ctxVal) string { return fmt.Sprintf("ap:%p@%d", x.v, x.ctx.ID) }
	h := &Hooks{Track: func(v ssa.Value) bool { return true }}
	h.Interesting = func(in ssa.Instruction) bool {
		if nx, ok := in.(*ssa.Next); ok {
			return peerRange(nx)
		}
		v := storedElems(in)
		return len(v) > 0 && tname(v[0].Type()) == tPeer
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if ex, ok := in.(*ssa.Extract); ok && peerRange(ex.Tuple) {
			switch ex.Index {
			case 0:
				e.Ob(s, in, s.Get("cur") == "" || s.Get("listed") == s.Get("cur"), "a peer is left out of the list it belongs to")
				return e.Fork(s, ex, []string{"cur", "", "listed", ""}, []string{"cur", "", "listed", ""})
			case 2:
				return e.Fork(s, ex, []string{"cur", "1"}, []string{"cur", "0"})
			}
		}
		if lk, ok := in.(*ssa.Lookup); ok && isPeerMap(lk.X.Type()) && peerKey(s.ctx, lk.Index) && !lk.CommaOk {
			return e.Fork(s, lk, []string{"cur", "1"}, []string{"cur", "0"})
		}
		if c, ok := in.(*ssa.Call); ok {
			for _, el := range storedElems(in) {
				if peerKey(s.ctx, el) {
					e.Hit("peer listed", in)
					k := site(ctxVal{s.ctx, c})
					cur := s.Get("cur")
					if old := s.Get(k); old != "" && old != cur || cur == "" {
						cur = "?"
					}
					return []Outcome{{S: s.With("listed", s.Get("cur"), k, cur)}}
				}
			}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		for i, want := range []string{"1", "0"} {
			sites, ok := e.appendSites(s, s.ctx, rt.Results[i])
			for _, x := range sites {
				// a call that was not made on this path added nothing
				if g := s.Get(site(x)); g != "" {
					ok = ok && g == want
				}
			}
			e.Ob(s, rt, ok, "the peers online and offline are mixed up")
		}
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("peer listed", 2)
}

// partyDecode: every peer of a list is decoded, in order.
func partyDecode(w *World, r *Report) {
	fn := w.Fn(fnDecode)
	if !r.ObGlobal(fn != nil, "peers are decoded by "+fnDecode) {
		return
	}
	var in0 ssa.Value
	for _, p := range fn.Params {
		if sliceElem(p.Type()) == "string" {
			in0 = p
		}
	}
	mp := &mapper{w: w, colls: map[string]ctxVal{}}
	h := &Hooks{Track: func(v ssa.Value) bool { return true }}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome { return mp.On(e, s, in, nil) }
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if mayBeNil(e.Eval(s, rt.Results[1])) {
			e.Hit("peers decoded", rt)
			src, ok := mp.source(e, s, s.ctx, rt.Results[0], func(_ *Ctx, v ssa.Value) bool { return resultOf(v, "peer.Decode") })
			e.Ob(s, rt, ok && src.v == in0, "the list is not that of all peers decoded")
		}
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("peers decoded", 1)
}

// partyStatus: a new group knows every peer but the node itself, all offline.
func partyStatus(w *World, r *Report) {
	fn := w.Fn(fnStatus)
	if !r.ObGlobal(fn != nil && len(fn.Params) == 4, "groups are made by "+fnStatus) {
		return
	}
	mp := &mapper{w: w, colls: map[string]ctxVal{}}
	h := &Hooks{Track: func(v ssa.Value) bool { return true }}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if _, _, ok := loopHeader(in); ok {
			s = s.With("other", "")
		}
		if c, ok := in.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && isPeerMap(c.Call.Args[0].Type()) {
				if _, o := w.origin(s.ctx, c.Call.Args[1]); o == ssa.Value(fn.Params[1]) {
					return []Outcome{{S: s.With("self", "")}}
				}
			}
		}
		if o := mp.On(e, s, in, nil); o != nil {
			return o
		}
		switch x := in.(type) {
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if _, o := w.origin(s.ctx, p[0]); o == ssa.Value(fn.Params[1]) && mp.at(e, s, s.ctx, p[1]) {
						if x.Op == token.EQL {
							return e.Fork(s, x, []string{"mp.v", "skip"}, []string{"other", "1"})
						}
						return e.Fork(s, x, []string{"other", "1"}, []string{"mp.v", "skip"})
					}
				}
			}
		case *ssa.MapUpdate:
			if isPeerMap(x.Map.Type()) {
				e.Hit("peer made known", in)
				k, ok := x.Value.(*ssa.Const)
				e.Ob(s, in, ok && k.Value != nil && !constant.BoolVal(k.Value), "a peer starts out as online")
				good := mp.at(e, s, s.ctx, x.Key)
				e.Ob(s, in, good, "another peer is made known to the group")
				if s.Get("other") != "1" {
					s = s.With("self", "1")
				}
				if good {
					return []Outcome{{S: mp.tag(s, "map:"+mp.key(e, s, s.ctx, x.Map))}}
				}
			}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		e.Hit("group made", rt)
		g := ctxVal{s.ctx, rt.Results[0]}
		peers := mp.key(e, s, s.ctx, fn.Params[0])
		pr := w.fieldPath(g, "peersResponse")
		ok := len(pr) == 1 && (s.Get("cp:map:"+mp.key(e, s, pr[0].ctx, pr[0].v)) == peers || s.Get("empty:"+peers) == "1" || s.Get("cp:skip") == peers)
		e.Ob(s, rt, ok, "the group does not know every peer")
		e.Ob(s, rt, s.Get("self") == "", "the group takes the node itself for one of its peers")
		for f, i := range map[string]int{"leader": 2, "threshold": 3} {
			v := w.fieldPath(g, f)
			good := len(v) == 1
			if good {
				_, o := w.origin(v[0].ctx, v[0].v)
				good = o == ssa.Value(fn.Params[i])
			}
			e.Ob(s, rt, good, "the group is made with another "+f)
		}
		rc := w.fieldPath(g, "reqCount")
		e.Ob(s, rt, len(rc) == 0 || len(rc) == 1 && isZeroConst(rc[0].v), "the group is made with requests already counted")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("group made", 1)
	r.Need("peer made known", 1)
}

func isZeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && (k.Value == nil || k.Value.Kind() == constant.Int && k.Int64() == 0)
}

// fanOuts: the functions that contact every peer of a list.
func (w *World) fanOuts() map[*ssa.Function]bool {
	opens := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.Funcs {
			if opens[fn] || isMockFile(w, fn) || pkgShort(fnPkg(fn)) != "p2p" {
				continue
			}
			eachInstr(fn, func(in ssa.Instruction) {
				if streamOpen(in) != nil && !opens[fn] {
					opens[fn], changed = true, true
				}
				var f *ssa.Function
				switch x := in.(type) {
				case ssa.CallInstruction:
					f = x.Common().StaticCallee()
				case *ssa.MakeClosure:
					f, _ = x.Fn.(*ssa.Function)
				}
				if f != nil && opens[f] && !opens[fn] {
					opens[fn], changed = true, true
				}
			})
		}
	}
	out := map[*ssa.Function]bool{}
	for fn := range opens {
		var recv ssa.Value
		for i, p := range fn.Params {
			if i == 0 && fn.Signature.Recv() != nil {
				recv = p
			}
			if sliceElem(p.Type()) == tPeer && recv != nil && tname(deref(recv.Type())) == "p2p.PartyCoordinator" && fn.Parent() == nil {
				out[fn] = true
			}
		}
	}
	return out
}

// fanOut: every peer of the list but the node itself is sent the message given.
func fanOut(w *World, r *Report, fn *ssa.Function) {
	var list, id, msg, buf ssa.Value
	for _, p := range fn.Params[1:] {
		switch {
		case sliceElem(p.Type()) == tPeer:
			list = p
		case p.Type().String() == "string":
			id = p
		case p.Type().String() == "[]byte":
			buf = p
		case tname(deref(p.Type())) == tLeadMsg:
			msg = p
		}
	}
	if !r.ObFn(fn, msg != nil || buf != nil, "a message is sent to the peers") {
		return
	}
	_ = id
	mp := &mapper{w: w, colls: map[string]ctxVal{}}
	proto := map[bool]string{true: "/p2p/join-party-leader", false: "/p2p/join-party"}[msg != nil]
	h := &Hooks{Track: func(v ssa.Value) bool { return true }}
	h.NoInline = joinOpaque
	h.Interesting = func(in ssa.Instruction) bool {
		return streamOpen(in) != nil || isCall(in, writeFrame) != nil
	}
	h.OnSelect = streamGone(w)
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if o := mp.On(e, s, in, nil); o != nil {
			return o
		}
		if o := joinSend(w, e, s, in, proto, func(s *State, ctx *Ctx, to ssa.Value) *State {
			good := mp.at(e, s, ctx, to)
			e.Ob(s, in, good, "somebody else than the peer at hand is contacted")
			if good {
				return mp.tag(s, "sent")
			}
			return s
		}, func(s *State, ctx *Ctx, what ssa.Value) {
			good := false
			if buf != nil {
				_, o := w.origin(ctx, what)
				good = o == buf
			} else {
				c, o := e.Resolve(s, ctx, what)
				good = s.Get("mar") != "" && w.idxKey(c, o) == s.Get("mar")
				e.Ob(s, in, s.Get("m.t") == `"response"`, "the leader sends something else than a response")
			}
			e.Ob(s, in, good, "what is sent is not the message given")
		}); o != nil {
			return o
		}
		switch x := in.(type) {
		case *ssa.Store:
			if f, st := storeField(in); strings.HasPrefix(f, tLeadMsg+".") {
				val := "?"
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
					val = k.Value.ExactString()
				}
				e.Ob(s, in, f == tLeadMsg+".MsgType", "the message is changed when it is sent")
				return []Outcome{{S: s.With("f.MsgType", val)}}
			}
		case *ssa.Call:
			if strings.HasSuffix(callName(&x.Call), "proto.Marshal") {
				a := x.Call.Args[0]
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				_, o := w.origin(s.ctx, a)
				if o == msg {
					return e.ForkErr(s, x, errIdx(x), []string{"mar", w.tupleKey(s.ctx, x), "m.t", s.Get("f.MsgType")}, []string{"mar", "", "fail", "1"})
				}
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if tname(p[0].Type()) == tPeer && w.selfID(s.ctx, p[0]) && mp.at(e, s, s.ctx, p[1]) {
						if x.Op == token.EQL {
							return e.Fork(s, x, []string{"mp.v", "skip"}, nil)
						}
						return e.Fork(s, x, nil, []string{"mp.v", "skip"})
					}
				}
			}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		e.Hit("sent to all", rt)
		k := mp.key(e, s, s.ctx, list)
		e.Ob(s, rt, s.Get("fail") == "1" || s.Get("cp:sent") == k || s.Get("cp:skip") == k || s.Get("empty:"+k) == "1", "not every peer of the list is contacted")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	for f := range e.Fns {
		loopCapture(w, r, f)
	}
}

func joinOpaque(f *ssa.Function) bool {
	switch fname(f) {
	case readFrame, writeFrame, addStream, fnLeader, fnListing, fnDecode, fnStatus, "conversion.GetPubKeyFromPeerID":
		return true
	}
	return false
}

func streamGone(w *World) func(e *Engine, s *State, sel *ssa.Select, k int) *State {
	return func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 {
			_, o := w.origin(s.ctx, sel.States[k].Chan)
			if c, ok := o.(*ssa.Call); ok && callName(&c.Call) == "context.Context.Done" {
				return s.With("open", "")
			}
		}
		return s
	}
}

// joinSend: a stream is opened to a peer and a message written to it.
func joinSend(w *World, e *Engine, s *State, in ssa.Instruction, proto string, to func(s *State, ctx *Ctx, v ssa.Value) *State, what func(s *State, ctx *Ctx, v ssa.Value)) []Outcome {
	if c := streamOpen(in); c != nil {
		_, a := callArgs(&c.Call)
		e.Hit("request sent", in)
		e.Ob(s, in, s.Get("open") == "", "a stream was opened and nothing sent")
		e.Ob(s, in, w.bounded(s.ctx, a[0]), "contacting a peer is not limited in time")
		p := w.protocols(s.ctx, a[2])
		e.Ob(s, in, len(p) == 1 && p[0] == proto, "a peer is contacted with another protocol")
		n := to(s, s.ctx, a[1])
		outs := e.ForkErr(n, c, errIdx(c), []string{"open", fmt.Sprintf("%p", c)}, []string{"open", ""})
		e.SetVal(outs[0].S, c, 0, aNonNil)
		return outs
	}
	if cc := isCall(in, writeFrame); cc != nil {
		if x, ok := in.(*ssa.Call); ok {
			_, o := e.Resolve(s, s.ctx, x.Call.Args[1])
			ex, ok := o.(*ssa.Extract)
			e.Ob(s, in, ok && s.Get("open") == fmt.Sprintf("%p", ex.Tuple), "a message is written to another stream than the one opened for the peer")
			what(s, s.ctx, x.Call.Args[0])
			return e.ForkErr(s.With("open", ""), x, errIdx(x), nil, nil)
		}
	}
	return nil
}

func partyResult(w *World, r *Report, fn *ssa.Function, fans map[*ssa.Function]bool) {
	lead := fname(fn) == joinLead
	var pID, pHeight, pPeers, pThr ssa.Value
	for _, p := range fn.Params {
		switch p.Type().String() {
		case "string":
			if pID == nil {
				pID = p
			}
		case "int64":
			pHeight = p
		case "[]string":
			pPeers = p
		case "int":
			pThr = p
		}
	}
	if !r.ObFn(fn, pID != nil && pPeers != nil && (!lead || pThr != nil && pHeight != nil), "the entry point takes a message ID, peers and a threshold") {
		return
	}
	mp := &mapper{w: w, colls: map[string]ctxVal{}}
	is := func(ctx *Ctx, v, want ssa.Value) bool {
		_, o := w.origin(ctx, v)
		return o == want || w.T(ctx, v).String() == w.T(w.Root(fn), want).String()
	}
	toStr := func(ctx *Ctx, v ssa.Value) bool { return resultOf(v, tPeer+".String", "peer.Encode") }
	selfStr := func(ctx *Ctx, v ssa.Value) bool {
		c, o := w.origin(ctx, v)
		x, ok := o.(*ssa.Call)
		return ok && callName(&x.Call) == tPeer+".String" && w.selfID(c, x.Call.Args[0])
	}
	// the list passed to the call whose result v is
	decodedOf := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) (ctxVal, bool) {
		c, o := e.Resolve(s, ctx, v)
		ex, ok := o.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return ctxVal{}, false
		}
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok || callName(&call.Call) != fnDecode {
			return ctxVal{}, false
		}
		_, a := callArgs(&call.Call)
		return ctxVal{c, a[0]}, true
	}
	allPeers := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
		src, ok := decodedOf(e, s, ctx, v)
		return ok && is(src.ctx, src.v, pPeers)
	}
	listed := func(e *Engine, s *State, ctx *Ctx, v ssa.Value, idx int) bool {
		_, o := e.Resolve(s, ctx, v)
		ex, ok := o.(*ssa.Extract)
		return ok && ex.Index == idx && isCall(ex.Tuple.(ssa.Instruction), fnListing) != nil
	}
	// online: the list is that of the peers online, and the node itself
	online := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) (peers, self bool) {
		for i := 0; i < 4; i++ {
			if listed(e, s, ctx, v, 0) {
				return true, self
			}
			var c *ssa.Call
			var isC bool
			ctx, v = e.Resolve(s, ctx, v)
			if c, isC = v.(*ssa.Call); !isC || len(storedElems(c)) == 0 {
				return false, self
			}
			for _, el := range storedElems(c) {
				if !w.selfID(ctx, el) || self {
					return false, self
				}
				self = true
			}
			v = c.Call.Args[0]
		}
		return false, self
	}
	h := &Hooks{Track: func(v ssa.Value) bool { return true }}
	h.NoInline = func(f *ssa.Function) bool { return joinOpaque(f) || fans[f] }
	isFan := func(in ssa.Instruction) *ssa.CallCommon {
		if c, ok := in.(ssa.CallInstruction); ok {
			if f := c.Common().StaticCallee(); f != nil && fans[f] {
				return c.Common()
			}
		}
		return nil
	}
	h.Interesting = func(in ssa.Instruction) bool {
		if f, _ := storeField(in); strings.HasPrefix(f, tLeadMsg+".") || strings.HasPrefix(f, tJoinReq+".") {
			return true
		}
		if addrMapOp(in) == fGroups || isFan(in) != nil || streamOpen(in) != nil {
			return true
		}
		if v := storedElems(in); len(v) > 0 && tname(v[0].Type()) == tPeer {
			return true
		}
		return isCall(in, writeFrame, fnLeader, fnListing, fnDecode, fnStatus) != nil
	}
	h.OnSelect = streamGone(w)
	proto := map[bool]string{true: "/p2p/join-party-leader", false: "/p2p/join-party"}[lead]
	// the message sent
	msgFact := func(s *State) string {
		return s.Get("f.ID") + ":" + s.Get("f.Type") + ":" + s.Get("f.PeerIDs")
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if o := mp.On(e, s, in, nil); o != nil {
			return o
		}
		if cc := isFan(in); cc != nil {
			_, a := callArgs(cc)
			e.Ob(s, in, s.Get("grp") == "1", "a peer is contacted before its answer can be taken")
			n := s
			for _, v := range a {
				switch {
				case sliceElem(v.Type()) == tPeer:
					switch {
					case lead:
						e.Hit("response sent", in)
						e.Ob(s, in, s.Get("role") == "L", "a member tells the peers of a party")
						e.Ob(s, in, allPeers(e, s, s.ctx, v), "the response is not sent to all peers")
						n = n.With("told", msgFact(s))
					case listed(e, s, s.ctx, v, 0):
						e.Hit("online peers asked", in)
						n = n.With("told.on", "1")
					case listed(e, s, s.ctx, v, 1):
						e.Hit("offline peers asked", in)
					case allPeers(e, s, s.ctx, v):
						e.Hit("online peers asked", in)
						e.Hit("offline peers asked", in)
						n = n.With("told.on", "1")
					default:
						e.Ob(s, in, false, "others than the peers of the group are asked")
					}
				case v.Type().String() == "[]byte":
					c2, o2 := e.Resolve(s, s.ctx, v)
					e.Ob(s, in, s.Get("mar") != "" && w.idxKey(c2, o2) == s.Get("mar"), "what is sent is not the encoded message")
					e.Ob(s, in, strings.HasPrefix(s.Get("m"), "id:"), "a message of another session is sent")
				}
			}
			return []Outcome{{S: n}}
		}
		if o := joinSend(w, e, s, in, proto, func(s *State, ctx *Ctx, to ssa.Value) *State {
			e.Ob(s, in, s.Get("grp") == "1", "a peer is contacted before its answer can be taken")
			e.Ob(s, in, lead && s.Get("role") == "M", "a single peer is contacted by a node that is no member")
			c2, o := e.Resolve(s, ctx, to)
			good := false
			if ex, ok := o.(*ssa.Extract); ok && ex.Index == 0 && resultOf(o, "peer.Decode") {
				_, b := callArgs(&ex.Tuple.(*ssa.Call).Call)
				good = mp.key(e, s, c2, b[0]) == s.Get("ld")
			}
			e.Ob(s, in, good, "a member contacts somebody else than the leader")
			return s
		}, func(s *State, ctx *Ctx, what ssa.Value) {
			c2, o2 := e.Resolve(s, ctx, what)
			e.Ob(s, in, s.Get("mar") != "" && w.idxKey(c2, o2) == s.Get("mar"), "what is sent is not the encoded message")
			e.Ob(s, in, strings.HasPrefix(s.Get("m"), "id:"), "a message of another session is sent")
			e.Ob(s, in, s.Get("m.t") == `"request"`, "a member sends something else than a request")
		}); o != nil {
			return o
		}
		if f, st := storeField(in); strings.HasPrefix(f, tLeadMsg+".") || strings.HasPrefix(f, tJoinReq+".") {
			f = f[strings.LastIndex(f, ".")+1:]
			val := "?"
			switch f {
			case "ID":
				if is(s.ctx, st.Val, pID) {
					val = "id"
				}
			case "PeerIDs":
				if src, ok := mp.source(e, s, s.ctx, st.Val, toStr); ok {
					val = mp.key(e, s, src.ctx, src.v)
				}
			case "Type", "MsgType":
				_, o := w.origin(s.ctx, st.Val)
				if k, ok := o.(*ssa.Const); ok && k.Value != nil {
					val = k.Value.ExactString()
				}
			}
			return []Outcome{{S: s.With("f."+f, val)}}
		}
		switch x := in.(type) {
		case *ssa.Call:
			n := callName(&x.Call)
			switch {
			case n == fnLeader:
				e.Hit("leader chosen", in)
				_, a := callArgs(&x.Call)
				e.Ob(s, in, is(s.ctx, a[0], pID) && is(s.ctx, a[1], pHeight) && is(s.ctx, a[2], pPeers), "the leader is chosen from something else than the message, height and peers of the request")
				return e.ForkErr(s, x, errIdx(x), []string{"ld", w.tupleKey(s.ctx, x)}, nil)
			case n == fnDecode:
				_, a := callArgs(&x.Call)
				var ok []string
				if w.T(s.ctx, a[0]).every(func(t *Term) bool { return t.isField(tLeadMsg + ".PeerIDs") }) && e.respOf(s, s.ctx, a[0]) {
					ok = []string{"resp:" + w.tupleKey(s.ctx, x), "1"}
				}
				return e.ForkErr(s, x, errIdx(x), ok, nil)
			case strings.HasSuffix(n, "peer.Decode"):
				return e.ForkErr(s, x, errIdx(x), nil, nil)
			case n == fnListing:
				e.Hit("peers listed", in)
				e.Ob(s, in, s.Get("grp") == "1" && e.filedGroup(s, x.Call.Args[0], pID), "the peers of another group are listed")
			case strings.HasSuffix(n, "proto.Marshal"):
				return e.ForkErr(s, x, errIdx(x), []string{"mar", w.tupleKey(s.ctx, x), "m.t", s.Get("f.MsgType"), "m", msgFact(s)}, []string{"mar", ""})
			}
		case *ssa.MapUpdate:
			if addrField(x.Map) != fGroups {
				break
			}
			e.Hit("group filed", in)
			e.Ob(s, in, is(s.ctx, x.Key, pID), "the group is filed under another message ID")
			c, o := e.Resolve(s, s.ctx, x.Value)
			call, ok := o.(*ssa.Call)
			ok = ok && callName(&call.Call) == fnStatus
			e.Ob(s, in, ok, "the group filed is not a new one")
			if ok {
				a := call.Call.Args
				e.Ob(s, in, w.selfID(c, a[1]), "the group is made for another node")
				_, ldo := w.origin(c, a[2])
				k, isK := ldo.(*ssa.Const)
				good := false
				switch {
				case !lead:
					good = isK && k.Value != nil && k.Value.ExactString() == `"NONE"`
				case s.Get("role") == "M":
					good = mp.key(e, s, c, a[2]) == s.Get("ld")
				case s.Get("role") == "L":
					good = mp.key(e, s, c, a[2]) == s.Get("ld") || selfStr(c, a[2])
				}
				e.Ob(s, in, good, "the group is filed with another leader")
				if s.Get("role") != "M" {
					e.Ob(s, in, allPeers(e, s, c, a[0]), "the group is not made of all peers of the request")
				}
				if lead && s.Get("role") == "L" {
					e.Ob(s, in, is(c, a[3], pThr), "the group is filed with another threshold")
				}
			}
			return []Outcome{{S: s.With("grp", "1")}}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					// the node is (not) the leader
					if lead && s.Get("ld") != "" && selfStr(s.ctx, p[0]) && mp.key(e, s, s.ctx, p[1]) == s.Get("ld") {
						e.Hit("role decided", in)
						if ro := s.Get("role"); ro != "" {
							return e.Decide(s, x, (ro == "L") == (x.Op == token.EQL))
						}
						if x.Op == token.EQL {
							return e.Fork(s, x, []string{"role", "L"}, []string{"role", "M"})
						}
						return e.Fork(s, x, []string{"role", "M"}, []string{"role", "L"})
					}
					if k, ok := p[1].(*ssa.Const); ok && k.Value != nil {
						if k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "signature received" {
							if g := s.Get("sig"); g != "" {
								return e.Decide(s, x, (g == "1") == (x.Op == token.EQL))
							}
							if x.Op == token.EQL {
								return e.Fork(s, x, []string{"sig", "1"}, []string{"sig", "0"})
							}
							return e.Fork(s, x, []string{"sig", "0"}, []string{"sig", "1"})
						}
						if w.T(s.ctx, p[0]).every(func(t *Term) bool { return t.isField(tLeadMsg + ".Type") }) && s.Get("role") == "M" {
							e.Hit("type compared", in)
							if k.Value.ExactString() == "1" {
								if x.Op == token.EQL {
									return e.Fork(s, x, []string{"type", "1"}, nil)
								}
								return e.Fork(s, x, nil, []string{"type", "1"})
							}
						}
					}
				}
			}
			// sizes
			for _, t := range []ssa.Value{x.X, x.Y} {
				if b, ok := t.(*ssa.BinOp); ok {
					if lenArg(b.X) != nil {
						t = b.X
					} else if lenArg(b.Y) != nil {
						t = b.Y
					}
				}
				l := lenArg(t)
				if l == nil || sliceElem(l.Type()) != tPeer {
					continue
				}
				lk := w.T(s.ctx, t).String()
				key := mp.key(e, s, s.ctx, l)
				know := func(val bool) []string {
					c, ok := w.binCmp(s.ctx, x, val)
					if !ok {
						return nil
					}
					k := c.L
					if pThr != nil {
						th := w.T(w.Root(fn), pThr).String()
						if c.Kind == "NE" || len(k.M) != 2 {
							return nil
						}
						if k.M[lk] == 1 && k.M[th] == -1 {
							return []string{"ge:" + key, strconv.Itoa(k.C)}
						} else if k.M[lk] == -1 && k.M[th] == 1 {
							if c.Kind == "EQ" {
								return []string{"ge:" + key, strconv.Itoa(-k.C)}
							}
							return []string{"few", "1"}
						}
						return nil
					}
					all := mk("call", "len", w.T(w.Root(fn), pPeers)).String()
					if len(k.M) == 2 && (c.Kind == "EQ" && k.C == 0 || c.Kind == "GE" && k.C <= 0 && k.M[lk] == 1) && k.M[all] == -k.M[lk] {
						return []string{"eq:" + key, "1"}
					}
					if k.M[all] != 0 {
						return []string{"few", "1"}
					}
					return nil
				}
				a, b := know(true), know(false)
				if len(a) > 0 || len(b) > 0 {
					e.Hit("size compared", in)
					return e.Fork(s, x, a, b)
				}
			}
		}
		return nil
	}
	ei := fn.Signature.Results().Len() - 1
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		ev := e.Eval(s, rt.Results[ei])
		recv := strings.HasSuffix(string(ev), "ErrSignReceived")
		e.Ob(s, rt, !recv || s.Get("sig") == "1", "a signature is reported that was not received")
		if s.Get("sig") == "1" {
			e.Ob(s, rt, recv, "the attempt goes on although the signature was received")
			return
		}
		e.Ob(s, rt, s.Get("open") == "", "a stream was opened and nothing sent")
		list := rt.Results[0]
		key := mp.key(e, s, s.ctx, list)
		if !mayBeNil(ev) {
			if s.Get("few") == "1" {
				e.Hit("party not formed", rt)
				if lead && s.Get("role") == "L" {
					e.Ob(s, rt, strings.HasPrefix(s.Get("told"), "id:2:"), "the peers are not told that the party was not formed")
				}
			}
			return
		}
		e.Hit("party formed", rt)
		e.Ob(s, rt, !lead || s.Get("sig") == "0", "a party is formed although the signature may have been received")
		e.Ob(s, rt, s.Get("few") == "", "a party that is too small is formed")
		if lead && s.Get("role") == "M" {
			good := s.Get("resp:"+key) == "1"
			e.Ob(s, rt, good, "a member forms a party of other peers than its leader named")
			e.Ob(s, rt, s.Get("type") == "1", "a member forms a party although its leader did not report success")
			c, err := strconv.Atoi(s.Get("ge:" + key))
			e.Ob(s, rt, err == nil && c <= 0, "a member forms a party without comparing its size with the threshold")
			return
		}
		peers, self := online(e, s, s.ctx, list)
		e.Ob(s, rt, peers, "a party is formed of peers that are not online")
		e.Ob(s, rt, self, "a party is formed without the node itself")
		if lead {
			e.Ob(s, rt, s.Get("role") == "L", "a party is formed without knowing the node's role")
			c, err := strconv.Atoi(s.Get("ge:" + key))
			e.Ob(s, rt, err == nil && c <= -1, "the leader forms a party without comparing its size with the threshold")
			e.Ob(s, rt, s.Get("told") == "id:1:"+key, "the peers are not told of the party that was formed")
			return
		}
		e.Ob(s, rt, s.Get("eq:"+key) == "1", "a party is formed although not all peers are online")
		e.Ob(s, rt, s.Get("told.on") == "1", "the party is formed without answering the peers that are online")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	for f := range e.Fns {
		loopCapture(w, r, f)
	}
}

// filedGroup: v is the group that was made for this attempt.
func (e *Engine) filedGroup(s *State, v, id ssa.Value) bool {
	_, o := e.Resolve(s, s.ctx, v)
	c, ok := o.(*ssa.Call)
	return ok && callName(&c.Call) == fnStatus
}

// respOf: v is a field of the response stored in a peer group.
func (e *Engine) respOf(s *State, ctx *Ctx, v ssa.Value) bool {
	field := func(v ssa.Value) *ssa.FieldAddr {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
		}
		fa, _ := v.(*ssa.FieldAddr)
		return fa
	}
	for i := 0; i < 6; i++ {
		var fa *ssa.FieldAddr
		ctx, v = e.Resolve(s, ctx, v)
		if fa = field(v); fa == nil {
			return false
		}
		if addrField(fa) == tStatus+".leaderResponse" {
			return true
		}
		v = fa.X
	}
	return false
}

// joinWiring: the sessions form their party of the right peers and work with
// exactly the peers that came online.
func joinWiring(w *World, r *Report) {
	const (
		lt     = "conversion.VersionLTCheck"
		ids    = "conversion.GetPeerIDsFromPubKeys"
		keys   = "conversion.GetPubKeysFromPeerIDs"
		sign   = "keysign.TssKeySign.SignMessage"
		gen    = "keygen.TssKeyGen.GenerateNewKey"
		thrFn  = "conversion.GetThreshold"
		pubKey = "conversion.GetPubKeyFromPeerID"
	)
	newer := w.pkgConst("messages", "NEWJOINPARTYVERSION")
	for _, op := range []string{"Keygen", "KeySign"} {
		fns := w.tssEntry(op)
		if !r.ObGlobal(len(fns) == 1, "the entry point "+op+" exists") {
			continue
		}
		pkg := strings.ToLower(op)
		mp := &mapper{w: w, colls: map[string]ctxVal{}}
		field := func(f string) func(t *Term) bool {
			return func(t *Term) bool { return t.isField(f) }
		}
		h := &Hooks{Track: func(v ssa.Value) bool {
			switch v.Type().String() {
			case "string", "[]string", "error", "bool", "int", "int64":
				return true
			}
			_, isTuple := v.Type().(*types.Tuple)
			return isTuple || sliceElem(v.Type()) == tPeer
		}}
		h.NoInline = func(f *ssa.Function) bool {
			switch fname(f) {
			case lt, ids, keys, sign, gen, thrFn, pubKey, joinLead, joinAll:
				return true
			}
			return false
		}
		h.Interesting = func(in ssa.Instruction) bool {
			return isCall(in, lt, ids, keys, sign, gen, joinLead, joinAll) != nil
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if o := mp.On(e, s, in, nil); o != nil {
				return o
			}
			// the list is made of the peers of another, in order
			peers := func(ctx *Ctx, v ssa.Value, ok func(c *Ctx, o ssa.Value) bool) bool {
				for _, src := range mp.sources(e, s, ctx, v, func(_ *Ctx, v ssa.Value) bool { return resultOf(v, tPeer+".String", "peer.Encode") }) {
					if c, o := e.Resolve(s, src.ctx, src.v); ok(c, o) {
						return true
					}
				}
				return false
			}
			switch x := in.(type) {
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && callName(&c.Call) == lt {
					if s.Get("vc") != fmt.Sprintf("%p", c) {
						return nil
					}
					if o := s.Get("old"); o != "" {
						return e.Decide(s, x, o == "1")
					}
					return e.Fork(s, x, []string{"old", "1"}, []string{"old", "0"})
				}
			case *ssa.BinOp:
				if x.Op == token.EQL || x.Op == token.NEQ {
					for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if tname(p[0].Type()) == tPeer && w.selfID(s.ctx, p[0]) && mp.at(e, s, s.ctx, p[1]) && s.Get("on") != "" && s.Get("mp.c") == s.Get("on") {
							if x.Op == token.EQL {
								return e.Fork(s, x, []string{"self", "1"}, nil)
							}
							return e.Fork(s, x, nil, []string{"self", "1"})
						}
					}
				}
			case *ssa.Call:
				n := callName(&x.Call)
				_, a := callArgs(&x.Call)
				switch n {
				case lt:
					ok := w.T(s.ctx, a[0]).every(field(pkg + ".Request.Version"))
					_, o := w.origin(s.ctx, a[1])
					k, isK := o.(*ssa.Const)
					if ok && (isK && k.Value != nil && k.Value.Kind() == constant.String && newer != "" && constant.StringVal(k.Value) == newer) {
						return e.ForkErr(s.With("vc", fmt.Sprintf("%p", x)), x, errIdx(x), nil, nil)
					}
				case ids, keys:
					return e.ForkErr(s, x, errIdx(x), nil, nil)
				case joinLead, joinAll:
					e.Hit("party asked for", in)
					want := map[bool]string{true: "1", false: "0"}[n == joinAll]
					e.Ob(s, in, s.Get("old") == want, "the party is formed with another protocol than that of the version asked for")
					list, part := a[1], pkg+".Request.SignerPubKeys"
					if n == joinLead {
						list = a[2]
						part = "storage.KeygenLocalState.ParticipantKeys"
						e.Ob(s, in, w.T(s.ctx, a[1]).every(field(pkg+".Request.BlockHeight")), "the leader is chosen at another height")
						t := a[3]
						c, o := e.Resolve(s, s.ctx, t)
						if op == "Keygen" {
							l := linOf(w.T(c, o))
							good := l.C == -1 && len(l.M) == 1
							for at, k := range l.M {
								good = good && k == 1 && at == "len("+pkg+".Request.Keys)"
							}
							e.Ob(s, in, good, "not all peers are required for generating a key")
						} else {
							e.Ob(s, in, w.T(c, o).String() == thrFn+"(len(storage.KeygenLocalState.ParticipantKeys))", "the threshold is not that of the pool")
						}
					}
					if op == "Keygen" {
						part = pkg + ".Request.Keys"
					}
					good := peers(s.ctx, list, func(c *Ctx, o ssa.Value) bool {
						ex, isEx := o.(*ssa.Extract)
						if !isEx || !resultOf(ex, ids) {
							return false
						}
						_, b := callArgs(&ex.Tuple.(*ssa.Call).Call)
						c, o = e.Resolve(s, c, b[0])
						return w.T(c, o).every(field(part))
					})
					e.Ob(s, in, good, "the party is not formed of all peers that take part")
					return e.ForkErr(s.With("joined", "", "self", ""), x, errIdx(x), []string{"joined", "1", "on", w.tupleKey(s.ctx, x)}, nil)
				case gen:
					e.Hit("work started", in)
					e.Ob(s, in, s.Get("joined") == "1", "a key is generated although the party was not formed")
				case sign:
					e.Hit("work started", in)
					e.Ob(s, in, s.Get("joined") == "1", "a message is signed although the party was not formed")
					e.Ob(s, in, s.Get("self") == "1", "a message is signed although the node is not one of the party")
					good := false
					if ex, ok := func() (*ssa.Extract, bool) {
						_, o := e.Resolve(s, s.ctx, a[2])
						ex, ok := o.(*ssa.Extract)
						return ex, ok
					}(); ok && resultOf(ex, keys) {
						c, _ := e.Resolve(s, s.ctx, a[2])
						_, b := callArgs(&ex.Tuple.(*ssa.Call).Call)
						good = peers(c, b[0], func(c *Ctx, o ssa.Value) bool { return w.idxKey(c, o) == s.Get("on") })
					}
					e.Ob(s, in, good, "the message is not signed by exactly the peers that came online")
				}
			}
			return nil
		}
		e := NewEngine(w, h)
		e.Run(fns[0], nil)
		r.Merge(e)
	}
	r.Need("party asked for", 2)
	r.Need("work started", 2)
}

func mayBeNil(a AbsVal) bool { return a != aNonNil && !isG(a) }

// pkgConst: the value of a string constant of the repository.
func (w *World) pkgConst(pkg, name string) string {
	if p := w.Pkgs[pkg]; p != nil {
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
			return constant.StringVal(c.Val())
		}
	}
	return ""
}
