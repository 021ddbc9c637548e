package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnGenKey     = "keygen.TssKeyGen.GenerateNewKey"
	partyMapOf   = "conversion.SetupPartyIDMap"
	fillPeers    = "conversion.SetupIDMaps"
	peersOf      = "conversion.GetPeersID"
	thresholdOf  = "conversion.GetThreshold"
	peerOfKey    = "conversion.GetPeerIDFromSecp256PubKey"
	peerOfParty  = "conversion.GetPeerIDFromPartyID"
	setInfoS     = "common.TssCommon.SetPartyInfo"
	setInfoB     = "blame.Manager.SetPartyInfo"
	fSessPeers   = "common.TssCommon.PartyIDtoP2PID"
	fBlamePeers  = "blame.Manager.PartyIDtoP2PID"
	fPeerList    = "common.TssCommon.P2PPeers"
	fnInbound    = "common.TssCommon.ProcessInboundMessages"
	libNewKey    = "github.com/binance-chain/tss-lib/ecdsa/keygen.NewLocalParty"
	libNewSig    = "github.com/binance-chain/tss-lib/ecdsa/signing.NewLocalParty"
	tInfoS       = "common.PartyInfo"
	tInfoB       = "blame.PartyInfo"
	libPartyName = "tss-lib/tss.Party"
)

// filesParty: cc stores a party in an untyped table.
func filesParty(cc *ssa.CallCommon) bool {
	if callName(cc) != "sync.Map.Store" {
		return false
	}
	switch x := cc.Args[2].(type) {
	case *ssa.MakeInterface:
		return strings.HasSuffix(tname(x.X.Type()), libPartyName)
	case *ssa.ChangeInterface:
		return strings.HasSuffix(tname(x.X.Type()), libPartyName)
	}
	return false
}

func init() {
	register(&propDef{
		ID:    "C22",
		Title: "A session is set up for exactly the committee it was given",
		Rule: "Path-sensitive interprocedural dataflow from the two session entry points to the library's parameters and the session's tables: the peer context is the party list made without error of the session's own key list and local key, the party that of the same list, the count the length of that list, the threshold the one computed without error for the number of key holders (the parties for a key generation, the participants of the loaded share for a signature). " +
			"At the start of a computation and of the processing of messages both party tables and both peer tables were filled without error from one table that has every party under its own id, and the peers to tell are those of the table but the local one. The functions that fill the tables treat every element, each with its own value. Nobody else writes the tables.",
		Run: runC22,
	})
}

// isParty: in starts or creates a computation.
func newPartyCall(in ssa.Instruction) *ssa.Call {
	if c, ok := in.(*ssa.Call); ok && (callName(&c.Call) == libNewKey || callName(&c.Call) == libNewSig) {
		return c
	}
	return nil
}

func startsParty(cc *ssa.CallCommon) bool {
	if cc == nil {
		return false
	}
	n := callName(cc)
	return strings.HasSuffix(n, libPartyName+".Start") || n == fnInbound
}

// setupValue: values the setup of a session is made of.
func setupValue(v ssa.Value) bool {
	if tu, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if setupType(tu.At(i).Type().String()) {
				return true
			}
		}
		return false
	}
	if a, ok := v.(*ssa.Alloc); ok {
		return setupType(deref(a.Type()).String())
	}
	return setupType(v.Type().String())
}

func setupType(t string) bool {
	for _, n := range []string{"tss-lib/tss.PartyID", "tss-lib/tss.Parameters", "tss-lib/tss.PeerContext", "tss-lib/tss.SortedPartyIDs", "tss-lib/tss.Party", "*sync.Map", "common.PartyInfo", "go-libp2p-core/peer.ID"} {
		if strings.HasSuffix(t, n) {
			return true
		}
	}
	return t == "[]string"
}

func runC22(w *World, r *Report) {
	partiesMade(w, r)
	for _, n := range []string{fnGenKey, fnSign} {
		fn := w.Fn(n)
		if r.ObGlobal(fn != nil, "entry point "+n+" exists") {
			sessionSetup(w, r, fn)
		}
	}
	for k, n := range map[string]int{"parties made": 2, "parameters made": 2, "peer table filled": 2, "party table set": 2, "peers listed": 2, "computation started": 2, "computation created": 2} {
		r.Need(k, n)
	}
	partyTable(w, r)
	peerTable(w, r)
	peerList(w, r)
	peerIdentity(w, r)
	infoSetters(w, r)
	tableWriters(w, r)
}

func sessionSetup(w *World, r *Report, fn *ssa.Function) {
	root := w.Root(fn)
	sign := fname(fn) == fnSign
	keysT, localT := "keygen.Request.Keys", "keygen.TssKeyGen.localNodePubKey"
	holders := "" // what the threshold is computed for, besides the parties
	if sign {
		localT, holders = tKeyState+".LocalPartyKey", tKeyState+".ParticipantKeys"
		keysT = ""
		for _, p := range fn.Params {
			if sliceElem(p.Type()) == "string" {
				keysT = w.T(root, p).String()
			}
		}
	}
	filed := map[string]bool{} // maps a computation is stored in
	infoMaps := map[string]ssa.Instruction{}
	inline := map[string]bool{getParties: true, partyMapOf: true, fillPeers: true, peersOf: true, thresholdOf: true, setInfoS: true, setInfoB: true, fnInbound: true}
	h := &Hooks{Track: setupValue, NoInline: func(f *ssa.Function) bool { return inline[fname(f)] }}
	h.Interesting = func(in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok {
			n := callName(ci.Common())
			return inline[n] && n != thresholdOf || n == libTss+".NewParameters" || n == libTss+".NewPeerContext" || newPartyCall(in) != nil || startsParty(ci.Common()) || filesParty(ci.Common())
		}
		f, _ := storeField(in)
		return f == fPeerList
	}
	// parties: the list (idx 0) or the local party (idx 1) of a good GetParties call
	parties := func(e *Engine, s *State, ctx *Ctx, v ssa.Value, idx int) string {
		c, o := e.Resolve(s, ctx, v)
		for {
			if ct, ok := o.(*ssa.ChangeType); ok {
				c, o = e.Resolve(s, c, ct.X)
				continue
			}
			break
		}
		ex, ok := o.(*ssa.Extract)
		if !ok || ex.Index != idx {
			return ""
		}
		k := w.idxKey(c, ex.Tuple)
		if s.Get("gp:"+k) == "" {
			return ""
		}
		return k
	}
	lenOf := func(e *Engine, s *State, v ssa.Value) (*Ctx, ssa.Value) {
		c, o := e.Resolve(s, s.ctx, v)
		if a := lenArg(o); a != nil {
			return e.Resolve(s, c, a)
		}
		return nil, nil
	}
	count := func(e *Engine, s *State, v ssa.Value) bool { // the number of parties
		c, l := lenOf(e, s, v)
		return l != nil && (parties(e, s, c, l, 0) != "" || w.T(c, l).String() == keysT)
	}
	table := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) string { // the party table
		c, o := e.Resolve(s, ctx, v)
		if k := w.idxKey(c, o); s.Get("tab:"+k) != "" {
			return k
		}
		return ""
	}
	ready := func(e *Engine, s *State, in ssa.Instruction) {
		t := s.Get("info.s")
		for k, what := range map[string]string{"info.s": "the session does not know its parties", "info.b": "the blame manager does not know the parties", "ids.s": "the session does not know the peers of its parties", "ids.b": "the blame manager does not know the peers of the parties", "peers": "the session does not know the peers to tell"} {
			e.Ob(s, in, s.Get(k) != "", "a computation is started although "+what)
		}
		e.Ob(s, in, t == s.Get("info.b") && t == s.Get("ids.s") && t == s.Get("ids.b"), "a computation is started with tables of different parties")
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if f, st := storeField(in); f == fPeerList {
			e.Hit("peers listed", in)
			c, o := e.Resolve(s, s.ctx, st.Val)
			call, ok := o.(*ssa.Call)
			good := ok && callName(&call.Call) == peersOf
			if good {
				good = w.T(c, call.Call.Args[0]).isField(fSessPeers) && w.T(c, call.Call.Args[1]).isField("common.TssCommon.localPeerID")
			}
			e.Ob(s, in, good && s.Get("ids.s") != "", "the peers to tell are not those of the filled table but the local one")
			return []Outcome{{S: s.With("peers", "1")}}
		}
		cc := callAt(s, in)
		if cc == nil {
			return nil
		}
		c, _ := in.(*ssa.Call)
		_, a := callArgs(cc)
		if startsParty(cc) {
			e.Hit("computation started", in)
			ready(e, s, in)
			n := s.With("started:"+strings.TrimPrefix(callName(cc), libTss), "1")
			if n.Get("started:"+fnInbound) != "" && n.Get("started:.Party.Start") != "" {
				return []Outcome{{Stop: true}} // nothing is set up from here on
			}
			return []Outcome{{S: n}}
		}
		switch n := callName(cc); n {
		case getParties:
			if c == nil {
				return nil
			}
			e.Hit("parties made", in)
			e.Ob(s, in, w.T(s.ctx, a[0]).String() == keysT, "the parties are made of another list of keys than the session's")
			e.Ob(s, in, w.T(s.ctx, a[1]).isField(localT), "the local party is made of another key than the node's own")
			k := w.idxKey(s.ctx, c)
			return e.ForkErr(s.With("used:"+k, ""), c, errIdx(c), []string{"gp:" + k, "1"}, []string{"gp:" + k, ""})
		case thresholdOf:
			if c == nil {
				return nil
			}
			lc, l := lenOf(e, s, a[0])
			good := ""
			if l != nil {
				if holders == "" && (parties(e, s, lc, l, 0) != "" || w.T(lc, l).String() == keysT) || holders != "" && w.T(lc, l).isField(holders) {
					good = "1"
				}
			}
			k := "thr:" + w.idxKey(s.ctx, c)
			return e.ForkErr(s, c, errIdx(c), []string{k, good}, []string{k, ""})
		case libTss + ".NewParameters":
			e.Hit("parameters made", in)
			cx, co := e.Resolve(s, s.ctx, a[0])
			g := ""
			if call, ok := co.(*ssa.Call); ok && callName(&call.Call) == libTss+".NewPeerContext" {
				g = parties(e, s, cx, call.Call.Args[0], 0)
			}
			e.Ob(s, in, g != "", "the peer context is not made of the parties of the session")
			e.Ob(s, in, g != "" && parties(e, s, s.ctx, a[1], 1) == g, "the party of a computation is not the local one of its own peer context")
			if sign {
				e.Ob(s, in, s.Get("used:"+g) == "", "two computations share the same party")
			}
			e.Ob(s, in, count(e, s, a[2]), "the number of parties is not that of the session")
			tc, to := e.Resolve(s, s.ctx, a[3])
			ex, ok := to.(*ssa.Extract)
			e.Ob(s, in, ok && ex.Index == 0 && s.Get("thr:"+w.idxKey(tc, ex.Tuple)) == "1", "the threshold is not the one computed for the number of key holders")
			return []Outcome{{S: s.With("used:"+g, "1")}}
		case libNewKey, libNewSig:
			e.Hit("computation created", in)
			var p ssa.Value
			for _, v := range a {
				if tname(deref(v.Type())) == libTss+".Parameters" {
					p = v
				}
			}
			if p != nil {
				_, o := e.Resolve(s, s.ctx, p)
				call, ok := o.(*ssa.Call)
				e.Ob(s, in, ok && callName(&call.Call) == libTss+".NewParameters", "a computation is created without the parameters of the session")
			}
			return nil
		case partyMapOf:
			if c == nil {
				return nil
			}
			ok := parties(e, s, s.ctx, a[0], 0) != ""
			e.Ob(s, in, ok, "the table of parties is not made of the parties of the session")
			if ok {
				return []Outcome{{S: s.With("tab:"+w.idxKey(s.ctx, c), "1")}}
			}
		case fillPeers:
			if c == nil {
				return nil
			}
			e.Hit("peer table filled", in)
			t := table(e, s, s.ctx, a[0])
			e.Ob(s, in, t != "", "peers are looked up for another table than that of the session's parties")
			k := ""
			switch f := w.T(s.ctx, a[1]); {
			case f.isField(fSessPeers):
				k = "ids.s"
			case f.isField(fBlamePeers):
				k = "ids.b"
			default:
				e.Ob(s, in, false, "the peers are filled into another table than the session's")
				return nil
			}
			return e.ForkErr(s, c, errIdx(c), []string{k, t}, []string{k, ""})
		case setInfoS, setInfoB:
			e.Hit("party table set", in)
			var idv, mv []ctxVal
			k := "info.b"
			if n == setInfoS {
				k = "info.s"
				if st := structOf(deref(a[0].Type())); st != nil {
					pc, po := e.Resolve(s, s.ctx, a[0])
					for i := 0; i < st.NumFields(); i++ {
						switch st.Field(i).Name() {
						case "PartyIDMap":
							idv = w.fieldVals(pc, po, i)
						case "PartyMap":
							mv = w.fieldVals(pc, po, i)
						}
					}
				}
			} else {
				mv, idv = []ctxVal{{s.ctx, a[0]}}, []ctxVal{{s.ctx, a[1]}}
			}
			t := ""
			if len(idv) == 1 {
				t = table(e, s, idv[0].ctx, idv[0].v)
			}
			e.Ob(s, in, t != "", "the table of parties handed on is not that of the session's parties")
			e.Ob(s, in, len(mv) == 1, "the computations handed on are not those of the session")
			if len(mv) == 1 {
				infoMaps[w.idxKey(e.Resolve(s, mv[0].ctx, mv[0].v))] = in
			}
			return []Outcome{{S: s.With(k, t)}}
		case "sync.Map.Store":
			if filesParty(cc) {
				filed[w.idxKey(e.Resolve(s, s.ctx, cc.Args[0]))] = true
			}
		}
		return nil
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.ObFn(fn, len(infoMaps) == 1, "the session and the blame manager are given the same computations")
	for k, in := range infoMaps {
		r.Ob(in, filed[k], "the computations handed on are those that were created")
	}
}

// ------------------------------------------------------------ the tables

// cur: v is (a part of) the element the loop is at.
func curElem(w *World, e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	c, o := e.Resolve(s, ctx, v)
	switch x := o.(type) {
	case *ssa.Extract:
		nx, ok := x.Tuple.(*ssa.Next)
		return ok && x.Index == 2 && fmt.Sprintf("%p@%d", nx, c.ID) == s.Get("el.i")
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return w.idxKey(c, ia.Index) == s.Get("el.i")
		}
	case *ssa.Lookup: // m[k] of the key at hand
		return curKey(w, e, s, c, x.Index)
	}
	return false
}

func curKey(w *World, e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
	c, o := e.Resolve(s, ctx, v)
	x, ok := o.(*ssa.Extract)
	if !ok {
		return false
	}
	nx, ok := x.Tuple.(*ssa.Next)
	return ok && x.Index == 1 && fmt.Sprintf("%p@%d", nx, c.ID) == s.Get("el.i")
}

func partyTable(w *World, r *Report) {
	made := map[string]bool{}
	add := func(e *Engine, s *State, in ssa.Instruction) (bool, bool) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !strings.HasSuffix(mu.Map.Type().String(), "tss.PartyID") {
			return false, false
		}
		made[w.idxKey(e.Resolve(s, s.ctx, mu.Map))] = true
		id := false
		kc, ko := e.Resolve(s, s.ctx, mu.Key)
		if u, ok := ko.(*ssa.UnOp); ok && u.Op == token.MUL && strings.HasSuffix(w.T(kc, u).String(), ".Id") {
			if x := fieldBase(u.X); x != nil {
				id = curElem(w, e, s, kc, x)
			}
		} else if c, ok := ko.(*ssa.Call); ok && strings.HasSuffix(callName(&c.Call), ".GetId") {
			for _, a := range c.Call.Args {
				id = id || curElem(w, e, s, kc, partOf(a))
			}
		}
		return true, id && curElem(w, e, s, s.ctx, mu.Value)
	}
	done := func(e *Engine, s *State, rt *ssa.Return) {
		e.Hit("table complete: "+partyMapOf, rt)
		e.Ob(s, rt, s.Get("el.all") == "1", "the table of parties is returned before it is complete")
		e.Ob(s, rt, made[w.idxKey(e.Resolve(s, s.ctx, rt.Results[0]))] || s.Get("el.i") == "", "another table than the one filled is returned")
	}
	tableFn(w, r, partyMapOf, add, done, nil, func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok }, nil)
}

// fieldBase: the struct an address lies in, through embedded structs.
func fieldBase(v ssa.Value) ssa.Value {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	return partOf(fa.X)
}

func partOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				if st := structOf(deref(fa.X.Type())); st != nil && st.Field(fa.Field).Embedded() {
					v = fa.X
					continue
				}
			}
		}
		return v
	}
}

func peerTable(w *World, r *Report) {
	fn := w.Fn(fillPeers)
	isPeer := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if ok && (callName(&c.Call) == peerOfParty) {
			return c
		}
		return nil
	}
	add := func(e *Engine, s *State, in ssa.Instruction) (bool, bool) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || len(fn.Params) < 2 {
			return false, false
		}
		c, o := w.origin(s.ctx, mu.Map)
		if c.Parent != nil || o != ssa.Value(fn.Params[1]) {
			return false, false
		}
		vc, vo := e.Resolve(s, s.ctx, mu.Value)
		ex, ok := vo.(*ssa.Extract)
		return true, ok && ex.Index == 0 && curKey(w, e, s, s.ctx, mu.Key) && s.Get("peer") == w.idxKey(vc, ex.Tuple) && s.Get("peer") != ""
	}
	extra := func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if c := isPeer(in); c != nil {
			k := ""
			if curElem(w, e, s, s.ctx, c.Call.Args[0]) {
				k = w.idxKey(s.ctx, c)
			}
			return e.ForkErr(s, c, errIdx(c), []string{"peer", k}, []string{"peer", ""})
		}
		return nil
	}
	done := func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[0])) {
			return
		}
		e.Hit("table complete: "+fillPeers, rt)
		e.Ob(s, rt, s.Get("el.all") == "1", "the peers are said to be known before all were looked up")
	}
	f := func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok || isPeer(in) != nil }
	no := map[string]bool{peerOfParty: true}
	tableFn(w, r, fillPeers, add, done, extra, f, func(f *ssa.Function) bool { return no[fname(f)] })
}

func peerList(w *World, r *Report) {
	fn := w.Fn(peersOf)
	kept := map[ssa.Value]bool{}
	add := func(e *Engine, s *State, in ssa.Instruction) (bool, bool) {
		vs := storedElems(in)
		if len(vs) == 0 || tname(vs[0].Type()) != tPeer {
			return false, false
		}
		good := s.Get("el.on") == "1" && s.Get("self") == "0"
		for _, v := range vs {
			good = good && curElem(w, e, s, s.ctx, v)
			kept[v] = true
		}
		return true, good
	}
	extra := func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || len(fn.Params) < 2 {
			return nil
		}
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			c, o := w.origin(s.ctx, p[1])
			if c.Parent != nil || o != ssa.Value(fn.Params[1]) {
				continue
			}
			cc, co := e.Resolve(s, s.ctx, p[0])
			call, ok := co.(*ssa.Call)
			if !ok || callName(&call.Call) != tPeer+".String" || !curElem(w, e, s, cc, call.Call.Args[0]) {
				continue
			}
			e.Hit("local peer recognised", in)
			eq, ne := []string{"self", "1", "el.p", ""}, []string{"self", "0"}
			if b.Op == token.EQL {
				return e.Fork(s, b, eq, ne)
			}
			return e.Fork(s, b, ne, eq)
		}
		return nil
	}
	done := func(e *Engine, s *State, rt *ssa.Return) {
		e.Hit("table complete: "+peersOf, rt)
		if c, o := e.Resolve(s, s.ctx, rt.Results[0]); isNil(o) {
			return
		} else {
			p := w.sliceParts(c, o, nil)
			good := p.OK && len(p.Spread) == 0
			for _, v := range p.Vals {
				good = good && kept[v.v]
			}
			e.Ob(s, rt, good, "the list returned is not the one that was filled")
		}
		e.Ob(s, rt, s.Get("el.all") == "1", "the peers are returned before all were taken")
	}
	each := func(in ssa.Instruction) bool { return len(storedElems(in)) > 0 }
	tableFn(w, r, peersOf, add, done, extra, each, nil)
	r.Need("local peer recognised", 1)
}

// tableFn runs a rule over one exported function that fills a table from every
// element of its first parameter. add decides whether in adds the current one.
func tableFn(w *World, r *Report, name string, add func(e *Engine, s *State, in ssa.Instruction) (adds, good bool), done func(e *Engine, s *State, rt *ssa.Return), extra func(e *Engine, s *State, in ssa.Instruction) []Outcome, interesting func(in ssa.Instruction) bool, no func(f *ssa.Function) bool) {
	fn := w.Fn(name)
	if !r.ObGlobal(fn != nil && len(fn.Params) > 0, name+" exists") {
		return
	}
	each := &Each{Atom: "el", w: w, Coll: func(ctx *Ctx, v ssa.Value) bool {
		c, o := w.origin(ctx, v)
		return c.Parent == nil && o == ssa.Value(fn.Params[0])
	}}
	h := &Hooks{Track: trackAll, Interesting: interesting, NoInline: no}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if outs := each.On(e, s, in, "an element is left out"); outs != nil {
			for i := range outs {
				outs[i].S = outs[i].S.With("self", "", "peer", "")
			}
			return outs
		}
		if adds, good := add(e, s, in); adds {
			e.Hit("element entered: "+name, in)
			e.Ob(s, in, good, "an element is not entered as what it is")
			return []Outcome{{S: s.With("el.p", "")}}
		}
		if extra != nil {
			return extra(e, s, in)
		}
		return nil
	}
	h.OnReturn = done
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("element entered: "+name, 1)
	r.Need("table complete: "+name, 1)
}

// peerIdentity: the peer of a party is that of the party's own key.
func peerIdentity(w *World, r *Report) {
	fn := w.Fn(peerOfParty)
	if !r.ObGlobal(fn != nil && len(fn.Params) == 1, peerOfParty+" exists") {
		return
	}
	h := &Hooks{Track: trackAll}
	lib := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if ok && (strings.HasSuffix(callName(&c.Call), "crypto.UnmarshalSecp256k1PublicKey") || strings.HasSuffix(callName(&c.Call), "peer.IDFromPublicKey")) {
			return c
		}
		return nil
	}
	h.Interesting = func(in ssa.Instruction) bool { return lib(in) != nil }
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		c := lib(in)
		if c == nil {
			return nil
		}
		ac, ao := e.Resolve(s, s.ctx, c.Call.Args[0])
		k := w.idxKey(s.ctx, c)
		if strings.HasSuffix(callName(&c.Call), "PublicKey") && strings.Contains(callName(&c.Call), "Unmarshal") {
			t := w.T(ac, ao)
			own := t.calls("KeyInt") || t.calls("GetKey") || strings.HasSuffix(t.String(), ".Key")
			own = own && t.mentions(w.T(w.Root(fn), fn.Params[0]).String()) && len(t.alts()) == 1
			e.Ob(s, in, own, "the peer of a party is made of something else than the party's key")
			return e.ForkErr(s, c, errIdx(c), []string{"pk", k}, []string{"pk", ""})
		}
		ex, ok := ao.(*ssa.Extract)
		e.Hit("peer made", in)
		good := ok && ex.Index == 0 && s.Get("pk") == w.idxKey(ac, ex.Tuple)
		e.Ob(s, in, good, "a peer is made of a key that was not decoded")
		return e.ForkErr(s, c, errIdx(c), []string{"id", k}, []string{"id", ""})
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[1])) {
			return
		}
		e.Hit("peer of a party returned", rt)
		c, o := e.Resolve(s, s.ctx, rt.Results[0])
		ex, ok := o.(*ssa.Extract)
		e.Ob(s, rt, ok && ex.Index == 0 && s.Get("id") != "" && s.Get("id") == w.idxKey(c, ex.Tuple), "what is returned is not the peer of the party's key")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("peer made", 1)
	r.Need("peer of a party returned", 1)
}

// infoSetters: what the session is given is what it keeps.
func infoSetters(w *World, r *Report) {
	for _, n := range []string{setInfoS, setInfoB} {
		fn := w.Fn(n)
		if !r.ObGlobal(fn != nil, n+" exists") {
			continue
		}
		field := "common.TssCommon.partyInfo"
		if n == setInfoB {
			field = "blame.Manager.partyInfo"
		}
		n := n
		h := &Hooks{Track: trackAll, Interesting: func(in ssa.Instruction) bool {
			f, _ := storeField(in)
			return f == field || f == "blame.Manager.localPartyID"
		}}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			f, st := storeField(in)
			switch f {
			case field:
				e.Hit("party table kept: "+n, in)
				c, o := e.Resolve(s, s.ctx, st.Val)
				if n == setInfoS {
					e.Ob(s, in, c.Parent == nil && o == ssa.Value(fn.Params[1]), "the session keeps another party table than the one given")
				} else if stt := structOf(deref(st.Val.Type())); stt != nil {
					for i := 0; i < stt.NumFields(); i++ {
						vs := w.fieldVals(c, o, i)
						good := len(vs) == 1
						if good {
							vc, vo := e.Resolve(s, vs[0].ctx, vs[0].v)
							pi := map[string]int{"PartyMap": 1, "PartyIDMap": 2}[stt.Field(i).Name()]
							good = pi > 0 && vc.Parent == nil && vo == ssa.Value(fn.Params[pi])
						}
						e.Ob(s, in, good, "the blame manager keeps another party table than the one given")
					}
				}
				return []Outcome{{S: s.With("kept", "1")}}
			case "blame.Manager.localPartyID":
				e.Hit("own id kept", in)
				t := w.T(s.ctx, st.Val).String()
				e.Ob(s, in, strings.Contains(t, "Party.PartyID(") && strings.HasSuffix(t, ".Id"), "the blame manager takes something else for the id of the local party")
				return []Outcome{{S: s.With("own", "1")}}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			e.Ob(s, rt, s.Get("kept") == "1", "the party table given is not kept")
			if n == setInfoB {
				e.Ob(s, rt, s.Get("own") == "1", "the id of the local party is not kept")
			}
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		r.Need("party table kept: "+n, 1)
	}
	r.Need("own id kept", 1)
}

// tableWriters: nobody but the above changes the tables.
func tableWriters(w *World, r *Report) {
	isTable := func(f string) bool {
		return f == fSessPeers || f == fBlamePeers || f == fPeerList || f == tInfoS+".PartyIDMap" || f == tInfoB+".PartyIDMap"
	}
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) || fn.Synthetic != "" {
			continue
		}
		root := w.Root(fn)
		eachInstr(fn, func(in ssa.Instruction) {
			bad := func(v ssa.Value) {
				f := addrField(v)
				if f == "" {
					f = w.T(root, v).String()
				}
				r.Ob(in, !isTable(f), "a table of the session's committee is changed while it is in use")
			}
			switch x := in.(type) {
			case *ssa.MapUpdate:
				bad(x.Map)
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					bad(x.Common().Args[0])
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if _, isSl := ia.X.Type().Underlying().(*types.Slice); isSl {
						bad(ia.X)
					}
				}
				f, st := storeField(in)
				if f == fSessPeers || f == fBlamePeers {
					_, isMake := st.Val.(*ssa.MakeMap)
					fa, _ := st.Addr.(*ssa.FieldAddr)
					fresh := false
					if fa != nil {
						_, fresh = fa.X.(*ssa.Alloc)
					}
					r.Ob(in, isMake && fresh, "a table of the session's committee is replaced")
				}
			}
		})
	}
}
