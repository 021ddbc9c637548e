package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fCacheHash  = "common.LocalCacheItem.Hash"
	tCacheItem  = "common.LocalCacheItem"
	fUnconf     = "common.TssCommon.unConfirmedMessages"
	fPeerOf     = "common.TssCommon.PartyIDtoP2PID"
	fConfP2PID  = "messages.BroadcastConfirmMessage.P2PID"
	fConfHash   = "messages.BroadcastConfirmMessage.Hash"
	fConfKey    = "messages.BroadcastConfirmMessage.Key"
	tConfirm    = "messages.BroadcastConfirmMessage"
	fP2PPeer    = "p2p.Message.PeerID"
	peerString  = "github.com/libp2p/go-libp2p-core/peer.ID.String"
	termThresh  = "conversion.GetThreshold(len(common.PartyInfo.PartyIDMap))"
	termFreqSym = "common.getHighestFreq#1(common.LocalCacheItem.ConfirmedList)"
	termBest    = "common.getHighestFreq(common.LocalCacheItem.ConfirmedList)"
)

// ownHash: t is the hash of the content of the message at hand ("" on failure).
func ownHash(t *Term, content string) bool {
	some := false
	ok := t.every(func(t *Term) bool {
		if t.Op == "const" {
			return t.Name == `""`
		}
		if t.Op == "call" && t.Name == "encoding/hex.EncodeToString" && len(t.Args) == 1 {
			h := t.Args[0]
			if h.Op == "call" && h.Name == "hash" && len(h.Args) == 2 && h.Args[0].String() == "crypto/sha256.New()" && sameTerms(h.Args[1].flat(), content) {
				some = true
				return true
			}
			// sha256.Sum256(x)[:]
			found := false
			h.walk(func(x *Term) bool {
				if x.Op == "call" && x.Name == "crypto/sha256.Sum256" && len(x.Args) == 1 && sameTerms(x.Args[0].flat(), content) {
					found = true
				}
				return true
			})
			if found {
				some = true
				return true
			}
		}
		return false
	})
	return ok && some
}

func isPeerString(t *Term, of func(*Term) bool) bool {
	return t.Op == "call" && (t.Name == peerString || strings.HasSuffix(t.Name, "peer.ID.Pretty") || strings.HasSuffix(t.Name, "peer.Encode")) && len(t.Args) == 1 && of(t.Args[0])
}

func init() {
	register(&propDef{
		ID:    "C03",
		Title: "A broadcast share is applied only when the committee agrees on it",
		Rule: "Path-sensitive interprocedural dataflow: a received batch is decoded for application either from a message just found to be unicast, or from the cached message of an item for which all of the following held on the path since the item last changed: " +
			"at least GetThreshold(committee) confirmations, at least threshold-1 of them for the most frequent hash, that hash equal to the item's own hash, and the message's owner not among the confirming peers. " +
			"Wherever a message enters an item, the item's hash becomes the hash of that message's content. Otherwise nothing is applied; where the hash compared is another one, the item loses its message before the next one is handled. Items are filed under owner and round of their message, confirmations under the key they carry.",
		Assume: []string{"getHighestFreq returns a most frequent value and its frequency (its shape is checked)"},
		Run:    runC03,
	})
	register(&propDef{
		ID:    "C04",
		Title: "One confirmation per committee member, under its transport identity",
		Rule: "Path-sensitive interprocedural dataflow: every entry added to the set of confirmations of a message is either the local node's own (with the hash of the verified content) or is filed under the transport identity the message arrived from, never under an identity taken from its content, " +
			"on a path where that identity was found among the committee's peers and no earlier confirmation by it is on record for the same message; its value is the confirmation's hash.",
		Assume: []string{"libp2p authenticates the remote peer of a stream (C30 ties PeerID to it)"},
		Run:    runC04,
	})
}

func consensusSink(fn *ssa.Function, in ssa.Instruction) bool {
	if mu, ok := in.(*ssa.MapUpdate); ok && addrField(mu.Map) == fConfirm {
		return true
	}
	if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
		if dst, ok := decodeDst(cc.Args[1]); ok && isBulkSlice(dst) {
			return true
		}
	}
	switch f, _ := storeField(in); f {
	case fCacheMsg, fCacheHash:
		return true
	}
	return false
}

// dropsItem: an item is taken out of the table of unconfirmed messages.
func dropsItem(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "delete" && addrField(c.Common().Args[0]) == fUnconf
}

func runC03(w *World, r *Report) {
	owner := &Memb{Atom: "owner", w: w,
		Coll: func(ctx *Ctx, v ssa.Value) bool { return addrField(v) == fConfirm },
		Eq: func(ctx *Ctx, x, y ssa.Value) bool {
			return w.T(ctx, x).String() == "key("+fConfirm+")" && isPeerString(w.T(ctx, y), func(t *Term) bool { return t.String() == fPeerOf+"["+fWireFrom+"]" })
		},
		Empty: func(ctx *Ctx, in ssa.Instruction) (bool, bool) {
			if ex, ok := in.(*ssa.Extract); ok && ex.Index == 1 {
				if lk, ok := ex.Tuple.(*ssa.Lookup); ok && addrField(lk.X) == fConfirm &&
					isPeerString(w.T(ctx, lk.Index), func(t *Term) bool { return t.String() == fPeerOf+"["+fWireFrom+"]" }) {
					return false, true
				}
			}
			return false, false
		},
	}
	atoms := []string{"enough", "", "freq", "", "match", ""}
	clear := func(s *State) *State { return owner.reset(s.With(atoms...)) }
	newMsg := func(e *Engine, s *State, in ssa.Instruction) *State {
		e.Ob(s, in, s.Get("needhash") == "", "a message was put into an item whose hash is not the hash of that message")
		e.Ob(s, in, s.Get("needmsg") == "", "an item got the hash of a message other than its own")
		e.Ob(s, in, s.Get("other") == "", "a message stays in its item although the majority confirmed another one")
		return clear(s.With("uni", "", "cons", "", "needhash", "", "hashnew", "", "needmsg", "", "msgnew", "", "ver", "", "other", ""))
	}
	hooks := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if consensusSink(nil, in) || shareSinkInstr(nil, in) || w.recvField(in, fTssMsg) {
			return true
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return addrField(x.Map) == fUnconf
		case *ssa.Lookup:
			return addrField(x.X) == fUnconf || addrField(x.X) == fConfirm
		case *ssa.Range:
			return addrField(x.X) == fConfirm
		case *ssa.Call:
			return callName(&x.Call) == "common.getHighestFreq" || callName(&x.Call) == "encoding/json.Unmarshal" || dropsItem(in)
		}
		return false
	}}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 {
			if sel.States[k].Dir == types_RecvOnly && addrField(sel.States[k].Chan) == fTssMsg {
				return newMsg(e, s, sel)
			}
			if jobSendVal(sel, k) != nil {
				e.Hit("share handed to a worker", sel)
				e.Ob(s, sel, s.Get("cons") == "1", "a broadcast share is applied without the committee's agreement on this path")
			}
		}
		return s
	}
	keyOK := func(s *State, ctx *Ctx, k ssa.Value) bool {
		t := w.T(ctx, k)
		if s.Get("ver") == "1" {
			return t.String() == fConfKey
		}
		return t.mentions(fWireFrom) && t.mentions("messages.WireMessage.RoundInfo")
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		ctx := s.ctx
		if o := owner.On(e, s, in); o != nil {
			return o
		}
		switch x := in.(type) {
		case *ssa.UnOp:
			if w.recvField(x, fTssMsg) {
				return []Outcome{{S: newMsg(e, s, in)}}
			}
			if x.Op == token.MUL && x.Type().String() == "bool" && w.T(ctx, x).String() == fWireBcast {
				if b := w.baseOf(ctx, x, tWire); b != nil && !b.some(func(t *Term) bool { return t.String() == fCacheMsg }) {
					e.Hit("unicast test", in)
					return e.Fork(s, x, nil, []string{"uni", "1"})
				}
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				a, b := w.T(ctx, x.X), w.T(ctx, x.Y)
				best := func(t *Term) bool {
					return t.some(func(t *Term) bool { return t.String() == termBest }) && t.every(func(t *Term) bool { return t.String() == termBest || t.String() == `""` })
				}
				if (a.String() == fCacheHash && best(b)) || (b.String() == fCacheHash && best(a)) {
					e.Hit("hash compared with the majority's", in)
					no := []string{"match", ""}
					if s.Get("enough") == "1" && s.Get("freq") == "1" {
						no = append(no, "other", "1")
					}
					if x.Op == token.EQL {
						return e.Fork(s, x, []string{"match", "1"}, no)
					}
					return e.Fork(s, x, no, []string{"match", "1"})
				}
			}
			var on, off []string
			for _, val := range []bool{true, false} {
				c, ok := w.binCmp(ctx, x, val)
				if !ok {
					continue
				}
				var kv []string
				if c.impliesGE(Lin{M: map[string]int{"len(" + fConfirm + ")": 1, termThresh: -1}}) {
					kv = append(kv, "enough", "1")
				}
				if c.impliesGE(Lin{M: map[string]int{termFreqSym: 1, termThresh: -1}, C: 1}) {
					kv = append(kv, "freq", "1")
				}
				if val {
					on = kv
				} else {
					off = kv
				}
			}
			if on != nil || off != nil {
				e.Hit("confirmations counted", in)
				return e.Fork(s, x, on, off)
			}
		case *ssa.Store:
			f, st := storeField(in)
			switch f {
			case fCacheMsg:
				if e.Eval(s, st.Val) == aNil || w.T(ctx, st.Val).String() == "nil" {
					return []Outcome{{S: clear(s).With("hashnew", "", "needhash", "", "msgnew", "", "needmsg", "", "other", "")}}
				}
				n := clear(s).With("msgnew", "1", "needmsg", "")
				if s.Get("hashnew") != "1" {
					n = n.With("needhash", "1")
				}
				e.Hit("message put into an item", in)
				return []Outcome{{S: n}}
			case fCacheHash:
				n := clear(s)
				if ownHash(w.T(ctx, st.Val), fWireMsg) {
					if s.Get("msgnew") == "" {
						n = n.With("needmsg", "1")
					}
					return []Outcome{{S: n.With("needhash", "", "hashnew", "1")}}
				}
				// only an item without a message may carry another hash
				fa := st.Addr.(*ssa.FieldAddr)
				_, fresh := fa.X.(*ssa.Alloc)
				msgNil := false
				if al, ac := w.localStruct(ctx, fa.X); al != nil {
					msgNil = true
					for _, v := range w.fieldVals(ac, al, fieldIdx(al, "Msg")) {
						if e.eval(s, v.ctx, v.v) != aNil && w.T(v.ctx, v.v).String() != "nil" {
							msgNil = false
						}
					}
				}
				e.Ob(s, in, fresh && msgNil, "the hash kept with a message is not the hash of its content")
				return []Outcome{{S: n}}
			}
		case *ssa.MapUpdate:
			switch addrField(x.Map) {
			case fConfirm:
				return []Outcome{{S: clear(s)}}
			case fUnconf:
				e.Hit("item filed", in)
				e.Ob(s, in, keyOK(s, ctx, x.Key), "an item is filed under a key other than that of its message")
			}
		case *ssa.Lookup:
			if addrField(x.X) == fUnconf {
				e.Ob(s, in, keyOK(s, ctx, x.Index), "an item is looked up under a key other than that of its message")
			}
		}
		if dropsItem(in) && callAt(s, in) != nil {
			return []Outcome{{S: s.With("other", "")}}
		}
		if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
			dst, ok := decodeDst(cc.Args[1])
			if !ok {
				return nil
			}
			if tname(dst) == tConfirm {
				return []Outcome{{S: s.With("ver", "1")}}
			}
			if isBulkSlice(dst) {
				e.Hit("batch decoded", in)
				base := w.baseOf(ctx, cc.Args[0], tWire)
				okc := false
				if base != nil && base.every(func(t *Term) bool { return t.String() == fCacheMsg }) {
					okc = s.Get("enough") == "1" && s.Get("freq") == "1" && s.Get("match") == "1" && s.Get("owner.out") == "1" && s.Get("needhash") == "" && s.Get("needmsg") == ""
				} else if base != nil {
					okc = s.Get("uni") == "1"
				}
				if okc {
					return []Outcome{{S: s.With("cons", "1")}}
				}
				return []Outcome{{S: s.With("cons", "")}}
			}
		}
		if jobSendVal(in, 0) != nil {
			if _, isSel := in.(*ssa.Select); !isSel {
				e.Hit("share handed to a worker", in)
				e.Ob(s, in, s.Get("cons") == "1", "a broadcast share is applied without the committee's agreement on this path")
			}
		}
		if cc := isUpdateCall(in); cc != nil && callAt(s, in) != nil {
			if _, a := callArgs(cc); !w.fromChannel(ctx, a[0]) {
				e.Hit("share handed to a worker", in)
				e.Ob(s, in, s.Get("cons") == "1", "a broadcast share is applied without the committee's agreement on this path")
			}
		}
		return nil
	}
	runEntries(w, r, hooks, func(fn *ssa.Function, in ssa.Instruction) bool {
		return consensusSink(fn, in) || shareSinkInstr(fn, in)
	}, sessionStop(w))
	checkHighestFreq(w, r)
	for _, n := range []string{"share handed to a worker", "batch decoded", "confirmations counted", "hash compared with the majority's", "search over owner", "message put into an item", "item filed", "unicast test"} {
		r.Need(n, 1)
	}
}

func fieldIdx(v ssa.Value, name string) int {
	if st := structOf(v.Type()); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

// checkHighestFreq: the function counts every entry once and gives a value
// together with that value's count.
func checkHighestFreq(w *World, r *Report) {
	fn := w.Fn("common.getHighestFreq")
	if fn == nil {
		r.ObGlobal(false, "the function finding the most frequent hash exists")
		return
	}
	ctx := w.Root(fn)
	// counting: freq[v] = freq[v]+1 for v in the parameter
	counted := ""
	var countMap ssa.Value
	updates, once := 0, true
	eachInstr(fn, func(in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		if mt, ok := mu.Map.Type().Underlying().(*types.Map); ok && mt.Elem().String() == "int" {
			updates++
			once = once && everyRound(mu.Block())
		}
		k := w.T(ctx, mu.Key)
		if k.Op != "elem" {
			return
		}
		v, ok := mu.Value.(*ssa.BinOp)
		if !ok || v.Op != token.ADD {
			return
		}
		one, ok := v.Y.(*ssa.Const)
		if !ok || one.Int64() != 1 {
			return
		}
		counted = k.Args[0].String()
		countMap = mu.Map
	})
	r.ObFn(fn, counted != "" && strings.Contains(counted, "#") && updates == 1 && once, "every confirmation is counted once under its hash")
	if countMap == nil {
		return
	}
	// the result: key and count of the same entry, replaced only by a larger count
	bad, n := false, 0
	for _, rt := range returnsOf(fn) {
		if len(rt.Results) != 3 {
			continue
		}
		if c, ok := rt.Results[2].(*ssa.Const); !ok || !c.IsNil() {
			continue
		}
		n++
		bad = bad || !pairedMax(rt.Results[0], rt.Results[1])
	}
	r.ObFn(fn, n > 0 && !bad, "the hash returned is the one whose count is returned, and no other has a larger count")
}

// pairedMax: k and c are running (key, count) variables of one map iteration,
// assigned together under count > c (or >=).
func pairedMax(k, c ssa.Value) bool {
	pk, ok1 := k.(*ssa.Phi)
	pc, ok2 := c.(*ssa.Phi)
	if !ok1 || !ok2 {
		return false
	}
	ok := true
	assigned := 0
	seen := map[*ssa.Phi]bool{}
	var walk func(pk, pc *ssa.Phi)
	walk = func(pk, pc *ssa.Phi) {
		if seen[pk] {
			return
		}
		seen[pk] = true
		if pk.Block() != pc.Block() {
			ok = false
			return
		}
		for i := range pk.Edges {
			a, b := pk.Edges[i], pc.Edges[i]
			ap, o1 := a.(*ssa.Phi)
			bp, o2 := b.(*ssa.Phi)
			if o1 && o2 {
				walk(ap, bp)
				continue
			}
			ac, o1 := a.(*ssa.Const)
			bc, o2 := b.(*ssa.Const)
			if o1 && o2 {
				_ = ac
				ok = ok && bc.Value != nil && bc.Int64() <= 0
				continue
			}
			ae, o1 := a.(*ssa.Extract)
			be, o2 := b.(*ssa.Extract)
			if o1 && o2 && ae.Tuple == be.Tuple && ae.Index == 1 && be.Index == 2 {
				// the edge is taken under count > running count
				assigned++
				ok = ok && guardedGreater(pk.Block().Preds[i], be)
				continue
			}
			ok = false
		}
	}
	walk(pk, pc)
	return ok && assigned > 0
}

func guardedGreater(b *ssa.BasicBlock, cnt ssa.Value) bool {
	for i := 0; i < 6 && b != nil; i++ {
		d := b
		if len(b.Preds) == 1 {
			p := b.Preds[0]
			if f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				c, ok := f.Cond.(*ssa.BinOp)
				if ok {
					t := p.Succs[0] == d
					gt := (c.X == cnt && (c.Op == token.GTR || c.Op == token.GEQ) && t) || (c.Y == cnt && (c.Op == token.LSS || c.Op == token.LEQ) && t) ||
						(c.X == cnt && (c.Op == token.LSS || c.Op == token.LEQ) && !t) || (c.Y == cnt && (c.Op == token.GTR || c.Op == token.GEQ) && !t)
					return gt
				}
			}
			b = p
			continue
		}
		// the block testing may itself be the predecessor
		return false
	}
	return false
}

func runC04(w *World, r *Report) {
	who := func(t *Term) bool { return t.String() == fP2PPeer }
	arrived := func(t *Term) bool { return t.every(func(t *Term) bool { return isPeerString(t, who) }) }
	com := &Memb{Atom: "member", w: w,
		Coll: func(ctx *Ctx, v ssa.Value) bool {
			f := addrField(v)
			return f == fPeerOf || f == "common.TssCommon.P2PPeers"
		},
		Eq: func(ctx *Ctx, x, y ssa.Value) bool {
			el := func(t *Term) bool {
				return t.Op == "elem" && (t.Args[0].String() == fPeerOf || t.Args[0].String() == "common.TssCommon.P2PPeers")
			}
			xt, yt := w.T(ctx, x), w.T(ctx, y)
			return (el(xt) && yt.String() == fP2PPeer) || (isPeerString(xt, el) && arrived(yt))
		},
	}
	reset := func(s *State) *State {
		return com.reset(s.With("pid", "", "novote", "", "conf", ""))
	}
	hooks := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if w.recvField(in, fTssMsg) {
			return true
		}
		if f, _ := storeField(in); f == fConfP2PID {
			return true
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return addrField(x.Map) == fConfirm || addrField(x.Map) == fUnconf
		case *ssa.Lookup:
			return addrField(x.X) == fUnconf || addrField(x.X) == fConfirm
		case *ssa.Range:
			return addrField(x.X) == fPeerOf
		case *ssa.Call:
			if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
				dst, ok := decodeDst(cc.Args[1])
				return ok && tname(dst) == tConfirm
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				f := addrField(x.Call.Args[0])
				return f == fPeerOf || f == "common.TssCommon.P2PPeers"
			}
		}
		return false
	}}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 && sel.States[k].Dir == types_RecvOnly && addrField(sel.States[k].Chan) == fTssMsg {
			return reset(s)
		}
		return s
	}
	keyIs := func(s *State, t *Term) bool {
		return arrived(t) || (t.String() == fConfP2PID && s.Get("pid") == "1")
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		ctx := s.ctx
		if o := com.On(e, s, in); o != nil {
			return o
		}
		switch x := in.(type) {
		case *ssa.UnOp:
			if w.recvField(x, fTssMsg) {
				return []Outcome{{S: reset(s)}}
			}
		case *ssa.Extract:
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
				switch addrField(lk.X) {
				case fConfirm:
					if keyIs(s, w.T(ctx, lk.Index)) {
						e.Hit("earlier confirmation looked up", in)
						return e.Fork(s, x, []string{"novote", ""}, []string{"novote", "1"})
					}
				case fUnconf:
					if w.T(ctx, lk.Index).String() == fConfKey {
						return e.Fork(s, x, nil, []string{"novote", "1"})
					}
				}
			}
		case *ssa.Lookup:
			if !x.CommaOk && addrField(x.X) == fConfirm && keyIs(s, w.T(ctx, x.Index)) {
				return nil
			}
		case *ssa.BinOp:
			// no item yet for the message the confirmation names
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := p[1].(*ssa.Const); ok && c.IsNil() && (x.Op == token.EQL || x.Op == token.NEQ) &&
					w.T(ctx, p[0]).some(func(t *Term) bool { return t.String() == fUnconf+"["+fConfKey+"]" }) &&
					w.T(ctx, p[0]).every(func(t *Term) bool { return t.String() == fUnconf+"["+fConfKey+"]" || t.String() == "nil" }) {
					if x.Op == token.EQL {
						return e.Fork(s, x, []string{"novote", "1"}, nil)
					}
					return e.Fork(s, x, nil, []string{"novote", "1"})
				}
			}
			// confirmed[peer] == ""
			if lk, ok := x.X.(*ssa.Lookup); ok && !lk.CommaOk && addrField(lk.X) == fConfirm && keyIs(s, w.T(ctx, lk.Index)) {
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == `""` {
					if x.Op == token.EQL {
						return e.Fork(s, x, []string{"novote", "1"}, nil)
					}
					if x.Op == token.NEQ {
						return e.Fork(s, x, nil, []string{"novote", "1"})
					}
				}
			}
		case *ssa.Store:
			if f, st := storeField(in); f == fConfP2PID {
				if arrived(w.T(ctx, st.Val)) {
					return []Outcome{{S: s.With("pid", "1")}}
				}
				return []Outcome{{S: s.With("pid", "")}}
			}
		case *ssa.MapUpdate:
			if addrField(x.Map) == fConfirm {
				kt, vt := w.T(ctx, x.Key), w.T(ctx, x.Value)
				if kt.String() == fLocalPeer {
					e.Hit("own confirmation", in)
					e.Ob(s, in, ownHash(vt, fWireMsg), "the local confirmation is not the hash of the received content")
					return nil
				}
				e.Hit("confirmation counted", in)
				e.Ob(s, in, keyIs(s, kt), "a confirmation is filed under an identity that is not the one it arrived from")
				e.Ob(s, in, s.Get("member.in") == "1", "a confirmation is counted although its sender was not found in the committee")
				e.Ob(s, in, s.Get("novote") == "1", "a confirmation may replace or repeat an earlier one of the same member")
				e.Ob(s, in, vt.String() == fConfHash, "a confirmation is counted for a hash other than the one it carries")
				return nil
			}
		}
		if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
			if dst, ok := decodeDst(cc.Args[1]); ok && tname(dst) == tConfirm {
				return []Outcome{{S: s.With("pid", "", "conf", "1")}}
			}
		}
		return nil
	}
	runEntries(w, r, hooks, func(fn *ssa.Function, in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && addrField(mu.Map) == fConfirm
	}, sessionStop(w))
	r.Need("confirmation counted", 1)
	r.Need("own confirmation", 1)
	r.Need("search over member", 1)
}

// everyRound: b is passed in every round of the loops it is in.
func everyRound(b *ssa.BasicBlock) bool {
	for _, h := range b.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		for _, p := range h.Preds {
			if h.Dominates(p) && reachesWithout(b, p, h) && !b.Dominates(p) {
				return false
			}
		}
	}
	return true
}

// reachesWithout: there is a path from a to b not passing stop.
func reachesWithout(a, b, stop *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range x.Succs {
			if y != stop && walk(y) {
				return true
			}
		}
		return false
	}
	return walk(a)
}
