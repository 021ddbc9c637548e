package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fWireFrom  = "messages.WireMessage.Routing.From.Id"
	fWireMsg   = "messages.WireMessage.Message"
	fWireSig   = "messages.WireMessage.Sig"
	fMsgID     = "common.TssCommon.msgID"
	fPartyIDs  = "common.PartyInfo.PartyIDMap"
	tWire      = "messages.WireMessage"
	fCacheMsg  = "common.LocalCacheItem.Msg"
	fConfirm   = "common.LocalCacheItem.ConfirmedList"
	fLocalPeer = "common.TssCommon.localPeerID"
	fTssMsg    = "common.TssCommon.TssMsg"
)

// isJobSend: in hands a share to a worker (or to the party itself).
func jobSendVal(in ssa.Instruction, k int) ssa.Value {
	switch x := in.(type) {
	case *ssa.Send:
		if jobStruct(x.X.Type()) {
			return x.X
		}
	case *ssa.Select:
		if k >= 0 && k < len(x.States) && x.States[k].Dir == types.SendOnly && jobStruct(x.States[k].Send.Type()) {
			return x.States[k].Send
		}
	}
	return nil
}

func isUpdateCall(in ssa.Instruction) *ssa.CallCommon {
	return isCall(in, libTss+".Party.UpdateFromBytes", libTss+".Party.Update", libTss+".Party.StoreMessage",
		libKeygen+".LocalParty.UpdateFromBytes", libSign+".LocalParty.UpdateFromBytes", libKeygen+".LocalParty.Update", libSign+".LocalParty.Update")
}

// verifyCall: a signature verification; gives key, data, signature.
func verifyCall(in ssa.Instruction) (key, data, sig ssa.Value) {
	ci, ok := in.(*ssa.Call)
	if !ok {
		return nil, nil, nil
	}
	n := callName(&ci.Call)
	if !strings.HasSuffix(n, ".VerifySignature") {
		return nil, nil, nil
	}
	r, a := callArgs(&ci.Call)
	if len(a) != 2 {
		return nil, nil, nil
	}
	return r, a[0], a[1]
}

func authSink(fn *ssa.Function, in ssa.Instruction) bool {
	if jobSendVal(in, 0) != nil || isUpdateCall(in) != nil {
		return true
	}
	switch x := in.(type) {
	case *ssa.Select:
		for k := range x.States {
			if jobSendVal(in, k) != nil {
				return true
			}
		}
	case *ssa.MapUpdate:
		switch addrField(x.Map) {
		case "blame.RoundMgr.storedMsg", fConfirm, "blame.Manager.lastUnicastPeer":
			return true
		}
	case *ssa.Store:
		switch f, _ := storeField(in); f {
		case fCacheMsg, "messages.BroadcastConfirmMessage.Hash":
			return true
		}
	}
	return false
}

func init() {
	register(&propDef{
		ID:    "C01",
		Title: "A share has no effect unless its owner's signature checks out",
		Rule: "Path-sensitive interprocedural dataflow from the session's inbound-message loop (and from any other root that reaches a sink): " +
			"on every path of one loop iteration, each sink (handing a share to a worker or the party, storing the message for others, caching it as received, counting the local node's own confirmation, announcing its hash, recording the unicast sender) " +
			"must be dominated by the true outcome of VerifySignature whose key is the committee entry of the claimed sender, whose data is message||session id and whose signature is the message's own. " +
			"Messages read back from the cache count as verified because every store into the cache is itself such a sink. The sender side must sign message||session id.",
		Assume: []string{"tendermint VerifySignature is sound", "tss-lib PartyID.GetKey returns the bytes the party id was built with"},
		Run:    runC01,
	})
}

func runC01(w *World, r *Report) {
	hooks := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			k, _, _ := verifyCall(in)
			return k != nil || authSink(nil, in) || w.recvField(in, fTssMsg) || isCall(in, "encoding/json.Unmarshal") != nil
		},
	}
	authed := func(s *State, base *Term) bool {
		if s.Get("auth") == "1" {
			return true
		}
		return base != nil && base.every(func(t *Term) bool { return t.String() == fCacheMsg })
	}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 {
			if sel.States[k].Dir == types.RecvOnly && addrField(sel.States[k].Chan) == fTssMsg {
				return s.With("auth", "", "dec", "")
			}
			if v := jobSendVal(sel, k); v != nil {
				e.Hit("share handed to a worker", sel)
				e.Ob(s, sel, s.Get("dec") == "1", "a share is handed to a worker although its message was not verified against its owner's key on this path")
			}
		}
		return s
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		ctx := s.ctx
		if u, ok := in.(*ssa.UnOp); ok && w.recvField(u, fTssMsg) {
			return []Outcome{{S: s.With("auth", "", "dec", "")}}
		}
		if key, data, sig := verifyCall(in); key != nil {
			kt, dt, st := w.T(ctx, key), w.T(ctx, data), w.T(ctx, sig)
			good := sameTerms(dt.flat(), fWireMsg, fMsgID) && st.String() == fWireSig && kt.every(func(t *Term) bool {
				return t.Op == "call" && strings.HasSuffix(t.Name, ".GetKey") && len(t.Args) == 1 && t.Args[0].String() == fPartyIDs+"["+fWireFrom+"]"
			})
			if good {
				e.Hit("signature verification of an inbound share", in)
				return e.Fork(s, in.(ssa.Value), []string{"auth", "1"}, []string{"auth", ""})
			}
			return nil
		}
		if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
			if dst, ok := decodeDst(cc.Args[1]); ok && isBulkSlice(dst) {
				base := w.baseOf(ctx, cc.Args[0], tWire)
				e.Hit("batch decoded", in)
				if authed(s, base) {
					return []Outcome{{S: s.With("dec", "1")}}
				}
				return []Outcome{{S: s.With("dec", "")}}
			}
			return nil
		}
		if v := jobSendVal(in, 0); v != nil {
			e.Hit("share handed to a worker", in)
			e.Ob(s, in, s.Get("dec") == "1", "a share is handed to a worker although its message was not verified against its owner's key on this path")
			return nil
		}
		if cc := isUpdateCall(in); cc != nil && callAt(s, in) != nil {
			// work taken off a channel was checked where it was queued
			_, a := callArgs(cc)
			e.Hit("share applied", in)
			if w.fromChannel(ctx, a[0]) {
				return nil
			}
			e.Ob(s, in, s.Get("dec") == "1", "a share is applied although its message was not verified against its owner's key on this path")
			return nil
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			switch addrField(x.Map) {
			case "blame.RoundMgr.storedMsg":
				e.Hit("message stored for other members", in)
				base := w.T(ctx, x.Value)
				e.Ob(s, in, authed(s, base), "a message is stored for re-serving although its owner's signature was not verified on this path")
			case fConfirm:
				if w.T(ctx, x.Key).String() == fLocalPeer {
					e.Hit("own confirmation", in)
					e.Ob(s, in, s.Get("auth") == "1", "the local node confirms a message whose owner's signature was not verified on this path")
				}
			case "blame.Manager.lastUnicastPeer":
				e.Hit("unicast sender recorded", in)
				var base *Term
				if cc := w.paramBase(ctx, x.Key); cc != nil {
					base = cc
				}
				e.Ob(s, in, authed(s, base), "a peer is recorded as sender of a unicast share whose signature was not verified on this path")
			}
		case *ssa.Store:
			switch f, st := storeField(in); f {
			case fCacheMsg:
				if e.Eval(s, st.Val) == aNil || w.T(ctx, st.Val).String() == "nil" {
					return nil
				}
				e.Hit("message cached as received", in)
				e.Ob(s, in, s.Get("auth") == "1", "a message is cached as received although its owner's signature was not verified on this path")
			case "messages.BroadcastConfirmMessage.Hash":
				e.Hit("hash announced", in)
				e.Ob(s, in, s.Get("auth") == "1", "the hash of a message is announced to the committee although its owner's signature was not verified on this path")
			}
		}
		return nil
	}
	stop := func(fn *ssa.Function) bool {
		return hasInstr(fn, func(in ssa.Instruction) bool { return w.recvField(in, fTssMsg) })
	}
	ents := w.entries(authSink, stop)
	visited := map[string]bool{}
	for _, en := range ents {
		e := NewEngine(w, hooks)
		e.Run(en, nil)
		r.Merge(e)
		r.Notes = append(r.Notes, "entry "+fname(en))
		for fn := range e.Fns {
			visited[fname(fn)] = true
		}
	}
	// every function holding a sink was reached from some entry
	for _, fn := range w.Funcs {
		if !isMockFile(w, fn) && hasInstr(fn, func(in ssa.Instruction) bool { return authSink(fn, in) }) {
			r.ObFn(fn, visited[fname(fn)], "sink reached by the analysis")
		}
	}
	// sender side
	n := 0
	for _, fn := range w.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			f, st := storeField(in)
			if f != fWireSig {
				return
			}
			n++
			t := w.T(w.Root(fn), st.Val)
			ok := t.every(func(x *Term) bool {
				if x.Op == "const" && x.Name == "nil" {
					return true
				}
				if x.Op != "call" || !strings.HasSuffix(x.Name, ".Sign") || len(x.Args) != 2 {
					return false
				}
				d := x.Args[1].flat()
				return len(d) == 2 && d[1].String() == fMsgID && x.Args[0].String() == "common.TssCommon.privateKey" && w.sameWireMessage(fn, st, d[0])
			})
			r.Anchor("outgoing message signed", in)
			r.Ob(in, ok, "an outgoing message carries the local key's signature over message||session id")
		})
	}
	r.Need("signature verification of an inbound share", 1)
	r.Need("batch decoded", 1)
	r.Need("share handed to a worker", 1)
	r.Need("share applied", 1)
	r.Need("message stored for other members", 1)
	r.Need("own confirmation", 1)
	r.Need("message cached as received", 1)
	r.Need("hash announced", 1)
	r.Need("outgoing message signed", 1)
}

// sameWireMessage: the struct literal holding st also gets data as Message.
func (w *World) sameWireMessage(fn *ssa.Function, st *ssa.Store, data *Term) bool {
	fa := st.Addr.(*ssa.FieldAddr)
	ok := false
	eachInstr(fn, func(in ssa.Instruction) {
		f, s2 := storeField(in)
		if f == fWireMsg && s2.Addr.(*ssa.FieldAddr).X == fa.X {
			ok = w.T(w.Root(fn), s2.Val).String() == data.String()
		}
	})
	return ok
}

// paramBase: the WireMessage a value was read from.
func (w *World) paramBase(ctx *Ctx, v ssa.Value) *Term { return w.baseOf(ctx, v, tWire) }

// fromChannel: v was read out of an object received from a channel.
func (w *World) fromChannel(ctx *Ctx, v ssa.Value) bool {
	for i := 0; i < 40 && v != nil; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.UnOp:
			if x.Op.String() == "<-" {
				return true
			}
			if al, ac := w.cellOf(ctx, x.X); al != nil {
				sts := storesTo(al)
				if len(sts) == 0 {
					return false
				}
				v, ctx = sts[0].Val, ac
				continue
			}
			v = x.X
		case *ssa.Alloc:
			sts := storesTo(x)
			if len(sts) != 1 {
				return false
			}
			v = sts[0].Val
		case *ssa.Select:
			return true
		case *ssa.Parameter:
			a := ctx.arg(x)
			if a == nil {
				return false
			}
			v, ctx = a, ctx.Parent
		case *ssa.FreeVar:
			b, bc := ctx.binding(x)
			if b == nil {
				return false
			}
			v, ctx = b, bc
		default:
			return false
		}
	}
	return false
}

// decodeDst: the type decoded into.
func decodeDst(v ssa.Value) (types.Type, bool) {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func isBulkSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && tname(s.Elem()) == "common.BulkWireMsg"
}
