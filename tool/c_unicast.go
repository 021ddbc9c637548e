package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tOutMsg    = "messages.BroadcastMsgChan"
	tControl   = "messages.TssControl"
	fRequested = "blame.ShareMgr.requested"
	fStored    = "blame.RoundMgr.storedMsg"
	fReqHash   = "messages.TssControl.ReqHash"
	fReqKey    = "messages.TssControl.ReqKey"
	fCtlMsg    = "messages.TssControl.Msg"
	tNotifier  = "messages.TssTaskNotifier"
	wireBytes  = libTss + ".Message.WireBytes"
)

// outSend: in hands a message to the network layer (value sent).
func outSend(in ssa.Instruction, k int) ssa.Value {
	switch x := in.(type) {
	case *ssa.Send:
		if tname(x.X.Type()) == tOutMsg {
			return x.X
		}
	case *ssa.Select:
		if k >= 0 && k < len(x.States) && x.States[k].Dir == types.SendOnly && tname(x.States[k].Send.Type()) == tOutMsg {
			return x.States[k].Send
		}
	}
	return nil
}

func outSink(fn *ssa.Function, in ssa.Instruction) bool {
	if sel, ok := in.(*ssa.Select); ok {
		for k := range sel.States {
			if outSend(sel, k) != nil {
				return true
			}
		}
	}
	return outSend(in, 0) != nil
}

// structField values of a struct-typed or pointer-to-struct value, through
// nested struct copies: path of field names.
func (w *World) fieldPath(c ctxVal, names ...string) []ctxVal {
	cur := []ctxVal{c}
	for _, n := range names {
		var next []ctxVal
		for _, x := range cur {
			i := fieldIdx(x.v, n)
			if i < 0 {
				continue
			}
			next = append(next, w.fieldVals(x.ctx, x.v, i)...)
		}
		cur = next
	}
	return cur
}

// marshalled: the value whose JSON v is.
func (w *World) marshalled(ctx *Ctx, v ssa.Value) (ctxVal, bool) {
	c, o := w.origin(ctx, v)
	if ex, ok := o.(*ssa.Extract); ok && ex.Index == 0 {
		if call, ok := ex.Tuple.(*ssa.Call); ok && callName(&call.Call) == "encoding/json.Marshal" {
			a := call.Call.Args[0]
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			return ctxVal{c, a}, true
		}
	}
	return ctxVal{}, false
}

func init() {
	register(&propDef{
		ID:    "C06",
		Title: "A private share goes to its addressee only",
		Rule: "Path-sensitive interprocedural dataflow. Sending: wherever a share message is handed to the network, either its routing has no addressee list (broadcast) on that path or every recipient is the peer of a party in the To list of that same routing. " +
			"Grouping: unicast shares wait in lists keyed by type and addressee. Receiving: a message that is not a broadcast on that path is never stored for re-serving, put into the cache of confirmed messages, confirmed or announced.",
		Assume: []string{"tss-lib sets the routing of its messages correctly"},
		Run:    runC06,
	})
	register(&propDef{
		ID:    "C07",
		Title: "Missing shares are exchanged only on request and as requested",
		Rule: "Path-sensitive interprocedural dataflow over the inbound loop: the content of a control message is processed only where its hash equals the hash in the message and a pending request for that hash was found and consumed; the request is consumed only after the hash matched. " +
			"A request names the majority hash, is noted as pending first and goes to peers that confirmed that hash. An answer carries the message stored under the requested key and goes to the requesting peer only.",
		Assume: []string{"C01 re-verifies the content's signature"},
		Run:    runC07,
	})
	register(&propDef{
		ID:    "C31",
		Title: "Outgoing batches hold one share of each computation, of one kind, for one destination",
		Rule: "Path-sensitive interprocedural dataflow over the outgoing side: a produced share is filed with exactly its bytes, routing and originating computation, under its type (and addressee when unicast), appended to what was filed there before; a list is sent only when its length equals the number of computations of the session, " +
			"with the type it is filed under as round and the routing of one of its elements, and its entry is deleted before control returns after a successful send, under the same key of the same store.",
		Assume: []string{"each computation emits each message type once per destination"},
		Run:    runC31,
	})
}

func outStop(w *World) func(fn *ssa.Function) bool {
	ss := sessionStop(w)
	return func(fn *ssa.Function) bool {
		if ss(fn) {
			return true
		}
		return hasInstr(fn, func(in ssa.Instruction) bool { return isCall(in, wireBytes) != nil }) ||
			(fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil && pkgShort(fnPkg(fn)) == "common" && strings.Contains(fname(fn), "Notify"))
	}
}

func runC06(w *World, r *Report) {
	// receiving
	hooks := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if authSink(nil, in) || w.recvField(in, fTssMsg) {
			return true
		}
		if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
			dst, ok := decodeDst(cc.Args[1])
			return ok && (tname(dst) == tWire || tname(dst) == tControl)
		}
		return false
	}}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 && sel.States[k].Dir == types_RecvOnly && addrField(sel.States[k].Chan) == fTssMsg {
			return s.With("bcast", "")
		}
		return s
	}
	cached := func(t *Term) bool {
		return t != nil && t.every(func(t *Term) bool { return t.String() == fCacheMsg })
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		ctx := s.ctx
		switch x := in.(type) {
		case *ssa.UnOp:
			if w.recvField(x, fTssMsg) {
				return []Outcome{{S: s.With("bcast", "")}}
			}
			if x.Op == token.MUL && x.Type().String() == "bool" && w.T(ctx, x).String() == fWireBcast && !cached(w.baseOf(ctx, x, tWire)) {
				e.Hit("broadcast flag tested", in)
				return e.Fork(s, x, []string{"bcast", "1"}, []string{"bcast", "0"})
			}
		case *ssa.MapUpdate:
			switch addrField(x.Map) {
			case fStored:
				e.Hit("message stored for other members", in)
				e.Ob(s, in, cached(w.T(ctx, x.Value)) || s.Get("bcast") == "1", "a message that may be a private share is kept for re-serving to others")
			case fConfirm:
				if w.T(ctx, x.Key).String() == fLocalPeer {
					e.Ob(s, in, s.Get("bcast") == "1", "the local node confirms a message that may be a private share")
				}
			}
		case *ssa.Store:
			switch f, st := storeField(in); f {
			case fCacheMsg:
				if e.Eval(s, st.Val) == aNil || w.T(ctx, st.Val).String() == "nil" {
					return nil
				}
				e.Hit("message cached", in)
				e.Ob(s, in, s.Get("bcast") == "1", "a message that may be a private share enters the cache of broadcast messages")
			case fConfHash:
				e.Hit("hash announced", in)
				e.Ob(s, in, s.Get("bcast") == "1", "the hash of a message that may be a private share is announced")
			}
		}
		if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
			if dst, ok := decodeDst(cc.Args[1]); ok && (tname(dst) == tWire || tname(dst) == tControl) {
				return []Outcome{{S: s.With("bcast", "")}}
			}
		}
		return nil
	}
	runEntries(w, r, hooks, func(fn *ssa.Function, in ssa.Instruction) bool {
		if mu, ok := in.(*ssa.MapUpdate); ok {
			return addrField(mu.Map) == fStored
		}
		f, _ := storeField(in)
		return f == fCacheMsg || f == fConfHash
	}, sessionStop(w))
	// sending
	out := &Hooks{
		Interesting: func(in ssa.Instruction) bool { return outSink(nil, in) || isCall(in, wireBytes) != nil },
		Track: func(v ssa.Value) bool {
			s, ok := deref(v.Type()).Underlying().(*types.Slice)
			if ok && strings.HasSuffix(tname(s.Elem()), "peer.ID") {
				return true
			}
			if tu, ok := v.Type().(*types.Tuple); ok {
				for i := 0; i < tu.Len(); i++ {
					if s, ok := tu.At(i).Type().Underlying().(*types.Slice); ok && strings.HasSuffix(tname(s.Elem()), "peer.ID") {
						return true
					}
				}
			}
			return false
		},
	}
	isRouting := func(t *Term, field string) bool {
		return t.every(func(t *Term) bool { return strings.HasSuffix(t.String(), "Routing."+field) })
	}
	check := func(e *Engine, s *State, in ssa.Instruction, v ssa.Value) {
		m := ctxVal{s.ctx, v}
		for _, pl := range w.fieldPath(m, "WrappedMessage", "Payload") {
			src, ok := w.marshalled(pl.ctx, pl.v)
			if !ok {
				e.Ob(s, in, false, "what an outgoing message carries is a value marshalled here")
				continue
			}
			if tname(src.v.Type()) != tWire {
				continue
			}
			e.Hit("share message sent", in)
			if s.Get("all") == "1" {
				continue
			}
			rt := mk("unknown", "")
			for _, rv := range w.fieldPath(src, "Routing") {
				rt = w.T(rv.ctx, rv.v)
			}
			peers := w.fieldPath(m, "PeersID")
			good := len(peers) > 0
			for _, p := range peers {
				parts := w.sliceParts(p.ctx, p.v, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
				if len(parts.Spread) > 0 || !parts.OK {
					good = false
				}
				for _, el := range parts.Elems {
					want := fPeerOf + "[" + rt.String() + ".To[].Id]"
					if el.String() != want {
						good = false
					}
				}
			}
			e.Ob(s, in, good, "a share with addressees is sent to a peer that is not one of them")
		}
	}
	out.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if v := outSend(sel, k); v != nil {
			check(e, s, sel, v)
		}
		return s
	}
	out.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		ctx := s.ctx
		if c, empty, ok := lenZero(in); ok && isRouting(w.T(ctx, c), "To") {
			e.Hit("addressees tested", in)
			if empty {
				return e.Fork(s, in.(ssa.Value), []string{"all", "1"}, []string{"all", "0"})
			}
			return e.Fork(s, in.(ssa.Value), []string{"all", "0"}, []string{"all", "1"})
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && u.Type().String() == "bool" && isRouting(w.T(ctx, u), "IsBroadcast") {
			return e.Fork(s, u, []string{"all", "1"}, []string{"all", "0"})
		}
		if _, isSel := in.(*ssa.Select); !isSel {
			if v := outSend(in, 0); v != nil {
				check(e, s, in, v)
			}
		}
		return nil
	}
	runEntries(w, r, out, outSink, outStop(w))
	// grouping: what is sent together was filed together
	sub := newReport(w, "C06", r.Tier)
	runC31(w, sub)
	for _, v := range sub.Viol {
		if strings.Contains(v.Msg, "addressee") || strings.Contains(v.Msg, "filed together") {
			r.Viol = append(r.Viol, v)
		}
	}
	for k, v := range sub.Obl {
		if strings.Contains(k, "addressee") || strings.Contains(k, "filed together") {
			r.Obl[k] = v
		}
	}
	for _, n := range []string{"share message sent", "message stored for other members", "message cached", "hash announced", "broadcast flag tested"} {
		r.Need(n, 1)
	}
}

func runC07(w *World, r *Report) {
	const ctlBody = "messages.TssControl.Msg"
	reset := []string{"ctl", "", "hashok", "", "req", "", "reply", "", "consumed", ""}
	hooks := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if authSink(nil, in) || w.recvField(in, fTssMsg) || outSink(nil, in) {
			return true
		}
		if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
			dst, ok := decodeDst(cc.Args[1])
			return ok && (tname(dst) == tWire || tname(dst) == tControl || isBulkSlice(dst))
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return addrField(x.Map) == fRequested
		case *ssa.Lookup:
			return addrField(x.X) == fRequested
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return addrField(x.Call.Args[0]) == fRequested
			}
		}
		f, _ := storeField(in)
		return f == fCtlMsg
	}}
	isCtlMsg := func(t *Term) bool { return t != nil && t.some(func(t *Term) bool { return t.String() == fCtlMsg }) }
	sink := func(e *Engine, s *State, in ssa.Instruction, what string) {
		if s.Get("ctl") != "1" {
			return
		}
		e.Hit("content of a control message processed", in)
		e.Ob(s, in, s.Get("hashok") == "1", what+" although its hash was not found to be the requested one")
		e.Ob(s, in, s.Get("req") == "1", what+" although no pending request for it was found")
		e.Ob(s, in, s.Get("consumed") == "1", what+" although the request for it stays pending")
	}
	best := func(t *Term) bool {
		return t.some(func(t *Term) bool { return t.String() == termBest }) && t.every(func(t *Term) bool { return t.String() == termBest || t.String() == `""` })
	}
	sendCheck := func(e *Engine, s *State, in ssa.Instruction, v ssa.Value) {
		m := ctxVal{s.ctx, v}
		for _, pl := range w.fieldPath(m, "WrappedMessage", "Payload") {
			src, ok := w.marshalled(pl.ctx, pl.v)
			if !ok || tname(src.v.Type()) != tControl {
				continue
			}
			var parts *sliceParts
			for _, p := range w.fieldPath(m, "PeersID") {
				parts = w.sliceParts(p.ctx, p.v, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
			}
			if parts == nil {
				e.Ob(s, in, false, "the recipients of a control message can be determined")
				continue
			}
			msgs := w.fieldPath(src, "Msg")
			answering := s.Get("ctl") == "1" && s.Get("reply") == "1"
			_ = msgs
			if answering {
				e.Hit("answer to a request", in)
				good := len(parts.Spread) == 0 && len(parts.Elems) == 1
				for _, el := range parts.Elems {
					good = good && requester(el)
				}
				e.Ob(s, in, good, "the answer to a request goes to a peer other than the requester")
				continue
			}
			if s.Get("ctl") == "1" && s.Get("hashok") != "1" {
				e.Ob(s, in, false, "a control message is sent in answer to another without the stored message")
				continue
			}
			e.Hit("request sent", in)
			good := len(parts.Spread) == 0
			for _, el := range parts.Elems {
				good = good && el.Op == "call" && el.Name == libPeer+".Decode" && el.Args[0].String() == "key("+fConfirm+")"
			}
			e.Ob(s, in, good && s.Get("reqset") == "1", "a request is sent without being noted as pending, or to peers that did not confirm the message")
			hs := w.fieldPath(src, "ReqHash")
			okh := len(hs) > 0
			for _, h := range hs {
				okh = okh && best(w.T(h.ctx, h.v))
			}
			e.Ob(s, in, okh, "a request names a hash other than the majority's")
		}
	}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 && sel.States[k].Dir == types_RecvOnly && addrField(sel.States[k].Chan) == fTssMsg {
			return s.With(append(reset, "reqset", "", "held", "")...)
		}
		if v := outSend(sel, k); v != nil {
			sendCheck(e, s, sel, v)
		}
		return s
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		ctx := s.ctx
		switch x := in.(type) {
		case *ssa.UnOp:
			if w.recvField(x, fTssMsg) {
				return []Outcome{{S: s.With(append(reset, "reqset", "", "held", "")...)}}
			}
		case *ssa.Lookup:
			if addrField(x.X) == fRequested && !x.CommaOk {
				if w.T(ctx, x.Index).String() == fReqHash {
					e.Hit("pending request looked up", in)
					return e.Fork(s, x, []string{"req", "1"}, []string{"req", ""})
				}
			}
		case *ssa.Extract:
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && addrField(lk.X) == fRequested && w.T(ctx, lk.Index).String() == fReqHash {
				e.Hit("pending request looked up", in)
				return e.Fork(s, x, []string{"req", "1"}, []string{"req", ""})
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				a, b := w.T(ctx, x.X), w.T(ctx, x.Y)
				for _, p := range [][2]*Term{{a, b}, {b, a}} {
					if p[0].String() == fReqHash && ownHash(p[1], fWireMsg) && (isCtlMsg(w.hashBase(ctx, x.X)) || isCtlMsg(w.hashBase(ctx, x.Y))) {
						e.Hit("hash of the content compared", in)
						if x.Op == token.EQL {
							return e.Fork(s, x, []string{"hashok", "1"}, []string{"hashok", ""})
						}
						return e.Fork(s, x, []string{"hashok", ""}, []string{"hashok", "1"})
					}
					if p[0].String() == fConfirm+"[]" && best(p[1]) {
						if x.Op == token.EQL {
							return e.Fork(s, x, []string{"held", "1"}, []string{"held", ""})
						}
						return e.Fork(s, x, []string{"held", ""}, []string{"held", "1"})
					}
				}
			}
		case *ssa.MapUpdate:
			switch addrField(x.Map) {
			case fRequested:
				e.Hit("request noted as pending", in)
				e.Ob(s, in, best(w.T(ctx, x.Key)), "a request is noted as pending for a hash other than the majority's")
				return []Outcome{{S: s.With("reqset", "1")}}
			case fStored:
				sink(e, s, in, "the content of a control message is stored")
			case fConfirm:
				sink(e, s, in, "the content of a control message is confirmed")
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete":
					if addrField(x.Call.Args[0]) == fRequested {
						e.Hit("request consumed", in)
						e.Ob(s, in, s.Get("hashok") == "1" && w.T(ctx, x.Call.Args[1]).String() == fReqHash, "a pending request is consumed by a message that does not have the requested hash")
						return []Outcome{{S: s.With("consumed", "1")}}
					}
				case "append":
					// peers to ask: only those that confirmed the hash
					if t := w.T(ctx, x.Call.Args[1]); t.mentions("key(" + fConfirm + ")") {
						e.Hit("peer chosen for a request", in)
						e.Ob(s, in, s.Get("held") == "1", "a peer that did not confirm the wanted hash is asked for the message")
					}
				}
			}
		case *ssa.Store:
			switch f, st := storeField(in); f {
			case fCacheMsg:
				if e.Eval(s, st.Val) != aNil && w.T(ctx, st.Val).String() != "nil" {
					sink(e, s, in, "the content of a control message is cached")
				}
			case fConfHash:
				if s.Get("ctl") == "1" {
					sink(e, s, in, "the content of a control message is announced")
				}
			case fCtlMsg:
				t := w.T(ctx, st.Val)
				if t.String() == "nil" {
					return nil
				}
				e.Hit("answer filled in", in)
				e.Ob(s, in, t.every(func(t *Term) bool { return t.String() == fStored+"["+fReqKey+"]" || t.String() == "nil" }), "an answer carries something other than the message stored under the requested key")
				e.Ob(s, in, e.Eval(s, st.Val) == aNonNil, "a request is answered although no message is stored under its key")
				return []Outcome{{S: s.With("reply", "1")}}
			}
		}
		if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
			if dst, ok := decodeDst(cc.Args[1]); ok {
				switch {
				case tname(dst) == tControl:
					return []Outcome{{S: s.With(reset...).With("ctl", "1")}}
				case isBulkSlice(dst):
					sink(e, s, in, "the shares of a control message are decoded for application")
				}
			}
		}
		if _, isSel := in.(*ssa.Select); !isSel {
			if v := outSend(in, 0); v != nil {
				sendCheck(e, s, in, v)
			}
		}
		return nil
	}
	_ = ctlBody
	runEntries(w, r, hooks, func(fn *ssa.Function, in ssa.Instruction) bool {
		if mu, ok := in.(*ssa.MapUpdate); ok {
			return addrField(mu.Map) == fRequested
		}
		if c, ok := in.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return addrField(c.Call.Args[0]) == fRequested
			}
		}
		f, _ := storeField(in)
		return f == fCtlMsg || f == fCacheMsg
	}, sessionStop(w))
	for _, n := range []string{"content of a control message processed", "pending request looked up", "hash of the content compared", "request noted as pending", "request sent", "answer to a request", "answer filled in", "peer chosen for a request"} {
		r.Need(n, 1)
	}
}

// requester: the peer the message being processed came from.
func requester(t *Term) bool {
	if t.String() == fP2PPeer {
		return true
	}
	return t.Op == "call" && strings.HasSuffix(t.Name, "peer.Decode") && isPeerString(t.Args[0], func(t *Term) bool { return t.String() == fP2PPeer })
}

// hashBase: the WireMessage whose content a hash string was computed from.
func (w *World) hashBase(ctx *Ctx, v ssa.Value) *Term {
	for i := 0; i < 12; i++ {
		c, o := w.origin(ctx, v)
		switch x := o.(type) {
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return nil
			}
			for _, a := range call.Call.Args {
				if b := w.baseOf(c, a, tWire); b != nil {
					return b
				}
			}
			return nil
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if b := w.baseOf(c, a, tWire); b != nil {
					return b
				}
			}
			return nil
		case *ssa.Phi:
			v, ctx = x.Edges[0], c
			for _, e := range x.Edges {
				if _, isC := e.(*ssa.Const); !isC {
					v = e
				}
			}
			continue
		}
		return nil
	}
	return nil
}

// ---- C31

// accStore: a container of shares waiting to be sent: sync.Map or map field.
func (w *World) accOp(ctx *Ctx, in ssa.Instruction) (op, m string, key, val ssa.Value) {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if s, ok := x.Value.Type().Underlying().(*types.Slice); ok && tname(s.Elem()) == tBulk {
			return "store", w.T(ctx, x.Map).String(), x.Key, x.Value
		}
	case ssa.CallInstruction:
		cc := x.Common()
		n := callName(cc)
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				if s, ok := mt.Elem().Underlying().(*types.Slice); ok && tname(s.Elem()) == tBulk {
					return "delete", w.T(ctx, cc.Args[0]).String(), cc.Args[1], nil
				}
			}
		}
		if strings.HasPrefix(n, "sync.Map.") && len(cc.Args) >= 2 {
			m := w.T(ctx, cc.Args[0]).String()
			switch n {
			case "sync.Map.Store":
				v := cc.Args[2]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if s, ok := v.Type().Underlying().(*types.Slice); ok && tname(s.Elem()) == tBulk {
					return "store", m, cc.Args[1], v
				}
			case "sync.Map.Delete":
				return "delete", m, cc.Args[1], nil
			}
		}
	}
	return "", "", nil, nil
}

func runC31(w *World, r *Report) {
	const (
		fMsgNum = "common.TssCommon.msgNum"
		fRound  = "messages.WireMessage.RoundInfo"
	)
	msgT := func(t *Term, m string) bool {
		return t.Op == "call" && strings.HasPrefix(t.Name, libTss+".") && strings.HasSuffix(t.Name, m)
	}
	isType := func(t *Term) bool { return msgT(t, "Message.Type") }
	isTo := func(t *Term) bool {
		found := false
		t.walk(func(x *Term) bool {
			// the parties of a session have no monikers that tell them apart
			if x.Op == "field" && x.Name == "Moniker" || x.Op == "call" && strings.HasSuffix(x.Name, "GetMoniker") {
				return false
			}
			if x.Op == "field" && x.Name == "To" && len(x.Args) == 1 && strings.Contains(x.Args[0].String(), wireBytes+"#1") {
				found = true
			}
			if msgT(x, "Message.GetTo") {
				found = true
			}
			return !found
		})
		return found
	}
	bcastField := func(t *Term) bool {
		return (t.Op == "field" && t.Name == "IsBroadcast" && strings.Contains(t.Args0(), wireBytes+"#1")) || msgT(t, "Message.IsBroadcast")
	}
	hooks := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			op, _, _, _ := w.accOp(w.Root(in.Parent()), in)
			if op == "store" || outSink(nil, in) || isCall(in, wireBytes) != nil {
				return true
			}
			if op == "delete" {
				return true
			}
			f, _ := storeField(in)
			return f == fRound
		},
	}
	okLen := func(s *State, list string) bool { return s.Get("full") == list }
	endCheck := func(e *Engine, s *State, in ssa.Instruction) {
		if s.Get("sent") != "" {
			e.Ob(s, in, false, "a batch that was sent stays filed and would be sent again")
		}
	}
	send := func(e *Engine, s *State, in ssa.Instruction, v ssa.Value) *State {
		for _, pl := range w.fieldPath(ctxVal{s.ctx, v}, "WrappedMessage", "Payload") {
			src, ok := w.marshalled(pl.ctx, pl.v)
			if !ok || tname(src.v.Type()) != tWire {
				continue
			}
			e.Hit("batch sent", in)
			var list *Term
			for _, mv := range w.fieldPath(src, "Message") {
				if l, ok := w.marshalled(mv.ctx, mv.v); ok {
					list = w.T(l.ctx, l.v)
				}
			}
			if list == nil {
				e.Ob(s, in, false, "a share message carries a list of shares marshalled here")
				continue
			}
			e.Ob(s, in, okLen(s, list.String()), "a batch is sent although it was not found to hold one share per computation")
			m, key := accEntry(list)
			e.Ob(s, in, m != "", "a batch is sent that is not one of the lists shares are filed in")
			for _, rv := range w.fieldPath(src, "RoundInfo") {
				t := w.T(rv.ctx, rv.v)
				e.Ob(s, in, t.every(func(t *Term) bool { return typeOfKey(t, key) }), "a batch is sent under a round other than the type it is filed under")
			}
			for _, rv := range w.fieldPath(src, "Routing") {
				b := w.bulkListOf(rv.ctx, rv.v)
				e.Ob(s, in, b == list.String(), "a batch is sent with the routing of something else")
			}
			s = s.With("sent", m+"\x00"+key)
		}
		return s
	}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if v := outSend(sel, k); v != nil {
			return send(e, s, sel, v)
		}
		return s
	}
	hooks.OnReturn = func(e *Engine, s *State, rt *ssa.Return) { endCheck(e, s, rt) }
	bulks := func(v ssa.Value) bool {
		sl, ok := v.Type().Underlying().(*types.Slice)
		return ok && tname(sl.Elem()) == tBulk
	}
	hooks.Track = bulks
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		ctx := s.ctx
		if st, ok := in.(*ssa.Store); ok {
			// what was filed stays as it is
			at := st.Addr
			for {
				if fa, ok := at.(*ssa.FieldAddr); ok {
					at = fa.X
					continue
				}
				break
			}
			if ia, ok := at.(*ssa.IndexAddr); ok && bulks(ia.X) {
				_, o := e.Resolve(s, ctx, ia.X)
				_, fresh := o.(*ssa.MakeSlice)
				e.Ob(s, in, fresh, "a share that was filed is changed")
			}
		}
		if op, m, k, v := w.accOp(ctx, in); op != "" && (callAt(s, in) != nil || op == "store") {
			kt := w.T(ctx, k)
			switch op {
			case "delete":
				if s.Get("sent") == "" {
					// without a channel to the network there is nothing to send to
					if _, ok := in.(*ssa.Call); ok && s.Get("nochan") == "" {
						e.Ob(s, in, false, "a list of filed shares is dropped without having been sent")
					}
					return nil
				}
				e.Ob(s, in, s.Get("sent") == m+"\x00"+kt.String(), "a list other than the one sent is dropped")
				return []Outcome{{S: s.With("sent", "")}}
			case "store":
				e.Hit("share filed", in)
				hasType, hasTo := false, isTo(kt)
				kt.walk(func(x *Term) bool {
					if isType(x) {
						hasType = true
					}
					return true
				})
				e.Ob(s, in, hasType, "a share is filed without regard to its type")
				e.Ob(s, in, s.Get("bc") == "1" || hasTo, "a unicast share is filed without regard to its addressee")
				e.Ob(s, in, s.Get("bc") != "" && s.Get("store."+m) != other(s.Get("bc")), "broadcast and unicast shares are filed together")
				parts := w.sliceParts(ctx, v, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
				okNew := len(parts.Elems) == 1 && parts.OK
				for _, ev := range parts.Vals {
					for _, f := range []struct{ n, want string }{{"WiredBulkMsgs", wireBytes}, {"Routing", wireBytes + "#1"}} {
						vs := w.fieldPath(ev, f.n)
						okNew = okNew && len(vs) > 0
						for _, x := range vs {
							t := w.T(x.ctx, x.v)
							okNew = okNew && t.Op == "call" && t.Name == f.want
						}
					}
					vs := w.fieldPath(ev, "MsgIdentifier")
					okNew = okNew && len(vs) > 0
					for _, x := range vs {
						t := w.T(x.ctx, x.v)
						okNew = okNew && (t.Op == "field" && t.Name == "Moniker" || t.Op == "call" && strings.HasSuffix(t.Name, ".GetMoniker")) && msgT(t.Args[0], "Message.GetFrom")
					}
				}
				e.Ob(s, in, okNew, "what is filed is not the produced share with its own routing and computation")
				okOld := false
				switch len(parts.Spread) {
				case 0:
					okOld = s.Get("empty") == m+"\x00"+kt.String()
				case 1:
					mm, kk := accEntry(parts.Spread[0])
					okOld = mm == m && kk == kt.String()
				}
				e.Ob(s, in, okOld, "filing a share loses shares filed before it under the same key")
				return []Outcome{{S: s.With("filed", "1", "empty", "")}}
			}
		}
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL && x.Type().String() == "bool" && bcastField(w.T(ctx, x)) {
				return e.Fork(s, x, []string{"bc", "1"}, []string{"bc", "0"})
			}
		case *ssa.Call:
			if msgT(w.T(ctx, x), "Message.IsBroadcast") {
				return e.Fork(s, x, []string{"bc", "1"}, []string{"bc", "0"})
			}
			if callName(&x.Call) == wireBytes {
				return []Outcome{{S: s.With("bc", "", "filed", "", "empty", "", "full", "")}}
			}
		case *ssa.Extract:
			m, k := "", ""
			if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 && callName(&c.Call) == "sync.Map.Load" {
				m, k = w.T(ctx, c.Call.Args[0]).String(), w.T(ctx, c.Call.Args[1]).String()
			}
			if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
				m, k = w.T(ctx, lk.X).String(), w.T(ctx, lk.Index).String()
			}
			if m != "" {
				return e.Fork(s, x, nil, []string{"empty", m + "\x00" + k})
			}
		case *ssa.BinOp:
			if k, ok := x.Y.(*ssa.Const); ok && k.IsNil() && (x.Op == token.EQL || x.Op == token.NEQ) {
				if ch, ok := x.X.Type().Underlying().(*types.Chan); ok && tname(ch.Elem()) == tOutMsg {
					if x.Op == token.EQL {
						return e.Fork(s, x, []string{"nochan", "1"}, nil)
					}
					return e.Fork(s, x, nil, []string{"nochan", "1"})
				}
			}
			var kv [2][]string
			hit := false
			for i, val := range []bool{true, false} {
				c, ok := w.binCmp(ctx, x, val)
				if !ok || (c.Kind != "EQ" && c.Kind != "GE") || c.L.M[fMsgNum] == 0 || c.L.C != 0 || len(c.L.M) != 2 {
					continue
				}
				for a, n := range c.L.M {
					if strings.HasPrefix(a, "len(") && n*c.L.M[fMsgNum] == -1 && (c.Kind == "EQ" || n == 1) {
						kv[i] = []string{"full", a[4 : len(a)-1]}
						hit = true
					}
				}
			}
			if hit {
				e.Hit("batch complete", in)
				return e.Fork(s, x, kv[0], kv[1])
			}
		}
		if _, isSel := in.(*ssa.Select); !isSel {
			if v := outSend(in, 0); v != nil {
				return []Outcome{{S: send(e, s, in, v)}}
			}
		}
		return nil
	}
	// leaving a callback with a sent but still filed list
	hooks.OnRet = func(e *Engine, s *State, rt *ssa.Return) *State {
		if s.ctx.Site != nil && callName(s.ctx.Site.Common()) == "sync.Map.Range" {
			endCheck(e, s, rt)
			return s.With("sent", "", "full", "")
		}
		return s
	}
	runEntries(w, r, hooks, func(fn *ssa.Function, in ssa.Instruction) bool {
		op, _, _, _ := w.accOp(w.Root(fn), in)
		return op == "store" || isCall(in, wireBytes) != nil && !isMockFile(w, fn)
	}, func(fn *ssa.Function) bool {
		return hasInstr(fn, func(in ssa.Instruction) bool { return isCall(in, wireBytes) != nil })
	})
	for _, n := range []string{"share filed", "batch complete", "batch sent"} {
		r.Need(n, 1)
	}
}

func (t *Term) Args0() string {
	if len(t.Args) == 0 {
		return ""
	}
	return t.Args[0].String()
}

func other(b string) string {
	if b == "1" {
		return "0"
	}
	return "1"
}

// accEntry: t is the list filed under some key of some store.
func accEntry(t *Term) (m, key string) {
	switch {
	case t.Op == "call" && t.Name == "sync.Map.Load" && len(t.Args) == 2:
		return t.Args[0].String(), t.Args[1].String()
	case t.Op == "index":
		return t.Args[0].String(), t.Args[1].String()
	case t.Op == "elem":
		return t.Args[0].String(), "key(" + t.Args[0].String() + ")"
	}
	return "", ""
}

// typeOfKey: t is the type part of the key.
func typeOfKey(t *Term, key string) bool {
	s := t.String()
	if s == key {
		return true
	}
	// strings.Split(key, ":")[0] and the like
	return t.Op == "elem" && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Name, "strings.Split") && t.Args[0].Args[0].String() == key ||
		strings.HasPrefix(s, "strings.TrimSuffix("+key) || t.Op == "slice" && t.Args[0].String() == key
}

// bulkListOf: the list whose element's routing v is.
func (w *World) bulkListOf(ctx *Ctx, v ssa.Value) string {
	for i := 0; i < 30; i++ {
		c, o := w.origin(ctx, v)
		ctx, v = c, o
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.IndexAddr:
			return w.T(ctx, x.X).String()
		case *ssa.Alloc:
			sts := storesTo(x)
			if len(sts) != 1 {
				return ""
			}
			v = sts[0].Val
		default:
			return ""
		}
	}
	return ""
}
