package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tECSig   = "github.com/binance-chain/tss-lib/common.ECSignature"
	tSigData = "github.com/binance-chain/tss-lib/ecdsa/signing.SignatureData"
	fnWait   = "keysign.SignatureNotifier.WaitForSignature"
	fnSign   = "keysign.TssKeySign.SignMessage"
)

func init() {
	register(&propDef{
		ID:    "C11",
		Title: "Only completely verified signatures are taken from others",
		Rule: "Path-sensitive interprocedural dataflow from the handler of incoming notifications: a list of signatures is passed on to the waiting request only on paths where a loop over the list (or over the requested messages) completed in which every iteration verified, with success, the R and S of the element at that position against the message at the same position under the pool key of the waiting request, and where the list was found to be exactly as long as the requested messages. " +
			"The waiting request is the one registered for the session the notification names, is built from the caller's own session id, messages and pool key, and what it returns without error comes from there only.",
		Assume: []string{"ecdsa.Verify is a correct signature verification"},
		Run:    runC11,
	})
	register(&propDef{
		ID:    "C12",
		Title: "A successful signing answer pairs every requested message with its own signature",
		Rule:  "Path-sensitive interprocedural dataflow from the exported KeySign and SignMessage: computations are created in a loop over all messages with that message, the share of the requested pool key and an identifier depending on the position; signing returns without error only after the number of collected signatures was found to be that of the messages and the returned list was sorted; messages are sorted before use; in the answer every field comes from the same position of the two lists, in its role, and the list is complete. The two orderings are evaluated for both outcomes of the comparison and must agree.",
		Run:   runC12,
	})
}

// streamHandler: fn serves one incoming stream.
func streamHandler(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if tname(p.Type()) == libNet+".Stream" {
			return true
		}
	}
	return false
}

func sliceElem(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return tname(s.Elem())
	}
	return ""
}

func isSigList(v ssa.Value) bool { return sliceElem(v.Type()) == tECSig }

// sigSend: in sends a list of signatures; the value sent.
func sigSend(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.Send:
		if isSigList(x.X) {
			return []ssa.Value{x.X}
		}
	case *ssa.Select:
		var out []ssa.Value
		for _, st := range x.States {
			if st.Dir == types.SendOnly && st.Send != nil && isSigList(st.Send) {
				out = append(out, st.Send)
			}
		}
		return out
	}
	return nil
}

func (w *World) originKey(ctx *Ctx, v ssa.Value) string { return w.idxKey(ctx, v) }

func lenArg(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// rangedNotifier: in is a waiting request met while going through all of them.
func rangedNotifier(ex *ssa.Extract) bool {
	if ex.Index != 2 {
		return false
	}
	nx, ok := ex.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	rg, ok := nx.Iter.(*ssa.Range)
	return ok && addrField(rg.X) == fNotifiers
}

func runC11(w *World, r *Report) {
	const (
		fMsgs = "keysign.Notifier.messages"
		fPool = "keysign.Notifier.poolPubKey"
		fResp = "keysign.Notifier.resp"
		fID   = "keysign.Notifier.MessageID"
	)
	verify := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		switch callName(&c.Call) {
		case "crypto/ecdsa.Verify", "github.com/tendermint/btcd/btcec.Signature.Verify":
			return c
		}
		return nil
	}
	isMsgs := func(ctx *Ctx, v ssa.Value) bool {
		return sliceElem(v.Type()) == "[]byte" && w.T(ctx, v).every(func(t *Term) bool { return t.String() == fMsgs })
	}
	all := &Memb{Atom: "sig", w: w, Coll: func(ctx *Ctx, v ssa.Value) bool { return isSigList(v) || isMsgs(ctx, v) }}
	hooks := &Hooks{
		Interesting: func(in ssa.Instruction) bool { return verify(in) != nil || len(sigSend(in)) > 0 },
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if c := verify(in); c != nil && callName(&c.Call) == "crypto/ecdsa.Verify" {
			e.Hit("signature verified", in)
			a := c.Call.Args
			pub := w.T(s.ctx, a[0])
			e.Ob(s, in, pub.mentions(fPool), "a received signature is not verified under the pool key of the request")
			mc, mi := w.elemRef(s.ctx, a[1], "[]byte")
			rc, ri := w.elemRef(s.ctx, a[2], tECSig)
			sc, si := w.elemRef(s.ctx, a[3], tECSig)
			okM := mi != "" && isMsgs(mc.ctx, mc.v)
			e.Ob(s, in, okM, "a received signature is not verified against one of the requested messages")
			okR := ri != "" && ri == si && w.originKey(rc.ctx, rc.v) == w.originKey(sc.ctx, sc.v) && w.role(s.ctx, a[2]) == "R" && w.role(s.ctx, a[3]) == "S"
			e.Ob(s, in, okR, "what is verified is not the R and S of one received signature")
			e.Ob(s, in, okM && okR && mi == ri, "a signature is verified against a message at another position")
			good := okM && okR && mi == ri && s.Get("sig.n") != "" && s.Get("sig.i") == mi
			if !good {
				return nil
			}
			return e.Fork(s, c, []string{"sig.c", "1", "coll", w.originKey(rc.ctx, rc.v)}, nil)
		}
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			x, y := lenArg(b.X), lenArg(b.Y)
			if x != nil && y != nil {
				if isSigList(y) {
					x, y = y, x
				}
				if isSigList(x) && isMsgs(s.ctx, y) {
					k := []string{"len", w.originKey(s.ctx, x)}
					if b.Op == token.EQL {
						return e.Fork(s, b, k, nil)
					}
					return e.Fork(s, b, nil, k)
				}
			}
		}
		for _, v := range sigSend(in) {
			e.Hit("signatures passed on", in)
			k := w.originKey(s.ctx, v)
			e.Ob(s, in, s.Get("sig.out") == "1" && (s.Get("coll") == k || s.Get("coll") == ""), "signatures received are passed on although not every one of them was verified")
			e.Ob(s, in, s.Get("len") == k, "signatures received are passed on although they need not be one per message")
			return nil
		}
		if o := all.On(e, s, in); o != nil {
			return o
		}
		return nil
	}
	runEntries(w, r, hooks, func(fn *ssa.Function, in ssa.Instruction) bool { return len(sigSend(in)) > 0 }, streamHandler)
	r.Need("signature verified", 1)
	r.Need("signatures passed on", 1)

	// which request is served: lookups and registrations
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		ctx := w.Root(fn)
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if addrField(x.Map) == fNotifiers {
					r.Anchor("request registered", in)
					kt := w.T(ctx, x.Key)
					r.Ob(in, kt.every(func(t *Term) bool { return t.String() == fID }) || kt.String() == w.notifierID(ctx, x.Value), "a waiting request is registered under a session other than its own")
				}
			}
		})
	}
	r.Need("request registered", 1)
	look := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if ex, ok := in.(*ssa.Extract); ok {
			return rangedNotifier(ex)
		}
		lk, ok := in.(*ssa.Lookup)
		return ok && addrField(lk.X) == fNotifiers
	}}
	look.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if ex, ok := in.(*ssa.Extract); ok && rangedNotifier(ex) {
			e.Ob(s, in, false, "a waiting request is picked by another way than the session the notification names")
		}
		if lk, ok := in.(*ssa.Lookup); ok && addrField(lk.X) == fNotifiers {
			e.Hit("request looked up", in)
			e.Ob(s, in, w.T(s.ctx, lk.Index).every(func(t *Term) bool { return t.String() == "messages.KeysignSignature.ID" }), "the waiting request is not looked up by the session the notification names")
		}
		return nil
	}
	runEntries(w, r, look, func(fn *ssa.Function, in ssa.Instruction) bool { return look.Interesting(in) }, streamHandler)
	r.Need("request looked up", 1)

	// the wait itself
	wait := w.Fn(fnWait)
	if r.ObGlobal(wait != nil, "the wait for signatures exists") {
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			f, _ := storeField(in)
			return f == fMsgs || f == fPool || f == fID || recvSig(in)
		}, Track: func(v ssa.Value) bool { return sliceElem(deref(v.Type())) == tECSig || v.Type().String() == "error" }}
		par := func(v ctxVal, i int) bool {
			c, o := w.origin(v.ctx, v.v)
			return c.Parent == nil && i < len(wait.Params) && o == wait.Params[i]
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			f, st := storeField(in)
			if st == nil {
				return nil
			}
			c := ctxVal{s.ctx, st.Val}
			switch f {
			case fID:
				e.Hit("request built", in)
				e.Ob(s, in, par(c, 1), "the wait is for another session than asked for")
			case fMsgs:
				e.Ob(s, in, par(c, 2), "the wait is for messages other than asked for")
			case fPool:
				e.Ob(s, in, par(c, 3), "the wait is for another pool key than asked for")
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if len(rt.Results) != 2 || e.Eval(s, rt.Results[1]) == aNonNil || isG(e.Eval(s, rt.Results[1])) {
				return
			}
			e.Hit("signatures returned", rt)
			c, o := e.Resolve(s, s.ctx, rt.Results[0])
			t := w.T(c, o)
			e.Ob(s, rt, t.every(func(t *Term) bool {
				return t.String() == "recv:("+fResp+")" || strings.HasPrefix(t.String(), "recv:(new:chan []*"+tECSig)
			}), "signatures are returned that were not received through the verification: "+t.String())
		}
		e := NewEngine(w, h)
		e.Run(wait, nil)
		r.Merge(e)
		r.Need("request built", 1)
		r.Need("signatures returned", 1)
	}
}

func recvSig(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			ch, ok := x.X.Type().Underlying().(*types.Chan)
			if ok {
				e := sliceElem(ch.Elem())
				return e == tECSig
			}
		}
	case *ssa.Select:
		for _, st := range x.States {
			if ch, ok := st.Chan.Type().Underlying().(*types.Chan); ok && st.Dir == types.RecvOnly && sliceElem(ch.Elem()) == tECSig {
				return true
			}
		}
	}
	return false
}

func (w *World) notifierID(ctx *Ctx, v ssa.Value) string {
	i := fieldIdx(v, "MessageID")
	if i < 0 {
		return "?"
	}
	for _, c := range w.fieldVals(ctx, v, i) {
		return w.T(c.ctx, c.v).String()
	}
	return "?"
}

// ---- C12

func sortCall(in ssa.Instruction) (list, less ssa.Value) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	switch callName(&c.Call) {
	case "sort.SliceStable", "sort.Slice", "slices.SortFunc", "slices.SortStableFunc":
		l := c.Call.Args[0]
		if mi, ok := l.(*ssa.MakeInterface); ok {
			l = mi.X
		}
		return l, c.Call.Args[1]
	}
	return nil, nil
}

func isMsgList(v ssa.Value) bool { return sliceElem(v.Type()) == "[]byte" }

func runC12(w *World, r *Report) {
	// 1. the two orderings
	type ord struct {
		in   ssa.Instruction
		kind string
		tab  string
	}
	var ords []ord
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			list, less := sortCall(in)
			if list == nil || !(isMsgList(list) || isSigList(list)) {
				return
			}
			kind := "signatures"
			if isMsgList(list) {
				kind = "messages"
			}
			r.Anchor("ordering of "+kind, in)
			ts := w.resolveFn(w.Root(fn), less, 0)
			if !r.Ob(in, len(ts) == 1 && len(ts[0].fn.Params) == 2, "the ordering cannot be identified") {
				return
			}
			ords = append(ords, ord{in, kind, w.lessTable(r, in, ts[0].fn, kind)})
		})
	}
	var ms, ss string
	for _, o := range ords {
		if o.kind == "messages" {
			ms = o.tab
		} else {
			ss = o.tab
		}
	}
	for _, o := range ords {
		other := ms
		if o.kind == "messages" {
			other = ss
		}
		if other != "" {
			r.Ob(o.in, o.tab == other && (o.tab == "FT" || o.tab == "TF"), "messages and signatures are not put into the same order")
		}
	}
	r.Need("ordering of messages", 1)
	r.Need("ordering of signatures", 1)

	w.c12Request(r)
	w.c12Sign(r)
}

// lessTable: what the ordering says for key(i) < key(j) and key(i) > key(j).
func (w *World) lessTable(r *Report, at ssa.Instruction, fn *ssa.Function, kind string) string {
	side := func(ctx *Ctx, v ssa.Value) string {
		typ := "[]byte"
		if kind == "signatures" {
			typ = tECSig
		}
		_, k := w.elemRef(ctx, v, typ)
		for i, p := range fn.Params {
			if k == w.idxKey(w.Root(fn), p) {
				return string("ij"[i])
			}
		}
		return ""
	}
	keyOK := func(ctx *Ctx, v ssa.Value) bool {
		if kind == "signatures" {
			return w.role(ctx, v) == "M"
		}
		return w.T(ctx, v).calls(".MsgToHashInt")
	}
	res := map[string]string{}
	for _, sign := range []string{"-1", "1"} {
		sign := sign
		h := &Hooks{Interesting: func(in ssa.Instruction) bool { return isCall(in, "math/big.Int.Cmp", "math/big.Int.CmpAbs") != nil }}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			cc := isCall(in, "math/big.Int.Cmp")
			if cc == nil {
				if isCall(in, "bytes.Compare") != nil {
					e.Ob(s, in, false, "the ordering compares bytes, not numbers")
				}
				return nil
			}
			rv, args := callArgs(cc)
			a, b := side(s.ctx, rv), side(s.ctx, args[0])
			e.Hit("comparison", in)
			e.Ob(s, in, a != "" && b != "" && a != b, "the ordering does not compare the two elements")
			e.Ob(s, in, keyOK(s.ctx, rv) && keyOK(s.ctx, args[0]), "the ordering does not compare the message hashes")
			v := sign
			if a == "j" {
				v = map[string]string{"-1": "1", "1": "-1"}[sign]
			}
			n := s.clone()
			e.SetVal(n, in.(ssa.Value), -1, AbsVal("c:"+v))
			return []Outcome{{S: n, Handled: true}}
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			v := "?"
			switch e.Eval(s, rt.Results[0]) {
			case aTrue:
				v = "T"
			case aFalse:
				v = "F"
			}
			if res[sign] == "" {
				res[sign] = v
			} else if res[sign] != v {
				res[sign] = "?"
			}
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	}
	return res["-1"] + res["1"]
}

// c12Request: the public entry point.
func (w *World) c12Request(r *Report) {
	const fPoolReq = "keysign.Request.PoolPubKey"
	sigField := func(in ssa.Instruction) (string, *ssa.Store) {
		f, st := storeField(in)
		if strings.HasPrefix(f, "keysign.Signature.") {
			return f[len("keysign.Signature."):], st
		}
		return "", nil
	}
	elemStore := func(in ssa.Instruction) *ssa.Store {
		st, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if ok && tname(deref(ia.Type())) == "keysign.Signature" {
			return st
		}
		return nil
	}
	pair := &Memb{Atom: "pair", w: w, Coll: func(ctx *Ctx, v ssa.Value) bool { return isSigList(v) || isMsgList(v) }}
	hooks := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			if f, _ := sigField(in); f != "" {
				return true
			}
			l, _ := sortCall(in)
			return elemStore(in) != nil || statusStore(in, tSignResp) != nil || isCall(in, fnWait, fnSign) != nil || isMethodCall(in, "storage", "GetLocalState") != nil || l != nil && isMsgList(l)
		},
		NoInline: func(fn *ssa.Function) bool { return fname(fn) == fnWait || fname(fn) == fnSign },
		Track:    func(v ssa.Value) bool { return sliceElem(deref(v.Type())) == tECSig },
	}
	msgsKey := func(ctx *Ctx, v ssa.Value) string { return w.originKey(ctx, v) }
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if l, _ := sortCall(in); l != nil && isMsgList(l) {
			return []Outcome{{S: s.With("sorted", msgsKey(s.ctx, l))}}
		}
		if st, ok := in.(*ssa.Store); ok {
			if al, ac := w.cellOf(s.ctx, st.Addr); al != nil && sliceElem(deref(al.Type())) == "[]byte" && s.Get("sorted") == w.idxKey(ac, al) {
				return []Outcome{{S: s.With("sorted", "")}}
			}
		}
		if c, ok := in.(*ssa.Call); ok {
			switch callName(&c.Call) {
			case fnWait, fnSign:
				e.Hit("signatures obtained", in)
				_, a := callArgs(&c.Call)
				m := a[0]
				if callName(&c.Call) == fnWait {
					m = a[1]
					e.Ob(s, in, w.T(s.ctx, a[2]).every(func(t *Term) bool { return t.String() == fPoolReq }), "signatures of another pool key than requested are waited for")
				} else {
					t := w.T(s.ctx, a[1])
					own := true
					t.walk(func(x *Term) bool {
						if x.Op == "call" && strings.HasSuffix(x.Name, ".GetLocalState") {
							own = own && x.Args[len(x.Args)-1].every(func(k *Term) bool { return k.String() == fPoolReq })
						}
						return true
					})
					e.Ob(s, in, t.calls(".GetLocalState") && t.mentions(fPoolReq) && own, "the messages are signed with another share than that of the requested pool key")
				}
				t := w.T(s.ctx, m)
				e.Ob(s, in, t.mentions("keysign.Request.Messages"), "messages other than those of the request are signed")
				e.Ob(s, in, s.Get("sorted") == msgsKey(s.ctx, m), "the messages are not put into order before they are signed")
				k := w.InstrPos(in)
				return e.ForkErr(s, c, 1, []string{"got", "1", "by@" + k, "1"}, []string{"by@" + k, ""})
			}
		}
		if f, st := sigField(in); f != "" {
			want := map[string]string{"R": "R", "S": "S", "RecoveryID": "SignatureRecovery"}[f]
			t := w.T(s.ctx, st.Val)
			enc := t.every(func(t *Term) bool {
				return strings.HasPrefix(t.String(), "encoding/base64.Encoding.EncodeToString(encoding/base64.StdEncoding,")
			})
			e.Ob(s, in, enc, "a part of the answer is not the base64 form of its value")
			fa := st.Addr.(*ssa.FieldAddr)
			var idx string
			if f == "Msg" {
				mc, mi := w.elemRef(s.ctx, st.Val, "[]byte")
				e.Hit("message of an answer", in)
				e.Ob(s, in, mi != "" && msgsKey(mc.ctx, mc.v) == s.Get("sorted"), "an answer names a message that is not one of those signed")
				idx = mi
			} else {
				sc, si := w.elemRef(s.ctx, st.Val, tECSig)
				e.Hit("signature of an answer", in)
				e.Ob(s, in, si != "" && w.role(s.ctx, st.Val) == want, "the parts of a signature are mixed up in the answer")
				e.Ob(s, in, si == "" || w.sigSource(e, s, sc), "an answer contains a signature that was not obtained without error")
				idx = si
			}
			k := "el:" + w.idxKey(s.ctx, fa.X)
			old := s.Get(k)
			e.Ob(s, in, old == "" || old == idx, "a message is paired with the signature of another one")
			return []Outcome{{S: s.With(k, idx)}}
		}
		if elemStore(in) != nil {
			if s.Get("pair.n") != "" {
				return []Outcome{{S: s.With("pair.c", "1")}}
			}
			return nil
		}
		if st := statusStore(in, tSignResp); st != nil && maySucceed(w, e, s, st.Val) {
			e.Hit("success reported", in)
			e.Ob(s, in, s.Get("got") == "1", "success is reported although no signature was obtained")
			e.Ob(s, in, s.Get("pair.out") == "1", "success is reported with signatures missing")
			sg := w.siblingField(s.ctx, st, "Signatures")
			e.Ob(s, in, len(sg) > 0, "success is reported without signatures")
		}
		return pair.On(e, s, in)
	}
	ens := w.tssEntry("KeySign")
	r.ObGlobal(len(ens) == 1, "the signing entry point exists")
	for _, en := range ens {
		e := NewEngine(w, hooks)
		e.Run(en, nil)
		r.Merge(e)
	}
	for _, n := range []string{"message of an answer", "signature of an answer", "success reported"} {
		r.Need(n, 1)
	}
	r.Need("signatures obtained", 2)
}

// sigSource: the list comes from a wait or a signing that returned no error.
func (w *World) sigSource(e *Engine, s *State, c ctxVal) bool {
	cc, o := e.Resolve(s, c.ctx, c.v)
	cc, o = w.origin(cc, o)
	ex, ok := o.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return false
	}
	_ = cc
	call, ok := ex.Tuple.(*ssa.Call)
	return ok && (callName(&call.Call) == fnWait || callName(&call.Call) == fnSign) && s.Get("by@"+w.InstrPos(call)) == "1"
}

// dependsOn: v is computed from a value named key.
func (w *World) dependsOn(ctx *Ctx, v ssa.Value, key string, d int) bool {
	if d > 25 || v == nil {
		return false
	}
	c, o := w.origin(ctx, v)
	if w.idxKey(c, o) == key {
		return true
	}
	if al, ok := o.(*ssa.Alloc); ok {
		for _, st := range storesTo(al) {
			if st.Parent() == al.Parent() && w.dependsOn(c, st.Val, key, d+1) {
				return true
			}
		}
		if sl, ok := deref(al.Type()).Underlying().(*types.Array); ok && sl != nil {
			for _, rf := range *al.Referrers() {
				if ia, ok := rf.(*ssa.IndexAddr); ok {
					for _, rr := range *ia.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && w.dependsOn(c, st.Val, key, d+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if _, ok := o.(*ssa.Phi); ok {
		return false
	}
	in, ok := o.(ssa.Instruction)
	if !ok {
		return false
	}
	if ia, ok := in.(*ssa.IndexAddr); ok {
		// the content of an element may repeat: it does not name a position
		return w.dependsOn(c, ia.X, key, d+1)
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && w.dependsOn(c, *op, key, d+1) {
			return true
		}
	}
	return false
}

// c12Sign: one computation per message, complete results.
func (w *World) c12Sign(r *Report) {
	fn := w.Fn(fnSign)
	if !r.ObGlobal(fn != nil, "the signing exists") {
		return
	}
	const newParty = "github.com/binance-chain/tss-lib/ecdsa/signing.NewLocalParty"
	isReqMsgs := func(ctx *Ctx, v ssa.Value) bool {
		c, o := w.origin(ctx, v)
		return c.Parent == nil && o == fn.Params[1]
	}
	partyStore := func(in ssa.Instruction) *ssa.CallCommon {
		cc := isCall(in, "sync.Map.Store")
		if cc == nil {
			return nil
		}
		a := cc.Args[len(cc.Args)-1]
		if mi, ok := a.(*ssa.MakeInterface); ok && strings.HasSuffix(tname(mi.X.Type()), "tss-lib/tss.Party") {
			return cc
		}
		if mi, ok := a.(*ssa.ChangeInterface); ok && strings.HasSuffix(tname(mi.X.Type()), "tss-lib/tss.Party") {
			return cc
		}
		return nil
	}
	per := &Memb{Atom: "party", w: w, Coll: isReqMsgs}
	reqLen := func(e *Engine, s *State, v ssa.Value) bool {
		c, o := e.Resolve(s, s.ctx, v)
		c, o = w.origin(c, o)
		a := lenArg(o)
		return a != nil && isReqMsgs(c, a)
	}
	sigRecv := func(in ssa.Instruction) bool { return recvInstr(in, tSigData) }
	hooks := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			l, _ := sortCall(in)
			return isCall(in, newParty) != nil || partyStore(in) != nil || sigRecv(in) || l != nil && isSigList(l)
		},
		Track: func(v ssa.Value) bool { return sliceElem(deref(v.Type())) == tECSig || v.Type().String() == "error" },
	}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if recvOf(sel, k, tSigData) {
			e.Hit("signature produced", sel)
			return s.With("complete", "", "sortedsig", "")
		}
		return s
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if _, ok := in.(*ssa.UnOp); ok && sigRecv(in) {
			e.Hit("signature produced", in)
			return []Outcome{{S: s.With("complete", "", "sortedsig", "")}}
		}
		if cc := isCall(in, newParty); cc != nil {
			e.Hit("computation created", in)
			_, mi := w.elemRef(s.ctx, cc.Args[0], "[]byte")
			t := w.T(s.ctx, cc.Args[0])
			e.Ob(s, in, t.every(func(t *Term) bool { return strings.HasPrefix(t.String(), "common.MsgToHashInt(") }) && mi != "" && s.Get("party.i") == mi, "a computation is not created for the message of its turn")
			st := w.T(s.ctx, cc.Args[2]).String()
			e.Ob(s, in, st == "storage.KeygenLocalState.LocalData", "a computation does not use the share of the given state: "+short(st))
			return nil
		}
		if cc := partyStore(in); cc != nil {
			e.Hit("computation filed", in)
			_, a := callArgs(cc)
			e.Ob(s, in, s.Get("party.i") != "" && w.dependsOn(s.ctx, a[0], s.Get("party.i"), 0), "the identifier of a computation is not unique to its message")
			if s.Get("party.n") != "" {
				return []Outcome{{S: s.With("party.c", "1")}}
			}
			return nil
		}
		if l, _ := sortCall(in); l != nil && isSigList(l) {
			e.Ob(s, in, s.Get("complete") == "1", "signatures are put into order before they are complete")
			return []Outcome{{S: s.With("sortedsig", w.idxKey(e.Resolve(s, s.ctx, l)))}}
		}
		if b, ok := in.(*ssa.BinOp); ok {
			x, y := b.X, b.Y
			op := b.Op
			if lenArg(y) != nil && isSigList(lenArg(y)) {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if a := lenArg(x); a != nil && isSigList(a) && reqLen(e, s, y) {
				e.Hit("completeness tested", in)
				k := []string{"complete", "1"}
				switch op {
				case token.EQL, token.GEQ:
					return e.Fork(s, b, k, nil)
				case token.NEQ, token.LSS:
					return e.Fork(s, b, nil, k)
				}
			}
		}
		return per.On(e, s, in)
	}
	hooks.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if len(rt.Results) != 2 {
			return
		}
		if ev := e.Eval(s, rt.Results[1]); ev == aNonNil || isG(ev) {
			return
		}
		c, o := e.Resolve(s, s.ctx, rt.Results[0])
		if k, ok := o.(*ssa.Const); ok && k.Value == nil {
			return // nothing was signed: the local node does not take part
		}
		e.Hit("signatures returned", rt)
		e.Ob(s, rt, s.Get("complete") == "1", "signing ends without error before all signatures are there")
		e.Ob(s, rt, s.Get("sortedsig") == w.idxKey(c, o), "the signatures returned are not in order")
		e.Ob(s, rt, s.Get("party.out") == "1", "signing ends without error although not every message was signed")
		ps := w.sliceParts(c, o, nil)
		var bad []string
		for _, t := range append(append([]*Term(nil), ps.Elems...), ps.Spread...) {
			if !strings.Contains(t.String(), tSigData+".GetSignature(recv:") && !(strings.HasSuffix(t.String(), ".Signature") && strings.Contains(t.String(), "recv:")) {
				bad = append(bad, short(t.String()))
			}
		}
		sort.Strings(bad)
		e.Ob(s, rt, ps.OK && len(ps.Elems) > 0 && len(bad) == 0, "the signatures returned are not those the computations produced")
	}
	e := NewEngine(w, hooks)
	e.Run(fn, nil)
	r.Merge(e)
	for _, n := range []string{"computation created", "computation filed", "signature produced", "completeness tested", "signatures returned"} {
		r.Need(n, 1)
	}
}
