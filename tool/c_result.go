package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tGenResp  = "keygen.Response"
	tSignResp = "keysign.Response"
	tKeyState = "storage.KeygenLocalState"
	tSaveData = "github.com/binance-chain/tss-lib/ecdsa/keygen.LocalPartySaveData"
)

func init() {
	register(&propDef{
		ID:    "C09",
		Title: "A key generation reported as successful has saved the matching key share",
		Rule: "Path-sensitive interprocedural dataflow from the exported Keygen: a response gets a status other than failure only on paths where, after the last share was produced, SaveLocalState was called with exactly that share, its own public key, the request's participants and the local key, and returned no error, " +
			"and the public key in the response was derived without error from that same share.",
		Assume: []string{"SaveLocalState returning nil means the share is on disk (C10)"},
		Run:    runC09,
	})
	register(&propDef{
		ID:    "C14",
		Title: "A finished session leaves nothing registered",
		Rule:  "Path-sensitive interprocedural typestate from the exported Keygen and KeySign: at every return, each subscription made on the path (message type, session id) has been cancelled with the same type and id, and the streams of the session have been released in every component that holds them, whatever way the function is left.",
		Run:   runC14,
	})
	register(&propDef{
		ID:    "C23",
		Title: "Each request is counted once, as what it was",
		Rule:  "Path-sensitive interprocedural dataflow from the exported Keygen and KeySign: from the point where the party is being formed every return has counted the request exactly once; the success flag is true exactly where the key generation returned no error, respectively where the status of the very response that is returned was found to be success; the forming of the party is counted as success only after it succeeded and as failure only after it failed.",
		Run:   runC23,
	})
}

// statusStore: in sets the status of a response of type typ.
func statusStore(in ssa.Instruction, typ string) *ssa.Store {
	f, st := storeField(in)
	if f == typ+".Status" {
		return st
	}
	return nil
}

// exportedEntry: functions of package tss serving the public API.
func (w *World) tssEntry(names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range names {
		if fn := w.Fn("tss.TssServer." + n); fn != nil {
			out = append(out, fn)
		}
	}
	return out
}

func isMethodCall(in ssa.Instruction, pkg, name string) *ssa.CallCommon {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	n := callName(ci.Common())
	if strings.HasPrefix(n, pkg+".") && strings.HasSuffix(n, "."+name) {
		return ci.Common()
	}
	return nil
}

// siblingField: values stored to another field of the struct st is stored in.
func (w *World) siblingField(ctx *Ctx, st *ssa.Store, name string) []ctxVal {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	i := fieldIdx(fa.X, name)
	if i < 0 {
		return nil
	}
	return w.fieldVals(ctx, fa.X, i)
}

// maySucceed: the status stored may be something other than a failure.
func maySucceed(w *World, e *Engine, s *State, v ssa.Value) bool {
	a := e.Eval(s, v)
	if strings.HasPrefix(string(a), "c:") {
		return a == "c:1" // common.Success
	}
	if c, ok := v.(*ssa.Const); ok {
		return c.Value == nil || c.Value.String() == "1"
	}
	return true
}

func recvOf(sel *ssa.Select, k int, elem string) bool {
	if k < 0 || k >= len(sel.States) || sel.States[k].Dir != types.RecvOnly {
		return false
	}
	ch, ok := sel.States[k].Chan.Type().Underlying().(*types.Chan)
	return ok && tname(ch.Elem()) == elem
}

func recvInstr(in ssa.Instruction, elem string) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			ch, ok := x.X.Type().Underlying().(*types.Chan)
			return ok && tname(ch.Elem()) == elem
		}
	case *ssa.Select:
		for k := range x.States {
			if recvOf(x, k, elem) {
				return true
			}
		}
	}
	return false
}

func runC09(w *World, r *Report) {
	save := func(in ssa.Instruction) *ssa.CallCommon { return isMethodCall(in, "storage", "SaveLocalState") }
	const getPub = "conversion.GetTssPubKey"
	saved := func(t *Term) bool { // field of the produced share
		return t.every(func(t *Term) bool { return t.String() == tSaveData+".ECDSAPub" })
	}
	hooks := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			return save(in) != nil || isCall(in, getPub) != nil || statusStore(in, tGenResp) != nil || recvInstr(in, tSaveData)
		},
		NoInline: func(fn *ssa.Function) bool { return fname(fn) == getPub },
	}
	hooks.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if recvOf(sel, k, tSaveData) {
			e.Hit("share produced", sel)
			return s.With("got", "1", "saved", "")
		}
		return s
	}
	// pubOf: v is the public key of the produced share, derived on this path
	pubOf := func(e *Engine, s *State, c ctxVal) bool {
		cc, o := e.Resolve(s, c.ctx, c.v)
		cc, o = w.origin(cc, o)
		ex, ok := o.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return false
		}
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok || callName(&call.Call) != getPub {
			return false
		}
		t := w.T(cc, call.Call.Args[0])
		return s.Get("pub@"+w.InstrPos(call)) == "1" && t.some(func(t *Term) bool { return t.String() == tSaveData+".ECDSAPub" }) &&
			t.every(func(t *Term) bool { return t.String() == tSaveData+".ECDSAPub" || t.String() == "nil" })
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if u, ok := in.(*ssa.UnOp); ok && recvInstr(in, tSaveData) {
			_ = u
			e.Hit("share produced", in)
			return []Outcome{{S: s.With("got", "1", "saved", "")}}
		}
		if c, ok := in.(*ssa.Call); ok {
			if callName(&c.Call) == getPub {
				return e.ForkErr(s, c, 2, []string{"pub@" + w.InstrPos(c), "1"}, []string{"pub@" + w.InstrPos(c), ""})
			}
			if cc := save(in); cc != nil {
				e.Hit("share saved", in)
				_, args := callArgs(cc)
				arg := ctxVal{s.ctx, args[0]}
				if u, ok := args[0].(*ssa.UnOp); ok {
					arg.v = u.X
				}
				one := func(name string, ok func(ctxVal) bool) bool {
					vs := w.fieldPath(arg, name)
					for _, v := range vs {
						if !ok(v) {
							return false
						}
					}
					return len(vs) > 0
				}
				e.Ob(s, in, one("LocalData", func(v ctxVal) bool {
					t := w.T(v.ctx, v.v)
					return strings.HasPrefix(t.String(), "recv:(") && tname(v.v.Type()) == tSaveData
				}), "what is saved is not the share just produced")
				e.Ob(s, in, one("PubKey", func(v ctxVal) bool { return pubOf(e, s, v) }), "the share is saved under a key other than its own")
				e.Ob(s, in, one("ParticipantKeys", func(v ctxVal) bool { return w.T(v.ctx, v.v).String() == "keygen.Request.Keys" }), "the saved participants are not those of the request")
				e.Ob(s, in, one("LocalPartyKey", func(v ctxVal) bool { return strings.HasSuffix(w.T(v.ctx, v.v).String(), ".localNodePubKey") }), "the saved local key is not this node's")
				return e.ForkErr(s, c, errIdx(c), []string{"saved", "1"}, []string{"saved", ""})
			}
		}
		if st := statusStore(in, tGenResp); st != nil && maySucceed(w, e, s, st.Val) {
			e.Hit("success reported", in)
			e.Ob(s, in, s.Get("saved") == "1", "success is reported although the key share was not saved")
			pk := w.siblingField(s.ctx, st, "PubKey")
			good := len(pk) > 0
			for _, v := range pk {
				good = good && pubOf(e, s, v)
			}
			e.Ob(s, in, good, "the reported public key is not that of the saved share")
		}
		return nil
	}
	_ = saved
	ens := w.tssEntry("Keygen")
	r.ObGlobal(len(ens) == 1, "the key generation entry point exists")
	for _, en := range ens {
		e := NewEngine(w, hooks)
		e.Run(en, nil)
		r.Merge(e)
	}
	for _, n := range []string{"share produced", "share saved", "success reported"} {
		r.Need(n, 1)
	}
}

// errIdx: the index of the error among the results of c, as ForkErr wants it.
func errIdx(c *ssa.Call) int {
	if t, ok := c.Type().(*types.Tuple); ok {
		return t.Len() - 1
	}
	return -1
}

func runC14(w *World, r *Report) {
	const (
		sub = "p2p.Communication.SetSubscribe"
		can = "p2p.Communication.CancelSubscribe"
	)
	rel := map[string]bool{"p2p.Communication.ReleaseStream": true, "p2p.PartyCoordinator.ReleaseStream": true, "keysign.SignatureNotifier.ReleaseStream": true}
	uses := map[string]string{} // calls after which a component may hold streams of the session
	uses["p2p.PartyCoordinator.JoinPartyWithLeader"] = "p2p.PartyCoordinator.ReleaseStream"
	uses["p2p.PartyCoordinator.JoinPartyWithRetry"] = "p2p.PartyCoordinator.ReleaseStream"
	uses["keysign.SignatureNotifier.WaitForSignature"] = "keysign.SignatureNotifier.ReleaseStream"
	uses["keysign.SignatureNotifier.BroadcastSignature"] = "keysign.SignatureNotifier.ReleaseStream"
	uses["keysign.SignatureNotifier.BroadcastFailed"] = "keysign.SignatureNotifier.ReleaseStream"
	uses[sub] = "p2p.Communication.ReleaseStream"
	name := func(in ssa.Instruction) string {
		if ci, ok := in.(ssa.CallInstruction); ok {
			return callName(ci.Common())
		}
		return ""
	}
	hooks := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			n := name(in)
			return n == sub || n == can || rel[n] || uses[n] != ""
		},
		NoInline: func(fn *ssa.Function) bool {
			n := fname(fn)
			return n == sub || n == can || rel[n] || uses[n] != ""
		},
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		cc := callAt(s, in)
		if cc == nil {
			return nil
		}
		n := callName(cc)
		_, args := callArgs(cc)
		n2 := s
		switch {
		case n == sub:
			e.Hit("subscription", in)
			n2 = n2.With("sub:"+e.RT(s, args[0]).String()+":"+w.T(s.ctx, args[1]).String(), w.InstrPos(in))
		case n == can:
			e.Hit("cancellation", in)
			n2 = n2.With("sub:"+e.RT(s, args[0]).String()+":"+w.T(s.ctx, args[1]).String(), "")
		case rel[n]:
			e.Hit("release", in)
			n2 = n2.With("use:"+n+":"+w.T(s.ctx, args[0]).String(), "")
		}
		if u := uses[n]; u != "" {
			id := args[0]
			if n == sub {
				id = args[1]
			}
			n2 = n2.With("use:"+u+":"+w.T(s.ctx, id).String(), w.InstrPos(in))
		}
		if n2 != s {
			return []Outcome{{S: n2}}
		}
		return nil
	}
	hooks.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		sOK, uOK := true, true
		for k := range s.A {
			if strings.HasPrefix(k, "sub:") {
				sOK = false
			}
			if strings.HasPrefix(k, "use:") {
				uOK = false
			}
		}
		e.Hit("return", rt)
		e.Ob(s, rt, sOK, "a session ends with a subscription still in place")
		e.Ob(s, rt, uOK, "a session ends without releasing its streams")
	}
	ens := w.tssEntry("Keygen", "KeySign")
	r.ObGlobal(len(ens) == 2, "the two session entry points exist")
	for _, en := range ens {
		e := NewEngine(w, hooks)
		e.Run(en, nil)
		r.Merge(e)
	}
	r.Need("subscription", 2)
	r.Need("cancellation", 2)
	r.Need("release", 5)
	// the peer group of a session ends with the attempt to form a party
	grp := &Hooks{Interesting: func(in ssa.Instruction) bool { return w.groupOp(in) != "" }}
	const fGroups = "p2p.PartyCoordinator.peersGroup"
	grp.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if addrField(x.Map) == fGroups {
				e.Hit("peer group filed", in)
				return []Outcome{{S: s.With("grp:"+w.T(s.ctx, x.Key).String(), w.InstrPos(in))}}
			}
		}
		if cc := callAt(s, in); cc != nil {
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" && addrField(cc.Args[0]) == fGroups {
				e.Hit("peer group dropped", in)
				return []Outcome{{S: s.With("grp:"+w.T(s.ctx, cc.Args[1]).String(), "")}}
			}
		}
		return nil
	}
	grp.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		good := true
		for k := range s.A {
			if strings.HasPrefix(k, "grp:") {
				good = false
			}
		}
		e.Ob(s, rt, good, "an attempt to form a party ends with its peer group still filed")
	}
	// the notifier of a session ends with the wait for its signature
	ntf := &Hooks{Interesting: func(in ssa.Instruction) bool { return addrMapOp(in) == fNotifiers }}
	ntf.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if x, ok := in.(*ssa.MapUpdate); ok && addrField(x.Map) == fNotifiers {
			e.Hit("notifier filed", in)
			return []Outcome{{S: s.With("ntf:"+w.T(s.ctx, x.Key).String(), w.InstrPos(in))}}
		}
		if cc := callAt(s, in); cc != nil {
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" && addrField(cc.Args[0]) == fNotifiers {
				e.Hit("notifier dropped", in)
				return []Outcome{{S: s.With("ntf:"+w.T(s.ctx, cc.Args[1]).String(), "")}}
			}
		}
		return nil
	}
	ntf.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		good := true
		for k := range s.A {
			if strings.HasPrefix(k, "ntf:") {
				good = false
			}
		}
		e.Ob(s, rt, good, "waiting for a signature ends with the notifier still registered")
	}
	for _, x := range []struct {
		h  *Hooks
		en []string
	}{{grp, []string{"p2p.PartyCoordinator.JoinPartyWithLeader", "p2p.PartyCoordinator.JoinPartyWithRetry"}}, {ntf, []string{"keysign.SignatureNotifier.WaitForSignature"}}} {
		for _, n := range x.en {
			fn := w.Fn(n)
			r.ObGlobal(fn != nil, "entry point "+n+" exists")
			if fn != nil {
				e := NewEngine(w, x.h)
				e.Run(fn, nil)
				r.Merge(e)
			}
		}
	}
	for _, n := range []string{"peer group filed", "peer group dropped", "notifier filed", "notifier dropped"} {
		r.Need(n, 1)
	}
}

const fNotifiers = "keysign.SignatureNotifier.notifiers"

func addrMapOp(in ssa.Instruction) string {
	if x, ok := in.(*ssa.MapUpdate); ok {
		return addrField(x.Map)
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			return addrField(ci.Common().Args[0])
		}
	}
	return ""
}

func (w *World) groupOp(in ssa.Instruction) string {
	if f := addrMapOp(in); f == "p2p.PartyCoordinator.peersGroup" {
		return f
	}
	return ""
}

func runC23(w *World, r *Report) {
	const (
		mGen  = "monitor.Metric.UpdateKeyGen"
		mSign = "monitor.Metric.UpdateKeySign"
		jGen  = "monitor.Metric.KeygenJoinParty"
		jSign = "monitor.Metric.KeysignJoinParty"
		gen   = "keygen.TssKeyGen.GenerateNewKey"
		join1 = "p2p.PartyCoordinator.JoinPartyWithLeader"
		join2 = "p2p.PartyCoordinator.JoinPartyWithRetry"
		wait  = "keysign.SignatureNotifier.WaitForSignature"
	)
	isM := map[string]bool{mGen: true, mSign: true, jGen: true, jSign: true, gen: true, join1: true, join2: true, wait: true}
	hooks := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isM[callName(ci.Common())]
		},
		NoInline: func(fn *ssa.Function) bool { return isM[fname(fn)] },
	}
	flag := func(e *Engine, s *State, v ssa.Value) string {
		switch e.Eval(s, v) {
		case aTrue:
			return "1"
		case aFalse:
			return "0"
		}
		return "?"
	}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		// status of a response compared with success
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				c, ok := p[1].(*ssa.Const)
				if !ok || c.Value == nil || tname(c.Type()) != "common.Status" || c.Value.String() != "1" {
					continue
				}
				src := w.respVar(s.ctx, p[0])
				if b.Op == token.EQL {
					return e.Fork(s, b, []string{"ok", "1", "of", src}, []string{"ok", "0", "of", src})
				}
				return e.Fork(s, b, []string{"ok", "0", "of", src}, []string{"ok", "1", "of", src})
			}
		}
		cc := callAt(s, in)
		if cc == nil {
			return nil
		}
		_, args := callArgs(cc)
		call, _ := in.(*ssa.Call)
		switch n := callName(cc); n {
		case join1, join2:
			if call != nil {
				return e.ForkErr(s, call, errIdx(call), []string{"join", "ok", "started", "1"}, []string{"join", "failed", "started", "1"})
			}
		case wait:
			return []Outcome{{S: s.With("started", "1")}}
		case gen:
			if call != nil {
				return e.ForkErr(s, call, errIdx(call), []string{"gen", "1"}, []string{"gen", "0"})
			}
		case mGen, mSign:
			e.Hit("request counted", in)
			f := flag(e, s, args[1])
			e.Ob(s, in, s.Get("counted") == "", "a request is counted twice")
			k := "gen"
			if n == mSign {
				k = "ok"
			}
			v := s.Get(k)
			if n == mGen && v == "" {
				v = "0" // the party was never formed
			}
			if f == "?" {
				// a flag computed from the outcome itself
				f = w.flagOf(e, s, args[1])
			}
			e.Ob(s, in, f == v, "a request is counted as something other than its outcome")
			return []Outcome{{S: s.With("counted", "1", "counted.of", s.Get("of"))}}
		case jGen, jSign:
			e.Hit("party forming counted", in)
			f := flag(e, s, args[1])
			e.Ob(s, in, s.Get("jcounted") == "", "the forming of a party is counted twice")
			e.Ob(s, in, f == "1" && s.Get("join") == "ok" || f == "0" && s.Get("join") != "ok", "the forming of a party is counted as something other than its outcome")
			return []Outcome{{S: s.With("jcounted", "1")}}
		}
		return nil
	}
	hooks.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if s.Get("started") == "" && s.Get("counted") == "" {
			return
		}
		e.Hit("return of a started request", rt)
		e.Ob(s, rt, s.Get("counted") == "1", "a started request ends without having been counted")
		if of := s.Get("counted.of"); of != "" && len(rt.Results) > 0 {
			e.Ob(s, rt, w.returnedVar(e, s, rt.Results[0]) == of, "the counted status is not that of the returned response")
		}
	}
	hooks.OnRet = func(e *Engine, s *State, rt *ssa.Return) *State {
		if s.ctx.Site == nil || len(rt.Results) == 0 || tname(rt.Results[0].Type()) != tSignResp {
			return s
		}
		return s.With("ret@"+w.InstrPos(s.ctx.Site), w.returnedVar(e, s, rt.Results[0]))
	}
	ens := w.tssEntry("Keygen", "KeySign")
	for _, en := range ens {
		e := NewEngine(w, hooks)
		e.Run(en, nil)
		r.Merge(e)
	}
	r.Need("request counted", 3)
	r.Need("party forming counted", 4)
	r.Need("return of a started request", 2)
	// the counters themselves
	for _, m := range []struct{ fn, vec string }{{mGen, "keygenCounter"}, {mSign, "keysignCounter"}, {jGen, "joinPartyCounter"}, {jSign, "joinPartyCounter"}} {
		w.checkCounter(r, m.fn, m.vec)
	}
}

// flagOf: a boolean that is itself the comparison of an outcome.
func (w *World) flagOf(e *Engine, s *State, v ssa.Value) string { return "?" }

// respVar: the variable holding the response whose status v is.
func (w *World) respVar(ctx *Ctx, v ssa.Value) string {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.Field:
			v = x.X
			continue
		case *ssa.Parameter, *ssa.FreeVar:
			c2, v2 := w.origin1(ctx, v)
			if c2 == ctx && v2 == v {
				return ""
			}
			ctx, v = c2, v2
			continue
		case *ssa.Alloc:
			// the copy of a parameter
			sts := storesTo(x)
			if len(sts) == 1 {
				if p, ok := sts[0].Val.(*ssa.Parameter); ok {
					v = p
					continue
				}
			}
			return w.Pos(x.Pos()) + "." + x.Name()
		}
		return ""
	}
	return ""
}

// returnedVar: the variable the returned value is a copy of.
func (w *World) returnedVar(e *Engine, s *State, v ssa.Value) string {
	for i := 0; i < 10; i++ {
		if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
			v = ex.Tuple
		}
		if c, ok := v.(*ssa.Call); ok {
			return s.Get("ret@" + w.InstrPos(c))
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return ""
		}
		al, ok := u.X.(*ssa.Alloc)
		if !ok {
			return w.respVar(s.ctx, v)
		}
		// results kept in memory because of deferred calls: the last store
		var last *ssa.Store
		for _, st := range storesTo(al) {
			if st.Block() == u.Block() {
				last = st
			}
		}
		if last == nil {
			return w.respVar(s.ctx, v)
		}
		v = last.Val
	}
	return ""
}

// checkCounter: a counting function increments the given counter exactly once,
// with a label that depends on its flag.
func (w *World) checkCounter(r *Report, name, vec string) {
	fn := w.Fn(name)
	if !r.ObGlobal(fn != nil, "counting function "+name+" exists") {
		return
	}
	hooks := &Hooks{}
	hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		cc := callAt(s, in)
		if cc == nil || !cc.IsInvoke() || (cc.Method.Name() != "Inc" && cc.Method.Name() != "Add") {
			return nil
		}
		e.Hit("counter incremented", in)
		e.Ob(s, in, s.Get("inc") == "" && cc.Method.Name() == "Inc", "a counter is incremented more than once")
		t := w.T(s.ctx, cc.Value).String()
		flag := e.Eval(s, fn.Params[len(fn.Params)-1])
		e.Ob(s, in, strings.Contains(t, "."+vec), "the wrong counter is incremented")
		if flag == aTrue {
			e.Ob(s, in, strings.Contains(t, `"success"`) && !strings.Contains(t, `"failure"`), "a success is counted under another label")
		} else if flag == aFalse {
			e.Ob(s, in, strings.Contains(t, `"failure"`) && !strings.Contains(t, `"success"`), "a failure is counted under another label")
		}
		return []Outcome{{S: s.With("inc", "1"), Handled: true}}
	}
	hooks.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		e.Ob(s, rt, s.Get("inc") == "1", "a counting function returns without counting")
	}
	e := NewEngine(w, hooks)
	e.Run(fn, nil)
	r.Merge(e)
}
