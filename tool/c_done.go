package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

const (
	fTaskDone  = "common.TssCommon.taskDone"
	fFinished  = "common.TssCommon.finishedPeers"
	fDoneFlag  = tNotifier + ".TaskDone"
	fMembers   = "common.PartyInfo.PartyIDMap"
	fBroadcast = "common.TssCommon.broadcastChannel"
	fnTellDone = "common.TssCommon.NotifyTaskDone"
)

func init() {
	register(&propDef{
		ID:    "C32",
		Title: "A session ends only when every other member reported to be done, or time is up",
		Rule: "Path-sensitive interprocedural dataflow. Receiving (from the receipt of a message of the session): a peer is counted as done only on paths where the message was decoded without error, it says so, and its sender, as authenticated by the network, was not counted before, and on every such path it is counted; " +
			"the session is reported finished exactly on the paths where the number of those counted was, after the count, found to be equal to that of the other members. Nobody else counts, forgets or reports. " +
			"Telling (from the exported function): without an error, a message that says so under the id of the session was handed to the network for all peers of the session. " +
			"Both kinds of session: others are told only after the own result is there (the share; all signatures), a session that returns a result has told them, and stops answering only after it saw all done or its timer ended; nothing but a failure stops it before.",
		Assume: []string{"the peers of the session are the other members (C22)"},
		Run:    runC32,
	})
}

// closesField: in closes (not: registers to close) the channel in field f.
func closesField(s *State, in ssa.Instruction, f string) bool {
	ch := closes(in)
	return ch != nil && (s == nil || !registers(s, in)) && chanField(ch) == f
}

// chanField: the field a channel was read from, through variables and results.
func chanField(v ssa.Value) string {
	for i := 0; i < 10; i++ {
		if f := addrField(v); f != "" {
			return f
		}
		switch x := v.(type) {
		case *ssa.Call:
			fn := x.Call.StaticCallee()
			if fn == nil || len(fn.Blocks) == 0 {
				return ""
			}
			rs := returnsOf(fn)
			if len(rs) != 1 || len(rs[0].Results) != 1 {
				return ""
			}
			v = rs[0].Results[0]
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FreeVar:
			v = staticBinding(x)
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				if fv, ok2 := x.X.(*ssa.FreeVar); ok2 {
					al, _ = staticBinding(fv).(*ssa.Alloc)
				}
				if al == nil {
					return ""
				}
			}
			st := storesTo(al)
			if len(st) != 1 {
				return ""
			}
			v = st[0].Val
		default:
			return ""
		}
	}
	return ""
}

func runC32(w *World, r *Report) {
	w.doneInbound(r)
	w.doneTold(r)
	for _, n := range []string{fnGenKey, fnSign} {
		fn := w.Fn(n)
		if r.ObGlobal(fn != nil, "entry point "+n+" exists") {
			w.doneSession(r, fn)
		}
	}
	for _, n := range []string{"result complete", "others told", "session stopped"} {
		r.Need(n, 2)
	}
}

func (w *World) doneInbound(r *Report) {
	h := &Hooks{Interesting: func(in ssa.Instruction) bool {
		if closesField(nil, in, fTaskDone) || w.recvField(in, fTssMsg) {
			return true
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return addrField(x.Map) == fFinished
		case *ssa.Lookup:
			return addrField(x.X) == fFinished
		}
		return false
	}}
	settle := func(e *Engine, s *State, in ssa.Instruction) {
		e.Ob(s, in, s.Get("all") == "" || s.Get("closed") == "1", "every other member reported to be done but the session is not reported finished")
		e.Ob(s, in, s.Get("dec") == "" || s.Get("done") == "" || s.Get("new") == "" || s.Get("cnt") == "1", "a member that reports to be done for the first time is not counted")
	}
	fresh := func(s *State) *State {
		return s.With("dec", "", "done", "", "new", "", "was", "", "cnt", "", "all", "", "closed", "")
	}
	sender := func(ctx *Ctx, v ssa.Value) bool {
		return isPeerString(w.T(ctx, v), func(t *Term) bool { return t.String() == fP2PPeer })
	}
	h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if w.recvField(sel, fTssMsg) {
			settle(e, s, sel)
			return fresh(s)
		}
		return s
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) { settle(e, s, rt) }
	want := Lin{M: map[string]int{"len(" + fFinished + ")": 1, "len(" + fMembers + ")": -1}, C: 1}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		switch x := in.(type) {
		case *ssa.UnOp:
			if w.recvField(in, fTssMsg) {
				settle(e, s, in)
				return []Outcome{{S: fresh(s)}}
			}
			if x.Op == token.MUL && x.Type().String() == "bool" && w.T(s.ctx, x).String() == fDoneFlag {
				e.Hit("report read", in)
				return e.Fork(s, x, []string{"done", "1"}, []string{"done", ""})
			}
		case *ssa.Call:
			if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
				if dst, ok := decodeDst(cc.Args[1]); ok && tname(dst) == tNotifier {
					return e.ForkErr(s, x, -1, []string{"dec", "1"}, []string{"dec", ""})
				}
			}
		case *ssa.Lookup:
			if addrField(x.X) == fFinished {
				e.Hit("earlier report looked up", in)
				if !sender(s.ctx, x.Index) {
					return nil
				}
				if x.CommaOk {
					return e.lookupOutcomes(s, x, []string{"was", "1"}, []string{"new", "1"})
				}
				return e.Fork(s, x, []string{"was", "1"}, []string{"new", "1"})
			}
		case *ssa.MapUpdate:
			if addrField(x.Map) == fFinished {
				e.Hit("member counted as done", in)
				e.Ob(s, in, sender(s.ctx, x.Key), "a member is counted as done that is not the sender of the report")
				e.Ob(s, in, s.Get("dec") == "1" && s.Get("done") == "1", "a member is counted as done that did not report it")
				v := e.Eval(s, x.Value)
				e.Ob(s, in, v == aTrue || x.Value.Type().String() != "bool", "a member that is done is noted as not done")
				return []Outcome{{S: s.With("cnt", "1")}}
			}
		case *ssa.BinOp:
			if s.Get("cnt") != "1" {
				return nil
			}
			var on, off []string
			for _, val := range []bool{true, false} {
				c, ok := w.binCmp(s.ctx, x, val)
				if !ok || c.Kind != "EQ" {
					continue
				}
				if c.L.String() == want.String() || c.L.String() == want.neg().String() {
					if val {
						on = []string{"all", "1"}
					} else {
						off = []string{"all", "1"}
					}
				}
			}
			if on != nil || off != nil {
				e.Hit("count compared", in)
				return e.Fork(s, x, on, off)
			}
		}
		if closesField(s, in, fTaskDone) {
			e.Hit("session reported finished", in)
			e.Ob(s, in, s.Get("all") == "1", "a session is reported finished although not every other member was found to be done")
			e.Ob(s, in, s.Get("new") == "1", "a session can be reported finished twice: the sender may have been counted before")
			e.Ob(s, in, s.Get("closed") == "", "a session is reported finished twice")
			return []Outcome{{S: s.With("closed", "1")}}
		}
		return nil
	}
	runEntries(w, r, h, func(fn *ssa.Function, in ssa.Instruction) bool {
		if mu, ok := in.(*ssa.MapUpdate); ok && addrField(mu.Map) == fFinished {
			return true
		}
		return closesField(nil, in, fTaskDone)
	}, sessionStop(w))
	for _, n := range []string{"report read", "earlier report looked up", "member counted as done", "count compared", "session reported finished"} {
		r.Need(n, 1)
	}
	// nobody else forgets or replaces
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && addrField(ci.Common().Args[0]) == fFinished {
					r.Ob(in, false, "a member that reported to be done is forgotten")
				}
			}
			if f, st := storeField(in); f == fFinished || f == fTaskDone {
				r.Anchor("made", in)
				fa := st.Addr.(*ssa.FieldAddr)
				_, isNew := fa.X.(*ssa.Alloc)
				r.Ob(in, isNew, "what was counted of a running session is replaced")
			}
		})
	}
	// one processing per session
	c := newConc(w)
	for _, n := range []string{fnGenKey, fnSign} {
		fn := w.Fn(n)
		if fn == nil {
			continue
		}
		_, hi := c.count(fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && callName(ci.Common()) == fnInbound
		})
		r.ObFn(fn, hi <= 1, "messages of a session are processed in one place")
	}
}

// doneTold: what telling the others means.
func (w *World) doneTold(r *Report) {
	fn := w.Fn(fnTellDone)
	if !r.ObGlobal(fn != nil, "the function that tells the others exists") {
		return
	}
	h := &Hooks{Interesting: func(in ssa.Instruction) bool { return outSink(nil, in) }}
	check := func(e *Engine, s *State, in ssa.Instruction, v ssa.Value) *State {
		e.Hit("report sent", in)
		c := ctxVal{s.ctx, v}
		one := func(ok func(c ctxVal) bool, path ...string) bool {
			vs := w.fieldPath(c, path...)
			for _, x := range vs {
				if !ok(x) {
					return false
				}
			}
			return len(vs) > 0
		}
		term := func(want string) func(c ctxVal) bool {
			return func(c ctxVal) bool { return w.T(c.ctx, c.v).every(func(t *Term) bool { return t.String() == want }) }
		}
		e.Ob(s, in, one(func(c ctxVal) bool {
			k, ok := c.v.(*ssa.Const)
			return ok && k.Value != nil && k.Value.ExactString() == w.msgType("TSSTaskDone")
		}, "WrappedMessage", "MessageType"), "the report to the others is not marked as one")
		e.Ob(s, in, one(term("common.TssCommon.msgID"), "WrappedMessage", "MsgID"), "the report to the others does not name the session")
		e.Ob(s, in, one(term(fPeerList), "PeersID"), "the report is not for all peers of the session")
		e.Ob(s, in, one(func(c ctxVal) bool {
			m, ok := w.marshalled(c.ctx, c.v)
			if !ok || tname(m.v.Type()) != tNotifier {
				return false
			}
			for _, x := range w.fieldPath(m, "TaskDone") {
				k, ok := x.v.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.String() != "true" {
					return false
				}
			}
			return len(w.fieldPath(m, "TaskDone")) > 0
		}, "WrappedMessage", "Payload"), "the report does not say that this node is done")
		return s.With("sent", "1")
	}
	h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if v := outSend(sel, k); v != nil {
			return check(e, s, sel, v)
		}
		return s
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if _, ok := in.(*ssa.Send); ok {
			if v := outSend(in, 0); v != nil {
				return []Outcome{{S: check(e, s, in, v)}}
			}
		}
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			x, y := b.X, b.Y
			if isNil(x) {
				x, y = y, x
			}
			if isNil(y) && addrField(x) == fBroadcast {
				if b.Op == token.EQL {
					return e.Fork(s, b, []string{"none", "1"}, nil)
				}
				return e.Fork(s, b, nil, []string{"none", "1"})
			}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if n := len(rt.Results); n > 0 && e.Eval(s, rt.Results[n-1]) == aNonNil {
			return
		}
		if n := len(rt.Results); n > 0 && isG(e.Eval(s, rt.Results[n-1])) {
			return
		}
		e.Ob(s, rt, s.Get("sent") == "1" || s.Get("none") == "1", "the others are not told although no error is returned")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("report sent", 1)
}

// doneSession: when a session tells the others, and when it stops.
func (w *World) doneSession(r *Report, fn *ssa.Function) {
	sign := fname(fn) == fnSign
	isReqMsgs := func(ctx *Ctx, v ssa.Value) bool {
		c, o := w.origin(ctx, v)
		return sign && c.Parent == nil && o == fn.Params[1]
	}
	elem := tSaveData
	if sign {
		elem = tSigData
	}
	stops := func(in ssa.Instruction) bool {
		return closesField(nil, in, "keygen.TssKeyGen.commStopChan") || closesField(nil, in, "keysign.TssKeySign.commStopChan")
	}
	ends := func(sel *ssa.Select) bool {
		for _, st := range sel.States {
			if chanField(st.Chan) == fTaskDone {
				return true
			}
		}
		return false
	}
	h := &Hooks{
		SkipGo: true,
		Interesting: func(in ssa.Instruction) bool {
			if sel, ok := in.(*ssa.Select); ok && ends(sel) {
				return true
			}
			return recvInstr(in, elem) || stops(in) || isCall(in, fnTellDone) != nil
		},
		NoInline: func(f *ssa.Function) bool { return fname(f) == fnTellDone || fname(f) == fnInbound },
		Track: func(v ssa.Value) bool {
			return v.Type().String() == "error" || sign && sliceElem(deref(v.Type())) == tECSig
		},
	}
	got := func(e *Engine, s *State, in ssa.Instruction) *State {
		e.Hit("result received", in)
		if sign {
			return s.With("complete", "")
		}
		e.Hit("result complete", in)
		return s.With("complete", "1")
	}
	timer := func(v ssa.Value) bool {
		c := newConc(w)
		return all(c.origins(v), func(o string) bool { return o == "timer" || o == "limit" })
	}
	h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if recvOf(sel, k, elem) {
			return got(e, s, sel)
		}
		if k >= 0 && ends(sel) && (chanField(sel.States[k].Chan) == fTaskDone || timer(sel.States[k].Chan)) {
			return s.With("waited", "1")
		}
		return s
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if _, ok := in.(*ssa.UnOp); ok && recvInstr(in, elem) {
			return []Outcome{{S: got(e, s, in)}}
		}
		if cc := isCall(in, fnTellDone); cc != nil && !registers(s, in) {
			e.Hit("others told", in)
			e.Ob(s, in, s.Get("complete") == "1", "the others are told that this node is done before its result is complete")
			return []Outcome{{S: s.With("told", "1")}}
		}
		if stops(in) && !registers(s, in) {
			e.Hit("session stopped", in)
			if s.Get("waited") == "" {
				return []Outcome{{S: s.With("stopped", "1", "early", "1")}}
			}
			return []Outcome{{S: s.With("stopped", "1")}}
		}
		if b, ok := in.(*ssa.BinOp); ok && sign {
			x, y, op := b.X, b.Y, b.Op
			if lenArg(y) != nil && isSigList(lenArg(y)) {
				x, y, op = y, x, flipCmp(op)
			}
			if a := lenArg(x); a != nil && isSigList(a) {
				c, o := e.Resolve(s, s.ctx, y)
				c, o = w.origin(c, o)
				if l := lenArg(o); l != nil && isReqMsgs(c, l) {
					e.Hit("result complete", in)
					k := []string{"complete", "1"}
					switch op {
					case token.EQL, token.GEQ:
						return e.Fork(s, b, k, nil)
					case token.NEQ, token.LSS:
						return e.Fork(s, b, nil, k)
					}
				}
			}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if len(rt.Results) != 2 {
			return
		}
		if ev := e.Eval(s, rt.Results[1]); ev == aNonNil || isG(ev) {
			return
		}
		_, o := e.Resolve(s, s.ctx, rt.Results[0])
		if k, ok := o.(*ssa.Const); ok && k.Value == nil {
			return
		}
		e.Hit("session ends with a result", rt)
		e.Ob(s, rt, s.Get("told") == "1", "a session ends with a result without telling the others that it is done")
		e.Ob(s, rt, s.Get("waited") == "1" && s.Get("early") == "", "a session ends with a result without waiting for the others to be done")
		e.Ob(s, rt, s.Get("stopped") == "1", "a session ends without stopping its processing of messages")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("session ends with a result", 1)
}

func flipCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}
