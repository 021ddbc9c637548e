package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tMgr      = "p2p.StreamMgr"
	addStream = tMgr + ".AddStream"
	relStream = tMgr + ".ReleaseStream"
)

func init() {
	register(&propDef{
		ID:    "C29",
		Title: "Every stream is given back and every handler removed",
		Rule: "Path-sensitive interprocedural dataflow. Every stream that is opened, and every stream a handler is given, is reset or handed to the stream manager of its component before the function ends and before it waits for a channel: a stream opened for a session under the ID of that session, an incoming one under the ID decoded without error from it, or as unknown. The manager adds a stream to those filed before under the same ID, under its lock, and never drops what is filed as a whole. " +
			"Releasing an ID takes the streams of that ID and the unknown ones, and exactly these, out of the manager under its lock and resets each of them. Every component with a manager passes its release on to it. The party coordinator removes every handler it has set when it stops; the network component closes its host, tells its workers to stop and waits for them; stopping the server stops both.",
		Assume: []string{"a stream whose opening is completed in the very moment its time limit expires is exempt"},
		Run:    runC29,
	})
}

func isStreamMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	sl, ok := m.Elem().Underlying().(*types.Slice)
	return ok && tname(sl.Elem()) == tStream
}

func lockCall(cc *ssa.CallCommon) string {
	switch callName(cc) {
	case "sync.RWMutex.Lock", "sync.Mutex.Lock":
		return "lock"
	case "sync.RWMutex.RLock":
		return "rlock"
	case "sync.RWMutex.Unlock", "sync.Mutex.Unlock", "sync.RWMutex.RUnlock":
		return "unlock"
	}
	return ""
}

func runC29(w *World, r *Report) {
	streamMgr(w, r)
	streamsKept(w, r)
	stopped(w, r)
}

// onlyIfEmpty: the map is set where it was found to be nil or empty.
func onlyIfEmpty(st *ssa.Store) bool {
	f := addrField(st.Addr)
	for b := st.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(b.Preds) != 1 {
			continue
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		yes := bo.Op == token.EQL && d.Succs[0] == b || bo.Op == token.NEQ && d.Succs[1] == b
		if yes && isNil(bo.Y) && addrField(bo.X) == f {
			return true
		}
		if k, ok := bo.Y.(*ssa.Const); ok && yes && k.Value != nil && k.Value.String() == "0" {
			if l := lenArg(bo.X); l != nil && addrField(l) == f {
				return true
			}
		}
	}
	return false
}

func mapDelete(cc *ssa.CallCommon) (m, k ssa.Value) {
	if cc == nil {
		return nil, nil
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
		return cc.Args[0], cc.Args[1]
	}
	return nil, nil
}

func streamMgr(w *World, r *Report) {
	rel, add := w.Fn(relStream), w.Fn(addStream)
	if !r.ObGlobal(rel != nil && add != nil, "the stream manager adds and releases streams") {
		return
	}
	str := func(fn *ssa.Function) ssa.Value {
		for _, p := range fn.Params {
			if p.Type().String() == "string" {
				return p
			}
		}
		return nil
	}
	kind := func(fn *ssa.Function) func(ctx *Ctx, v ssa.Value) string {
		id := str(fn)
		return func(ctx *Ctx, v ssa.Value) string {
			_, o := w.origin(ctx, v)
			if o == id {
				return "id"
			}
			if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "UNKNOWN" {
				return "unknown"
			}
			return "?"
		}
	}
	touches := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Lookup:
			return isStreamMap(x.X.Type())
		case *ssa.MapUpdate:
			return isStreamMap(x.Map.Type())
		case *ssa.Range:
			return isStreamMap(x.X.Type())
		case ssa.CallInstruction:
			if m, _ := mapDelete(x.Common()); m != nil {
				return isStreamMap(m.Type())
			}
		}
		return false
	}
	interesting := func(in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok && (lockCall(ci.Common()) != "" || callName(ci.Common()) == tStream+".Reset") {
			return true
		}
		return touches(in)
	}
	{
		kd := kind(rel)
		// kinds: which entries a collection of streams holds
		kinds := func(e *Engine, s *State, v ssa.Value) []string {
			sl, ok := v.Type().Underlying().(*types.Slice)
			if !ok || tname(sl.Elem()) != tStream {
				return nil
			}
			p := w.sliceParts(s.ctx, v, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
			var out []string
			for _, sp := range p.SpVals {
				o := sp.v
				if ex, ok := o.(*ssa.Extract); ok {
					o = ex.Tuple
				}
				if lk, ok := o.(*ssa.Lookup); ok && isStreamMap(lk.X.Type()) {
					out = append(out, kd(sp.ctx, lk.Index))
				}
			}
			if len(out) == 0 {
				out = []string{"-"}
			}
			return out
		}
		h := &Hooks{Interesting: interesting, Track: func(v ssa.Value) bool { return true }}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if cc := callAt(s, in); cc != nil {
				switch lockCall(cc) {
				case "lock":
					return []Outcome{{S: s.With("lk", "1")}}
				case "rlock":
					return []Outcome{{S: s.With("lk", "r")}}
				case "unlock":
					for _, k := range []string{"id", "unknown"} {
						e.Ob(s, in, s.Get("got."+k) == "" || s.Get("del."+k) == "1", "streams are looked up but still filed when the lock is released")
					}
					return []Outcome{{S: s.With("lk", "")}}
				}
				if m, k := mapDelete(cc); m != nil && isStreamMap(m.Type()) {
					e.Hit("streams forgotten", in)
					kk := kd(s.ctx, k)
					e.Ob(s, in, s.Get("lk") == "1", "streams are forgotten without the lock")
					e.Ob(s, in, kk != "?", "streams of another session are forgotten")
					e.Ob(s, in, s.Get("look."+kk) == "1", "streams are forgotten before they are taken")
					return []Outcome{{S: s.With("del."+kk, "1")}}
				}
				if callName(cc) == tStream+".Reset" {
					e.Hit("stream reset", in)
					rcv, _ := callArgs(cc)
					_, k := w.elemRef(s.ctx, rcv, tStream)
					if k != "" && k == s.Get("i") {
						return []Outcome{{S: s.With("p", "")}}
					}
				}
				return nil
			}
			switch x := in.(type) {
			case *ssa.Lookup:
				if isStreamMap(x.X.Type()) {
					e.Hit("streams taken", in)
					kk := kd(s.ctx, x.Index)
					e.Ob(s, in, s.Get("lk") != "", "streams are looked up without the lock")
					return e.lookupOutcomes(s, x, []string{"got." + kk, "1", "look." + kk, "1"}, []string{"look." + kk, "1", "rst." + kk, "1"})
				}
			case *ssa.Range:
				if isStreamMap(x.X.Type()) {
					e.Ob(s, in, false, "streams of other sessions are touched")
				}
			case *ssa.MapUpdate:
				if isStreamMap(x.Map.Type()) {
					e.Ob(s, in, false, "releasing files streams")
				}
			}
			var coll ssa.Value
			hold, hdr := false, false
			if c, enter, ok := loopHeader(in); ok {
				coll, hold, hdr = c, enter, true
			} else if c, empty, ok := lenZero(in); ok {
				coll, hold = c, !empty
			}
			if coll == nil {
				return nil
			}
			ks := kinds(e, s, coll)
			if ks == nil {
				return nil
			}
			var on, off []string
			if hdr {
				e.Hit("loop over streams", in)
				e.Ob(s, in, s.Get("p") == "", "a stream is not reset")
				on = []string{"p", "1", "i", w.loopIndex(s.ctx, in)}
				off = []string{"p", "", "i", ""}
			}
			for _, k := range ks {
				off = append(off, "rst."+k, "1")
			}
			if hold {
				return e.Fork(s, in.(ssa.Value), on, off)
			}
			return e.Fork(s, in.(ssa.Value), off, on)
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			e.Hit("streams released", rt)
			for _, k := range []string{"id", "unknown"} {
				what := map[string]string{"id": "the session's", "unknown": "the unknown"}[k]
				e.Ob(s, rt, s.Get("look."+k) == "1" && s.Get("rst."+k) == "1", what+" streams are not all reset")
				e.Ob(s, rt, s.Get("got."+k) == "" || s.Get("del."+k) == "1", what+" streams stay filed")
			}
			e.Ob(s, rt, s.Get("lk") == "", "the lock is kept")
		}
		e := NewEngine(w, h)
		e.Run(rel, nil)
		r.Merge(e)
	}
	{
		kd := kind(add)
		var stream ssa.Value
		for _, p := range add.Params {
			if tname(p.Type()) == tStream {
				stream = p
			}
		}
		h := &Hooks{Interesting: interesting, Track: func(v ssa.Value) bool { return true }}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if cc := callAt(s, in); cc != nil {
				switch lockCall(cc) {
				case "lock":
					return []Outcome{{S: s.With("lk", "1")}}
				case "rlock":
					return []Outcome{{S: s.With("lk", "r")}}
				case "unlock":
					return []Outcome{{S: s.With("lk", "", "had", "", "none", "")}}
				}
				if m, _ := mapDelete(cc); m != nil && isStreamMap(m.Type()) {
					e.Ob(s, in, false, "adding a stream forgets others")
				}
				return nil
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				if (x.Op == token.EQL || x.Op == token.NEQ) && (isNil(x.X) || isNil(x.Y)) {
					if _, o := w.origin(s.ctx, x.X); o == stream {
						if x.Op == token.EQL {
							return e.Fork(s, x, []string{"nil", "1"}, nil)
						}
						return e.Fork(s, x, nil, []string{"nil", "1"})
					}
				}
			case *ssa.Lookup:
				if isStreamMap(x.X.Type()) {
					e.Ob(s, in, s.Get("lk") != "", "streams are looked up without the lock")
					if kd(s.ctx, x.Index) != "id" {
						return nil
					}
					return e.lookupOutcomes(s, x, []string{"had", e.lookupKey(s.ctx, x)}, []string{"had", e.lookupKey(s.ctx, x), "none", "1"})
				}
			case *ssa.MapUpdate:
				if !isStreamMap(x.Map.Type()) {
					return nil
				}
				e.Hit("stream filed", in)
				e.Ob(s, in, s.Get("lk") == "1", "a stream is filed without the lock")
				e.Ob(s, in, kd(s.ctx, x.Key) == "id", "a stream is filed under another ID")
				p := w.sliceParts(s.ctx, x.Value, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
				own := false
				for _, v := range p.Vals {
					_, o := e.Resolve(s, v.ctx, v.v)
					own = own || o == stream
				}
				old := s.Get("none") == "1"
				for _, v := range p.SpVals {
					if s.Get("had") != "" && e.entryOf(s, v.ctx, v.v) == s.Get("had") {
						old = true
					}
				}
				e.Ob(s, in, own, "what is filed lacks the stream")
				e.Ob(s, in, old && !p.Part, "streams filed before are lost")
				return []Outcome{{S: s.With("filed", "1")}}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if s.Get("nil") == "1" {
				return
			}
			e.Ob(s, rt, s.Get("filed") == "1", "a stream is not filed")
			e.Ob(s, rt, s.Get("lk") == "", "the lock is kept")
		}
		e := NewEngine(w, h)
		e.Run(add, nil)
		r.Merge(e)
	}
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) || fnPkg(fn) == nil {
			continue
		}
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if strings.HasPrefix(fname(top), tMgr+".") || fname(top) == "p2p.NewStreamMgr" {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if touches(in) {
				n := addrMapOp(in)
				if lk, ok := in.(*ssa.Lookup); ok {
					n = addrField(lk.X)
				}
				r.Ob(in, !strings.HasPrefix(n, tMgr+"."), "the filed streams are used outside of their manager")
			}
		})
	}
	// the streams filed are never dropped as a whole
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if f, st := storeField(in); st != nil && strings.HasPrefix(f, tMgr+".") && isStreamMap(st.Val.Type()) {
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if ok {
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						return
					}
				}
				r.Ob(in, onlyIfEmpty(st), "all streams filed before are forgotten")
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "clear" && isStreamMap(ci.Common().Args[0].Type()) {
					r.Ob(in, false, "all streams filed before are forgotten")
				}
			}
		})
	}
	for _, n := range []string{"streams taken", "streams forgotten", "stream reset", "loop over streams", "streams released", "stream filed"} {
		r.Need(n, 1)
	}
	// the components pass the release on
	for _, p := range w.Pkgs {
		for _, mem := range p.Members {
			tp, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			st := structOf(tp.Type())
			if st == nil || isMockType(tp) {
				continue
			}
			has := false
			for i := 0; i < st.NumFields(); i++ {
				has = has || tname(deref(st.Field(i).Type())) == tMgr
			}
			if !has {
				continue
			}
			fn := w.Fn(tname(tp.Type()) + ".ReleaseStream")
			if !r.ObGlobal(fn != nil, tname(tp.Type())+" can release its streams") {
				continue
			}
			id := str(fn)
			h := &Hooks{Interesting: func(in ssa.Instruction) bool { return isCall(in, relStream) != nil }, NoInline: func(fn *ssa.Function) bool { return fname(fn) == relStream }}
			h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
				if cc := callAt(s, in); cc != nil && callName(cc) == relStream {
					e.Hit("release passed on", in)
					_, o := w.origin(s.ctx, cc.Args[1])
					e.Ob(s, in, o == id, "the streams of another session are released")
					e.Ob(s, in, strings.HasPrefix(addrField(cc.Args[0]), tname(tp.Type())+"."), "the streams of another component are released")
					return []Outcome{{S: s.With("rel", "1")}}
				}
				return nil
			}
			h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
				e.Ob(s, rt, s.Get("rel") == "1", "the streams of a session are not released")
			}
			e := NewEngine(w, h)
			e.Run(fn, nil)
			r.Merge(e)
		}
	}
	r.Need("release passed on", 3)
}

func isMockType(t *ssa.Type) bool { return strings.HasPrefix(t.Name(), "Mock") }

// streamsKept: every stream opened or received is filed or reset.
func streamsKept(w *World, r *Report) {
	newStream := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if ok && strings.HasSuffix(callName(&c.Call), "host.Host.NewStream") {
			return c
		}
		return nil
	}
	keeps := func(in ssa.Instruction) bool { return isCall(in, addStream, tStream+".Reset") != nil }
	waits := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Send:
			return true
		case *ssa.Select:
			return x.Blocking
		}
		return false
	}
	unknown := func(ctx *Ctx, v ssa.Value) bool {
		_, o := w.origin(ctx, v)
		k, ok := o.(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "UNKNOWN"
	}
	noInline := func(fn *ssa.Function) bool {
		n := fname(fn)
		return n == addStream || n == readFrame || n == writeFrame
	}
	sites := map[ssa.Instruction]bool{}
	// received
	hs := w.handlersOf()
	for fn := range hs {
		var stream ssa.Value
		for _, p := range fn.Params {
			if tname(p.Type()) == tStream {
				stream = p
			}
		}
		if stream == nil {
			continue
		}
		h := &Hooks{Track: func(v ssa.Value) bool { return true }, NoInline: noInline}
		isDec := func(in ssa.Instruction) *ssa.Call {
			c, ok := in.(*ssa.Call)
			if ok && (strings.HasSuffix(callName(&c.Call), "proto.Unmarshal") || callName(&c.Call) == "encoding/json.Unmarshal") {
				return c
			}
			return nil
		}
		h.Interesting = func(in ssa.Instruction) bool {
			return keeps(in) || waits(in) || isDec(in) != nil || isCall(in, readFrame) != nil
		}
		stop := func(sel *ssa.Select, k int) bool {
			return k >= 0 && sel.States[k].Dir == types.RecvOnly && strings.HasSuffix(addrField(sel.States[k].Chan), ".stopChan")
		}
		h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
			if stop(sel, k) {
				return s.With("stop", "1")
			}
			return s
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if waits(in) {
				only := false
				if sel, ok := in.(*ssa.Select); ok {
					only = true
					for k := range sel.States {
						only = only && stop(sel, k)
					}
				}
				e.Ob(s, in, only || s.Get("kept") == "1", "a stream is not filed while its handler waits")
			}
			if c := isDec(in); c != nil {
				_, o := e.Resolve(s, s.ctx, c.Call.Args[0])
				_, a := w.origin(s.ctx, c.Call.Args[1])
				ex, ok := o.(*ssa.Extract)
				if ok && fmt.Sprintf("%p", ex.Tuple) == s.Get("rd") {
					return e.ForkErr(s, c, -1, []string{"dec:" + w.decoded(s.ctx, c.Call.Args[1]), tname(deref(a.Type()))}, nil)
				}
			}
			cc := callAt(s, in)
			if cc == nil {
				return nil
			}
			switch callName(cc) {
			case readFrame:
				if c, ok := in.(*ssa.Call); ok {
					return e.ForkErr(s, c, errIdx(c), []string{"rd", fmt.Sprintf("%p", c)}, nil)
				}
			case tStream + ".Reset":
				rcv, _ := callArgs(cc)
				if _, o := w.origin(s.ctx, rcv); o == stream {
					return []Outcome{{S: s.With("kept", "1")}}
				}
			case addStream:
				e.Hit("received stream filed", in)
				_, o := w.origin(s.ctx, cc.Args[2])
				e.Ob(s, in, o == stream, "another stream than the one received is filed")
				good := unknown(s.ctx, cc.Args[1])
				for k, typ := range s.A {
					if strings.HasPrefix(k, "dec:") {
						dec := strings.TrimPrefix(k, "dec:")
						good = good || w.inDecoded(s.ctx, cc.Args[1], dec, typ, "ID") || w.inDecoded(s.ctx, cc.Args[1], dec, typ, "MsgID")
					}
				}
				e.Ob(s, in, good, "a received stream is filed under an ID it did not name")
				return []Outcome{{S: s.With("kept", "1")}}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if s.Get("stop") == "1" {
				return
			}
			e.Hit("handler of a stream ends", rt)
			e.Ob(s, rt, s.Get("kept") == "1", "a received stream is neither filed nor reset")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	}
	r.ObGlobal(len(hs) >= 4, "the stream handlers are known")
	// opened
	pred := func(fn *ssa.Function, in ssa.Instruction) bool { return newStream(in) != nil }
	entryTypes := []string{"p2p.Communication.", "p2p.PartyCoordinator.", "keysign.SignatureNotifier."}
	exported := func(fn *ssa.Function) bool {
		for _, p := range entryTypes {
			if strings.HasPrefix(fname(fn), p) && fn.Object() != nil && fn.Object().Exported() {
				return true
			}
		}
		return false
	}
	for _, en := range w.entries(pred, exported) {
		if isMockFile(w, en) {
			continue
		}
		en := en
		h := &Hooks{Track: func(v ssa.Value) bool { return true }, NoInline: noInline}
		h.Interesting = func(in ssa.Instruction) bool { return newStream(in) != nil || keeps(in) }
		h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
			if k >= 0 && sel.States[k].Dir == types.RecvOnly {
				if _, o := w.origin(s.ctx, sel.States[k].Chan); o != nil {
					if c, ok := o.(*ssa.Call); ok && callName(&c.Call) == "context.Context.Done" {
						return s.With("open", "")
					}
				}
			}
			return s
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if c := newStream(in); c != nil {
				e.Hit("stream opened", in)
				sites[in] = true
				e.Ob(s, in, s.Get("open") == "", "a stream that was opened is neither filed nor reset")
				outs := e.ForkErr(s, c, errIdx(c), []string{"open", fmt.Sprintf("%p", c)}, []string{"open", ""})
				e.SetVal(outs[0].S, c, 0, aNonNil)
				if len(outs) > 1 {
					e.SetVal(outs[1].S, c, 0, aNil)
				}
				return outs
			}
			cc := callAt(s, in)
			if cc == nil {
				return nil
			}
			this := func(v ssa.Value) bool {
				c, o := e.Resolve(s, s.ctx, v)
				_, o = w.origin(c, o)
				ex, ok := o.(*ssa.Extract)
				return ok && s.Get("open") == fmt.Sprintf("%p", ex.Tuple)
			}
			switch callName(cc) {
			case tStream + ".Reset":
				rcv, _ := callArgs(cc)
				if this(rcv) {
					return []Outcome{{S: s.With("open", "")}}
				}
			case addStream:
				e.Hit("opened stream filed", in)
				t := w.T(s.ctx, cc.Args[1])
				e.Ob(s, in, unknown(s.ctx, cc.Args[1]) || t.every(func(t *Term) bool { return strings.Contains(t.String(), "#") && t.Op == "root" }), "a stream opened for a session is filed under another ID: "+t.String())
				if this(cc.Args[2]) {
					return []Outcome{{S: s.With("open", "")}}
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			e.Ob(s, rt, s.Get("open") == "", "a stream that was opened is neither filed nor reset")
		}
		e := NewEngine(w, h)
		e.Run(en, nil)
		r.Merge(e)
	}
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if newStream(in) != nil {
				r.Ob(in, sites[in], "construct reached by the analysis")
			}
		})
	}
	for n, k := range map[string]int{"stream opened": 3, "opened stream filed": 3, "received stream filed": 4, "handler of a stream ends": 4} {
		r.Need(n, k)
	}
}

// stopped: what stopping the components does.
func stopped(w *World, r *Report) {
	// handlers, by the type that sets them
	set := map[string]map[string]ssa.Instruction{}
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !strings.HasSuffix(callName(ci.Common()), "host.Host.SetStreamHandler") {
				return
			}
			_, a := callArgs(ci.Common())
			f := handlerFn(a[1])
			if f == nil {
				return
			}
			var recv types.Type
			if f.Signature.Recv() != nil {
				recv = f.Signature.Recv().Type()
			} else if len(f.FreeVars) > 0 {
				recv = f.FreeVars[0].Type()
			}
			if recv == nil {
				return
			}
			tn := tname(deref(recv))
			if set[tn] == nil {
				set[tn] = map[string]ssa.Instruction{}
			}
			for _, p := range w.protocols(w.Root(fn), a[0]) {
				r.Anchor("handler set", in)
				set[tn][p] = in
			}
		})
	}
	r.Need("handler set", 4)
	run := func(fn *ssa.Function, need map[string]string, also func(e *Engine, s *State, rt *ssa.Return)) {
		ev := func(e *Engine, s *State, cc *ssa.CallCommon) string {
			if cc == nil {
				return ""
			}
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" {
				return "close:" + addrField(cc.Args[0])
			}
			n := callName(cc)
			switch {
			case strings.HasSuffix(n, "host.Host.RemoveStreamHandler"):
				_, a := callArgs(cc)
				if s == nil {
					return "remove"
				}
				c, o := e.Resolve(s, s.ctx, a[0])
				return "remove:" + strings.Join(w.protocols(c, o), ",")
			case strings.HasSuffix(n, "host.Host.Close"):
				return "host"
			case n == "sync.WaitGroup.Wait":
				return "wait"
			case n == "p2p.Communication.Stop", n == "p2p.PartyCoordinator.Stop":
				return n
			}
			return ""
		}
		h := &Hooks{Track: func(v ssa.Value) bool { return true }}
		h.NoInline = func(f *ssa.Function) bool { return f != fn && strings.HasSuffix(fname(f), ".Stop") }
		h.Interesting = func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ev(nil, nil, ci.Common()) != ""
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			n := ev(e, s, callAt(s, in))
			if n == "" {
				return nil
			}
			e.Hit("stopping: "+n, in)
			if strings.HasPrefix(n, "close:") {
				e.Ob(s, in, s.Get("did:"+n) == "", "a channel is closed twice")
			}
			if n == "wait" {
				e.Ob(s, in, s.Get("did:close:p2p.Communication.stopChan") == "1", "the workers are waited for before they are told to stop")
			}
			return []Outcome{{S: s.With("did:"+n, "1")}}
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			for n, msg := range need {
				e.Ob(s, rt, s.Get("did:"+n) == "1", msg)
			}
			if also != nil {
				also(e, s, rt)
			}
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	}
	for tn, ps := range set {
		fn := w.Fn(tn + ".Stop")
		if fn == nil || tn == "p2p.Communication" {
			continue // goes away with the host
		}
		need := map[string]string{}
		for p := range ps {
			need["remove:"+p] = "a stream handler is not removed: " + p
		}
		if tn == "p2p.PartyCoordinator" {
			need["close:p2p.PartyCoordinator.stopChan"] = "the party coordinator does not tell its workers to stop"
		}
		run(fn, need, nil)
	}
	cs, ts := w.Fn("p2p.Communication.Stop"), w.Fn("tss.TssServer.Stop")
	if r.ObGlobal(cs != nil && ts != nil && w.Fn("p2p.PartyCoordinator.Stop") != nil, "the components can be stopped") {
		run(cs, map[string]string{"host": "the host is not closed", "close:p2p.Communication.stopChan": "the workers of the network component are not told to stop", "wait": "the workers of the network component are not waited for"}, nil)
		run(ts, map[string]string{"close:tss.TssServer.stopChan": "running requests are not told to stop", "p2p.Communication.Stop": "the network component is not stopped", "p2p.PartyCoordinator.Stop": "the party coordinator is not stopped"}, nil)
	}
}
