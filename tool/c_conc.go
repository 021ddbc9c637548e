package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- channels ------------------------------------------------------------

// conc knows the goroutines and channels of the repository.
type conc struct {
	w        *World
	fns      []*ssa.Function
	gos      map[*ssa.Function][]*ssa.Go // by target
	closed   map[string][]ssa.Instruction
	sites    map[*ssa.Function][]ssa.CallInstruction // static call sites
	memo     map[ssa.Value][]string
	made     map[string]*ssa.MakeChan
	handlers map[*ssa.Function]string
}

func concSkip(w *World, fn *ssa.Function) bool {
	return len(fn.Blocks) == 0 || fn.Synthetic != "" || isMockFile(w, fn) || strings.Contains(fname(fn), "tss-bench") || strings.Contains(w.Pos(fn.Pos()), "cmd/tss-bench")
}

func newConc(w *World) *conc {
	c := &conc{w: w, gos: map[*ssa.Function][]*ssa.Go{}, closed: map[string][]ssa.Instruction{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, memo: map[ssa.Value][]string{}, made: map[string]*ssa.MakeChan{}, handlers: w.handlersOf()}
	for _, fn := range w.Funcs {
		if concSkip(w, fn) {
			continue
		}
		c.fns = append(c.fns, fn)
		eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && w.IsRepo(f) {
					c.sites[f] = append(c.sites[f], ci)
					if g, ok := in.(*ssa.Go); ok {
						c.gos[f] = append(c.gos[f], g)
					}
				}
			}
		})
	}
	for _, fn := range c.fns {
		eachInstr(fn, func(in ssa.Instruction) {
			if ch := closes(in); ch != nil {
				for _, o := range c.origins(ch) {
					c.closed[o] = append(c.closed[o], in)
				}
			}
		})
	}
	return c
}

// closes: in closes a channel.
func closes(in ssa.Instruction) ssa.Value {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
		return ci.Common().Args[0]
	}
	return nil
}

// origins names where a channel may come from: make:…, field:T.f, timer, limit
// (a context with a time limit), cancel (one that is only cancelled), ?.
func (c *conc) origins(v ssa.Value) []string {
	if o, ok := c.memo[v]; ok {
		return o
	}
	set := map[string]bool{}
	c.orig(v, set, map[ssa.Value]bool{})
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	c.memo[v] = out
	return out
}

func (c *conc) orig(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeChan:
		n := fmt.Sprintf("make:%p", x)
		c.made[n] = x
		out[n] = true
	case *ssa.ChangeType:
		c.orig(x.X, out, seen)
	case *ssa.Convert:
		c.orig(x.X, out, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.orig(e, out, seen)
		}
	case *ssa.Parameter:
		i := paramIndex(x)
		n := 0
		for _, s := range c.sites[x.Parent()] {
			a := s.Common().Args
			if i >= 0 && i < len(a) {
				n++
				c.orig(a[i], out, seen)
			}
		}
		if n == 0 {
			out["?param"] = true
		}
	case *ssa.FreeVar:
		if b := staticBinding(x); b != nil {
			c.orig(b, out, seen)
		} else {
			out["?"] = true
		}
	case *ssa.Alloc:
		for _, s := range storesTo(x) {
			c.orig(s.Val, out, seen)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			out["?"] = true
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			t, f := tname(deref(a.X.Type())), fieldOf(a.X.Type(), a.Field)
			if f == "C" && (t == "time.Timer" || t == "time.Ticker") {
				out["timer"] = true
				return
			}
			out["field:"+t+"."+f] = true
		case *ssa.Global:
			out["global:"+a.Name()] = true
		default:
			c.orig(x.X, out, seen)
		}
	case *ssa.Field:
		out["field:"+tname(x.X.Type())+"."+fieldOf(x.X.Type(), x.Field)] = true
	case *ssa.Call:
		n := callName(&x.Call)
		switch n {
		case "time.After", "time.Tick":
			out["timer"] = true
			return
		case "context.Context.Done":
			r, _ := callArgs(&x.Call)
			c.ctxOrig(r, out, map[ssa.Value]bool{})
			return
		}
		if f := x.Call.StaticCallee(); f != nil && c.w.IsRepo(f) && len(f.Blocks) > 0 {
			for _, r := range returnsOf(f) {
				c.orig(r.Results[0], out, seen)
			}
			return
		}
		out["?"+n] = true
	default:
		out["?"] = true
	}
}

// originsFor: where the channel comes from in the goroutine started by g.
func (c *conc) originsFor(g *ssa.Go, v ssa.Value) []string {
	if p, ok := v.(*ssa.Parameter); ok && g.Call.StaticCallee() == p.Parent() {
		if i := paramIndex(p); i >= 0 && i < len(g.Call.Args) {
			return c.origins(g.Call.Args[i])
		}
	}
	return c.origins(v)
}

// ctxOrig: whether a context has a time limit.
func (c *conc) ctxOrig(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		c.ctxOrig(x.Tuple, out, seen)
	case *ssa.MakeInterface:
		c.ctxOrig(x.X, out, seen)
	case *ssa.ChangeInterface:
		c.ctxOrig(x.X, out, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.ctxOrig(e, out, seen)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			c.ctxOrig(x.X, out, seen)
			return
		}
		out["?ctx"] = true
	case *ssa.Alloc:
		for _, s := range storesTo(x) {
			c.ctxOrig(s.Val, out, seen)
		}
	case *ssa.FreeVar:
		c.ctxOrig(staticBinding(x), out, seen)
	case *ssa.Parameter:
		n := 0
		for _, s := range c.sites[x.Parent()] {
			if i := paramIndex(x); i >= 0 && i < len(s.Common().Args) {
				n++
				c.ctxOrig(s.Common().Args[i], out, seen)
			}
		}
		if n == 0 {
			out["?ctx"] = true
		}
	case *ssa.Call:
		switch n := callName(&x.Call); n {
		case "context.WithTimeout", "context.WithDeadline":
			out["limit"] = true
		case "context.WithCancel":
			up := map[string]bool{}
			c.ctxOrig(x.Call.Args[0], up, seen)
			if len(up) == 1 && up["limit"] {
				out["limit"] = true
			} else {
				out["cancel"] = true
			}
		case "context.WithValue", "github.com/libp2p/go-libp2p-core/network.WithNoDial", "network.WithNoDial":
			c.ctxOrig(x.Call.Args[0], out, seen)
		default:
			if f := x.Call.StaticCallee(); f != nil && c.w.IsRepo(f) && len(f.Blocks) > 0 {
				for _, r := range returnsOf(f) {
					for _, rv := range r.Results {
						if tname(rv.Type()) == "context.Context" {
							c.ctxOrig(rv, out, seen)
						}
					}
				}
				return
			}
			out["?"+n] = true
		}
	default:
		out["?ctx"] = true
	}
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if p == q {
			return i
		}
	}
	return -1
}

func all(set []string, f func(string) bool) bool {
	for _, o := range set {
		if !f(o) {
			return false
		}
	}
	return len(set) > 0
}

// own: fn runs only as (part of) a goroutine of its own, and the instructions
// of the repository that start it (none: the handler of a stream).
func (c *conc) own(fn *ssa.Function, depth int) (gs []*ssa.Go, ok bool) {
	if depth > 5 {
		return nil, false
	}
	ok = c.handlers[fn] != ""
	for _, s := range c.sites[fn] {
		if g, isGo := s.(*ssa.Go); isGo {
			gs, ok = append(gs, g), true
			continue
		}
		up, o := c.own(s.Parent(), depth+1)
		if !o {
			return nil, false
		}
		gs, ok = append(gs, up...), true
	}
	return gs, ok
}

// ---- waits -----------------------------------------------------------------

func init() {
	register(&propDef{
		ID:    "C19",
		Title: "Every wait of a node has an end",
		Rule: "Every select that may block (outside the benchmark programs) has a case that ends the wait without help of another node: a timer, a context with a time limit, or, for a goroutine of its own, a channel that the function that started and awaits it closes on every path to its return (for one nobody awaits: a channel that is closed somewhere); and on no path from such a case does the function come back to the same select (path-sensitive dataflow). " +
			"A channel that ends the wait of one goroutine and is closed by another is closed on every path through that one. On no path is a channel closed twice, or sent to after it was closed. A bare receive is from a channel that every goroutine started with it sends to or closes on every path, or from the signals of the process. " +
			"A bare send is to a channel made with room for all sends there can be (a constant, counted over all goroutines; or the length of the collection whose loop sends at most once a round), to one the starting function receives from on every path, or to one of the listed queues that are drained (checked to be buffered). Every stream opened and peer connected uses a context with a time limit; every read from a stream, other than of a whole frame (C17), is reached only with a limit a fixed time ahead set without error for that stream. A loop around a sleep is left in answer to a closed channel.",
		Assume: []string{"the queue of outgoing messages is drained (C26)", "who joins a group is reported once per peer (C15)"},
		Run:    runWaits,
	})
}

// queues that are not made where they are sent to, and why a send ends.
var drained = map[string]string{
	"common.TssCommon.broadcastChannel": "drained until the node stops (C26)",
	"p2p.PeerStatus.notify":             "made with room for all peers, one notice at most",
	"p2p.PeerStatus.newFound":           "made with room for all peers, one notice per peer",
	"keysign.Notifier.resp":             "made with room for the one answer",
}

func runWaits(w *World, r *Report) {
	c := newConc(w)
	wayOut := map[ssa.Instruction]map[int]bool{} // select -> cases that end it
	endedBy := map[string][]*ssa.Go{}            // channels whose closing ends a goroutine that its starter awaits
	for _, fn := range c.fns {
		r.Fns[fname(fn)] = true
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Select:
				if !x.Blocking {
					// left when a closed channel is seen
					for k, st := range x.States {
						if st.Dir == types.RecvOnly && all(c.origins(st.Chan), func(o string) bool { return len(c.closed[o]) > 0 }) {
							if wayOut[in] == nil {
								wayOut[in] = map[int]bool{}
							}
							wayOut[in][k] = true
							gs, _ := c.own(fn, 0)
							for _, g := range gs {
								for _, o := range c.originsFor(g, st.Chan) {
									endedBy[o] = append(endedBy[o], g)
								}
							}
						}
					}
					return
				}
				r.Anchor("select", in)
				outs := map[int]bool{}
				timed := false
				gs, own := c.own(fn, 0)
				for k, st := range x.States {
					if st.Dir != types.RecvOnly {
						continue
					}
					os := c.origins(st.Chan)
					if all(os, func(o string) bool { return o == "timer" || o == "limit" }) {
						outs[k], timed = true, true
					}
				}
				if !timed {
					for k, st := range x.States {
						if st.Dir != types.RecvOnly || !own {
							continue
						}
						if all(c.origins(st.Chan), func(o string) bool { return len(c.closed[o]) > 0 }) {
							outs[k] = true
							for _, g := range gs {
								for _, o := range c.originsFor(g, st.Chan) {
									endedBy[o] = append(endedBy[o], g)
								}
							}
						}
					}
				}
				r.Ob(in, len(outs) > 0, "a wait without a time limit or an end")
				wayOut[in] = outs
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					c.receive(r, fn, x)
				}
			case *ssa.Send:
				c.send(r, fn, x)
			case ssa.CallInstruction:
				c.network(r, x)
			}
		})
	}
	c.paths(r, wayOut)
	c.ends(r, endedBy)
	c.sleeps(r, wayOut)
	c.reads(r)
	r.Need("select", 8)
	r.Need("channel closed", 6)
	r.Need("network operation", 2)
}

// network: opening a stream or connection is limited in time.
func (c *conc) network(r *Report, ci ssa.CallInstruction) {
	cc := ci.Common()
	n := callName(cc)
	if !strings.HasSuffix(n, "Host.NewStream") && !strings.HasSuffix(n, "Host.Connect") && !strings.HasSuffix(n, "ping.Ping") && n != "net/http.Server.Shutdown" {
		return
	}
	_, args := callArgs(cc)
	if len(args) == 0 {
		return
	}
	out := map[string]bool{}
	c.ctxOrig(args[0], out, map[ssa.Value]bool{})
	r.Anchor("network operation", ci)
	ok := len(out) > 0
	for o := range out {
		ok = ok && o == "limit"
	}
	r.Ob(ci, ok, "a network operation without a time limit")
}

// readsFrom: the stream an instruction waits for data of, other than as a
// whole frame.
func readsFrom(in ssa.Instruction) ssa.Value {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		if cc.Method.Name() == "Read" && tname(cc.Value.Type()) == tStream {
			return cc.Value
		}
		return nil
	}
	n := callName(cc)
	if !strings.HasPrefix(n, "io.") && !strings.HasPrefix(n, "io/ioutil.") && !strings.HasPrefix(n, "bufio.NewReader") && !strings.HasPrefix(n, "encoding/json.NewDecoder") {
		return nil
	}
	for _, a := range cc.Args {
		switch x := a.(type) {
		case *ssa.ChangeInterface:
			a = x.X
		case *ssa.MakeInterface:
			a = x.X
		}
		if tname(a.Type()) == tStream {
			return a
		}
	}
	return nil
}

// reads: data of a peer is waited for only after a time limit was set for the
// stream (the frames: C17).
func (c *conc) reads(r *Report) {
	frame := map[*ssa.Function]bool{}
	if rd := c.w.Fn(readFrame); rd != nil {
		e := NewEngine(c.w, &Hooks{Interesting: func(in ssa.Instruction) bool { return readsFrom(in) != nil }})
		e.Run(rd, nil)
		for fn := range e.Fns {
			frame[fn] = true
		}
	}
	id := func(e *Engine, s *State, v ssa.Value) string {
		x, o := e.Resolve(s, s.ctx, v)
		return fmt.Sprintf("dl.%p@%d", o, x.ID)
	}
	isLimit := func(in ssa.Instruction) *ssa.Call {
		k, ok := in.(*ssa.Call)
		if !ok || !k.Call.IsInvoke() || tname(k.Call.Value.Type()) != tStream {
			return nil
		}
		if n := k.Call.Method.Name(); n != "SetReadDeadline" && n != "SetDeadline" {
			return nil
		}
		return k
	}
	h := &Hooks{Track: func(v ssa.Value) bool { return tname(v.Type()) == tStream || v.Type().String() == "error" }}
	h.NoInline = func(fn *ssa.Function) bool { return fname(fn) == readFrame }
	h.Interesting = func(in ssa.Instruction) bool { return readsFrom(in) != nil || isLimit(in) != nil }
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if k := isLimit(in); k != nil {
			ok := ""
			if soonTime(c.w, s.ctx, k.Call.Args[0]) {
				ok = "1"
			}
			at := id(e, s, k.Call.Value)
			return e.ForkErr(s, k, -1, []string{at, ok}, []string{at, ""})
		}
		if v := readsFrom(in); v != nil {
			e.Ob(s, in, s.Get(id(e, s, v)) == "1", "data of a peer is waited for without a time limit")
		}
		return nil
	}
	sink := func(fn *ssa.Function, in ssa.Instruction) bool { return readsFrom(in) != nil && !frame[fn] }
	runEntries(c.w, r, h, sink, func(fn *ssa.Function) bool { return fname(fn) == readFrame })
}

// threads: the functions that run side by side with the one that makes a
// channel: itself and the goroutines it starts.
type thread struct {
	fn   *ssa.Function
	site *ssa.Go // nil: the function itself
	loop bool
}

func (c *conc) threads(fn *ssa.Function) []thread {
	out := []thread{{fn: fn}}
	seen := map[*ssa.Function]bool{fn: true}
	var visit func(f *ssa.Function, loop bool)
	visit = func(f *ssa.Function, loop bool) {
		eachInstr(f, func(in ssa.Instruction) {
			lp := loop || reachesBlock(in.Block(), in.Block())
			if g, ok := in.(*ssa.Go); ok {
				if t := g.Call.StaticCallee(); t != nil && c.w.IsRepo(t) && len(t.Blocks) > 0 {
					out = append(out, thread{t, g, lp})
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				t := mc.Fn.(*ssa.Function)
				if !seen[t] {
					seen[t] = true
					visit(t, lp || c.handed(mc))
				}
			}
		})
	}
	visit(fn, false)
	return out
}

// handed: a library that is handed the closure may call it any number of times.
func (c *conc) handed(mc *ssa.MakeClosure) bool {
	for _, u := range *mc.Referrers() {
		call, ok := u.(*ssa.Call)
		if !ok || call.Call.Value == ssa.Value(mc) {
			continue
		}
		if f := call.Call.StaticCallee(); f != nil && (c.w.IsRepo(f) || fname(f) == "sync.Once.Do") {
			continue
		}
		return true
	}
	return false
}

// count: the least and largest number of times a path through fn does what
// pred says (at most 9); entering what it calls, not what it starts.
func (c *conc) count(fn *ssa.Function, pred func(in ssa.Instruction) bool) (lo, hi int) {
	h := &Hooks{SkipGo: true, Interesting: func(in ssa.Instruction) bool { return pred(in) }}
	lo, hi = 99, 0
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if pred(in) && !registers(s, in) {
			n := 0
			fmt.Sscan(s.Get("n"), &n)
			if n < 9 {
				n++
			}
			return []Outcome{{S: s.With("n", fmt.Sprint(n))}}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		n := 0
		fmt.Sscan(s.Get("n"), &n)
		if n < lo {
			lo = n
		}
		if n > hi {
			hi = n
		}
	}
	e := NewEngine(c.w, h)
	e.Run(fn, nil)
	if lo == 99 {
		lo = 0
	}
	return
}

// registers: in only defers what it does.
func registers(s *State, in ssa.Instruction) bool {
	_, d := in.(*ssa.Defer)
	return d && s.A["@defer"] != "1"
}

func (c *conc) on(o string, v ssa.Value) bool {
	for _, x := range c.origins(v) {
		if x == o {
			return true
		}
	}
	return false
}

func (c *conc) sendsTo(o string) func(in ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Send)
		return ok && c.on(o, s.Chan)
	}
}

// receive: a bare receive.
func (c *conc) receive(r *Report, fn *ssa.Function, x *ssa.UnOp) {
	r.Anchor("bare receive", x)
	for _, o := range c.origins(x.X) {
		switch {
		case o == "timer" || o == "limit":
			r.Ob(x, true, "")
		case c.made[o] != nil:
			m := c.made[o]
			if c.notified(m) {
				r.Ob(x, true, "")
				continue
			}
			n, ok := 0, true
			for _, t := range c.threads(m.Parent()) {
				if t.site == nil {
					continue
				}
				pred := func(in ssa.Instruction) bool {
					if ch := closes(in); ch != nil {
						return c.on(o, ch)
					}
					return c.sendsTo(o)(in)
				}
				if !c.mentions(t.fn, pred) {
					continue
				}
				n++
				lo, _ := c.count(t.fn, pred)
				ok = ok && lo >= 1
			}
			if n == 0 {
				ok = c.after(m.Parent(), m, func(in ssa.Instruction) bool { ch := closes(in); return ch != nil && c.on(o, ch) }, nil)
			}
			r.Ob(x, ok, "a wait for a channel that may never be sent to or closed")
		default:
			_, own := c.own(fn, 0)
			r.Ob(x, len(c.closed[o]) > 0 && own, "a wait for a channel that may never be sent to or closed")
		}
	}
}

// mentions: fn, or a function it calls, does what pred says.
func (c *conc) mentions(fn *ssa.Function, pred func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !c.w.IsRepo(f) {
			return false
		}
		seen[f] = true
		found := false
		eachInstr(f, func(in ssa.Instruction) {
			if pred(in) {
				found = true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, isGo := in.(*ssa.Go); !isGo {
					found = walk(ci.Common().StaticCallee()) || found
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				found = walk(mc.Fn.(*ssa.Function)) || found
			}
		})
		return found
	}
	return walk(fn)
}

// notified: the channel gets the signals of the process.
func (c *conc) notified(m *ssa.MakeChan) bool {
	found := false
	eachInstr(m.Parent(), func(in ssa.Instruction) {
		if cc := isCall(in, "os/signal.Notify"); cc != nil && len(cc.Args) > 0 && c.on(fmt.Sprintf("make:%p", m), cc.Args[0]) {
			found = true
		}
	})
	return found
}

// send: a bare send.
func (c *conc) send(r *Report, fn *ssa.Function, x *ssa.Send) {
	r.Anchor("bare send", x)
	for _, o := range c.origins(x.Chan) {
		m := c.made[o]
		if m == nil {
			f := strings.TrimPrefix(o, "field:")
			if drained[f] != "" {
				r.Ob(x, c.fieldRoom(f), "a send to a queue without room")
				continue
			}
			r.Ob(x, false, "a send that nobody may take: "+strings.TrimLeft(f, "?"))
			continue
		}
		if k, ok := m.Size.(*ssa.Const); ok && k.Value != nil && k.Int64() > 0 {
			total := 0
			for _, t := range c.threads(m.Parent()) {
				if !c.mentions(t.fn, c.sendsTo(o)) {
					continue
				}
				_, hi := c.count(t.fn, c.sendsTo(o))
				if t.loop {
					hi *= 9
				}
				total += hi
			}
			r.Ob(x, total <= int(k.Int64()), fmt.Sprintf("more sends (%d) than the channel has room for (%d)", total, k.Int64()))
			continue
		}
		if !isNilSize(m.Size) {
			r.Ob(x, c.perRound(x, m, o), "more sends than the channel has room for")
			continue
		}
		// unbuffered: received from on every path after the goroutine is started
		ok := false
		for _, t := range c.threads(m.Parent()) {
			if t.site != nil && !t.loop && c.mentions(t.fn, c.sendsTo(o)) {
				_, hi := c.count(t.fn, c.sendsTo(o))
				lo, _ := c.count(m.Parent(), func(in ssa.Instruction) bool {
					u, ok := in.(*ssa.UnOp)
					return ok && u.Op == token.ARROW && c.on(o, u.X)
				})
				ok = hi <= 1 && lo >= 1
			}
		}
		r.Ob(x, ok, "a send that nobody may take")
	}
}

func isNilSize(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && (k.Value == nil || k.Int64() == 0)
}

// fieldRoom: every channel put into the field is made with room.
func (c *conc) fieldRoom(f string) bool {
	n, ok := 0, true
	for _, fn := range c.fns {
		eachInstr(fn, func(in ssa.Instruction) {
			if fl, st := storeField(in); st != nil && fl == f {
				for _, o := range c.origins(st.Val) {
					m := c.made[o]
					if m == nil {
						continue // given from outside
					}
					n++
					if isNilSize(m.Size) {
						ok = false
					}
					if _, isC := m.Size.(*ssa.Const); !isC {
						t := c.w.T(c.w.Root(m.Parent()), m.Size)
						if t.Op != "len" && !strings.HasPrefix(t.String(), "len(") {
							ok = false
						}
					} else if strings.HasPrefix(f, "p2p.PeerStatus.") {
						ok = false
					}
				}
			}
		})
	}
	return ok && (n > 0 || f == "common.TssCommon.broadcastChannel")
}

// perRound: a channel as long as a collection gets at most one message in each
// round of a loop over it.
func (c *conc) perRound(x *ssa.Send, m *ssa.MakeChan, o string) bool {
	root := c.w.Root(m.Parent())
	size := c.w.T(root, m.Size).String()
	sites := map[ssa.Instruction]bool{}
	for _, t := range c.threads(m.Parent()) {
		if !c.mentions(t.fn, c.sendsTo(o)) {
			continue
		}
		if t.site != nil {
			if _, hi := c.count(t.fn, c.sendsTo(o)); hi > 1 {
				return false
			}
			sites[t.site] = true
			continue
		}
		ok := true
		eachInstr(t.fn, func(in ssa.Instruction) {
			if c.sendsTo(o)(in) {
				sites[in] = true
			}
			if ci, isC := in.(*ssa.Call); isC {
				if f := ci.Call.StaticCallee(); f != nil && c.mentions(f, c.sendsTo(o)) {
					if _, hi := c.count(f, c.sendsTo(o)); hi > 1 {
						ok = false
					}
					sites[in] = true
				}
			}
		})
		if !ok {
			return false
		}
	}
	var head *ssa.BasicBlock
	var bs []*ssa.BasicBlock
	for in := range sites {
		b := in.Block()
		if b.Parent() != m.Parent() {
			return false
		}
		h := innermost(b)
		if h == nil || head != nil && h != head {
			return false
		}
		head = h
		bs = append(bs, b)
		coll, _, ok := ssa.Value(nil), false, false
		for _, i := range h.Instrs {
			if cl, e, k := loopHeader(i); k {
				coll, ok = cl, true
				_ = e
			}
		}
		if !ok || "len("+c.w.T(root, coll).String()+")" != size && !sameLen(c.w, root, m.Size, coll) {
			return false
		}
	}
	// no two of them in one round
	for i, a := range bs {
		for j, b := range bs {
			if i != j && (a == b || reachesAvoiding(a, b, head)) {
				return false
			}
		}
	}
	return len(bs) > 0
}

func sameLen(w *World, root *Ctx, size, coll ssa.Value) bool {
	c, ok := size.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && w.T(root, c.Call.Args[0]).String() == w.T(root, coll).String()
}

// innermost loop header around b.
func innermost(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && (p == b || reachesAvoiding(b, p, h) || b == h) {
				return h
			}
		}
	}
	return nil
}

func reachesAvoiding(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == avoid {
				continue
			}
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if dfs(s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(from)
}

// paths: no path closes a channel twice, sends to a closed one, or comes back
// to a wait after it has ended.
func (c *conc) paths(r *Report, wayOut map[ssa.Instruction]map[int]bool) {
	w := c.w
	inter := func(in ssa.Instruction) bool { return closes(in) != nil }
	for _, fn := range c.fns {
		if !hasInstr(fn, func(in ssa.Instruction) bool {
			_, sel := in.(*ssa.Select)
			_, snd := in.(*ssa.Send)
			return sel || snd || closes(in) != nil
		}) {
			continue
		}
		h := &Hooks{SkipGo: true, Interesting: inter}
		h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
			if sel.Parent() != fn {
				return s
			}
			key := fmt.Sprintf("end:%p", sel)
			e.Ob(s, sel, s.Get(key) == "", "the function waits again after its wait has ended")
			if k >= 0 && wayOut[sel][k] {
				return s.With(key, "1")
			}
			return s
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			switch x := in.(type) {
			case *ssa.MakeChan:
				return []Outcome{{S: s.With(fmt.Sprintf("cl:make:%p", x), "")}}
			case *ssa.Send:
				for _, o := range c.origins(x.Chan) {
					e.Ob(s, in, s.Get("cl:"+o) == "", "a send to a channel that has been closed")
				}
			}
			if ch := closes(in); ch != nil && !registers(s, in) {
				e.Hit("channel closed", in)
				n := s
				for _, o := range c.origins(ch) {
					if o == "field:common.TssCommon.taskDone" && in.Parent() != fn {
						continue // closed once for all messages: C32
					}
					e.Ob(s, in, s.Get("cl:"+o) == "", "a channel is closed that has been closed before")
					n = n.With("cl:"+o, "1")
				}
				return []Outcome{{S: n}}
			}
			return nil
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	}
	// a channel is closed by one of the functions that run side by side only
	for o, ins := range c.closed {
		m := c.made[o]
		if m == nil {
			continue
		}
		n := 0
		var last ssa.Instruction
		for _, t := range c.threads(m.Parent()) {
			p := func(in ssa.Instruction) bool { ch := closes(in); return ch != nil && c.on(o, ch) }
			if c.mentions(t.fn, p) && !(t.site == nil && !c.direct(t.fn, p)) {
				n++
				if t.loop {
					n++
				}
				last = ins[0]
			}
		}
		if last != nil {
			r.Ob(last, n <= 1, "a channel is closed by more than one goroutine")
		}
	}
}

// direct: fn does it itself or in a function it calls, closures that it only
// starts as goroutines aside.
func (c *conc) direct(fn *ssa.Function, pred func(in ssa.Instruction) bool) bool {
	_, hi := c.count(fn, pred)
	return hi > 0
}

// ends: what ends the wait of a goroutine happens on every path.
func (c *conc) ends(r *Report, endedBy map[string][]*ssa.Go) {
	for o, gs := range endedBy {
		pred := func(in ssa.Instruction) bool { ch := closes(in); return ch != nil && c.on(o, ch) }
		for _, g := range gs {
			fn := g.Parent()
			r.Anchor("goroutine with an end", g)
			var closers []thread
			for _, t := range c.threads(fn) {
				if t.site != g && c.mentions(t.fn, pred) && (t.site != nil || c.direct(fn, pred)) {
					closers = append(closers, t)
				}
			}
			if len(closers) == 0 {
				// a goroutine of the node: ended from elsewhere, not awaited
				r.Ob(g, c.made[o] == nil && !c.awaits(fn), "a goroutine that nothing ends is waited for")
				continue
			}
			ok := false
			for _, t := range closers {
				if t.site != nil {
					lo, _ := c.count(t.fn, pred)
					ok = ok || lo >= 1
					continue
				}
				ok = ok || c.after(fn, g, pred, c.waitsFor(g))
			}
			r.Ob(g, ok, "a goroutine is started whose end is not signalled on every path")
		}
	}
}

// awaits: fn waits for a group of its own.
func (c *conc) awaits(fn *ssa.Function) bool {
	return hasInstr(fn, func(in ssa.Instruction) bool {
		cc := isCall(in, "sync.WaitGroup.Wait")
		if cc == nil {
			return false
		}
		rc, _ := callArgs(cc)
		_, isField := rc.(*ssa.FieldAddr)
		return !isField
	})
}

// waitsFor: instructions that wait for the goroutine to end.
func (c *conc) waitsFor(g *ssa.Go) func(in ssa.Instruction) bool {
	j := &join{conc: c}
	s := j.start(g, g)
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || s == nil {
			return false
		}
		_, isGo := in.(*ssa.Go)
		return !isGo && j.waits(ci.Common(), s, "")
	}
}

// after: every path from g to the end of fn, and to what must come later, does
// what pred says.
func (c *conc) after(fn *ssa.Function, g ssa.Instruction, pred func(in ssa.Instruction) bool, before func(in ssa.Instruction) bool) bool {
	h := &Hooks{SkipGo: true, Interesting: pred}
	ok := true
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if in == g {
			return []Outcome{{S: s.With("go", "1")}}
		}
		if pred(in) && !registers(s, in) {
			return []Outcome{{S: s.With("go", "")}}
		}
		if before != nil && before(in) && !registers(s, in) && s.Get("go") != "" {
			ok = false
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) { ok = ok && s.Get("go") == "" }
	e := NewEngine(c.w, h)
	e.Run(fn, nil)
	return ok
}

// sleeps: a loop that sleeps also looks at a channel that ends it.
func (c *conc) sleeps(r *Report, wayOut map[ssa.Instruction]map[int]bool) {
	for _, fn := range c.fns {
		eachInstr(fn, func(in ssa.Instruction) {
			if isCall(in, "time.Sleep") == nil {
				return
			}
			b := in.Block()
			h := innermost(b)
			if h == nil {
				return
			}
			r.Anchor("sleeping loop", in)
			ok := false
			for _, i := range h.Instrs {
				if _, _, k := loopHeader(i); k {
					ok = true
				}
				if bo, isB := i.(*ssa.BinOp); isB {
					_, cx := bo.X.(*ssa.Phi)
					_, cy := bo.Y.(*ssa.Const)
					ok = ok || cx && cy
				}
			}
			for s, outs := range wayOut {
				if s.Parent() == fn && len(outs) > 0 && reachesBlock(s.Block(), b) && (reachesBlock(b, s.Block())) {
					ok = true
				}
			}
			r.Ob(in, ok, "a loop sleeps that nothing ends")
		})
	}
}
