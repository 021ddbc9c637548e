package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tStream    = libNet + ".Stream"
	readFrame  = "p2p.ReadStreamWithBuffer"
	writeFrame = "p2p.WriteStreamWithBuffer"
	maxFrame   = 20000000
)

func init() {
	register(&propDef{
		ID:    "C17",
		Title: "Every frame on the wire is whole, bounded and in time",
		Rule: "Path-sensitive dataflow over the frame reader and writer. Reader: every read from the stream comes after a read deadline was set without error (unless deadlines are switched off); it reads a header of exactly four bytes in full, decodes it as a little-endian length, allocates a buffer of that length only where the length was compared and found at most 20000000, fills it in full from the same source, and returns without error only that buffer after all of this succeeded. " +
			"Writer: after the write deadline was set, it writes the four-byte little-endian length of the given message, then the message, flushes, and returns without error only if everything succeeded. No other code writes to a stream, and other reads fill a buffer of fixed size.",
		Assume: []string{"io.ReadFull, bufio and the deadlines of the stream do what their documentation says"},
		Run:    runC17,
	})
	register(&propDef{
		ID:    "C26",
		Title: "A message is sent to each addressed peer, once, and to nobody else",
		Rule: "Path-sensitive interprocedural dataflow. The loop over BroadcastMsgChan hands each message it takes, as JSON, with its own peers and message ID, to Broadcast before it takes the next, unless encoding fails, and ends only when the component is stopped. Broadcast and the two broadcasts of the signature notifier open, for every element of the given list that is not the own host ID, one stream to that element with their own protocol and a bounded context, and write the given message to it; they do not return before the loop came to its end, and a failure for one peer neither ends the loop nor the context of another peer. " +
			"The notification carries the given message ID, status Success exactly if signatures are given, and the encodings of all given signatures in their order. A signing node that has produced the signatures broadcasts them to all key holders under the session ID before it answers; a failed one tells them of the failure.",
		Run: runC26,
	})
	register(&propDef{
		ID:    "C30",
		Title: "An incoming message reaches only the session it is for, with its true sender",
		Rule: "Path-sensitive interprocedural dataflow from the stream handlers. A message is put only into the channel that is registered for the message type and message ID decoded, without error, from the bytes just read in full, into a variable that held nothing; it carries exactly these bytes and the remote peer of the connection the stream belongs to; and it is put there whenever such a channel exists. " +
			"The registry keeps one channel per type and message ID: subscribing sets exactly that entry, cancelling deletes exactly that entry and drops a type only when none is left for it, looking up reads exactly that entry. Each session subscribes its own channel for all of its message types under its own session ID before it forms the party.",
		Run: runC30,
	})
}

// bufKey names the memory behind a byte slice: two full slices of one array
// are the same buffer.
func (e *Engine) bufKey(s *State, v ssa.Value) string {
	c, o := e.Resolve(s, s.ctx, v)
	if sl, ok := o.(*ssa.Slice); ok {
		if _, isArr := deref(sl.X.Type()).Underlying().(*types.Array); isArr {
			c, o = e.w.origin(c, sl.X)
			return fmt.Sprintf("%p@%d", o, c.ID)
		}
		if sl.Low == nil && sl.High == nil {
			return e.w.idxKey(c, sl.X)
		}
	}
	return fmt.Sprintf("%p@%d", o, c.ID)
}

// bufLen: the constant size of a buffer, -1 if it has none.
func (e *Engine) bufLen(s *State, v ssa.Value) int64 {
	_, o := e.Resolve(s, s.ctx, v)
	switch x := o.(type) {
	case *ssa.Slice:
		if x.High != nil {
			if k, ok := x.High.(*ssa.Const); ok {
				return k.Int64()
			}
			return -1
		}
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && x.Low == nil {
			return a.Len()
		}
	case *ssa.MakeSlice:
		if k, ok := x.Len.(*ssa.Const); ok {
			return k.Int64()
		}
	}
	return -1
}

// ioBase: the stream a reader or writer built on it leads to, and the name of
// the outermost buffering object.
func (e *Engine) ioBase(s *State, v ssa.Value) (name string, buffered bool, base ssa.Value) {
	c, o := e.Resolve(s, s.ctx, v)
	name = fmt.Sprintf("%p@%d", o, c.ID)
	for i := 0; i < 5; i++ {
		call, ok := o.(*ssa.Call)
		if !ok {
			return name, buffered, o
		}
		switch callName(&call.Call) {
		case "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewWriter", "bufio.NewWriterSize":
			buffered = true
		case "io.LimitReader":
			c, o = e.Resolve(s, c, call.Call.Args[0])
			name = fmt.Sprintf("%p@%d", o, c.ID)
			continue
		default:
			return name, buffered, o
		}
		c, o = e.Resolve(s, c, call.Call.Args[0])
	}
	return name, buffered, o
}

// soonTime: a fixed time from now.
func soonTime(w *World, ctx *Ctx, v ssa.Value) bool {
	c, ok := func() (*ssa.Call, bool) { _, o := w.origin(ctx, v); c, ok := o.(*ssa.Call); return c, ok }()
	if !ok || callName(&c.Call) != "time.Time.Add" {
		return false
	}
	t := w.T(ctx, c.Call.Args[0])
	k, isK := c.Call.Args[1].(*ssa.Const)
	return t.calls("time.Now") && isK && k.Value != nil && constant.Sign(k.Value) > 0
}

func runC17(w *World, r *Report) {
	rd, wr := w.Fn(readFrame), w.Fn(writeFrame)
	if !r.ObGlobal(rd != nil && wr != nil, "the frame reader and the frame writer exist") {
		return
	}
	applies := func(in ssa.Instruction) *ssa.UnOp {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		g, ok := u.X.(*ssa.Global)
		if !ok || g.Name() != "ApplyDeadline" {
			return nil
		}
		return u
	}
	soon := soonTime
	deadline := func(e *Engine, s *State, in ssa.Instruction, which string) []Outcome {
		if u := applies(in); u != nil {
			e.Hit("deadline switch", in)
			return e.Fork(s, u, nil, []string{"dl", "off"})
		}
		c, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		switch callName(&c.Call) {
		case tStream + "." + which, tStream + ".SetDeadline":
			_, a := callArgs(&c.Call)
			good := soon(w, s.ctx, a[0])
			e.Hit(which, in)
			e.Ob(s, in, good, "the deadline is not a fixed time from now")
			return e.ForkErr(s, c, -1, []string{"dl", "1"}, []string{"dl", "bad"})
		}
		return nil
	}
	fail := []string{"fail", "1"}
	// ---- reader
	{
		stream := ssa.Value(rd.Params[0])
		header := func(s *State, e *Engine, v ssa.Value) bool { // v is the decoded length
			_, o := e.Resolve(s, s.ctx, v)
			c, ok := o.(*ssa.Call)
			if ok && callName(&c.Call) == "encoding/binary.littleEndian.Uint32" {
				return s.Get("hdr") != "" && e.bufKey(s, c.Call.Args[len(c.Call.Args)-1]) == s.Get("hdr")
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				return s.Get("hdr") != "" && w.decoded(s.ctx, u.X) == s.Get("hdr")
			}
			return false
		}
		h := &Hooks{Track: func(v ssa.Value) bool { return true }}
		h.Interesting = func(in ssa.Instruction) bool {
			if applies(in) != nil {
				return true
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := callName(ci.Common())
			return strings.HasPrefix(n, "io.Read") || strings.HasPrefix(n, tStream+".") || strings.HasPrefix(n, "encoding/binary.")
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if o := deadline(e, s, in, "SetReadDeadline"); o != nil {
				return o
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				for k, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if !header(s, e, p[0]) {
						continue
					}
					kc, ok := p[1].(*ssa.Const)
					if !ok || kc.Value == nil {
						continue
					}
					lim, ok := constant.Int64Val(constant.ToInt(kc.Value))
					if !ok {
						continue
					}
					op := x.Op
					if k == 1 {
						op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
					}
					within, exceeds := []string{"lim", "1"}, []string{"lim", "0"}
					switch {
					case op == token.GTR && lim == maxFrame, op == token.GEQ && lim == maxFrame+1:
						e.Hit("length limited", in)
						return e.Fork(s, x, exceeds, within)
					case op == token.LEQ && lim == maxFrame, op == token.LSS && lim == maxFrame+1:
						e.Hit("length limited", in)
						return e.Fork(s, x, within, exceeds)
					}
				}
			case *ssa.MakeSlice:
				if w.T(s.ctx, x.Len).calls("Uint32") || header(s, e, x.Len) {
					e.Hit("payload allocated", in)
					e.Ob(s, in, s.Get("lim") == "1", "memory for the payload is allocated before its length was found within the limit")
				}
			case *ssa.Call:
				n := callName(&x.Call)
				var src, buf ssa.Value
				switch n {
				case "io.ReadFull":
					src, buf = x.Call.Args[0], x.Call.Args[1]
				case "io.ReadAtLeast":
					src, buf = x.Call.Args[0], x.Call.Args[1]
					good := lenArg(x.Call.Args[2]) != nil && e.bufKey(s, lenArg(x.Call.Args[2])) == e.bufKey(s, buf)
					e.Ob(s, in, good, "a part of the frame may be missing")
				case "encoding/binary.Read":
					name, _, base := e.ioBase(s, x.Call.Args[0])
					e.Ob(s, in, base == stream, "the frame is read from something else than the stream")
					e.Ob(s, in, s.Get("dl") == "1" || s.Get("dl") == "off", "the stream is read without a deadline")
					e.Ob(s, in, strings.Contains(w.T(s.ctx, x.Call.Args[1]).String(), "littleEndian") || strings.Contains(w.T(s.ctx, x.Call.Args[1]).String(), "LittleEndian"), "the length is not decoded as little-endian")
					e.Hit("header read", in)
					return e.ForkErr(s, x, -1, []string{"hdr", w.decoded(s.ctx, x.Call.Args[2]), "src", name}, fail)
				default:
					if (strings.HasPrefix(n, "io.Read") || strings.HasPrefix(n, "io/ioutil.Read")) || n == tStream+".Read" || n == "bufio.Reader.Read" {
						e.Ob(s, in, false, "a part of the frame may be missing")
					}
					return nil
				}
				name, _, base := e.ioBase(s, src)
				e.Ob(s, in, base == stream, "the frame is read from something else than the stream")
				e.Ob(s, in, s.Get("dl") == "1" || s.Get("dl") == "off", "the stream is read without a deadline")
				e.Ob(s, in, s.Get("fail") == "", "reading goes on after a failure")
				if s.Get("hdr") == "" {
					e.Hit("header read", in)
					e.Ob(s, in, e.bufLen(s, buf) == 4, "the header is not four bytes long")
					return e.ForkErr(s, x, errIdx(x), []string{"hdr", e.bufKey(s, buf), "src", name}, fail)
				}
				e.Hit("payload read", in)
				e.Ob(s, in, s.Get("src") == name, "header and payload are read through different buffers")
				_, o := e.Resolve(s, s.ctx, buf)
				mkS, ok := o.(*ssa.MakeSlice)
				e.Ob(s, in, ok && s.Get("pay") == "" && s.Get("lim") == "1" && w.T(s.ctx, mkS.Len).calls("Uint32") || ok && header(s, e, mkS.Len), "the payload is not as long as the header says")
				return e.ForkErr(s, x, errIdx(x), []string{"pay", e.bufKey(s, buf)}, fail)
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if e.Eval(s, rt.Results[1]) == aNonNil {
				return
			}
			e.Hit("frame returned", rt)
			if _, o := e.Resolve(s, s.ctx, rt.Results[1]); s.Get("dl") == "bad" {
				if c, ok := o.(*ssa.Call); ok && callName(&c.Call) == tStream+".Reset" {
					return
				}
			}
			e.Ob(s, rt, s.Get("fail") == "" && s.Get("lim") == "1" && s.Get("pay") != "", "the reader succeeds although the frame was not read whole")
			e.Ob(s, rt, e.bufKey(s, rt.Results[0]) == s.Get("pay"), "the reader returns something else than the payload")
		}
		e := NewEngine(w, h)
		e.Run(rd, nil)
		r.Merge(e)
	}
	// ---- writer
	{
		var msg, stream ssa.Value
		for _, p := range wr.Params {
			if tname(p.Type()) == tStream {
				stream = p
			} else {
				msg = p
			}
		}
		isLen := func(e *Engine, s *State, v ssa.Value) bool {
			_, o := e.Resolve(s, s.ctx, v)
			a := lenArg(o)
			if a == nil {
				return false
			}
			_, ao := e.Resolve(s, s.ctx, a)
			return ao == msg
		}
		// what a write puts on the wire: "h" header, "m" message
		content := func(e *Engine, s *State, v ssa.Value) string {
			var one func(ctx *Ctx, v ssa.Value, d int) string
			one = func(ctx *Ctx, v ssa.Value, d int) string {
				c, o := e.Resolve(s, ctx, v)
				if d > 6 {
					return "?"
				}
				if o == msg {
					return "m"
				}
				s2 := s
				if c != s.ctx {
					s2 = s.clone()
					s2.ctx = c
				}
				if k := s.Get("hdr"); k != "" && e.bufKey(s2, o) == k {
					if e.bufLen(s2, o) == 4 {
						return "h"
					}
					if s.Get("cp") == k {
						return "hm"
					}
					return "?"
				}
				if call, ok := o.(*ssa.Call); ok {
					n := callName(&call.Call)
					if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						return one(c, call.Call.Args[0], d+1) + one(c, call.Call.Args[1], d+1)
					}
					if n == "encoding/binary.littleEndian.AppendUint32" && len(call.Call.Args) >= 2 && isLen(e, s2, call.Call.Args[len(call.Call.Args)-1]) {
						return one(c, call.Call.Args[len(call.Call.Args)-2], d+1) + "h"
					}
				}
				if k, ok := o.(*ssa.Const); ok && k.IsNil() {
					return ""
				}
				if e.bufLen(s2, o) == 0 {
					return ""
				}
				return "?"
			}
			return one(s.ctx, v, 0)
		}
		h := &Hooks{Track: func(v ssa.Value) bool { return true }}
		h.Interesting = func(in ssa.Instruction) bool {
			if applies(in) != nil {
				return true
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := callName(ci.Common())
			return strings.HasPrefix(n, "bufio.Writer.") || strings.HasPrefix(n, tStream+".") || strings.HasPrefix(n, "encoding/binary.")
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if o := deadline(e, s, in, "SetWriteDeadline"); o != nil {
				return o
			}
			x, ok := in.(*ssa.Call)
			if !ok {
				return nil
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
				_, o := e.Resolve(s, s.ctx, x.Call.Args[1])
				if d, isS := x.Call.Args[0].(*ssa.Slice); isS && o == msg && d.Low != nil && d.High == nil {
					if k, ok := d.Low.(*ssa.Const); ok && k.Int64() == 4 {
						return []Outcome{{S: s.With("cp", w.idxKey(s.ctx, d.X))}}
					}
				}
				return nil
			}
			n := callName(&x.Call)
			write := func(dst ssa.Value, what string) []Outcome {
				name, buffered, base := e.ioBase(s, dst)
				e.Hit("frame written", in)
				e.Ob(s, in, base == stream, "the frame is written to something else than the stream")
				e.Ob(s, in, s.Get("dl") == "1" || s.Get("dl") == "off", "the stream is written without a deadline")
				e.Ob(s, in, s.Get("fail") == "", "writing goes on after a failure")
				e.Ob(s, in, s.Get("dst") == "" || s.Get("dst") == name, "header and payload are written through different buffers")
				out := s.Get("out") + what
				e.Ob(s, in, strings.HasPrefix("hm", out), "what is written is not the length of the message followed by the message")
				fl := ""
				if buffered {
					fl = "1"
				}
				return e.ForkErr(s, x, errIdx(x), []string{"out", out, "dst", name, "dirty", fl}, fail)
			}
			switch n {
			case "encoding/binary.littleEndian.PutUint32":
				a := x.Call.Args
				if isLen(e, s, a[len(a)-1]) {
					e.Hit("length encoded", in)
					return []Outcome{{S: s.With("hdr", e.bufKey(s, a[len(a)-2]))}}
				}
			case "encoding/binary.littleEndian.AppendUint32":
				e.Hit("length encoded", in)
			case "encoding/binary.Write":
				good := strings.Contains(strings.ToLower(w.T(s.ctx, x.Call.Args[1]).String()), "littleendian") && isLen(e, s, x.Call.Args[2])
				e.Hit("length encoded", in)
				if good {
					return write(x.Call.Args[0], "h")
				}
				return write(x.Call.Args[0], "?")
			case "bufio.Writer.Write", tStream + ".Write":
				rcv, a := callArgs(&x.Call)
				return write(rcv, content(e, s, a[0]))
			case "bufio.Writer.WriteString", "bufio.Writer.WriteByte", "io.WriteString", "io.Copy":
				return write(x.Call.Args[0], "?")
			case "bufio.Writer.Flush":
				e.Hit("frame flushed", in)
				return e.ForkErr(s, x, -1, []string{"dirty", ""}, fail)
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if e.Eval(s, rt.Results[0]) == aNonNil {
				return
			}
			e.Hit("writer succeeds", rt)
			if _, o := e.Resolve(s, s.ctx, rt.Results[0]); s.Get("dl") == "bad" {
				if c, ok := o.(*ssa.Call); ok && callName(&c.Call) == tStream+".Reset" {
					return
				}
			}
			e.Ob(s, rt, s.Get("fail") == "" && s.Get("out") == "hm" && s.Get("dirty") == "", "the writer succeeds although the frame was not written whole")
		}
		e := NewEngine(w, h)
		e.Run(wr, nil)
		r.Merge(e)
	}
	for _, n := range []string{"deadline switch", "SetReadDeadline", "SetWriteDeadline", "length limited", "payload allocated", "header read", "payload read", "frame returned", "length encoded", "frame written", "writer succeeds"} {
		r.Need(n, 1)
	}
	// deadlines stay on, and nobody else touches the bytes of a stream
	inFrame := map[*ssa.Function]bool{}
	var mark func(fn *ssa.Function)
	mark = func(fn *ssa.Function) {
		if inFrame[fn] || !w.IsRepo(fn) {
			return
		}
		inFrame[fn] = true
		eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil {
					mark(f)
				}
			}
		})
	}
	mark(rd)
	mark(wr)
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok && g.Name() == "ApplyDeadline" {
					k, isK := st.Val.(*ssa.Const)
					r.Ob(in, isK && k.Value != nil && constant.BoolVal(k.Value), "deadlines are switched off outside of tests")
				}
			}
			if inFrame[fn] {
				return
			}
			if ci, ok := in.(*ssa.ChangeInterface); ok && tname(ci.X.Type()) == tStream {
				switch tname(ci.Type()) {
				case "io.Reader", "io.Writer", "io.ReadWriter", "io.ReadWriteCloser", "io.ReadCloser", "io.WriteCloser":
					r.Ob(in, false, "a stream is read or written other than in frames")
				}
			}
			if cc := isCall(in, tStream+".Write"); cc != nil {
				r.Ob(in, false, "a stream is read or written other than in frames")
			}
			if cc := isCall(in, tStream+".Read"); cc != nil {
				_, a := callArgs(cc)
				_, o := w.origin(w.Root(fn), a[0])
				good := false
				switch x := o.(type) {
				case *ssa.Slice:
					ar, ok := deref(x.X.Type()).Underlying().(*types.Array)
					good = ok && ar.Len() <= maxFrame
				case *ssa.MakeSlice:
					k, ok := x.Len.(*ssa.Const)
					good = ok && k.Int64() <= maxFrame
				}
				r.Anchor("acknowledgement read", in)
				r.Ob(in, good, "a stream is read into a buffer of no fixed size")
			}
		})
	}
	g := w.deadlineInit()
	r.ObGlobal(g, "deadlines are applied by default")
}

// deadlineInit: the package initialiser sets ApplyDeadline.
func (w *World) deadlineInit() bool {
	for _, p := range w.Pkgs {
		if pkgShort(p.Pkg) != "p2p" {
			continue
		}
		init := p.Func("init")
		ok := false
		if init != nil {
			eachInstr(init, func(in ssa.Instruction) {
				if st, isSt := in.(*ssa.Store); isSt {
					if g, isG := st.Addr.(*ssa.Global); isG && g.Name() == "ApplyDeadline" {
						k, isK := st.Val.(*ssa.Const)
						ok = isK && k.Value != nil && constant.BoolVal(k.Value)
					}
				}
			})
		}
		return ok
	}
	return false
}

// ---------------------------------------------------------------- C26

const tPeer = libPeer + ".ID"

// selfID: v is the identity of the local host.
func (w *World) selfID(ctx *Ctx, v ssa.Value) bool {
	return tname(v.Type()) == tPeer && w.T(ctx, v).every(func(t *Term) bool { return t.Op == "call" && strings.HasSuffix(t.Name, "host.Host.ID") })
}

// bounded: the context was made with a time limit.
func (w *World) bounded(ctx *Ctx, v ssa.Value) bool {
	t := w.T(ctx, v)
	return t.calls("context.WithTimeout") || t.calls("context.WithDeadline")
}

// withLimit: a call that makes a context which can be ended early.
func withLimit(in ssa.Instruction) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if ok {
		switch callName(&c.Call) {
		case "context.WithCancel", "context.WithTimeout", "context.WithDeadline":
			return c
		}
	}
	return nil
}

// endedAtEnd: the function that made a context is the only one to end it, and
// not within a loop.
func endedAtEnd(mk *ssa.Call) bool {
	ok := true
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		if v == nil || v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Defer:
				ok = ok && !reachesBlock(x.Block(), x.Block())
			case *ssa.Call:
				ok = ok && x.Call.Value == v && !reachesBlock(x.Block(), x.Block())
			case *ssa.ChangeType:
				uses(x)
			case *ssa.Store:
				if x.Val == v {
					uses(x.Addr)
				}
			case *ssa.UnOp:
				uses(x)
			case *ssa.MakeClosure:
				for _, w := range *x.Referrers() {
					if _, d := w.(*ssa.Defer); !d {
						ok = false
					}
				}
			case *ssa.DebugRef:
			default:
				ok = false
			}
		}
	}
	for _, u := range *mk.Referrers() {
		if x, isX := u.(*ssa.Extract); isX && x.Index == 1 {
			uses(x)
		}
	}
	return ok
}

// shared: the context of one peer is, or hangs on, one for several peers that
// may be ended on account of one of them.
func (e *Engine) shared(s *State, v ssa.Value, elem string) bool {
	c := s.ctx
	for i := 0; i < 10; i++ {
		c, v = e.Resolve(s, c, v)
		ex, ok := v.(*ssa.Extract)
		if ok {
			v = ex.Tuple
		}
		call, ok := v.(*ssa.Call)
		if !ok || !strings.HasPrefix(callName(&call.Call), "context.With") {
			return false
		}
		if withLimit(call) != nil && s.Get(fmt.Sprintf("mk.%p", call)) != elem && !endedAtEnd(call) {
			return true
		}
		v = call.Call.Args[0]
	}
	return false
}

type fanSpec struct {
	fn    *ssa.Function
	list  *ssa.Parameter
	proto string
	// msg tells whether what is written is the message of this broadcast
	msg   func(e *Engine, s *State, v ssa.Value) bool
	extra func(e *Engine, s *State, in ssa.Instruction) []Outcome
	also  func(in ssa.Instruction) bool
}

// fanout decides that fn sends one message to every peer of a list.
func fanout(w *World, r *Report, f *fanSpec) {
	peers := &Each{Atom: "peers", w: w, Coll: func(ctx *Ctx, v ssa.Value) bool {
		_, o := w.origin(ctx, v)
		return o == ssa.Value(f.list)
	}}
	newStream := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if ok && strings.HasSuffix(callName(&c.Call), "host.Host.NewStream") {
			return c
		}
		return nil
	}
	elem := func(e *Engine, s *State, v ssa.Value) bool {
		c, v := w.viaField(s.ctx, v)
		coll, k := w.elemRef(c, v, tPeer)
		if coll.v == nil || k == "" {
			return false
		}
		_, o := w.origin(coll.ctx, coll.v)
		return o == ssa.Value(f.list) && k == s.Get("peers.i")
	}
	h := &Hooks{Track: func(v ssa.Value) bool { return true }}
	h.NoInline = func(fn *ssa.Function) bool { return fname(fn) == writeFrame || fname(fn) == readFrame }
	h.Interesting = func(in ssa.Instruction) bool {
		return newStream(in) != nil || withLimit(in) != nil || isCall(in, writeFrame) != nil || f.also != nil && f.also(in)
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if o := peers.On(e, s, in, "a peer of the list is left out"); o != nil {
			for i := range o {
				for _, k := range []string{"self", "st", "given", "id", "status", "body", "note", "buf", "sigs.on", "sigs.p", "sigs.all", "sigs.i"} {
					o[i].S = o[i].S.With(k, "")
				}
			}
			return o
		}
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && tname(b.X.Type()) == tPeer {
			if w.selfID(s.ctx, b.X) && elem(e, s, b.Y) || w.selfID(s.ctx, b.Y) && elem(e, s, b.X) {
				e.Hit("own ID skipped", in)
				if self := s.Get("self"); self == "1"+s.Get("peers.i") || self == "0"+s.Get("peers.i") {
					return e.Decide(s, b, (self[0] == '1') == (b.Op == token.EQL))
				}
				me, notMe := []string{"self", "1" + s.Get("peers.i"), "peers.p", ""}, []string{"self", "0" + s.Get("peers.i")}
				if b.Op == token.EQL {
					return e.Fork(s, b, me, notMe)
				}
				return e.Fork(s, b, notMe, me)
			}
		}
		if c := withLimit(in); c != nil {
			return []Outcome{{S: s.With(fmt.Sprintf("mk.%p", c), s.Get("peers.i"))}}
		}
		if c := newStream(in); c != nil {
			e.Hit("stream opened", in)
			_, a := callArgs(&c.Call)
			good := len(a) >= 3 && elem(e, s, a[1])
			e.Ob(s, in, good, "a stream is opened to somebody else than the peer at hand")
			e.Ob(s, in, s.Get("peers.p") != "" || !good, "a peer is sent the message a second time")
			e.Ob(s, in, s.Get("self") == "0"+s.Get("peers.i"), "the node sends the message to itself")
			p := w.protocols(s.ctx, a[2])
			e.Ob(s, in, len(p) == 1 && p[0] == f.proto, "the stream is opened with another protocol")
			e.Ob(s, in, w.bounded(s.ctx, a[0]), "opening a stream is not limited in time")
			e.Ob(s, in, !e.shared(s, a[0], s.Get("peers.i")), "opening a stream to one peer is given up on account of another one")
			outs := e.ForkErr(s, c, errIdx(c), []string{"st", fmt.Sprintf("%p", c)}, []string{"st", "", "peers.p", ""})
			e.SetVal(outs[0].S, c, 0, aNonNil)
			return outs
		}
		if cc := isCall(in, writeFrame); cc != nil {
			e.Hit("message sent", in)
			_, o := e.Resolve(s, s.ctx, cc.Args[1])
			ex, ok := o.(*ssa.Extract)
			e.Ob(s, in, ok && s.Get("st") != "" && s.Get("st") == fmt.Sprintf("%p", ex.Tuple), "the message is written to another stream than the one opened for the peer")
			e.Ob(s, in, f.msg(e, s, cc.Args[0]), "what is sent is not the message to be broadcast")
			n := s.With("peers.p", "", "st", "")
			if c, ok := in.(*ssa.Call); ok {
				return e.ForkErr(n, c, -1, nil, nil)
			}
			return []Outcome{{S: n}}
		}
		if f.extra != nil {
			return f.extra(e, s, in)
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		for _, v := range rt.Results {
			if v.Type().String() == "error" && e.Eval(s, v) == aNonNil {
				return
			}
		}
		e.Hit("broadcast ends", rt)
		e.Ob(s, rt, s.Get("peers.all") == "1", "the broadcast ends before every peer was served")
	}
	e := NewEngine(w, h)
	e.Run(f.fn, nil)
	r.Merge(e)
	for fn := range e.Fns {
		loopCapture(w, r, fn)
	}
}

// loopCapture: goroutines started in a loop do not use a variable that the
// loop assigns again.
func loopCapture(w *World, r *Report, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			mcl, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for i, bd := range mcl.Bindings {
				al, ok := bd.(*ssa.Alloc)
				if !ok || !reachesBlock(b, b) {
					continue
				}
				if reachesBlock(al.Block(), al.Block()) && inSameLoop(al.Block(), b) {
					continue // a fresh variable in every iteration
				}
				again := false
				for _, st := range storesTo(al) {
					if st.Parent() == fn && st.Block() != al.Block() && reachesBlock(st.Block(), b) && reachesBlock(b, st.Block()) {
						again = true
					}
				}
				read := false
				cl := mcl.Fn.(*ssa.Function)
				for _, rr := range *cl.FreeVars[i].Referrers() {
					if u, ok := rr.(*ssa.UnOp); ok && u.Op == token.MUL {
						read = true
					}
				}
				r.Ob(in, !(again && read), "a goroutine started in a loop uses a variable of the loop that the next iteration changes")
			}
		}
	}
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if dfs(s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(from)
}

func inSameLoop(a, b *ssa.BasicBlock) bool { return a == b || reachesBlock(a, b) && reachesBlock(b, a) }

func runC26(w *World, r *Report) {
	// the queue
	const tQ = "messages.BroadcastMsgChan"
	const bc = "p2p.Communication.Broadcast"
	start := w.Fn("p2p.Communication.Start")
	if !r.ObGlobal(start != nil, "the network component can be started") {
		return
	}
	wrapped := func(t *Term) bool { return t.isField(tQ + ".WrappedMessage") }
	h := &Hooks{}
	isStop := func(ch ssa.Value) bool { return strings.HasSuffix(addrField(ch), "Communication.stopChan") }
	h.Interesting = func(in ssa.Instruction) bool { return recvInstr(in, tQ) || isCall(in, bc) != nil }
	h.NoInline = func(fn *ssa.Function) bool { return fname(fn) == bc }
	h.Track = func(v ssa.Value) bool { return tname(deref(v.Type())) == tQ }
	took := func(e *Engine, s *State, at ssa.Instruction) *State {
		e.Hit("message taken", at)
		e.Ob(s, at, s.Get("got") == "", "a message taken from the queue is dropped")
		return s.With("got", "1", "loop", "1")
	}
	h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if recvOf(sel, k, tQ) {
			return took(e, s, sel)
		}
		if k >= 0 && sel.States[k].Dir == types.RecvOnly && isStop(sel.States[k].Chan) {
			e.Hit("queue stopped", sel)
			return s.With("stop", "1", "loop", "1")
		}
		return s
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if _, isSel := in.(*ssa.Select); !isSel && recvInstr(in, tQ) {
			return []Outcome{{S: took(e, s, in)}}
		}
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && isStop(u.X) {
			return []Outcome{{S: s.With("stop", "1")}}
		}
		c, ok := in.(*ssa.Call)
		if !ok {
			if g, isGo := in.(*ssa.Go); isGo && callName(&g.Call) == bc {
				e.Ob(s, in, false, "messages are broadcast in no particular order")
			}
			return nil
		}
		if callName(&c.Call) == "encoding/json.Marshal" && w.T(s.ctx, c.Call.Args[0]).some(wrapped) {
			return e.ForkErr(s, c, errIdx(c), []string{"enc", w.tupleKey(s.ctx, c)}, []string{"got", ""})
		}
		if callName(&c.Call) == bc {
			e.Hit("message broadcast", in)
			a := c.Call.Args[1:]
			e.Ob(s, in, w.T(s.ctx, a[0]).every(func(t *Term) bool { return t.isField(tQ + ".PeersID") }), "a message is broadcast to other peers than its own")
			e.Ob(s, in, s.Get("enc") != "" && w.idxKey(s.ctx, a[1]) == s.Get("enc"), "what is broadcast is not the JSON of the message")
			mid := w.T(s.ctx, a[2])
			e.Ob(s, in, mid.every(func(t *Term) bool { return t.isField("messages.WrappedMessage.MsgID") }), "a message is broadcast under another message ID than its own")
			e.Ob(s, in, s.Get("got") == "1", "a message is broadcast twice")
			return []Outcome{{S: s.With("got", "", "enc", "")}}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if e.Eval(s, rt.Results[0]) == aNonNil {
			return
		}
		e.Ob(s, rt, s.Get("loop") == "1", "the component is started without serving its queue")
		e.Ob(s, rt, s.Get("stop") == "1", "the queue is no longer served although the component is not stopped")
		e.Ob(s, rt, s.Get("got") == "", "a message taken from the queue is dropped")
	}
	e := NewEngine(w, h)
	e.Run(start, nil)
	r.Merge(e)
	for _, fn := range w.Funcs {
		if !isMockFile(w, fn) && hasInstr(fn, func(in ssa.Instruction) bool { return recvInstr(in, tQ) }) {
			r.ObFn(fn, e.Fns[fn], "construct reached by the analysis")
		}
	}
	for _, n := range []string{"message taken", "queue stopped", "message broadcast"} {
		r.Need(n, 1)
	}
	// the broadcast itself
	if fn := w.Fn(bc); r.ObGlobal(fn != nil && len(fn.Params) == 4, "the broadcast to peers exists") {
		fanout(w, r, &fanSpec{fn: fn, list: fn.Params[1], proto: "/p2p/tss",
			msg: func(e *Engine, s *State, v ssa.Value) bool {
				_, o := e.Resolve(s, s.ctx, v)
				return o == ssa.Value(fn.Params[2])
			}})
	}
	notify(w, r)
	for _, n := range []string{"own ID skipped", "stream opened", "message sent", "broadcast ends", "loop over peers"} {
		r.Need(n, 2)
	}
	handOut(w, r)
}

const tNote = "messages.KeysignSignature"

// notify: the two broadcasts of the signature notifier.
func notify(w *World, r *Report) {
	for _, name := range []string{"BroadcastSignature", "BroadcastFailed"} {
		fn := w.Fn("keysign.SignatureNotifier." + name)
		if !r.ObGlobal(fn != nil, "the method "+name+" exists") {
			continue
		}
		var list, sigs *ssa.Parameter
		id := fn.Params[1]
		for _, p := range fn.Params[1:] {
			switch sliceElem(p.Type()) {
			case tPeer:
				list = p
			case tECSig:
				sigs = p
			}
		}
		ok := name == "BroadcastSignature"
		isSigs := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) bool {
			if !isSigList(v) {
				return false
			}
			_, o := w.viaField(ctx, v)
			return o == ssa.Value(sigs)
		}
		if sigs == nil {
			isSigs = func(e *Engine, s *State, ctx *Ctx, v ssa.Value) bool { return isSigList(v) }
		}
		each := &Each{Atom: "sigs", w: w, Coll: func(ctx *Ctx, v ssa.Value) bool { return isSigs(nil, nil, ctx, v) }}
		marshal := func(in ssa.Instruction) (*ssa.Call, ssa.Value) {
			c, isC := in.(*ssa.Call)
			if !isC || !strings.HasSuffix(callName(&c.Call), "proto.Marshal") {
				return nil, nil
			}
			a := c.Call.Args[0]
			for {
				switch x := a.(type) {
				case *ssa.MakeInterface:
					a = x.X
					continue
				case *ssa.ChangeInterface:
					a = x.X
					continue
				case *ssa.Call: // protoV2 wrappers
					if len(x.Call.Args) == 1 {
						a = x.Call.Args[0]
						continue
					}
				}
				break
			}
			return c, a
		}
		f := &fanSpec{fn: fn, list: list, proto: "/p2p/signatureNotifier"}
		f.also = func(in ssa.Instruction) bool {
			c, _ := marshal(in)
			return c != nil
		}
		f.msg = func(e *Engine, s *State, v ssa.Value) bool {
			c, o := e.Resolve(s, s.ctx, v)
			return s.Get("note") != "" && w.idxKey(c, o) == s.Get("note")
		}
		f.extra = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if o := each.On(e, s, in, "a signature is left out of the notification"); o != nil {
				return o
			}
			if b, isB := in.(*ssa.BinOp); isB && (b.Op == token.EQL || b.Op == token.NEQ) {
				for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if k, isK := p[1].(*ssa.Const); isK && k.IsNil() && isSigs(e, s, s.ctx, p[0]) {
						if ok {
							if b.Op == token.EQL {
								return e.Fork(s, b, []string{"given", "0"}, []string{"given", "1"})
							}
							return e.Fork(s, b, []string{"given", "1"}, []string{"given", "0"})
						}
						return e.Decide(s, b, b.Op == token.EQL)
					}
				}
			}
			if fld, st := storeField(in); st != nil {
				switch fld {
				case tNote + ".ID":
					_, o := w.viaField(s.ctx, st.Val)
					e.Ob(s, in, o == ssa.Value(id), "the notification names another session")
					return []Outcome{{S: s.With("id", "1")}}
				case tNote + ".KeysignStatus":
					return []Outcome{{S: s.With("status", strings.TrimPrefix(string(e.Eval(s, st.Val)), "c:"))}}
				case tNote + ".Signatures":
					return []Outcome{{S: s.With("body", "1")}}
				}
			}
			// an encoded signature joins the list
			if c, a := marshal(in); c != nil {
				switch tname(deref(a.Type())) {
				case tECSig:
					coll, k := w.elemRef(s.ctx, a, tECSig)
					if coll.v == nil || k == "" {
						coll, k = w.elemRef(s.ctx, a, "*"+tECSig)
					}
					good := k != "" && k == s.Get("sigs.i")
					e.Hit("signature encoded", in)
					e.Ob(s, in, good, "what is encoded is not the signature at hand")
					return e.ForkErr(s, c, errIdx(c), []string{"buf", w.tupleKey(s.ctx, c)}, []string{"peers.p", ""})
				case tNote:
					e.Hit("notification encoded", in)
					e.Ob(s, in, s.Get("id") == "1", "the notification names no session")
					given := s.Get("given") == "1"
					if ok {
						e.Ob(s, in, s.Get("given") != "" || s.Get("status") == "1", "the status does not depend on the signatures")
					}
					if given || ok && s.Get("given") == "" {
						e.Ob(s, in, s.Get("status") == "1", "signatures are sent as a failure")
						e.Ob(s, in, s.Get("body") == "1" && s.Get("sigs.all") == "1" && s.Get("sigs.p") == "", "the notification does not carry every signature")
					} else {
						e.Ob(s, in, s.Get("status") == "2" || s.Get("status") == "0", "a failure is sent as a success")
					}
					return e.ForkErr(s, c, errIdx(c), []string{"note", w.tupleKey(s.ctx, c), "given", "", "id", "", "status", "", "body", "", "sigs.all", ""}, []string{"peers.p", ""})
				}
			}
			if st, isSt := in.(*ssa.Store); isSt && s.Get("buf") != "" && w.idxKey(s.ctx, st.Val) == s.Get("buf") {
				if ia, isI := st.Addr.(*ssa.IndexAddr); isI {
					_, isArr := deref(ia.X.Type()).Underlying().(*types.Array)
					if isArr || w.idxKey(s.ctx, ia.Index) == s.Get("sigs.i") {
						return []Outcome{{S: s.With("sigs.p", "", "buf", "")}}
					}
				}
			}
			return nil
		}
		fanout(w, r, f)
	}
	r.Need("notification encoded", 1)
	r.Need("signature encoded", 1)
}

// handOut: a node that signed hands its signatures to all key holders.
func handOut(w *World, r *Report) {
	const (
		sign = "keysign.TssKeySign.SignMessage"
		good = "keysign.SignatureNotifier.BroadcastSignature"
		bad  = "keysign.SignatureNotifier.BroadcastFailed"
	)
	h := &Hooks{Track: func(v ssa.Value) bool {
		return isSigList(v) || sliceElem(v.Type()) == tPeer || v.Type().String() == "error" || v.Type().String() == "string"
	}}
	h.Interesting = func(in ssa.Instruction) bool { return isCall(in, sign, good, bad, subscribe) != nil }
	h.NoInline = func(fn *ssa.Function) bool {
		n := fname(fn)
		return n == sign || n == good || n == bad || n == subscribe
	}
	allHolders := func(e *Engine, s *State, v ssa.Value) bool {
		t := e.RT(s, v)
		return t.mentions("storage.KeygenLocalState.ParticipantKeys") && !t.mentions("SignerPubKeys")
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		cc := callAt(s, in)
		if cc == nil {
			return nil
		}
		_, a := callArgs(cc)
		switch callName(cc) {
		case subscribe:
			return []Outcome{{S: s.With("sid", w.T(s.ctx, a[1]).String())}}
		case sign:
			e.Hit("signing", in)
			c, ok := in.(*ssa.Call)
			if !ok {
				return nil
			}
			return e.ForkErr(s, c, errIdx(c), []string{"sig", w.tupleKey(s.ctx, c)}, []string{"sig", "bad"})
		case good:
			e.Hit("signatures handed out", in)
			c, o := e.Resolve(s, s.ctx, a[1])
			e.Ob(s, in, s.Get("sig") != "" && w.idxKey(c, o) == s.Get("sig"), "what is handed out is not what this node signed")
			e.Ob(s, in, w.sessionID(e, s, a[0]), "the signatures are handed out under another session")
			e.Ob(s, in, allHolders(e, s, a[2]), "the signatures are not handed out to all key holders")
			n := s.With("told", "1")
			if c, ok := in.(*ssa.Call); ok {
				return e.ForkErr(n, c, -1, nil, nil)
			}
			return []Outcome{{S: n}}
		case bad:
			e.Hit("failure told", in)
			e.Ob(s, in, w.sessionID(e, s, a[0]), "the failure is told under another session")
			e.Ob(s, in, allHolders(e, s, a[1]), "the failure is not told to all key holders")
			e.Ob(s, in, s.Get("sig") == "" || s.Get("sig") == "bad", "a success is told as a failure")
			return []Outcome{{S: s.With("told", "bad")}}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		switch s.Get("sig") {
		case "":
		case "bad":
			e.Ob(s, rt, s.Get("told") == "bad", "a failed signing is not told to the key holders")
		default:
			e.Ob(s, rt, s.Get("told") == "1", "signatures are not handed out to the key holders")
		}
	}
	for _, en := range w.tssEntry("KeySign") {
		e := NewEngine(w, h)
		e.Run(en, nil)
		r.Merge(e)
	}
	r.Need("signing", 1)
	r.Need("signatures handed out", 1)
	r.Need("failure told", 1)
}

// sessionID: v is the identifier the session subscribed under.
func (w *World) sessionID(e *Engine, s *State, v ssa.Value) bool {
	return s.Get("sid") != "" && w.T(s.ctx, v).String() == s.Get("sid")
}

const subscribe = "p2p.Communication.SetSubscribe"

// handlersOf: the functions registered for incoming streams, by protocol.
func (w *World) handlersOf() map[*ssa.Function]string {
	out := map[*ssa.Function]string{}
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !strings.HasSuffix(callName(ci.Common()), "host.Host.SetStreamHandler") {
				return
			}
			_, a := callArgs(ci.Common())
			p := w.protocols(w.Root(fn), a[0])
			h := handlerFn(a[1])
			if h != nil && h.Synthetic != "" { // bound method
				eachInstr(h, func(in ssa.Instruction) {
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil {
							h = f
						}
					}
				})
			}
			if h != nil && len(p) == 1 {
				out[h] = p[0]
			}
		})
	}
	return out
}

const (
	tMsg     = "p2p.Message"
	tWrapped = "messages.WrappedMessage"
)

// subMap: which registry a map is: "id" (message ID to channel) or "type"
// (message type to registry of that type).
func subMap(t types.Type) string {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	if ch, ok := m.Elem().Underlying().(*types.Chan); ok && tname(deref(ch.Elem())) == tMsg {
		return "id"
	}
	if tname(m.Key()) == "messages.THORChainTSSMessageType" {
		if st := structOf(m.Elem()); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if subMap(st.Field(i).Type()) == "id" {
					return "type"
				}
			}
		}
	}
	return ""
}

// inDecoded: v is the named field of the variable decoded into.
func (w *World) inDecoded(ctx *Ctx, v ssa.Value, dec, typ, field string) bool {
	c, o := w.origin(ctx, v)
	if dec == "" {
		return false
	}
	switch x := o.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return false
		}
		f, n := structField(fa.X.Type(), fa.Field)
		if n == nil || tname(n) != typ || f != field {
			return false
		}
		bc, bo := w.origin(c, fa.X)
		return w.respVar(bc, bo) == dec || w.idxKey(bc, bo) == dec
	case *ssa.Field:
		f, n := structField(x.X.Type(), x.Field)
		if n == nil || tname(n) != typ || f != field {
			return false
		}
		bc, bo := w.origin(c, x.X)
		return w.respVar(bc, bo) == dec
	}
	return false
}

// remoteOf: v is the remote peer of the connection of the given stream.
func (w *World) remoteOf(ctx *Ctx, v ssa.Value, stream ssa.Value) bool {
	c, o := w.origin(ctx, v)
	call, ok := o.(*ssa.Call)
	if !ok || callName(&call.Call) != libNet+".Conn.RemotePeer" {
		return false
	}
	c, o = w.origin(c, call.Call.Value)
	call, ok = o.(*ssa.Call)
	if !ok || callName(&call.Call) != tStream+".Conn" {
		return false
	}
	_, o = w.origin(c, call.Call.Value)
	return o == stream
}

// lookupOutcomes: a map lookup that finds its entry and one that does not.
func (e *Engine) lookupOutcomes(s *State, lk *ssa.Lookup, found, missing []string) []Outcome {
	y, n := s.With(found...), s.With(missing...)
	if lk.CommaOk {
		e.SetVal(y, lk, 0, aNonNil)
		e.SetVal(y, lk, 1, aTrue)
		e.SetVal(n, lk, 0, aNil)
		e.SetVal(n, lk, 1, aFalse)
	} else {
		e.SetVal(y, lk, -1, aNonNil)
		e.SetVal(n, lk, -1, aNil)
	}
	y.note = e.w.InstrPos(lk) + ": entry found"
	n.note = e.w.InstrPos(lk) + ": no entry"
	return []Outcome{{S: y, Handled: true}, {S: n, Handled: true}}
}

// lookupKey names the entry a lookup gives.
func (e *Engine) lookupKey(ctx *Ctx, lk *ssa.Lookup) string { return fmt.Sprintf("%p@%d", lk, ctx.ID) }

// entryOf: the lookup v comes from.
func (e *Engine) entryOf(s *State, ctx *Ctx, v ssa.Value) string {
	c, o := e.Resolve(s, ctx, v)
	if ex, ok := o.(*ssa.Extract); ok {
		o = ex.Tuple
	}
	return fmt.Sprintf("%p@%d", o, c.ID)
}

func msgSend(in ssa.Instruction, k int) (ch, v ssa.Value) {
	is := func(c ssa.Value) bool {
		t, ok := c.Type().Underlying().(*types.Chan)
		return ok && tname(deref(t.Elem())) == tMsg
	}
	switch x := in.(type) {
	case *ssa.Send:
		if is(x.Chan) {
			return x.Chan, x.X
		}
	case *ssa.Select:
		if k >= 0 && k < len(x.States) && x.States[k].Dir == types.SendOnly && is(x.States[k].Chan) {
			return x.States[k].Chan, x.States[k].Send
		}
	}
	return nil, nil
}

func sendsMsg(in ssa.Instruction) bool {
	if sel, ok := in.(*ssa.Select); ok {
		for k := range sel.States {
			if c, _ := msgSend(sel, k); c != nil {
				return true
			}
		}
	}
	c, _ := msgSend(in, 0)
	return c != nil
}

func runC30(w *World, r *Report) {
	incoming(w, r)
	registry(w, r)
	subscriptions(w, r)
	freshDecode(w, r, func(fn *ssa.Function) bool { return fnPkg(fn).Name() == "p2p" })
}

// incoming: from the stream to the channel of the session.
func incoming(w *World, r *Report) {
	for fn, proto := range w.handlersOf() {
		if proto != "/p2p/tss" {
			continue
		}
		r.Anchor("stream handler", fn.Blocks[0].Instrs[0])
		var stream ssa.Value
		for _, p := range fn.Params {
			if tname(p.Type()) == tStream {
				stream = p
			}
		}
		h := &Hooks{Track: func(v ssa.Value) bool { return true }}
		h.NoInline = func(f *ssa.Function) bool { return fname(f) == readFrame }
		h.Interesting = func(in ssa.Instruction) bool {
			if lk, ok := in.(*ssa.Lookup); ok && subMap(lk.X.Type()) != "" {
				return true
			}
			return sendsMsg(in) || isCall(in, readFrame, "encoding/json.Unmarshal") != nil
		}
		deliver := func(e *Engine, s *State, in ssa.Instruction, ch, v ssa.Value) *State {
			e.Hit("message delivered", in)
			e.Ob(s, in, s.Get("has") == "1" && e.entryOf(s, s.ctx, ch) == s.Get("chan"), "a message is delivered to a channel that was not registered for its type and ID")
			e.Ob(s, in, s.Get("sent") == "", "a message is delivered twice")
			pid := w.fieldPath(ctxVal{s.ctx, v}, "PeerID")
			e.Ob(s, in, len(pid) == 1 && w.remoteOf(pid[0].ctx, pid[0].v, stream), "the sender of a message is not the remote peer of its connection")
			pl := w.fieldPath(ctxVal{s.ctx, v}, "Payload")
			good := len(pl) == 1
			if good {
				c, o := e.Resolve(s, pl[0].ctx, pl[0].v)
				good = w.idxKey(c, o) == s.Get("rd")
			}
			e.Ob(s, in, good, "what is delivered is not what was read")
			return s.With("sent", "1")
		}
		h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
			if ch, v := msgSend(sel, k); ch != nil {
				return deliver(e, s, sel, ch, v)
			}
			if k >= 0 && sel.States[k].Dir == types.RecvOnly && strings.HasSuffix(addrField(sel.States[k].Chan), ".stopChan") {
				return s.With("stop", "1")
			}
			return s
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			switch x := in.(type) {
			case *ssa.Send:
				if ch, v := msgSend(x, 0); ch != nil {
					return []Outcome{{S: deliver(e, s, in, ch, v)}}
				}
			case *ssa.Lookup:
				switch subMap(x.X.Type()) {
				case "type":
					e.Hit("type looked up", in)
					e.Ob(s, in, w.inDecoded(s.ctx, x.Index, s.Get("dec"), tWrapped, "MessageType"), "the registry is searched for another type than that of the message")
					return e.lookupOutcomes(s, x, []string{"reg", e.lookupKey(s.ctx, x)}, []string{"reg", "", "none", "1"})
				case "id":
					e.Hit("message ID looked up", in)
					e.Ob(s, in, w.inDecoded(s.ctx, x.Index, s.Get("dec"), tWrapped, "MsgID"), "the registry is searched for another ID than that of the message")
					base := ssa.Value(nil)
					if u, ok := x.X.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							base = fa.X
						}
					}
					e.Ob(s, in, base != nil && s.Get("reg") != "" && e.entryOf(s, s.ctx, base) == s.Get("reg"), "the ID of the message is searched in the registry of another type")
					return e.lookupOutcomes(s, x, []string{"has", "1", "chan", e.lookupKey(s.ctx, x)}, []string{"none", "1"})
				}
			case *ssa.Call:
				switch callName(&x.Call) {
				case readFrame:
					e.Hit("frame read", in)
					return e.ForkErr(s, x, errIdx(x), []string{"rd", w.tupleKey(s.ctx, x)}, []string{"none", "1"})
				case "encoding/json.Unmarshal":
					e.Hit("message decoded", in)
					c, o := e.Resolve(s, s.ctx, x.Call.Args[0])
					e.Ob(s, in, s.Get("rd") != "" && w.idxKey(c, o) == s.Get("rd"), "what is decoded is not what was read")
					return e.ForkErr(s, x, -1, []string{"dec", w.decoded(s.ctx, x.Call.Args[1])}, []string{"none", "1"})
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if s.Get("rd") == "" || s.Get("stop") == "1" || s.Get("none") == "1" {
				return
			}
			e.Hit("message handled", rt)
			e.Ob(s, rt, s.Get("sent") == "1", "a message for a registered session is not delivered")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		for _, f := range w.Funcs {
			if !isMockFile(w, f) && hasInstr(f, sendsMsg) {
				r.ObFn(f, e.Fns[f], "construct reached by the analysis")
			}
		}
	}
	for _, n := range []string{"stream handler", "frame read", "message decoded", "type looked up", "message ID looked up", "message delivered", "message handled"} {
		r.Need(n, 1)
	}
}

// registry: what subscribing and cancelling do to the two maps.
func registry(w *World, r *Report) {
	for _, name := range []string{"SetSubscribe", "CancelSubscribe"} {
		fn := w.Fn("p2p.Communication." + name)
		if !r.ObGlobal(fn != nil, "the method "+name+" exists") {
			continue
		}
		var topic, id, ch ssa.Value
		for _, p := range fn.Params[1:] {
			switch {
			case tname(p.Type()) == "messages.THORChainTSSMessageType":
				topic = p
			case tname(p.Type()) == "string":
				id = p
			default:
				ch = p
			}
		}
		par := func(e *Engine, s *State, v, p ssa.Value) bool {
			_, o := e.Resolve(s, s.ctx, v)
			return o == p
		}
		owner := func(m ssa.Value) ssa.Value {
			if u, ok := m.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					return fa.X
				}
			}
			return nil
		}
		h := &Hooks{Track: func(v ssa.Value) bool { return true }}
		h.Interesting = func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Lookup:
				return subMap(x.X.Type()) != ""
			case *ssa.MapUpdate:
				return subMap(x.Map.Type()) != ""
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "len") {
					return subMap(x.Common().Args[0].Type()) != ""
				}
			}
			return false
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			switch x := in.(type) {
			case *ssa.Lookup:
				switch subMap(x.X.Type()) {
				case "type":
					e.Ob(s, in, par(e, s, x.Index, topic), "another type is looked up than asked for")
					return e.lookupOutcomes(s, x, []string{"reg", e.lookupKey(s.ctx, x)}, []string{"reg", "", "none", "1"})
				case "id":
					return e.lookupOutcomes(s, x, nil, nil)
				}
			case *ssa.MapUpdate:
				switch subMap(x.Map.Type()) {
				case "type":
					e.Hit("type registered", in)
					e.Ob(s, in, name == "SetSubscribe" && par(e, s, x.Key, topic), "another type is registered than asked for")
					e.Ob(s, in, s.Get("none") == "1" || e.entryOf(s, s.ctx, x.Value) == s.Get("reg"), "registering a session drops the other sessions of its type")
					return []Outcome{{S: s.With("reg", e.entryOf(s, s.ctx, x.Value))}}
				case "id":
					e.Hit("channel registered", in)
					e.Ob(s, in, name == "SetSubscribe" && par(e, s, x.Key, id), "a channel is registered for another message ID than asked for")
					e.Ob(s, in, ch != nil && par(e, s, x.Value, ch), "another channel is registered than asked for")
					o := owner(x.Map)
					n := s.With("set", "1")
					if o != nil {
						n = n.With("obj", e.entryOf(s, s.ctx, o))
					}
					return []Outcome{{S: n}}
				}
			case *ssa.BinOp:
				if m, empty, ok := lenZero(in); ok && subMap(m.Type()) == "id" {
					o := owner(m)
					if o != nil && s.Get("reg") != "" && e.entryOf(s, s.ctx, o) == s.Get("reg") && s.Get("del") == "1" {
						e.Hit("emptiness tested", in)
						if empty {
							return e.Fork(s, x, []string{"empty", "1"}, []string{"empty", "0"})
						}
						return e.Fork(s, x, []string{"empty", "0"}, []string{"empty", "1"})
					}
				}
			}
			if cc := callAt(s, in); cc != nil {
				if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					switch subMap(cc.Args[0].Type()) {
					case "type":
						e.Hit("type dropped", in)
						e.Ob(s, in, par(e, s, cc.Args[1], topic), "another type is dropped than asked for")
						e.Ob(s, in, name == "CancelSubscribe" && s.Get("empty") == "1", "a type is dropped while sessions are registered for it")
						return []Outcome{{S: s.With("drop", "1")}}
					case "id":
						e.Hit("channel cancelled", in)
						o := owner(cc.Args[0])
						e.Ob(s, in, name == "CancelSubscribe" && par(e, s, cc.Args[1], id), "the channel of another session is cancelled")
						e.Ob(s, in, o != nil && s.Get("reg") != "" && e.entryOf(s, s.ctx, o) == s.Get("reg"), "the channel of another type is cancelled")
						return []Outcome{{S: s.With("del", "1")}}
					}
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			e.Hit(name+" returns", rt)
			if name == "SetSubscribe" {
				e.Ob(s, rt, s.Get("set") == "1", "subscribing registers nothing")
				e.Ob(s, rt, s.Get("obj") != "" && s.Get("obj") == s.Get("reg"), "the channel is not registered for the type asked for")
				return
			}
			if s.Get("none") == "1" {
				return
			}
			e.Ob(s, rt, s.Get("del") == "1", "cancelling leaves the channel registered")
			e.Ob(s, rt, s.Get("empty") != "1" || s.Get("drop") == "1", "a type without sessions is kept")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	}
	for _, n := range []string{"type registered", "channel registered", "emptiness tested", "type dropped", "channel cancelled"} {
		r.Need(n, 1)
	}
}

// msgType: the value of a message type constant.
func (w *World) msgType(name string) string {
	if p := w.Pkgs["messages"]; p != nil {
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			return c.Val().ExactString()
		}
	}
	return "?"
}

// subscriptions: a session hears all of its message types before others may
// send to it.
func subscriptions(w *World, r *Report) {
	need := map[string][]string{
		"Keygen":  {"TSSKeyGenMsg", "TSSKeyGenVerMsg", "TSSControlMsg", "TSSTaskDone"},
		"KeySign": {"TSSKeySignMsg", "TSSKeySignVerMsg", "TSSControlMsg", "TSSTaskDone"},
	}
	join := []string{"p2p.PartyCoordinator.JoinPartyWithLeader", "p2p.PartyCoordinator.JoinPartyWithRetry"}
	for op, types := range need {
		fns := w.tssEntry(op)
		if !r.ObGlobal(len(fns) == 1, "the entry point "+op+" exists") {
			continue
		}
		types := types
		h := &Hooks{}
		h.Interesting = func(in ssa.Instruction) bool {
			return isCall(in, append(join, subscribe, "common.NewTssCommon")...) != nil
		}
		h.NoInline = func(f *ssa.Function) bool {
			n := fname(f)
			return n == subscribe || n == join[0] || n == join[1] || n == "common.NewTssCommon"
		}
		h.Track = func(v ssa.Value) bool { return tname(v.Type()) == "messages.THORChainTSSMessageType" }
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			cc := callAt(s, in)
			if cc == nil {
				return nil
			}
			_, a := callArgs(cc)
			switch callName(cc) {
			case "common.NewTssCommon":
				e.Hit("session made", in)
				return []Outcome{{S: s.With("sid", w.T(s.ctx, a[3]).String())}}
			case subscribe:
				e.Hit("session subscribed", in)
				t := strings.TrimPrefix(string(e.Eval(s, a[0])), "c:")
				if c, o := e.Resolve(s, s.ctx, a[0]); t == "" {
					t = w.T(c, o).String()
				}
				e.Ob(s, in, s.Get("sid") != "" && w.T(s.ctx, a[1]).String() == s.Get("sid"), "the session is subscribed under another ID than its own")
				e.Ob(s, in, w.T(s.ctx, a[2]).every(func(t *Term) bool { return t.isField("common.TssCommon.TssMsg") }), "another channel than that of the session is subscribed")
				return []Outcome{{S: s.With("sub"+t, "1")}}
			case join[0], join[1]:
				e.Hit("party formed", in)
				ok := true
				for _, n := range types {
					if s.Get("sub"+w.msgType(n)) != "1" {
						ok = false
					}
				}
				e.Ob(s, in, ok, "the party is formed before the session is subscribed to all of its messages")
				id := a[0]
				e.Ob(s, in, w.T(s.ctx, id).String() == s.Get("sid"), "the party is formed under another ID than that of the session")
			}
			return nil
		}
		e := NewEngine(w, h)
		e.Run(fns[0], nil)
		r.Merge(e)
	}
	r.Need("session made", 1)
	r.Need("session subscribed", 2)
	r.Need("party formed", 1)
}

// Decide gives a boolean instruction a known value.
func (e *Engine) Decide(s *State, v ssa.Value, val bool) []Outcome {
	n := s.clone()
	e.SetVal(n, v, -1, boolA(val))
	return []Outcome{{S: n, Handled: true}}
}

// viaField follows v to its origin, also through the fields of local structs.
func (w *World) viaField(ctx *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	for i := 0; i < 10; i++ {
		ctx, v = w.origin(ctx, v)
		var x ssa.Value
		k := -1
		switch y := v.(type) {
		case *ssa.UnOp:
			if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
				x, k = fa.X, fa.Field
			}
		case *ssa.Field:
			x, k = y.X, y.Field
		}
		if k < 0 {
			return ctx, v
		}
		vs := w.fieldVals(ctx, x, k)
		if len(vs) != 1 || vs[0].v == v {
			return ctx, v
		}
		ctx, v = vs[0].ctx, vs[0].v
	}
	return ctx, v
}

// protocols: the protocol names in a list of protocols (or a single one).
func (w *World) protocols(ctx *Ctx, v ssa.Value) []string {
	var out []string
	one := func(c *Ctx, v ssa.Value) {
		_, o := w.origin(c, v)
		if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			out = append(out, constant.StringVal(k.Value))
			return
		}
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok {
				if k := w.globalConst(g); k != nil && k.Kind() == constant.String {
					out = append(out, constant.StringVal(k))
					return
				}
			}
		}
		out = append(out, "?")
	}
	if _, ok := v.Type().Underlying().(*types.Slice); ok {
		p := w.sliceParts(ctx, v, nil)
		for _, x := range p.Vals {
			one(x.ctx, x.v)
		}
		if len(p.Spread) > 0 || !p.OK {
			out = append(out, "?")
		}
		return out
	}
	one(ctx, v)
	return out
}

// globalConst: the constant a package variable is initialised with, if nothing
// else assigns it.
func (w *World) globalConst(g *ssa.Global) constant.Value {
	var out constant.Value
	n := 0
	for _, fn := range w.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				n++
				if k, ok := st.Val.(*ssa.Const); ok {
					out = k.Value
				}
			}
		})
	}
	if n != 1 {
		return nil
	}
	return out
}
