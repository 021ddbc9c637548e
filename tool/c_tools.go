package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:    "C25",
		Title: "The recovery tool gives away only the pool's key, and only encrypted if exported",
		Rule: "Path-sensitive interprocedural dataflow from the tool's main: wherever a value computed from the reconstructed key (other than its public key) is printed, encrypted or written, the public key computed from it without error was compared equal with the public key of a loaded share, and every key file was read and decoded without error. " +
			"Each share handed to the reconstruction has number and value of the same loaded state, in a list as long as that of the loaded states. The exported file is for the owner only and holds the JSON of the encrypted key. " +
			"The encrypted key records exactly the salt, iteration count, key length and initial vector it was encrypted with, the cipher text of the given key under the derived key, and the MAC over the second half of the derived key and the cipher text; salt and vector are fresh random bytes. The tool stores states under the names the signer uses.",
		Assume: []string{"vss.Shares.ReConstruct, pbkdf2, AES-CTR and Keccak do what their names say"},
		Run:    runC25,
	})
	register(&propDef{
		ID:    "C27",
		Title: "The HTTP interface passes requests and answers through unchanged",
		Rule: "Path-sensitive interprocedural dataflow over every handler that calls the signer: the signer is called at most once, only where the method was found to be POST and the body was decoded without error, with exactly the decoded request. Another method is answered 405 and an undecodable body 400, without content; a failed signing and an answer that cannot be encoded 500, without content; otherwise the JSON of the signer's own answer is written, with no other status. " +
			"The routes lead to the handler of their operation and accept its method only. Starting starts the signer before it listens and fails if that fails; stopping stops both. The default address is on the loopback interface.",
		Run: runC27,
	})
}

// ---------------------------------------------------------------- C27

// isHandler: a function with the signature of an HTTP handler.
func isHandler(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	return ps.Len() == 2 && tname(ps.At(0).Type()) == "net/http.ResponseWriter" && tname(deref(ps.At(1).Type())) == "net/http.Request"
}

func runC27(w *World, r *Report) {
	server := func(in ssa.Instruction) (*ssa.Call, string) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return nil, ""
		}
		n := callName(&c.Call)
		for _, m := range []string{"Keygen", "KeySign", "GetLocalPeerID"} {
			if n == "tss.Server."+m || n == "tss.TssServer."+m {
				return c, m
			}
		}
		return nil, ""
	}
	reaches := map[*ssa.Function]map[string]bool{} // handler -> operations
	var reach func(fn *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool)
	reach = func(fn *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool) {
		if seen[fn] || !w.IsRepo(fn) {
			return
		}
		seen[fn] = true
		eachInstr(fn, func(in ssa.Instruction) {
			if c, m := server(in); c != nil {
				out[m] = true
				return
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil {
					reach(f, seen, out)
				}
			}
		})
		for _, a := range fn.AnonFuncs {
			reach(a, seen, out)
		}
	}
	var handlers []*ssa.Function
	for _, fn := range w.Funcs {
		if isHandler(fn) && fn.Synthetic == "" && !isMockFile(w, fn) && pkgShort(fnPkg(fn)) == "cmd/tss" {
			out := map[string]bool{}
			reach(fn, map[*ssa.Function]bool{}, out)
			reaches[fn] = out
			if out["Keygen"] || out["KeySign"] {
				handlers = append(handlers, fn)
			}
		}
	}
	for _, fn := range handlers {
		handler(w, r, fn, server)
	}
	for _, n := range []string{"signer called: Keygen", "signer called: KeySign", "request decoded", "answer encoded", "answer written", "handler returns", "method checked"} {
		r.Need(n, 1)
	}
	// routes
	want := map[string][2]string{"/keygen": {"Keygen", "POST"}, "/keysign": {"KeySign", "POST"}, "/p2pid": {"GetLocalPeerID", "GET"}, "/ping": {"", "GET"}}
	got := map[string]bool{}
	for _, fn := range w.Funcs {
		if fnPkg(fn) == nil || pkgShort(fnPkg(fn)) != "cmd/tss" {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			n := callName(&c.Call)
			if n != "github.com/gorilla/mux.Router.Handle" && n != "github.com/gorilla/mux.Router.HandleFunc" {
				return
			}
			p, err := strconv.Unquote(w.T(w.Root(fn), c.Call.Args[1]).String())
			if err != nil {
				return
			}
			op, known := want[p]
			if !known {
				return
			}
			got[p] = true
			h := handlerFn(c.Call.Args[2])
			good := h != nil
			if good {
				out := map[string]bool{}
				reach(h, map[*ssa.Function]bool{}, out)
				good = op[0] == "" && len(out) == 0 || len(out) == 1 && out[op[0]]
			}
			r.Ob(in, good, "the route "+p+" does not lead to its operation")
			methods := ""
			for _, ref := range *c.Referrers() {
				if m, ok := ref.(*ssa.Call); ok && callName(&m.Call) == "github.com/gorilla/mux.Route.Methods" {
					methods = w.T(w.Root(fn), m.Call.Args[1]).String()
				}
			}
			r.Ob(in, strings.HasSuffix(methods, `("`+op[1]+`")`), "the route "+p+" accepts other methods than its own")
		})
	}
	for p := range want {
		r.ObGlobal(got[p], "the route "+p+" exists")
	}
	// start and stop
	life := func(name string, f func(fn *ssa.Function)) {
		n := 0
		for _, fn := range w.Funcs {
			if fn.Name() == name && fn.Signature.Recv() != nil && fnPkg(fn) != nil && pkgShort(fnPkg(fn)) == "cmd/tss" && fn.Synthetic == "" && !isMockFile(w, fn) {
				n++
				f(fn)
			}
		}
		r.ObGlobal(n > 0, "the method "+name+" of the HTTP server exists")
	}
	isLife := func(in ssa.Instruction, names ...string) bool { return isCall(in, names...) != nil }
	life("Start", func(fn *ssa.Function) {
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			if b, ok := in.(*ssa.BinOp); ok && closedErr(b) {
				return true
			}
			return isLife(in, "tss.Server.Start", "net/http.Server.ListenAndServe", "net/http.Server.Serve", "errors.Is")
		}}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			// the server ended because it was stopped
			if b, ok := in.(*ssa.BinOp); ok && closedErr(b) {
				if b.Op == token.EQL {
					return e.Fork(s, b, []string{"down", ""}, nil)
				}
				return e.Fork(s, b, nil, []string{"down", ""})
			}
			c, ok := in.(*ssa.Call)
			if !ok {
				return nil
			}
			if callName(&c.Call) == "errors.Is" {
				return e.Fork(s, c, []string{"down", ""}, nil)
			}
			if isLife(in, "tss.Server.Start") {
				e.Hit("signer started", in)
				return e.ForkErr(s, c, errIdx(c), []string{"up", "1"}, []string{"up", "0"})
			}
			if isLife(in, "net/http.Server.ListenAndServe", "net/http.Server.Serve") {
				e.Hit("listening", in)
				e.Ob(s, in, s.Get("up") == "1", "requests are accepted although the signer was not started")
				n := s.With("lis", "1")
				return e.ForkErr(n, c, errIdx(c), nil, []string{"down", "1"})
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if e.Eval(s, rt.Results[0]) == aNonNil {
				return
			}
			e.Ob(s, rt, s.Get("lis") == "1", "starting succeeds although nothing listens")
			e.Ob(s, rt, s.Get("down") == "" || e.Eval(s, rt.Results[0]) != aNil, "the server failed, which is not reported")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	})
	life("Stop", func(fn *ssa.Function) {
		h := &Hooks{Interesting: func(in ssa.Instruction) bool {
			return isLife(in, "tss.Server.Stop", "net/http.Server.Shutdown", "net/http.Server.Close")
		}}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if cc := callAt(s, in); cc != nil {
				switch callName(cc) {
				case "tss.Server.Stop":
					e.Hit("signer stopped", in)
					return []Outcome{{S: s.With("tss", "1")}}
				case "net/http.Server.Shutdown", "net/http.Server.Close":
					e.Hit("listener stopped", in)
					return []Outcome{{S: s.With("http", "1")}}
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			e.Ob(s, rt, s.Get("tss") == "1", "stopping leaves the signer running")
			e.Ob(s, rt, s.Get("http") == "1", "stopping leaves the HTTP listener open")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	})
	for _, n := range []string{"signer started", "listening", "signer stopped", "listener stopped"} {
		r.Need(n, 1)
	}
	// default address
	found := false
	for _, fn := range w.Funcs {
		if fnPkg(fn) == nil || pkgShort(fnPkg(fn)) != "cmd/tss" {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			cc := isCall(in, "flag.StringVar", "flag.String")
			if cc == nil {
				return
			}
			a := cc.Args[len(cc.Args)-3:]
			if k, ok := a[0].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "tss-port" {
				found = true
				d, ok := a[1].(*ssa.Const)
				v := ""
				if ok && d.Value != nil {
					v = constant.StringVal(d.Value)
				}
				r.Ob(in, strings.HasPrefix(v, "127.0.0.1:") || strings.HasPrefix(v, "localhost:"), "by default the HTTP interface listens on other interfaces than the loopback")
			}
		})
	}
	r.ObGlobal(found, "the address of the HTTP interface has a default")
}

// handlerFn: the function behind a handler value.
func handlerFn(v ssa.Value) *ssa.Function {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		case *ssa.Function:
			return x
		case *ssa.Call:
			if len(x.Call.Args) == 0 {
				return nil
			}
			v = x.Call.Args[len(x.Call.Args)-1]
		default:
			return nil
		}
	}
	return nil
}

// closedErr: an error is compared with that of a server that was stopped.
func closedErr(b *ssa.BinOp) bool {
	if b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Name() == "ErrServerClosed" {
				return true
			}
		}
	}
	return false
}

// requestPart: addr lies in a request.
func requestPart(addr ssa.Value) string {
	for i := 0; i < 6; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			if f := addrField(x); strings.HasPrefix(f, "keygen.Request.") || strings.HasPrefix(f, "keysign.Request.") {
				return f
			}
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.UnOp:
			addr = x.X
		default:
			return ""
		}
	}
	return ""
}

func handler(w *World, r *Report, fn *ssa.Function, server func(in ssa.Instruction) (*ssa.Call, string)) {
	isMethod := func(ctx *Ctx, v ssa.Value) bool { return w.T(ctx, v).isField("net/http.Request.Method") }
	h := &Hooks{}
	h.Interesting = func(in ssa.Instruction) bool {
		c, _ := server(in)
		return c != nil || isCall(in, "net/http.ResponseWriter.WriteHeader", "net/http.ResponseWriter.Write", "net/http.Error", "io/ioutil.ReadAll", "io.ReadAll", "encoding/json.Decoder.Decode", "encoding/json.Unmarshal", "encoding/json.Encoder.Encode") != nil
	}
	h.Track = func(v ssa.Value) bool { return true }
	// the answer: which variable or call it is
	answer := func(e *Engine, s *State, v ssa.Value) string {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		c, o := e.Resolve(s, s.ctx, v)
		if mi, ok := o.(*ssa.MakeInterface); ok {
			c, o = e.Resolve(s, c, mi.X)
		}
		return w.idxKey(c, o)
	}
	status := func(e *Engine, s *State, v ssa.Value) string {
		a := string(e.Eval(s, v))
		return strings.TrimPrefix(a, "c:")
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if isMethod(s.ctx, p[0]) && w.T(s.ctx, p[1]).String() == `"POST"` {
					e.Hit("method checked", in)
					if b.Op == token.EQL {
						return e.Fork(s, b, []string{"post", "1"}, []string{"post", "0"})
					}
					return e.Fork(s, b, []string{"post", "0"}, []string{"post", "1"})
				}
			}
			return nil
		}
		if st, ok := in.(*ssa.Store); ok {
			// the request stays as it was decoded
			if f := requestPart(st.Addr); f != "" && s.Get("dec") != "" {
				return []Outcome{{S: s.With("dec", "changed")}}
			}
			return nil
		}
		c, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		if call, m := server(in); call != nil {
			e.Hit("signer called: "+m, in)
			e.Ob(s, in, s.Get("post") == "1", "the signer is called for a request that is not a POST")
			e.Ob(s, in, s.Get("call") == "", "the signer is called twice for a request")
			_, args := callArgs(&c.Call)
			if len(args) != 1 {
				return nil
			}
			rc, ro := e.Resolve(s, s.ctx, args[0])
			d := s.Get("dec")
			same := d != "" && (w.respVar(rc, ro) == d || w.respVar(s.ctx, args[0]) == d)
			e.Ob(s, in, same, "the signer is called with something else than the decoded request")
			k := w.tupleKey(s.ctx, c)
			return e.ForkErr(s, c, errIdx(c), []string{"call", "ok " + k + " " + m}, []string{"call", "err " + k + " " + m})
		}
		switch callName(&c.Call) {
		case "encoding/json.Decoder.Decode", "encoding/json.Unmarshal":
			e.Hit("request decoded", in)
			d := w.decoded(s.ctx, c.Call.Args[len(c.Call.Args)-1])
			return e.ForkErr(s, c, -1, []string{"dec", d}, []string{"dec", "", "bad", "1"})
		case "io/ioutil.ReadAll", "io.ReadAll":
			return e.ForkErr(s, c, errIdx(c), nil, []string{"bad", "1"})
		case "encoding/json.Marshal", "encoding/json.MarshalIndent":
			e.Hit("answer encoded", in)
			k := s.Get("call")
			f := strings.Fields(k)
			good := len(f) == 3 && answer(e, s, c.Call.Args[0]) == f[1]
			e.Ob(s, in, good, "what is encoded is not the answer of the signer")
			return e.ForkErr(s, c, errIdx(c), []string{"enc", w.tupleKey(s.ctx, c)}, []string{"enc", "", "encbad", "1"})
		case "encoding/json.Encoder.Encode":
			e.Hit("answer encoded", in)
			e.Hit("answer written", in)
			f := strings.Fields(s.Get("call"))
			good := len(f) == 3 && answer(e, s, c.Call.Args[1]) == f[1]
			e.Ob(s, in, good && s.Get("out") == "", "what is encoded is not the answer of the signer")
			return []Outcome{{S: s.With("out", "answer")}}
		case "net/http.ResponseWriter.WriteHeader":
			st := status(e, s, c.Call.Args[0])
			e.Ob(s, in, s.Get("st") == "" && s.Get("out") == "", "a second status is written")
			return []Outcome{{S: s.With("st", st)}}
		case "net/http.Error":
			st := status(e, s, c.Call.Args[2])
			e.Ob(s, in, s.Get("st") == "" && s.Get("out") == "", "a second status is written")
			if _, isK := c.Call.Args[1].(*ssa.Const); isK { // an empty or fixed remark
				return []Outcome{{S: s.With("st", st)}}
			}
			return []Outcome{{S: s.With("st", st, "out", "text")}}
		case "net/http.ResponseWriter.Write":
			e.Hit("answer written", in)
			k := answer(e, s, c.Call.Args[0])
			e.Ob(s, in, s.Get("enc") != "" && k == s.Get("enc") && s.Get("out") == "", "what is written is not the encoded answer")
			n := s.With("out", "answer")
			return e.ForkErr(n, c, errIdx(c), nil, nil)
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		e.Hit("handler returns", rt)
		st, out := s.Get("st"), s.Get("out")
		call := s.Get("call")
		switch {
		case s.Get("post") != "1":
			e.Ob(s, rt, st == "405" && out == "", "a request that is not a POST is not answered with 405 alone")
		case s.Get("bad") == "1":
			e.Ob(s, rt, st == "400" && out == "", "a request that cannot be decoded is not answered with 400 alone")
		case strings.HasPrefix(call, "err") && strings.HasSuffix(call, "KeySign"), s.Get("encbad") == "1":
			e.Ob(s, rt, st == "500" && out == "", "a failed request is not answered with 500 alone")
		case call != "":
			e.Ob(s, rt, (st == "" || st == "200") && out == "answer", "the answer of the signer is not written")
		default:
			e.Ob(s, rt, false, "a valid request is not passed to the signer")
		}
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
}

// ---------------------------------------------------------------- C25

func runC25(w *World, r *Report) {
	const pkg = "cmd/tss-recovery"
	fn := w.Fn(pkg + ".main")
	if !r.ObGlobal(fn != nil, "the recovery tool exists") {
		return
	}
	const rec = "github.com/binance-chain/tss-lib/crypto/vss.Shares.ReConstruct"
	pubOnly := func(t *Term) bool { return t.Op == "call" && strings.HasSuffix(t.Name, ".PubKey") }
	// secret: t depends on the reconstructed key other than by its public key
	var secret func(t *Term, d int) bool
	secret = func(t *Term, d int) bool {
		if d > 30 || pubOnly(t) {
			return false
		}
		if t.Op == "call" && strings.HasSuffix(t.Name, "vss.Shares.ReConstruct") {
			return true
		}
		for _, a := range t.Args {
			if secret(a, d+1) {
				return true
			}
		}
		return false
	}
	isPub := func(t *Term) bool { // computed from the public key of the recovered key
		return t.calls(".ReConstruct") && t.calls(".PubKey")
	}
	isPoolKey := func(t *Term) bool { return t.isField(pkg + ".KeygenLocalState.PubKey") }
	states := func(ctx *Ctx, v ssa.Value) bool {
		sl, ok := v.Type().Underlying().(*types.Slice)
		return ok && strings.HasSuffix(tname(sl.Elem()), "KeygenLocalState")
	}
	reading := func(ctx *Ctx, v ssa.Value) bool {
		return tname(v.Type()) == "[]string" && w.T(ctx, v).calls("flag.Args")
	}
	files := &Each{Atom: "files", Coll: reading, w: w}
	shares := &Each{Atom: "shares", Coll: states, w: w}
	h := &Hooks{}
	h.Track = func(v ssa.Value) bool { return true }
	h.Interesting = func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := callName(ci.Common())
		p, _, _ := fileWrite(ci.Common())
		return p != nil || fileRead(ci.Common()) != nil || strings.HasSuffix(n, "Bech32ifyPubKey") || n == "encoding/json.Unmarshal" || strings.HasSuffix(n, ".ReConstruct")
	}
	h.NoInline = func(f *ssa.Function) bool { return f.Name() == "exportKeyStore" }
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if out := files.On(e, s, in, "a key file is skipped"); out != nil {
			return out
		}
		if out := shares.On(e, s, in, "a loaded share is not handed to the reconstruction"); out != nil {
			return out
		}
		if st, ok := in.(*ssa.Store); ok {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && strings.HasSuffix(tname(deref(ia.Type())), "crypto/vss.Share") {
				e.Hit("share listed", in)
				i := w.idxKey(s.ctx, ia.Index)
				good := i == s.Get("shares.i")
				vals := w.shareOf(s.ctx, st.Val)
				for f, want := range map[string]string{"ID": "LocalData.ShareID", "Share": "LocalData.Xi"} {
					v, ok := vals[f]
					if !ok {
						good = false
						continue
					}
					t := w.T(v.ctx, v.v).String()
					_, k := w.elemRef(v.ctx, v.v, pkg+".KeygenLocalState")
					good = good && (strings.HasSuffix(t, "."+want[strings.Index(want, ".")+1:])) && k == i
				}
				e.Ob(s, in, good, "a share is reconstructed with another number or value than those of its own file")
				return []Outcome{{S: s.With("shares.p", "")}}
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && strings.HasSuffix(tname(deref(ia.Type())), "KeygenLocalState") {
				e.Hit("share loaded", in)
				c, o := e.Resolve(s, s.ctx, st.Val)
				e.Ob(s, in, s.Get("dec") != "" && w.respVar(c, o) == s.Get("dec") && w.idxKey(s.ctx, ia.Index) == s.Get("files.i"), "what is loaded is not the decoded content of the key file")
				return []Outcome{{S: s.With("files.p", "", "dec", "")}}
			}
			return nil
		}
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				c, o := e.Resolve(s, s.ctx, p[0])
				if s.Get("pub") != "" && w.idxKey(c, o) == s.Get("pub") && e.RT(s, p[1]).every(isPoolKey) {
					e.Hit("public key compared", in)
					if b.Op == token.EQL {
						return e.Fork(s, b, []string{"ver", "1"}, nil)
					}
					return e.Fork(s, b, nil, []string{"ver", "1"})
				}
			}
			return nil
		}
		c, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		n := callName(&c.Call)
		guard := func(what string) {
			e.Hit("key given away", in)
			e.Ob(s, in, s.Get("ver") == "1", what+" although it was not found to be the pool's")
			e.Ob(s, in, s.Get("files.all") == "1" && s.Get("files.on") == "", what+" before every key file was read")
		}
		switch {
		case fileRead(&c.Call) != nil:
			return e.ForkErr(s, c, errIdx(c), []string{"read", w.tupleKey(s.ctx, c)}, []string{"read", ""})
		case n == "encoding/json.Unmarshal":
			good := s.Get("read") != "" && w.idxKey(s.ctx, c.Call.Args[0]) == s.Get("read")
			e.Ob(s, in, good, "what is decoded is not the content of the key file")
			return e.ForkErr(s, c, -1, []string{"dec", w.decoded(s.ctx, c.Call.Args[1])}, []string{"dec", ""})
		case n == rec || strings.HasSuffix(n, ".ReConstruct"):
			e.Hit("key reconstructed", in)
			e.Ob(s, in, s.Get("shares.all") == "1" && s.Get("shares.on") == "", "the key is reconstructed before every share was listed")
			return e.ForkErr(s, c, errIdx(c), []string{"rec", "1"}, []string{"rec", ""})
		case strings.HasSuffix(n, "Bech32ifyPubKey"):
			good := false
			if v, ok := w.shareOf(s.ctx, c.Call.Args[1])["Key"]; ok {
				good = w.serialized(e, s, v, isPub)
			}
			k := ""
			if good {
				k = w.tupleKey(s.ctx, c)
			}
			return e.ForkErr(s, c, errIdx(c), []string{"pub", k}, []string{"pub", ""})
		case n == pkg+".exportKeyStore":
			guard("the recovered key is exported")
			e.Hit("key encrypted", in)
			t := e.RT(s, c.Call.Args[0])
			e.Ob(s, in, t.Op == "call" && strings.HasSuffix(t.Name, ".Serialize") && secret(t, 0), "what is exported is not the recovered key")
			pw := e.RT(s, c.Call.Args[1])
			e.Ob(s, in, pw.calls("flag.String") && pw.every(func(t *Term) bool {
				whole := true
				t.walk(func(x *Term) bool {
					whole = whole && x.Op != "slice" && x.Op != "bin" && (x.Op != "call" || strings.HasPrefix(x.Name, "flag."))
					return whole
				})
				return whole
			}), "the key is not encrypted with the password")
			return e.ForkErr(s, c, errIdx(c), []string{"crypt", w.tupleKey(s.ctx, c)}, []string{"crypt", ""})
		}
		if p, data, perm := fileWrite(&c.Call); p != nil {
			e.Hit("key file written", in)
			guard("the recovered key is written")
			m, ok := w.marshalled(s.ctx, data)
			e.Ob(s, in, ok && s.Get("crypt") != "" && w.idxKey(m.ctx, m.v) == s.Get("crypt"), "what is written is not the encrypted key")
			e.Ob(s, in, ownerOnly(e, s, perm), "the exported key is readable by others")
			return e.ForkErr(s, c, errIdx(c), nil, nil)
		}
		if _, isB := c.Call.Value.(*ssa.Builtin); isB || c.Call.IsInvoke() || !isPrint(n) {
			return nil
		}
		for _, a := range c.Call.Args {
			if secret(w.T(s.ctx, a), 0) {
				guard("the recovered key is printed")
				break
			}
		}
		return nil
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	for _, n := range []string{"loop over files", "loop over shares", "share listed", "share loaded", "public key compared", "key given away", "key reconstructed", "key encrypted", "key file written"} {
		r.Need(n, 1)
	}
	keystore(w, r, pkg)
	a, b := jsonNames(w, r, pkg+".KeygenLocalState"), jsonNames(w, r, tState)
	for f, n := range a {
		r.ObGlobal(b[f] == n, "the tool reads "+f+" under the name the signer stores it under")
	}
}

// serialized: v is the serialized public key accepted by isPub.
func (w *World) serialized(e *Engine, s *State, v ctxVal, isPub func(*Term) bool) bool {
	c, o := e.Resolve(s, v.ctx, v.v)
	if sl, ok := o.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
		c, o = e.Resolve(s, c, sl.X)
	}
	cl, ok := o.(*ssa.Call)
	if !ok || !strings.HasSuffix(callName(&cl.Call), ".SerializeCompressed") || len(cl.Call.Args) == 0 {
		return false
	}
	if isPub(w.T(c, cl.Call.Args[0])) {
		return true
	}
	f := w.shareOf(c, cl.Call.Args[0])
	x, okX := f["X"]
	y, okY := f["Y"]
	if !okX || !okY || x.v == nil || y.v == nil {
		return false
	}
	tx, ty := w.T(x.ctx, x.v), w.T(y.ctx, y.v)
	last := func(t *Term) string {
		n := t.Name
		if n == "" {
			n = t.String()
		}
		return n[strings.LastIndex(n, ".")+1:]
	}
	return isPub(tx) && isPub(ty) && strings.HasSuffix(last(tx), "X") && strings.HasSuffix(last(ty), "Y")
}

func isPrint(n string) bool {
	switch n {
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "log.Printf", "log.Println", "log.Print", "os.File.Write", "os.File.WriteString", "io.WriteString":
		return true
	}
	return false
}

// shareOf: the values of the fields of the struct v points to.
func (w *World) shareOf(ctx *Ctx, v ssa.Value) map[string]ctxVal {
	out := map[string]ctxVal{}
	c, o := w.origin(ctx, v)
	al, ok := o.(*ssa.Alloc)
	if !ok {
		if cl, isCall := o.(*ssa.Call); isCall {
			if c2, v2 := w.inlined(c, cl); v2 != nil {
				return w.shareOf(c2, v2)
			}
		}
		return out
	}
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			for _, rr := range *x.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == x {
					n := structOf(deref(x.X.Type())).Field(x.Field).Name()
					if _, dup := out[n]; dup {
						out[n] = ctxVal{c, nil}
						continue
					}
					out[n] = ctxVal{c, st.Val}
				}
			}
		case *ssa.Store:
			if x.Addr != al {
				continue
			}
			if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				for k, v := range w.shareOf(c, u.X) {
					out[k] = v
				}
			}
		}
	}
	return out
}

// keystore: the encrypted key records what it was encrypted with.
func keystore(w *World, r *Report, pkg string) {
	var fns []*ssa.Function
	for _, fn := range w.Funcs {
		if fnPkg(fn) == nil || pkgShort(fnPkg(fn)) != pkg || fn.Signature.Results().Len() == 0 {
			continue
		}
		if tname(deref(fn.Signature.Results().At(0).Type())) == pkg+".EncryptedKey" {
			fns = append(fns, fn)
		}
	}
	r.ObGlobal(len(fns) > 0, "the function that encrypts the key exists")
	for _, fn := range fns {
		var keyPar, pwPar *ssa.Parameter
		for _, p := range fn.Params {
			if tname(p.Type()) == "string" {
				pwPar = p
			} else {
				keyPar = p
			}
		}
		h := &Hooks{Track: func(v ssa.Value) bool { return true }}
		h.Interesting = func(in ssa.Instruction) bool {
			return isCall(in, "golang.org/x/crypto/pbkdf2.Key", "crypto/cipher.NewCTR", "crypto/cipher.Stream.XORKeyStream", "crypto/rand.Read", "hash.Hash.Write", "hash.Hash.Sum") != nil
		}
		// what a value is: the derived key, a part of it, the cipher text, ...
		what := func(e *Engine, s *State, v ssa.Value) string {
			c, o := e.Resolve(s, s.ctx, v)
			lo, hi := "0", ""
			if sl, ok := o.(*ssa.Slice); ok {
				if sl.Low != nil {
					lo = w.T(c, sl.Low).String()
				}
				if sl.High != nil {
					hi = w.T(c, sl.High).String()
				}
				c, o = e.Resolve(s, c, sl.X)
				if al, ok := o.(*ssa.Alloc); ok { // the array behind make([]byte, const)
					if k := s.Get("is:" + w.idxKey(c, al)); k != "" {
						return k
					}
				}
			}
			if o == ssa.Value(keyPar) {
				return "key"
			}
			if o == ssa.Value(pwPar) {
				return "password"
			}
			k := s.Get("is:" + w.idxKey(c, o))
			if k == "dk" {
				if hi == "" {
					hi = s.Get("dklen")
				}
				return "dk[" + lo + ":" + hi + "]"
			}
			if lo != "0" || hi != "" {
				return "part of " + k
			}
			return k
		}
		// the allocation behind a byte slice
		buf := func(e *Engine, s *State, v ssa.Value) string {
			c, o := e.Resolve(s, s.ctx, v)
			if sl, ok := o.(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					return w.idxKey(c, al)
				}
			}
			return w.idxKey(c, o)
		}
		enc := func(e *Engine, s *State, v ssa.Value) string { // hex
			c, o := e.Resolve(s, s.ctx, v)
			if mi, ok := o.(*ssa.MakeInterface); ok {
				c, o = e.Resolve(s, c, mi.X)
			}
			if cl, ok := o.(*ssa.Call); ok && callName(&cl.Call) == "encoding/hex.EncodeToString" {
				s2 := *s
				s2.ctx = c
				return "hex " + what(e, &s2, cl.Call.Args[0])
			}
			if k, ok := o.(*ssa.Const); ok && k.Value != nil {
				if k.Value.Kind() == constant.String {
					return constant.StringVal(k.Value)
				}
				return k.Value.ExactString()
			}
			return "?"
		}
		num := func(e *Engine, s *State, v ssa.Value) string {
			_, o := e.Resolve(s, s.ctx, v)
			if k, ok := o.(*ssa.Const); ok && k.Value != nil {
				return k.Value.ExactString()
			}
			return "?"
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if k, ok := x.Key.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					return []Outcome{{S: s.With("kdf."+constant.StringVal(k.Value), enc(e, s, x.Value))}}
				}
				return nil
			case *ssa.Store:
				f, st := storeField(in)
				if st == nil || !strings.HasPrefix(f, pkg+".") {
					return nil
				}
				return []Outcome{{S: s.With("f:"+f[len(pkg)+1:], enc(e, s, st.Val))}}
			case *ssa.Call:
				a := x.Call.Args
				switch callName(&x.Call) {
				case "crypto/rand.Read":
					k := buf(e, s, a[0])
					n := strconv.Itoa(len(s.Get("rnd")) + 1)
					return e.ForkErr(s, x, errIdx(x), []string{"is:" + k, "random " + n, "rnd", s.Get("rnd") + "."}, nil)
				case "golang.org/x/crypto/pbkdf2.Key":
					e.Hit("key derived", in)
					e.Ob(s, in, what(e, s, a[0]) == "password", "the key is not derived from the password")
					hash := w.T(s.ctx, a[4]).String()
					return []Outcome{{S: s.With("is:"+w.idxKey(s.ctx, x), "dk", "salt", what(e, s, a[1]), "c", num(e, s, a[2]), "dklen", num(e, s, a[3]), "prf", hash)}}
				case "crypto/aes.NewCipher":
					return e.ForkErr(s, x, errIdx(x), []string{"is:" + w.tupleKey(s.ctx, x), "cipher " + what(e, s, a[0])}, nil)
				case "crypto/cipher.NewCTR":
					e.Hit("cipher set up", in)
					e.Ob(s, in, what(e, s, a[0]) == "cipher dk[0:32]", "the key is not encrypted with the derived key")
					return []Outcome{{S: s.With("iv", what(e, s, a[1]), "is:"+w.idxKey(s.ctx, x), "stream")}}
				case "crypto/cipher.Stream.XORKeyStream":
					e.Hit("key encrypted", in)
					e.Ob(s, in, what(e, s, x.Call.Value) == "stream" && what(e, s, a[1]) == "key", "what is encrypted is not the given key")
					e.Ob(s, in, s.Get("xor") == "", "the key stream is applied twice")
					return []Outcome{{S: s.With("is:"+buf(e, s, a[0]), "text", "xor", "1")}}
				case "hash.Hash.Write":
					return []Outcome{{S: s.With("mac", s.Get("mac")+what(e, s, a[0])+",")}}
				case "hash.Hash.Sum":
					e.Hit("MAC computed", in)
					alg := w.T(s.ctx, x.Call.Value).String()
					e.Ob(s, in, strings.HasSuffix(alg, "sha3.NewLegacyKeccak512()") && e.Eval(s, a[0]) == aNil, "the MAC is not the Keccak hash")
					return []Outcome{{S: s.With("is:"+w.idxKey(s.ctx, x), "mac of "+s.Get("mac"))}}
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if ev := e.Eval(s, rt.Results[1]); ev == aNonNil {
				return
			}
			e.Hit("encrypted key returned", rt)
			ok := func(f, want string) {
				e.Ob(s, rt, s.Get(f) == want && want != "" && want != "?", "the encrypted key is stored with a wrong "+strings.TrimPrefix(f, "f:"))
			}
			ok("f:CryptoJSON.CipherText", "hex text")
			ok("f:CryptoJSON.MAC", "hex mac of dk[16:32],text,")
			ok("f:CryptoJSON.Cipher", "aes-256-ctr")
			ok("f:CryptoJSON.KDF", "pbkdf2")
			ok("f:cipherParams.IV", "hex "+s.Get("iv"))
			ok("kdf.salt", "hex "+s.Get("salt"))
			ok("kdf.c", s.Get("c"))
			ok("kdf.dklen", s.Get("dklen"))
			ok("kdf.prf", "hmac-sha256")
			e.Ob(s, rt, s.Get("prf") == "crypto/sha256.New", "the key is derived with another hash than stored")
			e.Ob(s, rt, s.Get("dklen") == "32", "the derived key is not 32 bytes long")
			e.Ob(s, rt, strings.HasPrefix(s.Get("salt"), "random") && strings.HasPrefix(s.Get("iv"), "random") && s.Get("salt") != s.Get("iv"), "salt and initial vector are not fresh random bytes")
			e.Ob(s, rt, len(s.Get("c")) >= 5, "the key is derived with few iterations")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	}
	for _, n := range []string{"key derived", "cipher set up", "MAC computed", "encrypted key returned"} {
		r.Need(n, 1)
	}
}
