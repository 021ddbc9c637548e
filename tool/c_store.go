package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tState = "storage.KeygenLocalState"

func init() {
	register(&propDef{
		ID:    "C10",
		Title: "A saved key share is read back whole, under its own key, by its owner only",
		Rule: "Path-sensitive interprocedural dataflow over the state manager. Saving returns without error only where the JSON of the whole given state was written without error to the file of its public key (directly, or to another file renamed to it), with permissions for the owner only, after the key was found to be a point of the curve. " +
			"Reading returns without error only what was decoded, without error and unchanged, from the content of the file of the requested key, into a variable that held nothing, after the same check. The file name is the same expression of the folder and the key in both, built from them and constants only by formatting and joining. The check itself answers yes only with the result of the curve test of the parsed key. Every field of the stored types has a JSON name of its own.",
		Assume: []string{"encoding/json round-trips the fields of the stored types", "the file system keeps what was written"},
		Run:    runC10,
	})
	register(&propDef{
		ID:    "C28",
		Title: "The address book gives back the addresses it was given",
		Rule:  "Path-sensitive interprocedural dataflow over the state manager: one line per address of every entry of the map, of the form address/p2p/peer, of the same entry, skipped only where the address is a loopback address; the file is the same in both directions and is accessed under the same lock. Reading parses every non-empty line, fails when one does not parse, and returns exactly the parsed addresses. The server contacts the saved and the configured peers.",
		Run:   runC28,
	})
}

// fileWrite: in writes a whole file: path, content, permissions.
func fileWrite(cc *ssa.CallCommon) (path, data, perm ssa.Value) {
	switch callName(cc) {
	case "io/ioutil.WriteFile", "os.WriteFile":
		return cc.Args[0], cc.Args[1], cc.Args[2]
	}
	return nil, nil, nil
}

func fileRead(cc *ssa.CallCommon) ssa.Value {
	switch callName(cc) {
	case "io/ioutil.ReadFile", "os.ReadFile":
		return cc.Args[0]
	}
	return nil
}

// fileOpen: in opens or creates a file for writing: path (nil if chosen by the
// library), permissions (nil: owner only), whether old content may survive.
func fileOpen(cc *ssa.CallCommon) (path, perm ssa.Value, keep, ok bool) {
	switch callName(cc) {
	case "os.Create":
		return cc.Args[0], ssa.NewConst(constant.MakeInt64(0o666), types.Typ[types.Uint32]), false, true
	case "os.OpenFile":
		f, k := cc.Args[1].(*ssa.Const)
		keep = true
		if k && f.Value != nil {
			n, _ := constant.Int64Val(f.Value)
			keep = n&0o1000 == 0 && n&0o200 == 0 // O_TRUNC, O_EXCL
		}
		return cc.Args[0], cc.Args[2], keep, true
	case "io/ioutil.TempFile", "os.CreateTemp":
		return nil, nil, false, true
	}
	return nil, nil, false, false
}

// chmodPerm: the permissions in gives to a file.
func chmodPerm(cc *ssa.CallCommon) ssa.Value {
	switch callName(cc) {
	case "os.Chmod", "os.File.Chmod":
		return cc.Args[1]
	}
	return nil
}

// ownerOnly: the permissions are a constant without rights for others.
func ownerOnly(e *Engine, s *State, v ssa.Value) bool {
	if v == nil {
		return true
	}
	c, ok := v.(*ssa.Const)
	if !ok {
		_, o := e.Resolve(s, s.ctx, v)
		c, ok = o.(*ssa.Const)
	}
	if !ok || c.Value == nil {
		return false
	}
	n, exact := constant.Int64Val(c.Value)
	return exact && n&0o077 == 0
}

// exported methods of the storage package's own types named name.
func (w *World) storageMethods(name string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.Funcs {
		if fn.Parent() == nil && fn.Synthetic == "" && fn.Name() == name && fnPkg(fn) != nil && pkgShort(fnPkg(fn)) == "storage" && fn.Signature.Recv() != nil && !isMockFile(w, fn) {
			out = append(out, fn)
		}
	}
	return out
}

// pureName: t is built from constants, the folder and the key by joining and
// formatting only; the key does occur.
func pureName(t *Term, key func(*Term) bool) bool {
	found := false
	var ok func(t *Term, d int) bool
	ok = func(t *Term, d int) bool {
		if d > 20 {
			return false
		}
		if key(t) {
			found = true
			return true
		}
		switch t.Op {
		case "const":
			return true
		case "field":
			return strings.HasPrefix(t.Name, "storage.") && strings.HasSuffix(t.Name, ".folder")
		case "lit", "bin":
		case "call":
			switch t.Name {
			case "fmt.Sprintf":
				if len(t.Args) == 0 || strings.Contains(strings.NewReplacer("%s", "", "%v", "", "%%", "").Replace(t.Args[0].String()), "%") {
					return false
				}
			case "fmt.Sprint", "path/filepath.Join", "path.Join", "strings.Join":
			default:
				return false
			}
		default:
			return false
		}
		for _, a := range t.Args {
			if !ok(a, d+1) {
				return false
			}
		}
		return true
	}
	return ok(t, 0) && found
}

func runC10(w *World, r *Report) {
	const check = "conversion.CheckKeyOnCurve"
	names := map[string]map[string]bool{"save": {}, "get": {}}
	run := func(kind string, fn *ssa.Function) {
		par := fn.Params[len(fn.Params)-1]
		isKey := func(t *Term) bool {
			if kind == "save" {
				return t.String() == tState+".PubKey"
			}
			return t.String() == fname(fn)+"#"+par.Name()
		}
		// paths a value may be on this path, in terms of the key
		paths := func(e *Engine, s *State, v ssa.Value) (list []string, good bool) {
			good = true
			for _, a := range e.RT(s, v).alts() {
				if a.String() == `""` {
					continue // the error result of a helper
				}
				if !pureName(a, isKey) {
					good = false
				}
				k := a.String()
				if kind == "save" {
					k = strings.ReplaceAll(k, tState+".PubKey", "KEY")
				} else {
					k = strings.ReplaceAll(k, fname(fn)+"#"+par.Name(), "KEY")
				}
				list = append(list, k)
			}
			sort.Strings(list)
			return list, good && len(list) > 0
		}
		isParam := func(c ctxVal) bool {
			cc, o := w.origin(c.ctx, c.v)
			if o == par {
				return true
			}
			if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
				o = u.X
			}
			if al, ok := o.(*ssa.Alloc); ok {
				for _, st := range storesTo(al) {
					if _, v := w.origin(cc, st.Val); v == par {
						return len(storesTo(al)) == 1 && !fieldsChanged(al)
					}
				}
			}
			return false
		}
		content := func(e *Engine, s *State, v ssa.Value) bool {
			c, ok := w.marshalled(s.ctx, v)
			if !ok {
				cx, o := e.Resolve(s, s.ctx, v)
				c, ok = w.marshalled(cx, o)
			}
			return ok && isParam(c)
		}
		hooks := &Hooks{NoInline: func(f *ssa.Function) bool { return fname(f) == check }}
		hooks.Interesting = func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			cc := ci.Common()
			if p, _, _ := fileWrite(cc); p != nil {
				return true
			}
			_, _, _, open := fileOpen(cc)
			return open || chmodPerm(cc) != nil || fileRead(cc) != nil || isCall(in, check, "os.Rename", "encoding/json.Unmarshal", "os.File.Write") != nil
		}
		hooks.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if ex, ok := in.(*ssa.Extract); ok && ex.Index == 0 {
				if c, ok := ex.Tuple.(*ssa.Call); ok && callName(&c.Call) == check {
					t := w.T(s.ctx, c.Call.Args[0])
					e.Hit("key checked", in)
					e.Ob(s, in, t.every(isKey), "what is checked is not the key of the share")
					return e.Fork(s, ex, []string{"chk", "1"}, nil)
				}
			}
			c, ok := in.(*ssa.Call)
			if !ok {
				return nil
			}
			cc := &c.Call
			if p, data, perm := fileWrite(cc); p != nil {
				e.Hit("share written", in)
				e.Ob(s, in, ownerOnly(e, s, perm), "a key share is written with permissions for others")
				e.Ob(s, in, content(e, s, data), "what is written is not the JSON of the given state")
				e.Ob(s, in, s.Get("chk") == "1", "a key share is written although its key was not found to be on the curve")
				l, good := paths(e, s, p)
				k := strings.Join(l, " | ")
				if !good {
					k = "?" + w.T(s.ctx, p).String()
				}
				return e.ForkErr(s, c, errIdx(c), []string{"cur", k}, []string{"cur", ""})
			}
			if perm := chmodPerm(cc); perm != nil {
				e.Ob(s, in, ownerOnly(e, s, perm), "others are given access to the file of a key share")
			}
			if p, perm, keep, ok := fileOpen(cc); ok {
				e.Ob(s, in, ownerOnly(e, s, perm), "a key share is written with permissions for others")
				e.Ob(s, in, !keep, "a key share is written into a file that may keep older content")
				k := "?temp"
				if p != nil {
					l, good := paths(e, s, p)
					k = strings.Join(l, " | ")
					if !good {
						k = "?" + w.T(s.ctx, p).String()
					}
				}
				return e.ForkErr(s, c, errIdx(c), []string{"open", k}, []string{"open", ""})
			}
			switch callName(cc) {
			case "os.File.Write":
				e.Hit("share written", in)
				_, a := callArgs(cc)
				e.Ob(s, in, content(e, s, a[0]), "what is written is not the JSON of the given state")
				e.Ob(s, in, s.Get("chk") == "1", "a key share is written although its key was not found to be on the curve")
				return e.ForkErr(s, c, errIdx(c), []string{"cur", s.Get("open"), "open", ""}, []string{"cur", ""})
			case "os.Rename":
				l, good := paths(e, s, cc.Args[1])
				e.Ob(s, in, good, "the file of a key share is not named by the folder and the key alone")
				from := "?" + w.T(s.ctx, cc.Args[0]).String()
				ok := s.Get("cur") == from || s.Get("cur") == "?temp" && strings.Contains(from, ".Name")
				e.Ob(s, in, ok, "a file other than the one just written becomes the file of the key share")
				return e.ForkErr(s, c, errIdx(c), []string{"cur", strings.Join(l, " | ")}, []string{"cur", ""})
			case "encoding/json.Unmarshal":
				e.Hit("share decoded", in)
				dst := w.decoded(s.ctx, cc.Args[1])
				src := w.idxKey(s.ctx, cc.Args[0])
				return e.ForkErr(s, c, -1, []string{"dec", dst, "src", src}, []string{"dec", ""})
			}
			if p := fileRead(cc); p != nil {
				e.Hit("share read", in)
				e.Ob(s, in, s.Get("chk") == "1", "a file is read although the key was not found to be on the curve")
				l, good := paths(e, s, p)
				e.Ob(s, in, good, "the file of a key share is not named by the folder and the key alone")
				if kind == "get" {
					for _, x := range l {
						names["get"][x] = true
					}
				}
				return e.ForkErr(s, c, errIdx(c), []string{"read", w.tupleKey(s.ctx, c)}, []string{"read", ""})
			}
			return nil
		}
		hooks.Track = func(v ssa.Value) bool {
			n := tname(v.Type())
			if t, ok := v.Type().(*types.Tuple); ok && t.Len() > 0 {
				n = tname(t.At(0).Type())
			}
			return strings.HasSuffix(n, tState)
		}
		hooks.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if len(rt.Results) == 0 {
				return
			}
			if e.Eval(s, rt.Results[len(rt.Results)-1]) == aNonNil {
				return
			}
			if e.RT(s, rt.Results[len(rt.Results)-1]).every(func(t *Term) bool { return t.Op == "call" && (t.Name == "errors.New" || t.Name == "fmt.Errorf") }) {
				return
			}
			if kind == "save" {
				e.Hit("saving succeeds", rt)
				k := s.Get("cur")
				e.Ob(s, rt, k != "", "saving a key share succeeds although it was not written")
				if k != "" {
					e.Ob(s, rt, k[0] != '?', "the file of a key share is not named by the folder and the key alone")
					for _, x := range strings.Split(k, " | ") {
						names["save"][x] = true
					}
				}
				return
			}
			e.Hit("reading succeeds", rt)
			d := s.Get("dec")
			e.Ob(s, rt, d != "" && s.Get("read") != "" && s.Get("src") == s.Get("read"), "reading a key share succeeds although the content of its file was not decoded")
			rc, ro := e.Resolve(s, s.ctx, rt.Results[0])
			e.Ob(s, rt, d != "" && (w.respVar(rc, ro) == d || w.returnedVar(e, s, rt.Results[0]) == d), "what reading a key share returns is not what was decoded")
		}
		e := NewEngine(w, hooks)
		e.Run(fn, nil)
		r.Merge(e)
	}
	for kind, m := range map[string]string{"save": "SaveLocalState", "get": "GetLocalState"} {
		fns := w.storageMethods(m)
		r.ObGlobal(len(fns) > 0, "the method "+m+" exists")
		for _, fn := range fns {
			run(kind, fn)
		}
	}
	for _, n := range []string{"key checked", "share written", "share read", "share decoded", "saving succeeds", "reading succeeds"} {
		r.Need(n, 1)
	}
	r.ObGlobal(len(names["save"]) > 0 && reflect.DeepEqual(names["save"], names["get"]), "shares are saved to and read from the same file")
	freshDecode(w, r, func(fn *ssa.Function) bool { return fnPkg(fn).Name() == "storage" })
	// the folder and the decoded state stay as they are
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			f, st := storeField(in)
			if strings.HasPrefix(f, "storage.") && strings.HasSuffix(f, ".folder") {
				_, fresh := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
				r.Ob(in, fresh, "the folder of the key shares changes while the manager is in use")
			}
			if strings.HasPrefix(f, tState+".") && fnPkg(fn) != nil && pkgShort(fnPkg(fn)) == "storage" {
				r.Ob(in, false, "the state manager changes a key share it saves or reads")
			}
		})
	}
	checkKey(w, r, check)
	jsonNames(w, r, tState)
}

// fieldsChanged: some field of the variable is written.
func fieldsChanged(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					return true
				}
			}
		}
	}
	return false
}

// decoded: the variable a decoder fills.
func (w *World) decoded(ctx *Ctx, v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	c, o := w.origin(ctx, v)
	return w.respVar(c, o)
}

// tupleKey: the key of the first result of a call.
func (w *World) tupleKey(ctx *Ctx, c *ssa.Call) string {
	for _, ref := range *c.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
			return w.idxKey(ctx, ex)
		}
	}
	return ""
}

// checkKey: the key test answers yes only with the outcome of the curve test.
func checkKey(w *World, r *Report, name string) {
	fn := w.Fn(name)
	if !r.ObGlobal(fn != nil, "the key check "+name+" exists") {
		return
	}
	h := &Hooks{Interesting: func(in ssa.Instruction) bool {
		return isCall(in, "github.com/tendermint/btcd/btcec.ParsePubKey", "github.com/btcsuite/btcd/btcec.ParsePubKey") != nil
	}}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		t := e.RT(s, rt.Results[0])
		if e.Eval(s, rt.Results[0]) == aFalse {
			return
		}
		e.Hit("key accepted", rt)
		good := t.every(func(t *Term) bool {
			if t.String() == "false" {
				return true
			}
			if !strings.HasSuffix(t.Name, ".IsOnCurve") || len(t.Args) < 2 {
				return false
			}
			x, y := t.Args[len(t.Args)-2].String(), t.Args[len(t.Args)-1].String()
			return strings.Contains(x, ".ParsePubKey(") && strings.Contains(x, ".X") && strings.Contains(y, ".ParsePubKey(") && strings.Contains(y, ".Y") && strings.Contains(x, "#"+fn.Params[0].Name()) && strings.Contains(y, "#"+fn.Params[0].Name())
		})
		e.Ob(s, rt, good, "a key is accepted without the outcome of the curve test of that key")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("key accepted", 1)
}

// jsonNames: every field of the type is stored under a name of its own.
func jsonNames(w *World, r *Report, typ string) map[string]string {
	out := map[string]string{}
	for _, p := range w.Pkgs {
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tname(tn.Type()) != typ {
				continue
			}
			st := structOf(tn.Type())
			if st == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
				r.ObGlobal(f.Exported() && tag != "-", "the field "+f.Name()+" of "+typ+" is stored")
				if tag == "" {
					tag = f.Name()
				}
				for o, t := range out {
					r.ObGlobal(!strings.EqualFold(t, tag), "the fields "+o+" and "+f.Name()+" of "+typ+" are stored under different names")
				}
				out[f.Name()] = tag
			}
		}
	}
	r.ObGlobal(len(out) > 0, "the type "+typ+" exists")
	return out
}

// accWrite: in adds text to a buffer, or to a list of texts: the parts added.
func accWrite(in ssa.Instruction) (acc ssa.Value, parts []ssa.Value, line bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, nil, false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && tname(c.Type()) == "[]string" {
			return c.Call.Args[0], c.Call.Args[1:], true
		}
		if b.Name() == "append" && tname(c.Type()) == "[]byte" {
			return c.Call.Args[0], c.Call.Args[1:], false
		}
		return nil, nil, false
	}
	switch callName(&c.Call) {
	case "bytes.Buffer.WriteString", "bytes.Buffer.Write", "strings.Builder.WriteString", "strings.Builder.Write", "bytes.Buffer.WriteByte", "strings.Builder.WriteByte",
		"bytes.Buffer.WriteRune", "strings.Builder.WriteRune", "io.WriteString", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "bufio.Writer.WriteString", "bufio.Writer.Write":
		return c.Call.Args[0], c.Call.Args[1:], false
	}
	return nil, nil, false
}

// accKey names the buffer a value points to.
func (w *World) accKey(ctx *Ctx, v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	c, o := w.origin(ctx, v)
	return w.idxKey(c, o)
}

// textParts: the pieces a text is put together from.
func textParts(name string, ts []*Term) []*Term {
	var out []*Term
	if (name == "fmt.Fprintf" || name == "fmt.Sprintf") && len(ts) > 0 && ts[0].Op == "const" {
		args := ts[1:]
		if len(args) == 1 && args[0].Op == "lit" {
			args = args[0].Args
		}
		f, err := strconv.Unquote(ts[0].Name)
		if err != nil {
			return ts
		}
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				out = append(out, mk("const", strconv.Quote(f)))
				break
			}
			if i > 0 {
				out = append(out, mk("const", strconv.Quote(f[:i])))
			}
			if i+1 >= len(f) || len(args) == 0 || f[i+1] != 's' && f[i+1] != 'v' {
				return append(out, mk("unknown", "format"))
			}
			out = append(out, textParts("", args[:1])...)
			args, f = args[1:], f[i+2:]
		}
		return out
	}
	for _, t := range ts {
		for _, p := range t.flat() {
			if p.Op == "call" && (p.Name == "fmt.Sprintf" || p.Name == "fmt.Sprint") {
				n := p.Name
				if n == "fmt.Sprint" {
					n = ""
				}
				out = append(out, textParts(n, p.Args)...)
			} else {
				out = append(out, p)
			}
		}
	}
	if name == "fmt.Fprintln" {
		out = append(out, mk("const", `"\n"`))
	}
	return out
}

func runC28(w *World, r *Report) {
	const loop = `"127.0.0.1"`
	files := map[string]map[string]bool{"save": {}, "get": {}}
	lockOp := func(e *Engine, s *State, in ssa.Instruction) *State {
		cc := callAt(s, in)
		if cc == nil {
			return nil
		}
		switch callName(cc) {
		case "sync.RWMutex.Lock", "sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Unlock", "sync.Mutex.Unlock", "sync.RWMutex.RUnlock":
		default:
			return nil
		}
		f := w.T(s.ctx, cc.Args[0]).String()
		if !strings.HasPrefix(f, "storage.") {
			return nil
		}
		n := callName(cc)
		switch n[strings.LastIndex(n, ".")+1:] {
		case "Lock":
			return s.With("lock", "W "+f)
		case "RLock":
			return s.With("lock", "R "+f)
		}
		return s.With("lock", "")
	}
	locks := map[string]bool{}
	path := func(e *Engine, s *State, in ssa.Instruction, kind string, v ssa.Value) {
		t := e.RT(s, v)
		good := t.every(func(t *Term) bool {
			return pureName(t, func(t *Term) bool { return t.Op == "const" && t.Name != `""` })
		})
		e.Ob(s, in, good, "the file of the address book is not named by the folder alone")
		files[kind][t.String()] = true
		l := s.Get("lock")
		e.Ob(s, in, l != "" && (l[0] == 'W' || kind == "get"), "the address book is accessed without its lock")
		if l != "" {
			locks[l[2:]] = true
		}
	}
	save := func(fn *ssa.Function) {
		par := fn.Params[len(fn.Params)-1]
		pn := fname(fn) + "#" + par.Name()
		isMap := func(ctx *Ctx, v ssa.Value) bool { return w.T(ctx, v).String() == pn }
		isList := func(ctx *Ctx, v ssa.Value) bool { return w.T(ctx, v).String() == pn+"[]" }
		outer := &Each{Atom: "peers", Coll: isMap, w: w}
		inner := &Each{Atom: "addrs", Coll: isList, End: []string{"peers.p", ""}, w: w}
		accs, conts := map[string]bool{}, map[string]ssa.Instruction{}
		isElem := func(t *Term) bool { return t.String() == pn+"[][]" }
		isKey := func(t *Term) bool { return t.String() == "key("+pn+")" }
		piece := func(t *Term) string {
			switch {
			case t.Op == "const":
				if s, err := strconv.Unquote(t.Name); err == nil {
					return s
				}
				if t.Name == "10" { // the byte of a line feed
					return "\n"
				}
			case isElem(t), t.Op == "call" && strings.HasSuffix(t.Name, "Multiaddr.String") && len(t.Args) == 1 && isElem(t.Args[0]):
				return "<A>"
			case t.Op == "call" && (strings.HasSuffix(t.Name, "peer.ID.String") || strings.HasSuffix(t.Name, "peer.ID.Pretty") || strings.HasSuffix(t.Name, "peer.Encode") || strings.HasSuffix(t.Name, "peer.IDB58Encode")) && len(t.Args) == 1 && isKey(t.Args[0]):
				return "<P>"
			case isKey(t):
				return "<K>"
			}
			return "<?>"
		}
		h := &Hooks{}
		h.Interesting = func(in ssa.Instruction) bool {
			a, _, _ := accWrite(in)
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			p, _, _ := fileWrite(ci.Common())
			return a != nil || p != nil
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if n := lockOp(e, s, in); n != nil {
				return []Outcome{{S: n}}
			}
			for _, l := range []*Each{inner, outer} {
				if out := l.On(e, s, in, "an address is left out of the address book"); out != nil {
					e.Ob(s, in, s.Get("line") == "", "the address book has a line that is not an address and its peer")
					return out
				}
			}
			if b, ok := in.(*ssa.Call); ok {
				switch callName(&b.Call) {
				case "strings.Contains", "strings.HasPrefix":
					t := w.T(s.ctx, b.Call.Args[0])
					k := w.T(s.ctx, b.Call.Args[1]).String()
					if piece(t) == "<A>" && strings.HasPrefix(strings.Trim(k, `"`), "/ip4/127.") || k == loop {
						return e.Fork(s, b, []string{"addrs.p", ""}, nil)
					}
				case "net.IP.IsLoopback", "github.com/multiformats/go-multiaddr/net.IsIPLoopback", "github.com/multiformats/go-multiaddr-net.IsIPLoopback":
					return e.Fork(s, b, []string{"addrs.p", ""}, nil)
				}
			}
			if acc, parts, whole := accWrite(in); acc != nil {
				accs[w.accKey(s.ctx, acc)] = true
				var ts []*Term
				for _, p := range parts {
					ts = append(ts, e.RT(s, p))
				}
				if whole {
					var flat []*Term
					for _, t := range ts {
						if t.Op == "lit" {
							flat = append(flat, t.Args...)
						} else {
							flat = append(flat, t)
						}
					}
					ts = flat
				}
				line := s.Get("line")
				for _, t := range textParts(callName(in.(*ssa.Call).Common()), ts) {
					line += piece(t)
				}
				e.Hit("line written", in)
				// %s and %v print a peer as its String method does
				line = strings.ReplaceAll(line, "<K>", "<P>")
				if whole {
					line = strings.TrimSuffix(line, "\n") + "\n"
				}
				if !strings.HasSuffix(line, "\n") {
					if len(line) > 60 {
						line = "<?>"
					}
					return []Outcome{{S: s.With("line", line)}}
				}
				e.Ob(s, in, line == "<A>/p2p/<P>\n" && s.Get("addrs.p") == "1", "the address book has a line that is not an address and its peer")
				return []Outcome{{S: s.With("line", "", "addrs.p", "")}}
			}
			c, ok := in.(*ssa.Call)
			if !ok {
				return nil
			}
			if p, data, _ := fileWrite(&c.Call); p != nil {
				e.Hit("address book written", in)
				path(e, s, in, "save", p)
				e.Ob(s, in, s.Get("peers.all") == "1" && s.Get("peers.on") == "" && s.Get("addrs.on") == "", "the address book is written before every peer was visited")
				t := w.T(s.ctx, data)
				good := strings.Contains(t.String(), pn)
				if _, o := w.origin(s.ctx, data); !good {
					if c, ok := o.(*ssa.Call); ok && len(c.Call.Args) == 1 {
						switch callName(&c.Call) {
						case "bytes.Buffer.Bytes", "bytes.Buffer.String", "strings.Builder.String":
							conts[w.accKey(s.ctx, c.Call.Args[0])] = in
							good = true
						}
					}
				}
				e.Ob(s, in, good, "what is written is not the collected lines")
				return e.ForkErr(s, c, errIdx(c), []string{"done", "1"}, []string{"done", ""})
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if e.Eval(s, rt.Results[0]) == aNonNil {
				return
			}
			if e.RT(s, rt.Results[0]).every(func(t *Term) bool { return t.Op == "call" && (t.Name == "errors.New" || t.Name == "fmt.Errorf") }) {
				return
			}
			e.Hit("saving succeeds", rt)
			e.Ob(s, rt, s.Get("done") == "1", "saving the address book succeeds although it was not written")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		for k, in := range conts {
			r.Ob(in, accs[k], "what is written is not the collected lines")
		}
	}
	get := func(fn *ssa.Function) {
		isLines := func(ctx *Ctx, v ssa.Value) bool {
			t := w.T(ctx, v)
			return t.Op == "call" && (t.Name == "strings.Split" && len(t.Args) == 2 && t.Args[1].String() == `"\n"` || t.Name == "strings.Fields" || t.Name == "bytes.Split" || t.Name == "bytes.Fields") && t.calls("ReadFile")
		}
		lines := &Each{Atom: "lines", Coll: isLines, w: w}
		isLine := func(t *Term) bool {
			for t.Op == "call" && strings.HasPrefix(t.Name, "strings.Trim") && len(t.Args) > 0 {
				t = t.Args[0]
			}
			return (t.Op == "elem" || t.Op == "index" || strings.HasSuffix(t.String(), "[]")) && t.calls("ReadFile") || strings.HasPrefix(t.Name, "bufio.Scanner.Text")
		}
		h := &Hooks{}
		h.Interesting = func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			return fileRead(ci.Common()) != nil || strings.HasSuffix(callName(ci.Common()), "multiaddr.NewMultiaddr")
		}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if n := lockOp(e, s, in); n != nil {
				return []Outcome{{S: n}}
			}
			if out := lines.On(e, s, in, "a line of the address book is dropped"); out != nil {
				return out
			}
			if c, empty, ok := lenZero(in); ok && isLine(w.T(s.ctx, c)) {
				if empty {
					return e.Fork(s, in.(ssa.Value), []string{"lines.p", ""}, nil)
				}
				return e.Fork(s, in.(ssa.Value), nil, []string{"lines.p", ""})
			}
			if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				x, y := w.T(s.ctx, b.X), w.T(s.ctx, b.Y)
				if x.String() == `""` {
					x, y = y, x
				}
				if y.String() == `""` && isLine(x) {
					if b.Op == token.EQL {
						return e.Fork(s, b, []string{"lines.p", ""}, nil)
					}
					return e.Fork(s, b, nil, []string{"lines.p", ""})
				}
			}
			c, ok := in.(*ssa.Call)
			if !ok {
				return nil
			}
			if p := fileRead(&c.Call); p != nil {
				e.Hit("address book read", in)
				path(e, s, in, "get", p)
				return e.ForkErr(s, c, errIdx(c), []string{"read", "1"}, []string{"read", ""})
			}
			if strings.HasSuffix(callName(&c.Call), "multiaddr.NewMultiaddr") {
				e.Hit("line parsed", in)
				e.Ob(s, in, e.RT(s, c.Call.Args[0]).every(isLine), "what is parsed is not a line of the address book")
				return e.ForkErr(s, c, errIdx(c), []string{"parsed", w.tupleKey(s.ctx, c)}, []string{"parsed", "", "bad", "1"})
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(c.Call.Args) == 2 && strings.HasSuffix(tname(c.Type()), "multiaddr.Multiaddr") {
				p := w.sliceParts(s.ctx, c.Call.Args[1], nil)
				good := p.OK && len(p.Spread) == 0 && len(p.Vals) == 1 && s.Get("parsed") != "" && w.idxKey(p.Vals[0].ctx, p.Vals[0].v) == s.Get("parsed")
				e.Hit("address taken", in)
				e.Ob(s, in, good, "an address other than the one parsed is taken from the address book")
				if good {
					return []Outcome{{S: s.With("parsed", "", "lines.p", "", "taken", "1")}}
				}
			}
			return nil
		}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if e.Eval(s, rt.Results[1]) == aNonNil {
				return
			}
			if e.RT(s, rt.Results[1]).every(func(t *Term) bool { return t.Op == "call" && (t.Name == "errors.New" || t.Name == "fmt.Errorf") }) {
				return
			}
			e.Hit("reading succeeds", rt)
			e.Ob(s, rt, s.Get("read") == "1" && s.Get("lines.all") == "1" && s.Get("lines.on") == "", "the address book is returned before every line was read")
			e.Ob(s, rt, s.Get("bad") == "", "the address book is returned although a line is not an address")
			t := e.RT(s, rt.Results[0])
			good := (t.calls("multiaddr.NewMultiaddr") || s.Get("taken") == "") && t.every(func(t *Term) bool {
				for _, p := range t.flat() {
					if p.Op != "loop" && p.String() != "nil" && !p.calls("multiaddr.NewMultiaddr") {
						return false
					}
				}
				return true
			})
			e.Ob(s, rt, good, "what is returned is not the parsed addresses")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
	}
	for kind, m := range map[string]string{"save": "SaveAddressBook", "get": "RetrieveP2PAddresses"} {
		fns := w.storageMethods(m)
		r.ObGlobal(len(fns) > 0, "the method "+m+" exists")
		for _, fn := range fns {
			if kind == "save" {
				save(fn)
			} else {
				get(fn)
			}
		}
	}
	for _, n := range []string{"line written", "address book written", "saving succeeds", "address book read", "line parsed", "address taken", "reading succeeds"} {
		r.Need(n, 1)
	}
	r.ObGlobal(len(files["save"]) > 0 && reflect.DeepEqual(files["save"], files["get"]), "the address book is saved to and read from the same file")
	r.ObGlobal(len(locks) == 1, "the address book is written and read under the same lock")
	bootstrap(w, r)
}

// bootstrap: the server contacts the saved and the configured peers.
func bootstrap(w *World, r *Report) {
	fn := w.Fn("tss.NewTss")
	if !r.ObGlobal(fn != nil, "the constructor of the server exists") {
		return
	}
	h := &Hooks{Interesting: func(in ssa.Instruction) bool {
		return isCall(in, "p2p.NewCommunication") != nil || isMethodCall(in, "storage", "RetrieveP2PAddresses") != nil
	}}
	h.Track = func(v ssa.Value) bool {
		_, isSlice := v.Type().Underlying().(*types.Slice)
		return isSlice
	}
	h.NoInline = func(f *ssa.Function) bool {
		return f.Name() == "RetrieveP2PAddresses" || fname(f) == "p2p.NewCommunication"
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		c, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		if isMethodCall(in, "storage", "RetrieveP2PAddresses") != nil {
			e.Hit("saved peers read", in)
			return e.ForkErr(s, c, errIdx(c), []string{"saved", "1"}, []string{"saved", "0"})
		}
		if isCall(in, "p2p.NewCommunication") != nil {
			e.Hit("network created", in)
			p := w.sliceParts(s.ctx, c.Call.Args[1], func(cx *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, cx, v) })
			hasCfg, hasSaved := false, false
			for i, t := range p.Spread {
				if _, o := w.origin(p.SpVals[i].ctx, p.SpVals[i].v); o == ssa.Value(fn.Params[0]) {
					hasCfg = true
				}
				if t.calls("RetrieveP2PAddresses") {
					hasSaved = true
				}
			}
			for _, t := range p.Elems {
				if t.calls("multiaddr.NewMultiaddr") {
					hasSaved = true
				}
			}
			e.Ob(s, in, p.OK && hasCfg, "the configured peers are not among those contacted at the start")
			e.Ob(s, in, s.Get("saved") == "0" || s.Get("saved") == "1" && p.OK && hasSaved, "the saved peers are not among those contacted at the start")
		}
		return nil
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("saved peers read", 1)
	r.Need("network created", 1)
}
