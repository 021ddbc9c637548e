package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:    "C24",
		Title: "Key shares and private keys stay inside the node",
		Rule: "Whole-program taint dataflow, field by field, over every function of the node (the recovery tool and the benchmarks aside). Secret are all values of the types that hold a private key, a key share or its preparation, their secret parts, the text a private key is read from, and whatever is computed from one of these (copies, encodings, hashes, concatenations), except its public key and signatures made with it. " +
			"None of them reaches a log line, an error, output of the process, a metric, an answer of the HTTP server, a message or stream to another node, or a file, except one written for the owner only.",
		Assume: []string{"the protocol library and libp2p do not disclose what they are given"},
		Run:    runC24,
	})
}

type taint struct {
	w     *World
	vals  map[ssa.Value]bool
	flds  map[string]bool // struct type + field
	rets  map[*ssa.Function]map[int]bool
	fns   []*ssa.Function
	in    map[*ssa.Function]bool
	dirty bool
	carry map[types.Type]int // 1: no, 2: yes
}

var secretParts = map[string]bool{"Xi": true, "PaillierSK": true, "Alpha": true, "Beta": true, "P": true, "Q": true, "LambdaN": true, "PhiN": true, "D": true}

// secretNamed: a named type that holds a secret.
func secretNamed(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	name, path := n.Obj().Name(), n.Obj().Pkg().Path()
	switch name {
	case "PrivKey", "PrivateKey", "PrivKeySecp256k1", "Secp256k1PrivateKey", "Ed25519PrivateKey":
		return true
	case "LocalPartySaveData", "LocalPreParams", "LocalSecrets":
		return strings.HasSuffix(path, "ecdsa/keygen")
	case "KeygenLocalState":
		return strings.HasSuffix(path, "/storage")
	}
	return false
}

// secretType: values of t are secret.
func secretType(t types.Type) bool {
	for i := 0; i < 6; i++ {
		if secretNamed(t) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			return false
		}
	}
	return false
}

func fieldID(st types.Type, i int) string {
	s, ok := deref(st).Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return ""
	}
	return types.TypeString(deref(st), nil) + "." + s.Field(i).Name()
}

// carrier: a value of t has a secret in it somewhere.
func (t *taint) carrier(ty types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	if secretType(ty) {
		return true
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		return t.carrier(u.Elem(), depth+1)
	case *types.Slice:
		return t.carrier(u.Elem(), depth+1)
	case *types.Array:
		return t.carrier(u.Elem(), depth+1)
	case *types.Map:
		return t.carrier(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if t.flds[fieldID(ty, i)] || t.carrier(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func (t *taint) has(v ssa.Value) bool {
	if v == nil {
		return false
	}
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	return t.vals[v] || secretType(v.Type())
}

// leaks: given away, v discloses a secret.
func (t *taint) leaks(v ssa.Value) bool {
	if t.has(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		return t.leaks(x.X)
	}
	return t.carrier(v.Type(), 0)
}

func (t *taint) add(v ssa.Value) {
	if v == nil || t.vals[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	t.vals[v] = true
	t.dirty = true
}

// hit: a secret is put at an address.
func (t *taint) put(addr ssa.Value) {
	for i := 0; i < 10; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			if id := fieldID(x.X.Type(), x.Field); id != "" && !t.flds[id] {
				t.flds[id] = true
				t.dirty = true
			}
			return
		case *ssa.IndexAddr:
			t.add(addr)
			addr = x.X
		case *ssa.Slice:
			t.add(addr)
			addr = x.X
		case *ssa.ChangeType:
			addr = x.X
		case *ssa.UnOp:
			t.add(addr)
			if x.Op != token.MUL {
				return
			}
			addr = x.X
		default:
			t.add(addr)
			return
		}
	}
}

func canHold(ty types.Type) bool {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice, *types.Array, *types.Map:
		return true
	case *types.Interface:
		return ty.String() != "error"
	case *types.Pointer:
		n := tname(u.Elem())
		return strings.HasSuffix(n, "big.Int") || strings.HasSuffix(n, "bytes.Buffer") || strings.HasSuffix(n, "strings.Builder") || strings.HasSuffix(n, "bytes.Reader") || strings.HasSuffix(n, "strings.Reader")
	}
	return false
}

// public: what a function gives of a secret is no secret.
func publicOf(name string) bool {
	i := strings.LastIndex(name, ".")
	switch name[i+1:] {
	case "PubKey", "GetPublic", "Public", "Sign", "Equals", "Equal", "Type", "Verify", "VerifySignature", "Address", "PublicKey", "ScalarBaseMult":
		return true
	}
	return strings.HasSuffix(name, "keygen.NewLocalParty") || strings.HasSuffix(name, "signing.NewLocalParty") || strings.HasPrefix(name, "go-libp2p")
}

func (t *taint) step(fn *ssa.Function) {
	eachInstr(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if t.has(x.Val) {
				t.put(x.Addr)
			}
		case *ssa.MapUpdate:
			if t.has(x.Value) || t.has(x.Key) {
				t.put(x.Map)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if t.has(e) {
					t.add(x)
				}
			}
		case *ssa.ChangeType:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.Convert:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.MultiConvert:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.SliceToArrayPointer:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.MakeInterface:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.ChangeInterface:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.TypeAssert:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.Slice:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.Index:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.IndexAddr:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.Lookup:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.Range:
			if t.has(x.X) {
				t.add(x)
			}
		case *ssa.Next:
			if t.has(x.Iter) {
				t.add(x)
			}
		case *ssa.Extract:
			switch tup := x.Tuple.(type) {
			case *ssa.Call:
				t.result(tup, x, x.Index)
			case *ssa.Next:
				if t.vals[tup] && x.Index > 0 {
					t.add(x)
				}
			default:
				if t.vals[x.Tuple] && x.Index == 0 {
					t.add(x)
				}
			}
		case *ssa.UnOp:
			switch {
			case x.Op == token.MUL && t.cell(x.X), x.Op == token.ARROW && t.vals[x.X]:
				t.add(x)
			}
		case *ssa.Field:
			t.field(x, x.X, x.Field)
		case *ssa.FieldAddr:
			t.field(x, x.X, x.Field)
		case *ssa.BinOp:
			if x.Op == token.ADD && (t.has(x.X) || t.has(x.Y)) {
				t.add(x)
			}
		case *ssa.Send:
			if t.has(x.X) {
				t.put(x.Chan)
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if t.has(b) {
					t.add(f.FreeVars[i])
				} else if t.vals[f.FreeVars[i]] {
					t.put(b)
				}
			}
		case *ssa.Return:
			for i, v := range x.Results {
				if t.has(v) {
					if t.rets[fn] == nil {
						t.rets[fn] = map[int]bool{}
					}
					if !t.rets[fn][i] {
						t.rets[fn][i] = true
						t.dirty = true
					}
				}
			}
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			t.call(ci)
		}
	})
}

// cell: the variable at an address holds a secret.
func (t *taint) cell(addr ssa.Value) bool {
	if fa, ok := addr.(*ssa.FieldAddr); ok && t.flds[fieldID(fa.X.Type(), fa.Field)] {
		return true
	}
	return t.has(addr)
}

func (t *taint) field(v, base ssa.Value, i int) {
	st, ok := deref(base.Type()).Underlying().(*types.Struct)
	if !ok {
		return
	}
	f := st.Field(i)
	if t.flds[fieldID(base.Type(), i)] || secretNamed(deref(base.Type())) && secretParts[f.Name()] {
		t.add(v)
	}
}

// targets: functions of the node a call may go to.
func (t *taint) targets(cc *ssa.CallCommon) []*ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		if t.in[f] {
			return []*ssa.Function{f}
		}
		return nil
	}
	if cc.IsInvoke() {
		var out []*ssa.Function
		for _, f := range t.fns {
			if f.Name() == cc.Method.Name() && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
				out = append(out, f)
			}
		}
		return out
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	return nil
}

func (t *taint) call(ci ssa.CallInstruction) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v, _ := ci.(ssa.Value)
		switch b.Name() {
		case "append":
			for _, a := range cc.Args {
				if t.has(a) {
					t.add(v)
				}
			}
		case "copy":
			if t.has(cc.Args[1]) {
				t.put(cc.Args[0])
			}
		}
		return
	}
	ts := t.targets(cc)
	for _, f := range ts {
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for i, a := range args {
			if i < len(f.Params) && t.has(a) {
				t.add(f.Params[i])
			}
		}
	}
	if len(ts) == 0 {
		// a library writes into what it is called on
		recv, args := callArgs(cc)
		if recv != nil && !publicOf(callName(cc)) {
			for _, a := range args {
				if t.has(a) && canHold(recv.Type()) {
					t.put(recv)
				}
			}
		}
		if n := callName(cc); n == "encoding/hex.Encode" || n == "encoding/base64.Encoding.Encode" {
			for _, a := range args {
				if t.has(a) {
					for _, d := range args {
						t.put(d)
					}
				}
			}
		}
	}
	if v, ok := ci.(*ssa.Call); ok {
		if _, tup := v.Type().(*types.Tuple); !tup {
			t.result(v, v, 0)
		}
		// what a key is read from
		t.readFrom(v)
	}
}

// readFrom: the text a secret is decoded from is one.
func (t *taint) readFrom(c *ssa.Call) {
	var src ssa.Value
	switch callName(&c.Call) {
	case "conversion.GetPriKey":
		src = c.Call.Args[0]
	case "encoding/json.Unmarshal":
		if d, ok := decodeDst(c.Call.Args[1]); ok && (secretType(d)) {
			src = c.Call.Args[0]
		}
	}
	if src == nil {
		return
	}
	t.add(src)
	if u, ok := src.(*ssa.UnOp); ok && u.Op == token.MUL {
		t.put(u.X)
	}
}

func (t *taint) result(c *ssa.Call, v ssa.Value, i int) {
	cc := &c.Call
	if ts := t.targets(cc); len(ts) > 0 {
		for _, f := range ts {
			if t.rets[f][i] {
				t.add(v)
			}
		}
		return
	}
	if publicOf(callName(cc)) || !canHold(v.Type()) {
		return
	}
	for _, a := range append([]ssa.Value{cc.Value}, cc.Args...) {
		if _, ok := a.(*ssa.Function); ok {
			continue
		}
		if a != nil && t.leaks(a) && t.has2(a) {
			t.add(v)
		}
	}
}

// has2: the argument itself is secret, or is written out with what it refers to.
func (t *taint) has2(a ssa.Value) bool {
	if t.has(a) {
		return true
	}
	mi, ok := a.(*ssa.MakeInterface)
	return ok && t.leaks(mi.X)
}

func (t *taint) run() {
	for i := 0; i < 100; i++ {
		t.dirty = false
		for _, fn := range t.fns {
			t.step(fn)
		}
		if !t.dirty {
			return
		}
	}
}

func inNode(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return false
	}
	path := p.Path()
	return !strings.Contains(path, "/cmd/tss-")
}

func runC24(w *World, r *Report) {
	t := &taint{w: w, vals: map[ssa.Value]bool{}, flds: map[string]bool{}, rets: map[*ssa.Function]map[int]bool{}, in: map[*ssa.Function]bool{}}
	for _, fn := range w.Funcs {
		if len(fn.Blocks) > 0 && !isMockFile(w, fn) && inNode(fn) {
			t.fns = append(t.fns, fn)
			t.in[fn] = true
		}
	}
	t.run()
	perm := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		if !ok {
			if cv, okc := v.(*ssa.Convert); okc {
				c, ok = cv.X.(*ssa.Const)
			}
		}
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64()&0o077 == 0
	}
	own := func(file ssa.Value) bool { // opened for the owner only
		x, ok := file.(*ssa.Extract)
		if !ok {
			return false
		}
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		switch callName(&c.Call) {
		case "os.OpenFile":
			return perm(c.Call.Args[2])
		case "os.CreateTemp", "io/ioutil.TempFile":
			return true
		}
		return false
	}
	for _, fn := range t.fns {
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Panic:
				r.Anchor("place that gives away", in)
				r.Ob(in, !t.leaks(x.X), "a secret is in the message of a panic")
			case *ssa.Send:
				if tname(x.X.Type()) == tOutMsg {
					r.Anchor("place that gives away", in)
					r.Ob(in, !t.leaks(x.X), "a secret is sent to other nodes")
				}
			case *ssa.Select:
				for k := range x.States {
					if v := outSend(x, k); v != nil {
						r.Anchor("place that gives away", in)
						r.Ob(in, !t.leaks(v), "a secret is sent to other nodes")
					}
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := ci.Common()
			n := callName(cc)
			recv, args := callArgs(cc)
			if len(t.targets(cc)) > 0 || n == "" {
				return
			}
			any := func(vs []ssa.Value) bool {
				for _, v := range vs {
					if t.has2(v) {
						return true
					}
				}
				return false
			}
			i := strings.LastIndex(n, ".")
			short := n[i+1:]
			owner := ""
			if recv != nil {
				owner = tname(deref(recv.Type()))
			}
			what := ""
			switch {
			case strings.HasPrefix(owner, "zerolog.") || strings.Contains(owner, "rs/zerolog") || strings.HasPrefix(n, "log.") || strings.Contains(n, "zerolog"):
				what = "a secret is logged"
			case strings.HasPrefix(n, "fmt.Print"):
				what = "a secret is printed"
			case n == "fmt.Errorf" || n == "errors.New" || strings.HasPrefix(n, "errors.Wrap") || strings.Contains(n, "pkg/errors."):
				what = "a secret is in an error"
			case short == "WithLabelValues" || strings.Contains(n, "prometheus"):
				what = "a secret is in a metric"
			case strings.HasPrefix(n, "fmt.Fprint"):
				r.Anchor("place that gives away", in)
				mi, _ := args[0].(*ssa.MakeInterface)
				if any(args[1:]) && mi != nil && own(mi.X) {
					r.Anchor("secret file", in)
				}
				r.Ob(in, !any(args[1:]) || mi != nil && (own(mi.X) || canHold(mi.X.Type())), "a secret is written out")
			case n == "io/ioutil.WriteFile" || n == "os.WriteFile":
				r.Anchor("place that gives away", in)
				if any(args[1:2]) {
					r.Anchor("secret file", in)
					r.Ob(in, perm(args[2]), "a secret is written to a file others may read")
				}
				r.Ob(in, !t.has(args[0]), "a secret is in the name of a file")
			case short == "Chmod":
				// files of secrets stay private
				r.Anchor("place that gives away", in)
				r.Ob(in, perm(args[len(args)-1]), "a file is opened up to others")
			case recv != nil && (short == "Write" || short == "WriteString" || short == "WriteAt" || short == "Encode"):
				if canHold(recv.Type()) && owner != "" && !cc.IsInvoke() { // a buffer
					return
				}
				if strings.HasPrefix(n, "hash.") || strings.Contains(owner, "hash.Hash") {
					return
				}
				r.Anchor("place that gives away", in)
				if any(args) && own(recv) {
					r.Anchor("secret file", in)
				}
				r.Ob(in, !any(args) || own(recv), "a secret is written out")
			case n == "net/http.Error" || n == "io.WriteString":
				what = "a secret is written out"
			case short == "Setenv" || n == "os/exec.Command":
				what = "a secret is given to other programs"
			}
			if what != "" {
				r.Anchor("place that gives away", in)
				vs := args
				if recv != nil {
					vs = append([]ssa.Value{recv}, args...)
				}
				r.Ob(in, !any(vs), what)
			}
		})
	}
	n := 0
	for range t.vals {
		n++
	}
	r.ObGlobal(n > 20, fmt.Sprintf("secrets are found (%d values)", n))
	r.Need("place that gives away", 50)
	r.Need("secret file", 1)
}
