package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- contexts

// Ctx is a call string: fn was entered from parent at site.
type Ctx struct {
	ID     int
	Parent *Ctx
	Site   ssa.CallInstruction // nil for entries
	Fn     *ssa.Function
	// Clo is the context in which the closure value was made (bindings live there).
	Clo   *Ctx
	MkClo *ssa.MakeClosure
	Args  []ssa.Value // overrides Site arguments (callbacks); resolved in Parent
	depth int
}

type ctxKey struct {
	parent *Ctx
	site   ssa.CallInstruction
	fn     *ssa.Function
	clo    *Ctx
	mk     *ssa.MakeClosure
}

const maxDepth = 14

func (w *World) Root(fn *ssa.Function) *Ctx {
	return w.mkCtx(nil, nil, fn, nil, nil)
}

func (w *World) mkCtx(parent *Ctx, site ssa.CallInstruction, fn *ssa.Function, clo *Ctx, mk *ssa.MakeClosure) *Ctx {
	k := ctxKey{parent, site, fn, clo, mk}
	if c := w.ctxs[k]; c != nil {
		return c
	}
	w.nctx++
	c := &Ctx{ID: w.nctx, Parent: parent, Site: site, Fn: fn, Clo: clo, MkClo: mk}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	w.ctxs[k] = c
	return c
}

func (c *Ctx) onStack(fn *ssa.Function) bool {
	for x := c; x != nil; x = x.Parent {
		if x.Fn == fn {
			return true
		}
	}
	return false
}

func (c *Ctx) stack() string {
	var s []string
	for x := c; x != nil; x = x.Parent {
		s = append([]string{fname(x.Fn)}, s...)
	}
	return strings.Join(s, " > ")
}

// target is a resolved callee.
type target struct {
	fn  *ssa.Function
	clo *Ctx
	mk  *ssa.MakeClosure
}

// resolveFn finds the functions a func-typed value can be.
func (w *World) resolveFn(ctx *Ctx, v ssa.Value, depth int) []target {
	if depth > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []target{{fn: x}}
	case *ssa.MakeClosure:
		return []target{{fn: x.Fn.(*ssa.Function), clo: ctx, mk: x}}
	case *ssa.ChangeType:
		return w.resolveFn(ctx, x.X, depth+1)
	case *ssa.MakeInterface:
		return w.resolveFn(ctx, x.X, depth+1)
	case *ssa.Phi:
		var out []target
		for _, e := range x.Edges {
			if e != v {
				out = append(out, w.resolveFn(ctx, e, depth+1)...)
			}
		}
		return out
	case *ssa.Parameter:
		if ctx != nil && ctx.Parent != nil {
			if a := ctx.arg(x); a != nil {
				return w.resolveFn(ctx.Parent, a, depth+1)
			}
		}
	case *ssa.FreeVar:
		if b, bc := ctx.binding(x); b != nil {
			return w.resolveFn(bc, b, depth+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// a func variable captured by reference or stored in a local
			if cell, cc := w.cellOf(ctx, x.X); cell != nil {
				var out []target
				for _, st := range storesTo(cell) {
					out = append(out, w.resolveFn(cc, st.Val, depth+1)...)
				}
				return out
			}
		}
	}
	return nil
}

// callees of a call instruction (empty: unknown/external interface).
func (w *World) callees(ctx *Ctx, cc *ssa.CallCommon) []target {
	if cc.IsInvoke() {
		// an interface declared in the repository: its non-mock implementations
		return nil
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			return []target{{fn: f, clo: ctx, mk: mc}}
		}
		return []target{{fn: f}}
	}
	return w.resolveFn(ctx, cc.Value, 0)
}

func (c *Ctx) arg(p *ssa.Parameter) ssa.Value {
	if c == nil || c.Parent == nil {
		return nil
	}
	idx := -1
	for i, q := range c.Fn.Params {
		if q == p {
			idx = i
		}
	}
	if idx < 0 {
		return nil
	}
	if c.Args != nil {
		if idx < len(c.Args) {
			return c.Args[idx]
		}
		return nil
	}
	if c.Site == nil {
		return nil
	}
	cc := c.Site.Common()
	if cc.IsInvoke() {
		if idx == 0 {
			return cc.Value
		}
		idx--
	}
	if idx < len(cc.Args) {
		return cc.Args[idx]
	}
	return nil
}

// closureFor finds the context/MakeClosure that binds fn's free variables.
func (c *Ctx) binding(fv *ssa.FreeVar) (ssa.Value, *Ctx) {
	if c == nil || c.Fn != fv.Parent() {
		return staticBinding(fv), nil
	}
	if c.MkClo == nil {
		b := staticBinding(fv)
		return b, nil
	}
	for i, q := range c.Fn.FreeVars {
		if q == fv {
			return c.MkClo.Bindings[i], c.Clo
		}
	}
	return nil, nil
}

// staticBinding: the unique MakeClosure of the function in its parent.
func staticBinding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	p := fn.Parent()
	if p == nil {
		return nil
	}
	var res ssa.Value
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				for i, q := range fn.FreeVars {
					if q == fv {
						if res != nil && res != mc.Bindings[i] {
							return nil
						}
						res = mc.Bindings[i]
					}
				}
			}
		}
	}
	return res
}

// cellOf resolves an address to the local variable (Alloc) it denotes, through
// closure captures and parameters.
func (w *World) cellOf(ctx *Ctx, addr ssa.Value) (*ssa.Alloc, *Ctx) {
	for i := 0; i < 20; i++ {
		switch x := addr.(type) {
		case *ssa.Alloc:
			return x, ctx
		case *ssa.FreeVar:
			b, bc := ctx.binding(x)
			if b == nil {
				return nil, nil
			}
			addr, ctx = b, bc
		case *ssa.Parameter:
			a := ctx.arg(x)
			if a == nil {
				return nil, nil
			}
			addr, ctx = a, ctx.Parent
		default:
			return nil, nil
		}
	}
	return nil, nil
}

// storesTo: every direct store to the variable, including from closures that
// capture it (the closure's FreeVar is followed).
func storesTo(a ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		rs := v.Referrers()
		if rs == nil {
			return
		}
		for _, r := range *rs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, x)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						walk(fn.FreeVars[i])
					}
				}
			}
		}
	}
	walk(a)
	return out
}

// ---------------------------------------------------------------- terms

// Term is a canonical description of where a value comes from.
type Term struct {
	Op   string // const global root field index key elem call bin un phi cat recv new slice addr fn unknown
	Name string
	Args []*Term
	V    ssa.Value // a representative
	s    string
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.s == "" {
		t.s = t.str(0)
	}
	return t.s
}

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ",")
	}
	switch t.Op {
	case "const", "global", "root", "fn":
		return t.Name
	case "field":
		if len(t.Args) == 0 {
			return t.Name
		}
		return t.Args[0].str(d+1) + "." + t.Name
	case "index":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "elem":
		return t.Args[0].str(d+1) + "[]"
	case "key":
		return "key(" + as() + ")"
	case "call":
		return t.Name + "(" + as() + ")"
	case "bin":
		return "(" + t.Args[0].str(d+1) + " " + t.Name + " " + t.Args[1].str(d+1) + ")"
	case "un":
		return t.Name + "(" + as() + ")"
	case "phi":
		return "{" + strings.ReplaceAll(as(), ",", "|") + "}"
	case "cat":
		return "cat(" + as() + ")"
	default:
		return t.Op + ":" + t.Name + "(" + as() + ")"
	}
}

type tkey struct {
	ctx *Ctx
	v   ssa.Value
}

type termCache struct {
	m    map[tkey]*Term
	busy map[tkey]bool
}

func newTermCache() *termCache {
	return &termCache{m: map[tkey]*Term{}, busy: map[tkey]bool{}}
}

func mk(op, name string, args ...*Term) *Term { return &Term{Op: op, Name: name, Args: args} }

// T computes the term of v in ctx.
func (w *World) T(ctx *Ctx, v ssa.Value) *Term {
	if v == nil {
		return mk("unknown", "nil")
	}
	k := tkey{ctx, v}
	if t := w.tc.m[k]; t != nil {
		return t
	}
	if w.tc.busy[k] {
		return mk("loop", "")
	}
	w.tc.busy[k] = true
	t := w.term(ctx, v)
	delete(w.tc.busy, k)
	if t.V == nil {
		t.V = v
	}
	// results computed while a cycle is open may be partial; cache anyway only
	// when no cycle marker is inside
	if !t.has("loop") || len(w.tc.busy) == 0 {
		w.tc.m[k] = t
	}
	return t
}

func (t *Term) has(op string) bool {
	if t.Op == op {
		return true
	}
	for _, a := range t.Args {
		if a.has(op) {
			return true
		}
	}
	return false
}

func structField(t types.Type, i int) (string, *types.Named) {
	n := namedOf(t)
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	s, ok := u.(*types.Struct)
	if !ok {
		return fmt.Sprintf("f%d", i), n
	}
	return s.Field(i).Name(), n
}

func isRepoNamed(n *types.Named) bool { return n != nil && isRepoPkg(n.Obj().Pkg()) }

// fieldTerm canonicalises x.f : repository structs are rooted at their type.
func (w *World) fieldTerm(ctx *Ctx, x ssa.Value, idx int) *Term {
	f, n := structField(x.Type(), idx)
	if st, ok := deref(x.Type()).Underlying().(*types.Struct); ok && st.Field(idx).Embedded() && !isRepoNamed(n) {
		return w.T(ctx, x) // promoted fields read as fields of the outer object
	}
	// a locally built literal: substitute the stored value
	if al, ac := w.localStruct(ctx, x); al != nil {
		if ts, ok := w.fieldStores(ac, al, idx); ok {
			return ts
		}
	}
	if n != nil && n.Obj().Pkg() != nil && isRepoNamed(n) {
		return &Term{Op: "field", Name: tname(n) + "." + f}
	}
	base := w.T(ctx, x)
	if base.Op == "phi" || base.Op == "unknown" || base.Op == "loop" || base.Op == "new" {
		return &Term{Op: "field", Name: tname(x.Type()) + "." + f}
	}
	return mk("field", f, base)
}

// localStruct: x denotes (the address or value of) a struct variable built in
// this function or a callee whose fields are stored one by one.
func (w *World) localStruct(ctx *Ctx, x ssa.Value) (*ssa.Alloc, *Ctx) {
	for i := 0; i < 12; i++ {
		switch y := x.(type) {
		case *ssa.Alloc:
			if _, ok := deref(y.Type()).Underlying().(*types.Struct); ok {
				return y, ctx
			}
			// pointer variable with a single store
			sts := storesTo(y)
			if len(sts) == 1 && sts[0].Parent() == y.Parent() {
				x = sts[0].Val
				continue
			}
			return nil, nil
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return nil, nil
			}
			if al, ac := w.cellOf(ctx, y.X); al != nil {
				if _, ok := deref(al.Type()).Underlying().(*types.Struct); ok {
					return al, ac
				}
				sts := storesTo(al)
				if len(sts) == 1 && sts[0].Parent() == al.Parent() {
					x, ctx = sts[0].Val, ac
					continue
				}
			}
			return nil, nil
		case *ssa.Parameter:
			a := ctx.arg(y)
			if a == nil {
				return nil, nil
			}
			x, ctx = a, ctx.Parent
		case *ssa.FreeVar:
			b, bc := ctx.binding(y)
			if b == nil {
				return nil, nil
			}
			x, ctx = b, bc
		case *ssa.Call:
			ts := w.callees(ctx, &y.Call)
			if len(ts) != 1 || !w.IsRepo(ts[0].fn) || len(ts[0].fn.Blocks) == 0 || depthOf(ctx) > maxDepth || ctxHas(ctx, ts[0].fn) {
				return nil, nil
			}
			c2 := w.mkCtx(ctx, y, ts[0].fn, ts[0].clo, ts[0].mk)
			rets := returnsOf(ts[0].fn)
			if len(rets) != 1 || len(rets[0].Results) != 1 {
				return nil, nil
			}
			x, ctx = rets[0].Results[0], c2
		case *ssa.MakeInterface:
			x = y.X
		case *ssa.ChangeType:
			x = y.X
		default:
			return nil, nil
		}
	}
	return nil, nil
}

func depthOf(c *Ctx) int {
	if c == nil {
		return 0
	}
	return c.depth
}
func ctxHas(c *Ctx, fn *ssa.Function) bool { return c != nil && c.onStack(fn) }

func returnsOf(fn *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				out = append(out, r)
			}
		}
	}
	return out
}

// okReturns: the returns of fn that give result i a meaning: those that give
// a zero value along with an error, or with false, are left out if others
// remain.
func okReturns(fn *ssa.Function, i int) []*ssa.Return {
	all := returnsOf(fn)
	res := fn.Signature.Results()
	last := res.Len() - 1
	if last < 1 || i >= last {
		return all
	}
	lt := res.At(last).Type().String()
	if lt != "error" && lt != "bool" {
		return all
	}
	var out []*ssa.Return
	for _, r := range all {
		if len(r.Results) != res.Len() {
			return all
		}
		failed := false
		if k, ok := r.Results[last].(*ssa.Const); lt == "error" {
			failed = !ok || k.Value != nil
		} else {
			failed = ok && k.Value != nil && k.Value.String() == "false"
		}
		if k, ok := r.Results[i].(*ssa.Const); ok && failed && (k.Value == nil || k.Value.String() == `""` || k.Value.String() == "0" || k.Value.String() == "false") {
			continue
		}
		out = append(out, r)
	}
	if len(out) == 0 {
		return all
	}
	return out
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldStores: terms stored to al.f in its own function. ok=false when the
// struct's content may come from elsewhere (decoded, copied whole, escapes to
// an external call).
func (w *World) fieldStores(ctx *Ctx, al *ssa.Alloc, idx int) (*Term, bool) {
	var vals []*Term
	rs := al.Referrers()
	if rs == nil {
		return nil, false
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field == idx {
				for _, rr := range *x.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == x {
						vals = append(vals, w.T(ctx, st.Val))
					}
				}
			}
		case *ssa.Store:
			if x.Addr == al {
				// whole struct copied in
				if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil {
					continue // zero value
				}
				if f, ok := w.wholeField(ctx, x.Val, idx); ok {
					vals = append(vals, f)
					continue
				}
				return nil, false
			}
		case ssa.CallInstruction:
			if callee := x.Common().StaticCallee(); callee == nil || !w.IsRepo(callee) {
				if decoderCall(x.Common()) {
					return nil, false
				}
			}
		case *ssa.MakeInterface:
			for _, rr := range *x.Referrers() {
				if ci, ok := rr.(ssa.CallInstruction); ok && decoderCall(ci.Common()) {
					return nil, false
				}
			}
		}
	}
	if len(vals) == 0 {
		return nil, false
	}
	return phiTerm(vals), true
}

func (w *World) wholeField(ctx *Ctx, v ssa.Value, idx int) (*Term, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ac := w.localStruct(ctx, u.X); al != nil {
			return w.fieldStores(ac, al, idx)
		}
	}
	if c, ok := v.(*ssa.Call); ok {
		if al, ac := w.localStruct(ctx, c); al != nil {
			return w.fieldStores(ac, al, idx)
		}
	}
	return nil, false
}

func decoderCall(cc *ssa.CallCommon) bool {
	n := callName(cc)
	l := strings.ToLower(n)
	return strings.Contains(l, "unmarshal") || strings.Contains(l, "decode") || strings.Contains(l, "scan")
}

func phiTerm(ts []*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "phi" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.Op == "loop" {
			return
		}
		s := t.String()
		if !seen[s] {
			seen[s] = true
			out = append(out, t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 0 {
		return mk("loop", "")
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return &Term{Op: "phi", Args: out}
}

// callName is the canonical name of the called function:
// "pkg/path.Func", "pkg/path.Type.Method" (also for interface methods), or
// "builtin.len".
func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		t := cc.Value.Type()
		return tname(t) + "." + cc.Method.Name()
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + f.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return fname(f)
	}
	return "dynamic"
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if isZeroStruct(c.Type()) {
			return mk("const", "zero")
		}
		return mk("const", "nil")
	}
	switch c.Value.Kind() {
	case constant.String:
		return mk("const", fmt.Sprintf("%q", constant.StringVal(c.Value)))
	default:
		return mk("const", c.Value.ExactString())
	}
}

func isZeroStruct(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (w *World) term(ctx *Ctx, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk("global", pkgShort(x.Pkg.Pkg)+"."+x.Name())
	case *ssa.Function:
		return mk("fn", fname(x))
	case *ssa.Builtin:
		return mk("fn", "builtin."+x.Name())
	case *ssa.Parameter:
		if a := ctx.arg(x); a != nil {
			return w.T(ctx.Parent, a)
		}
		if ctx != nil && ctx.Site != nil && ctx.Args != nil && callName(ctx.Site.Common()) == "sync.Map.Range" && len(ctx.Fn.Params) >= 2 {
			// a callback of Range sees an entry of the map
			m := w.T(ctx.Parent, ctx.Site.Common().Args[0])
			switch x {
			case ctx.Fn.Params[len(ctx.Fn.Params)-2]:
				return mk("key", "", m)
			case ctx.Fn.Params[len(ctx.Fn.Params)-1]:
				return mk("elem", "", m)
			}
		}
		return w.rootTerm(x, x.Type())
	case *ssa.FreeVar:
		if b, bc := ctx.binding(x); b != nil {
			return w.T(bc, b)
		}
		return w.rootTerm(x, x.Type())
	case *ssa.Alloc:
		return mk("new", tname(x.Type()))
	case *ssa.FieldAddr:
		return w.fieldTerm(ctx, x.X, x.Field)
	case *ssa.Field:
		return w.fieldTerm(ctx, x.X, x.Field)
	case *ssa.IndexAddr:
		return w.elemTerm(ctx, x.X)
	case *ssa.Index:
		return w.elemTerm(ctx, x.X)
	case *ssa.Lookup:
		return indexTerm(w.T(ctx, x.X), w.T(ctx, x.Index))
	case *ssa.Next:
		return mk("next", "")
	case *ssa.Range:
		return w.T(ctx, x.X)
	case *ssa.Extract:
		return w.extractTerm(ctx, x)
	case *ssa.Phi:
		var ts []*Term
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			ts = append(ts, w.T(ctx, e))
		}
		return phiTerm(ts)
	case *ssa.ChangeType:
		return w.T(ctx, x.X)
	case *ssa.Convert:
		return w.T(ctx, x.X)
	case *ssa.ChangeInterface:
		return w.T(ctx, x.X)
	case *ssa.MakeInterface:
		return w.T(ctx, x.X)
	case *ssa.SliceToArrayPointer:
		return w.T(ctx, x.X)
	case *ssa.TypeAssert:
		return w.T(ctx, x.X)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			if al, ok := x.X.(*ssa.Alloc); ok {
				return w.arrayTerm(ctx, al)
			}
			return w.T(ctx, x.X)
		}
		lo, hi := mk("const", "0"), mk("const", "end")
		if x.Low != nil {
			lo = w.T(ctx, x.Low)
		}
		if x.High != nil {
			hi = w.T(ctx, x.High)
		}
		return mk("slice", "", w.T(ctx, x.X), lo, hi)
	case *ssa.MakeSlice:
		return mk("new", tname(x.Type()), w.T(ctx, x.Len))
	case *ssa.MakeMap:
		return mk("new", tname(x.Type()))
	case *ssa.MakeChan:
		return mk("new", tname(x.Type()), w.T(ctx, x.Size))
	case *ssa.MakeClosure:
		return mk("fn", fname(x.Fn.(*ssa.Function)))
	case *ssa.BinOp:
		return mk("bin", x.Op.String(), w.T(ctx, x.X), w.T(ctx, x.Y))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return w.loadTerm(ctx, x.X, x)
		case token.ARROW:
			return mk("recv", "", w.T(ctx, x.X))
		default:
			return mk("un", x.Op.String(), w.T(ctx, x.X))
		}
	case *ssa.Call:
		return w.callTerm(ctx, x, -1)
	case *ssa.Select:
		return mk("select", "")
	}
	return mk("unknown", fmt.Sprintf("%T", v))
}

func (w *World) rootTerm(v ssa.Value, t types.Type) *Term {
	if n := namedOf(t); n != nil {
		if b, ok := n.Underlying().(*types.Basic); !ok || b == nil {
			return mk("root", tname(t))
		}
	}
	fn := v.Parent()
	return mk("root", fname(fn)+"#"+v.Name())
}

// indexTerm: m[k]; with k a key being iterated over it is m's element.
func indexTerm(m, k *Term) *Term {
	if k.Op == "key" && k.Args[0].String() == m.String() {
		return mk("elem", "", m)
	}
	return mk("index", "", m, k)
}

func (w *World) elemTerm(ctx *Ctx, x ssa.Value) *Term {
	b := w.T(ctx, x)
	return mk("elem", "", b)
}

// arrayTerm: a variadic/literal array: cat of the stored elements in order.
func (w *World) arrayTerm(ctx *Ctx, al *ssa.Alloc) *Term {
	type e struct {
		i int64
		t *Term
	}
	var es []e
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
					es = append(es, e{c.Int64(), w.T(ctx, st.Val)})
				}
			}
		}
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].i < es[j].i })
	t := mk("lit", tname(al.Type()))
	for _, x := range es {
		t.Args = append(t.Args, x.t)
	}
	return t
}

func (w *World) loadTerm(ctx *Ctx, addr ssa.Value, at ssa.Instruction) *Term {
	switch a := addr.(type) {
	case *ssa.Global:
		return w.T(ctx, a)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return w.T(ctx, addr)
	}
	if al, ac := w.cellOf(ctx, addr); al != nil {
		return w.cellTerm(ac, al)
	}
	t := w.T(ctx, addr)
	return t
}

func (w *World) cellTerm(ctx *Ctx, al *ssa.Alloc) *Term {
	k := tkey{ctx, al}
	_ = k
	var ts []*Term
	for _, st := range storesTo(al) {
		sc := ctx
		if st.Parent() != al.Parent() {
			sc = w.closureCtxFor(ctx, st.Parent())
		}
		ts = append(ts, w.T(sc, st.Val))
	}
	// element-wise copy(dst, src)
	if len(ts) == 0 {
		return w.rootTerm(al, al.Type())
	}
	return phiTerm(ts)
}

// closureCtxFor makes a context for a closure of ctx.Fn so that its captured
// variables resolve (parameters stay symbolic).
func (w *World) closureCtxFor(ctx *Ctx, fn *ssa.Function) *Ctx {
	if fn.Parent() == nil {
		return nil
	}
	pc := ctx
	if ctx == nil || ctx.Fn != fn.Parent() {
		if ctx != nil && fn.Parent().Parent() != nil {
			pc = w.closureCtxFor(ctx, fn.Parent())
		} else {
			pc = nil
		}
	}
	if pc == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return w.mkCtx(nil, nil, fn, pc, mc)
			}
		}
	}
	return nil
}

func (w *World) extractTerm(ctx *Ctx, x *ssa.Extract) *Term {
	switch tu := x.Tuple.(type) {
	case *ssa.Call:
		return w.callTerm(ctx, tu, x.Index)
	case *ssa.Lookup:
		if x.Index == 0 {
			return indexTerm(w.T(ctx, tu.X), w.T(ctx, tu.Index))
		}
		return mk("has", "", w.T(ctx, tu.X), w.T(ctx, tu.Index))
	case *ssa.Next:
		rg, ok := tu.Iter.(*ssa.Range)
		if !ok {
			return mk("unknown", "next")
		}
		b := w.T(ctx, rg.X)
		switch x.Index {
		case 0:
			return mk("more", "", b)
		case 1:
			return mk("key", "", b)
		default:
			return mk("elem", "", b)
		}
	case *ssa.TypeAssert:
		if x.Index == 0 {
			return w.T(ctx, tu.X)
		}
		return mk("isa", tname(tu.AssertedType), w.T(ctx, tu.X))
	case *ssa.UnOp:
		if tu.Op == token.ARROW {
			if x.Index == 0 {
				return mk("recv", "", w.T(ctx, tu.X))
			}
			return mk("recvok", "", w.T(ctx, tu.X))
		}
	case *ssa.Select:
		if x.Index >= 2 {
			n := 0
			for _, st := range tu.States {
				if st.Dir == types.RecvOnly {
					if n == x.Index-2 {
						return mk("recv", "", w.T(ctx, st.Chan))
					}
					n++
				}
			}
		}
		return mk("select", fmt.Sprint(x.Index))
	}
	return mk("unknown", "extract")
}

// callTerm: the term of result idx (-1: the single result) of a call.
func (w *World) callTerm(ctx *Ctx, c *ssa.Call, idx int) *Term {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			base := w.T(ctx, cc.Args[0])
			var rest []*Term
			for _, a := range cc.Args[1:] {
				t := w.T(ctx, a)
				if t.Op == "lit" {
					rest = append(rest, t.Args...)
				} else {
					rest = append(rest, t)
				}
			}
			return &Term{Op: "cat", Args: append([]*Term{base}, rest...)}
		case "len", "cap":
			return mk("call", b.Name(), w.T(ctx, cc.Args[0]))
		}
		t := mk("call", "builtin."+b.Name())
		for _, a := range cc.Args {
			t.Args = append(t.Args, w.T(ctx, a))
		}
		return t
	}
	ts := w.callees(ctx, cc)
	if len(ts) == 1 && w.IsRepo(ts[0].fn) && len(ts[0].fn.Blocks) > 0 && depthOf(ctx) < maxDepth && !ctxHas(ctx, ts[0].fn) && !w.opaqueFn(ts[0].fn) {
		c2 := w.mkCtx(ctx, c, ts[0].fn, ts[0].clo, ts[0].mk)
		var rs []*Term
		i := idx
		if i < 0 {
			i = 0
		}
		for _, r := range okReturns(ts[0].fn, i) {
			if i < len(r.Results) {
				rs = append(rs, w.T(c2, r.Results[i]))
			}
		}
		if len(rs) > 0 {
			return phiTerm(rs)
		}
	}
	name := callName(cc)
	t := mk("call", name)
	if cc.IsInvoke() {
		t.Args = append(t.Args, w.T(ctx, cc.Value))
	} else if name == "dynamic" {
		t.Args = append(t.Args, w.T(ctx, cc.Value))
	}
	for _, a := range cc.Args {
		at := w.T(ctx, a)
		t.Args = append(t.Args, at)
	}
	if idx > 0 {
		t.Name += fmt.Sprintf("#%d", idx)
	}
	// accumulators: bytes.Buffer / strings.Builder / hash.Hash
	switch {
	case isAccRead(name):
		var recv ssa.Value
		if cc.IsInvoke() {
			recv = cc.Value
		} else if len(cc.Args) > 0 {
			recv = cc.Args[0]
		}
		if recv != nil {
			if ws := w.accWrites(ctx, recv); ws != nil {
				t = &Term{Op: "cat", Args: ws}
				if strings.HasSuffix(name, ".Sum") {
					t = mk("call", "hash", w.T(ctx, recv), t)
				}
			}
		}
	}
	return t
}

// opaqueFn: functions that terms do not look into (their name is their meaning).
func (w *World) opaqueFn(fn *ssa.Function) bool {
	switch fname(fn) {
	case "conversion.GetThreshold", "common.getHighestFreq", "common.MsgToHashInt", "conversion.GetTssPubKey":
		return true
	}
	return false
}

func isAccRead(n string) bool {
	switch n {
	case "bytes.Buffer.Bytes", "bytes.Buffer.String", "strings.Builder.String", "hash.Hash.Sum":
		return true
	}
	return false
}

// accWrites: what is written, in order of appearance, to an accumulator object.
func (w *World) accWrites(ctx *Ctx, recv ssa.Value) []*Term {
	type wr struct {
		pos token.Pos
		t   *Term
		in  ssa.Instruction
	}
	var ws []wr
	var reads []*ssa.BasicBlock
	obj := recv
	if al, ac := w.cellOf(ctx, recv); al != nil {
		obj, ctx = al, ac
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Call:
				n := callName(&x.Call)
				m := n[strings.LastIndex(n, ".")+1:]
				args := x.Call.Args
				isRecv := false
				if x.Call.IsInvoke() {
					isRecv = x.Call.Value == v
				} else if len(args) > 0 && args[0] == v {
					isRecv = true
					args = args[1:]
				}
				if isRecv && (m == "Write" || m == "WriteString" || m == "WriteByte" || m == "WriteRune") && len(args) == 1 {
					ws = append(ws, wr{x.Pos(), w.T(ctx, args[0]), x})
				}
				if isRecv && isAccRead(n) {
					reads = append(reads, x.Block())
				}
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.ChangeInterface:
				walk(x)
			}
		}
	}
	walk(obj)
	sort.SliceStable(ws, func(i, j int) bool { return ws[i].pos < ws[j].pos })
	var out []*Term
	for _, x := range ws {
		t := x.t
		for _, b := range reads {
			if !alwaysBefore(x.in.Block(), b) {
				t = &Term{Op: "maybe", Args: []*Term{x.t}}
				break
			}
		}
		out = append(out, t)
	}
	// bytes.NewBuffer(x)
	if c, ok := obj.(*ssa.Call); ok {
		n := callName(&c.Call)
		if n == "bytes.NewBuffer" || n == "bytes.NewBufferString" {
			out = append([]*Term{w.T(ctx, c.Call.Args[0])}, out...)
		}
	}
	return out
}

// alwaysBefore: on every path to b, a was passed: a dominates b, or is passed
// in every round of a loop that is passed before b.
func alwaysBefore(a, b *ssa.BasicBlock) bool {
	if a.Parent() != b.Parent() || a.Dominates(b) {
		return true
	}
	for _, h := range a.Parent().Blocks {
		if !h.Dominates(a) || !h.Dominates(b) {
			continue
		}
		latch := 0
		good := true
		for _, p := range h.Preds {
			if h.Dominates(p) {
				latch++
				good = good && a.Dominates(p)
			}
		}
		if latch > 0 && good {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- term queries

// alts lists the alternatives of a term.
func (t *Term) alts() []*Term {
	if t.Op == "phi" {
		return t.Args
	}
	return []*Term{t}
}

// flat flattens concatenation; empty literals vanish.
func (t *Term) flat() []*Term {
	switch t.Op {
	case "cat", "lit":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, a.flat()...)
		}
		return out
	case "new":
		return nil
	case "const":
		if t.Name == "nil" || t.Name == `""` {
			return nil
		}
	case "bin":
		if t.Name == "+" {
			return append(t.Args[0].flat(), t.Args[1].flat()...)
		}
	}
	return []*Term{t}
}

func (t *Term) walk(f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.Args {
		a.walk(f)
	}
}

// calls: t contains the result of a function whose name ends in suffix.
func (t *Term) calls(suffix string) bool {
	found := false
	t.walk(func(x *Term) bool {
		s := x.String()
		if i := strings.Index(s, "("); i > 0 && strings.HasSuffix(s[:i], suffix) {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) mentions(s string) bool {
	found := false
	t.walk(func(x *Term) bool {
		if x.String() == s {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) isField(names ...string) bool {
	s := t.String()
	for _, n := range names {
		if s == n {
			return true
		}
	}
	return false
}

// every reports whether all alternatives satisfy p (and there is one).
func (t *Term) every(p func(*Term) bool) bool {
	as := t.alts()
	for _, a := range as {
		if !p(a) {
			return false
		}
	}
	return len(as) > 0
}

func (t *Term) some(p func(*Term) bool) bool {
	for _, a := range t.alts() {
		if p(a) {
			return true
		}
	}
	return false
}
