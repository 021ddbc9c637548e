package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a path-sensitive interprocedural dataflow analysis in the style
// of property simulation: the abstract state at a program point is
//   (call string, property state, finite facts about values)
// and it is propagated to a fixpoint over the finite set of abstract states.
// Facts are constants, nil-ness and booleans only; conditions the facts do not
// decide are followed both ways. No path is handed to a solver.

type AbsVal string

const (
	aNil    AbsVal = "nil"
	aNonNil AbsVal = "nonnil"
	aTrue   AbsVal = "true"
	aFalse  AbsVal = "false"
)

type fkey struct {
	ctx int
	v   int
	idx int // -1 value, >=0 tuple component, -2 memory cell
}

type dfr struct {
	ctx *Ctx
	in  *ssa.Defer
}

type State struct {
	ctx    *Ctx
	blk    *ssa.BasicBlock
	idx    int
	facts  map[fkey]AbsVal
	defers []dfr
	A      map[string]string // property state
	parent *State
	note   string
}

func (s *State) Get(k string) string { return s.A[k] }

func (s *State) clone() *State {
	n := &State{ctx: s.ctx, blk: s.blk, idx: s.idx, parent: s.parent, note: s.note}
	n.facts = make(map[fkey]AbsVal, len(s.facts)+2)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.A = make(map[string]string, len(s.A)+1)
	for k, v := range s.A {
		n.A[k] = v
	}
	n.defers = append([]dfr(nil), s.defers...)
	return n
}

func (s *State) With(kv ...string) *State {
	n := s.clone()
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i+1] == "" {
			delete(n.A, kv[i])
		} else {
			n.A[kv[i]] = kv[i+1]
		}
	}
	return n
}

// Outcome of a hook: the state after the instruction.
type Outcome struct {
	S       *State
	Handled bool // do not apply the default treatment (no inlining, no havoc)
	Stop    bool // drop this path
}

type Hooks struct {
	// OnInstr is called for every instruction; nil means default.
	OnInstr func(e *Engine, s *State, in ssa.Instruction) []Outcome
	// OnSelect is called for every chosen select case (k == -1: default).
	OnSelect func(e *Engine, s *State, sel *ssa.Select, k int) *State
	// OnBranch is called with the outcome of a two-way branch.
	OnBranch func(e *Engine, s *State, cond ssa.Value, val bool) *State
	// OnPhi is called when a phi takes the value of an edge; pre is the state
	// at the end of the block left. It may set properties in s.A.
	OnPhi func(e *Engine, pre, s *State, p *ssa.Phi, edge ssa.Value)
	// OnReturn is called when the entry function returns.
	OnReturn func(e *Engine, s *State, r *ssa.Return)
	// OnRet is called at every return of an inlined function, before popping.
	OnRet func(e *Engine, s *State, r *ssa.Return) *State
	// Interesting marks instructions for which a function must be entered.
	Interesting func(in ssa.Instruction) bool
	// NoInline / ForceInline override relevance.
	NoInline    func(fn *ssa.Function) bool
	ForceInline func(fn *ssa.Function) bool
	SkipGo      bool
	// Track: remember on each path which value a phi took or a variable was
	// last assigned (see Engine.Resolve).
	Track func(v ssa.Value) bool
}

type Violation struct {
	Where string
	Msg   string
	Path  []string
	Key   string // stable identification (no line numbers)
}

type Engine struct {
	w      *World
	h      *Hooks
	rel    map[*ssa.Function]bool
	work   []*State
	seen   map[string]bool
	ids    map[ssa.Value]int
	live   map[*ssa.Function]*liveInfo
	Viol   []Violation
	vseen  map[string]bool
	States int
	Fns    map[*ssa.Function]bool
	Obl    map[string]bool // obligations checked (distinct)
	Match  map[string]map[string]bool
	Max    int
	Over   bool
	defs   map[string]ctxVal
	help   map[*ssa.Function]bool
	cnt    map[string]int
}

// dump shows where abstract states pile up (VERIF_DEBUG only).
func (e *Engine) dump() {
	var ks []string
	for k := range e.cnt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return e.cnt[ks[i]] > e.cnt[ks[j]] })
	for i, k := range ks {
		if i > 15 {
			break
		}
		fmt.Fprintln(os.Stderr, "  ", e.cnt[k], k)
	}
	for i := 0; i < 6 && i < len(e.work); i++ {
		fmt.Fprintln(os.Stderr, "  ", short2(e.key(e.work[len(e.work)-1-i])))
	}
}

func short2(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func NewEngine(w *World, h *Hooks) *Engine {
	return &Engine{w: w, h: h, seen: map[string]bool{}, ids: map[ssa.Value]int{}, live: map[*ssa.Function]*liveInfo{},
		vseen: map[string]bool{}, Fns: map[*ssa.Function]bool{}, Obl: map[string]bool{}, Match: map[string]map[string]bool{}, Max: 600000}
}

func (e *Engine) id(v ssa.Value) int {
	if i, ok := e.ids[v]; ok {
		return i
	}
	i := len(e.ids) + 1
	e.ids[v] = i
	return i
}

// Hit records that an anchor (guard, sink...) was met at an instruction.
func (e *Engine) Hit(kind string, in ssa.Instruction) {
	m := e.Match[kind]
	if m == nil {
		m = map[string]bool{}
		e.Match[kind] = m
	}
	m[e.w.InstrPos(in)] = true
}

func (e *Engine) Violate(s *State, in ssa.Instruction, msg string) {
	where := e.w.InstrPos(in)
	key := fname(in.Parent()) + "|" + msg
	if e.vseen[key] {
		return
	}
	e.vseen[key] = true
	e.Viol = append(e.Viol, Violation{Where: where + " (" + fname(in.Parent()) + ")", Msg: msg, Path: e.path(s), Key: key})
}

func (e *Engine) path(s *State) []string {
	var out []string
	for x := s; x != nil; x = x.parent {
		if x.note != "" {
			out = append([]string{x.note}, out...)
		}
	}
	if len(out) > 60 {
		out = append([]string{"..."}, out[len(out)-60:]...)
	}
	return append(out, "in "+s.ctx.stack())
}

// ---------------------------------------------------------------- relevance

func (e *Engine) relevant(fn *ssa.Function) bool {
	if e.h.NoInline != nil && e.h.NoInline(fn) {
		return false
	}
	if e.h.ForceInline != nil && e.h.ForceInline(fn) {
		return true
	}
	if e.rel == nil {
		e.computeRel()
	}
	return e.rel[fn]
}

func (e *Engine) computeRel() {
	e.rel = map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var q []*ssa.Function
	mark := func(fn *ssa.Function) {
		if !e.rel[fn] {
			e.rel[fn] = true
			q = append(q, fn)
		}
	}
	for _, fn := range e.w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if e.h.Interesting == nil || e.h.Interesting(in) {
					mark(fn)
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Function:
						callers[x] = append(callers[x], fn)
					case *ssa.MakeClosure:
						callers[x.Fn.(*ssa.Function)] = append(callers[x.Fn.(*ssa.Function)], fn)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					callers[mc.Fn.(*ssa.Function)] = append(callers[mc.Fn.(*ssa.Function)], fn)
				}
			}
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, c := range callers[f] {
			mark(c)
		}
	}
}

// ---------------------------------------------------------------- liveness

type liveInfo struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (e *Engine) liveness(fn *ssa.Function) *liveInfo {
	if l := e.live[fn]; l != nil {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				one := map[ssa.Value]bool{}
				for v := range l.in[s] {
					one[v] = true
				}
				pi := predIndex(b, s)
				var add []ssa.Value
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(one, ph)
					if pi >= 0 {
						add = append(add, ph.Edges[pi])
					}
				}
				for v := range one {
					cur[v] = true
				}
				for _, v := range add {
					cur[v] = true
				}
			}
			// phis of successors are defined on the edge; several preds handled above
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			// a phi of b itself is live-in as soon as it is used below: keep
			if len(cur) != len(l.in[b]) {
				l.in[b] = cur
				changed = true
			}
		}
	}
	e.live[fn] = l
	return l
}

func predIndex(p, b *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

// liveAfter reports values of fn still needed after instruction idx of b.
func (e *Engine) liveAfter(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	l := e.liveness(b.Parent())
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.in[s] {
			cur[v] = true
		}
		pi := predIndex(b, s)
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			cur[ph.Edges[pi]] = true
		}
	}
	for j := len(b.Instrs) - 1; j > idx; j-- {
		for _, op := range b.Instrs[j].Operands(nil) {
			if *op != nil {
				cur[*op] = true
			}
		}
	}
	return cur
}

func (e *Engine) prune(s *State, keep map[ssa.Value]bool) {
	ids := map[int]bool{}
	for v := range keep {
		ids[e.id(v)] = true
	}
	for k := range s.facts {
		if k.ctx == s.ctx.ID && k.idx > -2 && !ids[k.v] {
			delete(s.facts, k)
		}
	}
}

// ---------------------------------------------------------------- values

func (e *Engine) setFact(s *State, ctx *Ctx, v ssa.Value, idx int, a AbsVal) {
	k := fkey{ctx.ID, e.id(v), idx}
	if a == "" {
		delete(s.facts, k)
	} else {
		s.facts[k] = a
	}
}

// SetVal assigns an abstract value to the result of an instruction.
func (e *Engine) SetVal(s *State, v ssa.Value, idx int, a AbsVal) { e.setFact(s, s.ctx, v, idx, a) }

// Eval is the abstract value of v at s ("" unknown).
func (e *Engine) Eval(s *State, v ssa.Value) AbsVal { return e.eval(s, s.ctx, v) }

func (e *Engine) eval(s *State, ctx *Ctx, v ssa.Value) AbsVal {
	if a, ok := s.facts[fkey{ctx.ID, e.id(v), -1}]; ok {
		return a
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isZeroStruct(x.Type()) {
				return ""
			}
			return aNil
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return aTrue
			}
			return aFalse
		}
		return AbsVal("c:" + x.Value.ExactString())
	case *ssa.Global, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr:
		return aNonNil
	case *ssa.MakeInterface:
		if a := e.eval(s, ctx, x.X); strings.HasPrefix(string(a), "g:") {
			return a
		}
		return aNonNil
	case *ssa.ChangeInterface:
		return e.eval(s, ctx, x.X)
	case *ssa.ChangeType:
		return e.eval(s, ctx, x.X)
	case *ssa.Convert:
		a := e.eval(s, ctx, x.X)
		if strings.HasPrefix(string(a), "c:") {
			return a
		}
	case *ssa.Parameter:
		if ctx.Parent != nil {
			if a := ctx.arg(x); a != nil {
				return e.eval(s, ctx.Parent, a)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if _, _, n, ok := e.w.constList(ctx, x.Call.Args[0]); ok {
				return AbsVal("c:" + strconv.Itoa(n))
			}
		}
	}
	return ""
}

// constList: v is the list literal held in the array al of n elements.
func (w *World) constList(ctx *Ctx, v ssa.Value) (*ssa.Alloc, *Ctx, int, bool) {
	c, o := w.origin(ctx, v)
	if sl, ok := o.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil && sl.Max == nil {
		o = sl.X
	}
	al, ok := o.(*ssa.Alloc)
	if !ok || c == nil {
		return nil, nil, 0, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || at.Len() > 12 || al.Comment != "slicelit" && al.Comment != "varargs" && al.Comment != "complit" {
		return nil, nil, 0, false
	}
	return al, c, int(at.Len()), true
}

// listElem: the value stored at index k of a list literal.
func listElem(al *ssa.Alloc, k int) ssa.Value {
	var out ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, isC := ia.Index.(*ssa.Const)
		for _, rr := range *ia.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok || st.Addr != ia {
				continue
			}
			if !isC {
				return nil
			}
			if int(c.Int64()) == k {
				if out != nil {
					return nil
				}
				out = st.Val
			}
		}
	}
	return out
}

// counting: x is the increment of a loop over a list literal.
func (e *Engine) counting(ctx *Ctx, x *ssa.BinOp) bool {
	if _, ok := x.X.(*ssa.Phi); !ok || x.Op != token.ADD {
		return false
	}
	for _, v := range []ssa.Value{x, x.X} {
		for _, r := range *v.Referrers() {
			b, ok := r.(*ssa.BinOp)
			if !ok {
				continue
			}
			o := b.Y
			if o == v {
				o = b.X
			}
			switch y := o.(type) {
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if _, _, _, ok := e.w.constList(ctx, y.Call.Args[0]); ok {
						return true
					}
				}
			case *ssa.Const:
				if b != x && y.Value != nil && y.Value.Kind() == constant.Int && y.Int64() >= 0 && y.Int64() <= 12 {
					return true
				}
			}
		}
	}
	return false
}

func notA(a AbsVal) AbsVal {
	switch a {
	case aTrue:
		return aFalse
	case aFalse:
		return aTrue
	}
	return ""
}

func boolA(b bool) AbsVal {
	if b {
		return aTrue
	}
	return aFalse
}

func isG(a AbsVal) bool { return strings.HasPrefix(string(a), "g:") }
func isC(a AbsVal) bool { return strings.HasPrefix(string(a), "c:") }

// eqA decides a==b from abstract values ("" unknown).
func eqA(a, b AbsVal) AbsVal {
	if a == "" || b == "" {
		return ""
	}
	if a == aNil && b == aNil {
		return aTrue
	}
	nn := func(x AbsVal) bool { return x == aNonNil || isG(x) }
	if (a == aNil && nn(b)) || (b == aNil && nn(a)) {
		return aFalse
	}
	if isC(a) && isC(b) {
		return boolA(a == b)
	}
	if isG(a) && isG(b) {
		return boolA(a == b)
	}
	if (a == aTrue || a == aFalse) && (b == aTrue || b == aFalse) {
		return boolA(a == b)
	}
	return ""
}

func (e *Engine) binop(s *State, x *ssa.BinOp) AbsVal {
	a, b := e.Eval(s, x.X), e.Eval(s, x.Y)
	switch x.Op {
	case token.EQL:
		return eqA(a, b)
	case token.NEQ:
		return notA(eqA(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isC(a) && isC(b) {
			va, vb := constOf(x.X, a), constOf(x.Y, b)
			if va != nil && vb != nil && va.Kind() == vb.Kind() {
				return boolA(constant.Compare(va, x.Op, vb))
			}
		}
	case token.ADD:
		if isC(a) && isC(b) && e.counting(s.ctx, x) {
			va, vb := constOf(x.X, a), constOf(x.Y, b)
			if va != nil && vb != nil {
				sum := constant.BinaryOp(va, token.ADD, vb)
				if constant.Compare(sum, token.LEQ, constant.MakeInt64(13)) {
					return AbsVal("c:" + sum.ExactString())
				}
			}
		}
	}
	return ""
}

func constOf(v ssa.Value, a AbsVal) constant.Value {
	t := strings.TrimPrefix(string(a), "c:")
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if strings.HasPrefix(t, "-") {
			if c := constant.MakeFromLiteral(t[1:], token.INT, 0); c.Kind() == constant.Int {
				return constant.UnaryOp(token.SUB, c, 0)
			}
			return nil
		}
		if c := constant.MakeFromLiteral(t, token.INT, 0); c.Kind() == constant.Int {
			return c
		}
	}
	return nil
}

// refine records that the boolean v is val, and what follows for its operands.
func (e *Engine) refine(s *State, ctx *Ctx, v ssa.Value, val bool, depth int) {
	if depth > 8 {
		return
	}
	if _, ok := v.(*ssa.Const); !ok {
		e.setFact(s, ctx, v, -1, boolA(val))
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			e.refine(s, ctx, x.X, !val, depth+1)
		} else if x.Op == token.MUL {
			e.refineCell(s, ctx, x, boolA(val))
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		eq := (x.Op == token.EQL) == val
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			b := e.eval(s, ctx, p[1])
			if b == "" || b == aNonNil {
				continue
			}
			if eq {
				e.refineVal(s, ctx, p[0], b, depth+1)
			} else if b == aNil {
				if old := e.eval(s, ctx, p[0]); old == "" {
					e.refineVal(s, ctx, p[0], aNonNil, depth+1)
				}
			} else if b == aTrue || b == aFalse {
				e.refineVal(s, ctx, p[0], notA(b), depth+1)
			}
		}
	case *ssa.Call:
		if callName(&x.Call) == "errors.Is" && val {
			if b := e.eval(s, ctx, x.Call.Args[1]); isG(b) {
				e.refineVal(s, ctx, x.Call.Args[0], b, depth+1)
			}
		}
		if val && ofErrors(&x.Call) {
			e.refineVal(s, ctx, x.Call.Args[0], aNonNil, depth+1)
		}
	case *ssa.Parameter:
		if ctx.Parent != nil {
			if a := ctx.arg(x); a != nil {
				e.refine(s, ctx.Parent, a, val, depth+1)
			}
		}
	}
}

func (e *Engine) refineVal(s *State, ctx *Ctx, v ssa.Value, a AbsVal, depth int) {
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if a == aTrue || a == aFalse {
		e.refine(s, ctx, v, a == aTrue, depth+1)
		return
	}
	e.setFact(s, ctx, v, -1, a)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			e.refineCell(s, ctx, x, a)
		}
	case *ssa.ChangeInterface:
		e.refineVal(s, ctx, x.X, a, depth+1)
	case *ssa.Parameter:
		if ctx.Parent != nil {
			if p := ctx.arg(x); p != nil {
				e.refineVal(s, ctx.Parent, p, a, depth+1)
			}
		}
	}
}

// refineCell: a value loaded from a local variable is refined; the variable too
// when nothing can have changed it since (the load is in the branching block).
func (e *Engine) refineCell(s *State, ctx *Ctx, ld *ssa.UnOp, a AbsVal) {
	al, ac := e.w.cellOf(ctx, ld.X)
	if al == nil || ac == nil {
		return
	}
	b := ld.Block()
	if s.blk != b {
		return
	}
	after := false
	for _, in := range b.Instrs {
		if in == ssa.Instruction(ld) {
			after = true
			continue
		}
		if !after {
			continue
		}
		if st, ok := in.(*ssa.Store); ok {
			if a2, _ := e.w.cellOf(ctx, st.Addr); a2 == al {
				return
			}
		}
	}
	s.facts[fkey{ac.ID, e.id(al), -2}] = a
}

// ---------------------------------------------------------------- exploration

func (e *Engine) key(s *State) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:%d:%d|", s.ctx.ID, s.blk.Index, s.idx)
	ks := make([]fkey, 0, len(s.facts))
	for k := range s.facts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].ctx != ks[j].ctx {
			return ks[i].ctx < ks[j].ctx
		}
		if ks[i].v != ks[j].v {
			return ks[i].v < ks[j].v
		}
		return ks[i].idx < ks[j].idx
	})
	for _, k := range ks {
		fmt.Fprintf(&sb, "%d.%d.%d=%s,", k.ctx, k.v, k.idx, s.facts[k])
	}
	sb.WriteByte('|')
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "%d@%p,", d.ctx.ID, d.in)
	}
	sb.WriteByte('|')
	as := make([]string, 0, len(s.A))
	for k := range s.A {
		as = append(as, k)
	}
	sort.Strings(as)
	for _, k := range as {
		sb.WriteString(k + "=" + s.A[k] + ";")
	}
	return sb.String()
}

func (e *Engine) push(s *State) {
	k := e.key(s)
	if e.seen[k] {
		return
	}
	e.seen[k] = true
	e.work = append(e.work, s)
}

// Run explores from the entry with an initial property state.
func (e *Engine) Run(entry *ssa.Function, init map[string]string) {
	ctx := e.w.Root(entry)
	s := &State{ctx: ctx, blk: entry.Blocks[0], facts: map[fkey]AbsVal{}, A: map[string]string{}}
	for k, v := range init {
		s.A[k] = v
	}
	s.note = "enter " + fname(entry)
	e.RunFrom(s)
}

func (e *Engine) RunFrom(s *State) {
	e.push(s)
	for len(e.work) > 0 {
		n := len(e.work) - 1
		s := e.work[n]
		e.work = e.work[:n]
		e.States++
		if e.States > e.Max {
			e.Over = true
			if os.Getenv("VERIF_DEBUG") != "" {
				e.dump()
			}
			return
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			if e.cnt == nil {
				e.cnt = map[string]int{}
			}
			e.cnt[fmt.Sprintf("%s b%d i%d ctx%d", fname(s.blk.Parent()), s.blk.Index, s.idx, s.ctx.ID)]++
		}
		e.step(s)
	}
}

// step runs s to the end of its block (or to a call/fork).
func (e *Engine) step(s0 *State) {
	s := s0.clone()
	s.parent = s0
	s.note = ""
	e.Fns[s.blk.Parent()] = true
	for s.idx < len(s.blk.Instrs) {
		in := s.blk.Instrs[s.idx]
		if _, ok := in.(*ssa.Phi); ok {
			s.idx++
			continue
		}
		if e.h.OnInstr != nil {
			if outs := e.h.OnInstr(e, s, in); outs != nil {
				if len(outs) == 1 && !outs[0].Stop {
					s = outs[0].S
					if outs[0].Handled {
						s.idx++
						continue
					}
				} else {
					for _, o := range outs {
						if o.Stop {
							continue
						}
						o.S.parent = s0
						if o.Handled {
							o.S.idx++
							e.push(o.S)
						} else {
							n := o.S
							if e.exec(n, in, s0) {
								e.push(n)
							}
						}
					}
					return
				}
			}
		}
		if !e.exec(s, in, s0) {
			return
		}
	}
}

// exec applies the default effect. It returns true when s simply moved on to
// the next instruction; otherwise successors were pushed.
func (e *Engine) exec(s *State, in ssa.Instruction, par *State) bool {
	switch x := in.(type) {
	case *ssa.If:
		c := e.Eval(s, x.Cond)
		for i, val := range []bool{true, false} {
			if c != "" && c != boolA(val) {
				continue
			}
			n := s.clone()
			n.parent = par
			if c == "" {
				e.refine(n, n.ctx, x.Cond, val, 0)
				n.note = fmt.Sprintf("%s: condition is %v", e.w.InstrPos(branchPos(x)), val)
			}
			if e.h.OnBranch != nil {
				n = e.h.OnBranch(e, n, x.Cond, val)
				if n == nil {
					continue
				}
			}
			e.edge(n, s.blk, s.blk.Succs[i])
		}
		return false
	case *ssa.Jump:
		e.edge(s, s.blk, s.blk.Succs[0])
		return false
	case *ssa.Return:
		e.ret(s, x)
		return false
	case *ssa.Panic:
		return false
	case *ssa.RunDefers:
		return e.runDefers(s, par)
	case *ssa.Defer:
		s.defers = append(s.defers, dfr{s.ctx, x})
		s.idx++
		return true
	case *ssa.Go:
		if e.h.SkipGo {
			s = e.escape(s, x.Common(), e.w.callees(s.ctx, x.Common()))
			s.idx++
			return true
		}
		return e.call(s, x, nil, par)
	case *ssa.Call:
		return e.call(s, x, x, par)
	case *ssa.Store:
		if al, ac := e.w.cellOf(s.ctx, x.Addr); al != nil && ac != nil {
			k := fkey{ac.ID, e.id(al), -2}
			if a := e.Eval(s, x.Val); a != "" {
				s.facts[k] = a
			} else {
				delete(s.facts, k)
			}
			if e.h.Track != nil && e.h.Track(al) {
				c, v := e.Resolve(s, s.ctx, x.Val)
				s.facts[fkey{ac.ID, e.id(al), -3}] = e.def(c, v)
			}
		}
		s.idx++
		return true
	case *ssa.Alloc:
		// a fresh variable holds its zero value
		k := fkey{s.ctx.ID, e.id(x), -2}
		delete(s.facts, k)
		delete(s.facts, fkey{s.ctx.ID, e.id(x), -3})
		switch t := deref(x.Type()).Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
			s.facts[k] = aNil
		case *types.Basic:
			switch {
			case t.Info()&types.IsBoolean != 0:
				s.facts[k] = aFalse
			case t.Info()&types.IsInteger != 0:
				s.facts[k] = "c:0"
			case t.Info()&types.IsString != 0:
				s.facts[k] = `c:""`
			}
		}
		s.idx++
		return true
	case *ssa.Select:
		n := len(x.States)
		lo := 0
		if !x.Blocking {
			lo = -1
		}
		for k := lo; k < n; k++ {
			ns := s.clone()
			ns.parent = par
			e.SetVal(ns, x, 0, AbsVal(fmt.Sprintf("c:%d", k)))
			if k >= 0 {
				ns.note = fmt.Sprintf("%s: select case %d", e.w.InstrPos(x), k)
			}
			ns.idx++
			if e.h.OnSelect != nil {
				ns = e.h.OnSelect(e, ns, x, k)
				if ns == nil {
					continue
				}
			}
			e.push(ns)
		}
		return false
	}
	if v, ok := in.(ssa.Value); ok {
		var a AbsVal
		switch x := v.(type) {
		case *ssa.BinOp:
			a = e.binop(s, x)
		case *ssa.UnOp:
			switch x.Op {
			case token.NOT:
				a = notA(e.Eval(s, x.X))
			case token.MUL:
				if g, ok := x.X.(*ssa.Global); ok {
					if isErrSentinel(g) {
						a = AbsVal("g:" + pkgShort(g.Pkg.Pkg) + "." + g.Name())
					}
				} else if al, ac := e.w.cellOf(s.ctx, x.X); al != nil && ac != nil {
					a = s.facts[fkey{ac.ID, e.id(al), -2}]
				}
			}
		case *ssa.Extract:
			a = s.facts[fkey{s.ctx.ID, e.id(x.Tuple), x.Index}]
		case *ssa.Phi:
			s.idx++
			return true
		default:
			a = ""
			if tu, ok := v.Type().(*types.Tuple); ok {
				for i := 0; i < tu.Len(); i++ {
					e.setFact(s, s.ctx, v, i, "")
				}
			}
		}
		e.setFact(s, s.ctx, v, -1, a)
	}
	s.idx++
	return true
}

func branchPos(x *ssa.If) ssa.Instruction {
	if in, ok := x.Cond.(ssa.Instruction); ok && in.Pos().IsValid() {
		return in
	}
	return x
}

func isErrSentinel(g *ssa.Global) bool {
	t := deref(g.Type())
	return types.Identical(t, types.Universe.Lookup("error").Type()) && len(g.Name()) > 2 && strings.HasPrefix(strings.ToLower(g.Name()), "err")
}

// edge moves s along a CFG edge: phi assignment and pruning.
func (e *Engine) edge(s *State, from, to *ssa.BasicBlock) {
	pi := predIndex(from, to)
	type asg struct {
		p *ssa.Phi
		a AbsVal
	}
	var as []asg
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{ph, e.Eval(s, ph.Edges[pi])})
	}
	pre := s
	if (e.h.Track != nil || e.h.OnPhi != nil) && len(as) > 0 {
		pre = s.clone()
	}
	for _, x := range as {
		e.setFact(s, s.ctx, x.p, -1, x.a)
		if e.h.Track != nil && e.h.Track(x.p) {
			c, v := e.Resolve(pre, pre.ctx, x.p.Edges[pi])
			s.facts[fkey{s.ctx.ID, e.id(x.p), -3}] = e.def(c, v)
		}
		if e.h.OnPhi != nil {
			e.h.OnPhi(e, pre, s, x.p, x.p.Edges[pi])
		}
	}
	s.blk, s.idx = to, 0
	keep := e.liveness(to.Parent()).in[to]
	k2 := map[ssa.Value]bool{}
	for v := range keep {
		k2[v] = true
	}
	for _, x := range as {
		k2[x.p] = true
	}
	e.prune(s, k2)
	e.push(s)
}

func (e *Engine) canInline(ctx *Ctx, t target) bool {
	return e.w.IsRepo(t.fn) && len(t.fn.Blocks) > 0 && ctx.depth < maxDepth && !ctx.onStack(t.fn) && (e.relevant(t.fn) || e.helper(t.fn))
}

// helper: a function that decides something (small, returns a bool) or returns
// a tracked value; its body matters although it has no interesting instruction.
func (e *Engine) helper(fn *ssa.Function) bool {
	if e.h.NoInline != nil && e.h.NoInline(fn) {
		return false
	}
	if v, ok := e.help[fn]; ok {
		return v
	}
	if e.help == nil {
		e.help = map[*ssa.Function]bool{}
	}
	res := fn.Signature.Results()
	ok := false
	if len(fn.Blocks) <= 12 {
		for i := 0; i < res.Len(); i++ {
			if b, isB := res.At(i).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
				ok = true
			}
		}
	}
	if !ok && e.h.Track != nil {
		for _, r := range returnsOf(fn) {
			for _, x := range r.Results {
				ok = ok || e.h.Track(x)
			}
		}
	}
	e.help[fn] = ok
	return ok
}

// call handles a call, go or (from runDefers) deferred call at s.idx.
func (e *Engine) call(s *State, site ssa.CallInstruction, res *ssa.Call, par *State) bool {
	cc := site.Common()
	if neverReturns(callName(cc)) {
		return false
	}
	var ts []target
	for _, t := range e.w.callees(s.ctx, cc) {
		if e.canInline(s.ctx, t) {
			ts = append(ts, t)
		}
	}
	all := e.w.callees(s.ctx, cc)
	if res != nil {
		e.havoc(s, res)
		e.model(s, res)
	}
	if len(ts) == 0 {
		s = e.escape(s, cc, all)
		// callbacks handed to code outside the repository
		var cbs []target
		var cbv []ssa.Value
		for _, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			for _, t := range e.w.resolveFn(s.ctx, a, 0) {
				if len(all) == 0 || !e.w.IsRepo(all[0].fn) {
					if e.canInline(s.ctx, t) {
						cbs = append(cbs, t)
						cbv = append(cbv, a)
					}
				}
			}
		}
		if len(cbs) == 0 {
			s.idx++
			return true
		}
		n := s.clone()
		n.parent = par
		n.idx++
		e.push(n)
		for i, t := range cbs {
			e.enter(s, site, t, par, true)
			_ = cbv[i]
		}
		return false
	}
	for _, t := range ts {
		e.enter(s, site, t, par, false)
	}
	if len(ts) < len(all) {
		n := e.escape(s.clone(), cc, all)
		n.parent = par
		n.idx++
		e.push(n)
	}
	return false
}

func (e *Engine) enter(s *State, site ssa.CallInstruction, t target, par *State, callback bool) {
	n := s.clone()
	n.parent = par
	c2 := e.w.mkCtx(s.ctx, site, t.fn, t.clo, t.mk)
	if callback {
		c2.Args = make([]ssa.Value, len(t.fn.Params)) // unknown arguments
	}
	keep := e.liveAfter(s.blk, s.idx)
	e.prune(n, keep)
	for _, p := range t.fn.Params {
		if a := c2.arg(p); a != nil {
			if v := e.eval(s, s.ctx, a); v != "" {
				e.setFact(n, c2, p, -1, v)
			}
		}
	}
	n.ctx, n.blk, n.idx = c2, t.fn.Blocks[0], 0
	n.note = fmt.Sprintf("%s: call %s", e.w.InstrPos(site.(ssa.Instruction)), fname(t.fn))
	e.push(n)
}

func (e *Engine) havoc(s *State, res *ssa.Call) {
	e.setFact(s, s.ctx, res, -1, "")
	if tu, ok := res.Type().(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			e.setFact(s, s.ctx, res, i, "")
		}
	}
}

// escape: a call that is not followed may write the variables whose address it
// gets and those that are captured and written by a closure it runs or gets.
func (e *Engine) escape(s *State, cc *ssa.CallCommon, all []target) *State {
	drop := func(ctx *Ctx, addr ssa.Value) {
		for i := 0; i < 4; i++ {
			switch x := addr.(type) {
			case *ssa.MakeInterface:
				addr = x.X
				continue
			case *ssa.ChangeType:
				addr = x.X
				continue
			}
			break
		}
		if al, ac := e.w.cellOf(ctx, addr); al != nil && ac != nil {
			delete(s.facts, fkey{ac.ID, e.id(al), -2})
			delete(s.facts, fkey{ac.ID, e.id(al), -3})
		}
	}
	ts := append([]target{}, all...)
	for _, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			ts = append(ts, e.w.resolveFn(s.ctx, a, 0)...)
			continue
		}
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			drop(s.ctx, a)
		}
	}
	for _, t := range ts {
		if t.mk == nil {
			continue
		}
		for i, b := range t.mk.Bindings {
			if i < len(t.fn.FreeVars) && written(t.fn.FreeVars[i], map[ssa.Value]bool{}) {
				drop(t.clo, b)
			}
		}
	}
	return s
}

// written: the variable v is the address of may be changed through v.
func written(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			return true
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && written(fn.FreeVars[i], seen) {
					return true
				}
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// model: what is known of library functions.
// ofErrors: a test that answers yes for errors only.
func ofErrors(cc *ssa.CallCommon) bool {
	switch callName(cc) {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
		return true
	}
	return false
}

func (e *Engine) model(s *State, c *ssa.Call) {
	switch callName(&c.Call) {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Wrap":
		e.SetVal(s, c, -1, aNonNil)
	case "errors.Is":
		a, b := e.Eval(s, c.Call.Args[0]), e.Eval(s, c.Call.Args[1])
		if a == aNil {
			e.SetVal(s, c, -1, aFalse)
		} else if isG(a) && isG(b) {
			e.SetVal(s, c, -1, boolA(a == b))
		}
	}
}

func (e *Engine) ret(s *State, r *ssa.Return) {
	if e.h.OnRet != nil {
		if s = e.h.OnRet(e, s, r); s == nil {
			return
		}
	}
	ctx := s.ctx
	if ctx.Parent == nil {
		if e.h.OnReturn != nil {
			e.h.OnReturn(e, s, r)
		}
		return
	}
	n := s.clone()
	n.parent = s
	n.note = ""
	var vals []AbsVal
	for _, x := range r.Results {
		vals = append(vals, e.Eval(s, x))
	}
	n.ctx = ctx.Parent
	site := ctx.Site.(ssa.Instruction)
	n.blk = site.Block()
	if d, ok := ctx.Site.(*ssa.Defer); ok {
		// back to the RunDefers that triggered it (in some block of the parent)
		_ = d
		n.blk, n.idx = popRet(n)
		for k := range n.facts {
			if k.ctx == ctx.ID {
				delete(n.facts, k)
			}
		}
		e.push(n)
		return
	}
	for i, in := range n.blk.Instrs {
		if in == site {
			n.idx = i + 1
		}
	}
	for k := range n.facts {
		if k.ctx == ctx.ID {
			delete(n.facts, k)
		}
	}
	callback := ctx.Args != nil
	if res, ok := site.(*ssa.Call); ok && !callback {
		if e.h.Track != nil && e.h.Track(res) {
			for i, x := range r.Results {
				c, v := e.Resolve(s, ctx, x)
				n.facts[fkey{n.ctx.ID, e.id(res), -10 - i}] = e.def(c, v)
			}
		}
		if len(vals) == 1 {
			e.setFact(n, n.ctx, res, -1, vals[0])
		} else {
			for i, v := range vals {
				e.setFact(n, n.ctx, res, i, v)
			}
		}
	}
	e.push(n)
	if callback {
		// the callback may run again
		m := n.clone()
		m.ctx, m.blk, m.idx = ctx, ctx.Fn.Blocks[0], 0
		e.push(m)
	}
}

// runDefers: pops the youngest deferred call of this frame.
func (e *Engine) runDefers(s *State, par *State) bool {
	for {
		i := -1
		for j := len(s.defers) - 1; j >= 0; j-- {
			if s.defers[j].ctx == s.ctx {
				i = j
				break
			}
		}
		if i < 0 {
			s.idx++
			return true
		}
		d := s.defers[i]
		s.defers = append(append([]dfr(nil), s.defers[:i]...), s.defers[i+1:]...)
		if e.h.OnInstr != nil {
			s.A["@defer"] = "1"
			outs := e.h.OnInstr(e, s, d.in)
			delete(s.A, "@defer")
			if len(outs) == 1 && !outs[0].Stop {
				s = outs[0].S
				delete(s.A, "@defer")
				if outs[0].Handled {
					// continue popping in place
					if !e.resumeDefers(s, par) {
						return false
					}
					return false
				}
			} else if len(outs) > 1 {
				for _, o := range outs {
					if !o.Stop {
						delete(o.S.A, "@defer")
						o.S.parent = par
						e.push(o.S)
					}
				}
				return false
			}
		}
		var ts []target
		for _, t := range e.w.callees(s.ctx, d.in.Common()) {
			if e.canInline(s.ctx, t) {
				ts = append(ts, t)
			}
		}
		if len(ts) == 0 {
			n := s.clone()
			n.parent = par
			e.push(n) // idx still at RunDefers
			return false
		}
		for _, t := range ts {
			n := s.clone()
			n.parent = par
			c2 := e.w.mkCtx(s.ctx, d.in, t.fn, t.clo, t.mk)
			n.A[fmt.Sprintf("@ret%d", c2.ID)] = fmt.Sprintf("%d:%d", s.blk.Index, s.idx)
			n.ctx, n.blk, n.idx = c2, t.fn.Blocks[0], 0
			n.note = fmt.Sprintf("%s: deferred %s", e.w.InstrPos(d.in), fname(t.fn))
			e.push(n)
		}
		return false
	}
}

func (e *Engine) resumeDefers(s *State, par *State) bool {
	n := s.clone()
	n.parent = par
	e.push(n)
	return false
}

// popRet restores the RunDefers position for the defer context just left.
func popRet(n *State) (*ssa.BasicBlock, int) {
	// n.ctx is already the parent; the marker of the child is the newest @ret
	for k, v := range n.A {
		if strings.HasPrefix(k, "@ret") {
			var b, i int
			fmt.Sscanf(v, "%d:%d", &b, &i)
			var id int
			fmt.Sscanf(k, "@ret%d", &id)
			if n.parent != nil && n.parent.ctx != nil && n.parent.ctx.ID == id {
				delete(n.A, k)
				return n.ctx.Fn.Blocks[b], i
			}
		}
	}
	panic("no return point for deferred call")
}

// Fork makes two outcomes for a boolean-valued instruction, with the property
// state updated on each side.
func (e *Engine) Fork(s *State, v ssa.Value, onTrue, onFalse []string) []Outcome {
	cur := AbsVal("")
	if b, ok := v.(*ssa.BinOp); ok {
		cur = e.binop(s, b)
	}
	var outs []Outcome
	for _, val := range []bool{true, false} {
		if cur != "" && cur != boolA(val) {
			continue
		}
		kv := onFalse
		if val {
			kv = onTrue
		}
		n := s.With(kv...)
		e.SetVal(n, v, -1, boolA(val))
		e.refine(n, n.ctx, v, val, 0)
		if in, ok := v.(ssa.Instruction); ok {
			n.note = fmt.Sprintf("%s: %s is %v", e.w.InstrPos(in), short(e.w.T(s.ctx, v).String()), val)
		}
		outs = append(outs, Outcome{S: n, Handled: true})
	}
	return outs
}

// ForkErr makes outcomes for a call whose result idx is an error (-1: the only
// result): nil error and non-nil error.
func (e *Engine) ForkErr(s *State, c *ssa.Call, idx int, onOK, onErr []string) []Outcome {
	var outs []Outcome
	for _, ok := range []bool{true, false} {
		kv := onErr
		a := aNonNil
		if ok {
			kv = onOK
			a = aNil
		}
		n := e.escape(s.With(kv...), &c.Call, nil)
		e.havoc(n, c)
		e.SetVal(n, c, idx, a)
		n.note = fmt.Sprintf("%s: %s ok=%v", e.w.InstrPos(c), callName(&c.Call), ok)
		outs = append(outs, Outcome{S: n, Handled: true})
	}
	return outs
}

func short(s string) string {
	if len(s) > 120 {
		return s[:117] + "..."
	}
	return s
}

func neverReturns(n string) bool {
	switch n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "runtime.Goexit":
		return true
	}
	return false
}

// callAt gives the call performed by in at s: a call, a go statement, or a
// deferred call at the moment it runs (not when it is registered).
func callAt(s *State, in ssa.Instruction) *ssa.CallCommon {
	switch x := in.(type) {
	case *ssa.Call:
		return &x.Call
	case *ssa.Go:
		return &x.Call
	case *ssa.Defer:
		if s.A["@defer"] == "1" {
			return &x.Call
		}
	}
	return nil
}

// Resolve follows v to the value it has on this path: through parameters,
// captured variables, and the phis and variables the hooks track.
func (e *Engine) Resolve(s *State, ctx *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	for i := 0; i < 40; i++ {
		c2, v2 := e.w.origin1(ctx, v)
		if v2 != v || c2 != ctx {
			ctx, v = c2, v2
			continue
		}
		switch x := v.(type) {
		case *ssa.Call:
			if a, ok := s.facts[fkey{ctx.ID, e.id(x), -10}]; ok {
				d := e.defs[string(a)]
				ctx, v = d.ctx, d.v
				continue
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if a, ok := s.facts[fkey{ctx.ID, e.id(c), -10 - x.Index}]; ok {
					d := e.defs[string(a)]
					ctx, v = d.ctx, d.v
					continue
				}
			}
		case *ssa.Phi:
			if a, ok := s.facts[fkey{ctx.ID, e.id(x), -3}]; ok {
				d := e.defs[string(a)]
				if d.ctx == ctx && d.v == v {
					return ctx, v
				}
				ctx, v = d.ctx, d.v
				continue
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					if al, lc, _, ok := e.w.constList(ctx, ia.X); ok {
						if k := e.eval(s, ctx, ia.Index); isC(k) {
							if n, err := strconv.Atoi(strings.TrimPrefix(string(k), "c:")); err == nil {
								if el := listElem(al, n); el != nil {
									ctx, v = lc, el
									continue
								}
							}
						}
					}
				}
				if al, ac := e.w.cellOf(ctx, x.X); al != nil && ac != nil {
					if a, ok := s.facts[fkey{ac.ID, e.id(al), -3}]; ok {
						d := e.defs[string(a)]
						ctx, v = d.ctx, d.v
						continue
					}
					if _, isStruct := deref(al.Type()).Underlying().(*types.Struct); !isStruct {
						if sts := storesTo(al); len(sts) == 1 && sts[0].Parent() == al.Parent() {
							ctx, v = ac, sts[0].Val
							continue
						}
					}
				}
			}
		}
		return ctx, v
	}
	return ctx, v
}

func (e *Engine) def(c *Ctx, v ssa.Value) AbsVal {
	d := fmt.Sprintf("s:%d@%d", e.id(v), c.ID)
	if e.defs == nil {
		e.defs = map[string]ctxVal{}
	}
	e.defs[d] = ctxVal{c, v}
	return AbsVal(d)
}

// RT is the term of v's value on this path.
func (e *Engine) RT(s *State, v ssa.Value) *Term {
	c, x := e.Resolve(s, s.ctx, v)
	return e.w.T(c, x)
}
