package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:    "C18",
		Title: "Nothing that is missing is used",
		Rule: "Path-sensitive must-be-present dataflow over every function of the node, joined by summaries (what a function needs of its arguments to be present, what its boolean or error result tells about them, which results may be missing). " +
			"Possibly missing are: optional parts of decoded messages, at any depth; entries of maps; results of type assertions with ok and of calls that also return an error or a flag; results of functions that may return nil; fields that the code elsewhere compares with nil; the nil constant. " +
			"At every dereference, method call through an interface, call of a function value and write into a map, the value is not one of these or was found present on every path. A received message is kept (stored in a field, map or channel) only with its routing, sender and sender's data present. " +
			"A type assertion without ok is on a value of a table into which only that type is stored. No panic, and no exit of the process, outside the programs.",
		Assume: []string{"objects built by the node itself, and by libraries that return no error, are complete", "tables of the node contain no nil entries"},
		Run:    runC18,
	})
}

// parts of a kept message that those who read it rely on.
var keptParts = map[string][]string{
	"messages.WireMessage": {".Routing", ".Routing.From", ".Routing.From.MessageWrapper_PartyID"},
}

// fields that are compared with nil but always set when they are used.
var setBefore = map[string]string{
	"common.TssCommon.partyInfo": "set before any message of the session is processed (C22)",
	"blame.Manager.partyInfo":    "set before any message of the session is processed (C22)",
}

type nilSum struct {
	req    map[string]string          // access path of a parameter -> where it is used
	ens    map[string]map[string]bool // "true"/"false"/"nil"/"err" -> paths present on such a return
	mayNil map[int]bool               // result may be nil although no error is returned
	errNil map[int]bool               // result may be nil when an error is returned
	alias  map[int]string             // result is this part of an argument
}

type nilAna struct {
	*nilFinder
	r      *Report
	sums   map[*ssa.Function]*nilSum
	active map[*ssa.Function]bool
	belief map[string]bool
	dst    map[*ssa.Alloc]int
}

func runC18(w *World, r *Report) {
	n := &nilAna{nilFinder: newNilFinder(w), r: r, sums: map[*ssa.Function]*nilSum{}, active: map[*ssa.Function]bool{}, belief: map[string]bool{}, dst: map[*ssa.Alloc]int{}}
	n.beliefs()
	for _, fn := range n.scope() {
		n.sum(fn)
	}
	n.asserts()
	n.exits()
	for k, m := range map[string]int{"use of a possibly missing value": 20, "part of a message found present": 1, "entry looked up": 3, "call that may fail": 10, "message kept": 1} {
		r.Need(k, m)
	}
}

func (n *nilAna) scope() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range n.w.Funcs {
		f := n.w.Fset.Position(fn.Pos()).Filename
		if isMockFile(n.w, fn) || fn.Synthetic != "" || len(fn.Blocks) == 0 || strings.HasSuffix(f, ".pb.go") || strings.Contains(f, "/cmd/") {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// beliefs: fields the code itself takes to be nil at times.
func (n *nilAna) beliefs() {
	for _, fn := range n.scope() {
		eachInstr(fn, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			x, y := b.X, b.Y
			if isNil(x) {
				x, y = y, x
			}
			if !isNil(y) || !nilableType(x.Type()) || isErr(x.Type()) {
				return
			}
			f := chanField(x)
			if f == "" {
				f = fromGetter(x)
			}
			if f != "" && !n.dec[f[:strings.LastIndex(f, ".")]] && setBefore[f] == "" {
				n.belief[f] = true
			}
		})
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "belief", keys(n.belief))
	}
}

// fromGetter: the field that the getter called by x returns.
func fromGetter(x ssa.Value) string {
	c, ok := x.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return ""
	}
	rs := returnsOf(c.Call.StaticCallee())
	if len(rs) == 0 || len(rs[0].Results) == 0 {
		return ""
	}
	v := rs[0].Results[0]
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, st := range storesTo(al) {
				if f := chanField(st.Val); f != "" {
					return f
				}
			}
			return ""
		}
	}
	return chanField(v)
}

// decodeDst: al is filled by a decoder.
func (n *nilAna) isDst(al *ssa.Alloc) bool {
	if v, ok := n.dst[al]; ok {
		return v == 1
	}
	n.dst[al] = 0
	if n.filled(al, 0) {
		n.dst[al] = 1
	}
	return n.dst[al] == 1
}

func (n *nilAna) filled(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.MakeInterface:
			if n.filled(x, d+1) {
				return true
			}
		case *ssa.ChangeInterface:
			if n.filled(x, d+1) {
				return true
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if decodesInto(cc) == v {
				return true
			}
			if f := cc.StaticCallee(); f != nil && n.w.IsRepo(f) {
				for i, a := range cc.Args {
					if a == v && i < len(f.Params) && n.filled(f.Params[i], d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- access paths

func (n *nilAna) id(ctx *Ctx, e *Engine, v ssa.Value) string { return fmt.Sprintf("v%d_", e.id(v)) }

func (n *nilAna) resolve(e *Engine, s *State, v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		c, o := e.Resolve(s, s.ctx, v)
		if c != s.ctx {
			return v
		}
		switch x := o.(type) {
		case *ssa.ChangeType:
			o = x.X
		case *ssa.ChangeInterface:
			o = x.X
		}
		if o == v {
			return v
		}
		v = o
	}
	return v
}

// path names what v is; root is "dec" (decoded), "par" (a parameter or a
// captured variable) or "heap".
func (n *nilAna) path(e *Engine, s *State, v ssa.Value) (p, root string) {
	return n.path0(e, s, v, 0)
}

func (n *nilAna) path0(e *Engine, s *State, v ssa.Value, d int) (p, root string) {
	if d > 30 {
		return "?", "heap"
	}
	v = n.resolve(e, s, v)
	switch x := v.(type) {
	case *ssa.Parameter:
		return fmt.Sprintf("#%d", paramIndex(x)), "par"
	case *ssa.FreeVar:
		return "^" + x.Name(), "par"
	case *ssa.Const:
		return x.String(), "heap"
	case *ssa.MakeInterface:
		return n.path0(e, s, x.X, d+1)
	case *ssa.Alloc:
		if x.Parent() != s.ctx.Fn {
			for _, fv := range s.ctx.Fn.FreeVars {
				if staticBinding(fv) == ssa.Value(x) {
					return "^" + fv.Name(), "par"
				}
			}
		}
		if n.isDst(x) {
			return n.id(s.ctx, e, x), "dec"
		}
		if sts := storesTo(x); len(sts) == 1 && sts[0].Addr == ssa.Value(x) {
			if _, isS := deref(x.Type()).Underlying().(*types.Struct); isS {
				return n.path0(e, s, sts[0].Val, d+1)
			}
		}
		return n.id(s.ctx, e, x), "heap"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return n.addr(e, s, x.X, d+1)
		}
	case *ssa.Field:
		p, root = n.path0(e, s, x.X, d+1)
		return p + "." + fieldOf(x.X.Type(), x.Field), root
	case *ssa.Lookup:
		p, root = n.path0(e, s, x.X, d+1)
		k, _ := n.path0(e, s, x.Index, d+1)
		return p + "[" + k + "]", root
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return n.path0(e, s, lk, d+1)
		}
	case *ssa.Call:
		if f, ok := getter(&x.Call); ok {
			p, root = n.path0(e, s, x.Call.Args[0], d+1)
			return p + "." + f, root
		}
		if a, rest := n.aliased(x); a != nil {
			p, root = n.path0(e, s, a, d+1)
			return p + rest, root
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return n.addr(e, s, x, d+1)
	}
	return n.id(s.ctx, e, v), "heap"
}

// addr: the path of what is kept at an address.
func (n *nilAna) addr(e *Engine, s *State, a ssa.Value, d int) (p, root string) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		p, root = n.path0(e, s, x.X, d+1)
		return p + "." + fieldOf(x.X.Type(), x.Field), root
	case *ssa.IndexAddr:
		p, root = n.path0(e, s, x.X, d+1)
		k, _ := n.path0(e, s, x.Index, d+1)
		return p + "[" + k + "]", root
	case *ssa.Global:
		return "g:" + x.Name(), "heap"
	case *ssa.FreeVar:
		return "^" + x.Name(), "par"
	case *ssa.Alloc:
		return n.path0(e, s, x, d+1)
	}
	p, root = n.path0(e, s, a, d+1)
	return p + ".*", root
}

// getter: a generated accessor of an optional part.
func getter(cc *ssa.CallCommon) (string, bool) {
	f := cc.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(cc.Args) != 1 || !strings.HasPrefix(f.Name(), "Get") || len(f.Name()) < 4 {
		return "", false
	}
	st := structOf(deref(f.Signature.Recv().Type()))
	if st == nil {
		return "", false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f.Name()[3:] {
			return st.Field(i).Name(), true
		}
	}
	return "", false
}

// ---- nil-ness of a value at a state

// optional: the struct type and field v was read from, when it may be missing.
func (n *nilAna) optional(v ssa.Value) (belief, decoded bool) {
	var t types.Type
	var f string
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return false, false
		}
		t, f = deref(fa.X.Type()), fieldOf(fa.X.Type(), fa.Field)
	case *ssa.Field:
		t, f = x.X.Type(), fieldOf(x.X.Type(), x.Field)
	case *ssa.Call:
		g, ok := getter(&x.Call)
		if !ok {
			return false, false
		}
		t, f = deref(x.Call.Args[0].Type()), g
	default:
		return false, false
	}
	return n.belief[tname(t)+"."+f], n.dec[tname(t)]
}

// aliased: the argument whose part rest the call c returns.
func (n *nilAna) aliased(c *ssa.Call) (arg ssa.Value, rest string) {
	f := c.Call.StaticCallee()
	if f == nil || !n.inScope(f) {
		return nil, ""
	}
	a := n.sum(f).alias[0]
	if !strings.HasPrefix(a, "#") {
		return nil, ""
	}
	base := a
	if i := strings.IndexAny(a, ".["); i >= 0 {
		base, rest = a[:i], a[i:]
	}
	var i int
	if _, err := fmt.Sscanf(base, "#%d", &i); err != nil || i >= len(c.Call.Args) {
		return nil, ""
	}
	return c.Call.Args[i], rest
}

// state of a value: "" present, "nil" missing on this path, "may" possibly
// missing, "req:<path>" up to the caller.
func (n *nilAna) state(e *Engine, s *State, v ssa.Value) string {
	switch e.Eval(s, v) {
	case aNonNil:
		return ""
	case aNil:
		return "nil"
	}
	o := n.resolve(e, s, v)
	switch e.Eval(s, o) {
	case aNonNil:
		return ""
	case aNil:
		return "nil"
	}
	p, root := n.path(e, s, o)
	if s.Get("n:"+p) == "1" {
		return ""
	}
	switch x := o.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
	case *ssa.Parameter, *ssa.FreeVar:
		return "req:" + p
	case *ssa.Alloc:
		return ""
	case *ssa.Lookup:
		if nilableType(x.Type()) {
			return "may"
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if _, ok := x.X.(*ssa.IndexAddr); ok && root == "dec" {
			return "may"
		}
		if strings.HasPrefix(p, "^") && !strings.ContainsAny(p, ".[") {
			return "req:" + p
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && n.inScope(f) {
			sm := n.sum(f)
			if a, rest := n.aliased(x); a != nil {
				if sm.mayNil[0] || root == "dec" {
					return "may"
				}
				if rest != "" && root == "par" {
					return "req:" + p
				}
				if rest == "" {
					return n.state(e, s, a)
				}
				return ""
			}
			if sm.mayNil[0] {
				return "may"
			}
			return ""
		}
	}
	if bel, dec := n.optional(o); bel || dec {
		if root == "par" && (dec || bel) {
			return "req:" + p
		}
		if bel || root == "dec" {
			return "may"
		}
	}
	return ""
}

func (n *nilAna) inScope(f *ssa.Function) bool {
	return n.w.IsRepo(f) && len(f.Blocks) > 0 && !strings.HasSuffix(n.w.Fset.Position(f.Pos()).Filename, ".pb.go") && !isMockFile(n.w, f)
}

// ---- one function

func (n *nilAna) sum(fn *ssa.Function) *nilSum {
	if s := n.sums[fn]; s != nil {
		return s
	}
	if n.active[fn] {
		return &nilSum{}
	}
	n.active[fn] = true
	sm := &nilSum{req: map[string]string{}, ens: map[string]map[string]bool{}, mayNil: map[int]bool{}, errNil: map[int]bool{}, alias: map[int]string{}}
	w := n.w
	h := &Hooks{
		SkipGo:      true,
		NoInline:    func(*ssa.Function) bool { return true },
		Interesting: func(ssa.Instruction) bool { return false },
		Track: func(v ssa.Value) bool {
			t := v.Type()
			if a, ok := v.(*ssa.Alloc); ok {
				t = deref(a.Type())
			}
			return nilableType(t)
		},
	}
	need := func(e *Engine, s *State, in ssa.Instruction, st, what string) {
		switch {
		case st == "nil":
			e.Ob(s, in, false, what+" although it is nil on this path")
		case st == "may":
			e.Ob(s, in, false, what+" although it may be missing")
		case strings.HasPrefix(st, "req:"):
			if _, ok := sm.req[st[4:]]; !ok {
				sm.req[st[4:]] = w.InstrPos(in)
			}
		default:
			e.Ob(s, in, true, what)
		}
	}
	// needPath: the part rest of v is used
	var needPath func(e *Engine, s *State, in ssa.Instruction, v ssa.Value, rest, what string, d int)
	needPath = func(e *Engine, s *State, in ssa.Instruction, v ssa.Value, rest, what string, d int) {
		if d > 6 {
			return
		}
		if rest == "" {
			need(e, s, in, n.state(e, s, v), what)
			return
		}
		p, root := n.path(e, s, v)
		full := p + rest
		if s.Get("n:"+full) == "1" {
			return
		}
		o := n.resolve(e, s, v)
		if mi, ok := o.(*ssa.MakeInterface); ok {
			o = n.resolve(e, s, mi.X)
		}
		if k, ok := o.(*ssa.Const); ok && k.Value == nil {
			return
		}
		switch root {
		case "dec":
			need(e, s, in, "may", what)
			return
		case "par":
			sm.req[full] = w.InstrPos(in)
			return
		}
		// built here: what was put into the first part
		al, ok := o.(*ssa.Alloc)
		if u, isU := o.(*ssa.UnOp); !ok && isU && u.Op == token.MUL {
			al, ok = u.X.(*ssa.Alloc)
		}
		if !ok || al.Parent() != fn {
			if n.beliefPath(v.Type(), rest) {
				need(e, s, in, "may", what)
			}
			return
		}
		if al.Comment == "varargs" {
			return
		}
		first := rest[1:]
		tail := ""
		if i := strings.IndexAny(first, ".["); i >= 0 {
			first, tail = first[:i], first[i:]
		}
		var vals []ssa.Value
		for _, ref := range *al.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == first {
				for _, r2 := range *fa.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						vals = append(vals, st.Val)
					}
				}
			}
		}
		if len(vals) == 0 && len(storesTo(al)) == 0 && structOf(al.Type()) != nil {
			if _, dec := n.optionalField(al.Type(), first); dec {
				need(e, s, in, "may", what)
			}
			return
		}
		for _, x := range vals {
			needPath(e, s, in, x, tail, what, d+1)
		}
	}
	// requirements of a callee, given what its parameters and captures are
	callee := func(e *Engine, s *State, in ssa.Instruction, f *ssa.Function, args []ssa.Value, binds func(name string) (ssa.Value, bool)) {
		cs := n.sum(f)
		var ps []string
		for p := range cs.req {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			base, rest := p, ""
			if i := strings.IndexAny(p, ".["); i >= 0 {
				base, rest = p[:i], p[i:]
			}
			what := "what " + fname(f) + " uses (" + strings.TrimPrefix(rest, ".") + ") is passed"
			if rest == "" {
				what = "a value used by " + fname(f) + " is passed"
			}
			if base[0] == '#' {
				var i int
				fmt.Sscanf(base, "#%d", &i)
				if i < len(args) {
					needPath(e, s, in, args[i], rest, what, 0)
				}
			} else if binds != nil {
				if v, ok := binds(base[1:]); ok {
					needPath(e, s, in, v, rest, what, 0)
				}
			}
		}
	}
	// the value of a captured variable at s
	bound := func(e *Engine, s *State, mc *ssa.MakeClosure) func(string) (ssa.Value, bool) {
		return func(name string) (ssa.Value, bool) {
			f := mc.Fn.(*ssa.Function)
			for i, fv := range f.FreeVars {
				if fv.Name() != name {
					continue
				}
				b := mc.Bindings[i]
				al, ok := b.(*ssa.Alloc)
				if !ok {
					return b, true
				}
				if structOf(deref(al.Type())) != nil {
					if _, isP := deref(al.Type()).Underlying().(*types.Pointer); !isP {
						return al, true
					}
				}
				if a, ok := s.facts[fkey{s.ctx.ID, e.id(al), -3}]; ok {
					return e.defs[string(a)].v, true
				}
				if sts := storesTo(al); len(sts) == 1 {
					return sts[0].Val, true
				}
				return nil, false
			}
			return nil, false
		}
	}
	onlyCalled := func(mc *ssa.MakeClosure) bool {
		for _, ref := range *mc.Referrers() {
			switch x := ref.(type) {
			case *ssa.Call:
				if x.Call.Value != ssa.Value(mc) {
					return false
				}
			case *ssa.Defer:
				if x.Call.Value != ssa.Value(mc) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	kill := func(e *Engine, s *State, v ssa.Value) *State {
		id := n.id(s.ctx, e, v)
		var kv []string
		for k := range s.A {
			if strings.HasPrefix(k, "n:") && strings.Contains(k, id) {
				kv = append(kv, k, "")
			}
		}
		if kv == nil {
			return s
		}
		return s.With(kv...)
	}
	facts := func(e *Engine, s *State, f *ssa.Function, args []ssa.Value, kind string) []string {
		var kv []string
		for p := range n.sum(f).ens[kind] {
			base, rest := p, ""
			if i := strings.IndexAny(p, ".["); i >= 0 {
				base, rest = p[:i], p[i:]
			}
			var i int
			if _, err := fmt.Sscanf(base, "#%d", &i); err == nil && i < len(args) {
				q, _ := n.path(e, s, args[i])
				kv = append(kv, "n:"+q+rest, "1")
			}
		}
		return kv
	}
	h.OnPhi = func(e *Engine, pre, s *State, p *ssa.Phi, edge ssa.Value) {
		id := n.id(s.ctx, e, p)
		for k := range s.A {
			if strings.HasPrefix(k, "n:") && strings.Contains(k, id) {
				delete(s.A, k)
			}
		}
		if structOf(deref(p.Type())) == nil {
			return
		}
		from, _ := n.path(e, pre, edge)
		for k := range pre.A {
			if strings.HasPrefix(k, "n:"+from+".") && !strings.Contains(k, id) {
				s.A["n:"+id+k[len("n:"+from):]] = "1"
			}
		}
	}
	h.OnInstr = func(e *Engine, s0 *State, in ssa.Instruction) []Outcome {
		s := s0
		if v, ok := in.(ssa.Value); ok {
			s = kill(e, s, v)
		}
		changed := func() []Outcome {
			if s != s0 {
				return []Outcome{{S: s}}
			}
			return nil
		}
		if registers(s, in) {
			if cc := in.(*ssa.Defer).Common(); cc.IsInvoke() || cc.StaticCallee() != nil {
				for _, v := range derefs(in) {
					if nilableType(v.Type()) {
						need(e, s, in, n.state(e, s, v), "a value is used later")
					}
				}
			}
			return changed()
		}
		for _, v := range derefs(in) {
			if !nilableType(v.Type()) {
				continue
			}
			st := n.state(e, s, v)
			src := n.sources(v)
			if len(src) > 0 {
				e.Hit("use of a possibly missing value", in)
			}
			if st == "" && len(src) == 0 {
				continue
			}
			need(e, s, in, st, n.describe(v)+" is used")
		}
		switch x := in.(type) {
		case *ssa.Store:
			a, root := "", ""
			switch x.Addr.(type) {
			case *ssa.FieldAddr, *ssa.Alloc, *ssa.FreeVar:
				a, root = n.addr(e, s, x.Addr, 0)
			}
			_ = root
			if a != "" {
				var kv []string
				for k := range s.A {
					if strings.HasPrefix(k, "n:"+a) {
						kv = append(kv, k, "")
					}
				}
				if kv != nil {
					s = s.With(kv...)
				}
				if nilableType(x.Val.Type()) {
					if st := n.state(e, s, x.Val); st == "" {
						if _, isF := x.Addr.(*ssa.FieldAddr); isF && (n.dec[strings.TrimSuffix(addrField(x.Addr), "."+fieldName(x.Addr))] || n.belief[addrField(x.Addr)]) {
							s = s.With("n:"+a, "1")
						}
					}
				}
			}
			if f, _ := storeField(x); f != "" && !n.dec[f[:strings.LastIndex(f, ".")]] {
				n.kept(e, s, in, x.Val, needPath)
			}
		case *ssa.MapUpdate:
			n.kept(e, s, in, x.Value, needPath)
		case *ssa.Send:
			n.kept(e, s, in, x.X, needPath)
		case *ssa.Lookup:
			if x.CommaOk {
				if nilableType(x.Type().(*types.Tuple).At(0).Type()) {
					e.Hit("entry looked up", in)
					return e.lookupOutcomes(s, x, nil, nil)
				}
			}
		case *ssa.TypeAssert:
			if x.CommaOk && nilableType(x.AssertedType) {
				y, z := s.clone(), s.clone()
				e.SetVal(y, x, 0, aNonNil)
				e.SetVal(y, x, 1, aTrue)
				e.SetVal(z, x, 0, aNil)
				e.SetVal(z, x, 1, aFalse)
				return []Outcome{{S: y, Handled: true}, {S: z, Handled: true}}
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				a, b := x.X, x.Y
				if isNil(a) {
					a, b = b, a
				}
				if isNil(b) && nilableType(a.Type()) {
					p, root := n.path(e, s, a)
					if _, dec := n.optional(n.resolve(e, s, a)); dec {
						e.Hit("part of a message found present", in)
					}
					_ = root
					kv := []string{"n:" + p, "1"}
					if isErr(a.Type()) {
						kv = nil
					}
					if x.Op == token.EQL {
						return e.Fork(s, x, nil, kv)
					}
					return e.Fork(s, x, kv, nil)
				}
			}
		case *ssa.MakeClosure:
			if !onlyCalled(x) {
				callee(e, s, in, x.Fn.(*ssa.Function), nil, bound(e, s, x))
			}
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return changed()
		}
		cc := ci.Common()
		f := cc.StaticCallee()
		if f != nil && n.inScope(f) {
			var binds func(string) (ssa.Value, bool)
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				binds = bound(e, s, mc)
			}
			callee(e, s, in, f, cc.Args, binds)
		}
		c, ok := in.(*ssa.Call)
		if !ok {
			return changed()
		}
		res := cc.Signature().Results()
		if res.Len() == 0 {
			return changed()
		}
		if f != nil && n.inScope(f) && structOf(deref(res.At(0).Type())) != nil {
			var kv []string
			for fld, i := range n.builtFrom(f) {
				if i < len(cc.Args) && n.state(e, s, cc.Args[i]) == "" {
					kv = append(kv, "n:"+n.id(s.ctx, e, c)+"."+fld, "1")
				}
			}
			if kv != nil {
				s = s.With(kv...)
			}
		}
		last := res.At(res.Len() - 1).Type()
		isB := last.String() == "bool"
		if !isErr(last) && !isB {
			return changed()
		}
		idx := res.Len() - 1
		if idx == 0 {
			idx = -1
		}
		nl := false
		for i := 0; i < res.Len()-1; i++ {
			nl = nl || nilableType(res.At(i).Type())
		}
		good, bad := "nil", "err"
		if isB {
			good, bad = "true", "false"
		}
		var onG, onB []string
		if f != nil && n.inScope(f) {
			onG, onB = facts(e, s, f, cc.Args, good), facts(e, s, f, cc.Args, bad)
		}
		if !nl && onG == nil && onB == nil {
			return changed()
		}
		if nl {
			e.Hit("call that may fail", in)
		}
		var outs []Outcome
		for _, ok := range []bool{true, false} {
			kv, a := onB, aNonNil
			if isB {
				a = aFalse
			}
			if ok {
				kv, a = onG, aNil
				if isB {
					a = aTrue
				}
			}
			m := e.escape(s.With(kv...), cc, nil)
			e.havoc(m, c)
			e.SetVal(m, c, idx, a)
			if isB && idx == -1 {
				e.refine(m, m.ctx, c, ok, 0)
			}
			for i := 0; i < res.Len()-1; i++ {
				if !nilableType(res.At(i).Type()) {
					continue
				}
				may, miss := false, true
				if f != nil && n.inScope(f) {
					cs := n.sum(f)
					may, miss = cs.mayNil[i], cs.errNil[i]
				}
				switch {
				case ok && !may, !ok && !miss:
					e.SetVal(m, c, i, aNonNil)
				case !ok:
					e.SetVal(m, c, i, aNil)
				case ok && may:
					e.SetVal(m, c, i, "")
				}
			}
			m.note = fmt.Sprintf("%s: %s ok=%v", w.InstrPos(c), callName(cc), ok)
			outs = append(outs, Outcome{S: m, Handled: true})
		}
		return outs
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		nres := len(rt.Results)
		kinds := []string{"any"}
		if nres > 0 {
			last := rt.Results[nres-1]
			a := e.Eval(s, last)
			switch {
			case isErr(last.Type()):
				switch {
				case a == aNil:
					kinds = []string{"nil"}
				case a == aNonNil || isG(a):
					kinds = []string{"err"}
				default:
					kinds = []string{"nil", "err"}
				}
			case last.Type().String() == "bool":
				switch a {
				case aTrue:
					kinds = []string{"true"}
				case aFalse:
					kinds = []string{"false"}
				default:
					kinds = []string{"true", "false"}
				}
			}
		}
		for _, k := range kinds {
			cur := map[string]bool{}
			for f := range s.A {
				if strings.HasPrefix(f, "n:#") {
					cur[f[2:]] = true
				}
			}
			if old, ok := sm.ens[k]; ok {
				for f := range old {
					if !cur[f] {
						delete(old, f)
					}
				}
			} else {
				sm.ens[k] = cur
			}
			for i, v := range rt.Results {
				if !nilableType(v.Type()) || isErr(v.Type()) {
					continue
				}
				st := n.state(e, s, v)
				if bel, _ := n.optional(n.resolve(e, s, v)); bel && strings.HasPrefix(st, "req:") {
					st = "may"
				}
				if p, root := n.path(e, s, v); root == "par" && strings.HasPrefix(p, "#") && (sm.alias[i] == "" || sm.alias[i] == p) && st != "nil" {
					sm.alias[i] = p
				} else if k != "err" && k != "false" {
					sm.alias[i] = "?"
				}
				if st == "nil" || st == "may" {
					if k == "err" || k == "false" {
						sm.errNil[i] = true
					} else {
						sm.mayNil[i] = true
					}
				}
			}
		}
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	n.r.Merge(e)
	n.active[fn] = false
	n.sums[fn] = sm
	return sm
}

func fieldName(v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return fieldOf(fa.X.Type(), fa.Field)
	}
	return ""
}

func (n *nilAna) optionalField(t types.Type, f string) (belief, decoded bool) {
	t = deref(t)
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f && nilableType(st.Field(i).Type()) {
				return n.belief[tname(t)+"."+f], n.dec[tname(t)]
			}
		}
	}
	return false, false
}

// beliefPath: the last step of rest, from a value of type t, is a field that
// the code takes to be nil at times.
func (n *nilAna) beliefPath(t types.Type, rest string) bool {
	parts := strings.Split(strings.TrimPrefix(rest, "."), ".")
	for i, f := range parts {
		st := structOf(deref(t))
		if st == nil || strings.Contains(f, "[") {
			return false
		}
		if i == len(parts)-1 {
			bel, _ := n.optionalField(t, f)
			return bel
		}
		var next types.Type
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == f {
				next = st.Field(j).Type()
			}
		}
		if next == nil {
			return false
		}
		t = next
	}
	return false
}

// builtFrom: the fields of the object f returns that are its parameters.
func (n *nilAna) builtFrom(f *ssa.Function) map[string]int {
	out := map[string]int{}
	first := true
	for _, rt := range returnsOf(f) {
		if len(rt.Results) == 0 {
			return nil
		}
		al, ok := rt.Results[0].(*ssa.Alloc)
		if !ok {
			return nil
		}
		cur := map[string]int{}
		for _, ref := range *al.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, st := range storesTo(fa) {
				if p, ok := st.Val.(*ssa.Parameter); ok && nilableType(p.Type()) && len(storesTo(fa)) == 1 {
					cur[fieldOf(fa.X.Type(), fa.Field)] = paramIndex(p)
				}
			}
		}
		if first {
			out = cur
			first = false
			continue
		}
		for k, v := range out {
			if w, ok := cur[k]; !ok || w != v {
				delete(out, k)
			}
		}
	}
	return out
}

// kept: a message that stays has the parts its readers rely on.
func (n *nilAna) kept(e *Engine, s *State, in ssa.Instruction, v ssa.Value, need func(e *Engine, s *State, in ssa.Instruction, v ssa.Value, rest, what string, d int)) {
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		return
	}
	parts := keptParts[tname(deref(v.Type()))]
	if parts == nil {
		return
	}
	if e.Eval(s, v) == aNil {
		return
	}
	e.Hit("message kept", in)
	for _, p := range parts {
		need(e, s, in, v, p, "a message is kept with its "+p[1:], 0)
	}
}

func (n *nilAna) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if f := addrField(x); f != "" {
			return f
		}
	case *ssa.Field:
		return addrField(x)
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return "an entry of " + short(addrField(lk.X)+" "+tname(lk.X.Type()))
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return "the result of " + callName(&c.Call)
		}
	case *ssa.Call:
		return "the result of " + callName(&x.Call)
	case *ssa.Lookup:
		return "an entry of " + short(addrField(x.X)+" "+tname(x.X.Type()))
	}
	return "a value of type " + v.Type().String()
}

// asserts: an unchecked assertion is on a value of a table that holds only that type.
func (n *nilAna) asserts() {
	for _, fn := range n.scope() {
		eachInstr(fn, func(in ssa.Instruction) {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || ta.CommaOk {
				return
			}
			ts := map[string]bool{}
			n.dynTypes(ta.X, ts, map[ssa.Value]bool{}, 0)
			bad := ""
			for _, t := range keys(ts) {
				if t != ta.AssertedType.String() {
					bad = t
				}
			}
			switch {
			case len(ts) == 0:
				bad = "nothing that is known"
			case bad == "?":
				bad = "a value whose type is not known"
			}
			n.r.Ob(in, bad == "", "a value is taken to be of type "+short(ta.AssertedType.String())+" although it may be "+short(bad))
		})
	}
}

// dynTypes: the types v, an interface, may hold.
func (n *nilAna) dynTypes(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if v == nil || seen[v] {
		return
	}
	if d > 12 {
		out["?"] = true
		return
	}
	seen[v] = true
	if _, ok := v.Type().Underlying().(*types.Interface); !ok {
		out[v.Type().String()] = true
		return
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		out[x.X.Type().String()] = true
		return
	case *ssa.ChangeInterface:
		if it, ok := x.X.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			out[x.X.Type().String()] = true
			return
		}
		n.dynTypes(x.X, out, seen, d+1)
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			n.dynTypes(e, out, seen, d+1)
		}
		return
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && strings.HasPrefix(callName(&c.Call), "sync.Map.Load") {
			n.table(c.Call.Args[0], 2, out, seen, d)
			return
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			n.dynTypes(lk, out, seen, d+1)
			return
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, st := range storesTo(al) {
					n.dynTypes(st.Val, out, seen, d+1)
				}
				return
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if al, ok := staticBinding(fv).(*ssa.Alloc); ok {
					for _, st := range storesTo(al) {
						n.dynTypes(st.Val, out, seen, d+1)
					}
					return
				}
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				n.elems(ia.X, out, seen, d+1)
				return
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		i := paramIndex(x)
		if f.Parent() != nil { // the body of a Range over a table
			done := false
			eachInstr(f.Parent(), func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || callName(ci.Common()) != "sync.Map.Range" {
					return
				}
				a := ci.Common().Args
				if fnOf(a[1]) == f {
					done = true
					n.table(a[0], i+1, out, seen, d)
				}
			})
			if done {
				return
			}
		}
		if ss := n.sites[f]; len(ss) > 0 && f.Parent() == nil && !exportedAPI(f) {
			for _, s := range ss {
				n.dynTypes(s.Common().Args[i], out, seen, d+1)
			}
			return
		}
		if !exportedAPI(f) && len(n.sites[f]) > 0 {
			for _, s := range n.sites[f] {
				n.dynTypes(s.Common().Args[i], out, seen, d+1)
			}
			return
		}
	}
	out["?"] = true
}

func exportedAPI(f *ssa.Function) bool { return f.Object() != nil && f.Object().Exported() }

func fnOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	}
	return nil
}

// table: what is stored in the sync.Map m, as key (1) or value (2).
func (n *nilAna) table(m ssa.Value, arg int, out map[string]bool, seen map[ssa.Value]bool, d int) {
	fs, whole := n.tableFields(m)
	if !whole || len(fs) == 0 {
		out["?"] = true
		return
	}
	for _, fn := range n.w.Funcs {
		eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			switch callName(ci.Common()) {
			case "sync.Map.Store", "sync.Map.LoadOrStore", "sync.Map.Swap":
			default:
				return
			}
			a := ci.Common().Args
			gs, known := n.tableFields(a[0])
			same := !known
			for g := range gs {
				same = same || fs[g]
			}
			if same {
				n.dynTypes(a[arg], out, seen, d+1)
			}
		})
	}
}

// tableFields: the fields m may be the content of (also a local that is put
// into one), and whether these are all.
func (n *nilAna) tableFields(m ssa.Value) (map[string]bool, bool) {
	out := map[string]bool{}
	whole := true
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value, d int)
	back = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 10 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			out[tname(deref(x.X.Type()))+"."+fieldOf(x.X.Type(), x.Field)] = true
		case *ssa.UnOp:
			if f := addrField(x); f != "" {
				out[f] = true
				return
			}
			switch a := x.X.(type) {
			case *ssa.Alloc:
				for _, st := range storesTo(a) {
					back(st.Val, d+1)
				}
			case *ssa.FreeVar:
				back(a, d+1)
			default:
				whole = false
			}
		case *ssa.FreeVar:
			b := staticBinding(x)
			if al, ok := b.(*ssa.Alloc); ok {
				if _, isP := deref(al.Type()).Underlying().(*types.Pointer); isP {
					for _, st := range storesTo(al) {
						back(st.Val, d+1)
					}
					return
				}
			}
			if b == nil {
				whole = false
			}
			back(b, d+1)
		case *ssa.Parameter:
			if len(n.sites[x.Parent()]) == 0 {
				whole = false
			}
			for _, s := range n.sites[x.Parent()] {
				back(s.Common().Args[paramIndex(x)], d+1)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e, d+1)
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && n.w.IsRepo(f) {
				for _, rt := range returnsOf(f) {
					back(rt.Results[0], d+1)
				}
			} else {
				whole = false
			}
		case *ssa.Alloc:
			out[fmt.Sprintf("local %s %d", x.Parent(), x.Pos())] = true
			n.intoFields(x, out, map[ssa.Value]bool{}, 0)
		case *ssa.Global:
			out["g:"+x.Name()] = true
		default:
			whole = false
		}
	}
	back(m, 0)
	return out, whole
}

// intoFields: the fields a pointer to a table is put into.
func (n *nilAna) intoFields(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if seen[v] || d > 8 || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if f, _ := storeField(x); f != "" {
				out[f] = true
			} else if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, r2 := range *al.Referrers() {
					if u, ok := r2.(*ssa.UnOp); ok {
						n.intoFields(u, out, seen, d+1)
					}
				}
			}
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && n.w.IsRepo(f) {
				for i, a := range x.Common().Args {
					if a == v && i < len(f.Params) {
						n.intoFields(f.Params[i], out, seen, d+1)
					}
				}
			}
		case *ssa.Phi:
			n.intoFields(x, out, seen, d+1)
		}
	}
}

// elems: the types of the elements of the slice v.
func (n *nilAna) elems(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if v == nil || seen[v] {
		return
	}
	if d > 12 {
		out["?"] = true
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for _, e := range x.Edges {
			n.elems(e, out, seen, d+1)
		}
	case *ssa.Slice:
		n.elems(x.X, out, seen, d+1)
	case *ssa.MakeSlice, *ssa.Alloc:
		for _, ref := range *v.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, st := range storesTo(ia) {
					n.dynTypes(st.Val, out, seen, d+1)
				}
			}
		}
	case *ssa.Call:
		cc := &x.Call
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range cc.Args {
				n.elems(a, out, seen, d+1)
			}
			return
		}
		if cc.IsInvoke() && cc.Method.Name() == "ToSlice" {
			n.setTypes(cc.Value, out, seen, d+1)
			return
		}
		if f := cc.StaticCallee(); f != nil && n.w.IsRepo(f) && len(f.Blocks) > 0 {
			for _, rt := range returnsOf(f) {
				n.elems(rt.Results[0], out, seen, d+1)
			}
			return
		}
		out["?"] = true
	case *ssa.Parameter:
		if len(n.sites[x.Parent()]) == 0 || exportedAPI(x.Parent()) {
			out["?"] = true
		}
		for _, s := range n.sites[x.Parent()] {
			n.elems(s.Common().Args[paramIndex(x)], out, seen, d+1)
		}
	default:
		out["?"] = true
	}
}

// setTypes: the types of the members of a set.
func (n *nilAna) setTypes(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if v == nil || seen[v] {
		return
	}
	if d > 12 {
		out["?"] = true
		return
	}
	seen[v] = true
	if refs := v.Referrers(); refs != nil {
		for _, ref := range *refs {
			if c, ok := ref.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Value == v && c.Common().Method.Name() == "Add" {
				n.dynTypes(c.Common().Args[0], out, seen, d+1)
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			n.setTypes(e, out, seen, d+1)
		}
	case *ssa.Call:
		cc := &x.Call
		switch {
		case cc.IsInvoke() && (cc.Method.Name() == "Difference" || cc.Method.Name() == "Clone"):
			n.setTypes(cc.Value, out, seen, d+1)
		case cc.IsInvoke() && (cc.Method.Name() == "Union" || cc.Method.Name() == "Intersect" || cc.Method.Name() == "SymmetricDifference"):
			n.setTypes(cc.Value, out, seen, d+1)
			n.setTypes(cc.Args[0], out, seen, d+1)
		case strings.Contains(callName(cc), "golang-set.New"):
			for _, a := range cc.Args {
				n.elems(a, out, seen, d+1)
			}
		default:
			if f := cc.StaticCallee(); f != nil && n.w.IsRepo(f) && len(f.Blocks) > 0 {
				for _, rt := range returnsOf(f) {
					n.setTypes(rt.Results[0], out, seen, d+1)
				}
				return
			}
			out["?"] = true
		}
	default:
		out["?"] = true
	}
}

// exits: the node does not end itself.
func (n *nilAna) exits() {
	for _, fn := range n.scope() {
		eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Panic:
				if x.Pos() != token.NoPos { // not the one the compiler adds to a select
					n.r.Ob(in, false, "the node panics")
				}
			case ssa.CallInstruction:
				c := callName(x.Common())
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "panic" || neverReturns(c) || strings.HasSuffix(c, "zerolog.Logger.Fatal") || strings.HasSuffix(c, "zerolog.Logger.Panic") || strings.HasSuffix(c, "zerolog/log.Fatal") || strings.HasSuffix(c, "zerolog/log.Panic") {
					n.r.Ob(in, false, "the process is ended")
				}
			}
		})
	}
}
