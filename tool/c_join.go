package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:    "C33",
		Title: "Concurrent work is joined before its results are used",
		Rule: "For every goroutine started by a function (directly, in a loop, or in a function it hands to a library): while it may still be running (may-analysis; it ends at the Wait for the group on which it calls Done, or at the receipt from a channel that it closes or sends to after its last access), " +
			"the function neither reads a variable the goroutine writes nor writes one it uses, unless both do so atomically or under a common lock; the same between any two goroutines that may run at the same time, elements of a slice at an index of the goroutine's own aside. " +
			"A goroutine that calls Done on a group does so exactly once on every path; it is counted before it is started and never by itself; on every path as many are counted as are started (for a count that is the length of a collection: exactly one in every round of the loop over it).",
		Assume: []string{"objects reached through pointers, which C20 covers, are not variables of the function", "the library calls a function handed to it in the calling goroutine"},
		Run:    runJoin,
	})
}

// cell follows captured variables to the variable they are.
func cell(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			v = staticBinding(x)
			if v == nil {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

type effect struct {
	cell   *ssa.Alloc
	in     ssa.Instruction
	write  bool
	atomic bool
	elem   bool // an element of a slice
	index  ssa.Value
}

func syncType(t types.Type) bool {
	n := tname(deref(t))
	if strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "atomic.") || strings.Contains(n, "zerolog.Logger") {
		return true
	}
	_, ch := deref(t).Underlying().(*types.Chan)
	return ch && false
}

// effectsOf: what in does to variables.
func effectsOf(in ssa.Instruction) []effect {
	var out []effect
	add := func(v ssa.Value, write, atomic, elem bool, idx ssa.Value) {
		a := cell(v)
		if a == nil || syncType(deref(a.Type())) {
			return
		}
		out = append(out, effect{a, in, write, atomic, elem, idx})
	}
	// base of an address: the variable it is (part) of
	var base func(v ssa.Value, write bool)
	base = func(v ssa.Value, write bool) {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if _, ok := x.X.(*ssa.UnOp); !ok {
				base(x.X, write)
			}
		case *ssa.IndexAddr:
			if _, isArr := deref(x.X.Type()).Underlying().(*types.Array); isArr {
				base(x.X, write)
				return
			}
			if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
				add(u.X, write, false, true, x.Index)
			}
		case *ssa.Alloc, *ssa.FreeVar:
			add(v, write, false, false, nil)
		}
	}
	content := func(v ssa.Value, write bool) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, isMap := u.Type().Underlying().(*types.Map); isMap {
				add(u.X, write, false, false, nil)
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		base(x.Addr, true)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			base(x.X, false)
		}
	case *ssa.MapUpdate:
		content(x.Map, true)
	case *ssa.Lookup:
		content(x.X, false)
	case *ssa.Range:
		content(x.X, false)
	case ssa.CallInstruction:
		cc := x.Common()
		n := callName(cc)
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "delete" {
				content(cc.Args[0], true)
			}
			return out
		}
		args := cc.Args
		for _, a := range args {
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			if _, isPtr := a.Type().Underlying().(*types.Pointer); !isPtr {
				continue
			}
			if c := cell(a); c != nil {
				add(a, true, strings.HasPrefix(n, "sync/atomic."), false, nil)
			} else if fa, ok := a.(*ssa.FieldAddr); ok && !syncType(deref(fa.Type())) {
				if _, isU := fa.X.(*ssa.UnOp); !isU && cell(fa.X) != nil {
					add(fa.X, true, strings.HasPrefix(n, "sync/atomic."), false, nil)
				}
			}
		}
	}
	return out
}

// started is a goroutine and what it does.
type started struct {
	site ssa.Instruction // in the function looked at
	g    *ssa.Go
	t    *ssa.Function
	many bool // several at a time
	eff  []effect
	wgs  map[string]bool // groups it calls Done on
}

type join struct {
	*conc
	r *Report
	l *locks
}

func runJoin(w *World, r *Report) {
	j := &join{conc: newConc(w), r: r}
	j.l = &locks{w: w, r: r, sum: map[*ssa.Function]*lkSum{}, entry: map[*ssa.Function]lkSet{}, order: map[lkEdge]ssa.Instruction{}, busy: map[*ssa.Function]bool{}}
	j.l.sites = map[*ssa.Function][]lkSet{}
	j.l.summarise(j.fns)
	for _, fn := range j.fns {
		if !hasInstr(fn, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Go); return ok }) && len(j.byCallback(fn)) == 0 {
			continue
		}
		r.Fns[fname(fn)] = true
		j.function(fn)
	}
	r.Need("goroutine", 8)
	r.Need("Done", 6)
	r.Need("joined", 6)
}

// body: the effects of a function, of the closures in it that it calls, and the
// groups it calls Done on.
func (j *join) body(fn *ssa.Function, args []ssa.Value, depth int, seen map[*ssa.Function]bool) (eff []effect, wgs map[string]bool) {
	wgs = map[string]bool{}
	if fn == nil || seen[fn] || len(fn.Blocks) == 0 || depth > 6 {
		return
	}
	seen[fn] = true
	eachInstr(fn, func(in ssa.Instruction) {
		for _, e := range effectsOf(in) {
			if e.cell.Parent() != fn {
				eff = append(eff, e)
			}
		}
		if mc, ok := in.(*ssa.MakeClosure); ok {
			e, ws := j.body(mc.Fn.(*ssa.Function), args, depth+1, seen)
			for _, x := range e {
				if x.cell.Parent() != fn {
					eff = append(eff, x)
				}
			}
			for k := range ws {
				if !goOnly(mc) {
					wgs[k] = true
				}
			}
		}
		if cc, isD := doneCall(in); isD {
			rc, _ := callArgs(cc)
			wgs[j.group(rc, args)] = true
		}
		if ci, ok := in.(*ssa.Call); ok {
			// a helper that is given the group
			if f := ci.Call.StaticCallee(); f != nil && j.w.IsRepo(f) && f.Synthetic == "" {
				for i, a := range ci.Call.Args {
					if tname(deref(a.Type())) == "sync.WaitGroup" && i < len(f.Params) && hasInstr(f, func(in ssa.Instruction) bool { _, d := doneCall(in); return d }) {
						wgs[j.group(a, args)] = true
					}
				}
			}
		}
	})
	return
}

// goOnly: the closure is only started as a goroutine.
func goOnly(mc *ssa.MakeClosure) bool {
	n := 0
	for _, r := range *mc.Referrers() {
		switch r.(type) {
		case *ssa.Go:
			n++
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return n > 0
}

func doneCall(in ssa.Instruction) (*ssa.CallCommon, bool) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || callName(ci.Common()) != "sync.WaitGroup.Done" {
		return nil, false
	}
	return ci.Common(), true
}

// group names a WaitGroup: a variable, or a field by its type.
func (j *join) group(v ssa.Value, args []ssa.Value) string {
	if p, ok := v.(*ssa.Parameter); ok {
		if i := paramIndex(p); args != nil && i >= 0 && i < len(args) {
			return j.group(args[i], nil)
		}
		return fmt.Sprintf("p%d", paramIndex(p))
	}
	if a := cell(v); a != nil {
		if pt, isPtr := deref(a.Type()).(*types.Pointer); isPtr {
			_ = pt
			if sts := storesTo(a); len(sts) == 1 {
				return j.group(sts[0].Val, args)
			}
		}
		return fmt.Sprintf("%p", a)
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if a := cell(x.X); a != nil {
			return fmt.Sprintf("%p.%d", a, x.Field)
		}
		return tname(deref(x.X.Type())) + "." + fieldOf(x.X.Type(), x.Field)
	case *ssa.UnOp:
		return j.group(x.X, args)
	}
	return fmt.Sprintf("%p", v)
}

// byCallback: goroutines started by functions that fn hands on.
func (j *join) byCallback(fn *ssa.Function) []started {
	var out []started
	eachInstr(fn, func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return
		}
		vals := append([]ssa.Value{ci.Common().Value}, ci.Common().Args...)
		for k, a := range vals {
			mc, ok := a.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			cl := mc.Fn.(*ssa.Function)
			eachInstr(cl, func(i2 ssa.Instruction) {
				if g, ok := i2.(*ssa.Go); ok {
					s := j.start(g, in)
					if s != nil {
						s.many = s.many || k > 0 || reachesBlock(in.Block(), in.Block())
						out = append(out, *s)
					}
				}
			})
		}
	})
	return out
}

func (j *join) start(g *ssa.Go, site ssa.Instruction) *started {
	t := g.Call.StaticCallee()
	if t == nil || !j.w.IsRepo(t) || len(t.Blocks) == 0 {
		return nil
	}
	s := &started{site: site, g: g, t: t, many: reachesBlock(g.Block(), g.Block())}
	s.eff, s.wgs = j.body(t, g.Call.Args, 0, map[*ssa.Function]bool{})
	for i, a := range g.Call.Args { // addresses of variables handed over
		if c := cell(a); c != nil && !syncType(deref(c.Type())) && i < len(t.Params) {
			eachInstr(t, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(t.Params[i]) {
					s.eff = append(s.eff, effect{cell: c, in: in, write: true})
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(t.Params[i]) {
					s.eff = append(s.eff, effect{cell: c, in: in})
				}
			})
		}
	}
	return s
}

func (j *join) function(fn *ssa.Function) {
	var gs []*started
	eachInstr(fn, func(in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			if s := j.start(g, in); s != nil {
				gs = append(gs, s)
				j.r.Anchor("goroutine", in)
			}
		}
	})
	for _, s := range j.byCallback(fn) {
		s := s
		gs = append(gs, &s)
	}
	if len(gs) == 0 {
		return
	}
	// may-analysis of what is running
	type set map[*started]bool
	in := map[*ssa.BasicBlock]set{fn.Blocks[0]: {}}
	step := func(s set, i ssa.Instruction, visit func(s set, i ssa.Instruction)) set {
		if visit != nil {
			visit(s, i)
		}
		n := s
		cp := func() {
			m := set{}
			for k := range n {
				m[k] = true
			}
			n = m
		}
		for _, g := range gs {
			if g.site == i {
				cp()
				n[g] = true
			}
		}
		for g := range n {
			if j.joins(fn, i, g) {
				cp()
				delete(n, g)
			}
		}
		return n
	}
	run := func(b *ssa.BasicBlock, visit func(s set, i ssa.Instruction)) set {
		s := in[b]
		if ch := selectEdge(b); ch != nil {
			m := set{}
			for g := range s {
				if !j.signals(g, ch) {
					m[g] = true
				}
			}
			s = m
		}
		for _, i := range b.Instrs {
			s = step(s, i, visit)
		}
		return s
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := run(b, nil)
		for _, t := range b.Succs {
			o, ok := in[t]
			ch := !ok
			m := set{}
			for k := range o {
				m[k] = true
			}
			for k := range s {
				if !m[k] {
					m[k], ch = true, true
				}
			}
			if ch {
				in[t] = m
				work = append(work, t)
			}
		}
	}
	at := j.l.flow(fn, lkSet{}, nil)
	for _, b := range fn.Blocks {
		if in[b] == nil {
			continue
		}
		run(b, func(s set, i ssa.Instruction) {
			if len(s) == 0 {
				return
			}
			// started side by side
			for _, g := range gs {
				if g.site != i {
					continue
				}
				for o := range s {
					if o != g {
						j.conflict(fn, g, o)
					}
				}
			}
			effs := effectsOf(i)
			if d, ok := i.(*ssa.RunDefers); ok {
				_ = d
				effs = j.deferred(fn, i)
			}
			if c, ok := i.(*ssa.Call); ok {
				if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok && !hasGo(mc.Fn.(*ssa.Function)) {
					e, _ := j.body(mc.Fn.(*ssa.Function), nil, 0, map[*ssa.Function]bool{})
					effs = append(effs, e...)
				}
			}
			if _, isGo := i.(*ssa.Go); isGo {
				effs = nil
			}
			for g := range s {
				for _, e := range effs {
					for _, x := range g.eff {
						if x.cell != e.cell || !x.write && !e.write || x.atomic && e.atomic {
							continue
						}
						if g.site == i {
							continue
						}
						if j.fresh(e.cell, g) && !j.sameRound(e.cell, i, g) {
							continue
						}
						var held lkSet
						if at[i] != nil {
							held = at[i].must
						}
						j.r.Ob(i, j.common(held, g, x.in), "the variable "+e.cell.Comment+" is used while a goroutine that uses it may be running")
					}
				}
			}
		})
	}
	for _, g := range gs {
		if g.many {
			j.conflict(fn, g, g)
		}
		j.counted(fn, g)
		j.r.Ob(g.g, true, "")
	}
	j.balance(fn, gs)
}

func hasGo(fn *ssa.Function) bool {
	return hasInstr(fn, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Go); return ok })
}

// deferred: what the deferred closures of fn do.
func (j *join) deferred(fn *ssa.Function, at ssa.Instruction) []effect {
	var out []effect
	eachInstr(fn, func(in ssa.Instruction) {
		d, ok := in.(*ssa.Defer)
		if !ok || d.Block() != at.Block() && !reachesBlock(d.Block(), at.Block()) {
			return
		}
		mc, ok := d.Call.Value.(*ssa.MakeClosure)
		if !ok || !d.Block().Dominates(at.Block()) {
			return
		}
		e, _ := j.body(mc.Fn.(*ssa.Function), nil, 0, map[*ssa.Function]bool{})
		out = append(out, e...)
	})
	return out
}

// fresh: every start of g has a variable of its own.
func (j *join) fresh(a *ssa.Alloc, g *started) bool {
	if a.Parent() != g.site.Parent() {
		return a.Parent() == g.g.Parent() // made in the function handed on
	}
	if a.Parent() == g.t {
		return true
	}
	return reachesBlock(a.Block(), a.Block()) && inSameLoop(a.Block(), g.site.Block())
}

// sameRound: the use at i may be of the very variable g got.
func (j *join) sameRound(a *ssa.Alloc, i ssa.Instruction, g *started) bool {
	if i.Block() == g.site.Block() {
		return indexIn(g.site) < indexIn(i)
	}
	return reachesAvoiding(g.site.Block(), i.Block(), a.Block())
}

func indexIn(in ssa.Instruction) int {
	for k, x := range in.Block().Instrs {
		if x == in {
			return k
		}
	}
	return -1
}

// selectEdge: b is entered when a receive of a select was chosen; its channel.
func selectEdge(b *ssa.BasicBlock) ssa.Value {
	if len(b.Preds) != 1 {
		return nil
	}
	p := b.Preds[0]
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] != b {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL {
		return nil
	}
	ex, ok := bo.X.(*ssa.Extract)
	k, ok2 := bo.Y.(*ssa.Const)
	if !ok || !ok2 || ex.Index != 0 {
		return nil
	}
	sel, ok := ex.Tuple.(*ssa.Select)
	if !ok || int(k.Int64()) >= len(sel.States) || k.Int64() < 0 {
		return nil
	}
	st := sel.States[k.Int64()]
	if st.Dir != types.RecvOnly {
		return nil
	}
	return st.Chan
}

// waits: a call that waits for a group of the goroutine.
func (j *join) waits(cc *ssa.CallCommon, g *started, k string) bool {
	is := func(v ssa.Value, args []ssa.Value) bool {
		n := j.group(v, args)
		return g.wgs[n] && (k == "" || n == k)
	}
	if callName(cc) == "sync.WaitGroup.Wait" {
		rc, _ := callArgs(cc)
		return is(rc, nil)
	}
	f := cc.StaticCallee()
	if f == nil || !j.w.IsRepo(f) {
		return false
	}
	ok := false
	eachInstr(f, func(in ssa.Instruction) {
		if c := isCall(in, "sync.WaitGroup.Wait"); c != nil {
			rc, _ := callArgs(c)
			ok = ok || is(rc, cc.Args)
		}
	})
	return ok
}

func allAnon(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range fn.AnonFuncs {
		out = append(append(out, f), allAnon(f)...)
	}
	return out
}

// joins: after i, g is over.
func (j *join) joins(fn *ssa.Function, i ssa.Instruction, g *started) bool {
	wait := func(cc *ssa.CallCommon) bool {
		if j.waits(cc, g, "") {
			j.r.Anchor("joined", i)
			return true
		}
		return false
	}
	switch x := i.(type) {
	case *ssa.Call:
		return wait(&x.Call)
	case *ssa.RunDefers:
		ok := false
		eachInstr(fn, func(in ssa.Instruction) {
			if d, isD := in.(*ssa.Defer); isD && d.Block().Dominates(i.Block()) && wait(&d.Call) {
				ok = true
			}
		})
		return ok
	case *ssa.UnOp:
		if x.Op == token.ARROW && (!g.many || reachesBlock(i.Block(), i.Block())) {
			return j.signals(g, x.X)
		}
	}
	return false
}

// signals: g sends to or closes the channel after its last access.
func (j *join) signals(g *started, ch ssa.Value) bool {
	os := j.origins(ch)
	is := func(v ssa.Value) bool {
		for _, o := range os {
			if strings.HasPrefix(o, "make:") && j.on(o, v) {
				return true
			}
		}
		return false
	}
	found := false
	eachInstr(g.t, func(in ssa.Instruction) {
		if d, ok := in.(*ssa.Defer); ok && closes(in) != nil && is(closes(in)) && d.Block() == g.t.Blocks[0] {
			found = true
			return
		}
		ok := false
		if c, isC := in.(*ssa.Call); isC && closes(c) != nil {
			ok = is(closes(c))
		}
		if s, isS := in.(*ssa.Send); isS {
			ok = is(s.Chan)
		}
		if !ok {
			return
		}
		last := true
		for _, e := range g.eff {
			b := e.in.Block()
			if b.Parent() != g.t || b == in.Block() && indexIn(e.in) > indexIn(in) || b != in.Block() && reachesBlock(in.Block(), b) || reachesBlock(in.Block(), in.Block()) && b == in.Block() {
				last = false
			}
		}
		found = found || last
	})
	if found && g.many {
		found = false
	}
	if found {
		j.r.Anchor("joined", g.g)
	}
	return found
}

// common: a lock held at an instruction of fn and at one of the goroutine.
func (j *join) common(held lkSet, g *started, in ssa.Instruction) bool {
	for k := range j.heldIn(g, in) {
		if held[k] != 0 {
			return true
		}
	}
	return false
}

// heldIn: the locks the goroutine holds at in, in terms of the function.
func (j *join) heldIn(g *started, in ssa.Instruction) lkSet {
	out := lkSet{}
	f := in.Parent()
	at := j.l.flow(f, lkSet{}, nil)
	x := at[in]
	if x == nil {
		return out
	}
	var m [][2]string
	if mc, ok := g.g.Call.Value.(*ssa.MakeClosure); ok && f == g.t {
		m = j.l.binds(mc)
	}
	for i, a := range g.g.Call.Args {
		m = append(m, [2]string{fmt.Sprintf("p%d", i), j.l.lpath(a)})
	}
	for k, v := range x.must {
		if c, ok := conv(k, m, 0); ok {
			out[c] = v
		}
	}
	return out
}

// conflict: two goroutines that may run at the same time.
func (j *join) conflict(fn *ssa.Function, a, b *started) {
	for _, x := range a.eff {
		for _, y := range b.eff {
			if x.cell != y.cell || !x.write && !y.write || x.atomic && y.atomic {
				continue
			}
			if a == b && j.fresh(x.cell, a) {
				continue
			}
			if x.elem && y.elem && a == b && j.ownIndex(x, a) && j.ownIndex(y, a) {
				continue
			}
			if x.elem != y.elem { // the slice itself is only read
				v, e := x, y
				if x.elem {
					v, e = y, x
				}
				_ = e
				if !v.write {
					continue
				}
			}
			ok := false
			hb := j.heldIn(b, y.in)
			for k := range j.heldIn(a, x.in) {
				ok = ok || hb[k] != 0
			}
			in := x.in
			if !x.write {
				in = y.in
			}
			j.r.Ob(in, ok, "the variable "+x.cell.Comment+" is written by a goroutine while another may use it")
		}
	}
}

// ownIndex: the index is the goroutine's own.
func (j *join) ownIndex(e effect, g *started) bool {
	switch x := e.index.(type) {
	case *ssa.Parameter:
		return x.Parent() == g.t
	case *ssa.UnOp:
		if a := cell(x.X); a != nil {
			if a.Parent() == g.t { // a variable of the goroutine
				sts := storesTo(a)
				if len(sts) == 1 {
					_, isP := sts[0].Val.(*ssa.Parameter)
					return isP
				}
				return false
			}
			return j.fresh(a, g)
		}
	}
	return false
}

// counted: the goroutine is counted before it starts, and tells its end once.
func (j *join) counted(fn *ssa.Function, g *started) {
	for k := range g.wgs {
		j.r.Anchor("Done", g.g)
		pred := func(in ssa.Instruction) bool {
			cc, ok := doneCall(in)
			if !ok {
				return false
			}
			rc, _ := callArgs(cc)
			if j.group(rc, nil) == k {
				return true
			}
			return j.group(rc, g.g.Call.Args) == k
		}
		lo, hi := j.count(g.t, pred)
		if !hasInstr(g.t, pred) && hi == 0 {
			continue // in a helper
		}
		if lo == 0 && neverEnds(g.t) {
			lo = 1
		}
		j.r.Ob(g.g, lo == 1 && hi == 1, "a goroutine does not tell its end exactly once on every path")
		j.r.Ob(g.g, j.late(g.t, pred) == nil, "a goroutine goes on after it told its end")
		self := false
		eachInstr(g.t, func(in ssa.Instruction) {
			if cc := isCall(in, "sync.WaitGroup.Add"); cc != nil {
				rc, _ := callArgs(cc)
				self = self || j.group(rc, g.g.Call.Args) == k || j.group(rc, nil) == k
			}
		})
		j.r.Ob(g.g, !self, "a goroutine counts itself")
	}
}

// late: something a goroutine still does after it told its end.
func (j *join) late(fn *ssa.Function, done func(in ssa.Instruction) bool) ssa.Instruction {
	var out ssa.Instruction
	note := func(in ssa.Instruction) {
		if out == nil && !done(in) && j.work(in, 0) {
			out = in
		}
	}
	eachInstr(fn, func(in ssa.Instruction) {
		_, isCall := in.(*ssa.Call)
		d, isDefer := in.(*ssa.Defer)
		switch {
		case isCall && done(in):
			after := false
			for _, x := range in.Block().Instrs {
				if after {
					note(x)
				}
				after = after || x == in
			}
			for _, b := range fn.Blocks {
				if b != in.Block() && reachesBlock(in.Block(), b) {
					for _, x := range b.Instrs {
						note(x)
					}
				}
			}
		case isDefer:
			told := done(in)
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok && !told {
				cl := mc.Fn.(*ssa.Function)
				if told = hasInstr(cl, done); told && out == nil {
					out = j.late(cl, done)
				}
			}
			if !told {
				return
			}
			// what was deferred before runs after it
			eachInstr(fn, func(x ssa.Instruction) {
				e, ok := x.(*ssa.Defer)
				if !ok || e == d {
					return
				}
				before := e.Block() != d.Block() && reachesBlock(e.Block(), d.Block())
				if e.Block() == d.Block() {
					for _, y := range e.Block().Instrs {
						if y == ssa.Instruction(e) {
							before = true
							break
						}
						if y == ssa.Instruction(d) {
							break
						}
					}
				}
				if before {
					note(e)
				}
			})
		}
	})
	return out
}

// work: the instruction does something that others may depend on.
func (j *join) work(in ssa.Instruction, depth int) bool {
	if st, ok := in.(*ssa.Store); ok {
		at := st.Addr
		for {
			if x, ok := at.(*ssa.IndexAddr); ok {
				at = x.X
			} else if x, ok := at.(*ssa.FieldAddr); ok {
				at = x.X
			} else {
				break
			}
		}
		a, ok := at.(*ssa.Alloc)
		return !ok || a.Parent() != in.Parent()
	}
	switch in.(type) {
	case *ssa.MapUpdate, *ssa.Send:
		return true
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && depth < 4 {
		return hasInstr(mc.Fn.(*ssa.Function), func(x ssa.Instruction) bool { return j.work(x, depth+1) })
	}
	f := cc.StaticCallee()
	if f == nil {
		if _, isB := cc.Value.(*ssa.Builtin); isB {
			return false
		}
		if cc.IsInvoke() {
			n := cc.Method.Name()
			switch n {
			case "Error", "String", "Done", "PartyID", "ID", "RemotePeer", "Conn", "Type", "Len":
				return false // only look at something
			}
			return true
		}
		return tname(cc.Value.Type()) != "context.CancelFunc"
	}
	if !j.w.IsRepo(f) {
		switch p := fnPkg(f); {
		case p == nil:
			return false
		case strings.Contains(p.Path(), "zerolog"), p.Path() == "fmt", p.Path() == "time", p.Path() == "sync", p.Path() == "strings", p.Path() == "strconv", p.Path() == "errors", p.Path() == "context":
			return false
		}
		return true
	}
	return depth > 4 || hasInstr(f, func(x ssa.Instruction) bool { return j.work(x, depth+1) })
}

func neverEnds(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

// balance: as many are counted as are started.
func (j *join) balance(fn *ssa.Function, gs []*started) {
	groups := map[string][]*started{}
	for _, g := range gs {
		for k := range g.wgs {
			groups[k] = append(groups[k], g)
		}
	}
	for k, list := range groups {
		if strings.HasPrefix(k, "0x") {
			waited := false
			for _, f := range append([]*ssa.Function{fn}, allAnon(fn)...) {
				eachInstr(f, func(in ssa.Instruction) {
					if ci, ok := in.(ssa.CallInstruction); ok {
						for _, g := range list {
							waited = waited || j.waits(ci.Common(), g, k)
						}
					}
				})
			}
			if fn.Parent() == nil {
				j.r.Ob(list[0].g, waited, "a group of goroutines is never waited for")
			}
		}
		var adds []ssa.Instruction
		add := func(in ssa.Instruction) (ssa.Value, bool) {
			c, ok := in.(*ssa.Call)
			if !ok || callName(&c.Call) != "sync.WaitGroup.Add" {
				return nil, false
			}
			rc, a := callArgs(&c.Call)
			return a[0], j.group(rc, nil) == k
		}
		constant := true
		callback := false
		eachInstr(fn, func(in ssa.Instruction) {
			if n, ok := add(in); ok {
				adds = append(adds, in)
				_, isC := n.(*ssa.Const)
				constant = constant && isC
			}
		})
		for _, g := range list {
			callback = callback || g.site != ssa.Instruction(g.g)
		}
		if len(adds) == 0 {
			// counted by the caller, or by the function handed on
			inner := false
			for _, g := range list {
				if g.site != ssa.Instruction(g.g) {
					eachInstr(g.g.Parent(), func(in ssa.Instruction) {
						if _, ok := add(in); ok {
							inner = true
						}
					})
				}
			}
			if !inner && !strings.HasPrefix(k, "p") && fn.Parent() == nil {
				j.r.Ob(list[0].g, false, "a goroutine is started that was not counted before")
			}
			continue
		}
		for _, g := range list {
			before := false
			for _, a := range adds {
				if a.Block() == g.site.Block() && indexIn(a) < indexIn(g.site) || a.Block() != g.site.Block() && a.Block().Dominates(g.site.Block()) {
					before = true
				}
			}
			j.r.Ob(g.site, before, "a goroutine is started that was not counted before")
		}
		if callback {
			continue
		}
		if constant {
			j.balanced(fn, k, list, add)
			continue
		}
		// a count for a whole loop
		ok := len(adds) == 1 && len(list) == 1
		if ok {
			n, _ := add(adds[0])
			ok = j.everyRound(fn, n, list[0])
		}
		j.r.Ob(adds[0], ok, "not exactly one goroutine is started for each that is counted")
	}
}

// balanced: on every path the counts sum up to the number started.
func (j *join) balanced(fn *ssa.Function, k string, list []*started, add func(in ssa.Instruction) (ssa.Value, bool)) {
	h := &Hooks{SkipGo: true, Interesting: func(in ssa.Instruction) bool { return false }}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if in.Parent() != fn {
			return nil
		}
		n := 0
		fmt.Sscan(s.Get("n"), &n)
		if v, ok := add(in); ok {
			return []Outcome{{S: s.With("n", fmt.Sprint(n+int(v.(*ssa.Const).Int64())), "at", "1")}}
		}
		for _, g := range list {
			if g.site == in {
				e.Ob(s, in, n > 0, "more goroutines are started than were counted")
				if n <= 0 {
					return []Outcome{{Stop: true}}
				}
				return []Outcome{{S: s.With("n", fmt.Sprint(n-1))}}
			}
		}
		if cc := callAt(s, in); cc != nil && callName(cc) == "sync.WaitGroup.Wait" {
			rc, _ := callArgs(cc)
			if j.group(rc, nil) == k {
				e.Ob(s, in, n == 0, "more goroutines are waited for than were started")
			}
		}
		if n > 20 {
			return []Outcome{{Stop: true}}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		n := 0
		fmt.Sscan(s.Get("n"), &n)
		field := !strings.HasPrefix(k, "0x")
		e.Ob(s, rt, n == 0 || !field, "more goroutines are counted than are started")
	}
	e := NewEngine(j.w, h)
	e.Run(fn, nil)
	j.r.Merge(e)
}

// everyRound: every round of the loop over what n is the length of starts g.
func (j *join) everyRound(fn *ssa.Function, n ssa.Value, g *started) bool {
	h := innermost(g.site.Block())
	if h == nil {
		return false
	}
	root := j.w.Root(fn)
	want := j.w.T(root, n).String()
	match := false
	for _, i := range h.Instrs {
		if coll, _, ok := loopHeader(i); ok && ("len("+j.w.T(root, coll).String()+")" == want || sameLen(j.w, root, n, coll)) {
			match = true
		}
		if bo, ok := i.(*ssa.BinOp); ok && (bo.X == n || bo.Y == n) {
			match = true
		}
	}
	if !match {
		return false
	}
	// a round that does not pass the start
	gb := g.site.Block()
	if gb == h {
		return true
	}
	for _, s := range h.Succs {
		if !reachesBlock(s, h) && s != h {
			continue
		}
		if s != gb && (s == h || reachesAvoiding(s, h, gb)) {
			return false
		}
	}
	// a loop left early
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] || b == h {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s != h && !reachesBlock(s, h) {
				ok = false
				continue
			}
			dfs(s)
		}
	}
	for _, s := range h.Succs {
		if reachesBlock(s, h) {
			dfs(s)
		}
	}
	return ok
}
