package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memb decides "x is not (is) an element of C" for loops over C, in any form:
// the loop header, the element comparison and the exits are recognised, not a
// particular helper. Facts: <Atom>.out = "1" (not in C), <Atom>.in = "1".
type Memb struct {
	Atom string
	Coll func(ctx *Ctx, v ssa.Value) bool
	// Eq: x == y compares an element of C with the wanted value
	Eq func(ctx *Ctx, x, y ssa.Value) bool
	// Empty: a boolean instruction that says C has no element when it is val
	Empty func(ctx *Ctx, in ssa.Instruction) (val, ok bool)
	w     *World
}

func (m *Memb) reset(s *State) *State {
	return s.With(m.Atom+".out", "", m.Atom+".in", "", m.Atom+".n", "", m.Atom+".c", "")
}

// loopHeader: in decides whether another element of a collection is visited;
// enter is its value when there is one.
func loopHeader(in ssa.Instruction) (coll ssa.Value, enter bool, ok bool) {
	switch x := in.(type) {
	case *ssa.BinOp:
		lenOf := func(v ssa.Value) ssa.Value {
			c, ok := v.(*ssa.Call)
			if !ok {
				return nil
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
			return nil
		}
		idx := func(v ssa.Value) bool {
			switch y := v.(type) {
			case *ssa.Phi:
				return true
			case *ssa.BinOp:
				_, ok := y.X.(*ssa.Phi)
				return ok && y.Op == token.ADD
			case *ssa.UnOp:
				_, ok := y.X.(*ssa.Alloc)
				return ok && y.Op == token.MUL
			}
			return false
		}
		if c := lenOf(x.Y); c != nil && idx(x.X) {
			switch x.Op {
			case token.LSS, token.NEQ:
				return c, true, true
			case token.GEQ, token.EQL:
				return c, false, true
			}
		}
		if c := lenOf(x.X); c != nil && idx(x.Y) {
			switch x.Op {
			case token.GTR, token.NEQ:
				return c, true, true
			case token.LEQ, token.EQL:
				return c, false, true
			}
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return rg.X, true, true
			}
		}
	}
	return nil, false, false
}

// lenZero: in compares len(C) with zero; empty is its value when C is empty.
func lenZero(in ssa.Instruction) (coll ssa.Value, empty bool, ok bool) {
	x, isB := in.(*ssa.BinOp)
	if !isB {
		return nil, false, false
	}
	c, isC := x.X.(*ssa.Call)
	k, isK := x.Y.(*ssa.Const)
	op := x.Op
	if !isC || !isK {
		c, isC = x.Y.(*ssa.Call)
		k, isK = x.X.(*ssa.Const)
		if !isC || !isK {
			return nil, false, false
		}
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	b, isB2 := c.Call.Value.(*ssa.Builtin)
	if !isB2 || b.Name() != "len" || k.Value == nil {
		return nil, false, false
	}
	n := k.Int64()
	switch {
	case op == token.EQL && n == 0, op == token.LEQ && n == 0, op == token.LSS && n == 1:
		return c.Call.Args[0], true, true
	case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
		return c.Call.Args[0], false, true
	}
	return nil, false, false
}

// loopIndex names the position a loop header is about to visit.
func (w *World) loopIndex(ctx *Ctx, in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return w.idxKey(ctx, x.X)
			}
		}
		return w.idxKey(ctx, x.Y)
	case *ssa.Extract:
		return fmt.Sprintf("%p@%d", x.Tuple, ctx.ID)
	}
	return ""
}

func (m *Memb) On(e *Engine, s *State, in ssa.Instruction) []Outcome {
	if c, enter, ok := loopHeader(in); ok && m.Coll(s.ctx, c) {
		n, cur := s.Get(m.Atom+".n"), s.Get(m.Atom+".c")
		all := "1"
		if n != "" && !(n == "1" && cur == "1") {
			all = "0"
		}
		on := []string{m.Atom + ".n", all, m.Atom + ".c", "", m.Atom + ".i", m.w.loopIndex(s.ctx, in)}
		off := []string{m.Atom + ".n", "", m.Atom + ".c", "", m.Atom + ".out", ""}
		if all == "1" {
			off[5] = "1"
		}
		e.Hit("search over "+m.Atom, in)
		if enter {
			return e.Fork(s, in.(ssa.Value), on, off)
		}
		return e.Fork(s, in.(ssa.Value), off, on)
	}
	if c, empty, ok := lenZero(in); ok && m.Coll(s.ctx, c) {
		if empty {
			return e.Fork(s, in.(ssa.Value), []string{m.Atom + ".out", "1"}, nil)
		}
		return e.Fork(s, in.(ssa.Value), nil, []string{m.Atom + ".out", "1"})
	}
	if m.Empty != nil {
		if val, ok := m.Empty(s.ctx, in); ok {
			if val {
				return e.Fork(s, in.(ssa.Value), []string{m.Atom + ".out", "1"}, nil)
			}
			return e.Fork(s, in.(ssa.Value), nil, []string{m.Atom + ".out", "1"})
		}
	}
	if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && m.Eq != nil {
		if m.Eq(s.ctx, b.X, b.Y) || m.Eq(s.ctx, b.Y, b.X) {
			eq, ne := []string{m.Atom + ".in", "1"}, []string{m.Atom + ".c", "1"}
			if b.Op == token.EQL {
				return e.Fork(s, b, eq, ne)
			}
			return e.Fork(s, b, ne, eq)
		}
	}
	return nil
}

// Each decides that a loop over C handles every element. Facts: <Atom>.on: the
// loop has not come to its end; <Atom>.p: the current element is not handled
// yet (the user clears it); <Atom>.all: the loop came to its end.
type Each struct {
	Atom string
	Coll func(ctx *Ctx, v ssa.Value) bool
	End  []string // set when the loop came to its end
	w    *World
}

func (m *Each) On(e *Engine, s *State, in ssa.Instruction, bad string) []Outcome {
	if c, empty, ok := lenZero(in); ok && m.Coll(s.ctx, c) {
		done := append([]string{m.Atom + ".all", "1"}, m.End...)
		if empty {
			return e.Fork(s, in.(ssa.Value), done, nil)
		}
		return e.Fork(s, in.(ssa.Value), nil, done)
	}
	c, enter, ok := loopHeader(in)
	if !ok || !m.Coll(s.ctx, c) {
		return nil
	}
	e.Hit("loop over "+m.Atom, in)
	e.Ob(s, in, s.Get(m.Atom+".p") == "", bad)
	on := []string{m.Atom + ".on", "1", m.Atom + ".p", "1", m.Atom + ".all", "", m.Atom + ".i", m.w.loopIndex(s.ctx, in)}
	off := append([]string{m.Atom + ".on", "", m.Atom + ".p", "", m.Atom + ".all", "1", m.Atom + ".i", ""}, m.End...)
	if enter {
		return e.Fork(s, in.(ssa.Value), on, off)
	}
	return e.Fork(s, in.(ssa.Value), off, on)
}

// elemIndex names the position of the slice element v was read from, so that
// two values can be told to come from the same element.
func (w *World) elemIndex(ctx *Ctx, v ssa.Value, typ string) string {
	_, k := w.elemRef(ctx, v, typ)
	return k
}

// idxKey names an index value.
func (w *World) idxKey(ctx *Ctx, v ssa.Value) string {
	c, o := w.origin(ctx, v)
	return fmt.Sprintf("%p@%d", o, c.ID)
}

// elemRef: the slice (or map) the element v was read from belongs to, and the
// name of its position.
func (w *World) elemRef(ctx *Ctx, v ssa.Value, typ string) (ctxVal, string) {
	none := ctxVal{}
	for i := 0; i < 40 && v != nil; i++ {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			if tname(deref(x.Type())) == typ {
				return ctxVal{ctx, x.X}, w.idxKey(ctx, x.Index)
			}
			v = x.X
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					return ctxVal{ctx, rg.X}, fmt.Sprintf("%p@%d", nx, ctx.ID)
				}
				return none, ""
			}
			if lk, ok := x.Tuple.(*ssa.Lookup); ok {
				v = lk.Index
				continue
			}
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if len(c.Call.Args) == 0 {
					return none, ""
				}
				v = c.Call.Args[len(c.Call.Args)-1]
				continue
			}
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				v = ta.X
				continue
			}
			return none, ""
		case *ssa.Lookup:
			v = x.Index
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return none, ""
			}
			if al, ac := w.cellOf(ctx, x.X); al != nil {
				sts := storesTo(al)
				if len(sts) != 1 {
					return none, ""
				}
				v, ctx = sts[0].Val, ac
				continue
			}
			v = x.X
		case *ssa.Alloc:
			sts := storesTo(x)
			if len(sts) == 0 && setBy(x) != nil {
				v = setBy(x)
				continue
			}
			if len(sts) != 1 {
				return none, ""
			}
			v = sts[0].Val
		case *ssa.Parameter:
			a := ctx.arg(x)
			if a == nil {
				return none, ""
			}
			v, ctx = a, ctx.Parent
		case *ssa.FreeVar:
			b, bc := ctx.binding(x)
			if b == nil {
				return none, ""
			}
			v, ctx = b, bc
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Call:
			// accessor with the element as receiver, single result
			if len(x.Call.Args) >= 1 {
				v = x.Call.Args[len(x.Call.Args)-1]
				continue
			}
			if x.Call.IsInvoke() {
				v = x.Call.Value
				continue
			}
			return none, ""
		default:
			return none, ""
		}
	}
	return none, ""
}

// setBy: the argument of the one Set… method called on a variable.
func setBy(al *ssa.Alloc) ssa.Value {
	var out ssa.Value
	for _, r := range *al.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok || c.Call.IsInvoke() || len(c.Call.Args) != 2 || c.Call.Args[0] != ssa.Value(al) {
			continue
		}
		n := callName(&c.Call)
		if i := strings.LastIndex(n, "."); i < 0 || !strings.HasPrefix(n[i+1:], "Set") {
			continue
		}
		if out != nil {
			return nil
		}
		out = c.Call.Args[1]
	}
	return out
}

// role: the name of the struct field (or getter) the value was read from,
// through conversions and single-argument calls such as encodings.
func (w *World) role(ctx *Ctx, v ssa.Value) string {
	for i := 0; i < 40 && v != nil; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st := structOf(x.X.Type())
			if st == nil {
				return ""
			}
			return st.Field(x.Field).Name()
		case *ssa.Field:
			st := structOf(x.X.Type())
			if st == nil {
				return ""
			}
			return st.Field(x.Field).Name()
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}
			if al, ac := w.cellOf(ctx, x.X); al != nil {
				if sts := storesTo(al); len(sts) == 1 {
					v, ctx = sts[0].Val, ac
					continue
				}
				return ""
			}
			v = x.X
		case *ssa.Alloc:
			sts := storesTo(x)
			if len(sts) == 0 && setBy(x) != nil {
				v = setBy(x)
				continue
			}
			if len(sts) != 1 {
				return ""
			}
			v = sts[0].Val
		case *ssa.Parameter:
			a := ctx.arg(x)
			if a == nil {
				return ""
			}
			v, ctx = a, ctx.Parent
		case *ssa.FreeVar:
			b, bc := ctx.binding(x)
			if b == nil {
				return ""
			}
			v, ctx = b, bc
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if !ok || len(c.Call.Args) == 0 {
				return ""
			}
			v = c.Call.Args[len(c.Call.Args)-1]
		case *ssa.Call:
			n := callName(&x.Call)
			if i := strings.LastIndex(n, "."); i >= 0 && strings.HasPrefix(n[i+1:], "Get") && len(x.Call.Args) == 1 {
				return n[i+4:]
			}
			if len(x.Call.Args) == 0 {
				return ""
			}
			if g, r := w.inlined(ctx, x); g != nil {
				ctx, v = g, r
				continue
			}
			v = x.Call.Args[len(x.Call.Args)-1]
		default:
			return ""
		}
	}
	return ""
}

// inlined: the result of a call to a repository function with one return of
// one value.
func (w *World) inlined(ctx *Ctx, c *ssa.Call) (*Ctx, ssa.Value) {
	ts := w.callees(ctx, &c.Call)
	if len(ts) != 1 || !w.IsRepo(ts[0].fn) || len(ts[0].fn.Blocks) == 0 || depthOf(ctx) >= maxDepth || ctxHas(ctx, ts[0].fn) {
		return nil, nil
	}
	rs := returnsOf(ts[0].fn)
	if len(rs) != 1 || len(rs[0].Results) != 1 {
		return nil, nil
	}
	return w.mkCtx(ctx, c, ts[0].fn, ts[0].clo, ts[0].mk), rs[0].Results[0]
}

type ctxVal struct {
	ctx *Ctx
	v   ssa.Value
}

// fieldVals: the values stored into field idx of the struct built at x; a
// value that is itself read from a field of a local struct is followed.
func (w *World) fieldVals(ctx *Ctx, x ssa.Value, idx int) []ctxVal {
	return w.fieldValsN(ctx, x, idx, 0)
}

func (w *World) fieldValsN(ctx *Ctx, x ssa.Value, idx int, depth int) []ctxVal {
	var out []ctxVal
	for _, c := range w.fieldVals0(ctx, x, idx) {
		if u, ok := c.v.(*ssa.UnOp); ok && u.Op == token.MUL && depth < 4 {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && (fa.X != x || fa.Field != idx) {
				if in := w.fieldValsN(c.ctx, fa.X, fa.Field, depth+1); len(in) > 0 {
					out = append(out, in...)
					continue
				}
			}
		}
		out = append(out, c)
	}
	return out
}

func (w *World) fieldVals0(ctx *Ctx, x ssa.Value, idx int) []ctxVal {
	al, ac := w.localStruct(ctx, x)
	if al == nil || al.Referrers() == nil {
		return nil
	}
	var out []ctxVal
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.FieldAddr:
			if y.Field == idx {
				for _, rr := range *y.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == y {
						out = append(out, ctxVal{ac, st.Val})
					}
				}
			}
		case *ssa.Store:
			if y.Addr == al {
				if u, ok := y.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					out = append(out, w.fieldVals(ac, u.X, idx)...)
				} else if c, ok := y.Val.(*ssa.Call); ok {
					out = append(out, w.fieldVals(ac, c, idx)...)
				} else if p, ok := y.Val.(*ssa.Parameter); ok {
					if c2, o := w.origin1(ac, p); c2 != ac || o != y.Val {
						if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
							o = u.X
						}
						out = append(out, w.fieldVals(c2, o, idx)...)
					}
				}
			}
		}
	}
	return out
}

// constBool / resolve through parameters to the defining value.
func (w *World) origin(ctx *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	for i := 0; i < 40 && v != nil; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			a := ctx.arg(x)
			if a == nil {
				return ctx, v
			}
			v, ctx = a, ctx.Parent
		case *ssa.FreeVar:
			b, bc := ctx.binding(x)
			if b == nil {
				return ctx, v
			}
			v, ctx = b, bc
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ac := w.cellOf(ctx, x.X); al != nil {
					if _, isStruct := deref(al.Type()).Underlying().(interface{ NumFields() int }); isStruct {
						return ac, al
					}
					sts := storesTo(al)
					if len(sts) == 1 {
						v, ctx = sts[0].Val, ac
						continue
					}
					return ac, al
				}
			}
			return ctx, v
		default:
			return ctx, v
		}
	}
	return ctx, v
}

// origin1: one step outwards through parameters, captures and conversions.
func (w *World) origin1(ctx *Ctx, v ssa.Value) (*Ctx, ssa.Value) {
	switch x := v.(type) {
	case *ssa.Parameter:
		if a := ctx.arg(x); a != nil {
			return ctx.Parent, a
		}
	case *ssa.FreeVar:
		if b, bc := ctx.binding(x); b != nil {
			return bc, b
		}
	case *ssa.ChangeType:
		return ctx, x.X
	case *ssa.ChangeInterface:
		return ctx, x.X
	case *ssa.MakeInterface:
		return ctx, x.X
	case *ssa.Convert:
		return ctx, x.X
	}
	return ctx, v
}
