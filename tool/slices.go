package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// sliceParts lists what a slice is made of: terms of single elements, and
// terms of whole slices it contains. ok=false when it cannot be told.
type sliceParts struct {
	Elems  []*Term
	Spread []*Term
	Vals   []ctxVal // the element values
	SpVals []ctxVal
	OK     bool
	Part   bool // some of it is only a part of a list
}

func (w *World) sliceParts(ctx *Ctx, v ssa.Value, resolve func(*Ctx, ssa.Value) (*Ctx, ssa.Value)) *sliceParts {
	p := &sliceParts{OK: true}
	seen := map[ctxVal]bool{}
	var walk func(ctx *Ctx, v ssa.Value, d int)
	spread := func(ctx *Ctx, v ssa.Value) {
		p.Spread = append(p.Spread, w.T(ctx, v))
		p.SpVals = append(p.SpVals, ctxVal{ctx, v})
	}
	elem := func(ctx *Ctx, v ssa.Value) {
		p.Elems = append(p.Elems, w.T(ctx, v))
		p.Vals = append(p.Vals, ctxVal{ctx, v})
	}
	indexed := func(ctx *Ctx, v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.X == v {
				for _, rr := range *ia.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
						elem(ctx, st.Val)
					}
				}
			}
			if c, ok := r.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Call.Args[0] == v {
					walk(ctx, c.Call.Args[1], 1)
				}
			}
		}
	}
	walk = func(ctx *Ctx, v ssa.Value, d int) {
		if d > 60 {
			p.OK = false
			return
		}
		if resolve != nil {
			ctx, v = resolve(ctx, v)
		} else {
			ctx, v = w.origin(ctx, v)
		}
		if seen[ctxVal{ctx, v}] {
			return
		}
		seen[ctxVal{ctx, v}] = true
		switch x := v.(type) {
		case *ssa.Const:
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(ctx, e, d+1)
			}
			indexed(ctx, x)
		case *ssa.Alloc:
			// a variable with several assignments
			for _, st := range storesTo(x) {
				sc := ctx
				if st.Parent() != x.Parent() {
					sc = w.closureCtxFor(ctx, st.Parent())
				}
				walk(sc, st.Val, d+1)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ac := w.cellOf(ctx, x.X); al != nil {
					walk(ac, al, d+1)
					return
				}
			}
			spread(ctx, v)
		case *ssa.MakeSlice:
			indexed(ctx, x)
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, rr := range *ia.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
								elem(ctx, st.Val)
							}
						}
					}
				}
				return
			}
			if x.Low != nil && !isZeroConst(x.Low) || x.High != nil && !isZeroConst(x.High) && lenArg(x.High) != x.X {
				_, o := w.origin(ctx, x.X)
				if resolve != nil {
					_, o = resolve(ctx, x.X)
				}
				if _, filled := o.(*ssa.MakeSlice); !filled { // a slice cut to what was filled in
					p.Part, p.OK = true, false
				}
			}
			walk(ctx, x.X, d+1)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					walk(ctx, x.Call.Args[0], d+1)
					for _, a := range x.Call.Args[1:] {
						walk(ctx, a, d+1)
					}
					indexed(ctx, x)
					return
				}
			}
			p.call(w, ctx, x, 0, d, walk, spread)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				p.call(w, ctx, c, x.Index, d, walk, spread)
				return
			}
			spread(ctx, v)
		default:
			spread(ctx, v)
		}
	}
	walk(ctx, v, 0)
	return p
}

func (p *sliceParts) call(w *World, ctx *Ctx, c *ssa.Call, idx, d int, walk func(*Ctx, ssa.Value, int), spread func(*Ctx, ssa.Value)) {
	ts := w.callees(ctx, &c.Call)
	if len(ts) == 1 && w.IsRepo(ts[0].fn) && len(ts[0].fn.Blocks) > 0 && depthOf(ctx) < maxDepth && !ctxHas(ctx, ts[0].fn) {
		c2 := w.mkCtx(ctx, c, ts[0].fn, ts[0].clo, ts[0].mk)
		for _, r := range returnsOf(ts[0].fn) {
			if idx < len(r.Results) {
				walk(c2, r.Results[idx], d+1)
			}
		}
		return
	}
	spread(ctx, c)
}
