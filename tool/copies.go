package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Copies decides "C holds (something of) every element of D" when C is filled
// by loops over D in any of the usual ways. For each loop it follows which
// containers (by type) every round puts something of its element into.
type Copies struct {
	w *World
	// Skip: a comparison that, when val, says the element at hand need not be put
	Skip func(e *Engine, s *State, ctx *Ctx, in *ssa.BinOp) (val, ok bool)
	// Got: a value of the element at hand was put
	Got func(e *Engine, s *State, in ssa.Instruction, loop string) []string
	// End: a loop over coll came to its end, with what every round put
	End func(e *Engine, s *State, in ssa.Instruction, coll ctxVal, all []string) []string
	// Next: a loop over coll is about to (enter or end) another round
	Next func(e *Engine, s *State, in ssa.Instruction, coll ctxVal, enter bool) []string
	// Over: only loops over these
	Over func(ctx *Ctx, v ssa.Value) bool
}

func loopID(w *World, ctx *Ctx, in ssa.Instruction) string { return "L" + w.loopIndex(ctx, in) }

// curLoop: the loop header of the innermost loop in is part of.
func curLoop(in ssa.Instruction) ssa.Instruction {
	h := innermost(in.Block())
	for h != nil {
		for _, i := range h.Instrs {
			if _, _, ok := loopHeader(i); ok {
				return i
			}
		}
		up := h.Idom()
		if up == nil {
			return nil
		}
		h = innermost(up)
	}
	return nil
}

func (q *Copies) derived(e *Engine, s *State, ctx *Ctx, v ssa.Value, idx string, d int) bool {
	if d > 8 || v == nil {
		return false
	}
	t := s
	if s.Get("el.i") != idx {
		t = s.With("el.i", idx)
	}
	if curKey(q.w, e, t, ctx, v) || curElem(q.w, e, t, ctx, v) {
		return true
	}
	c, o := e.Resolve(s, ctx, v)
	switch x := o.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return q.derived(e, s, c, a.X, idx, d+1)
		case *ssa.IndexAddr:
			if q.w.idxKey(c, a.Index) == idx {
				return true
			}
			return q.derived(e, s, c, a.Index, idx, d+1)
		case *ssa.Alloc:
			for _, ref := range *a.Referrers() {
				switch y := ref.(type) {
				case *ssa.FieldAddr:
					for _, st := range storesTo(y) {
						if q.derived(e, s, c, st.Val, idx, d+1) {
							return true
						}
					}
				case *ssa.Store:
					if y.Addr == a && q.derived(e, s, c, y.Val, idx, d+1) {
						return true
					}
				}
			}
		}
	case *ssa.Alloc:
		for _, st := range storesTo(x) {
			if q.derived(e, s, c, st.Val, idx, d+1) {
				return true
			}
		}
		for _, ref := range *x.Referrers() {
			if y, ok := ref.(*ssa.FieldAddr); ok {
				for _, st := range storesTo(y) {
					if q.derived(e, s, c, st.Val, idx, d+1) {
						return true
					}
				}
			}
		}
	case *ssa.TypeAssert:
		return q.derived(e, s, c, x.X, idx, d+1)
	case *ssa.FieldAddr:
		return q.derived(e, s, c, x.X, idx, d+1)
	case *ssa.Field:
		return q.derived(e, s, c, x.X, idx, d+1)
	case *ssa.Lookup:
		return q.derived(e, s, c, x.Index, idx, d+1)
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return q.derived(e, s, c, lk.Index, idx, d+1)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return q.derived(e, s, c, ta.X, idx, d+1)
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			for _, a := range call.Call.Args {
				if q.derived(e, s, c, a, idx, d+1) {
					return true
				}
			}
		}
	case *ssa.Call:
		if _, isB := x.Call.Value.(*ssa.Builtin); isB {
			return false
		}
		for _, a := range x.Call.Args {
			if q.derived(e, s, c, a, idx, d+1) {
				return true
			}
		}
		if x.Call.IsInvoke() {
			return q.derived(e, s, c, x.Call.Value, idx, d+1)
		}
	}
	return false
}

// puts: what in puts where.
func puts(in ssa.Instruction) (typ string, vals []ssa.Value) {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		return x.Map.Type().String(), []ssa.Value{x.Key, x.Value}
	case *ssa.Store, *ssa.Call:
		if c, ok := in.(*ssa.Call); ok && callName(&c.Call) == "github.com/deckarep/golang-set.Set.Add" {
			return "set", c.Call.Args[len(c.Call.Args)-1:]
		}
		if els := storedElems(in); len(els) > 0 {
			if c, ok := in.(*ssa.Call); ok {
				return c.Type().String(), els
			}
			return in.(*ssa.Store).Addr.(*ssa.IndexAddr).X.Type().String(), els
		}
	}
	return "", nil
}

func addWord(l, x string) string {
	for _, y := range strings.Fields(l) {
		if y == x {
			return l
		}
	}
	ws := append(strings.Fields(l), x)
	sort.Strings(ws)
	return strings.Join(ws, " ")
}

func typWord(t string) string { return strings.ReplaceAll(t, " ", "_") }

func (q *Copies) On(e *Engine, s *State, in ssa.Instruction) []Outcome {
	w := q.w
	if c, enter, ok := loopHeader(in); ok && (q.Over == nil || q.Over(s.ctx, c)) {
		id := loopID(w, s.ctx, in)
		acc := s.Get(id + ".all")
		put := s.Get(id + ".put")
		if s.Get(id+".on") != "" { // a round is over
			if put != "*" {
				if acc == "*" {
					acc = put
				} else {
					out := ""
					for _, x := range strings.Fields(acc) {
						if addWord(put, x) == put {
							out = addWord(out, x)
						}
					}
					acc = out
				}
			}
		} else {
			acc = "*"
		}
		cc, co := e.Resolve(s, s.ctx, c)
		on := []string{id + ".on", "1", id + ".all", acc, id + ".put", "", id + ".skip", "", id + ".end", ""}
		off := []string{id + ".on", "", id + ".all", "", id + ".put", "", id + ".skip", "", id + ".end", "1 " + acc}
		if q.Next != nil {
			on = append(on, q.Next(e, s, in, ctxVal{cc, co}, true)...)
			off = append(off, q.Next(e, s, in, ctxVal{cc, co}, false)...)
		}
		if q.End != nil {
			off = append(off, q.End(e, s, in, ctxVal{cc, co}, strings.Fields(acc))...)
		}
		if enter {
			return e.Fork(s, in.(ssa.Value), on, off)
		}
		return e.Fork(s, in.(ssa.Value), off, on)
	}
	h := curLoop(in)
	if h == nil {
		return nil
	}
	id := loopID(w, s.ctx, h)
	if s.Get(id+".on") == "" {
		return nil
	}
	idx := w.loopIndex(s.ctx, h)
	if typ, vals := puts(in); typ != "" {
		for _, v := range vals {
			if q.derived(e, s, s.ctx, v, idx, 0) {
				kv := []string{}
				if s.Get(id+".put") != "*" {
					kv = append(kv, id+".put", addWord(s.Get(id+".put"), typWord(typ)))
				}
				if q.Got != nil {
					kv = append(kv, q.Got(e, s, in, id)...)
				}
				return []Outcome{{S: s.With(kv...)}}
			}
		}
		return nil
	}
	switch x := in.(type) {
	case *ssa.BinOp:
		if q.Skip == nil || x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		if val, ok := q.Skip(e, s, s.ctx, x); ok {
			skip, not := []string{id + ".put", "*", id + ".skip", "1"}, []string{id + ".skip", "0"}
			if val {
				return e.Fork(s, x, skip, not)
			}
			return e.Fork(s, x, not, skip)
		}
	case *ssa.Lookup:
		// already entered: the map it is looked up in is filled where the element is put
		if b, ok := x.Type().(*types.Basic); ok && b.Kind() == types.Bool && q.derived(e, s, s.ctx, x.Index, idx, 0) {
			if typ := putWith(x.X); typ != "" {
				yes := s.With(id+".put", addWord(s.Get(id+".put"), typWord(typ)))
				no := s.clone()
				e.SetVal(yes, x, -1, aTrue)
				e.SetVal(no, x, -1, aFalse)
				return []Outcome{{S: yes, Handled: true}, {S: no, Handled: true}}
			}
		}
	}
	return nil
}

// putWith: the local map m is filled exactly where something is put elsewhere
// (the type of which is given).
func putWith(m ssa.Value) string {
	mk, ok := m.(*ssa.MakeMap)
	if !ok {
		return ""
	}
	typ := ""
	for _, ref := range *mk.Referrers() {
		mu, ok := ref.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		t := ""
		for _, i := range mu.Block().Instrs {
			if i != ssa.Instruction(mu) {
				if x, _ := puts(i); x != "" && strings.HasPrefix(x, "[]") {
					t = x
				}
			}
		}
		if t == "" || typ != "" && t != typ {
			return ""
		}
		typ = t
	}
	return typ
}

// Whole: v holds something of every element of what src accepts.
func (q *Copies) Whole(e *Engine, s *State, ctx *Ctx, v ssa.Value, src func(ctx *Ctx, v ssa.Value) bool) bool {
	any := s.clone()
	any.facts = nil
	seen := map[ctxVal]bool{}
	var walk func(ctx *Ctx, v ssa.Value) bool
	full := func(ctx *Ctx, in ssa.Instruction, typ string) bool {
		h := curLoop(in)
		if h == nil {
			return false
		}
		end := s.Get(loopID(q.w, ctx, h) + ".end")
		if end == "" {
			return false
		}
		f := strings.Fields(end)[1:]
		ok := false
		for _, x := range f {
			ok = ok || x == "*" || x == typWord(typ)
		}
		if !ok {
			return false
		}
		c, _, _ := loopHeader(h)
		return walk(ctx, c)
	}
	walk = func(ctx *Ctx, v ssa.Value) bool {
		if src(ctx, v) {
			return true
		}
		c, o := e.Resolve(s, ctx, v)
		if src(c, o) {
			return true
		}
		if seen[ctxVal{c, o}] {
			return false
		}
		seen[ctxVal{c, o}] = true
		filled := func(m ssa.Value) bool {
			for _, ref := range *m.Referrers() {
				switch x := ref.(type) {
				case *ssa.MapUpdate:
					if x.Map == m && full(c, x, m.Type().String()) {
						return true
					}
				case *ssa.IndexAddr:
					for _, st := range storesTo(x) {
						if full(c, st, m.Type().String()) {
							return true
						}
					}
				case *ssa.Call:
					if callName(&x.Call) == "github.com/deckarep/golang-set.Set.Add" && full(c, x, "set") {
						return true
					}
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] == m && walk(c, x.Call.Args[1]) {
						return true
					}
				}
			}
			return false
		}
		grown := func(ctx *Ctx, v ssa.Value) bool {
			if sites, ok := e.appendSites(any, ctx, v); ok {
				for _, st := range sites {
					if full(st.ctx, st.v.(ssa.Instruction), st.v.Type().String()) {
						return true
					}
				}
			}
			return false
		}
		switch x := o.(type) {
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if walk(c, ed) {
					return true
				}
			}
		case *ssa.Slice:
			return x.Low == nil && x.High == nil && walk(c, x.X)
		case *ssa.MakeSlice:
			if filled(x) {
				return true
			}
			return grown(ctx, v)
		case *ssa.MakeMap:
			return filled(x)
		case *ssa.Const:
			// the path on which nothing was put: judged by where it is put
			return grown(ctx, v)
		case *ssa.UnOp:
			if al, ac := q.w.cellOf(c, x.X); x.Op == token.MUL && al != nil {
				for _, st := range storesTo(al) {
					sc := ac
					if st.Parent() != al.Parent() {
						sc = q.w.closureCtxFor(ac, st.Parent())
					}
					if walk(sc, st.Val) {
						return true
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() != "append" {
					return false
				}
				if len(storedElems(x)) > 0 && full(c, x, x.Type().String()) {
					return true
				}
				for i, a := range x.Call.Args {
					if (i == 0 || len(storedElems(x)) == 0) && walk(c, a) {
						return true
					}
				}
				return false
			}
			switch callName(&x.Call) {
			case "github.com/deckarep/golang-set.NewSetFromSlice":
				return walk(c, x.Call.Args[0])
			case "github.com/deckarep/golang-set.NewSet", "github.com/deckarep/golang-set.NewThreadUnsafeSet":
				return filled(x)
			case "github.com/deckarep/golang-set.Set.ToSlice":
				return walk(c, x.Call.Value)
			}
		}
		return false
	}
	return walk(ctx, v)
}
