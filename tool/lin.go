package main

import (
	"fmt"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lin is sum(coef*atom)+C.
type Lin struct {
	M map[string]int
	C int
}

func (l Lin) String() string {
	var ks []string
	for k := range l.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%+d*%s", l.M[k], k))
	}
	s = append(s, fmt.Sprintf("%+d", l.C))
	return strings.Join(s, " ")
}

func linOf(t *Term) Lin {
	l := Lin{M: map[string]int{}}
	var add func(t *Term, k int)
	add = func(t *Term, k int) {
		switch {
		case t.Op == "const":
			if n, err := strconv.Atoi(t.Name); err == nil {
				l.C += k * n
				return
			}
		case t.Op == "bin" && t.Name == "+":
			add(t.Args[0], k)
			add(t.Args[1], k)
			return
		case t.Op == "bin" && t.Name == "-":
			add(t.Args[0], k)
			add(t.Args[1], -k)
			return
		}
		l.M[t.String()] += k
		if l.M[t.String()] == 0 {
			delete(l.M, t.String())
		}
	}
	add(t, 1)
	return l
}

func (l Lin) sub(o Lin) Lin {
	r := Lin{M: map[string]int{}, C: l.C - o.C}
	for k, v := range l.M {
		r.M[k] += v
	}
	for k, v := range o.M {
		r.M[k] -= v
	}
	for k, v := range r.M {
		if v == 0 {
			delete(r.M, k)
		}
	}
	return r
}

func (l Lin) neg() Lin {
	r := Lin{M: map[string]int{}, C: -l.C}
	for k, v := range l.M {
		r.M[k] = -v
	}
	return r
}

// Cmp is a comparison in normal form: GE: L>=0 ; EQ: L==0 ; NE: L!=0.
type Cmp struct {
	Kind string // GE EQ NE
	L    Lin
}

// cmpOf normalises an integer comparison when its truth value is b.
func cmpOf(op token.Token, x, y *Term, b bool) (Cmp, bool) {
	lx, ly := linOf(x), linOf(y)
	if !b {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		default:
			return Cmp{}, false
		}
	}
	switch op {
	case token.GEQ:
		return Cmp{"GE", lx.sub(ly)}, true
	case token.LEQ:
		return Cmp{"GE", ly.sub(lx)}, true
	case token.GTR:
		l := lx.sub(ly)
		l.C--
		return Cmp{"GE", l}, true
	case token.LSS:
		l := ly.sub(lx)
		l.C--
		return Cmp{"GE", l}, true
	case token.EQL:
		return Cmp{"EQ", lx.sub(ly)}, true
	case token.NEQ:
		return Cmp{"NE", lx.sub(ly)}, true
	}
	return Cmp{}, false
}

// impliesGE: does the comparison imply want >= 0 ?
func (c Cmp) impliesGE(want Lin) bool {
	same := func(l Lin) bool {
		if len(l.M) != len(want.M) {
			return false
		}
		for k, v := range want.M {
			if l.M[k] != v {
				return false
			}
		}
		return true
	}
	switch c.Kind {
	case "GE":
		return same(c.L) && c.L.C <= want.C
	case "EQ":
		return (same(c.L) && c.L.C <= want.C) || (same(c.L.neg()) && -c.L.C <= want.C)
	}
	return false
}

func (w *World) binCmp(ctx *Ctx, b *ssa.BinOp, val bool) (Cmp, bool) {
	return cmpOf(b.Op, w.T(ctx, b.X), w.T(ctx, b.Y), val)
}
