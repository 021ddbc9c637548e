package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// freshDecode: JSON is decoded into a variable that holds nothing yet, so
// that what the content leaves out is not filled in from something else
// (encoding/json keeps what the target holds).
func freshDecode(w *World, r *Report, only func(fn *ssa.Function) bool) {
	n := 0
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) || fnPkg(fn) == nil || !only(fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			cc := isCall(in, "encoding/json.Unmarshal", "encoding/json.Decoder.Decode")
			if cc == nil {
				return
			}
			_, a := callArgs(cc)
			n++
			r.Anchor("content decoded", in)
			r.Ob(in, w.freshTarget(c, a[len(a)-1], 0), "content is decoded over what the variable held before")
		})
	}
	r.ObGlobal(n > 0, "content is decoded somewhere")
}

// freshTarget: at the call, v points to a variable with nothing in it.
func (w *World) freshTarget(at ssa.CallInstruction, v ssa.Value, d int) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			// a pointer kept in a local variable
			if al, ok := x.X.(*ssa.Alloc); ok {
				sts := storesTo(al)
				if len(sts) == 1 {
					v = sts[0].Val
					continue
				}
			}
			_, field := x.X.(*ssa.FieldAddr)
			_, glob := x.X.(*ssa.Global)
			return !field && !glob
		}
		break
	}
	switch x := v.(type) {
	case *ssa.Global:
		return false
	case *ssa.Alloc:
		return freshAlloc(at, x)
	case *ssa.Parameter:
		if d > 4 {
			return true
		}
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			if i == 0 && x.Parent().Signature.Recv() != nil {
				return false
			}
			for _, caller := range w.callersOf()[x.Parent()] {
				good := true
				eachInstr(caller, func(in ssa.Instruction) {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == x.Parent() && i < len(ci.Common().Args) {
						good = good && w.freshTarget(ci, ci.Common().Args[i], d+1)
					}
				})
				if !good {
					return false
				}
			}
		}
	}
	return true
}

func freshAlloc(at ssa.CallInstruction, al *ssa.Alloc) bool {
	if al.Parent() != at.Parent() {
		return true
	}
	zero := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.UnOp:
			// a composite literal without content
			if l, ok := x.X.(*ssa.Alloc); ok && l != al && strings.HasPrefix(l.Comment, "complit") {
				for _, ref := range *l.Referrers() {
					if _, ok := ref.(*ssa.FieldAddr); ok {
						return false
					}
				}
				return len(storesTo(l)) == 0
			}
		}
		return false
	}
	// whatever puts something into the variable: the variable is made anew, or
	// emptied, on every way from there to the decoding
	var fills []ssa.Instruction
	var clears []ssa.Instruction
	clears = append(clears, al)
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr != v {
					continue
				}
				if !zero(x.Val) {
					fills = append(fills, x)
				} else if v == al {
					clears = append(clears, x)
				}
			case *ssa.FieldAddr:
				walk(x)
			case *ssa.IndexAddr:
				walk(x)
			case *ssa.MakeInterface:
				for _, r2 := range *x.Referrers() {
					if ci, ok := r2.(ssa.CallInstruction); ok {
						fills = append(fills, ci)
					}
				}
			}
		}
	}
	walk(al)
	for _, f := range fills {
		if reachesPast(f, at, clears) {
			return false
		}
	}
	return true
}

// reachesPast: some path leads from after a to b without one of the instructions.
func reachesPast(a, b ssa.Instruction, past []ssa.Instruction) bool {
	stop := map[ssa.Instruction]bool{}
	for _, p := range past {
		stop[p] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var from func(blk *ssa.BasicBlock, i int) bool
	from = func(blk *ssa.BasicBlock, i int) bool {
		for ; i < len(blk.Instrs); i++ {
			if blk.Instrs[i] == b {
				return true
			}
			if stop[blk.Instrs[i]] {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if from(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			return from(a.Block(), i+1)
		}
	}
	return false
}
