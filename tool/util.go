package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	libTss    = "github.com/binance-chain/tss-lib/tss"
	libKeygen = "github.com/binance-chain/tss-lib/ecdsa/keygen"
	libSign   = "github.com/binance-chain/tss-lib/ecdsa/signing"
	libPeer   = "github.com/libp2p/go-libp2p-core/peer"
	libNet    = "github.com/libp2p/go-libp2p-core/network"
	libHost   = "github.com/libp2p/go-libp2p-core/host"
	libCrypto = "github.com/tendermint/tendermint/crypto"
)

// callersOf: functions of the repository that mention fn (call it, start it,
// make a closure of it or pass it on).
func (w *World) callersOf() map[*ssa.Function][]*ssa.Function {
	if w.callers != nil {
		return w.callers
	}
	m := map[*ssa.Function][]*ssa.Function{}
	add := func(callee, caller *ssa.Function) {
		for _, c := range m[callee] {
			if c == caller {
				return
			}
		}
		m[callee] = append(m[callee], caller)
	}
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Function:
						add(x, fn)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function), fn)
				}
			}
		}
	}
	// bound-method thunks: the method's callers include those of its wrappers
	w.callers = m
	return m
}

// entries: starting points of analysis for the instructions satisfying pred:
// callers are followed upwards until a function has none, or stop holds.
func (w *World) entries(pred func(fn *ssa.Function, in ssa.Instruction) bool, stop func(fn *ssa.Function) bool) []*ssa.Function {
	callers := w.callersOf()
	seen := map[*ssa.Function]bool{}
	res := map[*ssa.Function]bool{}
	var up func(fn *ssa.Function)
	up = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		if stop != nil && stop(fn) {
			res[fn] = true
			return
		}
		n := 0
		for _, c := range callers[fn] {
			if c != fn {
				n++
				up(c)
			}
		}
		if n == 0 {
			res[fn] = true
		}
	}
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if pred(fn, in) {
					up(fn)
				}
			}
		}
	}
	var out []*ssa.Function
	for fn := range res {
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

func isMockFile(w *World, fn *ssa.Function) bool {
	f := w.Fset.Position(fn.Pos()).Filename
	i := strings.LastIndex(f, "/")
	return strings.HasPrefix(f[i+1:], "mock")
}

func hasInstr(fn *ssa.Function, pred func(in ssa.Instruction) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
		}
	}
	return false
}

func eachInstr(fn *ssa.Function, f func(in ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// recvField: the instruction may receive from a channel held in a struct field
// named field ("pkg.Type.field").
func (w *World) recvField(in ssa.Instruction, field string) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW && addrField(x.X) == field
	case *ssa.Select:
		for _, st := range x.States {
			if st.Dir == types.RecvOnly && addrField(st.Chan) == field {
				return true
			}
		}
	}
	return false
}

// addrField: v is (a load of) x.f of a repository struct: "pkg.Type.f".
func addrField(v ssa.Value) string {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return ""
			}
			v = x.X
		case *ssa.FieldAddr:
			f, n := structField(x.X.Type(), x.Field)
			if n == nil {
				return ""
			}
			return tname(n) + "." + f
		case *ssa.Field:
			f, n := structField(x.X.Type(), x.Field)
			if n == nil {
				return ""
			}
			return tname(n) + "." + f
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return ""
		}
	}
	return ""
}

// storeField: in is a store to field "pkg.Type.f"; returns the stored value.
func storeField(in ssa.Instruction) (string, *ssa.Store) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return "", nil
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	f, n := structField(fa.X.Type(), fa.Field)
	if n == nil {
		return "", nil
	}
	return tname(n) + "." + f, st
}

// baseOf follows v outwards (loads, field selections, conversions, parameters,
// captured variables) to the innermost object of type typ and gives the term
// of the pointer or value denoting that object.
func (w *World) baseOf(ctx *Ctx, v ssa.Value, typ string) *Term {
	for i := 0; i < 40 && v != nil; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if tname(x.X.Type()) == typ {
				return w.T(ctx, x.X)
			}
			v = x.X
		case *ssa.Field:
			if tname(x.X.Type()) == typ {
				return w.T(ctx, x.X)
			}
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			if al, ac := w.cellOf(ctx, x.X); al != nil {
				sts := storesTo(al)
				if len(sts) == 1 && sts[0].Parent() == al.Parent() {
					v, ctx = sts[0].Val, ac
					continue
				}
				return nil
			}
			v = x.X
		case *ssa.Parameter:
			a := ctx.arg(x)
			if a == nil {
				return nil
			}
			v, ctx = a, ctx.Parent
		case *ssa.FreeVar:
			b, bc := ctx.binding(x)
			if b == nil {
				return nil
			}
			v, ctx = b, bc
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// args of a call without the receiver of a concrete method.
func callArgs(cc *ssa.CallCommon) (recv ssa.Value, args []ssa.Value) {
	if cc.IsInvoke() {
		return cc.Value, cc.Args
	}
	if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
		return cc.Args[0], cc.Args[1:]
	}
	return nil, cc.Args
}

func isCall(in ssa.Instruction, names ...string) *ssa.CallCommon {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	n := callName(ci.Common())
	for _, x := range names {
		if n == x {
			return ci.Common()
		}
		if x == jsonDecode {
			if cc := decodeHelper(ci.Common()); cc != nil && callName(cc) == x {
				return cc
			}
		}
	}
	return nil
}

const jsonDecode = "encoding/json.Unmarshal"

// decodeHelper: the call, seen as one of json.Unmarshal (proto.Unmarshal), if it is one of a
// function that passes two of its parameters on to it.
func decodeHelper(cc *ssa.CallCommon) *ssa.CallCommon {
	f := cc.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return nil
	}
	h, ok := decodeHelpers[f]
	if !ok {
		decodeHelpers[f] = nil
		par := func(v ssa.Value) int {
			for {
				switch x := v.(type) {
				case *ssa.ChangeInterface:
					v = x.X
					continue
				case *ssa.ChangeType:
					v = x.X
					continue
				}
				break
			}
			for i, p := range f.Params {
				if p == v {
					return i
				}
			}
			return -1
		}
		n := 0
		eachInstr(f, func(in ssa.Instruction) {
			c := isCall(in, jsonDecode)
			if ci, ok := in.(*ssa.Call); ok && c == nil && strings.HasSuffix(callName(&ci.Call), "proto.Unmarshal") {
				c = &ci.Call
			}
			if c != nil {
				n++
				h = &decodeArgs{c.Value, par(c.Args[0]), par(c.Args[1])}
			}
		})
		if n != 1 || h.data < 0 || h.dst < 0 {
			h = nil
		}
		decodeHelpers[f] = h
	}
	if h == nil {
		return nil
	}
	return &ssa.CallCommon{Value: h.fn, Args: []ssa.Value{cc.Args[h.data], cc.Args[h.dst]}}
}

type decodeArgs struct {
	fn        ssa.Value
	data, dst int
}

var decodeHelpers = map[*ssa.Function]*decodeArgs{}

// derefT: terms of address-taken locals are the terms of what they hold.
func sameTerms(a []*Term, want ...string) bool {
	if len(a) != len(want) {
		return false
	}
	for i := range a {
		if a[i].String() != want[i] {
			return false
		}
	}
	return true
}

// jobStruct: a repository struct carrying a tss party plus a share (work
// handed to another goroutine to be applied).
func jobStruct(t types.Type) bool {
	n := namedOf(t)
	if !isRepoNamed(n) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	p, b := false, false
	for i := 0; i < st.NumFields(); i++ {
		switch {
		case tname(st.Field(i).Type()) == libTss+".Party":
			p = true
		case types.TypeString(st.Field(i).Type(), nil) == "[]byte":
			b = true
		}
	}
	return p && b
}

const types_RecvOnly = types.RecvOnly
const types_SendOnly = types.SendOnly

func structOf(t types.Type) *types.Struct {
	st, _ := deref(t).Underlying().(*types.Struct)
	return st
}

func isNil(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}
