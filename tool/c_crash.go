package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what may be nil (context-insensitive) ---------------------------------

type nilFinder struct {
	w       *World
	sites   map[*ssa.Function][]ssa.CallInstruction
	dec     map[string]bool // types decoded from the network
	memo    map[ssa.Value]map[string]bool
	nilable map[*ssa.Function]map[int]bool
}

// nilOut: in dereferences v.
func derefs(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return []ssa.Value{x.X}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.X.(type) {
			case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar:
				return nil
			}
			return []ssa.Value{x.X}
		}
	case *ssa.Store:
		switch x.Addr.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar:
			return nil
		}
		return []ssa.Value{x.Addr}
	case *ssa.MapUpdate:
		return []ssa.Value{x.Map}
	case *ssa.IndexAddr:
		if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			return []ssa.Value{x.X}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() {
			return []ssa.Value{cc.Value}
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			_ = b
			return nil
		}
		if _, ok := cc.Value.(*ssa.Function); !ok && cc.StaticCallee() == nil {
			return []ssa.Value{cc.Value}
		}
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
			if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok && len(f.Blocks) == 0 && !nilSafe(f) {
				return []ssa.Value{cc.Args[0]}
			}
		}
	}
	return nil
}

// nilSafe: generated accessors accept a nil receiver.
func nilSafe(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "Get") || f.Name() == "Reset" || f.Name() == "String"
}

func nilableType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func newNilFinder(w *World) *nilFinder {
	n := &nilFinder{w: w, sites: map[*ssa.Function][]ssa.CallInstruction{}, dec: map[string]bool{}, memo: map[ssa.Value]map[string]bool{}}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch x := t.Underlying().(type) {
		case *types.Pointer:
			add(x.Elem())
			return
		case *types.Slice:
			add(x.Elem())
			return
		case *types.Map:
			add(x.Elem())
			return
		case *types.Struct:
			k := tname(t)
			if n.dec[k] {
				return
			}
			n.dec[k] = true
			for i := 0; i < x.NumFields(); i++ {
				add(x.Field(i).Type())
			}
		}
	}
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				if f := cc.StaticCallee(); f != nil {
					n.sites[f] = append(n.sites[f], ci)
				}
				if d := decodesInto(cc); d != nil && !strings.HasPrefix(fname(fn), "main.") {
					if mi, ok := d.(*ssa.MakeInterface); ok {
						d = mi.X
					}
					add(d.Type())
				}
			}
		})
	}
	return n
}

// decodesInto: cc fills what its argument points to from bytes.
func decodesInto(cc *ssa.CallCommon) ssa.Value {
	switch n := callName(cc); {
	case n == "encoding/json.Unmarshal", strings.HasSuffix(n, "proto.Unmarshal"):
		return cc.Args[1]
	case strings.HasSuffix(n, "json.Decoder.Decode"):
		return cc.Args[len(cc.Args)-1]
	}
	if h := decodeHelper(cc); h != nil {
		return h.Args[1]
	}
	return nil
}

func (n *nilFinder) sources(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	n.walk(v, out, map[ssa.Value]bool{}, 0)
	return out
}

func (n *nilFinder) walk(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, d int) {
	if v == nil || seen[v] || d > 12 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			out["nil"] = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			n.walk(e, out, seen, d+1)
		}
	case *ssa.ChangeType:
		n.walk(x.X, out, seen, d+1)
	case *ssa.ChangeInterface:
		n.walk(x.X, out, seen, d+1)
	case *ssa.Parameter:
		i := paramIndex(x)
		for _, s := range n.sites[x.Parent()] {
			if a := s.Common().Args; i < len(a) {
				n.walk(a[i], out, seen, d+1)
			}
		}
	case *ssa.FreeVar:
		if b := staticBinding(x); b != nil {
			n.walk(b, out, seen, d+1)
		}
	case *ssa.Alloc: // content of a variable captured
		for _, st := range storesTo(x) {
			n.walk(st.Val, out, seen, d+1)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			n.walk(a, out, seen, d+1)
		case *ssa.FreeVar:
			n.walk(a, out, seen, d+1)
		case *ssa.FieldAddr:
			t := tname(deref(a.X.Type()))
			if n.dec[t] {
				out["field "+t+"."+fieldOf(a.X.Type(), a.Field)] = true
			}
		case *ssa.IndexAddr:
			if n.decSlice(a.X) {
				out["element"] = true
			}
		}
	case *ssa.Field:
		t := tname(x.X.Type())
		if n.dec[t] {
			out["field "+t+"."+fieldOf(x.X.Type(), x.Field)] = true
		}
	case *ssa.Lookup:
		out["lookup "+x.X.String()] = true
	case *ssa.TypeAssert:
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Lookup:
			out["lookup,ok"] = true
		case *ssa.TypeAssert:
			out["assert,ok"] = true
		case *ssa.Call:
			n.result(y, x.Index, out, seen, d)
		}
	case *ssa.Call:
		n.result(x, 0, out, seen, d)
	}
}

func (n *nilFinder) decSlice(v ssa.Value) bool {
	if f := addrField(v); f != "" {
		return n.dec[f[:strings.LastIndex(f, ".")]]
	}
	return false
}

func (n *nilFinder) result(c *ssa.Call, idx int, out map[string]bool, seen map[ssa.Value]bool, d int) {
	f := c.Call.StaticCallee()
	if f != nil && n.w.IsRepo(f) && len(f.Blocks) > 0 {
		for _, rt := range returnsOf(f) {
			if idx < len(rt.Results) {
				n.walk(rt.Results[idx], out, seen, d+1)
			}
		}
		return
	}
	res := c.Call.Signature().Results()
	if res.Len() > 1 {
		if isErr(res.At(res.Len() - 1).Type()) {
			out["call,err "+callName(&c.Call)] = true
		} else if res.At(res.Len()-1).Type().String() == "bool" {
			out["call,ok "+callName(&c.Call)] = true
		}
	}
}

func isErr(t types.Type) bool { return t.String() == "error" }

func dumpCrash(w *World) {
	n := newNilFinder(w)
	var ks []string
	for k := range n.dec {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Println("decoded:", ks)
	for _, fn := range w.Funcs {
		if isMockFile(w, fn) || fn.Synthetic != "" {
			continue
		}
		eachInstr(fn, func(in ssa.Instruction) {
			for _, v := range derefs(in) {
				if !nilableType(v.Type()) {
					continue
				}
				src := n.sources(v)
				if len(src) > 0 {
					var l []string
					for k := range src {
						l = append(l, k)
					}
					sort.Strings(l)
					fmt.Println(fname(fn), w.InstrPos(in), in, l)
				}
			}
		})
	}
}
