package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	getParties = "conversion.GetParties"
	newPartyID = "tss-lib/tss.NewPartyID"
	tPartyID   = "github.com/binance-chain/tss-lib/tss.PartyID"
	hashString = "common.MsgToHashString"
)

func init() {
	register(&propDef{
		ID:    "C16",
		Title: "The same request gives every node the same session, leader and parties",
		Rule: "Path-sensitive interprocedural dataflow over the ingredients of hashes. The ID under which a session is made is the hash of exactly the keys, and for signing the messages, of the request, each list whole and sorted before it is read. " +
			"The leader returned is the peer stored under the least (first after sorting) of the hashes of all peers given, each hash made of the message ID, the height and that peer only. " +
			"The parties returned are made one for every key, in the order of the sorted keys, each from that key and its position, and put in order by the library; the local party is the one made for the local key, and there is one. No map iteration, clock or random source is an ingredient.",
		Run: runC16,
	})
}

// listing tracks which lists are sorted and which loops consume every element.
type listing struct{ *mapper }

// lkey: names a list by what it holds: a field or parameter, or the list made.
func (l *listing) lkey(e *Engine, s *State, ctx *Ctx, v ssa.Value) string {
	c, o := e.Resolve(s, ctx, v)
	switch o.(type) {
	case *ssa.Call, *ssa.MakeSlice, *ssa.Alloc, *ssa.Phi:
		return l.w.idxKey(c, o)
	}
	if t := l.w.T(c, o); t.Op != "alt" {
		return t.String()
	}
	return l.w.idxKey(c, o)
}

// base: the list a copy holds the elements of.
func (l *listing) base(e *Engine, s *State, ctx *Ctx, v ssa.Value) string {
	for i := 0; i < 5; i++ {
		c, o := e.Resolve(s, ctx, v)
		switch o.(type) {
		case *ssa.Call, *ssa.MakeSlice:
			p := l.w.sliceParts(c, o, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
			if !p.OK || len(p.Vals) > 0 || len(p.SpVals) != 1 {
				return l.w.idxKey(c, o)
			}
			ctx, v = p.SpVals[0].ctx, p.SpVals[0].v
			continue
		}
		return l.lkey(e, s, ctx, v)
	}
	return "?"
}

func sortArg(in ssa.Instruction) ssa.Value {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	switch n := callName(&c.Call); {
	case n == "sort.Strings" || strings.HasPrefix(n, "slices.Sort") && !strings.Contains(n, "Func"):
		return c.Call.Args[0]
	case n == "sort.Sort" || n == "sort.Stable":
		if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok && mi.X.Type().String() == "sort.StringSlice" {
			if ct, ok := mi.X.(*ssa.ChangeType); ok {
				return ct.X
			}
		}
	}
	return nil
}

func (l *listing) On(e *Engine, s *State, in ssa.Instruction) []Outcome {
	if a := sortArg(in); a != nil {
		e.Hit("list sorted", in)
		return []Outcome{{S: s.With("sorted:"+l.lkey(e, s, s.ctx, a), "1")}}
	}
	if c, empty, ok := lenZero(in); ok && l.isList(c) {
		k := "ne:" + l.key(e, s, s.ctx, c)
		if empty {
			return e.Fork(s, in.(ssa.Value), nil, []string{k, "1"})
		}
		return e.Fork(s, in.(ssa.Value), []string{k, "1"}, nil)
	}
	if coll, enter, ok := loopHeader(in); ok && l.isList(coll) && s.Get("mp.h") != fmt.Sprintf("%p", in) {
		if s.Get("ne:"+l.key(e, s, s.ctx, coll)) == "1" {
			outs := l.mapper.On(e, s, in, nil)
			for _, o := range outs {
				if e.Eval(o.S, in.(ssa.Value)) == boolA(enter) {
					return []Outcome{o}
				}
			}
		}
	}
	// an element is added to what is collected
	add := func(vs ...ssa.Value) []Outcome {
		for _, v := range vs {
			for _, x := range l.deps(v) {
				if s.Get("mp.c") != "" && l.at(e, s, s.ctx, x) {
					return []Outcome{{S: l.tag(s, fmt.Sprintf("add:%p", in))}}
				}
			}
		}
		return nil
	}
	switch x := in.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD && isStr(x.Type()) {
			if o := add(x.X, x.Y); o != nil && (phiOf(x.X) || phiOf(x.Y)) {
				return o
			}
		}
	case *ssa.Call:
		n := callName(&x.Call)
		switch {
		case n == "strings.Builder.WriteString" || n == "bytes.Buffer.WriteString" || strings.HasSuffix(n, "hash.Hash.Write") || n == "bytes.Buffer.Write":
			_, a := callArgs(&x.Call)
			if o := add(a...); o != nil {
				return o
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Type().String() == "[]byte" {
			if o := add(x.Call.Args[1:]...); o != nil {
				return o
			}
		}
	}
	if o := l.mapper.On(e, s, in, nil); o != nil {
		return o
	}
	return nil
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func phiOf(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL
	case *ssa.BinOp:
		return phiOf(x.X) || phiOf(x.Y)
	}
	return false
}

// deps: the values a string or byte expression is put together of.
func (l *listing) deps(v ssa.Value) []ssa.Value {
	switch x := v.(type) {
	case *ssa.BinOp:
		return append(l.deps(x.X), l.deps(x.Y)...)
	case *ssa.Convert:
		return l.deps(x.X)
	case *ssa.ChangeType:
		return l.deps(x.X)
	}
	return []ssa.Value{v}
}

// ingredients: what a hashed value is made of. Lists appear as "all:<list>" when
// every element goes in, with "~" when the list was not sorted before.
func (l *listing) ingredients(e *Engine, s *State, ctx *Ctx, v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ctxVal]bool{}
	var walk func(ctx *Ctx, v ssa.Value, d int)
	list := func(ctx *Ctx, v ssa.Value, full bool) {
		k := "all:"
		if !full {
			k = "some:"
		}
		if s.Get("sorted:"+l.lkey(e, s, ctx, v)) != "1" {
			k = "~" + k
		}
		out[k+l.base(e, s, ctx, v)] = true
	}
	walk = func(ctx *Ctx, v ssa.Value, d int) {
		if d > 40 {
			out["?"] = true
			return
		}
		if ph, ok := v.(*ssa.Phi); !ok || !loopPhi(ph) {
			ctx, v = e.Resolve(s, ctx, v)
		}
		if seen[ctxVal{ctx, v}] {
			return
		}
		seen[ctxVal{ctx, v}] = true
		for _, typ := range []string{"string", tPeer} {
			if tname(v.Type()) != typ {
				continue
			}
			if coll, k := l.w.elemRef(ctx, v, typ); coll.v != nil && k != "" {
				if _, isUn := v.(*ssa.UnOp); !isUn {
					if _, isEx := v.(*ssa.Extract); !isEx {
						continue
					}
				}
				ck := l.key(e, s, coll.ctx, coll.v)
				if s.Get("mp.c") == ck && s.Get("mp.i") == k {
					out["cur:"+l.base(e, s, coll.ctx, coll.v)] = true
					return
				}
				full := s.Get("empty:"+ck) == "1"
				for k, v := range s.A {
					full = full || strings.HasPrefix(k, "cp:add:") && v == ck
				}
				list(coll.ctx, coll.v, full)
				return
			}
		}
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Convert:
			walk(ctx, x.X, d+1)
		case *ssa.ChangeType:
			walk(ctx, x.X, d+1)
		case *ssa.MakeInterface:
			walk(ctx, x.X, d+1)
		case *ssa.BinOp:
			if x.Op != token.ADD || !isStr(x.Type()) {
				out["?computed number"] = true
			}
			walk(ctx, x.X, d+1)
			walk(ctx, x.Y, d+1)
		case *ssa.Phi:
			for _, ed := range x.Edges {
				walk(ctx, ed, d+1)
			}
		case *ssa.Slice:
			if x.Low != nil && !isZeroConst(x.Low) || x.High != nil {
				out["?part of"] = true
			}
			walk(ctx, x.X, d+1)
		case *ssa.Alloc:
			for _, st := range storesTo(x) {
				walk(ctx, st.Val, d+1)
			}
			if len(storesTo(x)) == 0 {
				l.varargs(x, func(v ssa.Value) { walk(ctx, v, d+1) })
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
				l.call(e, s, ctx, c, out, walk, list, d)
				return
			}
			out[l.w.T(ctx, v).String()] = true
		case *ssa.Call:
			l.call(e, s, ctx, x, out, walk, list, d)
		default:
			out[l.w.T(ctx, v).String()] = true
		}
	}
	walk(ctx, v, 0)
	for k, v := range s.A { // nothing of an empty list is missing
		if c, ok := l.colls[strings.TrimPrefix(k, "empty:")]; ok && v == "1" && strings.HasPrefix(k, "empty:") {
			out["all:"+l.base(e, s, c.ctx, c.v)] = true
		}
	}
	return out
}

// loopPhi: the value a loop carries.
func loopPhi(p *ssa.Phi) bool {
	for _, b := range p.Block().Preds {
		if p.Block().Dominates(b) {
			return true
		}
	}
	return false
}

func (l *listing) varargs(al *ssa.Alloc, f func(v ssa.Value)) {
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					f(st.Val)
				}
			}
		}
	}
}

func (l *listing) call(e *Engine, s *State, ctx *Ctx, c *ssa.Call, out map[string]bool, walk func(*Ctx, ssa.Value, int), list func(*Ctx, ssa.Value, bool), d int) {
	n := callName(&c.Call)
	_, a := callArgs(&c.Call)
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		for _, v := range c.Call.Args {
			walk(ctx, v, d+1)
		}
		return
	}
	written := func(obj ssa.Value) { // what is written to a buffer or hash
		_, oo := l.w.origin(ctx, obj)
		if oo.Referrers() == nil {
			out["?"] = true
			return
		}
		var refs func(v ssa.Value)
		refs = func(v ssa.Value) {
			for _, r := range *v.Referrers() {
				switch y := r.(type) {
				case *ssa.MakeInterface:
					refs(y)
				case *ssa.Store:
					if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == v {
						for _, rr := range *al.Referrers() {
							if u, ok := rr.(*ssa.UnOp); ok {
								refs(u)
							}
						}
					}
				case *ssa.Call:
					if strings.Contains(callName(&y.Call), ".Write") {
						_, b := callArgs(&y.Call)
						for _, v := range b {
							walk(ctx, v, d+1)
						}
					}
				}
			}
		}
		refs(oo)
	}
	switch {
	case strings.HasPrefix(n, "crypto/sha256.New"):
		out["sha256"] = true
	case n == "strings.Join":
		list(ctx, a[0], true)
	case strings.HasPrefix(n, "crypto/sha256.Sum") || n == "encoding/hex.EncodeToString" || n == hashString || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "fmt.Sprint"):
		if strings.HasPrefix(n, "crypto/sha256.Sum") || n == hashString {
			out["sha256"] = true
		}
		for _, v := range a {
			walk(ctx, v, d+1)
		}
	case strings.HasSuffix(n, ".Sum") || n == "bytes.Buffer.Bytes" || n == "bytes.Buffer.String" || n == "strings.Builder.String":
		r, _ := callArgs(&c.Call)
		written(r)
		if strings.HasSuffix(n, ".Sum") {
			walk(ctx, r, d+1)
		}
		for _, v := range a {
			walk(ctx, v, d+1)
		}
	default:
		out[l.w.T(ctx, c).String()] = true
	}
}

func setString(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func newListing(w *World) *listing {
	return &listing{&mapper{w: w, colls: map[string]ctxVal{}}}
}

func trackAll(v ssa.Value) bool { return true }

func runC16(w *World, r *Report) {
	// sessions
	for _, op := range []string{"Keygen", "KeySign"} {
		fns := w.tssEntry(op)
		if !r.ObGlobal(len(fns) == 1, "the entry point "+op+" exists") {
			continue
		}
		op := op
		l := newListing(w)
		made := false
		h := &Hooks{Track: trackAll, Interesting: func(in ssa.Instruction) bool {
			return sortArg(in) != nil || isCall(in, "common.NewTssCommon", hashString) != nil
		}, NoInline: func(f *ssa.Function) bool { return fname(f) == hashString || fname(f) == "common.NewTssCommon" }}
		h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
			if s.Get("made") == "1" {
				return []Outcome{{Stop: true}}
			}
			if x, ok := in.(*ssa.TypeAssert); ok && x.CommaOk {
				if _, o := e.Resolve(s, s.ctx, x.X); o != nil {
					if mi, ok := o.(*ssa.MakeInterface); ok {
						o = mi.X
					}
					if _, isI := o.Type().Underlying().(*types.Interface); !isI {
						n := s.clone()
						e.SetVal(n, x, 1, boolA(types.Identical(o.Type(), x.AssertedType)))
						return []Outcome{{S: n, Handled: true}}
					}
				}
			}
			if cc := isCall(in, "common.NewTssCommon"); cc != nil {
				e.Hit("session made", in)
				made = true
				_, a := callArgs(cc)
				got := setString(l.ingredients(e, s, s.ctx, a[3]))
				if c, o := e.Resolve(s, s.ctx, a[3]); true {
					if ex, ok := o.(*ssa.Extract); ok && ex.Index == 0 && s.Get("hash.of") == w.idxKey(c, ex.Tuple) {
						got = s.Get("hash.in")
					}
				}
				got = strings.TrimSuffix(got, ", sha256")
				want := "all:keygen.Request.Keys"
				if op == "KeySign" {
					want = "all:keysign.Request.Messages, all:keysign.Request.SignerPubKeys"
				}
				e.Ob(s, in, got == want, "the session ID is not the hash of exactly the sorted lists of the request: "+short(got))
				return []Outcome{{S: s.With("made", "1")}}
			}
			if c, ok := in.(*ssa.Call); ok && callName(&c.Call) == hashString {
				e.Hit("session ID made", in)
				n := s.With("hash.of", w.idxKey(s.ctx, c), "hash.in", setString(l.ingredients(e, s, s.ctx, c.Call.Args[0])))
				return e.ForkErr(n, c, errIdx(c), nil, nil)
			}
			return l.On(e, s, in)
		}
		e := NewEngine(w, h)
		e.Run(fns[0], nil)
		r.Merge(e)
		r.ObGlobal(made, "the session of "+op+" is made with an ID")
	}
	r.Need("session made", 1)
	r.Need("session ID made", 1)
	r.Need("list sorted", 1)
	// the hash
	if fn := w.Fn(hashString); r.ObGlobal(fn != nil, hashString+" exists") {
		l := newListing(w)
		h := &Hooks{Track: trackAll}
		h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
			if !mayBeNil(e.Eval(s, rt.Results[1])) {
				return
			}
			e.Hit("hash made", rt)
			got := setString(l.ingredients(e, s, s.ctx, rt.Results[0]))
			e.Ob(s, rt, got == setString(map[string]bool{"sha256": true, w.T(s.ctx, fn.Params[0]).String(): true}), "the hash is not that of the whole message")
		}
		e := NewEngine(w, h)
		e.Run(fn, nil)
		r.Merge(e)
		r.Need("hash made", 1)
	}
	leaderChoice(w, r)
	partiesMade(w, r)
}

// leaderChoice: the leader is the peer with the least hash.
func leaderChoice(w *World, r *Report) {
	fn := w.Fn(fnLeader)
	if !r.ObGlobal(fn != nil && len(fn.Params) == 3, fnLeader+" exists") {
		return
	}
	l := newListing(w)
	root := w.Root(fn)
	pt := func(i int) string { return w.T(root, fn.Params[i]).String() }
	want := setString(map[string]bool{pt(0): true, pt(1): true, "cur:" + pt(2): true, "sha256": true})
	listed := map[ssa.Value]bool{}
	h := &Hooks{Track: trackAll}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if s.Get("mp.c") == "" {
				break
			}
			key := l.ingredients(e, s, s.ctx, x.Key)
			e.Hit("peer filed by hash", in)
			e.Ob(s, in, setString(key) == want, "a peer is filed under something else than the hash of the message ID, the height and itself")
			good := l.at(e, s, s.ctx, x.Value)
			if c, o := e.Resolve(s, s.ctx, x.Value); !good {
				good = l.at(e, s, c, o)
			}
			e.Ob(s, in, good && setString(l.ingredients(e, s, s.ctx, x.Value)) == "cur:"+pt(2), "another peer is filed under the hash of a peer")
			return []Outcome{{S: s.With("filed.now", l.w.idxKey(s.ctx, x.Key))}}
		case *ssa.Store, *ssa.Call:
			for _, v := range storedElems(in) {
				if !isStr(v.Type()) || s.Get("mp.c") == "" {
					continue
				}
				e.Hit("hash listed", in)
				e.Ob(s, in, setString(l.ingredients(e, s, s.ctx, v)) == want, "a peer's hash is not made of the message ID, the height and the peer alone")
				if st, ok := in.(*ssa.Store); ok {
					ia := st.Addr.(*ssa.IndexAddr)
					e.Ob(s, in, w.idxKey(s.ctx, ia.Index) == s.Get("mp.i"), "a peer's hash is not put at its own place")
				}
				listed[v] = true
				return []Outcome{{S: s.With("listed.now", "1")}}
			}
		}
		if coll, _, ok := loopHeader(in); ok && l.isList(coll) {
			if s.Get("mp.h") == fmt.Sprintf("%p", in) {
				e.Ob(s, in, s.Get("filed.now") != "" && s.Get("listed.now") != "", "a peer has no chance to become leader")
			} else {
				s = s.With("over", "")
				if l.base(e, s, s.ctx, coll) == pt(2) {
					s = s.With("over", "1")
				}
			}
			s = s.With("filed.now", "", "listed.now", "")
		}
		return l.On(e, s, in)
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[1])) {
			return
		}
		e.Hit("leader chosen", rt)
		c, o := e.Resolve(s, s.ctx, rt.Results[0])
		if ex, ok := o.(*ssa.Extract); ok {
			o = ex.Tuple.(ssa.Value)
		}
		lk, ok := o.(*ssa.Lookup)
		if !ok {
			e.Ob(s, rt, false, "the leader is not the peer of the least hash")
			return
		}
		kc, ko := e.Resolve(s, c, lk.Index)
		good := false
		if u, ok := ko.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				lst := l.lkey(e, s, kc, ia.X)
				sc, so := e.Resolve(s, kc, ia.X)
				p := w.sliceParts(sc, so, func(c *Ctx, v ssa.Value) (*Ctx, ssa.Value) { return e.Resolve(s, c, v) })
				made := p.OK && !p.Part && len(p.Spread) == 0
				for _, v := range p.Vals {
					made = made && listed[v.v]
				}
				good = isZeroConst(ia.Index) && s.Get("sorted:"+lst) == "1" && made && s.Get("over") == "1"
			}
		}
		e.Ob(s, rt, good, "the leader is not the peer of the least hash")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("peer filed by hash", 1)
	r.Need("hash listed", 1)
	r.Need("leader chosen", 1)
}

// partiesMade: one party for every key, named by its place among the sorted keys.
func partiesMade(w *World, r *Report) {
	fn := w.Fn(getParties)
	if !r.ObGlobal(fn != nil && len(fn.Params) == 2, getParties+" exists") {
		return
	}
	l := newListing(w)
	root := w.Root(fn)
	keys, local := w.T(root, fn.Params[0]).String(), w.T(root, fn.Params[1]).String()
	isNew := func(in ssa.Instruction) *ssa.Call {
		c, ok := in.(*ssa.Call)
		if ok && strings.HasSuffix(callName(&c.Call), newPartyID) {
			return c
		}
		return nil
	}
	h := &Hooks{Track: trackAll}
	h.Interesting = func(in ssa.Instruction) bool { return isNew(in) != nil }
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if coll, _, ok := loopHeader(in); ok && l.isList(coll) {
			if s.Get("mp.h") == fmt.Sprintf("%p", in) {
				e.Ob(s, in, s.Get("new.now") != "" && s.Get("put.now") == s.Get("new.now"), "there is no party for a key")
				e.Ob(s, in, s.Get("isl") != "1" || s.Get("loc") == s.Get("new.now"), "the local party is not the one of the local key")
			} else if l.base(e, s, s.ctx, coll) == keys {
				e.Hit("loop over the keys", in)
				e.Ob(s, in, s.Get("sorted:"+l.lkey(e, s, s.ctx, coll)) == "1", "the parties are made in the order the keys were given in")
			}
			s = s.With("new.now", "", "put.now", "", "isl", "", "loc", "")
		}
		switch x := in.(type) {
		case *ssa.Call:
			if isNew(in) != nil {
				e.Hit("party made", in)
				_, a := callArgs(&x.Call)
				_, k := w.elemRef(s.ctx, a[2], "string")
				t := w.T(s.ctx, a[2])
				e.Ob(s, in, k != "" && k == s.Get("mp.i") && t.calls("GetPubKeyFromBech32") && t.calls("PubKey.Bytes") && t.calls("big.Int.SetBytes"), "a party is made of something else than the key at hand")
				e.Ob(s, in, l.position(e, s, a[0]), "a party is not named by the place of its key")
				return []Outcome{{S: s.With("new.now", w.idxKey(s.ctx, x))}}
			}
			if strings.HasSuffix(callName(&x.Call), "GetPubKeyFromBech32") {
				return e.ForkErr(s, x, errIdx(x), nil, nil)
			}
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if w.T(s.ctx, p[0]).String() == local && s.Get("mp.c") != "" && l.at(e, s, s.ctx, p[1]) {
						e.Hit("local key compared", in)
						if x.Op == token.EQL {
							return e.Fork(s, x, []string{"isl", "1"}, nil)
						}
						return e.Fork(s, x, nil, []string{"isl", "1"})
					}
				}
			}
		}
		for _, v := range storedElems(in) {
			if strings.HasSuffix(tname(deref(v.Type())), "tss.PartyID") {
				c, o := e.Resolve(s, s.ctx, v)
				e.Ob(s, in, s.Get("new.now") != "" && w.idxKey(c, o) == s.Get("new.now"), "something else than the party made is put into the list")
				return []Outcome{{S: s.With("put.now", w.idxKey(c, o), "put", "1")}}
			}
		}
		return l.On(e, s, in)
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[2])) {
			return
		}
		e.Hit("parties returned", rt)
		c, o := e.Resolve(s, s.ctx, rt.Results[0])
		call, ok := o.(*ssa.Call)
		good := ok && strings.HasSuffix(callName(&call.Call), "tss-lib/tss.SortPartyIDs")
		if good {
			a := call.Call.Args[0]
			if ct, ok := a.(*ssa.ChangeType); ok {
				a = ct.X
			}
			p := w.sliceParts(c, a, nil)
			good = p.OK && len(p.Vals) == 1 && len(p.Spread) == 0 && s.Get("put") == "1"
		}
		e.Ob(s, rt, good, "the parties are not those made, put in order")
		_, lo := e.Resolve(s, s.ctx, rt.Results[1])
		lc, isCall := lo.(*ssa.Call)
		e.Ob(s, rt, e.Eval(s, rt.Results[1]) != aNil && isCall && isNew(lc) != nil && s.Get("found") == "1", "the local party is not the one of the local key")
	}
	// the local party: a variable or phi that takes the party made when the keys agree
	taken := func(e *Engine, pre, s *State, in ssa.Instruction, v ssa.Value) {
		if _, isPhi := v.(*ssa.Phi); isPhi || s.Get("mp.c") == "" {
			return
		}
		c, o := e.Resolve(pre, pre.ctx, v)
		if call, ok := o.(*ssa.Call); ok && isNew(call) != nil {
			e.Ob(s, in, s.Get("isl") == "1", "the local party may be one of another key")
			s.A["loc"] = w.idxKey(c, call)
		}
	}
	h.OnPhi = func(e *Engine, pre, s *State, p *ssa.Phi, edge ssa.Value) {
		if strings.HasSuffix(tname(deref(p.Type())), "tss.PartyID") {
			taken(e, pre, s, p, edge)
		}
	}
	base := h.OnInstr
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		outs := base(e, s, in)
		for i := range outs {
			if outs[i].S != nil && outs[i].S.Get("isl") == "1" {
				outs[i].S = outs[i].S.With("found", "1")
			}
		}
		return outs
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("party made", 1)
	r.Need("loop over the keys", 1)
	r.Need("local key compared", 1)
	r.Need("parties returned", 1)
}

// position: v is the decimal form of the place the loop is at.
func (l *listing) position(e *Engine, s *State, v ssa.Value) bool {
	c, o := e.Resolve(s, s.ctx, v)
	call, ok := o.(*ssa.Call)
	if !ok || callName(&call.Call) != "strconv.Itoa" {
		return false
	}
	i := l.w.idxKey(c, call.Call.Args[0])
	return i != "" && i == s.Get("mp.i")
}
