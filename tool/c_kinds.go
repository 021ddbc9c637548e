package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tMT       = "messages.THORChainTSSMessageType"
	fInType   = "messages.WrappedMessage.MessageType"
	fAsked    = "messages.TssControl.RequestType"
	fInBody   = "messages.WrappedMessage.Payload"
	fRndIdx   = "blame.RoundInfo.Index"
	fRndMsg   = "blame.RoundInfo.RoundMsg"
	getRound  = "common.GetMsgRound"
	allTypes  = "0 1 2 3 4 5 other"
	tssBroken = "TssBrokenMsg"
)

func init() {
	register(&propDef{
		ID:    "C21",
		Title: "A message is sent and taken as the type and round it is",
		Rule: "Finite-set dataflow over message types and protocol kinds. At every hand-over to the network the type on the message is that of its content (shares: of the session's protocol; a confirmation or a request: of the protocol of the message it is about) and its id the session's. " +
			"Before a session starts it is subscribed, under its id and with its channel, to the shares and confirmations of its protocol, to requests and to notices of being done. The body of an inbound message is decoded as what its type says, and every type is, into a variable that holds nothing before. " +
			"For every kind of message of the protocol library the round found has the kind's name and its position in the order of its protocol, below the number of rounds; other contents give an error. Blame for a bad share is marked as about private shares for the kinds it may concern only; the private round before a broadcast one is found.",
		Assume: []string{"a kind of the library is named like its Go type (proto.MessageName without package)"},
		Run:    runC21,
	})
}

func runC21(w *World, r *Report) {
	ks := w.kinds()
	if !r.ObGlobal(len(ks) > 0, "the protocol library has messages") {
		return
	}
	roundTable(w, r, ks)
	aboutUnicast(w, r, ks)
	missingUnicast(w, r, ks)
	unicastBefore(w, r, ks)
	typedMessages(w, r)
	listening(w, r)
	freshDecode(w, r, func(fn *ssa.Function) bool {
		p := fnPkg(fn).Name()
		return p == "common" || p == "keygen" || p == "keysign" || p == "messages"
	})
}

// kind: a message of the protocol library.
type kind struct {
	Name  string
	Sign  bool
	Pos   int
	Type  types.Type
	Alone bool // goes to one member
}

// kinds: the messages of key generation and signing in their order.
func (w *World) kinds() []kind {
	var out []kind
	for _, sign := range []bool{false, true} {
		path := "/tss-lib/ecdsa/keygen"
		if sign {
			path = "/tss-lib/ecdsa/signing"
		}
		for _, p := range w.Prog.AllPackages() {
			if !strings.HasSuffix(p.Pkg.Path(), path) {
				continue
			}
			var iface *types.Interface
			for _, im := range p.Pkg.Imports() {
				if strings.HasSuffix(im.Path(), "/tss-lib/tss") {
					if o := im.Scope().Lookup("MessageContent"); o != nil {
						iface, _ = o.Type().Underlying().(*types.Interface)
					}
				}
			}
			if iface == nil {
				continue
			}
			var ks []kind
			for _, n := range p.Pkg.Scope().Names() {
				o, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
				if !ok || o.IsAlias() {
					continue
				}
				if _, isS := o.Type().Underlying().(*types.Struct); isS && types.Implements(types.NewPointer(o.Type()), iface) {
					ks = append(ks, kind{Name: n, Sign: sign, Type: o.Type()})
				}
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].Name < ks[j].Name })
			for i := range ks {
				ks[i].Pos = i
			}
			out = append(out, ks...)
		}
	}
	return out
}

func (w *World) roundCount(sign bool) int64 {
	n := "TSSKEYGENROUNDS"
	if sign {
		n = "TSSKEYSIGNROUNDS"
	}
	if p := w.Pkgs["messages"]; p != nil {
		if c, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok {
			if v, ok := constant.Int64Val(c.Val()); ok {
				return v
			}
		}
	}
	return -1
}

// roundTable: each kind has its round.
func roundTable(w *World, r *Report, ks []kind) {
	fn := w.Fn(getRound)
	if !r.ObGlobal(fn != nil, getRound+" exists") {
		return
	}
	n := map[bool]int64{}
	for _, k := range ks {
		n[k.Sign]++
	}
	for _, sign := range []bool{false, true} {
		r.ObGlobal(w.roundCount(sign) == n[sign], fmt.Sprintf("missing shares are looked for in all %d rounds of a protocol (%d)", n[sign], w.roundCount(sign)))
	}
	content := func(ctx *Ctx, v ssa.Value) bool {
		return strings.Contains(w.T(ctx, v).String(), "ParsedMessage.Content(")
	}
	h := &Hooks{Track: func(v ssa.Value) bool {
		t := v.Type()
		if a, ok := v.(*ssa.Alloc); ok {
			if t = deref(a.Type()); tname(t) == tRound { // followed field by field
				return false
			}
		}
		if tp, ok := t.(*types.Tuple); ok && tp.Len() > 0 {
			t = tp.At(0).Type()
		}
		return tname(t) == "blame.RoundInfo" || t.String() == "string" || t.String() == "int"
	}}
	done := map[string]bool{}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		switch x := in.(type) {
		case *ssa.TypeAssert:
			if !x.CommaOk || !content(s.ctx, x.X) {
				return nil
			}
			name := ""
			for _, k := range ks {
				if types.Identical(deref(x.AssertedType), k.Type) {
					name = k.Name
				}
			}
			if name == "" || s.Get("kind") != "" {
				no := s.clone()
				e.SetVal(no, x, 1, boolA(name != "" && s.Get("kind") == name))
				return []Outcome{{S: no, Handled: true}}
			}
			e.Hit("kind told", in)
			yes, no := s.With("kind", name), s.clone()
			e.SetVal(yes, x, 1, aTrue)
			e.SetVal(no, x, 1, aFalse)
			if s.Get("not:"+name) != "" {
				return []Outcome{{S: no, Handled: true}}
			}
			return []Outcome{{S: yes, Handled: true}, {S: no.With("not:"+name, "1"), Handled: true}}
		case *ssa.Store:
			if base, f := roundField(x.Addr); base != nil {
				c, o := e.Resolve(s, s.ctx, base)
				return []Outcome{{S: s.With(f+w.idxKey(c, o), roundConst(e, s, s.ctx, x.Val))}}
			}
			if tname(deref(x.Addr.Type())) == tRound {
				c, o := e.Resolve(s, s.ctx, x.Addr)
				i, m := roundVals(w, e, s, s.ctx, x.Val)
				k := w.idxKey(c, o)
				return []Outcome{{S: s.With("i:"+k, i, "m:"+k, m)}}
			}
		case *ssa.Lookup:
			c, o := e.Resolve(s, s.ctx, x.Index)
			if s.Get("kind") != "" || !strings.Contains(w.T(c, o).String(), "ParsedMessage.Type(") {
				return nil
			}
			rows, ok := w.roundRows(x.X)
			if !ok {
				return nil
			}
			e.Hit("kind told", in)
			var outs []Outcome
			key := w.idxKey(s.ctx, x)
			for name, row := range rows {
				n := s.With("kind", name, "i:"+key, row[0], "m:"+key, row[1])
				if x.CommaOk {
					e.SetVal(n, x, 1, aTrue)
				}
				outs = append(outs, Outcome{S: n, Handled: true})
			}
			n := s.With("i:"+key, "0", "m:"+key, "")
			if x.CommaOk {
				e.SetVal(n, x, 1, aFalse)
			}
			return append(outs, Outcome{S: n, Handled: true})
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return nil
			}
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				c, ok := p[1].(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.String || !strings.Contains(w.T(s.ctx, p[0]).String(), "ParsedMessage.Type(") {
					continue
				}
				name := constant.StringVal(c.Value)
				e.Hit("kind told", in)
				if x.Op == token.EQL {
					return e.Fork(s, x, []string{"kind", name}, []string{"not:" + name, "1"})
				}
				return e.Fork(s, x, []string{"not:" + name, "1"}, []string{"kind", name})
			}
		}
		return nil
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		if !mayBeNil(e.Eval(s, rt.Results[len(rt.Results)-1])) {
			return
		}
		e.Hit("round told", rt)
		k := s.Get("kind")
		e.Ob(s, rt, k != "", "a round is given for a message of no known kind")
		if k == "" {
			return
		}
		done[k] = true
		idx, msg := roundVals(w, e, s, s.ctx, rt.Results[0])
		for _, kd := range ks {
			if kd.Name != k {
				continue
			}
			e.Ob(s, rt, idx == fmt.Sprint(kd.Pos), "the position of "+k+" is not the one it has in its protocol")
			e.Ob(s, rt, msg == k, "the round of "+k+" is not named like it")
		}
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	for _, k := range ks {
		r.ObFn(fn, done[k.Name], "no round is found for "+k.Name)
	}
	r.Need("kind told", 1)
	r.Need("round told", 1)
}

const tRound = "blame.RoundInfo"

// roundField: addr is a field of a round that tells its kind.
func roundField(addr ssa.Value) (ssa.Value, string) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return nil, ""
	}
	switch addrField(fa) {
	case fRndIdx:
		return fa.X, "i:"
	case fRndMsg:
		return fa.X, "m:"
	}
	return nil, ""
}

// roundConst: the constant v is.
func roundConst(e *Engine, s *State, ctx *Ctx, v ssa.Value) string {
	_, o := e.Resolve(s, ctx, v)
	c, ok := o.(*ssa.Const)
	switch {
	case !ok || c.Value == nil:
		return "?"
	case c.Value.Kind() == constant.String:
		return constant.StringVal(c.Value)
	}
	return c.Value.ExactString()
}

// roundVals: position and name of a round, as known on a path.
func roundVals(w *World, e *Engine, s *State, ctx *Ctx, v ssa.Value) (idx, msg string) {
	c, o := e.Resolve(s, ctx, v)
	if k, ok := o.(*ssa.Const); ok && k.Value == nil {
		return "0", ""
	}
	if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
		c, o = e.Resolve(s, c, u.X)
	}
	if x, ok := o.(*ssa.Extract); ok {
		o = x.Tuple
	}
	k := w.idxKey(c, o)
	idx, msg = s.Get("i:"+k), s.Get("m:"+k)
	switch o.(type) {
	case *ssa.Alloc, *ssa.Lookup:
		if idx == "" {
			idx = "0"
		}
	default:
		return "?", "?"
	}
	return idx, msg
}

// roundRows: the rows of a table of rounds by name of kind.
func (w *World) roundRows(m ssa.Value) (map[string][2]string, bool) {
	u, ok := m.(*ssa.UnOp)
	if !ok {
		return nil, false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return nil, false
	}
	init := g.Pkg.Func("init")
	var mk ssa.Value
	eachInstr(init, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
			mk = st.Val
		}
	})
	if mk == nil {
		return nil, false
	}
	rows := map[string][2]string{}
	good := true
	eachInstr(init, func(in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || mu.Map != mk {
			return
		}
		k, ok := mu.Key.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String || tname(mu.Value.Type()) != tRound {
			good = false
			return
		}
		row := [2]string{"0", ""}
		for i, f := range []string{"Index", "RoundMsg"} {
			for _, v := range w.fieldVals(w.Root(init), mu.Value, fieldIdx(mu.Value, f)) {
				c, ok := v.v.(*ssa.Const)
				switch {
				case !ok || c.Value == nil:
					good = false
				case i == 1:
					row[1] = constant.StringVal(c.Value)
				default:
					row[0] = c.Value.ExactString()
				}
			}
		}
		rows[constant.StringVal(k.Value)] = row
	})
	return rows, good && len(rows) > 0
}

// kindSet: the kinds (by their numbers) a round may be of.
func kindSet(s *State, n int) []int {
	v := s.Get("kinds")
	var out []int
	if v == "" {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	for _, f := range strings.Fields(v) {
		if f == "-" {
			continue
		}
		i := 0
		fmt.Sscan(f, &i)
		out = append(out, i)
	}
	return out
}

func kindStr(l []int) string {
	if len(l) == 0 {
		return "-"
	}
	var out []string
	for _, i := range l {
		out = append(out, fmt.Sprint(i))
	}
	return strings.Join(out, " ")
}

// splitKinds: in tells kinds of a round apart.
func splitKinds(w *World, e *Engine, s *State, in ssa.Instruction, ks []kind) []Outcome {
	v, ok := in.(ssa.Value)
	if !ok {
		return nil
	}
	var holds func(k kind) bool
	term := func(v ssa.Value) string {
		c, o := e.Resolve(s, s.ctx, v)
		return w.T(c, o).String()
	}
	switch x := in.(type) {
	case *ssa.BinOp:
		val := func(v ssa.Value, k kind) (constant.Value, bool) {
			switch t := term(v); {
			case t == fRndIdx:
				return constant.MakeInt64(int64(k.Pos)), true
			case t == fRndMsg:
				return constant.MakeString(k.Name), true
			}
			_, o := e.Resolve(s, s.ctx, v)
			if c, ok := o.(*ssa.Const); ok && c.Value != nil {
				return c.Value, false
			}
			return nil, false
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return nil
		}
		a, fa := val(x.X, ks[0])
		b, fb := val(x.Y, ks[0])
		if a == nil || b == nil || !fa && !fb || a.Kind() != b.Kind() {
			return nil
		}
		holds = func(k kind) bool {
			a, _ := val(x.X, k)
			b, _ := val(x.Y, k)
			return constant.Compare(a, x.Op, b)
		}
	case *ssa.Call:
		n := callName(&x.Call)
		if n != "strings.Contains" && n != "strings.HasPrefix" && n != "strings.HasSuffix" || term(x.Call.Args[0]) != fRndMsg {
			return nil
		}
		c, ok := x.Call.Args[1].(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		sub := constant.StringVal(c.Value)
		holds = func(k kind) bool {
			switch n {
			case "strings.HasPrefix":
				return strings.HasPrefix(k.Name, sub)
			case "strings.HasSuffix":
				return strings.HasSuffix(k.Name, sub)
			}
			return strings.Contains(k.Name, sub)
		}
	default:
		return nil
	}
	var yes, no []int
	for _, i := range kindSet(s, len(ks)) {
		if holds(ks[i]) {
			yes = append(yes, i)
		} else {
			no = append(no, i)
		}
	}
	var outs []Outcome
	for _, b := range []bool{true, false} {
		l := no
		if b {
			l = yes
		}
		if len(l) == 0 {
			continue
		}
		n := s.With("kinds", kindStr(l))
		e.SetVal(n, v, -1, boolA(b))
		outs = append(outs, Outcome{S: n, Handled: true})
	}
	return outs
}

// aboutUnicast: blame for a bad share is marked as about private shares where
// it may be, and nowhere else.
func aboutUnicast(w *World, r *Report, ks []kind) {
	sink := func(in ssa.Instruction) *ssa.CallCommon {
		cc := isCall(in, setBlame)
		if cc == nil || len(cc.Args) != 4 {
			return nil
		}
		if c, ok := cc.Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == repoConst(w, "blame", tssBroken) {
			return cc
		}
		return nil
	}
	about := func(k kind) bool {
		if k.Sign {
			return k.Pos < 5
		}
		return k.Pos == 1 || k.Pos == 2 // found while the round after it is checked
	}
	h := &Hooks{
		Interesting: func(in ssa.Instruction) bool { return sink(in) != nil },
		Track: func(v ssa.Value) bool {
			t := v.Type()
			if a, ok := v.(*ssa.Alloc); ok {
				t = deref(a.Type())
			}
			return tname(t) == "blame.RoundInfo" || t.String() == "bool"
		},
		ForceInline: func(f *ssa.Function) bool {
			rs := f.Signature.Results()
			return strings.HasPrefix(fname(f), "common.") && rs.Len() == 1 && rs.At(0).Type().String() == "bool" && len(f.Params) > 0
		},
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if cc := sink(in); cc != nil {
			e.Hit("bad share blamed", in)
			v := e.Eval(s, cc.Args[3])
			if v != aTrue && v != aFalse {
				e.Ob(s, in, w.T(s.ctx, cc.Args[3]).String() == "false", "whether the blame is about private shares is not told by the round")
				return nil
			}
			good := true
			for _, i := range kindSet(s, len(ks)) {
				good = good && about(ks[i]) == (v == aTrue)
			}
			e.Ob(s, in, good, "blame for a bad share is marked as about private shares although it is not, or the other way round")
			return nil
		}
		return splitKinds(w, e, s, in, ks)
	}
	runEntries(w, r, h, func(fn *ssa.Function, in ssa.Instruction) bool { return sink(in) != nil }, func(fn *ssa.Function) bool {
		return hasInstr(fn, func(in ssa.Instruction) bool { return isUpdateCall(in) != nil || isCall(in, getRound) != nil })
	})
	r.Need("bad share blamed", 1)
}

// missingUnicast: missing shares are marked as private ones where they may be.
func missingUnicast(w *World, r *Report, ks []kind) {
	fn := w.Fn(askMissing)
	if !r.ObGlobal(fn != nil && len(fn.Params) == 2 && fn.Signature.Results().Len() == 3, askMissing+" exists") {
		return
	}
	// the flag as it goes around the loops
	var flags []*ssa.Phi
	for _, rt := range returnsOf(fn) {
		if p, ok := rt.Results[1].(*ssa.Phi); ok && loopOf(p) {
			flags = append(flags, p)
		}
	}
	isFlag := func(p *ssa.Phi) bool {
		for _, f := range flags {
			if f == p {
				return true
			}
		}
		return false
	}
	about := func(k kind) bool {
		if k.Sign {
			return k.Pos < 5
		}
		return k.Pos == 1
	}
	split := func(e *Engine, s *State, v ssa.Value, holds func(k kind) bool) []Outcome {
		var yes, no []int
		for _, i := range kindSet(s, len(ks)) {
			if holds(ks[i]) {
				yes = append(yes, i)
			} else {
				no = append(no, i)
			}
		}
		var outs []Outcome
		for _, b := range []bool{true, false} {
			l := no
			if b {
				l = yes
			}
			if len(l) == 0 {
				continue
			}
			n := s.With("kinds", kindStr(l))
			e.SetVal(n, v, -1, boolA(b))
			outs = append(outs, Outcome{S: n, Handled: true})
		}
		return outs
	}
	h := &Hooks{Track: func(v ssa.Value) bool { return v.Type().String() == "bool" }}
	h.ForceInline = func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		return strings.HasPrefix(fname(f), "blame.") && rs.Len() == 1 && rs.At(0).Type().String() == "bool"
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		x, ok := in.(*ssa.BinOp)
		if !ok || x.X.Type().String() != "int" {
			return nil
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return nil
		}
		for i, val := range []bool{true, false} {
			if c, ok := w.binCmp(s.ctx, x, val); ok && c.Kind == "EQ" && i < 2 {
				lens := 0
				for a := range c.L.M {
					if strings.HasPrefix(a, "len(") {
						lens++
					}
				}
				if lens == 2 {
					e.Hit("share missing", in)
					yes, no := s.With("gap", "0", "kinds", kindStr(roundsOnly(s, ks))), s.With("gap", "1", "kinds", kindStr(roundsOnly(s, ks)))
					if !val {
						yes, no = no, yes
					}
					e.SetVal(yes, x, -1, aTrue)
					e.SetVal(no, x, -1, aFalse)
					return []Outcome{{S: yes, Handled: true}, {S: no, Handled: true}}
				}
			}
		}
		num := func(v ssa.Value) (int64, bool) {
			_, o := e.Resolve(s, s.ctx, v)
			c, ok := o.(*ssa.Const)
			if !ok || c.Value == nil {
				return 0, false
			}
			return c.Int64(), true
		}
		a, b := x.X, x.Y
		c, okc := num(b)
		left := true
		if !okc {
			a, b = b, a
			left = false
			c, okc = num(b)
		}
		if !okc {
			return nil
		}
		cmp := func(l int64) bool {
			p, q := constant.MakeInt64(l), constant.MakeInt64(c)
			if !left {
				p, q = q, p
			}
			return constant.Compare(p, x.Op, q)
		}
		ca, oa := e.Resolve(s, s.ctx, a)
		if ca.Parent == nil && oa == ssa.Value(fn.Params[1]) {
			e.Hit("protocol told", in)
			outs := split(e, s, x, func(k kind) bool { return cmp(w.roundCount(k.Sign)) })
			for i := range outs { // the protocol stays the same
				l := kindSet(outs[i].S, len(ks))
				g := ""
				for _, j := range l {
					if f := fmt.Sprint(ks[j].Sign); g == "" || g == f {
						g = f
					} else {
						g = "both"
					}
				}
				if g == "true" || g == "false" {
					outs[i].S = outs[i].S.With("protocol", g)
				}
			}
			return outs
		}
		switch oa.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.Extract:
		default:
			return nil
		}
		if strings.Contains(w.T(ca, oa).String(), "len(") {
			return nil
		}
		return split(e, s, x, func(k kind) bool { return cmp(int64(k.Pos)) })
	}
	h.OnPhi = func(e *Engine, pre, s *State, p *ssa.Phi, edge ssa.Value) {
		if !isFlag(p) || pre.ctx.Parent != nil {
			return
		}
		f := fmt.Sprintf("flag:%p", p)
		was, is := AbsVal(pre.Get(f)), e.Eval(pre, edge)
		s.A[f] = string(is)
		if was != aTrue && was != aFalse { // comes in
			return
		}
		e.Hit("share marked", p)
		switch {
		case was == aTrue:
			e.Ob(pre, p, is == aTrue, "missing private shares are no longer marked as such")
		case is == aTrue || is == aFalse && pre.Get("gap") == "1":
			good := pre.Get("gap") != "0"
			for _, i := range kindSet(pre, len(ks)) {
				good = good && about(ks[i]) == (is == aTrue)
			}
			e.Ob(pre, p, good, "missing shares are marked as private ones although they are not, or the other way round")
		case is != aFalse:
			e.Ob(pre, p, false, "whether missing shares are private ones is not told by their round")
		}
		s.A["gap"] = ""
		s.A["kinds"] = ""
		if g := pre.Get("protocol"); g != "" {
			s.A["kinds"] = kindStr(roundsOnly(pre, ks))
		}
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("share missing", 1)
	r.Need("share marked", 1)
}

// roundsOnly: all kinds of the protocol known on a path.
func roundsOnly(s *State, ks []kind) []int {
	var out []int
	for i, k := range ks {
		if g := s.Get("protocol"); g == "" || g == fmt.Sprint(k.Sign) {
			out = append(out, i)
		}
	}
	return out
}

// loopOf: p changes as a loop goes around.
func loopOf(p *ssa.Phi) bool {
	for _, b := range p.Block().Preds {
		if p.Block().Dominates(b) {
			return true
		}
	}
	return false
}

// unicastBefore: the private round before a broadcast one.
func unicastBefore(w *World, r *Report, ks []kind) {
	fn := w.Fn(prevUnicast)
	if !r.ObGlobal(fn != nil && len(fn.Params) == 1, prevUnicast+" exists") {
		return
	}
	var sk []kind
	for _, k := range ks {
		if k.Sign {
			sk = append(sk, k)
		}
	}
	h := &Hooks{Track: func(v ssa.Value) bool { return v.Type().String() == "string" }}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		v, ok := in.(ssa.Value)
		if !ok {
			return nil
		}
		cur := func(v ssa.Value) bool {
			c, o := w.origin(s.ctx, v)
			return c.Parent == nil && o == ssa.Value(fn.Params[0])
		}
		var holds func(k kind) bool
		str := func(v ssa.Value) (string, bool) {
			_, o := e.Resolve(s, s.ctx, v)
			c, ok := o.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.String {
				return "", false
			}
			return constant.StringVal(c.Value), true
		}
		switch x := in.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return nil
			}
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := str(p[1]); ok && cur(p[0]) {
					holds = func(k kind) bool { return (k.Name == c) == (x.Op == token.EQL) }
				}
			}
		case *ssa.Call:
			n := callName(&x.Call)
			if n != "strings.Contains" && n != "strings.HasPrefix" && n != "strings.HasSuffix" || !cur(x.Call.Args[0]) {
				return nil
			}
			c, ok := str(x.Call.Args[1])
			if !ok {
				return nil
			}
			holds = func(k kind) bool {
				switch n {
				case "strings.HasPrefix":
					return strings.HasPrefix(k.Name, c)
				case "strings.HasSuffix":
					return strings.HasSuffix(k.Name, c)
				}
				return strings.Contains(k.Name, c)
			}
		}
		if holds == nil {
			return nil
		}
		var yes, no []int
		for _, i := range kindSet(s, len(sk)) {
			if holds(sk[i]) {
				yes = append(yes, i)
			} else {
				no = append(no, i)
			}
		}
		var outs []Outcome
		for _, b := range []bool{true, false} {
			l := no
			if b {
				l = yes
			}
			if len(l) == 0 {
				continue
			}
			n := s.With("kinds", kindStr(l))
			e.SetVal(n, v, -1, boolA(b))
			outs = append(outs, Outcome{S: n, Handled: true})
		}
		return outs
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) {
		e.Hit("private round before", rt)
		_, o := e.Resolve(s, s.ctx, rt.Results[0])
		c, ok := o.(*ssa.Const)
		good := ok && c.Value != nil
		if good {
			got := constant.StringVal(c.Value)
			for _, i := range kindSet(s, len(sk)) {
				if w.alone(sk[i]) { // asked about broadcast kinds only
					continue
				}
				want := ""
				for _, k := range sk {
					if k.Pos < sk[i].Pos && w.alone(k) {
						want = k.Name
					}
				}
				good = good && got == want
			}
		}
		e.Ob(s, rt, good, "the private round before a broadcast round is another one")
	}
	e := NewEngine(w, h)
	e.Run(fn, nil)
	r.Merge(e)
	r.Need("private round before", 1)
}

// alone: messages of the kind go to one member (told from the library's source).
func (w *World) alone(k kind) bool {
	tn, _ := k.Type.(*types.Named)
	if tn == nil || tn.Obj().Pkg() == nil {
		return false
	}
	o := tn.Obj().Pkg().Scope().Lookup("New" + k.Name)
	f, ok := o.(*types.Func)
	if !ok { // several constructors: all of them broadcast
		return false
	}
	ps := f.Type().(*types.Signature).Params()
	party := func(i int) bool { return i < ps.Len() && strings.HasSuffix(ps.At(i).Type().String(), "tss.PartyID") }
	return party(0) && party(1) // to, from
}

// typedMessages: what goes out and comes in has the type it is marked with.
func typedMessages(w *World, r *Report) {
	num := map[string]string{}
	for _, n := range []string{"TSSKeyGenMsg", "TSSKeySignMsg", "TSSKeyGenVerMsg", "TSSKeySignVerMsg", "TSSControlMsg", "TSSTaskDone"} {
		num[n] = w.msgType(n)
	}
	gen, sign, genV, signV, ctl, fin := num["TSSKeyGenMsg"], num["TSSKeySignMsg"], num["TSSKeyGenVerMsg"], num["TSSKeySignVerMsg"], num["TSSControlMsg"], num["TSSTaskDone"]
	all := []string{gen, sign, genV, signV, ctl, fin, "other"}
	bodies := map[string][]string{tWire: {gen, sign}, tConfirm: {genV, signV}, tControl: {ctl}, tNotifier: {fin}}
	proto := map[string]string{gen: gen, sign: sign, genV: gen, signV: sign} // the share's type
	of := map[string]string{gen: genV, sign: signV}
	has := func(l []string, x string) bool {
		for _, y := range l {
			if y == x {
				return true
			}
		}
		return false
	}
	// the types a source may still have on a path
	may := func(s *State, src string) []string {
		if v := s.Get("may:" + src); v != "" {
			return strings.Fields(v)
		}
		return all
	}
	// what a value of a type is: one of them, or that of a source
	source := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) (string, bool) {
		c, o := e.Resolve(s, ctx, v)
		if k, ok := o.(*ssa.Const); ok && k.Value != nil {
			x := k.Value.ExactString()
			if !has(all, x) {
				x = "other"
			}
			return x, true
		}
		switch t := w.T(c, o).String(); t {
		case fInType, fAsked:
			return t, false
		}
		return "?", false
	}
	set := func(e *Engine, s *State, ctx *Ctx, v ssa.Value) []string {
		x, one := source(e, s, ctx, v)
		if one {
			return []string{x}
		}
		if x == "?" {
			return all
		}
		return may(s, x)
	}
	fresh := []string{"may:" + fInType, "", "may:" + fAsked, "", "dec", "", "in", "1"}
	isMT := func(v ssa.Value) bool { return tname(v.Type()) == tMT }
	decodes := func(e *Engine, s *State, in ssa.Instruction) (types.Type, bool) {
		cc := isCall(in, "encoding/json.Unmarshal")
		if cc == nil {
			return nil, false
		}
		c, o := e.Resolve(s, s.ctx, cc.Args[0])
		if w.T(c, o).String() != fInBody {
			return nil, false
		}
		return decodeDst(cc.Args[1])
	}
	h := &Hooks{Track: func(v ssa.Value) bool {
		if isMT(v) {
			return true
		}
		if tp, ok := v.Type().(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				if tname(tp.At(i).Type()) == tMT {
					return true
				}
			}
			return false
		}
		if a, ok := v.(*ssa.Alloc); ok {
			return tname(deref(a.Type())) == tMT
		}
		return false
	}}
	h.Interesting = func(in ssa.Instruction) bool {
		if cc := isCall(in, "encoding/json.Unmarshal"); cc != nil {
			if d, ok := decodeDst(cc.Args[1]); ok && bodies[tname(d)] != nil {
				return true
			}
		}
		return outSink(nil, in) || w.recvField(in, fTssMsg)
	}
	settle := func(e *Engine, s *State, in ssa.Instruction) {
		if s.Get("in") == "" || s.Get("dec") != "" || s.Get("may:"+fInType) == "" {
			return
		}
		for _, t := range may(s, fInType) {
			if t != "other" {
				e.Ob(s, in, false, "the body of a message of a known type is not looked at")
				return
			}
		}
	}
	sent := func(e *Engine, s *State, in ssa.Instruction, v ssa.Value) {
		e.Hit("message sent", in)
		signing := strings.HasPrefix(fname(rootCtx(s.ctx).Fn), "keysign.")
		keygen := strings.HasPrefix(fname(rootCtx(s.ctx).Fn), "keygen.")
		c := ctxVal{s.ctx, v}
		for _, x := range w.fieldPath(c, "WrappedMessage", "MsgID") {
			e.Ob(s, in, w.T(x.ctx, x.v).every(func(t *Term) bool { return t.String() == "common.TssCommon.msgID" }), "a message is sent with another id than that of its session")
		}
		e.Ob(s, in, len(w.fieldPath(c, "WrappedMessage", "MsgID")) > 0, "a message is sent without the id of its session")
		bs, ts := w.fieldPath(c, "WrappedMessage", "Payload"), w.fieldPath(c, "WrappedMessage", "MessageType")
		if len(ts) == 0 {
			// the zero value
			e.Ob(s, in, false, "a message is sent without its type")
		}
		e.Ob(s, in, len(bs) > 0, "a message is sent without content")
		for _, b := range bs {
			m, ok := w.marshalled(b.ctx, b.v)
			kind := ""
			if ok {
				kind = tname(deref(m.v.Type()))
			}
			e.Ob(s, in, bodies[kind] != nil, "what is sent is no message of a session")
			if bodies[kind] == nil {
				continue
			}
			for _, t := range ts {
				got := set(e, s, t.ctx, t.v)
				want := bodies[kind]
				switch {
				case kind == tWire && keygen:
					want = []string{gen}
				case kind == tWire && signing:
					want = []string{sign}
				case kind == tWire:
					want = nil
				case kind == tConfirm:
					want = nil
					src := fInType
					if x := may(s, fInType); len(x) == 1 && x[0] == ctl {
						src = fAsked
					}
					if x := may(s, src); len(x) == 1 && of[x[0]] != "" {
						want = []string{of[x[0]]}
					} else if src == fAsked {
						known := false
						for _, y := range x {
							known = known || of[y] != ""
						}
						if !known { // asked for something that does not exist
							want = got
						}
					}
				}
				good := len(got) == 1 && has(want, got[0])
				e.Ob(s, in, good, fmt.Sprintf("a message is not sent as what it is (%s as %s)", kind, strings.Join(got, " ")))
				if kind == tControl {
					request(w, e, s, in, m, func(ctx *Ctx, v ssa.Value) []string { return set(e, s, ctx, v) }, may, proto, all)
				}
			}
		}
	}
	h.OnSelect = func(e *Engine, s *State, sel *ssa.Select, k int) *State {
		if k >= 0 && sel.States[k].Dir == types.RecvOnly && addrField(sel.States[k].Chan) == fTssMsg {
			settle(e, s, sel)
			return s.With(fresh...)
		}
		if v := outSend(sel, k); v != nil {
			sent(e, s, sel, v)
		}
		return s
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		if _, ok := in.(*ssa.Send); ok {
			if v := outSend(in, 0); v != nil {
				sent(e, s, in, v)
			}
			return nil
		}
		if _, ok := in.(*ssa.UnOp); ok && w.recvField(in, fTssMsg) {
			settle(e, s, in)
			return []Outcome{{S: s.With(fresh...)}}
		}
		if d, ok := decodes(e, s, in); ok {
			e.Hit("body decoded", in)
			want := bodies[tname(d)]
			good := want != nil
			for _, t := range may(s, fInType) {
				good = good && has(want, t)
			}
			e.Ob(s, in, good, "the body of a message is taken for something else than its type says")
			return []Outcome{{S: s.With("dec", "1")}}
		}
		if st, ok := in.(*ssa.Store); ok && addrField(st.Addr) == fAsked {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				c, o := e.Resolve(s, s.ctx, fa.X)
				return []Outcome{{S: s.With("asked:"+w.idxKey(c, o), strings.Join(set(e, s, s.ctx, st.Val), " "))}}
			}
		}
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || !isMT(b.X) {
			return nil
		}
		x, y := b.X, b.Y
		sx, onex := source(e, s, s.ctx, x)
		sy, oney := source(e, s, s.ctx, y)
		if onex && !oney {
			sx, sy, onex, oney = sy, sx, oney, onex
		}
		if !oney {
			return nil
		}
		if onex {
			n := s.clone()
			e.SetVal(n, b, -1, boolA((sx == sy) == (b.Op == token.EQL)))
			return []Outcome{{S: n, Handled: true}}
		}
		if sx == "?" {
			return nil
		}
		var yes, no []string
		for _, t := range may(s, sx) {
			if t == sy {
				yes = append(yes, t)
			}
			if t != sy || t == "other" {
				no = append(no, t)
			}
		}
		var outs []Outcome
		for _, eq := range []bool{true, false} {
			l := no
			if eq {
				l = yes
			}
			if len(l) == 0 {
				continue
			}
			n := s.With("may:"+sx, strings.Join(l, " "))
			e.SetVal(n, b, -1, boolA(eq == (b.Op == token.EQL)))
			outs = append(outs, Outcome{S: n, Handled: true})
		}
		return outs
	}
	h.OnReturn = func(e *Engine, s *State, rt *ssa.Return) { settle(e, s, rt) }
	pred := func(fn *ssa.Function, in ssa.Instruction) bool { return outSink(fn, in) }
	runEntries(w, r, h, pred, func(fn *ssa.Function) bool {
		return hasInstr(fn, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Select); return ok && !outSink(fn, in) })
	})
	r.Need("message sent", 1)
	r.Need("body decoded", 4)
}

// request: a request names the type of what it asks for.
func request(w *World, e *Engine, s *State, in ssa.Instruction, m ctxVal, set func(*Ctx, ssa.Value) []string, may func(*State, string) []string, proto map[string]string, all []string) {
	c, o := e.Resolve(s, m.ctx, m.v)
	if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL { // a copy
		c, o = e.Resolve(s, c, u.X)
	}
	got := s.Get("asked:" + w.idxKey(c, o))
	if got == "" {
		al, ok := o.(*ssa.Alloc)
		made := ok
		if ok {
			for _, ref := range *al.Referrers() {
				if mi, ok := ref.(*ssa.MakeInterface); ok {
					for _, r2 := range *mi.Referrers() {
						if isCall(r2, "encoding/json.Unmarshal") != nil {
							made = false // a reply goes back as it was asked for
						}
					}
				}
			}
		}
		e.Ob(s, in, !made, "a request does not tell what it is for")
		return
	}
	src := may(s, fInType)
	if len(src) == 1 && src[0] == all[4] {
		src = may(s, fAsked)
	}
	want := map[string]bool{}
	for _, t := range src {
		want[proto[t]] = true
	}
	f := strings.Fields(got)
	e.Ob(s, in, len(f) == 1 && len(want) == 1 && want[f[0]] && f[0] != "", "a request is for another type than that of the missing message")
}

// idParam: which parameter of a session's constructor is its identifier.
func idParam(fn *ssa.Function) int {
	at := -1
	if fn == nil {
		return at
	}
	eachInstr(fn, func(in ssa.Instruction) {
		if cc := isCall(in, "common.NewTssCommon"); cc != nil && len(cc.Args) > 3 {
			for i, p := range fn.Params {
				if cc.Args[3] == ssa.Value(p) {
					at = i
				}
			}
		}
	})
	return at
}

// listening: a session that starts hears every kind of message of its protocol.
func listening(w *World, r *Report) {
	num := w.msgType
	need := map[string][]string{
		"keygen.TssKeyGen.GenerateNewKey": {num("TSSKeyGenMsg"), num("TSSKeyGenVerMsg"), num("TSSControlMsg"), num("TSSTaskDone")},
		"keysign.TssKeySign.SignMessage":  {num("TSSKeySignMsg"), num("TSSKeySignVerMsg"), num("TSSControlMsg"), num("TSSTaskDone")},
	}
	const cancel = "p2p.Communication.CancelSubscribe"
	start := func(in ssa.Instruction) *ssa.CallCommon {
		ci, ok := in.(ssa.CallInstruction)
		if ok && need[callName(ci.Common())] != nil {
			return ci.Common()
		}
		return nil
	}
	h := &Hooks{
		Interesting: func(in ssa.Instruction) bool {
			return start(in) != nil || isCall(in, subscribe, cancel) != nil
		},
		NoInline: func(fn *ssa.Function) bool {
			n := fname(fn)
			return n == subscribe || n == cancel || need[n] != nil
		},
		Track: func(v ssa.Value) bool { return tname(v.Type()) == tMT },
	}
	h.OnInstr = func(e *Engine, s *State, in ssa.Instruction) []Outcome {
		cc := callAt(s, in)
		if cc == nil {
			return nil
		}
		switch n := callName(cc); n {
		case subscribe, cancel:
			_, a := callArgs(cc)
			_, o := e.Resolve(s, s.ctx, a[0])
			c, ok := o.(*ssa.Const)
			if !ok || c.Value == nil {
				if n == cancel { // may be any
					s = s.clone()
					for k := range s.A {
						if strings.HasPrefix(k, "sub:") {
							s.A[k] = ""
						}
					}
					return []Outcome{{S: s}}
				}
				return nil
			}
			k := "sub:" + c.Value.ExactString()
			if n == cancel {
				return []Outcome{{S: s.With(k, "")}}
			}
			e.Hit("type subscribed to", in)
			cr, ro := e.Resolve(s, s.ctx, a[2])
			from := "-"
			if call, ok := ro.(*ssa.Call); ok {
				if recv, _ := callArgs(&call.Call); recv != nil {
					cb, ob := e.Resolve(s, cr, recv)
					from = w.idxKey(cb, ob)
				}
			} else if f, ok := storedField(ro); ok {
				cb, ob := e.Resolve(s, cr, f)
				from = w.idxKey(cb, ob)
			}
			ci, oi := e.Resolve(s, s.ctx, a[1])
			return []Outcome{{S: s.With(k, from+" "+w.T(ci, oi).String())}}
		default:
			if need[n] == nil {
				return nil
			}
			e.Hit("session started", in)
			recv, _ := callArgs(cc)
			cb, ob := e.Resolve(s, s.ctx, recv)
			inst := w.idxKey(cb, ob)
			ids := map[string]bool{}
			if mk, ok := ob.(*ssa.Call); ok {
				at := idParam(mk.Call.StaticCallee())
				for i, a := range mk.Call.Args {
					if a.Type().String() == "string" && (at < 0 || at == i) {
						c, o := e.Resolve(s, cb, a)
						ids[w.T(c, o).String()] = true
					}
				}
			}
			for _, t := range need[n] {
				got := s.Get("sub:" + t)
				e.Ob(s, in, got != "", "a session starts without hearing a type of message of its protocol")
				if got != "" {
					f := strings.SplitN(got, " ", 2)
					e.Ob(s, in, f[0] == inst, "messages for a session are not given to it")
					e.Ob(s, in, ids[f[1]], "a session hears the messages of another one")
				}
			}
		}
		return nil
	}
	for _, en := range w.tssEntry("Keygen", "KeySign") {
		e := NewEngine(w, h)
		e.Run(en, nil)
		r.Merge(e)
	}
	r.Need("type subscribed to", 1)
	r.Need("session started", 2)
}

// storedField: v is read from a field of an object.
func storedField(v ssa.Value) (ssa.Value, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X, true
		}
	}
	return nil, false
}
