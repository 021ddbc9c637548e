package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guarded: which lock of the same object protects which fields. Confirmed by
// reading: these objects are used by more than one goroutine.
var guarded = map[string]map[string]string{
	"common.TssCommon": {
		"culprits":            "culpritsLock",
		"P2PPeers":            "P2PPeersLock",
		"unConfirmedMessages": "unConfirmedMsgLock",
	},
	"blame.Blame": {
		"FailReason": "blameLock",
		"IsUnicast":  "blameLock",
		"BlameNodes": "blameLock",
	},
	"blame.RoundMgr":            {"storedMsg": "storeLocker"},
	"blame.ShareMgr":            {"requested": "reqLocker"},
	"blame.Manager":             {"lastMsg": "lastMsgLocker", "lastUnicastPeer": "lastMsgLocker", "acceptedShares": "acceptShareLocker"},
	"p2p.PeerStatus":            {"peersResponse": "peerStatusLock", "reqCount": "peerStatusLock", "leaderResponse": "leaderResponseLock"},
	"p2p.StreamMgr":             {"unusedStreams": "streamLocker"},
	"p2p.MessageIDSubscriber":   {"subscribers": "lock"},
	"p2p.PartyCoordinator":      {"peersGroup": "joinPartyGroupLock"},
	"p2p.Communication":         {"subscribers": "subscriberLocker"},
	"keysign.SignatureNotifier": {"notifiers": "notifierLock"},
}

func init() {
	register(&propDef{
		ID:    "C20",
		Title: "Shared state is accessed under its lock, and every lock is given back",
		Rule: "Must/may lockset dataflow over every function, with the locks named by the object they belong to and carried across calls, closures and deferred calls (a function is entered with the locks all of its callers hold; goroutines with none). " +
			"Every access to a field that a lock protects (a table of fields and their locks, checked against the types), including every access to the map in it, happens with the lock of the same object held, for writing if it writes; a protected map does not leave the function except under that lock; a whole copy of a protected struct counts as reading all of it. " +
			"No lock is taken that may be held already, directly or by a function called; no lock is released that is not held; none is held when the outermost function returns; a channel is not waited for while one is held; an update of a protected field from its former value happens within one holding of the lock; and the order in which different locks are taken is free of cycles. Peer groups and waiting requests, once filed, only change in fields that a lock protects.",
		Assume: []string{"callers outside the repository hold none of these locks"},
		Run:    runLocks,
	})
}

type lkSet map[string]int // lock -> 1 read, 2 write

type lkState struct {
	must, may lkSet
	def       []*ssa.Defer
}

func (a *lkState) clone() *lkState {
	n := &lkState{must: lkSet{}, may: lkSet{}, def: append([]*ssa.Defer(nil), a.def...)}
	for k, v := range a.must {
		n.must[k] = v
	}
	for k, v := range a.may {
		n.may[k] = v
	}
	return n
}

func (a *lkState) join(b *lkState) (*lkState, bool) {
	if a == nil {
		return b.clone(), true
	}
	ch := false
	n := a.clone()
	for k, v := range n.must {
		if b.must[k] < v {
			ch = true
			if b.must[k] == 0 {
				delete(n.must, k)
			} else {
				n.must[k] = b.must[k]
			}
		}
	}
	for k, v := range b.may {
		if n.may[k] < v {
			n.may[k] = v
			ch = true
		}
	}
	i := 0
	for i < len(n.def) && i < len(b.def) && n.def[i] == b.def[i] {
		i++
	}
	if i < len(n.def) {
		// deferred on some of the paths only: kept apart as not deferred
		n.def = n.def[:i]
		ch = true
	}
	return n, ch
}

type lkSum struct {
	acq  lkSet           // held at every return, not on entry
	rel  map[string]bool // released though not taken here
	take map[string]bool // may be taken (locks in terms of the parameters, or of the type)
	wait bool            // may wait for a channel
}

type lkEdge struct{ from, to string }

type locks struct {
	w     *World
	r     *Report
	sum   map[*ssa.Function]*lkSum
	entry map[*ssa.Function]lkSet // absent: not reached
	order map[lkEdge]ssa.Instruction
	rep   bool
	cur   *lkSum // being summarised
	sites map[*ssa.Function][]lkSet
	busy  map[*ssa.Function]bool
}

// lpath names the object v is or points to.
func (l *locks) lpath(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return fmt.Sprintf("f%d", i)
			}
		}
	case *ssa.Global:
		return "g:" + pkgShort(x.Pkg.Pkg) + "/" + x.Name()
	case *ssa.FieldAddr:
		return l.lpath(x.X) + "." + fieldOf(x.X.Type(), x.Field)
	case *ssa.Field:
		return l.lpath(x.X) + "." + fieldOf(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return l.lpath(x.X)
		}
	case *ssa.Alloc:
		if st := storesTo(x); len(st) == 1 && st[0].Parent() == x.Parent() {
			if _, isC := st[0].Val.(*ssa.Const); !isC {
				return l.lpath(st[0].Val)
			}
		}
	case *ssa.ChangeType:
		return l.lpath(x.X)
	case *ssa.MakeInterface:
		return l.lpath(x.X)
	case *ssa.ChangeInterface:
		return l.lpath(x.X)
	case *ssa.TypeAssert:
		return l.lpath(x.X)
	case *ssa.Phi:
		p := ""
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if _, isPhi := e.(*ssa.Phi); isPhi {
				p = ""
				break
			}
			q := l.lpath(e)
			if p != "" && p != q {
				p = ""
				break
			}
			p = q
		}
		if p != "" {
			return p
		}
	case *ssa.Call:
		// an accessor
		if f := x.Call.StaticCallee(); f != nil && l.w.IsRepo(f) && len(f.Blocks) == 1 && f.Signature.Results().Len() == 1 {
			if rt, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok {
				q := l.lpath(rt.Results[0])
				for i, a := range x.Call.Args {
					if s, ok := under(q, fmt.Sprintf("p%d", i)); ok {
						return l.lpath(a) + s
					}
				}
			}
		}
	}
	return fmt.Sprintf("v%p", v)
}

func under(path, base string) (string, bool) {
	if path == base {
		return "", true
	}
	if strings.HasPrefix(path, base+".") || strings.HasPrefix(path, base+"#") {
		return path[len(base):], true
	}
	return "", false
}

func fieldOf(t types.Type, i int) string {
	if st := structOf(deref(t)); st != nil && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return "?"
}

// typeLock names a lock by the type it belongs to.
func typeLock(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return tname(deref(x.X.Type())) + "." + fieldOf(x.X.Type(), x.Field)
	case *ssa.UnOp:
		return typeLock(x.X)
	case *ssa.Global:
		return pkgShort(x.Pkg.Pkg) + "." + x.Name()
	}
	return tname(deref(v.Type()))
}

// lockOp: the lock taken (mode 1, 2) or released (-1, -2); a lock is named by
// the object it belongs to and, after a #, its type.
func (l *locks) lockOp(cc *ssa.CallCommon) (string, int) {
	r, _ := callArgs(cc)
	mode := 0
	switch callName(cc) {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		mode = 2
	case "sync.RWMutex.RLock":
		mode = 1
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		mode = -2
	case "sync.RWMutex.RUnlock":
		mode = -1
	default:
		return "", 0
	}
	return l.lpath(r) + "#" + typeLock(r), mode
}

func lockType(k string) string { return k[strings.Index(k, "#")+1:] }

// args pairs the callee's names of objects with the caller's.
func (l *locks) args(cc *ssa.CallCommon) [][2]string {
	var out [][2]string
	for i, a := range cc.Args {
		out = append(out, [2]string{fmt.Sprintf("p%d", i), l.lpath(a)})
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		out = append(out, l.binds(mc)...)
	}
	return out
}

func (l *locks) binds(mc *ssa.MakeClosure) [][2]string {
	var out [][2]string
	for i, b := range mc.Bindings {
		out = append(out, [2]string{fmt.Sprintf("f%d", i), l.lpath(b)})
	}
	return out
}

// conv renames a lock; dir 0: callee to caller, 1: caller to callee.
func conv(k string, m [][2]string, dir int) (string, bool) {
	if strings.HasPrefix(k, "g:") {
		return k, true
	}
	best, n := "", -1
	for _, p := range m {
		from, to := p[dir], p[1-dir]
		if s, ok := under(k, from); ok && len(from) > n {
			best, n = to+s, len(from)
		}
	}
	return best, n >= 0
}

func (l *locks) callee(cc *ssa.CallCommon) *ssa.Function {
	if cc.IsInvoke() {
		return nil
	}
	f := cc.StaticCallee()
	if f != nil && l.w.IsRepo(f) && len(f.Blocks) > 0 {
		return f
	}
	return nil
}

func (l *locks) ob(in ssa.Instruction, ok bool, what string) {
	if l.rep {
		l.r.Ob(in, ok, what)
	}
}

// enter notes that fn is entered with the given locks.
func (l *locks) enter(fn *ssa.Function, held lkSet, m [][2]string) {
	if l.cur != nil {
		return
	}
	if fn.Synthetic != "" { // a method as a value: the method
		eachInstr(fn, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok {
				if f := l.callee(&c.Call); f != nil && f.Synthetic == "" {
					l.enter(f, nil, nil)
				}
			}
		})
		return
	}
	t := lkSet{}
	for k, v := range held {
		if c, ok := conv(k, m, 1); ok {
			t[c] = v
		}
	}
	l.sites[fn] = append(l.sites[fn], t)
}

// do applies the effect of a call on the locks held.
func (l *locks) do(s *lkState, in ssa.Instruction, cc *ssa.CallCommon) {
	if k, mode := l.lockOp(cc); mode != 0 {
		if mode > 0 {
			if l.rep {
				l.r.Anchor("lock taken", in)
			}
			l.ob(in, s.may[k] == 0, "a lock is taken that may be held already")
			l.takes(s, in, lockType(k))
			if l.cur != nil {
				l.cur.take[k] = true
			}
			s.must[k], s.may[k] = mode, mode
			return
		}
		l.release(s, in, k, -mode)
		return
	}
	if cc.IsInvoke() {
		return
	}
	f := l.callee(cc)
	for _, a := range cc.Args { // functions passed on
		if mc, ok := a.(*ssa.MakeClosure); ok {
			l.passed(s, cc, f, mc)
		}
	}
	if f == nil {
		return
	}
	m := l.args(cc)
	l.enter(f, s.must, m)
	sum := l.sum[f]
	if sum == nil {
		return
	}
	for k := range sum.take {
		l.takes(s, in, lockType(k))
		c, ok := conv(k, m, 0)
		if !ok {
			c = "?#" + lockType(k)
		} else {
			l.ob(in, s.may[c] == 0 || sum.rel[k], "a function is called that takes a lock held already")
		}
		if l.cur != nil {
			l.cur.take[c] = true
		}
	}
	if sum.wait {
		l.waits(s, in)
	}
	for k := range sum.rel {
		if c, ok := conv(k, m, 0); ok {
			l.release(s, in, c, 0)
		}
	}
	for k, v := range sum.acq {
		if c, ok := conv(k, m, 0); ok {
			s.must[c], s.may[c] = v, v
		}
	}
}

func (l *locks) release(s *lkState, in ssa.Instruction, k string, mode int) {
	ok := s.must[k] != 0 && (mode == 0 || s.must[k] == mode)
	if l.cur != nil && s.must[k] == 0 {
		l.cur.rel[k] = true
	}
	l.ob(in, ok, "a lock is released that may not be held that way")
	delete(s.must, k)
	delete(s.may, k)
	for r := range s.must {
		if strings.HasPrefix(r, "@") && strings.HasSuffix(r, "@"+k) {
			delete(s.must, r) // what was read may have changed since
		}
	}
}

// reads: the places an updated value takes the former one from.
func (l *locks) reads(v ssa.Value, typ, field string) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		shared := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			a, ok := l.sharedField(u.X)
			return ok && a.typ == typ && a.field == field
		}
		switch x := v.(type) {
		case *ssa.Lookup:
			if shared(x.X) {
				out = append(out, x)
			}
		case *ssa.UnOp:
			if x.Op == token.NOT {
				walk(x.X)
			}
			if shared(x) {
				if _, isMap := x.Type().Underlying().(*types.Map); !isMap {
					out = append(out, x)
				}
			}
		case *ssa.Extract:
			walk(x.Tuple)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.BinOp:
			walk(x.X)
			walk(x.Y)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					walk(a)
				}
			}
		}
	}
	walk(v)
	return out
}

// tests: the looks at a map that an update of it is decided by.
func (l *locks) tests(in ssa.Instruction, typ, field string) []ssa.Instruction {
	if c, ok := in.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "delete" {
			return nil
		}
	} else if _, ok := in.(*ssa.MapUpdate); !ok {
		return nil
	}
	var out []ssa.Instruction
	for b := in.Block(); b != nil; b = b.Idom() {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == in.Block() {
			continue
		}
		out = append(out, l.reads(iff.Cond, typ, field)...)
	}
	return out
}

// passed: a closure is handed to a function.
func (l *locks) passed(s *lkState, cc *ssa.CallCommon, f *ssa.Function, mc *ssa.MakeClosure) {
	cl := mc.Fn.(*ssa.Function)
	n := callName(cc)
	if f == nil {
		if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") || strings.HasPrefix(n, "strings.") || n == "sync.Map.Range" || n == "sync.Once.Do" {
			l.enter(cl, s.must, l.binds(mc))
		} else {
			l.enter(cl, nil, nil)
		}
		return
	}
	idx := -1
	for i, a := range cc.Args {
		if a == ssa.Value(mc) {
			idx = i
		}
	}
	direct := idx >= 0 && idx < len(f.Params) && !l.busy[f] && l.cur == nil
	if direct {
		for _, r := range *f.Params[idx].Referrers() {
			c, ok := r.(*ssa.Call)
			direct = direct && ok && c.Call.Value == ssa.Value(f.Params[idx])
		}
	}
	if !direct {
		l.enter(cl, nil, nil)
		return
	}
	// called by f with what f holds there
	m := l.args(cc)
	rep, sites := l.rep, l.sites
	l.rep, l.sites = false, map[*ssa.Function][]lkSet{}
	at := l.flow(f, l.entry[f], nil)
	l.rep, l.sites = rep, sites
	for _, r := range *f.Params[idx].Referrers() {
		held := lkSet{}
		if x := at[r]; x != nil {
			for k, v := range x.must {
				if c, ok := conv(k, m, 0); ok {
					held[c] = v
				}
			}
		}
		for k, v := range s.must {
			held[k] = v
		}
		l.enter(cl, held, l.binds(mc))
	}
}

func (l *locks) takes(s *lkState, in ssa.Instruction, t string) {
	for k := range s.may {
		if h := lockType(k); l.rep && h != t {
			if _, ok := l.order[lkEdge{h, t}]; !ok {
				l.order[lkEdge{h, t}] = in
			}
		}
	}
}

// waits: in may block on a channel.
func (l *locks) waits(s *lkState, in ssa.Instruction) {
	if l.cur != nil {
		l.cur.wait = true
	}
	for k := range s.may {
		if waitOK[lockType(k)] {
			continue
		}
		l.ob(in, false, "a channel is waited for while the lock "+lockType(k)+" is held")
	}
}

// locks that are meant to be held while the node waits.
var waitOK = map[string]bool{
	"tss.TssServer.tssKeyGenLocker":          true, // one key generation at a time
	"keysign.SignatureNotifier.notifierLock": true, // the channel has room for the one answer a waiter gets
}

// flow is the lockset analysis of fn; at every instruction visit gets the state before it.
func (l *locks) flow(fn *ssa.Function, entry lkSet, visit func(s *lkState, in ssa.Instruction)) map[ssa.Instruction]*lkState {
	l.busy[fn] = true
	defer delete(l.busy, fn)
	in := map[*ssa.BasicBlock]*lkState{}
	st := (&lkState{must: entry, may: entry}).clone()
	in[fn.Blocks[0]] = st
	at := map[ssa.Instruction]*lkState{}
	run := func(b *ssa.BasicBlock, v func(s *lkState, in ssa.Instruction)) *lkState {
		s := in[b].clone()
		for _, i := range b.Instrs {
			at[i] = s.clone()
			if v != nil {
				v(s, i)
			}
			switch x := i.(type) {
			case *ssa.Call:
				l.do(s, i, &x.Call)
			case *ssa.Defer:
				dup := false
				for _, d := range s.def {
					dup = dup || d == x
				}
				if !dup {
					s.def = append(s.def, x)
				}
			case *ssa.RunDefers:
				for n := len(s.def) - 1; n >= 0; n-- {
					l.do(s, i, &s.def[n].Call)
				}
				s.def = nil
			case *ssa.Go:
				if f := l.callee(&x.Call); f != nil {
					l.enter(f, nil, nil)
				}
				for _, a := range x.Call.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						l.enter(mc.Fn.(*ssa.Function), nil, nil)
					}
				}
			case *ssa.MakeClosure:
				for _, r := range *x.Referrers() {
					switch r.(type) {
					case *ssa.Call, *ssa.Go, *ssa.Defer, *ssa.DebugRef:
					default:
						l.enter(x.Fn.(*ssa.Function), nil, nil)
					}
				}
			case *ssa.Lookup, *ssa.UnOp:
				for _, a := range l.accesses(i) {
					for k := range s.must {
						if strings.HasPrefix(k, a.base+".") {
							s.must[fmt.Sprintf("@%p@", i)+k] = 1
						}
					}
				}
			}
			switch x := i.(type) {
			case *ssa.Send:
				l.waits(s, i)
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					l.waits(s, i)
				}
			case *ssa.Select:
				if x.Blocking {
					l.waits(s, i)
				}
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				for _, a := range ci.Common().Args { // plain functions as values
					if f, ok := a.(*ssa.Function); ok && l.w.IsRepo(f) {
						l.enter(f, nil, nil)
					}
				}
			} else {
				for _, op := range i.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && l.w.IsRepo(f) {
						if _, isMC := i.(*ssa.MakeClosure); !isMC {
							l.enter(f, nil, nil)
						}
					}
				}
			}
		}
		return s
	}
	rep, sites, order := l.rep, l.sites, l.order
	l.rep, l.sites = false, map[*ssa.Function][]lkSet{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		b := work[0]
		work = work[1:]
		s := run(b, nil)
		for _, t := range b.Succs {
			j, ch := in[t].join(s)
			if ch {
				in[t] = j
				work = append(work, t)
			}
		}
	}
	l.rep, l.sites, l.order = rep, sites, order
	for _, b := range fn.Blocks {
		if in[b] != nil {
			run(b, visit)
		}
	}
	return at
}

// summarise computes what every function does to the locks of its arguments.
func (l *locks) summarise(fns []*ssa.Function) {
	for n := 0; n < 10; n++ {
		ch := false
		for _, fn := range fns {
			s := &lkSum{acq: nil, rel: map[string]bool{}, take: map[string]bool{}}
			l.cur = s
			l.flow(fn, lkSet{}, func(st *lkState, in ssa.Instruction) {
				if _, ok := in.(*ssa.Return); ok {
					if s.acq == nil {
						s.acq = lkSet{}
						for k, v := range st.must {
							s.acq[k] = v
						}
						return
					}
					for k := range s.acq {
						if st.must[k] == 0 {
							delete(s.acq, k)
						}
					}
				}
			})
			l.cur = nil
			if fmt.Sprint(s) != fmt.Sprint(l.sum[fn]) {
				l.sum[fn] = s
				ch = true
			}
		}
		if !ch {
			return
		}
	}
}

func runLocks(w *World, r *Report) {
	l := &locks{w: w, r: r, sum: map[*ssa.Function]*lkSum{}, entry: map[*ssa.Function]lkSet{}, order: map[lkEdge]ssa.Instruction{}, busy: map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for _, fn := range w.Funcs {
		if len(fn.Blocks) > 0 && !isMockFile(w, fn) && fn.Synthetic == "" {
			fns = append(fns, fn)
		}
	}
	l.summarise(fns)
	callers := w.callersOf()
	for _, fn := range fns {
		n := 0
		for _, c := range callers[fn] {
			if c != fn && !isMockFile(w, c) && c.Synthetic == "" {
				n++
			}
		}
		if n == 0 {
			l.entry[fn] = lkSet{}
		}
	}
	for n := 0; n < 30; n++ {
		l.sites = map[*ssa.Function][]lkSet{}
		for _, fn := range fns {
			if e, ok := l.entry[fn]; ok {
				l.flow(fn, e, nil)
			}
		}
		ch := false
		for fn, ss := range l.sites {
			m := lkSet{}
			for k, v := range ss[0] {
				m[k] = v
			}
			for _, s := range ss[1:] {
				for k := range m {
					if s[k] < m[k] {
						m[k] = s[k]
					}
					if m[k] == 0 {
						delete(m, k)
					}
				}
			}
			if old, ok := l.entry[fn]; !ok || fmt.Sprint(old) != fmt.Sprint(m) {
				l.entry[fn] = m
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	table := l.table(fns)
	l.rep = true
	for _, fn := range fns {
		e, ok := l.entry[fn]
		if !ok { // callers not seen: with no lock
			e = lkSet{}
		}
		r.Fns[fname(fn)] = true
		l.sites = map[*ssa.Function][]lkSet{}
		called := len(callers[fn]) > 0
		l.flow(fn, e, func(s *lkState, in ssa.Instruction) {
			if rt, ok := in.(*ssa.Return); ok {
				for k := range s.may {
					if e[k] == 0 && !(called && l.sum[fn].acq[k] != 0) {
						l.ob(rt, false, "a lock may still be held at the end of the function: "+lockType(k))
					}
				}
			}
			for _, a := range l.accesses(in) {
				lk := table[a.typ+"."+a.field]
				if lk == "" {
					if sealed[a.typ] && a.write && !a.addr && !notShared[a.typ+"."+a.field] {
						own := false
						for k, m := range s.must {
							own = own || m == 2 && strings.HasPrefix(k, a.base+".")
						}
						l.ob(in, own, "the field "+a.typ+"."+a.field+" of a shared object is written without a lock")
					}
					continue
				}
				need := 1
				if a.write {
					need = 2
				}
				r.Anchor("access to "+a.typ+"."+a.field, in)
				r.Anchor("protected access", in)
				l.ob(in, !a.leaves, "the map "+a.typ+"."+a.field+" is handed on, away from its lock")
				key := a.base + "." + lk + "#" + a.typ + "." + lk
				l.ob(in, s.must[key] >= need, "access to "+a.typ+"."+a.field+" without its lock")
				var val ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					val = x.Value
				case *ssa.Store:
					val = x.Val
				}
				held := func(rd ssa.Instruction) bool { return s.must[fmt.Sprintf("@%p@", rd)+key] != 0 }
				for _, rd := range l.reads(val, a.typ, a.field) {
					r.Anchor("update of what was read", in)
					l.ob(in, held(rd), a.typ+"."+a.field+" is updated from a value read before its lock was given back")
				}
				if ts := l.tests(in, a.typ, a.field); len(ts) > 0 {
					fresh := false
					for _, rd := range ts {
						fresh = fresh || held(rd)
					}
					r.Anchor("update after a look", in)
					l.ob(in, fresh, a.typ+"."+a.field+" is updated after a look at it that its lock was given back since")
				}
			}
		})
	}
	l.rep = false
	// order
	adj := map[string][]string{}
	for e := range l.order {
		adj[e.from] = append(adj[e.from], e.to)
	}
	for e, in := range l.order {
		seen := map[string]bool{}
		var reach func(x string) bool
		reach = func(x string) bool {
			if x == e.from {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range adj[x] {
				if reach(y) {
					return true
				}
			}
			return false
		}
		r.Ob(in, !reach(e.to), "locks are taken in both orders: "+e.from+", "+e.to)
	}
	r.Need("lock taken", 20)
	r.Need("protected access", 40)
}

// access: a field of a shared object that an instruction reads or writes.
type access struct {
	base, typ, field string
	write            bool
	leaves           bool // a map is handed on
	addr             bool // its address is
}

// sharedField: v is the address of a field of an object not made here.
func (l *locks) sharedField(v ssa.Value) (access, bool) {
	x, ok := v.(*ssa.FieldAddr)
	if !ok {
		return access{}, false
	}
	root := x.X
	for {
		if y, ok := root.(*ssa.FieldAddr); ok {
			root = y.X
			continue
		}
		break
	}
	if _, ok := root.(*ssa.Alloc); ok {
		return access{}, false
	}
	return access{base: l.lpath(x.X), typ: tname(deref(x.X.Type())), field: fieldOf(x.X.Type(), x.Field)}, true
}

func (l *locks) accesses(in ssa.Instruction) []access {
	var out []access
	content := func(v ssa.Value, write bool) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := l.sharedField(u.X); ok {
				a.write = write
				out = append(out, a)
			}
		}
	}
	isMap := func(v ssa.Value) bool { _, ok := v.Type().Underlying().(*types.Map); return ok }
	switch x := in.(type) {
	case *ssa.Store:
		if a, ok := l.sharedField(x.Addr); ok {
			a.write = true
			out = append(out, a)
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			content(ia.X, true)
		}
		if isMap(x.Val) {
			// kept elsewhere, or the result of a function with deferred calls
			al, local := x.Addr.(*ssa.Alloc)
			for _, r := range refs(al) {
				if u, ok := r.(*ssa.UnOp); ok && returned(u) {
					local = false
				}
			}
			n := len(out)
			content(x.Val, false)
			if !local && len(out) > n {
				out[n].leaves = true
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if a, ok := l.sharedField(x.X); ok {
			out = append(out, a)
			break
		}
		st, isSt := x.Type().Underlying().(*types.Struct)
		if _, isAl := x.X.(*ssa.Alloc); !isSt || isAl {
			break
		}
		if _, isIA := x.X.(*ssa.IndexAddr); isIA {
			break
		}
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, access{base: l.lpath(x.X), typ: tname(x.Type()), field: st.Field(i).Name()})
		}
	case *ssa.Lookup:
		if isMap(x.X) {
			content(x.X, false)
		}
	case *ssa.Range:
		if isMap(x.X) {
			content(x.X, false)
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok && isMap(rg.X) {
			content(rg.X, false)
		}
	case *ssa.MapUpdate:
		content(x.Map, true)
	case *ssa.BinOp: // compared with nil
		for _, v := range []ssa.Value{x.X, x.Y} {
			if isMap(v) {
				content(v, false)
			}
		}
	case *ssa.DebugRef:
	default:
		b := ""
		var cc *ssa.CallCommon
		if ci, ok := in.(ssa.CallInstruction); ok {
			cc = ci.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				b = bi.Name()
			}
		}
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if a, ok := l.sharedField(*op); ok && cc != nil {
				a.write, a.addr = true, true
				out = append(out, a)
			}
			if isMap(*op) {
				n := len(out)
				content(*op, b == "delete")
				if b == "" && len(out) > n {
					out[n].leaves = true
				}
			}
		}
	}
	return out
}

// table: the fields and the locks that protect them; besides those listed, a
// field that is written somewhere under a lock of its own object.
func (l *locks) table(fns []*ssa.Function) map[string]string {
	t := map[string]string{}
	for typ, m := range guarded {
		for f, lk := range m {
			t[typ+"."+f] = lk
		}
	}
	for _, fn := range fns {
		e, ok := l.entry[fn]
		if !ok {
			continue
		}
		l.flow(fn, e, func(s *lkState, in ssa.Instruction) {
			for _, a := range l.accesses(in) {
				if !a.write || a.addr || t[a.typ+"."+a.field] != "" {
					continue
				}
				for k, m := range s.must {
					lk, ok := strings.CutPrefix(k, a.base+".")
					lk, _, _ = strings.Cut(lk, "#")
					if ok && m == 2 && !strings.Contains(lk, ".") && lk != a.field && !notShared[a.typ] && !notShared[a.typ+"."+a.field] {
						t[a.typ+"."+a.field] = lk
					}
				}
			}
		})
	}
	return t
}

// types whose other fields do not change once the object is filed.
var sealed = map[string]bool{"p2p.PeerStatus": true, "keysign.Notifier": true}

// types whose objects a single goroutine uses, and fields that are only written
// before the goroutines start.
var notShared = map[string]bool{"common.LocalCacheItem": true, "common.TssCommon.partyInfo": true}

func refs(v *ssa.Alloc) []ssa.Instruction {
	if v == nil {
		return nil
	}
	return *v.Referrers()
}

func returned(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.Return); ok {
			return true
		}
	}
	return false
}
