package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "gitlab.com/thorchain/tss/go-tss"

// World is the type-checked program: SSA bodies for every package of the
// repository, export data (no bodies) for everything else.
type World struct {
	Dir     string
	Fset    *token.FileSet
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package // by path relative to the module ("common", "cmd/tss", ...)
	Srcs    []*packages.Package
	Funcs   []*ssa.Function // every function of the repository that has a body, incl. closures
	name    map[string]*ssa.Function
	tc      *termCache
	ctxs    map[ctxKey]*Ctx
	nctx    int
	dyn     map[*types.Signature][]*ssa.Function
	callers map[*ssa.Function][]*ssa.Function
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load(dir string) (*World, error) {
	// go.mod and go.sum are used through a private copy so that nothing the go
	// command does can touch the tracked ones.
	tmp, err := os.MkdirTemp("", "verifmod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	flags := []string{}
	okCopy := true
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			okCopy = false
			break
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o600); err != nil {
			return nil, err
		}
	}
	if okCopy {
		flags = append(flags, "-modfile="+filepath.Join(tmp, "go.mod"))
	}
	cfg := &packages.Config{
		Mode:       packages.LoadSyntax | packages.NeedModule,
		Dir:        dir,
		BuildFlags: flags,
		Tests:      false,
		Env:        os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("load: no packages in %s", dir)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Dir: dir, Fset: prog.Fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, Srcs: pkgs,
		name: map[string]*ssa.Function{}, ctxs: map[ctxKey]*Ctx{}}
	for _, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("load: package without SSA")
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(sp.Pkg.Path(), modPath), "/")
		w.Pkgs[rel] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if w.IsRepo(fn) && len(fn.Blocks) > 0 {
			w.Funcs = append(w.Funcs, fn)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		a, b := w.Funcs[i], w.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, fn := range w.Funcs {
		w.name[w.FName(fn)] = fn
	}
	w.tc = newTermCache()
	return w, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg
		}
	}
	if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (w *World) IsRepo(fn *ssa.Function) bool { return isRepoPkg(fnPkg(fn)) }

// FName gives "pkg.Func", "pkg.Type.Method" or "<parent>$n" for closures.
func (w *World) FName(fn *ssa.Function) string { return fname(fn) }

func fname(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return fname(fn.Parent()) + n
	}
	p := fnPkg(fn)
	pp := ""
	if p != nil {
		if isRepoPkg(p) {
			pp = strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
		} else {
			pp = p.Path()
		}
	}
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return pp + "." + n.Obj().Name() + "." + fn.Name()
		}
		return pp + ".?." + fn.Name()
	}
	return pp + "." + fn.Name()
}

func (w *World) Fn(name string) *ssa.Function { return w.name[name] }

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Dir, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// InstrPos finds the best source position for an instruction.
func (w *World) InstrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return w.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				if r.Pos().IsValid() {
					return w.Pos(r.Pos())
				}
			}
		}
	}
	b := in.Block()
	if b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return w.Pos(o.Pos())
			}
		}
		return w.Pos(b.Parent().Pos())
	}
	return "?"
}

func namedOf(t types.Type) *types.Named {
	for {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return x
		case *types.Pointer:
			t = x.Elem()
		default:
			return nil
		}
	}
}

// tname is "pkg.Type" of a (pointer to a) named type, else the type string.
func tname(t types.Type) string {
	if n := namedOf(t); n != nil {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return pkgShort(o.Pkg()) + "." + o.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return pkgShort(p) })
}

func pkgShort(p *types.Package) string {
	if p == nil {
		return ""
	}
	if isRepoPkg(p) {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
	}
	// strip versions and hosts: keep the last path element plus the parent for tss-lib
	return p.Path()
}

func goEnv() []string {
	return os.Environ()
}

func gitHead(dir string) string {
	out, err := exec.Command("git", "-C", dir, "rev-parse", "HEAD").Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}
