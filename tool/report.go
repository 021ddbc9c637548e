package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects what one check analysed and found.
type Report struct {
	W       *World
	Prop    string
	Tier    string
	Rule    string
	Viol    []Violation
	Obl     map[string]bool // obligation -> discharged
	Anchors map[string]map[string]bool
	Fns     map[string]bool
	States  int
	Notes   []string
	vkeys   map[string]bool
	start   time.Time
}

func newReport(w *World, prop, tier string) *Report {
	return &Report{W: w, Prop: prop, Tier: tier, Obl: map[string]bool{}, Anchors: map[string]map[string]bool{}, Fns: map[string]bool{}, vkeys: map[string]bool{}, start: time.Now()}
}

// Fail reports a violation at an instruction/position.
func (r *Report) Fail(where, key, msg string, path ...string) {
	if r.vkeys[key] {
		return
	}
	r.vkeys[key] = true
	r.Viol = append(r.Viol, Violation{Where: where, Msg: msg, Key: key, Path: path})
}

func (r *Report) FailAt(in ssa.Instruction, msg string, path ...string) {
	r.Fail(r.W.InstrPos(in)+" ("+fname(in.Parent())+")", fname(in.Parent())+"|"+msg, msg, path...)
}

func (r *Report) FailFn(fn *ssa.Function, msg string, path ...string) {
	r.Fail(r.W.Pos(fn.Pos())+" ("+fname(fn)+")", fname(fn)+"|"+msg, msg, path...)
}

// Ob records an obligation and fails when it does not hold.
func (r *Report) Ob(in ssa.Instruction, ok bool, what string) bool {
	k := r.W.InstrPos(in) + ": " + what
	if old, seen := r.Obl[k]; !seen || old {
		r.Obl[k] = ok
	}
	if !ok {
		r.FailAt(in, what)
	}
	return ok
}

func (r *Report) ObFn(fn *ssa.Function, ok bool, what string) bool {
	k := fname(fn) + ": " + what
	r.Obl[k] = ok
	if !ok {
		r.FailFn(fn, what)
	}
	return ok
}

func (r *Report) ObGlobal(ok bool, what string) bool {
	r.Obl[what] = ok
	if !ok {
		r.Fail("(whole program)", what, what)
	}
	return ok
}

func (r *Report) Anchor(kind string, in ssa.Instruction) {
	r.anchorS(kind, r.W.InstrPos(in))
	r.Fns[fname(in.Parent())] = true
}

func (r *Report) anchorS(kind, where string) {
	m := r.Anchors[kind]
	if m == nil {
		m = map[string]bool{}
		r.Anchors[kind] = m
	}
	m[where] = true
}

// Need fails the check when an anchor kind was met fewer than n times: the
// mechanism the property is about could not be found.
func (r *Report) Need(kind string, n int) {
	if len(r.Anchors[kind]) < n {
		r.Fail("(whole program)", "anchor:"+kind, fmt.Sprintf("expected at least %d instance(s) of %q in the program, found %d", n, kind, len(r.Anchors[kind])))
	}
}

// Merge takes over the results of an engine run.
func (r *Report) Merge(e *Engine) {
	for fn := range e.Fns {
		r.Fns[fname(fn)] = true
	}
	r.States += e.States
	for k, v := range e.Match {
		for p := range v {
			r.anchorS(k, p)
		}
	}
	for k := range e.Obl {
		if _, ok := r.Obl[k]; !ok {
			r.Obl[k] = true
		}
	}
	for _, v := range e.Viol {
		r.Obl[v.Where+": "+v.Msg] = false
		r.Fail(v.Where, v.Key, v.Msg, v.Path...)
	}
	if e.Over {
		r.Notes = append(r.Notes, fmt.Sprintf("state budget of %d reached: exploration incomplete", e.Max))
		fmt.Fprintf(os.Stderr, "error: state budget reached in %s\n", r.Prop)
		os.Exit(2)
	}
}

// Check records an obligation met by the engine at an instruction.
func (e *Engine) Ob(s *State, in ssa.Instruction, ok bool, what string) {
	e.Obl[e.w.InstrPos(in)+": "+what] = true
	if !ok {
		e.Violate(s, in, what)
	}
}

type finding struct {
	Kind     string // "known" or "fixed"
	Property string
	Key      string // of a known one: the report it suppresses, exactly
	What     string
}

func loadFindings(dir string) ([]finding, error) {
	f, err := os.Open(filepath.Join(dir, "KNOWN_FINDINGS.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		// fixed: property=<id> <commit> <what failed>
		// known: property=<id> [<report>] <what fails>
		t := strings.TrimSpace(sc.Text())
		kind, rest, ok := strings.Cut(t, ": property=")
		if !ok || kind != "known" && kind != "fixed" {
			continue
		}
		x := finding{Kind: kind}
		x.Property, rest, _ = strings.Cut(rest, " ")
		if kind == "known" {
			a, b, ok := strings.Cut(strings.TrimPrefix(rest, "["), "] ")
			if !ok {
				return nil, fmt.Errorf("malformed finding: %s", t)
			}
			x.Key, rest = a, b
		}
		x.What = rest
		out = append(out, x)
	}
	return out, sc.Err()
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Finish prints the verdict, writes evidence and returns the exit code.
func (r *Report) Finish(verifDir string, p *propDef) int {
	fs, err := loadFindings(verifDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error: known findings:", err)
		return 2
	}
	known := map[string]string{}
	for _, f := range fs {
		if f.Kind == "known" && f.Property == r.Prop {
			known[f.Key] = f.What
		}
	}
	var bad []Violation
	nKnown := 0
	for _, v := range r.Viol {
		if what, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Prop, what, v.Where)
			nKnown++
			continue
		}
		bad = append(bad, v)
	}
	dis := 0
	for _, ok := range r.Obl {
		if ok {
			dis++
		}
	}
	anch := map[string]int{}
	sites := map[string][]string{}
	for k, v := range r.Anchors {
		anch[k] = len(v)
		sites[k] = keys(v)
	}
	rep := filepath.Join(verifDir, "evidence", r.Prop+".violation.txt")
	os.MkdirAll(filepath.Dir(rep), 0o755)
	os.Remove(rep)
	if len(bad) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %s\nrule: %s\n\n", r.Prop, p.Title, p.Rule)
		for i, v := range bad {
			fmt.Fprintf(&sb, "[%d] %s\n    %s\n    key: %s\n", i+1, v.Where, v.Msg, v.Key)
			for _, x := range v.Path {
				fmt.Fprintf(&sb, "      via %s\n", x)
			}
			sb.WriteString("\n")
		}
		os.WriteFile(rep, []byte(sb.String()), 0o644)
	}
	ev := map[string]interface{}{
		"property": r.Prop,
		"tier":     r.Tier,
		"seed":     seed(),
		"level":    p.Level,
		"coverage": map[string]interface{}{
			"explanation":        p.Rule,
			"functions_analysed": len(r.Fns),
			"functions":          keys(r.Fns),
			"obligations":        len(r.Obl),
			"discharged":         dis,
			"obligation_list":    oblList(r.Obl),
			"abstract_states":    r.States,
			"anchors":            anch,
			"anchor_sites":       sites,
			"known_findings":     nKnown,
			"program_functions":  len(r.W.Funcs),
			"notes":              r.Notes,
			"violation_list":     violList(bad),
		},
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(bad),
		"assumptions": append([]string{}, p.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	fmt.Printf("%s: %d functions, %d abstract states, %d/%d obligations discharged, anchors %v\n", r.Prop, len(r.Fns), r.States, dis, len(r.Obl), anch)
	if len(bad) > 0 {
		for _, v := range bad {
			fmt.Printf("  %s: %s\n", v.Where, v.Msg)
			if os.Getenv("VERIF_PATH") != "" {
				for _, x := range v.Path {
					fmt.Printf("      via %s\n", x)
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rep)
		return 1
	}
	return 0
}

func oblList(m map[string]bool) []string {
	var out []string
	for k, ok := range m {
		s := "ok "
		if !ok {
			s = "FAILED "
		}
		out = append(out, s+k)
	}
	sort.Strings(out)
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

func violList(vs []Violation) []string {
	out := []string{}
	for _, v := range vs {
		out = append(out, v.Where+": "+v.Msg)
	}
	return out
}

func seed() int {
	n := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}
