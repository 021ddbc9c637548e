package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// propDef is one property and the rule that decides it.
type propDef struct {
	ID     string
	Title  string
	Rule   string
	Level  string
	Assume []string
	Run    func(w *World, r *Report)
}

var props = map[string]*propDef{}

func register(p *propDef) {
	if p.Level == "" {
		p.Level = "other"
	}
	props[p.ID] = p
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: verif check <id>|all [--tier quick|thorough] | funcs | ssa <func> | terms <func>")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	var pos []string
	for i := 0; i < len(args); i++ {
		if args[i] == "--tier" && i+1 < len(args) {
			tier = args[i+1]
			i++
			continue
		}
		pos = append(pos, args[i])
	}
	if tier != "thorough" {
		tier = "quick"
	}
	start := time.Now()
	if pos[0] == "rules" {
		out := map[string][]string{}
		for id, p := range props {
			out[id] = append([]string{p.Rule}, p.Assume...)
		}
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	w, err := Load(repoDir())
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
	switch pos[0] {
	case "funcs":
		for _, f := range w.Funcs {
			fmt.Println(fname(f), w.Pos(f.Pos()))
		}
	case "ssa":
		fn := w.Fn(pos[1])
		if fn == nil {
			fmt.Println("no function", pos[1])
			os.Exit(2)
		}
		fn.WriteTo(os.Stdout)
	case "crash":
		dumpCrash(w)
	case "terms":
		fn := w.Fn(pos[1])
		if fn == nil {
			fmt.Println("no function", pos[1])
			os.Exit(2)
		}
		ctx := w.Root(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					fmt.Println(w.InstrPos(in), "call", callName(&x.Call), "=>", w.T(ctx, x))
				case *ssa.Store:
					fmt.Println(w.InstrPos(in), "store", w.T(ctx, x.Addr), ":=", w.T(ctx, x.Val))
				case *ssa.MapUpdate:
					fmt.Println(w.InstrPos(in), "mapset", w.T(ctx, x.Map), "[", w.T(ctx, x.Key), "] :=", w.T(ctx, x.Value))
				case *ssa.BinOp:
					fmt.Println(w.InstrPos(in), "bin", w.T(ctx, x))
				}
			}
		}
	case "check":
		ids := pos[1:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range props {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		code := 0
		for _, id := range ids {
			p := props[strings.ToUpper(id)]
			if p == nil {
				fmt.Fprintln(os.Stderr, "error: unknown property", id)
				os.Exit(2)
			}
			r := newReport(w, p.ID, tier)
			if len(ids) == 1 {
				r.start = start
			}
			p.Run(w, r)
			if c := r.Finish(verifDir(), p); c > code {
				code = c
			}
		}
		os.Exit(code)
	default:
		fmt.Println("unknown command", filepath.Base(pos[0]))
		os.Exit(2)
	}
}
