package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(5 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage")
		os.Exit(2)
	}
	if x := os.Getenv("GOV1_PROF"); x != "" {
		f, _ := os.Create(x)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
		defer pprof.StopCPUProfile()
	}
	if x := os.Getenv("GOV1_LIFT"); x != "" {
		liftBudget, _ = strconv.Atoi(x)
	}
	switch os.Args[1] {
	case "check": // check ROOT REPO ID TIER
		os.Exit(cmdCheck(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	case "show": // show DIR key depth
		p := must(loadProg("x", os.Args[2]))
		g := newEngine(p, p)
		g.dbg = true
		a := NewArena()
		d, _ := strconv.Atoi(os.Args[4])
		r := g.run(p, p.funcs[os.Args[3]], a)
		for _, o := range r.order {
			fmt.Printf("%s = %s\n", o, show(r.outs[o], d))
		}
		fmt.Println("trap", show(r.trap, d), r.abort, r.unsup)
	case "refac": // refac REPO KIND OUT [EVERY PHASE]
		ev, ph := 1, 0
		if len(os.Args) > 6 {
			ev, _ = strconv.Atoi(os.Args[5])
			ph, _ = strconv.Atoi(os.Args[6])
		}
		cmdRefac(os.Args[2], os.Args[3], os.Args[4], ev, ph)
	case "mutate": // mutate REPO OUT SEED
		sd, _ := strconv.ParseInt(os.Args[4], 10, 64)
		cmdMutate(os.Args[2], os.Args[3], sd)
	case "alias": // alias REPO
		a := newAlias(must(loadProg("repo", os.Args[2])))
		fs, n, cx, ds := a.ownership()
		fmt.Println("fields", len(fs), "assigns", n, "fns", len(a.fns), "ctxs", cx, "stores", a.stores, "calls", a.calls)
		for _, f := range fs {
			fmt.Println("  ", f, len(a.assigns[f]), len(a.inplace[f]))
		}
		for _, d := range ds {
			fmt.Println("DIAG", d.where, d.what)
		}
		for _, g := range sortedInstr(a.gwrites) {
			fmt.Println("GLOBAL", g, a.p.pos(a.gwrites[g][0].Pos()))
		}
	case "tables":
		cmdTables(os.Args[2])
	case "cmp": // cmp MODEL REPO pattern depth
		cmdCmp(os.Args[2], os.Args[3], os.Args[4:])
	}
}

func must(p *Prog, err error) *Prog {
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if len(p.errs) > 0 {
		fmt.Println(p.name, "errors:", strings.Join(p.errs, "\n"))
	}
	p.buildSSA()
	return p
}

func cmdCmp(m, r string, rest []string) {
	M := must(loadProg("model", m))
	R := must(loadProg("repo", r))
	pat := ""
	if len(rest) > 0 {
		pat = rest[0]
	}
	depth := 6
	if len(rest) > 1 {
		depth, _ = strconv.Atoi(rest[1])
	}
	g := newEngine(M, R)
	g.dbg = true
	g.noIdent = os.Getenv("GOV1_NOIDENT") != ""
	var keys []string
	for k := range M.funcs {
		if strings.Contains(k, pat) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		res := g.compare(k)
		st := "ok"
		if len(res.Diffs) > 0 {
			st = "DIFF"
		}
		if res.Ident {
			st = "ident"
		}
		if len(res.Undec) > 0 {
			st += " undec"
		}
		fmt.Printf("%-8s %-60s outs=%d steps=%d loops=%d calls=%d %v %v\n", st, k, res.Outs, res.Steps, res.Loops, res.Calls, res.Time, res.Undec)
		for _, d := range res.Diffs {
			if os.Getenv("GOV1_SHORT") != "" {
				if d.How != "" {
					fmt.Printf("    %s %s: %s\n      %s\n", d.Pos, d.Out, d.Why, d.How)
				}
				continue
			}
			fmt.Printf("    %s %s: %s\n      M: %s\n      R: %s\n", d.Pos, d.Out, d.Why, show(d.M, depth), show(d.R, depth))
		}
	}
}
