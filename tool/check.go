package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PropCfg says which reference functions decide a property.
type PropCfg struct {
	Files   []string `json:"files"`   // every reference function declared in these files
	Fns     []string `json:"fns"`     // further functions (globs over keys)
	Exclude []string `json:"exclude"` // functions of those files that belong elsewhere
	Tables  []string `json:"tables"`  // constant tables compared entry by entry (globs)
	Consts  []string `json:"consts"`  // packages whose named constants are compared
	Extra   []string `json:"extra"`   // structural analyses
	NoSup   bool     `json:"nosupport"`
	MinFns  int      `json:"min_fns"`
}

// supportPkgs: layers every syntax or decoding process is built on.
var supportPkgs = map[string]bool{"util": true, "bitstream": true, "literal": true, "symbol": true}

const knownSuffix = "__known"

type Violation struct {
	Where string
	What  string
	More  []string
}

type Checker struct {
	id      string
	cfg     PropCfg
	root    string
	g       *Engine
	viol    []Violation
	known   []string
	at      map[string][]string
	listed  map[string]string // fn key -> text for known findings of any property
	owner   map[string]string
	fns     []string
	outs    int
	loops   int
	calls   int
	steps   int
	inl     map[string]bool
	moved   []string
	users   []string
	ident   int
	done    map[string]bool
	samples []string
	extra   map[string]any
	tabs    int
	tabEnt  int
	consts  int
	al      *aliasInfo
}

func fnFile(p *Prog, fn *ssa.Function) string {
	f := p.fset.Position(fn.Pos()).Filename
	if i := strings.LastIndex(f, "/internal/"); i >= 0 {
		return f[i+10:]
	}
	return f
}

func globMatch(pats []string, k string) bool {
	for _, p := range pats {
		if p == k {
			return true
		}
		if strings.HasSuffix(p, "*") && strings.HasPrefix(k, p[:len(p)-1]) {
			return true
		}
	}
	return false
}

func callees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	var rec func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	rec = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); t != nil && !seen[t] {
						seen[t] = true
						r = append(r, t)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	rec(fn)
	return r
}

// selectFns: the property's own reference functions plus the support layers they use.
func (c *Checker) selectFns() {
	M := c.g.M
	set := map[string]bool{}
	for k, fn := range M.funcs {
		if strings.HasSuffix(fn.Name(), knownSuffix) {
			continue
		}
		f := fnFile(M, fn)
		in := globMatch(c.cfg.Fns, k)
		for _, x := range c.cfg.Files {
			if x == f && !globMatch(c.cfg.Exclude, k) {
				in = true
			}
		}
		if in {
			set[k] = true
		}
	}
	if !c.cfg.NoSup {
		var rec func(fn *ssa.Function)
		rec = func(fn *ssa.Function) {
			for _, t := range callees(fn) {
				if !M.inModule(t) || t.Pkg == nil || !supportPkgs[t.Pkg.Pkg.Name()] {
					continue
				}
				k := funcKey(t)
				if M.funcs[k] != nil && !set[k] {
					set[k] = true
					rec(t)
				}
			}
		}
		for _, k := range sortedKeys(set) {
			rec(M.funcs[k])
		}
	}
	c.fns = sortedKeys(set)
	// a pattern that selects nothing is a configuration error
	for _, x := range c.cfg.Fns {
		ok := false
		for k := range M.funcs {
			ok = ok || globMatch([]string{x}, k)
		}
		if !ok {
			c.fail("configuration", "no reference function matches "+x)
		}
	}
}

func (c *Checker) fail(where, what string, more ...string) {
	c.viol = append(c.viol, Violation{where, what, more})
}

func (c *Checker) loadKnown() {
	c.at = map[string][]string{}
	c.listed = map[string]string{}
	c.owner = map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		if strings.HasPrefix(f[1], "at=") {
			// a listed finding in a function whose present behaviour is otherwise
			// the reference behaviour (an unimplemented branch that refuses, ...)
			if "property="+c.id == f[0] {
				k := strings.TrimPrefix(f[1], "at=")
				c.at[k] = append(c.at[k], f[2])
			}
			continue
		}
		if !strings.HasPrefix(f[1], "fn=") {
			continue
		}
		k := strings.TrimPrefix(f[1], "fn=")
		c.listed[k] = f[2]
		c.owner[k] = strings.TrimPrefix(f[0], "property=")
	}
}

// modelCallers lists reference functions calling key.
func (c *Checker) modelCallers(key string) []string {
	var r []string
	for k, fn := range c.g.M.funcs {
		if strings.HasSuffix(fn.Name(), knownSuffix) {
			continue
		}
		for _, t := range callees(fn) {
			if funcKey(t) == key {
				r = append(r, k)
			}
		}
	}
	sort.Strings(r)
	return r
}

// tableUsers lists the reference functions that read a table.
func (c *Checker) tableUsers(names []string) []string {
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	set := map[string]bool{}
	for k, fn := range c.g.M.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && want[globName(g)] && !strings.HasSuffix(k, knownSuffix) {
						set[k] = true
					}
				}
			}
		}
	}
	return sortedKeys(set)
}

func (c *Checker) compareAll(work []string) {
	work = append([]string(nil), work...)
	done := c.done
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		mf, rf := c.g.M.funcs[k], c.g.R.funcs[k]
		if rf == nil || sigStr(mf) != sigStr(rf) {
			cl := c.modelCallers(k)
			c.moved = append(c.moved, k)
			if len(cl) == 0 {
				what := "not present any more"
				if rf != nil {
					what = "signature changed to " + sigStr(rf)
				}
				c.fail(k, "entry point "+what+": its obligations cannot be discharged")
			}
			for _, x := range cl {
				if x != k {
					work = append(work, x)
				}
			}
			continue
		}
		r := c.g.compare(k)
		if r.Ident {
			c.ident++
		}
		c.outs += r.Outs
		c.loops += r.Loops
		c.calls += r.Calls
		c.steps += r.Steps
		for _, i := range r.Inl {
			c.inl[i] = true
		}
		if len(c.samples) < 8 && r.Outs > 0 {
			c.samples = append(c.samples, fmt.Sprintf("%s (%s): %d written cells/results, %d loops, %d call terms", k, c.g.R.pos(rf.Pos()), r.Outs, r.Loops, r.Calls))
		}
		for _, u := range r.Undec {
			c.fail(k, "reference not decided: "+u)
		}
		if len(r.Diffs) == 0 {
			for _, x := range c.at[k] {
				c.known = append(c.known, k+": "+x)
			}
			continue
		}
		if kf := c.g.knownOf(k); kf != "" {
			q := c.g.compareAs(kf, k)
			if len(q.Diffs) == 0 && len(q.Undec) == 0 && c.listed[k] != "" {
				if c.owner[k] == c.id {
					c.known = append(c.known, k+": "+c.listed[k])
				}
				continue
			}
		}
		for _, d := range r.Diffs {
			where := d.Pos
			if where == "" {
				where = c.g.R.pos(rf.Pos())
			}
			out := d.Out
			if out != "" {
				out = " [" + out + "]"
			}
			c.fail(where, "in "+k+out+": "+d.Why, d.How, "reference: "+show(d.M, 7), "here:      "+show(d.R, 7))
		}
	}
}

func (c *Checker) compareTables() {
	if len(c.cfg.Tables) == 0 {
		return
	}
	for _, n := range sortedKeys(tabNames(c.g.M.tables)) {
		if !globMatch(c.cfg.Tables, n) {
			continue
		}
		mt := c.g.M.tables[n]
		ri := c.g.R.vars[n]
		if ri == nil {
			// renamed or folded into its users, whose value graphs carry the contents
			c.moved = append(c.moved, n)
			c.users = append(c.users, n)
			continue
		}
		c.tabs++
		c.tabEnt += mt.count()
		if len(ri.written) > 0 {
			c.fail(c.g.R.pos(ri.written[0].Pos()), "constant table "+n+" is written at run time (function "+ri.written[0].Parent().String()+")")
			continue
		}
		if ri.table == nil {
			c.fail(c.g.R.pos(ri.pos), "table "+n+" is not a constant literal any more")
			continue
		}
		if ri.table.hash != mt.hash {
			c.fail(c.g.R.pos(ri.pos), "table "+n+" differs from the specification: "+tabDiff(mt, ri.table, ""))
		}
	}
}

func tabNames(m map[string]*Table) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

func (t *Table) count() int {
	if !t.isArr {
		return 1
	}
	n := 0
	for _, e := range t.elems {
		n += e.count()
	}
	return n
}

func tabDiff(m, r *Table, at string) string {
	if m.hash == r.hash {
		return ""
	}
	if !m.isArr || !r.isArr {
		return fmt.Sprintf("entry %s is %s, reference %s", at, r.hash, m.hash)
	}
	if len(m.elems) != len(r.elems) {
		return fmt.Sprintf("%s has %d entries, reference %d", at, len(r.elems), len(m.elems))
	}
	for i := range m.elems {
		if d := tabDiff(m.elems[i], r.elems[i], fmt.Sprintf("%s[%d]", at, i)); d != "" {
			return d
		}
	}
	return ""
}

func (c *Checker) compareConsts() {
	for _, pn := range c.cfg.Consts {
		mp, rp := c.g.M.byPath[modPath+"/internal/"+pn], c.g.R.byPath[modPath+"/internal/"+pn]
		if mp == nil || rp == nil {
			c.fail(pn, "package missing")
			continue
		}
		for _, n := range mp.Types.Scope().Names() {
			mc, ok := mp.Types.Scope().Lookup(n).(*types.Const)
			if !ok {
				continue
			}
			rc, ok := rp.Types.Scope().Lookup(n).(*types.Const)
			if !ok {
				c.moved = append(c.moved, pn+"."+n)
				continue
			}
			c.consts++
			if !constant.Compare(constant.ToInt(mc.Val()), 39 /* token.EQL */, constant.ToInt(rc.Val())) {
				c.fail(c.g.R.pos(rc.Pos()), fmt.Sprintf("constant %s.%s is %s, specification says %s", pn, n, rc.Val(), mc.Val()))
			}
		}
	}
}

func (g *Engine) knownOf(k string) string {
	// (*T).F -> (*T).F__known ; pkg.F -> pkg.F__known
	if g.M.funcs[k+knownSuffix] != nil {
		return k + knownSuffix
	}
	return ""
}

func cmdCheck(root, repo, id, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cfgs := map[string]PropCfg{}
	b, err := os.ReadFile(filepath.Join(root, "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfgs)
	}
	if err != nil {
		fmt.Println("configuration:", err)
		return 2
	}
	cfg, ok := cfgs[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	c := &Checker{id: id, cfg: cfg, root: root, inl: map[string]bool{}, done: map[string]bool{}, extra: map[string]any{}}
	c.loadKnown()
	M, err := loadProg("model", filepath.Join(root, "model"))
	if err != nil {
		fmt.Println("reference:", err)
		return 2
	}
	if len(M.errs) > 0 {
		fmt.Println("reference:", M.errs[0])
		return 2
	}
	M.buildSSA()
	R, err := loadProg("repo", repo)
	if err != nil {
		c.fail(repo, "cannot be loaded: "+err.Error())
	} else {
		if len(R.errs) > 0 {
			sort.Strings(R.errs)
			c.fail(R.errs[0], "does not compile, so nothing can be decided", R.errs...)
		} else {
			R.buildSSA()
			c.g = newEngine(M, R)
			c.g.noIdent = tier == "thorough"
			c.selectFns()
			if len(c.fns) < cfg.MinFns {
				c.fail("configuration", fmt.Sprintf("only %d reference functions selected, expected at least %d", len(c.fns), cfg.MinFns))
			}
			c.compareAll(c.fns)
			c.compareTables()
			c.compareAll(c.tableUsers(c.users))
			c.compareConsts()
			for _, x := range cfg.Extra {
				runExtra(c, x)
			}
		}
	}
	c.report(root, tier, seed, time.Since(t0))
	if len(c.viol) > 0 {
		return 1
	}
	return 0
}

func (c *Checker) report(root, tier string, seed int, d time.Duration) {
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	rep := filepath.Join(root, "evidence", c.id+".report.txt")
	f, err := os.Create(rep)
	if err == nil {
		w := bufio.NewWriter(f)
		for _, v := range c.viol {
			fmt.Fprintf(w, "%s: %s\n", v.Where, v.What)
			for _, m := range v.More {
				fmt.Fprintf(w, "    %s\n", m)
			}
		}
		w.Flush()
		f.Close()
	}
	for _, k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
	}
	for i, v := range c.viol {
		if i >= 12 {
			fmt.Printf("... %d more, see %s\n", len(c.viol)-i, rep)
			break
		}
		fmt.Printf("%s: %s\n", v.Where, v.What)
	}
	if len(c.viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rep)
	}
	cov := map[string]any{
		"explanation": "Static: every listed function of the repository is put into a normalised gated value graph (global value numbering over SSA, loops as symbolic loop terms, calls to functions with a reference counterpart as call terms) and each result, each written memory cell and the panic condition is compared with the graph of the reference function written from the AV1 specification; equal graphs compute equal values for every input and state. Nothing is executed.",
		"functions":   len(c.fns), "function_list": c.fns, "outputs_compared": c.outs, "loops": c.loops,
		"call_terms": c.calls, "instructions_evaluated": c.steps, "helpers_inlined": sortedKeys(c.inl),
		"functions_decided_in_callers": c.moved, "functions_with_identical_ssa": c.ident, "tables_compared": c.tabs, "table_entries_compared": c.tabEnt,
		"constants_compared": c.consts, "samples": c.samples, "known_findings": c.known,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": d.Seconds(), "violations": len(c.viol),
		"assumptions": []string{
			"the reference model in /verif/model states what the AV1 specification requires",
			"distinct named pointers handed to a function do not alias unless the value graph shows it",
			"integers do not overflow 64 bits; slice and array accesses that the decoder makes are in range (an index panic is outside the compared behaviour)",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", c.id+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d functions, %d outputs, %d loops, %d tables, %d violations, %.1fs\n", c.id, len(c.fns), c.outs, c.loops, c.tabs, len(c.viol), d.Seconds())
	_ = path.Base
}
