package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// structural analyses beside the value-graph comparison

func (c *Checker) alias() *aliasInfo {
	if c.al == nil {
		c.al = newAlias(c.g.R)
	}
	return c.al
}

func runExtra(c *Checker, x string) {
	name, arg, _ := strings.Cut(x, ":")
	switch name {
	case "ownership":
		extraOwnership(c, arg)
	case "globals":
		extraGlobals(c)
	case "effects":
		extraEffects(c)
	case "layers":
		extraLayers(c)
	case "cdfshape":
		extraCdfShape(c)
	default:
		c.fail("configuration", "unknown analysis "+x)
	}
}

// extraOwnership: an object is written in place through a matching field only
// while no other field or package-level variable holds it.
func extraOwnership(c *Checker, pat string) {
	neg := strings.HasPrefix(pat, "!")
	re := regexp.MustCompile(strings.TrimPrefix(pat, "!"))
	a := c.alias()
	fields, assigns, ctxs, ds := a.ownership()
	n := 0
	var sel []string
	for _, f := range fields {
		if re.MatchString(f) != neg {
			n++
			sel = append(sel, f)
		}
	}
	for _, d := range ds {
		if re.MatchString(d.field) != neg {
			c.fail(d.where, d.what)
		}
	}
	c.extra["ownership"] = map[string]any{
		"rule":              "the object held by a field is written in place only while that field is its only holder (interprocedural points-to and typestate analysis)",
		"fields":            sel,
		"field_assignments": assigns, "functions_in_typestate": ctxs, "functions": len(a.fns),
		"stores": a.stores, "call_sites": a.calls,
	}
}

// extraGlobals: no package-level variable is modified after initialisation,
// neither directly nor through an alias.
func extraGlobals(c *Checker) {
	a := c.alias()
	n := 0
	for _, g := range sortedInstr(a.gwrites) {
		if strings.HasPrefix(g, "logger.") {
			continue
		}
		for _, i := range a.gwrites[g] {
			c.fail(c.g.R.pos(i.Pos()), fmt.Sprintf("package-level variable %s is modified by %s, so a decoding depends on those before it", g, funcKey(i.Parent())))
		}
	}
	for _, p := range c.g.R.pkgs {
		for _, nm := range p.Types.Scope().Names() {
			if _, ok := p.Types.Scope().Lookup(nm).(*types.Var); ok {
				n++
			}
		}
	}
	c.extra["package_variables"] = map[string]any{
		"rule":      "no instruction outside package initialisation stores to, or to memory reachable from, a package-level variable (points-to analysis)",
		"variables": n, "functions": len(a.fns), "stores": a.stores, "call_sites": a.calls,
	}
}

// packages whose results depend on something else than their arguments
var impurePkgs = map[string]string{
	"time": "the clock", "math/rand": "randomness", "math/rand/v2": "randomness", "crypto/rand": "randomness",
	"runtime": "the run-time system", "sync": "concurrency", "sync/atomic": "concurrency", "net": "the network",
	"syscall": "the system", "os/exec": "the system", "os/signal": "the system", "runtime/debug": "the run-time system",
	"hash/maphash": "randomness", "os": "the environment", "context": "concurrency", "unsafe": "memory addresses",
}

func extraEffects(c *Checker) {
	R := c.g.R
	fns, instrs, calls := 0, 0, 0
	for _, fn := range R.allFns() {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() == "logger" || fn.Pkg.Pkg.Name() == "main" {
			continue
		}
		fns++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				instrs++
				bad := ""
				switch x := in.(type) {
				case *ssa.Go:
					bad = "starts a goroutine"
				case *ssa.Select:
					bad = "selects between channels"
				case *ssa.MakeChan, *ssa.Send:
					bad = "uses a channel"
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						bad = "ranges over a map, whose order is random"
					}
				case *ssa.Convert:
					if x.Type().String() == "uintptr" || x.X.Type().String() == "unsafe.Pointer" || x.Type().String() == "unsafe.Pointer" {
						bad = "converts an address"
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					calls++
					if t := ci.Common().StaticCallee(); t != nil && t.Pkg != nil && !R.inModule(t) {
						if w := impurePkgs[t.Pkg.Pkg.Path()]; w != "" {
							bad = "calls " + t.String() + " (" + w + ")"
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && impurePkgs[g.Pkg.Pkg.Path()] != "" {
						bad = "uses " + g.String()
					}
				}
				if bad != "" {
					p := in.Pos()
					if !p.IsValid() {
						p = fn.Pos()
					}
					c.fail(R.pos(p), funcKey(fn)+" "+bad)
				}
			}
		}
	}
	c.extra["effects"] = map[string]any{
		"rule":      "no goroutine, channel, map iteration, address conversion, or call or variable of a package that depends on clock, randomness, environment or scheduling, outside logging",
		"functions": fns, "instructions": instrs, "call_sites": calls,
	}
}

// the layers of the decoder; a package may depend on its own and lower layers
var layerOf = map[string]int{
	"shared": 0, "logger": 0, "util": 0, "bitstream": 0, "cdef": 0, "state": 0,
	"header": 1, "sequenceheader": 1, "tileinfo": 1, "uncompressedheader": 1,
	"symbol": 2, "literal": 2, "wedgemask": 2, "tilegroup": 2,
	"obu": 3, "parser": 4,
}

var layerName = []string{"bits and state", "headers", "tile decoding", "unit framing", "stream parser"}

func extraLayers(c *Checker) {
	R := c.g.R
	internal := modPath + "/internal/"
	edges := 0
	// packages reachable through packages that belong to no layer of their own
	var reach func(p *packages.Package, seen map[string]bool)
	reach = func(p *packages.Package, seen map[string]bool) {
		for path, q := range p.Imports {
			if !strings.HasPrefix(path, modPath) || seen[path] {
				continue
			}
			edges++
			seen[path] = true
			if _, ok := layerOf[strings.TrimPrefix(path, internal)]; !ok {
				if b := R.byPath[path]; b != nil {
					q = b
				}
				reach(q, seen)
			}
		}
	}
	var names []string
	for path := range R.byPath {
		names = append(names, path)
	}
	sort.Strings(names)
	for _, path := range names {
		n := strings.TrimPrefix(path, internal)
		l, ok := layerOf[n]
		if !ok {
			continue
		}
		seen := map[string]bool{}
		reach(R.byPath[path], seen)
		for _, s := range sortedKeys(seen) {
			m := strings.TrimPrefix(s, internal)
			if lm, ok := layerOf[m]; ok && lm > l {
				c.fail("internal/"+n, fmt.Sprintf("package %s (%s) depends on %s (%s), which lies above it", n, layerName[l], m, layerName[lm]))
			}
		}
	}
	// the whole decoder hangs together below the parser
	all := map[string]bool{}
	var walk func(p *packages.Package)
	walk = func(p *packages.Package) {
		for path, q := range p.Imports {
			if strings.HasPrefix(path, modPath) && !all[path] {
				all[path] = true
				if b := R.byPath[path]; b != nil {
					q = b
				}
				walk(q)
			}
		}
	}
	root := R.byPath[internal+"parser"]
	if root == nil {
		c.fail("internal/parser", "package missing: nothing takes a stream to frames")
	} else {
		walk(root)
		for _, n := range sortedKeysInt(layerOf) {
			if n == "parser" || R.byPath[internal+n] == nil || n == "logger" {
				continue
			}
			if !all[internal+n] && c.g.M.byPath[internal+n] != nil {
				c.fail("internal/"+n, "package "+n+" is not part of the program below the parser")
			}
		}
	}
	c.extra["layers"] = map[string]any{
		"rule":         "every package loads and type-checks; each imports, directly or through new packages, only its own and lower layers; all are reachable from the parser",
		"packages":     len(names),
		"import_edges": edges,
		"errors":       len(R.errs),
	}
}

func sortedKeysInt(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// extraCdfShape: every default probability table holds rows of non-decreasing
// values that end in 32768 followed by a zero counter.
func extraCdfShape(c *Checker) {
	R := c.g.R
	rows, tabs := 0, 0
	var rec func(n, at string, t *Table)
	rec = func(n, at string, t *Table) {
		if !t.isArr {
			return
		}
		if len(t.elems) > 0 && t.elems[0].isArr {
			for i, e := range t.elems {
				rec(n, fmt.Sprintf("%s[%d]", at, i), e)
			}
			return
		}
		rows++
		var v []int
		for _, e := range t.elems {
			k, err := strconv.Atoi(strings.Trim(e.hash, "#"))
			if err != nil {
				c.fail(R.pos(R.vars[n].pos), "entry of "+n+at+" is not a constant: "+e.hash)
				return
			}
			v = append(v, k)
		}
		k := len(v)
		if k < 3 || v[k-2] != 32768 || v[k-1] != 0 {
			c.fail(R.pos(R.vars[n].pos), fmt.Sprintf("%s%s does not end in 32768 followed by a zero counter", n, at))
			return
		}
		for i := 1; i < k-1; i++ {
			if v[i] < v[i-1] {
				c.fail(R.pos(R.vars[n].pos), fmt.Sprintf("%s%s decreases at entry %d", n, at, i))
			}
		}
	}
	for _, n := range sortedKeys(tabNames(R.tables)) {
		if strings.HasPrefix(n, "uncompressedheader.") && R.tables[n].isArr && c.g.M.tables[n] != nil {
			tabs++
			rec(n, "", R.tables[n])
		}
	}
	c.extra["table_shape"] = map[string]any{
		"rule":   "rows are non-decreasing and end in 32768, 0",
		"tables": tabs, "rows": rows,
	}
}
