package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/m4tthewde/gov1"

type Prog struct {
	name   string
	dir    string
	fset   *token.FileSet
	pkgs   []*packages.Package
	byPath map[string]*packages.Package
	ssap   *ssa.Program
	funcs  map[string]*ssa.Function // key -> function (module functions with bodies)
	tables map[string]*Table        // never-written composite-literal globals
	vars   map[string]*globInfo
	places map[string]placeT
	loops  map[*ssa.Function]*loopInfo
	errs   []string
}

type globInfo struct {
	name    string // pkg.Name
	obj     *types.Var
	pos     token.Pos
	init    ast.Expr
	info    *types.Info
	table   *Table
	written []ssa.Instruction
	escapes []ssa.Instruction
}

func loadProg(name, dir string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "gov1mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			if f == "go.sum" {
				continue
			}
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	p := &Prog{name: name, dir: dir, fset: token.NewFileSet(), byPath: map[string]*packages.Package{}}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "go.mod"), "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS_EXTRA=", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps,
		Dir:  dir,
		Env:  env,
		Fset: p.fset,
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	sort.Slice(pk, func(i, j int) bool { return pk[i].PkgPath < pk[j].PkgPath })
	p.pkgs = pk
	for _, x := range pk {
		p.byPath[x.PkgPath] = x
		for _, e := range x.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	return p, nil
}

// buildSSA builds SSA for the module packages only.
func (p *Prog) buildSSA() {
	prog, _ := ssautil.Packages(p.pkgs, ssa.InstantiateGenerics)
	p.ssap = prog
	for _, x := range p.pkgs {
		if sp := prog.Package(x.Types); sp != nil {
			sp.Build()
		}
	}
	p.funcs = map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(prog) {
		if !p.inModule(fn) || len(fn.Blocks) == 0 || fn.Synthetic != "" && fn.Origin() == nil || fn.Parent() != nil {
			continue
		}
		p.funcs[funcKey(fn)] = fn
	}
	p.loops = map[*ssa.Function]*loopInfo{}
	p.places = map[string]placeT{}
	p.globals()
}

func funcKey(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, modPath+"/internal/", "")
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
	}
	return false
}

func (p *Prog) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	l := computeLoops(fn)
	p.loops[fn] = l
	return l
}

// localType maps a named type of the other program to this program's own.
func (p *Prog) localType(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Named:
		o := u.Obj()
		if o.Pkg() == nil {
			return t
		}
		if pk := p.byPath[o.Pkg().Path()]; pk != nil {
			if l := pk.Types.Scope().Lookup(o.Name()); l != nil {
				return l.Type()
			}
		}
	case *types.Pointer:
		return types.NewPointer(p.localType(u.Elem()))
	}
	return t
}

func (p *Prog) localFieldType(st types.Type, name string) types.Type {
	s, ok := p.localType(st).Underlying().(*types.Struct)
	if !ok {
		return types.Typ[types.Invalid]
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

func (p *Prog) localTypeOf(r *sumRef) types.Type {
	if n := len(r.path); n > 0 {
		l := r.path[n-1]
		if l.deref {
			return p.localType(l.typ)
		}
		return p.localFieldType(l.st, l.name)
	}
	return p.localType(r.typ)
}

func shortFile(f string) string {
	if i := strings.Index(f, "/internal/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	x := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", shortFile(x.Filename), x.Line)
}

// ---------------------------------------------------------------------------
// Package-level variables
// ---------------------------------------------------------------------------

func (p *Prog) globals() {
	p.vars = map[string]*globInfo{}
	p.tables = map[string]*Table{}
	for _, pk := range p.pkgs {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						o, ok := pk.TypesInfo.Defs[n].(*types.Var)
						if !ok {
							continue
						}
						g := &globInfo{name: pk.Types.Name() + "." + n.Name, obj: o, pos: n.Pos(), info: pk.TypesInfo}
						if len(vs.Values) == len(vs.Names) {
							g.init = vs.Values[i]
						}
						p.vars[g.name] = g
					}
				}
			}
		}
	}
	for _, g := range p.vars {
		if g.init != nil {
			g.table = p.evalTable(g.init, g.info, 0)
		}
	}
	for _, fn := range p.allFns() {
		if fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil {
						if gi := p.vars[globName(g)]; gi != nil {
							gi.written = append(gi.written, in)
						}
					}
				}
			}
		}
	}
	for n, g := range p.vars {
		if g.table != nil && len(g.written) == 0 {
			p.tables[n] = g.table
		}
	}
}

func (p *Prog) allFns() []*ssa.Function {
	var r []*ssa.Function
	for fn := range ssautil.AllFunctions(p.ssap) {
		if p.inModule(fn) && len(fn.Blocks) > 0 {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// evalTable evaluates a composite literal of integer constants.
func (p *Prog) evalTable(x ast.Expr, info *types.Info, depth int) *Table {
	if depth > 8 {
		return nil
	}
	switch y := x.(type) {
	case *ast.ParenExpr:
		return p.evalTable(y.X, info, depth)
	case *ast.CompositeLit:
		t := info.TypeOf(y)
		var n int64 = -1
		var et types.Type
		switch u := t.Underlying().(type) {
		case *types.Array:
			n = u.Len()
			et = u.Elem()
		case *types.Slice:
			et = u.Elem()
		default:
			return nil
		}
		tb := &Table{isArr: true, elemT: et}
		idx := int64(0)
		put := func(i int64, e *Table) {
			for int64(len(tb.elems)) <= i {
				tb.elems = append(tb.elems, nil)
			}
			tb.elems[i] = e
		}
		for _, el := range y.Elts {
			v := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				tv := info.Types[kv.Key]
				if tv.Value == nil {
					return nil
				}
				k, ok := constant.Int64Val(constant.ToInt(tv.Value))
				if !ok {
					return nil
				}
				idx = k
				v = kv.Value
			}
			e := p.evalTable(v, info, depth+1)
			if e == nil {
				return nil
			}
			put(idx, e)
			idx++
		}
		for i, e := range tb.elems {
			if e == nil {
				tb.elems[i] = zeroTable(et)
				if tb.elems[i] == nil {
					return nil
				}
			}
		}
		if n >= 0 {
			for int64(len(tb.elems)) < n {
				z := zeroTable(et)
				if z == nil {
					return nil
				}
				tb.elems = append(tb.elems, z)
			}
		}
		tb.setHash()
		return tb
	case *ast.Ident:
		if o, ok := info.Uses[y].(*types.Var); ok && o.Parent() == o.Pkg().Scope() {
			if g := p.vars[o.Pkg().Name()+"."+o.Name()]; g != nil && g.init != nil {
				return p.evalTable(g.init, g.info, depth+1)
			}
		}
	}
	if tv, ok := info.Types[x]; ok && tv.Value != nil {
		switch tv.Value.Kind() {
		case constant.Int:
			if k, ok := constant.Int64Val(tv.Value); ok && kindOf(tv.Type) == 'i' {
				t := &Table{leaf: k}
				t.setHash()
				return t
			}
		case constant.Bool:
			t := &Table{}
			if constant.BoolVal(tv.Value) {
				t.leaf = 1
			}
			t.setHash()
			return t
		}
	}
	return nil
}

func zeroTable(t types.Type) *Table {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			z := &Table{}
			z.setHash()
			return z
		}
	case *types.Slice:
		z := &Table{isArr: true, elemT: u.Elem()}
		z.setHash()
		return z
	case *types.Array:
		z := &Table{isArr: true, elemT: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			e := zeroTable(u.Elem())
			if e == nil {
				return nil
			}
			z.elems = append(z.elems, e)
		}
		z.setHash()
		return z
	}
	return nil
}

func (t *Table) setHash() {
	if !t.isArr {
		t.hash = fmt.Sprint(t.leaf)
		return
	}
	h := uint64(1469598103934665603)
	h2 := uint64(99)
	for _, e := range t.elems {
		for _, c := range []byte(e.hash) {
			h = (h ^ uint64(c)) * 1099511628211
			h2 = mix(h2, uint64(c))
		}
		h = (h ^ ',') * 1099511628211
		h2 = mix(h2, ',')
	}
	t.hash = fmt.Sprintf("T%d:%x%x", len(t.elems), h, h2)
}
