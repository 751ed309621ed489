package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/printer"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Development aid (never run by a check): plants one random small change in
// every function of a copy of the repository, to find changes the comparison
// does not see.

type mutSite struct {
	desc string
	pos  token.Pos
	do   func()
}

func cmdMutate(repo, out string, seed int64) {
	p := must(loadProg("repo", repo))
	rng := rand.New(rand.NewSource(seed))
	skip := map[string]bool{}
	src := map[string][]byte{}
	type fnRef struct {
		key  string
		file *ast.File
		name string
		a, b int
	}
	// mutations are drawn first and printed; files failing to build lose the mutation
	muts := map[string]string{}
	for attempt := 0; attempt < 6; attempt++ {
		if attempt > 0 {
			p = must(loadProg("repo", repo))
			rng = rand.New(rand.NewSource(seed))
		}
		muts = map[string]string{}
		lines := map[string][][2]int{}
		names := map[string][]string{}
		for _, pk := range p.pkgs {
			if strings.Contains(pk.PkgPath, "/logger") {
				continue
			}
			for _, f := range pk.Syntax {
				name := p.fset.Position(f.Pos()).Filename
				if strings.HasSuffix(name, "_test.go") {
					continue
				}
				var keys []string
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Body == nil {
						continue
					}
					obj, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
					key := pk.Types.Name() + "." + fd.Name.Name
					if obj != nil {
						if sfn := p.ssap.FuncValue(obj); sfn != nil {
							key = funcKey(sfn)
						}
					}
					keys = append(keys, key)
					sites := mutSites(p, pk.TypesInfo, fd)
					if len(sites) == 0 {
						continue
					}
					s := sites[rng.Intn(len(sites))]
					if skip[key] {
						continue
					}
					muts[key] = fmt.Sprintf("%s:%d %s", filepath.Base(name), p.fset.Position(s.pos).Line, s.desc)
					s.do()
				}
				f.Comments = nil
				var b bytes.Buffer
				if err := format.Node(&b, p.fset, f); err != nil {
					fmt.Println("print:", err)
					continue
				}
				rel, _ := filepath.Rel(repo, name)
				o := filepath.Join(out, rel)
				os.WriteFile(o, b.Bytes(), 0o644)
				exec.Command("goimports", "-w", o).Run()
				x, _ := os.ReadFile(o)
				src[rel] = x
				// map lines to functions
				cur := -1
				for i, l := range strings.Split(string(x), "\n") {
					if strings.HasPrefix(l, "func ") {
						cur++
						lines[rel] = append(lines[rel], [2]int{i + 1, 1 << 30})
						if cur < len(keys) {
							names[rel] = append(names[rel], keys[cur])
						}
					}
				}
			}
		}
		cmd := exec.Command("go", "vet", "./...")
		cmd.Env = append(os.Environ(), "GOFLAGS=")
		cmd = exec.Command("go", "build", "-gcflags=-e", "./...")
		cmd.Dir = out
		b, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		re := regexp.MustCompile(`(?m)^(?:vet: )?(\S+\.go):(\d+):`)
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			n, _ := strconv.Atoi(m[2])
			k := ""
			for i, l := range lines[m[1]] {
				if l[0] <= n && i < len(names[m[1]]) {
					k = names[m[1]][i]
				}
			}
			if k != "" {
				skip[k] = true
			} else {
				fmt.Println("unmapped", m[0])
			}
		}
		if attempt == 5 {
			fmt.Println("BUILD FAILS", string(b))
		}
	}
	var ks []string
	for k := range muts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%s\t%s\n", k, muts[k])
	}
}

func mutSites(p *Prog, info *types.Info, fd *ast.FuncDecl) []mutSite {
	var sites []mutSite
	str := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, p.fset, n)
		s := strings.ReplaceAll(b.String(), "\n", " ")
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	add := func(n ast.Node, desc string, do func()) {
		sites = append(sites, mutSite{desc + "  @ " + str(n), n.Pos(), do})
	}
	noMut := map[ast.Node]bool{}
	var stack []ast.Node
	isInt := func(e ast.Expr) bool {
		t := info.TypeOf(e)
		if t == nil {
			return false
		}
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	isLog := func(n ast.Node) bool {
		s := str(n)
		return strings.Contains(s, "logger.") || strings.Contains(s, "fmt.") || strings.Contains(s, "log.")
	}
	// locals by type for identifier replacement
	var locals []*ast.Ident
	ast.Inspect(fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := info.Defs[id].(*types.Var); ok && !v.IsField() && isInt(id) {
				locals = append(locals, id)
			}
		}
		return true
	})
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		var par ast.Node
		if len(stack) > 0 {
			par = stack[len(stack)-1]
		}
		switch x := n.(type) {
		case *ast.ArrayType:
			return false
		case *ast.ExprStmt:
			if isLog(x) {
				return false
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "panic" || id.Name == "make") {
				return false
			}
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.BinaryExpr:
			if noMut[x] {
				break
			}
			m := map[token.Token][]token.Token{
				token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.ADD},
				token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND, token.ADD}, token.XOR: {token.OR},
				token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GEQ}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LEQ},
				token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
			}
			if x.Op <= token.AND_NOT && !isInt(x) {
				break
			}
			if tv := info.Types[x]; tv.Value != nil {
				break
			}
			for _, o := range m[x.Op] {
				o := o
				add(x, fmt.Sprintf("%s->%s", x.Op, o), func() { x.Op = o })
			}
			if (x.Op == token.LAND || x.Op == token.LOR) && par != nil {
				add(x, "drop right operand", func() { x.Y = x.X })
				add(x, "drop left operand", func() { x.X = x.Y })
			}
			if x.Op == token.SUB || x.Op == token.SHL || x.Op == token.SHR {
				if isInt(x.X) && isInt(x.Y) {
					// operand swap
					add(x, "swap operands", func() { x.X, x.Y = &ast.ParenExpr{X: x.Y}, &ast.ParenExpr{X: x.X} })
				}
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err != nil {
					break
				}
				if ix, ok := par.(*ast.IndexExpr); ok && ix.Index == x {
					n := int64(-1)
					t := info.TypeOf(ix.X)
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						t = pt.Elem()
					}
					if at, ok := t.Underlying().(*types.Array); ok {
						n = at.Len()
					}
					if v > 0 {
						add(x, "index-1", func() { x.Value = fmt.Sprint(v - 1) })
					} else if n < 0 || v+1 < n {
						add(x, "index+1", func() { x.Value = fmt.Sprint(v + 1) })
					}
					break
				}
				add(x, "lit+1", func() { x.Value = fmt.Sprint(v + 1) })
				if v > 0 {
					add(x, "lit-1", func() { x.Value = fmt.Sprint(v - 1) })
				}
			}
		case *ast.IfStmt:
			if x.Init == nil {
				add(x.Cond, "negate cond", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
			}
			if x.Else != nil {
				add(x.Cond, "drop else", func() { x.Else = nil })
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				inSwitch := false
				for i := len(stack) - 2; i >= 0; i-- {
					switch stack[i].(type) {
					case *ast.SwitchStmt:
						inSwitch = true
						i = 0
					case *ast.ForStmt:
						i = 0
					}
				}
				if !inSwitch {
					add(x, "break->continue", func() { x.Tok = token.CONTINUE })
				}
			}
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x, "continue->break", func() { x.Tok = token.BREAK })
			}
		case *ast.BlockStmt:
			for i, s := range x.List {
				i := i
				switch s := s.(type) {
				case *ast.ExprStmt:
					if !isLog(s) {
						if c, ok := s.X.(*ast.CallExpr); ok {
							if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
								continue
							}
						}
						add(s, "delete call", func() { x.List[i] = &ast.EmptyStmt{} })
					}
				case *ast.IncDecStmt:
					add(s, "delete incdec", func() { x.List[i] = &ast.EmptyStmt{} })
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s, "delete assign", func() { x.List[i] = &ast.EmptyStmt{} })
					}
				case *ast.IfStmt:
					if s.Else == nil {
						add(s, "delete if", func() { x.List[i] = &ast.EmptyStmt{} })
						add(s, "unconditional", func() { x.List[i] = s.Body })
					}
				}
			}
		case *ast.IndexExpr:
			if y, ok := x.X.(*ast.IndexExpr); ok {
				a, b := info.Types[x.Index], info.Types[y.Index]
				if a.Value == nil && b.Value == nil && isInt(x.Index) && isInt(y.Index) {
					add(x, "swap indices", func() { x.Index, y.Index = y.Index, x.Index })
				}
			}
			if isInt(x.Index) && info.Types[x.Index].Value == nil {
				add(x, "index e+1", func() {
					x.Index = &ast.BinaryExpr{X: x.Index, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
				})
			}
		case *ast.SelectorExpr:
			sel, ok := info.Selections[x]
			if !ok || sel.Kind() != types.FieldVal {
				break
			}
			t := sel.Recv()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok || len(sel.Index()) != 1 {
				break
			}
			for i := 0; i < st.NumFields(); i++ {
				if i == sel.Index()[0] || !types.Identical(st.Field(i).Type(), st.Field(sel.Index()[0]).Type()) || !st.Field(i).Exported() {
					continue
				}
				d := i - sel.Index()[0]
				if d < -3 || d > 3 {
					continue
				}
				nm := st.Field(i).Name()
				add(x, "field->"+nm, func() { x.Sel = ast.NewIdent(nm) })
			}
		case *ast.Ident:
			v, ok := info.Uses[x].(*types.Var)
			if !ok || v.IsField() || !isInt(x) || v.Parent() == nil || v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				break
			}
			if _, ok := par.(*ast.IncDecStmt); ok {
				break
			}
			for _, l := range locals {
				lv := info.Defs[l].(*types.Var)
				if lv == v || !types.Identical(lv.Type(), v.Type()) || lv.Parent() == nil {
					continue
				}
				if !lv.Parent().Contains(x.Pos()) || lv.Pos() > x.Pos() {
					continue
				}
				nm := l.Name
				if sc := lv.Parent().Innermost(x.Pos()); sc != nil {
					if _, o := sc.LookupParent(nm, x.Pos()); o != types.Object(lv) {
						continue
					}
				}
				add(x, x.Name+"->"+nm, func() { x.Name = nm })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, "drop !", func() { x.Op = token.NOT; x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
			if x.Op == token.SUB && isInt(x.X) && info.Types[x].Value == nil {
				add(x, "drop -", func() { x.Op = token.ADD })
			}
		}
		return true
	})
	return sites
}

// cmdTables prints every constant table of a tree as JSON.
func cmdTables(dir string) {
	p := must(loadProg("x", dir))
	var rec func(t *Table) string
	rec = func(t *Table) string {
		if !t.isArr {
			return t.hash
		}
		var r []string
		for _, e := range t.elems {
			r = append(r, rec(e))
		}
		return "[" + strings.Join(r, ",") + "]"
	}
	for _, n := range sortedKeys(tabNames(p.tables)) {
		fmt.Printf("%s\t%s\n", n, rec(p.tables[n]))
	}
}
