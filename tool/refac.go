package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// Development aid (never run by a check): rewrites a copy of the repository
// with one behaviour-preserving transformation applied at every place it can
// be, to measure how far the comparison is independent of how code is written.

type refac struct {
	p                  *Prog
	info               *types.Info
	pkg                *types.Package
	kind               string
	n                  int
	fn                 *ast.FuncDecl
	add                []ast.Decl
	src                map[*ast.File]bool
	every, phase, site int
}

func cmdRefac(repo, kind, out string, every, phase int) {
	p := must(loadProg("repo", repo))
	r := &refac{p: p, kind: kind, every: every, phase: phase}
	for _, pk := range p.pkgs {
		if strings.Contains(pk.PkgPath, "/logger") {
			continue
		}
		r.info, r.pkg = pk.TypesInfo, pk.Types
		for _, f := range pk.Syntax {
			name := p.fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			r.add = nil
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					r.fn = fd
					r.apply(fd)
				}
			}
			f.Comments = nil
			var b bytes.Buffer
			if err := format.Node(&b, p.fset, f); err != nil {
				fmt.Println("print:", err)
				continue
			}
			for _, d := range r.add {
				b.WriteString("\n\n")
				format.Node(&b, token.NewFileSet(), d)
			}
			rel, _ := filepath.Rel(repo, name)
			src, err := format.Source(b.Bytes())
			if err != nil {
				src = b.Bytes()
			}
			os.WriteFile(filepath.Join(out, rel), src, 0o644)
		}
	}
	fmt.Println(kind, "sites:", r.n)
}

func (r *refac) take() bool {
	r.site++
	if r.every > 1 && r.site%r.every != r.phase {
		return false
	}
	r.n++
	return true
}

func (r *refac) tmp() string { return fmt.Sprintf("rf%d", r.n) }

func not(x ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x}}
}

func (r *refac) hasCall(n ast.Node) bool {
	c := false
	ast.Inspect(n, func(x ast.Node) bool {
		if ce, ok := x.(*ast.CallExpr); ok {
			if tv, ok := r.info.Types[ce.Fun]; ok && tv.IsType() {
				return true
			}
			if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "len" {
				return true
			}
			c = true
		}
		return true
	})
	return c
}

func hasBranch(n ast.Node) bool {
	c := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt, *ast.FuncLit:
			c = true
		}
		return true
	})
	return c
}

func hasContinue(n ast.Node) bool {
	c := false
	ast.Inspect(n, func(x ast.Node) bool {
		if b, ok := x.(*ast.BranchStmt); ok && b.Tok != token.BREAK {
			c = true
		}
		return true
	})
	return c
}

func endsReturn(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	_, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
	return ok
}

// freeVars: local variables (not package level) used in n but declared outside it.
func (r *refac) freeVars(n ast.Node) (vars []*types.Var, assigned map[*types.Var]bool) {
	assigned = map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok {
			if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Scope() && v.Pkg() == r.pkg {
				if (v.Pos() < n.Pos() || v.Pos() >= n.End()) && !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			}
		}
		return true
	})
	root := func(e ast.Expr) *types.Var {
		for {
			switch y := e.(type) {
			case *ast.Ident:
				v, _ := r.info.Uses[y].(*types.Var)
				return v
			case *ast.SelectorExpr:
				if t := r.info.Types[y.X].Type; t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return nil
					}
				}
				e = y.X
			case *ast.IndexExpr:
				if t := r.info.Types[y.X].Type; t != nil {
					if _, ok := t.Underlying().(*types.Array); !ok {
						return nil
					}
				}
				e = y.X
			case *ast.ParenExpr:
				e = y.X
			default:
				return nil
			}
		}
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if v := root(l); v != nil {
					assigned[v] = true
				}
			}
		case *ast.IncDecStmt:
			if v := root(s.X); v != nil {
				assigned[v] = true
			}
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				if v := root(s.X); v != nil {
					assigned[v] = true
				}
			}
		case *ast.CallExpr: // method call on addressable value with pointer receiver
			if se, ok := s.Fun.(*ast.SelectorExpr); ok {
				if sel := r.info.Selections[se]; sel != nil {
					if f, ok := sel.Obj().(*types.Func); ok {
						if rv := f.Type().(*types.Signature).Recv(); rv != nil {
							if _, ptr := rv.Type().(*types.Pointer); ptr {
								if v := root(se.X); v != nil {
									if _, isp := v.Type().Underlying().(*types.Pointer); !isp {
										assigned[v] = true
									}
								}
							}
						}
					}
				}
			}
		case *ast.SliceExpr:
			if t := r.info.Types[s.X].Type; t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					if v := root(s.X); v != nil {
						assigned[v] = true
					}
				}
			}
		}
		return true
	})
	return
}

func (r *refac) typeExpr(t types.Type) (ast.Expr, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		return p.Name()
	})
	return ast.NewIdent(s), ok
}

func usesNames(n ast.Node, names map[string]bool) bool {
	c := false
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && names[id.Name] {
			c = true
		}
		return true
	})
	return c
}

// helper makes a new function with the free variables as parameters.
func (r *refac) helper(vars []*types.Var, res ast.Expr, body []ast.Stmt) (ast.Expr, []ast.Expr) {
	name := fmt.Sprintf("refacHelper%s%d", strings.ReplaceAll(r.fn.Name.Name, "_", ""), r.n)
	ps := &ast.FieldList{}
	var args []ast.Expr
	for _, v := range vars {
		te, _ := r.typeExpr(v.Type())
		ps.List = append(ps.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: te})
		args = append(args, ast.NewIdent(v.Name()))
	}
	ft := &ast.FuncType{Params: ps}
	if res != nil {
		ft.Results = &ast.FieldList{List: []*ast.Field{{Type: res}}}
	}
	// print the body now: positions of moved nodes confuse the printer
	var b bytes.Buffer
	format.Node(&b, r.p.fset, &ast.BlockStmt{List: body})
	r.add = append(r.add, &ast.FuncDecl{Name: ast.NewIdent(name), Type: ft, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: ast.NewIdent(b.String())}}}})
	return ast.NewIdent(name), args
}

func (r *refac) apply(fd *ast.FuncDecl) {
	pre := func(c *astutil.Cursor) bool {
		n := c.Node()
		switch r.kind {
		case "tempcond": // if cond -> b := cond; if b
			if s, ok := n.(*ast.IfStmt); ok && s.Init == nil {
				if _, isElse := c.Parent().(*ast.IfStmt); isElse {
					return true
				}
				if r.take() {
					t := r.tmp()
					c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}})
					s.Cond = ast.NewIdent(t)
				}
			}
		case "extractstmts": // maximal runs of plain statements -> helper
		}
		return true
	}
	post := func(c *astutil.Cursor) bool {
		n := c.Node()
		switch r.kind {
		case "invert":
			if s, ok := n.(*ast.IfStmt); ok && s.Else != nil {
				if e, ok := s.Else.(*ast.BlockStmt); ok && r.take() {
					s.Cond = not(s.Cond)
					s.Body, s.Else = e, s.Body
				}
			}
		case "flipcmp":
			if b, ok := n.(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
				if o, ok := m[b.Op]; ok && !r.hasCall(b) && r.take() {
					b.X, b.Y, b.Op = b.Y, b.X, o
				}
			}
		case "notcmp": // a<b -> !(a>=b)
			if b, ok := n.(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
				if o, ok := m[b.Op]; ok && r.take() {
					c.Replace(not(&ast.BinaryExpr{X: b.X, Op: o, Y: b.Y}))
				}
			}
		case "offbyone": // a<b -> a<=b-1
			if b, ok := n.(*ast.BinaryExpr); ok {
				if t, ok := r.info.Types[b.X].Type.(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
					if b.Op == token.LSS && r.take() {
						b.Op = token.LEQ
						b.Y = &ast.BinaryExpr{X: &ast.ParenExpr{X: b.Y}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
					} else if b.Op == token.GEQ && r.take() {
						b.Op = token.GTR
						b.Y = &ast.BinaryExpr{X: &ast.ParenExpr{X: b.Y}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
					}
				}
			}
		case "demorgan":
			if b, ok := n.(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.LAND: token.LOR, token.LOR: token.LAND}
				if o, ok := m[b.Op]; ok && r.take() {
					c.Replace(not(&ast.BinaryExpr{X: not(b.X), Op: o, Y: not(b.Y)}))
				}
			}
		case "commute":
			if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.ADD || b.Op == token.MUL || b.Op == token.AND || b.Op == token.OR) && !r.hasCall(b) {
				if t, ok := r.info.Types[b].Type.(*types.Basic); ok && t.Info()&types.IsInteger != 0 && r.take() {
					b.X, b.Y = &ast.ParenExpr{X: b.Y}, &ast.ParenExpr{X: b.X}
				}
			}
		case "shift": // x*2^k <-> x<<k
			if b, ok := n.(*ast.BinaryExpr); ok && b.Op == token.SHL {
				if tv := r.info.Types[b]; tv.Value == nil && r.take() {
					c.Replace(&ast.BinaryExpr{X: &ast.ParenExpr{X: b.X}, Op: token.MUL, Y: &ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.BasicLit{Kind: token.INT, Value: "1"}, Op: token.SHL, Y: &ast.ParenExpr{X: b.Y}}}})
				}
			} else if ok && b.Op == token.MUL {
				if tv := r.info.Types[b.X]; tv.Value != nil && tv.Value.String() == "2" && r.info.Types[b].Value == nil && r.take() {
					c.Replace(&ast.ParenExpr{X: &ast.BinaryExpr{X: &ast.ParenExpr{X: b.Y}, Op: token.SHL, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}})
				}
			}
		case "tmp":
			if s, ok := n.(*ast.AssignStmt); ok && s.Tok == token.ASSIGN && len(s.Lhs) == 1 && c.Index() >= 0 {
				if r.hasCall(s.Lhs[0]) || r.info.Types[s.Rhs[0]].Value != nil || r.info.Types[s.Rhs[0]].IsNil() {
					return true
				}
				if r.take() {
					t := r.tmp()
					c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: s.Rhs})
					s.Rhs = []ast.Expr{ast.NewIdent(t)}
				}
			}
		case "opassign":
			switch s := n.(type) {
			case *ast.AssignStmt:
				ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}
				if o, ok := ops[s.Tok]; ok && !r.hasCall(s.Lhs[0]) && r.take() {
					s.Tok = token.ASSIGN
					s.Rhs = []ast.Expr{&ast.BinaryExpr{X: s.Lhs[0], Op: o, Y: &ast.ParenExpr{X: s.Rhs[0]}}}
				}
			case *ast.IncDecStmt:
				if !r.hasCall(s.X) && r.take() {
					o := token.ADD
					if s.Tok == token.DEC {
						o = token.SUB
					}
					c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: o, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
				}
			}
		case "while":
			if s, ok := n.(*ast.ForStmt); ok && s.Init != nil && s.Post != nil && !hasContinue(s.Body) && c.Index() >= 0 && r.take() {
				blk := &ast.BlockStmt{List: []ast.Stmt{s.Init, &ast.ForStmt{Cond: s.Cond, Body: &ast.BlockStmt{List: append(append([]ast.Stmt{}, s.Body.List...), s.Post)}}}}
				c.Replace(blk)
			}
		case "breakloop":
			if s, ok := n.(*ast.ForStmt); ok && s.Cond != nil && r.take() {
				s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
				s.Cond = nil
			}
		case "countdown": // for i:=0;i<n;i++ -> for k:=n; k>0; k-- { i := n-k ...}
		case "shiftloop": // for i := a; i < b; i++ {..i..} -> for k := 0; k < b-a; k++ { i := a+k }
			if s, ok := n.(*ast.ForStmt); ok && s.Init != nil && s.Cond != nil && s.Post != nil {
				as, ok1 := s.Init.(*ast.AssignStmt)
				cb, ok2 := s.Cond.(*ast.BinaryExpr)
				inc, ok3 := s.Post.(*ast.IncDecStmt)
				if ok1 && ok2 && ok3 && len(as.Lhs) == 1 && cb.Op == token.LSS && inc.Tok == token.INC {
					id, ok := as.Lhs[0].(*ast.Ident)
					if !ok || as.Tok != token.DEFINE {
						return true
					}
					if x, ok := cb.X.(*ast.Ident); !ok || x.Name != id.Name {
						return true
					}
					_, asg := r.freeVars(s.Body)
					v, _ := r.info.Defs[id].(*types.Var)
					if v == nil || asg[v] || r.hasCall(as.Rhs[0]) || r.hasCall(cb.Y) {
						return true
					}
					if _, isId := as.Rhs[0].(*ast.BasicLit); !isId {
						return true
					}
					if r.take() {
						k := r.tmp()
						one := &ast.BasicLit{Kind: token.INT, Value: "1"}
						s.Init = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(k)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: as.Rhs[0], Op: token.ADD, Y: one}}}
						s.Cond = &ast.BinaryExpr{X: ast.NewIdent(k), Op: token.LEQ, Y: cb.Y}
						s.Post = &ast.IncDecStmt{X: ast.NewIdent(k), Tok: token.INC}
						s.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(k), Op: token.SUB, Y: one}}},
							&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}}}, s.Body.List...)
					}
				}
			}
		case "range": // for i := 0; i < CONST; i++ over constant bounds -> for i := range [CONST]struct{}{}
			if s, ok := n.(*ast.ForStmt); ok && s.Init != nil && s.Cond != nil && s.Post != nil {
				as, ok1 := s.Init.(*ast.AssignStmt)
				cb, ok2 := s.Cond.(*ast.BinaryExpr)
				inc, ok3 := s.Post.(*ast.IncDecStmt)
				if ok1 && ok2 && ok3 && len(as.Lhs) == 1 && cb.Op == token.LSS && inc.Tok == token.INC && as.Tok == token.DEFINE {
					id := as.Lhs[0].(*ast.Ident)
					if x, ok := cb.X.(*ast.Ident); !ok || x.Name != id.Name {
						return true
					}
					v, _ := r.info.Defs[id].(*types.Var)
					_, asg := r.freeVars(s.Body)
					tv := r.info.Types[cb.Y]
					z := r.info.Types[as.Rhs[0]]
					if v == nil || asg[v] || tv.Value == nil || z.Value == nil || z.Value.String() != "0" || !r.take() {
						return true
					}
					key := id
					used := false
					ast.Inspect(s.Body, func(x ast.Node) bool {
						if i, ok := x.(*ast.Ident); ok && r.info.Uses[i] == v {
							used = true
						}
						return true
					})
					if !used {
						key = ast.NewIdent("_")
					}
					tok := token.DEFINE
					if !used {
						tok = token.ASSIGN
					}
					c.Replace(&ast.RangeStmt{Key: key, Tok: tok, X: ast.NewIdent("[" + tv.Value.String() + "]struct{}{}"), Body: s.Body})
				}
			}
		case "extractbody": // loop or if body -> helper function
			var blk *ast.BlockStmt
			switch s := n.(type) {
			case *ast.ForStmt:
				blk = s.Body
			case *ast.IfStmt:
				blk = s.Body
			}
			if blk == nil || len(blk.List) < 2 || hasBranch(blk) {
				return true
			}
			if blk.Pos() == token.NoPos || r.touched(blk) {
				return true
			}
			vars, asg := r.freeVars(blk)
			for _, v := range vars {
				if asg[v] {
					return true
				}
			}
			if r.take() {
				f, args := r.helper(vars, nil, blk.List)
				blk.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: f, Args: args}}}
			}
		case "extractcond": // if condition -> boolean helper
			if s, ok := n.(*ast.IfStmt); ok && s.Init == nil {
				if r.info.Types[s.Cond].Value != nil {
					return true
				}
				if _, ok := s.Cond.(*ast.BinaryExpr); !ok {
					return true
				}
				vars, asg := r.freeVars(s.Cond)
				if len(asg) > 0 || r.hasLit(s.Cond) || fd.Type.TypeParams != nil {
					return true
				}
				if r.take() {
					f, args := r.helper(vars, ast.NewIdent("bool"), []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{s.Cond}}})
					s.Cond = &ast.CallExpr{Fun: f, Args: args}
				}
			}
		case "extractexpr": // right-hand side -> helper
			if s, ok := n.(*ast.AssignStmt); ok && len(s.Lhs) == 1 && len(s.Rhs) == 1 && (s.Tok == token.ASSIGN || s.Tok == token.DEFINE) && !r.hasCall(s.Lhs[0]) {
				tv := r.info.Types[s.Rhs[0]]
				if tv.Value != nil || tv.Type == nil || tv.IsNil() || r.hasLit(s.Rhs[0]) {
					return true
				}
				if b, ok := tv.Type.(*types.Basic); !ok || b.Info()&types.IsUntyped != 0 {
					return true
				}
				vars, asg := r.freeVars(s.Rhs[0])
				if len(asg) > 0 || len(vars) == 0 {
					return true
				}
				if r.take() {
					te, _ := r.typeExpr(tv.Type)
					f, args := r.helper(vars, te, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{s.Rhs[0]}}})
					s.Rhs = []ast.Expr{&ast.CallExpr{Fun: f, Args: args}}
				}
			}
		case "swap": // adjacent independent assignments
			if b, ok := n.(*ast.BlockStmt); ok {
				r.swap(b.List)
			}
			if b, ok := n.(*ast.CaseClause); ok {
				r.swap(b.Body)
			}
		case "switch":
			if s, ok := n.(*ast.IfStmt); ok && s.Else != nil && s.Init == nil && c.Index() >= 0 && !hasBreak(s) {
				if _, isElse := c.Parent().(*ast.IfStmt); isElse {
					return true
				}
				if r.take() {
					sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
					var cur ast.Stmt = s
					for cur != nil {
						if i, ok := cur.(*ast.IfStmt); ok && i.Init == nil {
							sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{i.Cond}, Body: i.Body.List})
							cur = i.Else
							continue
						}
						body := []ast.Stmt{cur}
						if bl, ok := cur.(*ast.BlockStmt); ok {
							body = bl.List
						}
						sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
						cur = nil
					}
					c.Replace(sw)
				}
			}
		case "flattenelse", "nestelse", "guard":
			if b, ok := n.(*ast.BlockStmt); ok {
				b.List = r.ret(b.List, b == fd.Body)
			}
		case "ifexpr": // if c {x=a} else {x=b} -> x=b; if c {x=a}
			if s, ok := n.(*ast.IfStmt); ok && s.Init == nil && s.Else != nil && c.Index() >= 0 && len(s.Body.List) == 1 {
				e, ok := s.Else.(*ast.BlockStmt)
				if !ok || len(e.List) != 1 || r.hasCall(s.Cond) {
					return true
				}
				x, ok1 := s.Body.List[0].(*ast.AssignStmt)
				y, ok2 := e.List[0].(*ast.AssignStmt)
				if !ok1 || !ok2 || x.Tok != token.ASSIGN || y.Tok != token.ASSIGN || len(x.Lhs) != 1 || len(y.Lhs) != 1 {
					return true
				}
				if types.ExprString(x.Lhs[0]) != types.ExprString(y.Lhs[0]) || r.hasCall(x) || r.hasCall(y) {
					return true
				}
				nm := r.names(x.Lhs[0])
				if len(nm) == 0 {
					return true
				}
				last := nm[len(nm)-1]
				if usesNames(s.Cond, map[string]bool{last: true}) || usesNames(x.Rhs[0], map[string]bool{last: true}) {
					return true
				}
				if r.take() {
					c.InsertBefore(y)
					s.Else = nil
				}
			}
		case "hoist": // repeated pure selector sub-expression in one condition: skip
		case "closure": // if body -> func(){...}()
			if s, ok := n.(*ast.IfStmt); ok && len(s.Body.List) >= 2 && !hasBranch(s.Body) && r.take() {
				s.Body.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: s.Body.List}}}}}
			}
		case "splitif": // if a && b -> if a { if b }
			if s, ok := n.(*ast.IfStmt); ok && s.Else == nil && s.Init == nil {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && r.take() {
					s.Cond = b.X
					s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
				}
			}
		case "dead":
			if b, ok := n.(*ast.BlockStmt); ok && len(b.List) > 0 && r.take() {
				b.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("0")}}}, b.List...)
			}
		}
		return true
	}
	astutil.Apply(fd, pre, post)
}

func (r *refac) hasLit(n ast.Node) bool {
	c := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			c = true
		}
		return true
	})
	return c
}

// touched: the block already holds an extracted call (positions unreliable).
func (r *refac) touched(b *ast.BlockStmt) bool {
	c := false
	ast.Inspect(b, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && strings.HasPrefix(id.Name, "refacHelper") {
			c = true
		}
		return true
	})
	return c
}

func hasBreak(n ast.Node) bool {
	c := false
	ast.Inspect(n, func(x ast.Node) bool {
		if b, ok := x.(*ast.BranchStmt); ok && b.Tok == token.BREAK {
			c = true
		}
		return true
	})
	return c
}

func (r *refac) names(n ast.Node) []string {
	var out []string
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok {
			if v, ok := r.info.Uses[id].(*types.Var); ok && v != nil {
				out = append(out, id.Name)
			}
		}
		return true
	})
	return out
}

// target: the field or variable written (last selector name).
func target(e ast.Expr) string {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name
		case *ast.SelectorExpr:
			return x.Sel.Name
		case *ast.IndexExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return ""
		}
	}
}

func (r *refac) swap(l []ast.Stmt) {
	for i := 0; i+1 < len(l); i++ {
		x, ok1 := l[i].(*ast.AssignStmt)
		y, ok2 := l[i+1].(*ast.AssignStmt)
		if !ok1 || !ok2 || len(x.Lhs) != 1 || len(y.Lhs) != 1 || r.hasCall(x) && r.hasCall(y) {
			continue
		}
		if r.hasCall(x) || r.hasCall(y) {
			continue
		}
		tx, ty := target(x.Lhs[0]), target(y.Lhs[0])
		if tx == "" || ty == "" || tx == ty || tx == "_" || ty == "_" {
			continue
		}
		if usesNames(y, map[string]bool{tx: true}) || usesNames(x, map[string]bool{ty: true}) {
			continue
		}
		if r.take() {
			l[i], l[i+1] = l[i+1], l[i]
			i++
		}
	}
}

func (r *refac) ret(l []ast.Stmt, top bool) []ast.Stmt {
	for i, st := range l {
		s, ok := st.(*ast.IfStmt)
		if !ok {
			continue
		}
		switch r.kind {
		case "nestelse": // if c {..return} rest -> if c {...return} else {rest}
			if s.Else == nil && endsReturn(s.Body) && i+1 < len(l) && r.take() {
				rest := append([]ast.Stmt{}, l[i+1:]...)
				s.Else = &ast.BlockStmt{List: rest}
				l = l[:i+1]
				if top && r.fn.Type.Results != nil {
					l = append(l, &ast.ExprStmt{X: ast.NewIdent(`panic("unreachable")`)})
				}
				return l
			}
		case "flattenelse":
			if e, ok := s.Else.(*ast.BlockStmt); ok && endsReturn(s.Body) && r.take() {
				s.Else = nil
				l = append(append(append([]ast.Stmt{}, l[:i+1]...), e.List...), l[i+1:]...)
				return l
			}
		case "guard":
			if top && s.Else == nil && s.Init == nil && i == len(l)-1 && r.fn.Type.Results == nil && r.take() {
				l = append(append(append([]ast.Stmt{}, l[:i]...), &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{}}}}), s.Body.List...)
				return l
			}
		}
	}
	return l
}
