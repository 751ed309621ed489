package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summary of a function treated as opaque at call sites: which cells it reads
// and writes, relative to its parameters.
type Summary struct {
	key   string
	refs  []sumRef
	mods  []sumRef
	rets  int
	trap  bool
	retT  []types.Type
	valid bool
}

type sumRef struct {
	name  string
	param int // -1 for globals
	path  []pathElem
	typ   types.Type
	slice bool   // contents of slice parameter
	value bool   // by-value parameter (path = fields)
	glob  string // global
}

func (e *Evaluator) call(f *fctx, c *ssa.Call, st *State, P *Term) (*State, *Term, *Term, bool) {
	A := e.A
	cc := c.Common()
	// builtins
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f.env[c] = e.builtin(f, c, b.Name(), st, P)
		return st, P, A.F, false
	}
	if cc.IsInvoke() {
		f.env[c] = A.Sym(fmt.Sprintf("invoke:%s", cc.Method.FullName()), kindOf(c.Type()))
		return st, P, A.F, false
	}
	args := make([]*Term, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = e.val(f, a)
	}
	callee := cc.StaticCallee()
	var binds []*Term
	if callee == nil || callee.Signature.Recv() == nil && len(callee.FreeVars) > 0 {
		fv := e.val(f, cc.Value)
		if fv.op == OClosure {
			callee = fv.fn.(*ssa.Function)
			binds = fv.args
		} else if callee == nil {
			f.env[c] = e.un(c, "call of unresolved function value")
			return st, P, A.F, false
		}
	}
	if !e.prog.inModule(callee) || isLogPkg(pkgPathOf(callee)) {
		f.env[c] = e.external(f, c, callee, args, st, P)
		return st, P, A.F, false
	}
	if sum, name := e.cutOf(callee); sum != nil {
		e.opaqueC[name]++
		return e.opaque(f, c, callee, sum, name, args, st, P)
	}
	e.inlined[callee.String()] = true
	key := fmt.Sprintf("%s/%d.%s", f.key, c.Block().Index, c.Name())
	if symmetric[funcKey(callee)] && args[0].id > args[1].id {
		args[0], args[1] = args[1], args[0]
	}
	vals, nst, np, trap := e.CallFn(callee, args, binds, st, P, key)
	if nst == nil || np == A.F {
		return st, A.F, trap, true
	}
	switch len(vals) {
	case 0:
		f.env[c] = A.Str("void")
	case 1:
		f.env[c] = vals[0]
	default:
		f.env[c] = A.mk(&Term{op: OTuple, args: vals, kind: 'o'})
	}
	return nst, np, trap, false
}

func (e *Evaluator) builtin(f *fctx, c *ssa.Call, name string, st *State, P *Term) *Term {
	A := e.A
	args := c.Call.Args
	switch name {
	case "len", "cap":
		v := e.val(f, args[0])
		if b, ok := args[0].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return A.Fn("strlen", 'i', v)
		}
		if at, ok := args[0].Type().Underlying().(*types.Array); ok {
			return A.Int(at.Len())
		}
		if pt, ok := args[0].Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return A.Int(at.Len())
			}
		}
		return A.Len(e.contentOf(st, v))
	case "append":
		x := e.contentOf(st, e.val(f, args[0]))
		y := e.contentOf(st, e.val(f, args[1]))
		if x.op == OStr && x.s == "nil" {
			x = A.Zero(A.Int(0), c.Type().Underlying().(*types.Slice).Elem())
		}
		return e.newTemp(f, c, "p", st, A.Append(x, y))
	case "copy":
		dst := e.asSlice(e.val(f, args[0]))
		src := e.contentOf(st, e.val(f, args[1]))
		n := A.Int(0)
		e.places(dst, A.T, func(g *Term, p *Place, lo *Term) {
			d := e.contentOf(st, A.mk(&Term{op: OSlice, place: p, kind: 'o'}))
			ld := A.Len(e.contentOf(st, dst))
			ls := A.Len(src)
			n = A.Ite(A.Le(ld, ls), ld, ls)
			var nc *Term
			if lo == nil && ld == ls {
				nc = src
			} else {
				l := lo
				if l == nil {
					l = A.Int(0)
				}
				nc = A.mk(&Term{op: OFn, s: "copy", args: []*Term{d, l, n, src}, kind: 'o'})
			}
			if g != A.T {
				nc = A.Ite(g, nc, d)
			}
			e.writeContent(st, p, nc, P)
		})
		return n
	case "min", "max":
		r := e.val(f, args[0])
		for _, a := range args[1:] {
			y := e.val(f, a)
			if name == "min" {
				r = A.Ite(A.Le(r, y), r, y)
			} else {
				r = A.Ite(A.Le(y, r), r, y)
			}
		}
		return r
	case "print", "println":
		return A.Str("void")
	case "ssa:wrapnilchk":
		return e.val(f, args[0])
	}
	return e.un(c, "builtin "+name)
}

func (e *Evaluator) writeContent(st *State, p *Place, c *Term, P *Term) {
	p = e.resolveAlias(st, p)
	e.note(p, contentType)
	if p.agg {
		if len(p.path) == 0 && len(p.idx) == 0 {
			e.setCell(st, p, c)
			return
		}
		old := e.get(st, p, p.rootT)
		e.setCell(st, p, e.setIn(old, p.rootT, p.path, p.idx, c))
		return
	}
	if len(p.idx) > 0 {
		old := e.get(st, p, contentType)
		e.setCell(st, p, e.A.Upd(old, p.idx, c))
		return
	}
	e.setCell(st, p, c)
}

// external models calls that leave the module.
func (e *Evaluator) external(f *fctx, c *ssa.Call, callee *ssa.Function, args []*Term, st *State, P *Term) *Term {
	A := e.A
	pkg := ""
	if callee.Pkg != nil {
		pkg = callee.Pkg.Pkg.Path()
	} else if callee.Object() != nil && callee.Object().Pkg() != nil {
		pkg = callee.Object().Pkg().Path()
	}
	if isLogPkg(pkg) {
		return e.voidOf(c)
	}
	full := callee.String()
	switch full {
	case "sort.Ints":
		s := e.asSlice(args[0])
		e.places(s, A.T, func(g *Term, p *Place, lo *Term) {
			whole := e.contentOf(st, A.mk(&Term{op: OSlice, place: p, kind: 'o'}))
			part := e.contentOf(st, args[0])
			srt := A.Fn("sorted", 'o', part)
			nc := srt
			if part != whole {
				nc = A.mk(&Term{op: OFn, s: "splice", args: []*Term{whole, lo, srt}, kind: 'o'})
			}
			e.writeContent(st, p, nc, P)
		})
		return A.Str("void")
	}
	as := make([]*Term, len(args))
	for i, x := range args {
		as[i] = e.contentOf(st, x)
	}
	if strings.HasPrefix(full, "math/bits.Len") {
		return A.Fn("ext:bits.Len", 'i', as...)
	}
	k := byte('o')
	if c.Type() != nil {
		if tup, ok := c.Type().(*types.Tuple); ok {
			var vs []*Term
			for i := 0; i < tup.Len(); i++ {
				vs = append(vs, A.Fn(fmt.Sprintf("ext:%s#%d", full, i), kindOf(tup.At(i).Type()), as...))
			}
			return A.mk(&Term{op: OTuple, args: vs, kind: 'o'})
		}
		k = kindOf(c.Type())
	}
	return A.Fn("ext:"+full, k, as...)
}

func (e *Evaluator) voidOf(c *ssa.Call) *Term {
	if tup, ok := c.Type().(*types.Tuple); ok && tup.Len() > 0 {
		var vs []*Term
		for i := 0; i < tup.Len(); i++ {
			vs = append(vs, e.A.Sym("log", kindOf(tup.At(i).Type())))
		}
		return e.A.mk(&Term{op: OTuple, args: vs, kind: 'o'})
	}
	return e.A.Str("log")
}

func isLogPkg(p string) bool {
	return p == "log" || p == "fmt" || p == "log/slog" || strings.HasPrefix(p, "go.uber.org/zap") || p == modPath+"/internal/logger" || p == "errors"
}

// argPlace resolves parameter-relative path to (guarded) places in the caller.
func (e *Evaluator) argPlaces(st *State, arg *Term, r *sumRef, P *Term, fn func(g *Term, p *Place, lo *Term)) bool {
	A := e.A
	if r.slice {
		return e.places(e.asSlice(arg), A.T, fn)
	}
	var follow func(v *Term, g *Term, path []pathElem) bool
	follow = func(v *Term, g *Term, path []pathElem) bool {
		ok := true
		r := e.places(v, g, func(g2 *Term, p *Place, lo *Term) {
			q := p
			for i, el := range path {
				if el.deref {
					ptr := e.load(st, q, types.NewPointer(el.typ), P)
					ok = follow(ptr, g2, path[i+1:]) && ok
					return
				}
				q = q.fieldN(e.prog.localType(el.st), el.name, e.prog.localFieldType(el.st, el.name))
			}
			fn(g2, q, nil)
		})
		return ok && r
	}
	return follow(arg, A.T, r.path)
}

func (e *Evaluator) opaque(f *fctx, c *ssa.Call, callee *ssa.Function, sum *Summary, name string, args []*Term, st *State, P *Term) (*State, *Term, *Term, bool) {
	A := e.A
	// pointer arguments that may denote several places: one call per place
	for i, a := range args {
		if a.op == OIte && a.kind == 'o' && e.isRefTerm(a) {
			return e.opaqueSplit(f, c, callee, sum, name, args, i, st, P)
		}
	}
	cargs := make([]*Term, 0, len(sum.refs))
	for i := range sum.refs {
		r := &sum.refs[i]
		var v *Term
		switch {
		case r.glob != "":
			p := &Place{root: "G:" + r.glob, rootT: r.typ}
			for _, el := range r.path {
				p = p.fieldN(e.prog.localType(el.st), el.name, e.prog.localFieldType(el.st, el.name))
			}
			e.note(p, r.typ)
			v = e.contentOf(st, e.load(st, p, r.typ, P))
		case r.value:
			v = args[r.param]
			for _, el := range r.path {
				v = A.FieldName(v, e.prog.localType(el.st), el.name)
			}
			v = e.contentOf(st, v)
		case r.slice:
			v = e.contentOf(st, args[r.param])
		default:
			t := e.prog.localTypeOf(r)
			ok := e.argPlaces(st, args[r.param], r, P, func(g *Term, p *Place, lo *Term) {
				e.note(p, t)
				x := e.contentOf(st, e.load(st, p, t, P))
				if v == nil {
					v = x
				} else {
					v = A.Ite(g, x, v)
				}
			})
			if !ok || v == nil {
				v = e.un(c, "unresolved argument "+r.name+" of "+name)
			}
		}
		cargs = append(cargs, A.Constrain(v, P))
	}
	call := A.Call(name, cargs)
	for i := range sum.mods {
		r := &sum.mods[i]
		kind := byte('o')
		var t types.Type = contentType
		if !r.slice {
			t = e.prog.localTypeOf(r)
			kind = kindOf(t)
		}
		var ot types.Type
		if kind == 'i' {
			ot = t
		}
		out := A.Out(call, r.name, kind, ot)
		switch {
		case r.glob != "":
			p := &Place{root: "G:" + r.glob, rootT: r.typ}
			for _, el := range r.path {
				p = p.fieldN(e.prog.localType(el.st), el.name, e.prog.localFieldType(el.st, el.name))
			}
			e.note(p, r.typ)
			e.store(st, p, out, r.typ, P, c.Pos())
		default:
			e.argPlaces(st, args[r.param], r, P, func(g *Term, p *Place, lo *Term) {
				if r.slice {
					nc := out
					if lo != nil {
						whole := e.contentOf(st, A.mk(&Term{op: OSlice, place: p, kind: 'o'}))
						nc = A.mk(&Term{op: OFn, s: "splice", args: []*Term{whole, lo, out}, kind: 'o'})
					}
					e.writeContent(st, p, nc, P)
					return
				}
				e.note(p, t)
				v := out
				if g != A.T {
					v = A.Ite(g, out, e.contentOf(st, e.load(st, p, t, P)))
				}
				e.store(st, p, v, t, P, c.Pos())
			})
		}
	}
	res := callee.Signature.Results()
	mkRet := func(i int) *Term {
		t := res.At(i).Type()
		o := A.Out(call, fmt.Sprintf("r%d", i), kindOf(t), t)
		if _, ok := t.Underlying().(*types.Slice); ok {
			return e.newTemp(f, c, fmt.Sprintf("r%d", i), st, o)
		}
		return o
	}
	switch res.Len() {
	case 0:
		f.env[c] = A.Str("void")
	case 1:
		f.env[c] = mkRet(0)
	default:
		var vs []*Term
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, mkRet(i))
		}
		f.env[c] = A.mk(&Term{op: OTuple, args: vs, kind: 'o'})
	}
	tr := A.F
	if sum.trap {
		tr = A.And(P, A.Out(call, "trap", 'b', nil))
	}
	return st, P, tr, false
}

func (e *Evaluator) isRefTerm(t *Term) bool {
	for t.op == OIte {
		t = t.args[1]
	}
	return t.op == OSlice || t.op == OAddr
}

func (e *Evaluator) opaqueSplit(f *fctx, c *ssa.Call, callee *ssa.Function, sum *Summary, name string, args []*Term, i int, st *State, P *Term) (*State, *Term, *Term, bool) {
	A := e.A
	at := A.rawIte(args[i].args[0], A.T, A.F)
	var es []edge
	var vals []*Term
	tr := A.F
	for _, side := range []bool{true, false} {
		g := at
		x := args[i].args[1]
		if !side {
			g = A.Not(at)
			x = args[i].args[2]
		}
		p2 := A.And(P, g)
		if p2 == A.F {
			continue
		}
		na := append([]*Term(nil), args...)
		na[i] = x
		s2, p3, t2, _ := e.opaque(f, c, callee, sum, name, na, st.clone(), p2)
		tr = A.Or(tr, t2)
		es = append(es, edge{P: p3, st: s2})
		vals = append(vals, f.env[c])
	}
	nst, np := e.mergeStates(es)
	v := vals[0]
	if len(vals) == 2 {
		v = A.Ite(A.Constrain(es[0].P, np), vals[0], vals[1])
	}
	f.env[c] = v
	return nst, np, tr, false
}
