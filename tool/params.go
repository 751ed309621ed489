package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Parameters that are never negative.
//
// A function of the repository that is only ever called directly, and at every
// call site with a value that is never negative, is compared for such arguments
// only.  Greatest fixpoint over the call sites; like the loop variables that are
// never negative, sums and products are taken not to overflow.
// ---------------------------------------------------------------------------

type paramFacts struct {
	p    *Prog
	can  map[*ssa.Parameter]bool
	memo map[ssa.Value]bool
}

// nonNegParams: function key -> which of its parameters are never negative.
func nonNegParams(p *Prog) map[string][]bool {
	f := &paramFacts{p: p, can: map[*ssa.Parameter]bool{}}
	var all []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		all = append(all, fn)
		for _, x := range fn.AnonFuncs {
			add(x)
		}
	}
	for _, fn := range p.funcs {
		if fn.Parent() == nil {
			add(fn)
		}
	}
	byName := map[string][]*ssa.Function{}
	for _, fn := range all {
		byName[fn.Name()] = append(byName[fn.Name()], fn)
	}
	taken := map[*ssa.Function]bool{}
	sites := map[*ssa.Function][]*ssa.CallCommon{}
	for _, fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						for _, g := range byName[cc.Method.Name()] {
							taken[g] = true
						}
					} else if g := cc.StaticCallee(); g != nil {
						if g == cc.Value {
							callee = cc.Value
						}
						sites[g] = append(sites[g], cc)
					}
				}
				for _, o := range in.Operands(nil) {
					if *o == nil || *o == callee {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						taken[g] = true
						if g.Synthetic != "" { // method values and the like
							for _, h := range all {
								if h.Object() != nil && h.Object() == g.Object() {
									taken[h] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range all {
		if taken[fn] || len(sites[fn]) == 0 || fn.Parent() != nil {
			continue
		}
		for _, q := range fn.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				f.can[q] = true
			}
		}
	}
	for again := true; again; {
		again = false
		f.memo = map[ssa.Value]bool{}
		for _, fn := range all {
			for i, q := range fn.Params {
				if !f.can[q] {
					continue
				}
				for _, cc := range sites[fn] {
					if i >= len(cc.Args) || !f.nonNeg(cc.Args[i]) {
						delete(f.can, q)
						again = true
						break
					}
				}
			}
		}
	}
	r := map[string][]bool{}
	for k, fn := range p.funcs {
		v := make([]bool, len(fn.Params))
		for i, q := range fn.Params {
			v[i] = f.can[q]
		}
		r[k] = v
	}
	return r
}

// nonNeg: v is never negative; values being looked at are assumed not to be,
// which is right for values that go round a loop.
func (f *paramFacts) nonNeg(v ssa.Value) bool {
	if ok, seen := f.memo[v]; seen {
		return ok
	}
	in := map[ssa.Value]bool{}
	ok := f.look(v, in)
	f.memo[v] = ok
	return ok
}

func (f *paramFacts) look(v ssa.Value, in map[ssa.Value]bool) bool {
	if in[v] {
		return true
	}
	in[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Value.Kind() == constant.Int && constant.Sign(x.Value) >= 0
	case *ssa.Parameter:
		return f.can[x]
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !f.look(e, in) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.QUO, token.OR:
			return f.look(x.X, in) && f.look(x.Y, in)
		case token.REM, token.SHR:
			return f.look(x.X, in)
		case token.AND:
			try := map[ssa.Value]bool{}
			for k := range in {
				try[k] = true
			}
			return f.look(x.X, try) || f.look(x.Y, in)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.FieldAddr); ok {
				return nonNegNames[namedField(a.X.Type(), a.Field)]
			}
		}
	case *ssa.Field:
		return nonNegNames[namedField(x.X.Type(), x.Field)]
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		return f.result(x.Call.StaticCallee(), 0, in)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return f.result(c.Call.StaticCallee(), x.Index, in)
		}
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return false
		}
	}
	return false
}

// result: result i of fn is never negative.
func (f *paramFacts) result(fn *ssa.Function, i int, in map[ssa.Value]bool) bool {
	if fn == nil || len(fn.Blocks) == 0 || fn.Recover != nil {
		return false
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if i >= len(r.Results) || !f.look(r.Results[i], in) {
				return false
			}
		}
	}
	return true
}

func namedField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return ""
}

// counts: loop variable v starts non-negative and only grows.
func counts(v *ssa.Phi) bool {
	for _, e := range v.Edges {
		switch x := e.(type) {
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() != constant.Int || constant.Sign(x.Value) < 0 {
				return false
			}
		case *ssa.BinOp:
			c, ok := x.Y.(*ssa.Const)
			if x.Op != token.ADD || x.X != v || !ok || c.Value == nil || c.Value.Kind() != constant.Int || constant.Sign(c.Value) < 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}
