package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// canonical prints a function's SSA with registers numbered by position, fields
// by name and constants by value: two functions with the same text execute the
// same instructions, so they are equal if everything they refer to is.
func canonical(fn *ssa.Function) string {
	var sb strings.Builder
	num := map[ssa.Value]string{}
	for i, p := range fn.Params {
		num[p] = fmt.Sprintf("p%d", i)
		sb.WriteString(typeStr(p.Type()) + ",")
	}
	for i, p := range fn.FreeVars {
		num[p] = fmt.Sprintf("v%d", i)
		sb.WriteString(typeStr(p.Type()) + ",")
	}
	dead := logOnly(fn)
	skip := func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.DebugRef)
		return ok || dead[in]
	}
	for _, b := range fn.Blocks {
		n := 0
		for _, in := range b.Instrs {
			if skip(in) {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				num[v] = fmt.Sprintf("%d.%d", b.Index, n)
			}
			n++
		}
	}
	name := func(v ssa.Value) string {
		if s, ok := num[v]; ok {
			return s
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return "nil:" + typeStr(x.Type())
			}
			return x.Value.ExactString() + ":" + typeStr(x.Type())
		case *ssa.Global:
			return "G:" + x.RelString(nil)
		case *ssa.Function:
			if x.Parent() == fn {
				return "F{" + canonical(x) + "}"
			}
			return "F:" + x.String()
		case *ssa.Builtin:
			return "B:" + x.Name()
		}
		return fmt.Sprintf("?%T", v)
	}
	for _, b := range fn.Blocks {
		fmt.Fprintf(&sb, "\n#%d(", b.Index)
		for _, p := range b.Preds {
			fmt.Fprintf(&sb, "%d ", p.Index)
		}
		sb.WriteString(")(")
		for _, p := range b.Succs {
			fmt.Fprintf(&sb, "%d ", p.Index)
		}
		sb.WriteString(")\n")
		for _, in := range b.Instrs {
			if skip(in) {
				continue
			}
			fmt.Fprintf(&sb, "%T", in)
			if v, ok := in.(ssa.Value); ok {
				sb.WriteString(":" + typeStr(v.Type()))
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				sb.WriteString(x.Op.String())
			case *ssa.UnOp:
				fmt.Fprintf(&sb, "%s%v", x.Op, x.CommaOk)
			case *ssa.FieldAddr:
				sb.WriteString("." + x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name())
			case *ssa.Field:
				sb.WriteString("." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name())
			case *ssa.Extract:
				fmt.Fprint(&sb, x.Index)
			case *ssa.Alloc:
				fmt.Fprint(&sb, x.Heap)
			case *ssa.Slice:
				fmt.Fprint(&sb, x.Low == nil, x.High == nil, x.Max == nil)
			case *ssa.Call:
				if x.Call.IsInvoke() {
					sb.WriteString("!" + x.Call.Method.FullName())
				}
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					sb.WriteString(" -")
				} else {
					sb.WriteString(" " + name(*op))
				}
			}
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

// identical: same instructions, and every table and expanded helper they use is the same.
func (g *Engine) identical(mf, rf *ssa.Function) bool {
	if canonical(mf) != canonical(rf) {
		return false
	}
	ok := true
	var rec func(fn *ssa.Function)
	rec = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Global:
						n := globName(x)
						mt, rt := g.M.tables[n], g.R.tables[n]
						if (mt == nil) != (rt == nil) || mt != nil && mt.hash != rt.hash {
							ok = false
						}
						if mt == nil && g.M.vars[n] != nil && g.R.vars[n] == nil {
							ok = false
						}
					case *ssa.Function:
						if x.Parent() != nil || !g.M.inModule(x) {
							continue
						}
						k := funcKey(x)
						if g.M.funcs[k] == nil || g.R.funcs[k] == nil {
							ok = false
							continue
						}
						if g.inlineC[k] && !g.equal(k) || !g.inlineC[k] && !g.cut[k] {
							ok = false
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			rec(a)
		}
	}
	rec(rf)
	return ok
}

// equal: the repository's function is equal to the model's (memoised).
func (g *Engine) equal(k string) bool {
	if v, ok := g.eqMemo[k]; ok {
		return v
	}
	g.eqMemo[k] = true // recursion: assumed while being shown
	r := g.compare(k)
	v := len(r.Diffs) == 0 && len(r.Undec) == 0
	g.eqMemo[k] = v
	return v
}

func isLogCall(c *ssa.Call) bool {
	t := c.Call.StaticCallee()
	if t == nil {
		return false
	}
	return isLogPkg(pkgPathOf(t))
}

func pkgPathOf(t *ssa.Function) string {
	if t.Pkg != nil {
		return t.Pkg.Pkg.Path()
	}
	if o := t.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// logOnly: log calls and the instructions that only feed them.
func logOnly(fn *ssa.Function) map[ssa.Instruction]bool {
	d := map[ssa.Instruction]bool{}
	any := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && isLogCall(c) {
				any = true
			}
		}
	}
	if !any {
		return d
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				d[in] = isLogCall(x)
			case *ssa.Alloc, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.UnOp, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.Extract, *ssa.Store:
				d[in] = true
			}
		}
	}
	for {
		ch := false
		for in, v := range d {
			if !v {
				continue
			}
			keep := false
			if s, ok := in.(*ssa.Store); ok {
				r := s.Addr
				for {
					if x, ok := r.(*ssa.IndexAddr); ok {
						r = x.X
					} else if x, ok := r.(*ssa.FieldAddr); ok {
						r = x.X
					} else {
						break
					}
				}
				a, ok := r.(*ssa.Alloc)
				keep = !ok || !d[a]
			} else if val, ok := in.(ssa.Value); ok {
				n := 0
				for _, r := range *val.Referrers() {
					n++
					if !d[r] {
						keep = true
					}
				}
				if _, isCall := in.(*ssa.Call); n == 0 && !isCall {
					keep = true
				}
			}
			if keep {
				d[in] = false
				ch = true
			}
		}
		if !ch {
			return d
		}
	}
}
