package main

import (
	"go/types"
	"sort"
)

// Arrays and slices are values here: a functional array is a base plus an
// overlay of pairwise provably distinct paths.

func (a *Arena) Zero(n *Term, elem types.Type) *Term {
	return a.lift("zero", []*Term{n}, func(v []*Term) *Term {
		return a.mk(&Term{op: OZero, args: []*Term{v[0]}, typ: elem, kind: 'o'})
	})
}

func (a *Arena) TableTerm(tb *Table) *Term {
	return a.mk(&Term{op: OTable, tab: tb, kind: 'o'})
}

// zeroOf is the zero value of type t.
func (a *Arena) zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return a.F
		case u.Info()&types.IsInteger != 0:
			return a.Int(0)
		case u.Info()&types.IsString != 0:
			return a.Str("\"\"")
		}
		return a.Str("zero:" + u.Name())
	case *types.Array:
		return a.Zero(a.Int(u.Len()), u.Elem())
	case *types.Slice:
		return a.Zero(a.Int(0), u.Elem())
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = a.zeroOf(u.Field(i).Type())
		}
		return a.mk(&Term{op: OStruct, typ: t, args: args, kind: 'o'})
	}
	return a.Str("nil")
}

func (a *Arena) Field(base *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	f := s.Field(i)
	return a.lift("field", []*Term{base}, func(v []*Term) *Term {
		if v[0].op == OStruct {
			return v[0].args[i]
		}
		return a.leaf(&Term{op: OField, s: f.Name(), args: []*Term{v[0]}, kind: kindOf(f.Type()), typ: f.Type()})
	})
}

// relation of two path components: 0 equal, 1 distinct, 2 unknown
func (a *Arena) rel(x, y *Term) int {
	if x == y {
		return 0
	}
	if x.op == OStr && y.op == OStr || x.op == OConst && y.op == OConst {
		return 1
	}
	if x.kind != 'i' || y.kind != 'i' || x.op == OIte || y.op == OIte {
		return 2
	}
	d := a.Sub(x, y)
	if d.op == OIte {
		return 2
	}
	lo, hi := a.rng(d)
	if lo > 0 || hi < 0 {
		return 1
	}
	return 2
}

// pathRel: 0 = p is equal/prefix-compatible on the common length, 1 distinct, 2 unknown
func (a *Arena) pathRel(p, q []*Term) int {
	n := min(len(p), len(q))
	unk := false
	for i := 0; i < n; i++ {
		switch a.rel(p[i], q[i]) {
		case 1:
			return 1
		case 2:
			unk = true
		}
	}
	if unk {
		return 2
	}
	return 0
}

// Sel reads content at path; et is the type of the element read.
func (a *Arena) Sel(c *Term, path []*Term, et types.Type) *Term {
	if len(path) == 0 {
		return c
	}
	args := append([]*Term{c}, path...)
	if c.op == OUpd {
		args[0] = nil // overlays are not decision nodes; keep c aside
		return a.liftPath(path, func(p []*Term) *Term { return a.selLeaf(c, p, et) })
	}
	return a.lift("sel", args, func(v []*Term) *Term {
		if v[0].op == OUpd {
			return a.Sel(v[0], v[1:], et)
		}
		return a.selLeaf(v[0], v[1:], et)
	})
}

func (a *Arena) liftPath(path []*Term, f func([]*Term) *Term) *Term {
	return a.lift("path", path, f)
}

func (a *Arena) selLeaf(c *Term, p []*Term, et types.Type) *Term {
	switch c.op {
	case OUpd:
		var under []updEnt
		var relevant []updEnt
		for _, e := range c.ents {
			switch a.pathRel(e.path, p) {
			case 0:
				if len(e.path) <= len(p) {
					return a.Sel(e.val, p[len(e.path):], et)
				}
				under = append(under, e)
				relevant = append(relevant, e)
			case 2:
				relevant = append(relevant, e)
			}
		}
		if len(relevant) == 0 {
			return a.Sel(c.args[0], p, et)
		}
		if len(under) == len(relevant) {
			b := a.Sel(c.args[0], p, et)
			for _, e := range under {
				b = a.Upd(b, e.path[len(p):], e.val)
			}
			return b
		}
		if len(relevant) != len(c.ents) {
			c = a.mkUpd(c.args[0], relevant)
		}
	case OZero:
		if t := c.typ; t != nil {
			z := a.zeroOf(t)
			return a.selRest(z, p[1:], t, et)
		}
	case OTable:
		if p[0].op == OConst && p[0].k >= 0 && p[0].k < int64(len(c.tab.elems)) {
			e := c.tab.elems[p[0].k]
			if !e.isArr {
				if kindOf(et) == 'b' {
					return a.BoolC(e.leaf != 0)
				}
				return a.Int(e.leaf)
			}
			return a.Sel(a.TableTerm(e), p[1:], et)
		}
	case OFn:
		if c.s == "slice" { // slice(content, lo, hi)
			q := append([]*Term{a.Add(p[0], c.args[1])}, p[1:]...)
			return a.Sel(c.args[0], q, et)
		}
	case OSel:
		// nested selection flattens
		np := append(append([]*Term(nil), c.args[1:]...), p...)
		return a.Sel(c.args[0], np, et)
	case OStruct:
		// path component is a field name
		st := c.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if p[0].op == OStr && p[0].s == "."+st.Field(i).Name() {
				return a.Sel(c.args[i], p[1:], et)
			}
		}
	}
	if st, ok := et.Underlying().(*types.Struct); ok {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = a.Sel(c, append(append([]*Term(nil), p...), a.Str("."+st.Field(i).Name())), st.Field(i).Type())
		}
		return a.mk(&Term{op: OStruct, typ: et, args: args, kind: 'o'})
	}
	return a.leaf(&Term{op: OSel, args: append([]*Term{c}, p...), kind: kindOf(et), typ: et})
}

func (a *Arena) selRest(z *Term, p []*Term, zt, et types.Type) *Term {
	if len(p) == 0 {
		return z
	}
	return a.Sel(z, p, et)
}

func (a *Arena) mkUpd(base *Term, ents []updEnt) *Term {
	if len(ents) == 0 {
		return base
	}
	sort.Slice(ents, func(i, j int) bool {
		p, q := ents[i].path, ents[j].path
		for k := 0; k < len(p) && k < len(q); k++ {
			if p[k] != q[k] {
				return p[k].id < q[k].id
			}
		}
		return len(p) < len(q)
	})
	return a.mk(&Term{op: OUpd, args: []*Term{base}, ents: ents, kind: 'o'})
}

// Upd writes val at path.
func (a *Arena) Upd(c *Term, path []*Term, val *Term) *Term {
	if len(path) == 0 {
		return val
	}
	if minTop(path...) != nil {
		return a.liftPath(path, func(p []*Term) *Term { return a.Upd(c, p, val) })
	}
	if c.op == OStruct {
		st := c.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if path[0].op == OStr && path[0].s == "."+st.Field(i).Name() {
				args := append([]*Term(nil), c.args...)
				args[i] = a.Upd(args[i], path[1:], val)
				return a.mk(&Term{op: OStruct, typ: c.typ, args: args, kind: 'o'})
			}
		}
	}
	if val.op == OStruct {
		st := val.typ.Underlying().(*types.Struct)
		for i := range val.args {
			c = a.Upd(c, append(append([]*Term(nil), path...), a.Str("."+st.Field(i).Name())), val.args[i])
		}
		return c
	}
	base := c
	var ents []updEnt
	if c.op == OUpd {
		base = c.args[0]
		ents = c.ents
	}
	out := make([]updEnt, 0, len(ents)+1)
	done := false
	for _, e := range ents {
		r := a.pathRel(e.path, path)
		if r == 2 {
			// may alias: new layer on top
			if a.rawSel(c, path) == val || (val == a.Int(0) || val == a.F) && a.blank(c) {
				return c
			}
			return a.mkUpd(c, []updEnt{{append([]*Term(nil), path...), val}})
		}
		if r == 1 {
			out = append(out, e)
			continue
		}
		if len(e.path) <= len(path) {
			nv := a.Upd(e.val, path[len(e.path):], val)
			out = append(out, updEnt{e.path, nv})
			done = true
		}
		// else: existing entry lies under the new path: overwritten
	}
	if !done {
		out = append(out, updEnt{append([]*Term(nil), path...), val})
	}
	// drop no-op writes
	fin := out[:0:0]
	for _, e := range out {
		if a.rawSel(base, e.path) == e.val || (e.val == a.Int(0) || e.val == a.F) && a.blank(base) {
			continue
		}
		fin = append(fin, e)
	}
	return a.mkUpd(base, fin)
}

// rawSel finds what reading base at path would give, when the resulting term's
// type can be inferred from an existing value; used only to recognise no-op writes.
func (a *Arena) rawSel(c *Term, p []*Term) *Term {
	switch c.op {
	case OZero:
		if c.typ != nil && len(p) == 1 {
			return a.zeroOf(c.typ)
		}
		if c.typ != nil && len(p) > 1 {
			return a.rawSel(a.zeroOf(c.typ), p[1:])
		}
	case OUpd:
		for _, e := range c.ents {
			switch a.pathRel(e.path, p) {
			case 0:
				if len(e.path) == len(p) {
					return e.val
				}
				return nil
			case 2:
				goto out
			}
		}
		return a.rawSel(c.args[0], p)
	case OTable:
		if len(p) == 1 && p[0].op == OConst && p[0].k >= 0 && p[0].k < int64(len(c.tab.elems)) && !c.tab.elems[p[0].k].isArr {
			return a.Int(c.tab.elems[p[0].k].leaf)
		}
		return nil
	}
out:
	// an existing selection node over the same base and path
	for _, kd := range []byte{'i', 'b', 'o'} {
		t := &Term{op: OSel, args: append([]*Term{c}, p...), kind: kd}
		if x := a.find(t); x != nil {
			if kd == 'b' {
				return a.rawIte(x, a.T, a.F)
			}
			return x
		}
	}
	return nil
}

// blank: every number of content c is zero.
func (a *Arena) blank(c *Term) bool {
	c = strip(c)
	switch c.op {
	case OZero:
		return true
	case OUpd, OIte, OLoop:
	default:
		return false
	}
	v, ok := a.blanks[c]
	if !ok {
		v = a.blankIn(c, map[*Term]bool{})
		a.blanks[c] = v
	}
	return v
}

func (a *Arena) blankIn(c *Term, in map[*Term]bool) bool {
	c = strip(c)
	if in[c] {
		return true // assumed of loop variables, or looked at already
	}
	switch c.op {
	case OZero:
		return true
	case OConst:
		return c.k == 0
	case OUpd:
		in[c] = true
		for _, e := range c.ents {
			if e.val != a.F && !a.blankIn(e.val, in) {
				return false
			}
		}
		return a.blankIn(c.args[0], in)
	case OIte:
		in[c] = true
		return a.blankIn(c.args[1], in) && a.blankIn(c.args[2], in)
	case OLoop:
		core := c.args[0]
		on := spine(c.args[1])
		on.through(core)
		for i := 1; i+2 < len(core.args); i += 3 {
			if on[core.args[i]] {
				in[core.args[i]] = true
			}
		}
		for i := 1; i+2 < len(core.args); i += 3 {
			if on[core.args[i]] && (!a.blankIn(core.args[i+1], in) || !a.blankIn(core.args[i+2], in)) {
				return false
			}
		}
		return a.blankIn(c.args[1], in)
	}
	return false
}

// find looks a term up without creating it.
func (a *Arena) find(t *Term) *Term {
	for o := a.tab[a.hashOf(t)]; o != nil; o = o.next {
		if sameTerm(o, t) {
			return o
		}
	}
	return nil
}

// mergeContent merges two contents under atom when their overlays can be combined.
func (a *Arena) mergeContent(atom, x, y *Term) *Term {
	if x.op == OIte || y.op == OIte {
		return nil
	}
	if x.op != OUpd && y.op != OUpd {
		return nil
	}
	at := a.rawIte(atom, a.T, a.F)
	bx, by := x, y
	var ex, ey []updEnt
	if x.op == OUpd {
		bx, ex = x.args[0], x.ents
	}
	if y.op == OUpd {
		by, ey = y.args[0], y.ents
	}
	if bx != by {
		// identical overlay keys over different bases: sink
		if len(ex) == len(ey) && len(ex) > 0 {
			same := true
			for i := range ex {
				if len(ex[i].path) != len(ey[i].path) {
					same = false
					break
				}
				for k := range ex[i].path {
					if ex[i].path[k] != ey[i].path[k] {
						same = false
					}
				}
			}
			if same {
				b := a.Ite(at, bx, by)
				ents := make([]updEnt, len(ex))
				for i := range ex {
					ents[i] = updEnt{ex[i].path, a.Ite(at, ex[i].val, ey[i].val)}
				}
				return a.mkUpd(b, ents)
			}
		}
		// one base is the other whole term (layered overlay): x = Upd(y, ..)
		if bx == y && a.readable(y, ex) {
			return a.condUpd(at, y, ex, true)
		}
		if by == x && a.readable(x, ey) {
			return a.condUpd(at, x, ey, false)
		}
		return nil
	}
	// same base: all keys pairwise distinct or identical
	all := append(append([]updEnt(nil), ex...), ey...)
	for i := range ex {
		for j := range ey {
			r := a.pathRel(ex[i].path, ey[j].path)
			if r == 2 {
				return nil
			}
			if r == 0 && len(ex[i].path) != len(ey[j].path) {
				return nil
			}
		}
	}
	if !a.readable(bx, all) {
		return nil
	}
	var ents []updEnt
	for _, e := range ex {
		var other *Term
		for _, f := range ey {
			if a.pathRel(e.path, f.path) == 0 {
				other = f.val
			}
		}
		if other == nil {
			other = a.selLike(bx, e.path, e.val)
		}
		if other == nil {
			return nil
		}
		ents = append(ents, updEnt{e.path, a.Ite(at, e.val, other)})
	}
	for _, f := range ey {
		seen := false
		for _, e := range ex {
			if a.pathRel(e.path, f.path) == 0 {
				seen = true
			}
		}
		if seen {
			continue
		}
		o := a.selLike(bx, f.path, f.val)
		if o == nil {
			return nil
		}
		ents = append(ents, updEnt{f.path, a.Ite(at, o, f.val)})
	}
	r := bx
	for _, e := range ents {
		r = a.Upd(r, e.path, e.val)
	}
	return r
}

func (a *Arena) readable(base *Term, ents []updEnt) bool { return true }

// selLike reads base at path with the kind of val.
func (a *Arena) selLike(base *Term, path []*Term, val *Term) *Term {
	var t types.Type
	switch val.kind {
	case 'i':
		t = types.Typ[types.Int]
	case 'b':
		t = types.Typ[types.Bool]
	default:
		t = contentType
	}
	return a.Sel(base, path, t)
}

var contentType types.Type = types.NewSlice(types.Typ[types.Int])

func (a *Arena) condUpd(at, base *Term, ents []updEnt, pos bool) *Term {
	r := base
	for _, e := range ents {
		old := a.selLike(base, e.path, e.val)
		if old == nil {
			return nil
		}
		if pos {
			r = a.Upd(r, e.path, a.Ite(at, e.val, old))
		} else {
			r = a.Upd(r, e.path, a.Ite(at, old, e.val))
		}
	}
	return r
}

// Len of a content.
func (a *Arena) Len(c *Term) *Term {
	return a.lift("len", []*Term{c}, func(v []*Term) *Term {
		x := v[0]
		switch x.op {
		case OUpd:
			return a.Len(x.args[0])
		case OZero:
			return x.args[0]
		case OTable:
			return a.Int(int64(len(x.tab.elems)))
		case OStr:
			if x.s == "nil" {
				return a.Int(0)
			}
		case OFn:
			switch x.s {
			case "append":
				return a.Add(a.Len(x.args[0]), a.Len(x.args[1]))
			case "slice":
				return a.Sub(x.args[2], x.args[1])
			case "copy", "sorted", "splice":
				return a.Len(x.args[0])
			}
		case OLoop:
			// length-preserving loop
			if s := x.args[1]; s.op == OBMu || (s.op == OUpd && baseOf(s).op == OBMu) {
				b := baseOf(s)
				cr := x.args[0].args
				for i := 1; i+2 < len(cr); i += 3 {
					if cr[i] == b {
						if nb := baseOf(cr[i+2]); nb == b {
							return a.Len(cr[i+1])
						}
					}
				}
			}
		case OBMu, OMu:
			if l, ok := a.muLen(x); ok {
				return l
			}
		}
		return a.mk(&Term{op: OFn, s: "len", args: []*Term{x}, kind: 'i'})
	})
}

func (a *Arena) muLen(x *Term) (*Term, bool) { return nil, false }

func baseOf(t *Term) *Term {
	for t.op == OUpd {
		t = t.args[0]
	}
	return t
}

func (a *Arena) Append(x, y *Term) *Term {
	return a.lift("append", []*Term{x, y}, func(v []*Term) *Term {
		lx, ly := a.Len(v[0]), a.Len(v[1])
		if ly.op == OConst && ly.k == 0 {
			return v[0]
		}
		if lx.op == OConst && lx.k == 0 {
			return v[1]
		}
		if lx.op == OConst && ly.op == OConst {
			bx, by := v[0], v[1]
			if baseOf(bx).op == OZero && baseOf(by).op == OZero && baseOf(bx).typ != nil {
				r := a.Zero(a.Int(lx.k+ly.k), baseOf(bx).typ)
				ok := true
				var put func(t *Term, off int64)
				put = func(t *Term, off int64) {
					if t.op != OUpd {
						return
					}
					put(t.args[0], off)
					for _, e := range t.ents {
						if e.path[0].op != OConst {
							ok = false
							return
						}
						p := append([]*Term{a.Int(e.path[0].k + off)}, e.path[1:]...)
						r = a.Upd(r, p, e.val)
					}
				}
				put(bx, 0)
				put(by, lx.k)
				if ok {
					return r
				}
			}
		}
		return a.mk(&Term{op: OFn, s: "append", args: []*Term{v[0], v[1]}, kind: 'o'})
	})
}

func (a *Arena) SliceC(c, lo, hi *Term) *Term {
	if lo.op == OConst && lo.k == 0 && hi == a.Len(c) {
		return c
	}
	return a.lift("slice", []*Term{c, lo, hi}, func(v []*Term) *Term {
		if v[0].op == OFn && v[0].s == "slice" {
			return a.SliceC(v[0].args[0], a.Add(v[0].args[1], v[1]), a.Add(v[0].args[1], v[2]))
		}
		return a.mk(&Term{op: OFn, s: "slice", args: append([]*Term(nil), v...), kind: 'o'})
	})
}

// ---------------------------------------------------------------------------
// Substitution and loops
// ---------------------------------------------------------------------------

// Call builds an opaque call node; scalar decision-diagram arguments are lifted.
func (a *Arena) Call(name string, args []*Term) *Term {
	return a.mk(&Term{op: OCall, s: name, args: args, kind: 'o'})
}

// Out projects an output of an opaque call, lifting scalar ite arguments of the call.
func (a *Arena) Out(call *Term, out string, kind byte, typ types.Type) *Term {
	// lift over scalar arguments only
	sc := make([]*Term, len(call.args))
	any := false
	leaves := 1
	for i, x := range call.args {
		if x != nil && x.kind != 'o' && x.op == OIte && !(x.kind == 'b' && x.args[1] == a.T && x.args[2] == a.F && false) {
			sc[i] = x
			any = true
			leaves *= countLeaves(x, 17)
			if leaves > 16 {
				leaves = 17
			}
		}
	}
	if any && leaves <= 16 {
		return a.lift("out", sc, func(v []*Term) *Term {
			args := make([]*Term, len(call.args))
			for i := range args {
				if sc[i] != nil {
					args[i] = v[i]
				} else {
					args[i] = call.args[i]
				}
			}
			return a.outRaw(a.Call(call.s, args), out, kind, typ)
		})
	}
	return a.outRaw(call, out, kind, typ)
}

func (a *Arena) outRaw(call *Term, out string, kind byte, typ types.Type) *Term {
	if typ != nil {
		if st, ok := typ.Underlying().(*types.Struct); ok {
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = a.outRaw(call, out+"."+st.Field(i).Name(), kindOf(st.Field(i).Type()), st.Field(i).Type())
			}
			return a.mk(&Term{op: OStruct, typ: typ, args: args, kind: 'o'})
		}
	}
	return a.leaf(&Term{op: OOut, s: out, args: []*Term{call}, kind: kind, typ: typ})
}

func countLeaves(t *Term, max int) int {
	seen := map[*Term]bool{}
	leaves := 0
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || leaves > max {
			return
		}
		seen[x] = true
		if x.op == OIte {
			rec(x.args[1])
			rec(x.args[2])
			return
		}
		leaves++
	}
	rec(t)
	return leaves
}

// outRange: value range of outputs of bit-reading calls with constant width.
func (a *Arena) outRange(t *Term) ([2]int64, bool) {
	c := t.args[0]
	if t.s != "r0" {
		return [2]int64{}, false
	}
	if w, ok := widthArg[c.s]; ok && w < len(c.args) && c.args[w] != nil {
		if c.args[w].op == OConst && c.args[w].k >= 0 && c.args[w].k < 60 {
			return [2]int64{0, 1<<uint(c.args[w].k) - 1}, true
		}
		return [2]int64{0, inf}, true
	}
	if nonNegCall[c.s] {
		return [2]int64{0, inf}, true
	}
	return [2]int64{}, false
}

type loopVar struct{ sym, init, next *Term }

// FreshMu makes a new provisional loop symbol (raw, not wrapped).
func (a *Arena) FreshMu(name string, kind byte, typ types.Type) *Term {
	return a.freshMuAt(len(a.muCnt)-1, name, kind, typ)
}

// freshMuAt makes one for the loop at nesting depth d.
func (a *Arena) freshMuAt(d int, name string, kind byte, typ types.Type) *Term {
	a.muCnt[d]++
	return a.mk(&Term{op: OMu, s: name, k: int64(d)<<20 | int64(a.muCnt[d]), kind: kind, typ: typ})
}

// Loop variables are numbered by nesting depth, so that two evaluations of the
// same code build the same provisional terms.
func (a *Arena) pushMu() { a.muCnt = append(a.muCnt, 0) }
func (a *Arena) popMu()  { a.muCnt = a.muCnt[:len(a.muCnt)-1] }

func fmtId(i int) string { return fmtInt36(i) }

// full: an array of fixed size all of whose elements have been written does
// not depend on what it held before.
func (a *Arena) full(c *Term, t types.Type) *Term {
	if c.op != OUpd || c.args[0].op == OZero {
		return c
	}
	u, ok := t.Underlying().(*types.Array)
	if !ok || u.Len() > 64 || !covered(c.ents, 0, t) {
		return c
	}
	r := a.zeroOf(t)
	for _, e := range c.ents {
		r = a.Upd(r, e.path, e.val)
	}
	return r
}

// covered: the entries, whose paths agree on the first d components, write
// every element of a value of type t.
func covered(ents []updEnt, d int, t types.Type) bool {
	for _, e := range ents {
		if len(e.path) == d {
			return true
		}
	}
	u, ok := t.Underlying().(*types.Array)
	if !ok || int64(len(ents)) < u.Len() {
		return false
	}
	at := map[int64][]updEnt{}
	for _, e := range ents {
		if x := e.path[d]; x.op == OConst {
			at[x.k] = append(at[x.k], e)
		}
	}
	for i := int64(0); i < u.Len(); i++ {
		if len(at[i]) == 0 || !covered(at[i], d+1, u.Elem()) {
			return false
		}
	}
	return true
}
