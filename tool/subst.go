package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
)

// Free-variable masks: provisional loop symbols by nesting depth (bits 0-19) or
// renaming level (20-39), bound variables by loop height (40-63).
func bitMu(k int64) uint64 {
	if k>>40 != 0 {
		return bitN(20, (k>>20)&0xfffff, 20)
	}
	return bitN(0, k>>20, 20)
}

func bitBound(h int64) uint64 { return bitN(40, h, 24) }

func bitN(base int, n int64, lim int64) uint64 {
	if n >= lim {
		panic(evalAbort{"loops nested too deeply"})
	}
	return 1 << (uint(base) + uint(n))
}

func symBit(t *Term) uint64 {
	switch t.op {
	case OMu:
		return bitMu(t.k)
	case OBMu:
		return bitBound(t.k >> 16)
	case OIter:
		return bitBound(t.k)
	case OSel:
		return symBit(t.args[0])
	}
	return ^uint64(0)
}

type substCtx struct {
	a     *Arena
	m     map[*Term]*Term
	mask  uint64
	memo  map[*Term]*Term
	cores map[*Term]*closer
	skip  func(*Term) bool // replaces the mask test
}

func (c *substCtx) untouched(t *Term) bool {
	if c.skip != nil {
		return c.skip(t)
	}
	return t.mask&c.mask == 0
}

func (a *Arena) newSubst(m map[*Term]*Term) *substCtx {
	c := &substCtx{a: a, m: m, memo: map[*Term]*Term{}, cores: map[*Term]*closer{}}
	for k := range m {
		c.mask |= symBit(k)
	}
	return c
}

// Subst replaces symbols (by term identity) and renormalises.
func (a *Arena) Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return a.newSubst(m).do(t)
}

// coreOf renames the bound variables of a loop core apart and substitutes in it.
func (c *substCtx) coreOf(core *Term) *closer {
	if cl, ok := c.cores[core]; ok {
		return cl
	}
	a := c.a
	lvl := a.alpha + 1
	n := 0
	fresh := func(name string, kind byte, typ types.Type) *Term {
		n++
		return a.mk(&Term{op: OMu, s: name, k: 1<<40 | int64(lvl)<<20 | int64(n), kind: kind, typ: typ})
	}
	m2 := make(map[*Term]*Term, len(c.m)+len(core.args))
	for k, v := range c.m {
		m2[k] = v
	}
	it := fresh("iter", 'i', nil)
	m2[a.mk(&Term{op: OIter, k: core.k, kind: 'i'})] = it
	var vars []loopVar
	for i := 1; i < len(core.args); i += 3 {
		b := core.args[i]
		f := fresh(b.s, b.kind, b.typ)
		if b.kind == 'b' {
			m2[b] = a.rawIte(f, a.T, a.F)
		} else {
			m2[b] = f
		}
		vars = append(vars, loopVar{f, c.do(core.args[i+1]), nil})
	}
	sv := a.alpha
	a.alpha = lvl
	// zeros written over zeros
	for i := 0; i < len(vars); i++ {
		b := core.args[1+3*i]
		if b.kind == 'o' && a.blank(vars[i].init) {
			was := m2[b]
			m2[b] = vars[i].init
			if a.newSubst(m2).do(core.args[1+3*i+2]) != vars[i].init {
				m2[b] = was
			}
		}
	}
	c2 := a.newSubst(m2)
	for i := range vars {
		vars[i].next = c2.do(core.args[1+3*i+2])
	}
	cl := a.newCloser(c2.do(core.args[0]), vars, it)
	cl.inner, cl.lvl = c2, lvl
	a.alpha = sv
	c.cores[core] = cl
	return cl
}

func (c *substCtx) do(t *Term) *Term {
	if c.untouched(t) {
		return t
	}
	if r, ok := c.m[t]; ok {
		return r
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	if len(t.args) == 0 && t.place == nil {
		return t
	}
	a := c.a
	a.tick()
	var r *Term
	sub := func(x *Term) *Term {
		if x == nil {
			return nil
		}
		return c.do(x)
	}
	if t.op == OLoop {
		cl := c.coreOf(t.args[0])
		sv := a.alpha
		a.alpha = cl.lvl
		r = cl.close(cl.inner.do(t.args[1]))
		a.alpha = sv
		c.memo[t] = r
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	if t.op != OIte {
		for i, x := range t.args {
			args[i] = sub(x)
			if args[i] != x {
				ch = true
			}
		}
	}
	switch t.op {
	case OIte:
		c := c.atom(t.args[0])
		hi, lo := sub(t.args[1]), sub(t.args[2])
		r = a.Ite(c, hi, lo)
	case OUpd:
		r = args[0]
		for _, e := range t.ents {
			p := make([]*Term, len(e.path))
			for i, x := range e.path {
				p[i] = sub(x)
			}
			r = a.Upd(r, p, sub(e.val))
		}
	case OAddr, OSlice:
		if t.place == nil {
			r = t
			break
		}
		idx := make([]*Term, len(t.place.idx))
		for i, x := range t.place.idx {
			idx[i] = sub(x)
			if idx[i] != x {
				ch = true
			}
		}
		if !ch {
			r = t
			break
		}
		np := *t.place
		np.idx = idx
		r = a.mk(&Term{op: t.op, kind: 'o', place: &np, args: args})
	default:
		if !ch {
			r = t
			break
		}
		switch t.op {
		case OPoly:
			r = a.Int(t.k)
			for i, x := range args {
				r = a.Add(r, a.Scale(x, t.co[i]))
			}
		case OMono:
			r = args[0]
			for _, x := range args[1:] {
				r = a.Mul(r, x)
			}
		case OFn:
			switch t.s {
			case "len":
				r = a.Len(args[0])
			case "pow2":
				r = a.Pow2(args[0])
			case "append":
				r = a.Append(args[0], args[1])
			case "slice":
				r = a.SliceC(args[0], args[1], args[2])
			default:
				r = a.Fn(t.s, t.kind, args...)
			}
		case OSel:
			et := t.typ
			if et == nil {
				et = contentType
			}
			r = a.Sel(args[0], args[1:], et)
		case OZero:
			r = a.Zero(args[0], t.typ)
		case OBox:
			r = a.Box(args[0])
		case OOut:
			r = a.Out(args[0], t.s, t.kind, t.typ)
		case OCall:
			r = a.Call(t.s, args)
		case OField:
			r = a.lift("fieldS", args, func(v []*Term) *Term {
				return a.leaf(&Term{op: OField, s: t.s, args: v, kind: t.kind, typ: t.typ})
			})
		case OStruct, OTuple:
			r = a.mk(&Term{op: t.op, typ: t.typ, s: t.s, args: args, kind: t.kind})
		default:
			r = a.leaf(&Term{op: t.op, typ: t.typ, s: t.s, k: t.k, args: args, kind: t.kind, tab: t.tab, fn: t.fn})
		}
	}
	// raw (atom) results of kind bool are re-wrapped by callers
	c.memo[t] = r
	return r
}

// atom returns the decision diagram of the substituted atom.
func (c *substCtx) atom(at *Term) *Term {
	a := c.a
	if c.untouched(at) {
		return a.rawIte(at, a.T, a.F)
	}
	if r, ok := c.m[at]; ok {
		return r
	}
	switch at.op {
	case OGe:
		b := c.do(at.args[0])
		return a.Ge0(a.Sub(b, a.Int(at.k)))
	case OEq:
		return a.Equal(c.do(at.args[0]), c.do(at.args[1]))
	}
	r := c.do(at)
	if r.kind == 'b' && r.op != OIte && r.op != OBool {
		return a.rawIte(r, a.T, a.F)
	}
	return r
}

// ---------------------------------------------------------------------------
// Loops
// ---------------------------------------------------------------------------

type bitset []uint64

func (b bitset) has(i int) bool { return i/64 < len(b) && b[i/64]>>(uint(i)%64)&1 == 1 }

func (b bitset) union(o bitset) bitset {
	if len(o) == 0 {
		return b
	}
	if len(b) == 0 {
		return o
	}
	sub := len(o) <= len(b)
	for i := 0; sub && i < len(o); i++ {
		sub = o[i]&^b[i] == 0
	}
	if sub {
		return b
	}
	n := make(bitset, max(len(b), len(o)))
	copy(n, b)
	for i := range o {
		n[i] |= o[i]
	}
	return n
}

func (b bitset) each(f func(int)) {
	for i, w := range b {
		for w != 0 {
			f(i*64 + bits.TrailingZeros64(w))
			w &= w - 1
		}
	}
}

// closer turns per-iteration values of one loop into loop terms.  Outputs that
// depend on the same loop variables share one loop core.
type closer struct {
	a     *Arena
	exit  *Term
	vars  []loopVar
	iter  *Term
	bit   uint64
	idx   map[*Term]int
	memo  map[*Term]bitset
	cores map[string]*coreRes
	sums  map[*Term]*Term
	first *substCtx // for loops left in the first iteration
	inner *substCtx
	lvl   int
}

type coreRes struct {
	core *Term
	ctx  *substCtx
}

func (a *Arena) newCloser(exit *Term, vars []loopVar, iter *Term) *closer {
	c := &closer{a: a, exit: exit, vars: vars, iter: iter, bit: symBit(iter), idx: map[*Term]int{}, memo: map[*Term]bitset{}, cores: map[string]*coreRes{}}
	for i, v := range vars {
		c.idx[v.sym] = i + 1
	}
	c.idx[iter] = 0
	return c
}

// occ: which loop variables (bit i+1) and whether the counter (bit 0) occur.
func (c *closer) occ(t *Term) bitset {
	if t == nil || t.mask&c.bit == 0 {
		return nil
	}
	if i, ok := c.idx[t]; ok {
		b := make(bitset, i/64+1)
		b[i/64] |= 1 << (uint(i) % 64)
		return b
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	var r bitset
	for _, x := range t.args {
		r = r.union(c.occ(x))
	}
	for _, e := range t.ents {
		for _, p := range e.path {
			r = r.union(c.occ(p))
		}
		r = r.union(c.occ(e.val))
	}
	if t.place != nil {
		for _, p := range t.place.idx {
			r = r.union(c.occ(p))
		}
	}
	c.memo[t] = r
	return r
}

func (c *closer) close(out *Term) *Term {
	a := c.a
	use := c.occ(out)
	if len(use) == 0 {
		return out
	}
	if c.exit == a.T {
		if c.first == nil {
			m := map[*Term]*Term{c.iter: a.Int(0)}
			for _, v := range c.vars {
				m[v.sym] = v.init
			}
			c.first = a.newSubst(m)
		}
		return c.first.do(out)
	}
	if out.op == OPoly {
		// what does not change in the loop, and the sums formed in it, stand
		// on their own
		rest := out
		var sum *Term
		for i, x := range out.args {
			t := x
			switch {
			case len(c.occ(x)) == 0:
			case c.sumOf(x) != nil:
				t = c.sumOf(x)
			default:
				continue
			}
			if sum == nil {
				sum = a.Int(0)
			}
			sum = a.Add(sum, a.Scale(t, out.co[i]))
			rest = a.Sub(rest, a.Scale(x, out.co[i]))
		}
		if sum != nil {
			return a.Add(sum, c.close(rest))
		}
	} else if t := c.sumOf(out); t != nil {
		return t
	}
	return c.shut(out, nil)
}

// sumOf: the final value of a loop variable that only ever has amounts added
// to it that do not depend on it, as its initial value and a sum from zero.
func (c *closer) sumOf(t *Term) *Term {
	a := c.a
	i, ok := c.idx[t]
	if !ok || i == 0 || t.kind != 'i' || c.vars[i-1].init == a.Int(0) {
		return nil
	}
	if c.sums == nil {
		c.sums = map[*Term]*Term{}
	}
	if r, ok := c.sums[t]; ok {
		return r
	}
	c.sums[t] = nil
	v := c.vars[i-1]
	has := func(b bitset) bool { return i/64 < len(b) && b[i/64]>>(uint(i)%64)&1 != 0 }
	if has(c.occ(c.exit)) || v.next.sz > 4000 {
		return nil
	}
	d := a.Sub(v.next, v.sym)
	if has(c.occ(d)) {
		return nil
	}
	bad := false
	c.closure(c.occ(t).union(c.occ(c.exit))).each(func(j int) {
		if j > 0 && j != i && has(c.occ(c.vars[j-1].next)) {
			bad = true
		}
	})
	if bad {
		return nil
	}
	r := a.Add(v.init, c.shut(t, t))
	c.sums[t] = r
	return r
}

func (c *closer) closure(need bitset) bitset {
	for {
		n := need
		need.each(func(i int) {
			if i > 0 {
				n = n.union(c.occ(c.vars[i-1].next))
			}
		})
		if same(n, need) {
			return need
		}
		need = n
	}
}

// shut closes out; the loop variable zero, if any, starts from zero.
func (c *closer) shut(out, zero *Term) *Term {
	a := c.a
	use := c.occ(out)
	// relevant loop variables
	need := use.union(c.occ(c.exit))
	need = c.closure(need)
	key := fmt.Sprint(need, out.height, zero != nil)
	if zero != nil {
		key += fmt.Sprint(zero.id)
	}
	cr := c.cores[key]
	if cr == nil {
		cr = c.build(need, out.height, zero)
		c.cores[key] = cr
	}
	o := cr.ctx.do(out)
	if o.kind == 'b' {
		// a condition and its negation share one loop value
		low := o
		for low.op == OIte {
			low = low.args[2]
		}
		if low == a.T && o != a.T {
			return a.Not(a.leaf(&Term{op: OLoop, args: []*Term{cr.core, a.Not(o)}, kind: 'b'}))
		}
	}
	return a.leaf(&Term{op: OLoop, args: []*Term{cr.core, o}, kind: o.kind})
}

func same(x, y bitset) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func (c *closer) build(need bitset, oh int, zero *Term) *coreRes {
	a := c.a
	var sel []loopVar
	need.each(func(i int) {
		if i > 0 {
			v := c.vars[i-1]
			if v.sym == zero {
				v.init = a.Int(0)
			}
			sel = append(sel, v)
		}
	})
	// merge congruent variables (same init, same next up to merging)
	all := sel
	sel, merged := a.congruent(sel)
	exit := a.Subst(c.exit, merged)
	h := max(oh, exit.height)
	for _, v := range sel {
		h = max(h, v.next.height)
	}
	h++
	sig := a.signatures(sel, c.bit)
	idx := make([]int, len(sel))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool {
		x, y := sel[idx[i]], sel[idx[j]]
		if x.init != y.init {
			return x.init.id < y.init.id
		}
		if x.sym.kind != y.sym.kind {
			return x.sym.kind < y.sym.kind
		}
		return sig[x.sym] < sig[y.sym]
	})
	m := map[*Term]*Term{c.iter: a.mk(&Term{op: OIter, k: int64(h), kind: 'i'})}
	bound := make([]*Term, len(sel))
	for j, i := range idx {
		v := sel[i]
		b := a.mk(&Term{op: OBMu, s: v.sym.s, k: int64(h)<<16 | int64(j), kind: v.sym.kind, typ: v.sym.typ})
		bound[j] = b
		m[v.sym] = b
		if b.kind == 'b' {
			m[v.sym] = a.rawIte(b, a.T, a.F)
		}
	}
	for _, v := range all {
		if r, ok := merged[v.sym]; ok {
			if r.op == OIte {
				r = r.args[0]
			}
			m[v.sym] = m[r]
		}
	}
	ctx := a.newSubst(m)
	args := []*Term{ctx.do(exit)}
	for j, i := range idx {
		args = append(args, bound[j], sel[i].init, ctx.do(sel[i].next))
	}
	core := a.mk(&Term{op: OCore, k: int64(h), args: args, kind: 'o'})
	return &coreRes{core, ctx}
}

// congruent merges loop variables that are provably equal at every iteration.
func (a *Arena) congruent(vs []loopVar) ([]loopVar, map[*Term]*Term) {
	if len(vs) < 2 {
		return vs, nil
	}
	// optimistic partition refinement
	class := map[*Term]*Term{} // sym -> representative sym
	rep := map[string]*Term{}
	for _, v := range vs {
		k := fmt.Sprint(v.init.id, v.sym.kind)
		if r, ok := rep[k]; ok {
			class[v.sym] = r
		} else {
			rep[k] = v.sym
			class[v.sym] = v.sym
		}
	}
	if len(rep) == len(vs) {
		return vs, nil
	}
	for {
		m := map[*Term]*Term{}
		for s, r := range class {
			if s != r {
				if s.kind == 'b' {
					m[s] = a.rawIte(r, a.T, a.F)
				} else {
					m[s] = r
				}
			}
		}
		if len(m) == 0 {
			return vs, nil
		}
		ctx := a.newSubst(m)
		ncl := map[string]*Term{}
		nclass := map[*Term]*Term{}
		next := make([]*Term, len(vs))
		for i, v := range vs {
			next[i] = ctx.do(v.next)
			k := fmt.Sprint(class[v.sym].id, ":", next[i].id)
			if r, ok := ncl[k]; ok {
				nclass[v.sym] = r
			} else {
				ncl[k] = v.sym
				nclass[v.sym] = v.sym
			}
		}
		stable := len(ncl) == countReps(class)
		class = nclass
		if stable {
			var nv []loopVar
			for i, v := range vs {
				if class[v.sym] == v.sym {
					nv = append(nv, loopVar{v.sym, v.init, next[i]})
				}
			}
			return nv, m
		}
	}
}

func countReps(c map[*Term]*Term) int {
	n := 0
	for s, r := range c {
		if s == r {
			n++
		}
	}
	return n
}

// signatures gives order-insensitive structural hashes used to order loop variables.
func (a *Arena) signatures(vs []loopVar, bit uint64) map[*Term]uint64 {
	sig := map[*Term]uint64{}
	for _, v := range vs {
		sig[v.sym] = mix(uint64(v.init.id)+17, uint64(v.sym.kind))
	}
	for round := 0; round < 3; round++ {
		n := map[*Term]uint64{}
		memo := map[*Term]uint64{}
		for _, v := range vs {
			n[v.sym] = mix(sig[v.sym], a.sigOf(v.next, sig, memo, bit))
		}
		sig = n
	}
	return sig
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	return a
}

func (a *Arena) sigOf(t *Term, sig map[*Term]uint64, memo map[*Term]uint64, bit uint64) uint64 {
	if t == nil {
		return 3
	}
	if s, ok := sig[t]; ok {
		return s
	}
	if t.mask&bit == 0 {
		return mix(uint64(t.id), 5)
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = 7
	var r uint64
	if t.op == OIte {
		// order-insensitive over atoms and leaves
		seen := map[*Term]bool{}
		var rec func(x *Term)
		rec = func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x.op == OIte {
				if !seen[x.args[0]] {
					seen[x.args[0]] = true
					r += mix(11, a.sigOf(x.args[0], sig, memo, bit))
				}
				rec(x.args[1])
				rec(x.args[2])
				return
			}
			r += mix(13, a.sigOf(x, sig, memo, bit))
		}
		rec(t)
	} else if len(t.args) == 0 && len(t.ents) == 0 && t.place == nil {
		if t.op == OMu || t.op == OBMu || t.op == OIter {
			r = mix(19, uint64(t.kind))
		} else {
			r = mix(uint64(t.id), 5)
		}
	} else {
		r = mix(uint64(t.op), uint64(t.k))
		for _, c := range t.s {
			r = mix(r, uint64(c))
		}
		comm := t.op == OPoly || t.op == OMono || (t.op == OFn && (t.s == "and" || t.s == "or" || t.s == "xor"))
		var sum uint64
		for i, x := range t.args {
			h := a.sigOf(x, sig, memo, bit)
			if t.co != nil {
				h = mix(h, uint64(t.co[i]))
			}
			if comm {
				sum += mix(h, 1)
			} else {
				r = mix(r, h)
			}
		}
		for _, e := range t.ents {
			h := uint64(23)
			for _, p := range e.path {
				h = mix(h, a.sigOf(p, sig, memo, bit))
			}
			sum += mix(h, a.sigOf(e.val, sig, memo, bit))
		}
		if t.place != nil {
			for _, c := range t.place.key() {
				r = mix(r, uint64(c))
			}
		}
		r = mix(r, sum)
	}
	memo[t] = r
	return r
}
