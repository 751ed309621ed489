package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
)

// Second stage of a comparison: two normalised values that are not the same
// term are walked together, decision by decision, with the decisions taken so
// far as context.  Boxed values are opened, contradictory contexts pruned, and
// leaves compared under the equalities the context implies.  Everything here is
// rewriting and interval reasoning on the value graphs.

type fact struct {
	up   *fact
	atom *Term // boolean atom, or nil
	val  bool
	body *Term // polynomial body with value in [lo,hi]
	lo   int64
	hi   int64
	n    int
}

type semKey struct {
	m, r *Term
	f    *fact
}

type semEq struct {
	calls  map[[2]*Term]bool
	a      *Arena
	memo   map[semKey]bool
	pend   map[semKey]bool
	budget int
	nfail  int
	subs   map[*Term]*Term
	boxy   map[*Term]bool
	sk     map[*Term]uint64
	deep   int
	proj   bool // drop facts the values do not depend on
	atoms  map[*Term]bitset
	class  map[*Term]int
	clsOf  map[*Term]int
	keep   map[int]bool
	lists  map[string]*fact
}

// classOf numbers condition bodies up to sign and constant.
func (s *semEq) classOf(b *Term) int {
	if i, ok := s.clsOf[b]; ok {
		return i
	}
	k := b
	if b.op == OPoly || b.op == OConst {
		x := s.a.Sub(b, s.a.Int(b.k))
		y := s.a.Scale(x, -1)
		k = x
		if y.id < x.id {
			k = y
		}
	} else if y := s.a.Scale(b, -1); y.id < b.id {
		k = y
	}
	i, ok := s.class[k]
	if !ok {
		i = len(s.class)
		s.class[k] = i
	}
	s.clsOf[b] = i
	return i
}

// atomsOf: the classes of all conditions occurring in t.
func (s *semEq) atomsOf(t *Term) bitset {
	if len(t.args) == 0 && len(t.ents) == 0 {
		return nil
	}
	if v, ok := s.atoms[t]; ok {
		return v
	}
	var r bitset
	one := func(i int) {
		b := make(bitset, i/64+1)
		b[i/64] |= 1 << (uint(i) % 64)
		r = r.union(b)
	}
	switch {
	case t.op == OGe:
		one(s.classOf(t.args[0]))
	case t.kind == 'b' && (t.op == OIte || t.op == OBool):
		one(s.classOf(t))
	}
	for i, x := range t.args {
		if x != nil {
			if t.op == OIte && i == 0 && x.op != OGe {
				one(s.classOf(x))
			}
			r = r.union(s.atomsOf(x))
		}
	}
	for _, e := range t.ents {
		for _, x := range e.path {
			r = r.union(s.atomsOf(x))
		}
		r = r.union(s.atomsOf(e.val))
	}
	s.atoms[t] = r
	return r
}

// project keeps the facts that m and r depend on.
func (s *semEq) project(f *fact, m, r *Term) *fact {
	if f == nil || !s.proj {
		return f
	}
	s.a.clock()
	am, ar := s.atomsOf(m), s.atomsOf(r)
	type item struct {
		id int
		g  *fact
	}
	var l []item
	seen := map[*Term]bool{}
	for g := f; g != nil; g = g.up {
		b := g.body
		if b == nil {
			b = g.atom
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		c := s.classOf(b)
		if !(am.has(c) || ar.has(c) || s.keep[c] || g.body != nil && g.lo == g.hi) {
			continue
		}
		l = append(l, item{b.id, g})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var nf *fact
	key := make([]byte, 0, len(l)*12)
	for _, it := range l {
		key = append(key, fmt.Sprint(it.id, ":", it.g.lo, ":", it.g.hi, it.g.val, ";")...)
		n, ok := s.lists[string(key)]
		if !ok {
			c := *it.g
			c.up = nf
			c.n = 1
			if nf != nil {
				c.n = nf.n + 1
			}
			n = &c
			s.lists[string(key)] = n
		}
		nf = n
	}
	return nf
}

// hasBox: a boxed value occurs as a component (not inside a loop or decision).
func (s *semEq) hasBox(t *Term) bool {
	switch t.op {
	case OBox:
		return true
	case OIte, OLoop, OCore:
		return false
	}
	if len(t.args) == 0 && len(t.ents) == 0 {
		return false
	}
	if v, ok := s.boxy[t]; ok {
		return v
	}
	v := false
	for _, x := range t.args {
		if x != nil && s.hasBox(x) {
			v = true
		}
	}
	for _, e := range t.ents {
		for _, x := range e.path {
			v = v || s.hasBox(x)
		}
	}
	s.boxy[t] = v
	return v
}

// ground replaces the boxed components of t by what they are in context f.  When
// that depends on an open decision, the decision is returned instead.
func (s *semEq) ground(t *Term, f *fact) (*Term, *Term) {
	a := s.a
	s.budget--
	if s.budget < 0 {
		panic(outOfBudget)
	}
	if !s.hasBox(t) {
		return t, nil
	}
	if t.op == OBox {
		c := strip(t)
		for c.op == OIte {
			g, p := s.groundAtom(c.args[0], f)
			if p != nil {
				return nil, p
			}
			for g.op == OIte {
				switch s.decide(g.args[0], f) {
				case 1:
					g = cof(g, g.args[0], true)
				case 0:
					g = cof(g, g.args[0], false)
				default:
					return nil, g.args[0]
				}
			}
			if g == a.T {
				c = strip(c.args[1])
			} else {
				c = strip(c.args[2])
			}
		}
		return s.ground(c, f)
	}
	m := map[*Term]*Term{}
	var pend *Term
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if pend != nil || x == nil || seen[x] || !s.hasBox(x) {
			return
		}
		seen[x] = true
		if x.op == OBox {
			if x.kind == 'b' {
				return
			}
			v, p := s.ground(x, f)
			if p != nil {
				pend = p
				return
			}
			m[x] = v
			return
		}
		for _, y := range x.args {
			rec(y)
		}
		for _, e := range x.ents {
			for _, y := range e.path {
				rec(y)
			}
		}
	}
	rec(t)
	if pend != nil {
		return nil, pend
	}
	if len(m) == 0 {
		return t, nil
	}
	c := a.newSubst(m)
	c.skip = func(x *Term) bool { return !s.hasBox(x) }
	return c.do(t), nil
}

// groundAtom gives the condition an atom stands for in context f.
func (s *semEq) groundAtom(at *Term, f *fact) (*Term, *Term) {
	a := s.a
	if at.op == OBox {
		return strip(at), nil
	}
	switch at.op {
	case OGe:
		if !s.hasBox(at.args[0]) {
			break
		}
		b, p := s.ground(at.args[0], f)
		if p != nil {
			return nil, p
		}
		return s.kept(a.Ge0(a.Sub(b, a.Int(at.k)))), nil
	case OEq:
		if !s.hasBox(at) {
			break
		}
		x, p := s.ground(at.args[0], f)
		if p != nil {
			return nil, p
		}
		y, p := s.ground(at.args[1], f)
		if p != nil {
			return nil, p
		}
		return s.kept(a.Equal(x, y)), nil
	default:
		if !s.hasBox(at) {
			break
		}
		x, p := s.ground(at, f)
		if p != nil {
			return nil, p
		}
		if x.op != OIte && x.op != OBool {
			x = a.rawIte(x, a.T, a.F)
		}
		return s.kept(x), nil
	}
	return a.rawIte(at, a.T, a.F), nil
}

// kept marks the conditions of a grounded diagram: values still hold their
// ungrounded form, so facts about them are never dropped.
func (s *semEq) kept(g *Term) *Term {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op != OIte || seen[t] || len(seen) > 200 {
			return
		}
		seen[t] = true
		at := t.args[0]
		if at.op == OGe {
			at = at.args[0]
		}
		s.keep[s.classOf(at)] = true
		rec(t.args[1])
		rec(t.args[2])
	}
	rec(g)
	return g
}

// skel hashes a term without looking into loops, boxes and decisions.
func (s *semEq) skel(t *Term) (uint64, bool) {
	if v, ok := s.sk[t]; ok {
		return v, v&1 == 1
	}
	opaque := false
	var h uint64
	switch {
	case t.kind == 'b' && (t.op == OIte || t.op == OBool):
		opaque = t.op != OBool
		h = mix(uint64(t.kind), 77)
	case t.op == OIte:
		opaque = true
		h, _ = s.skel(t.args[1])
		if g, _ := s.skel(t.args[2]); g|1 != h|1 {
			h = mix(uint64(t.kind), 77)
		}
	case t.op == OBox:
		opaque = true
		h, _ = s.skel(t.args[0])
	case t.op == OLoop || t.op == OUpd:
		opaque = true
		h = mix(uint64(t.kind), 77)
	case len(t.args) == 0:
		h = mix(uint64(t.id), 5)
	default:
		h = mix(uint64(t.op), uint64(t.k))
		for _, c := range t.s {
			h = mix(h, uint64(c))
		}
		var sum uint64
		for i, x := range t.args {
			if x == nil {
				continue
			}
			g, o := s.skel(x)
			g |= 1
			opaque = opaque || o
			if t.op == OPoly {
				sum += mix(g, uint64(t.co[i])+3)
			} else if t.op == OMono {
				sum += mix(g, 9)
			} else {
				h = mix(h, g)
			}
		}
		h = mix(h, sum)
	}
	h &^= 1
	if opaque {
		h |= 1
	}
	s.sk[t] = h
	return h, opaque
}

// alike: two bodies of conditions that are the same value.
func (s *semEq) alike(x, y *Term, f *fact) (ok bool) {
	if x == y {
		return true
	}
	if x.kind != y.kind || s.deep > 3 {
		return false
	}
	h, o := s.skel(x)
	g, q := s.skel(y)
	if !o && !q || h|1 != g|1 && !s.sameCall(x, y) {
		return false
	}
	deep, before := s.deep, s.budget
	s.deep++
	if deep == 0 && s.budget > alikeBudget {
		// a match that takes long to find is not worth it
		s.budget = alikeBudget
		defer func() {
			s.budget += before - alikeBudget
			if v := recover(); v != nil {
				if ab, is := v.(evalAbort); !is || ab != outOfBudget || before <= alikeBudget {
					panic(v)
				}
				s.deep, ok = deep, false
			}
		}()
	}
	if x.op == OPoly {
		ok = s.pairs(s.a.Sub(x, y), f)
	} else {
		ok = s.shape(x, y, f)
	}
	s.deep = deep
	return ok
}

// sameCall: two results of a function whose arguments may be equal.
func (s *semEq) sameCall(x, y *Term) bool {
	if x.kind != 'b' && x.kind != 'i' || x.op != y.op || x.s != y.s || x.k != y.k || len(x.args) != 1 || len(y.args) != 1 {
		return false
	}
	return s.sameCallOf(x, y)
}

// sameCallOf: two results of a call whose arguments may be equal.
func (s *semEq) sameCallOf(x, y *Term) bool {
	if x.op != y.op || x.s != y.s || x.k != y.k || len(x.args) != 1 || len(y.args) != 1 {
		return false
	}
	key := [2]*Term{x, y}
	if ok, seen := s.calls[key]; seen {
		return ok
	}
	ok := s.sameArgs(x.args[0], y.args[0])
	s.calls[key] = ok
	return ok
}

func (s *semEq) sameArgs(x, y *Term) bool {
	if x.op != OCall || x.op != y.op || x.s != y.s || x.k != y.k || len(x.args) != len(y.args) {
		return false
	}
	for i, p := range x.args {
		q := y.args[i]
		if p == q {
			continue
		}
		if p == nil || q == nil || p.kind != q.kind {
			return false
		}
		if p.op == OIte || q.op == OIte || p.op == OBox || q.op == OBox {
			continue
		}
		if len(p.args) == 1 && p.args[0].op == OCall && s.sameCallOf(p, q) {
			continue
		}
		if h, _ := s.skel(p); true {
			if g, _ := s.skel(q); h|1 != g|1 {
				return false
			}
		}
	}
	return true
}

var alikeBudget = func() int {
	if v, err := strconv.Atoi(os.Getenv("GOV1_ALIKE")); err == nil {
		return v
	}
	return 400
}()

var outOfBudget = evalAbort{"comparison budget exceeded"}

func (a *Arena) sameValue(m, r *Term) bool {
	if m == nil || r == nil {
		return m == r
	}
	if m == r {
		return true
	}
	s := newSemEq(a)
	ok := false
	for mode := 0; mode < 2 && !ok; mode++ {
		ok = s.attempt(m, r, mode == 0, 150000)
	}
	return ok
}

func newSemEq(a *Arena) *semEq {
	return &semEq{a: a, subs: map[*Term]*Term{}, boxy: map[*Term]bool{}, sk: map[*Term]uint64{}, atoms: map[*Term]bitset{}, class: map[*Term]int{}, clsOf: map[*Term]int{}, keep: map[int]bool{}, lists: map[string]*fact{}, calls: map[[2]*Term]bool{}}
}

func (s *semEq) attempt(m, r *Term, proj bool, budget int) (ok bool) {
	a := s.a
	s.proj, s.deep = proj, 0
	s.memo = map[semKey]bool{}
	s.budget = budget
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(evalAbort); !is {
					panic(x)
				}
				if os.Getenv("GOV1_SEM") != "" {
					fmt.Println("ABORT", x)
				}
			}
		}()
		lim, ops := a.limit, a.ops
		a.ops = 0
		a.limit = a.n + 400000
		defer func() { a.limit, a.ops = lim+400000, ops }()
		ok = s.eq(m, r, nil)
	}()
	return ok
}

// strip opens a boxed value.
func strip(t *Term) *Term {
	for {
		if t.op == OBox {
			t = t.args[0]
			continue
		}
		if t.op == OIte && t.kind == 'b' && t.args[0].op == OBox && t.args[1].op == OBool && t.args[2].op == OBool && t.args[1].k == 1 && t.args[2].k == 0 {
			t = t.args[0].args[0]
			continue
		}
		return t
	}
}

// bounds of a polynomial body under the context.
func (s *semEq) bounds(body *Term, f *fact) (int64, int64) {
	lo, hi := s.a.rng(body)
	for g := f; g != nil; g = g.up {
		if g.body == body {
			lo, hi = max(lo, g.lo), min(hi, g.hi)
		}
	}
	return lo, hi
}

// decide: 1 true, 0 false, -1 open.
func (s *semEq) decide(at *Term, f *fact) int {
	if at.op != OGe {
		for g := f; g != nil; g = g.up {
			if g.atom != nil && (g.atom == at || s.alike(g.atom, at, g.up)) {
				if g.val {
					return 1
				}
				return 0
			}
		}
		return -1
	}
	lo, hi := s.bounds(at.args[0], f)
	if lo >= at.k {
		return 1
	}
	if hi < at.k {
		return 0
	}
	// a body that differs by a constant (or in sign) from a constrained one
	for g := f; g != nil; g = g.up {
		if g.body == nil || g.body == at.args[0] {
			continue
		}
		if al, be, ok := s.a.linearIn(at.args[0], g.body); ok && al != 0 {
			l, h := satAdd(satMul(g.lo, al), be), satAdd(satMul(g.hi, al), be)
			if al < 0 {
				l, h = h, l
			}
			if l >= at.k {
				return 1
			}
			if h < at.k {
				return 0
			}
		} else if g.body.op == at.args[0].op && g.body.kind == 'i' {
			al, be, ok := s.aliked(at.args[0], g.body, g.up)
			if !ok {
				continue
			}
			l, h := satAdd(satMul(g.lo, al), be), satAdd(satMul(g.hi, al), be)
			if al < 0 {
				l, h = h, l
			}
			if l >= at.k {
				return 1
			}
			if h < at.k {
				return 0
			}
		}
	}
	return -1
}

// aliked: x = al*y + be for bodies that are the same value up to sign and constant.
func (s *semEq) aliked(x, y *Term, f *fact) (int64, int64, bool) {
	a := s.a
	x0, y0 := x, y
	var xk, yk int64
	if x.op == OPoly {
		xk, yk = x.k, y.k
		x0, y0 = a.Sub(x, a.Int(xk)), a.Sub(y, a.Int(yk))
	}
	if s.alike(x0, y0, f) {
		return 1, xk - yk, true
	}
	if x.op == OPoly && s.alike(x0, a.Scale(y0, -1), f) {
		return -1, xk + yk, true
	}
	return 0, 0, false
}

func (s *semEq) with(f *fact, at *Term, val bool) *fact {
	n := 1
	if f != nil {
		n = f.n + 1
	}
	if at.op == OGe {
		g := &fact{up: f, body: at.args[0], lo: -inf, hi: inf, n: n}
		if val {
			g.lo = at.k
		} else {
			g.hi = at.k - 1
		}
		g.lo, g.hi = s.merge(g, f)
		return g
	}
	return &fact{up: f, atom: at, val: val, n: n}
}

func (s *semEq) merge(g *fact, f *fact) (int64, int64) {
	lo, hi := s.bounds(g.body, f)
	return max(lo, g.lo), min(hi, g.hi)
}

// contradictory: two constrained bodies whose sum or difference is constant.
func (s *semEq) contradictory(f *fact) bool {
	a := s.a
	var bs []*fact
	seen := map[*Term]bool{}
	for g := f; g != nil; g = g.up {
		if g.body != nil && !seen[g.body] {
			seen[g.body] = true
			bs = append(bs, g)
			if g.lo > g.hi {
				return true
			}
		}
	}
	if len(bs) > 24 {
		bs = bs[:24]
	}
	if ns, no := s.pinned(bs); no {
		return true
	} else if len(ns) > 0 {
		bs = append(bs, ns...)
	}
	for i, x := range bs {
		for _, y := range bs[i+1:] {
			if d := a.Add(x.body, y.body); d.op == OConst {
				// x+y = k
				if satAdd(x.lo, y.lo) > d.k || satAdd(x.hi, y.hi) < d.k {
					return true
				}
			}
			if d := a.Sub(x.body, y.body); d.op == OConst {
				if satAdd(x.lo, -min(y.hi, inf)) > d.k || satAdd(x.hi, -max(y.lo, -inf)) < d.k {
					return true
				}
			}
		}
	}
	// sums of two constrained bodies bounding a third
	for i, x := range bs {
		for j, y := range bs {
			if j <= i {
				continue
			}
			for _, sg := range [][2]int64{{1, 1}, {1, -1}, {-1, 1}, {-1, -1}} {
				d := a.Add(a.Scale(x.body, sg[0]), a.Scale(y.body, sg[1]))
				if d.op == OIte {
					continue
				}
				for _, z := range bs {
					al, be, ok := a.linearIn(d, z.body)
					if !ok || al == 0 {
						continue
					}
					l, h := satAdd(sc(x, sg[0], false), sc(y, sg[1], false)), satAdd(sc(x, sg[0], true), sc(y, sg[1], true))
					zl, zh := satAdd(satMul(z.lo, al), be), satAdd(satMul(z.hi, al), be)
					if al < 0 {
						zl, zh = zh, zl
					}
					if l > zh || h < zl {
						return true
					}
				}
			}
		}
	}
	return false
}

// pins substitutes the values that the context fixes for the terms they are the
// values of; nil when it fixes none.
func (s *semEq) pins(bs []*fact) *substCtx {
	a := s.a
	var m map[*Term]*Term
	for _, g := range bs {
		if g.lo != g.hi {
			continue
		}
		x, k := g.body, int64(0)
		if x.op == OPoly {
			if len(x.args) != 1 || x.co[0] != 1 {
				continue
			}
			x, k = x.args[0], x.k
		}
		if x.op == OIte || x.op == OBox || x.op == OConst || x.op == OLoop || x.kind != 'i' {
			continue
		}
		if m == nil {
			m = map[*Term]*Term{}
		}
		m[x] = a.Int(g.lo - k)
	}
	if m == nil {
		return nil
	}
	c := a.newSubst(m)
	c.skip = func(*Term) bool { return false }
	return c
}

// pinEq: the values are the same once the fixed terms are put in.
func (s *semEq) pinEq(m, r *Term, f *fact) bool {
	if m.kind != 'i' || m.sz > 400 || r.sz > 400 {
		return false
	}
	var bs []*fact
	seen := map[*Term]bool{}
	for g := f; g != nil; g = g.up {
		if g.body != nil && !seen[g.body] {
			seen[g.body] = true
			bs = append(bs, g)
		}
	}
	c := s.pins(bs)
	return c != nil && c.do(m) == c.do(r)
}

// pinned restates the constrained bodies with the values that the context fixes
// put in for the terms they are the values of; the second result reports that
// no value is left for one of them.
func (s *semEq) pinned(bs []*fact) ([]*fact, bool) {
	a := s.a
	c := s.pins(bs)
	if c == nil {
		return nil, false
	}
	var ns []*fact
	for _, g := range bs {
		if g.lo == g.hi || g.body.sz > 400 {
			continue
		}
		b := c.do(g.body)
		if b == g.body || b.op == OIte || b.op == OBox {
			continue
		}
		if b.op == OConst {
			if b.k < g.lo || b.k > g.hi {
				return nil, true
			}
			continue
		}
		l, h := a.rng(b)
		l, h = max(l, g.lo), min(h, g.hi)
		for _, y := range bs {
			if y.body == b {
				l, h = max(l, y.lo), min(h, y.hi)
			}
		}
		for _, y := range ns {
			if y.body == b {
				l, h = max(l, y.lo), min(h, y.hi)
			}
		}
		if l > h {
			return nil, true
		}
		ns = append(ns, &fact{body: b, lo: l, hi: h})
	}
	return ns, false
}

func sc(f *fact, sg int64, hi bool) int64 {
	l, h := f.lo, f.hi
	if sg < 0 {
		l, h = -h, -l
	}
	if hi {
		return h
	}
	return l
}

func (s *semEq) eq(m, r *Term, f *fact) bool {
	m, r = strip(m), strip(r)
	if m == r {
		return true
	}
	if m == nil || r == nil || m.kind != r.kind {
		return false
	}
	s.budget--
	if s.budget < 0 {
		panic(outOfBudget)
	}
	f = s.project(f, m, r)
	k := semKey{m, r, f}
	if v, ok := s.memo[k]; ok {
		return v
	}
	if f != nil {
		if v, ok := s.memo[semKey{m, r, nil}]; ok && v {
			return true
		}
	}
	v := s.eq1(m, r, f)
	s.memo[k] = v
	return v
}

func (s *semEq) eq1(m, r *Term, f *fact) bool {
	a := s.a
	if m.op == OIte || r.op == OIte {
		top := minTop(m, r)
		at := top
		if top.op == OBox { // a boxed condition: decide its inside
			c := strip(a.rawIte(top, a.T, a.F))
			return s.split(c, m, r, top, f)
		}
		g, p := s.groundAtom(at, f)
		if p != nil {
			return s.eq(m, r, s.with(f, p, true)) && s.eq(m, r, s.with(f, p, false))
		}
		if !(g.op == OIte && g.args[0] == at) {
			return s.split(g, m, r, top, f)
		}
		switch s.decide(at, f) {
		case 1:
			return s.eq(cof(m, top, true), cof(r, top, true), f)
		case 0:
			return s.eq(cof(m, top, false), cof(r, top, false), f)
		}
		m1, r1, m0, r0 := cof(m, top, true), cof(r, top, true), cof(m, top, false), cof(r, top, false)
		if m1 != r1 && !s.eq(m1, r1, s.with(f, at, true)) {
			return false
		}
		return m0 == r0 || s.eq(m0, r0, s.with(f, at, false))
	}
	if m1, r1 := s.trimmed(m, f), s.trimmed(r, f); m1 != m || r1 != r {
		return s.eq(m1, r1, f)
	}
	if m.op == OLoop && r.op != OLoop {
		if x := s.unstarted(m, f); x != nil {
			return s.eq(x, r, f)
		}
	} else if r.op == OLoop && m.op != OLoop {
		if x := s.unstarted(r, f); x != nil {
			return s.eq(m, x, f)
		}
	}
	if s.leaf(m, r, f) || s.pinEq(m, r, f) || s.sliced(m, r, f) {
		return true
	}
	if s.contradictory(f) {
		return true
	}
	if e := os.Getenv("GOV1_SEM"); e != "" && (e == "1" || !s.proj) && s.nfail < 3 {
		s.nfail++
		fmt.Println("LEAF", show(m, 7), "\n  VS", show(r, 7))
		fmt.Println("  EXPLAIN", a.explain(m, r))
		for g := f; g != nil; g = g.up {
			if g.body != nil {
				fmt.Println("    ", g.lo, "<=", show(g.body, 7), "<=", g.hi)
			} else {
				fmt.Println("    ", g.val, show(g.atom, 7))
			}
		}
	}
	return false
}

// unstarted: the value of a loop that, given f, ends before its first iteration.
func (s *semEq) unstarted(t *Term, f *fact) *Term {
	at := s.a.atStart(t)
	if at[0] == s.a.F || !s.under(at[0], false, s.a.T, s.a.F, f) {
		return nil
	}
	return at[1]
}

// trimmed leaves out the elements of t that, given f, are written with what they hold.
func (s *semEq) trimmed(t *Term, f *fact) *Term {
	if t.op != OUpd || f == nil {
		return t
	}
	a := s.a
	var keep []updEnt
	for _, e := range t.ents {
		if e.val.op == OIte {
			old := a.selLike(t.args[0], e.path, e.val)
			if old != nil && old.op != OIte && hasLeaf(e.val, old, map[*Term]bool{}) && s.eq(e.val, old, f) {
				continue
			}
		}
		keep = append(keep, e)
	}
	if len(keep) == len(t.ents) {
		return t
	}
	return a.mkUpd(t.args[0], keep)
}

func hasLeaf(t, x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if t.op != OIte || seen[t] {
		return false
	}
	seen[t] = true
	return hasLeaf(t.args[1], x, seen) || hasLeaf(t.args[2], x, seen)
}

// split walks the decisions of a boxed condition c standing for atom top.
func (s *semEq) split(c, m, r, top *Term, f *fact) bool {
	c = strip(c)
	s.budget--
	if s.budget < 0 {
		panic(outOfBudget)
	}
	if c == s.a.T {
		return s.eq(cof(m, top, true), cof(r, top, true), f)
	}
	if c == s.a.F {
		return s.eq(cof(m, top, false), cof(r, top, false), f)
	}
	at := c.args[0]
	if at.op == OBox {
		in := strip(at.args[0])
		return s.splitIn(in, c, m, r, top, f)
	}
	g, p := s.groundAtom(at, f)
	if p != nil {
		return s.split(c, m, r, top, s.with(f, p, true)) && s.split(c, m, r, top, s.with(f, p, false))
	}
	if !(g.op == OIte && g.args[0] == at) {
		return s.splitIn(g, c, m, r, top, f)
	}
	switch s.decide(at, f) {
	case 1:
		return s.split(cof(c, at, true), m, r, top, f)
	case 0:
		return s.split(cof(c, at, false), m, r, top, f)
	}
	return s.split(cof(c, at, true), m, r, top, s.with(f, at, true)) && s.split(cof(c, at, false), m, r, top, s.with(f, at, false))
}

// under: m and r are equal wherever condition c has value val.
func (s *semEq) under(c *Term, val bool, m, r *Term, f *fact) bool {
	if m == r {
		return true
	}
	c = strip(c)
	s.budget--
	if s.budget < 0 {
		panic(outOfBudget)
	}
	if c == s.a.T || c == s.a.F {
		return (c == s.a.T) != val || s.eq(m, r, f)
	}
	if c.op != OIte {
		return s.eq(m, r, f)
	}
	at := c.args[0]
	if at.op == OBox {
		return s.under(s.a.Ite(strip(at.args[0]), c.args[1], c.args[2]), val, m, r, f)
	}
	g, p := s.groundAtom(at, f)
	if p != nil {
		return s.under(c, val, m, r, s.with(f, p, true)) && s.under(c, val, m, r, s.with(f, p, false))
	}
	if !(g.op == OIte && g.args[0] == at) {
		return s.under(s.a.Ite(g, c.args[1], c.args[2]), val, m, r, f)
	}
	switch s.decide(at, f) {
	case 1:
		return s.under(cof(c, at, true), val, m, r, f)
	case 0:
		return s.under(cof(c, at, false), val, m, r, f)
	}
	return s.under(cof(c, at, true), val, m, r, s.with(f, at, true)) && s.under(cof(c, at, false), val, m, r, s.with(f, at, false))
}

// splitIn: a box inside a boxed condition.
func (s *semEq) splitIn(in, c, m, r, top *Term, f *fact) bool {
	x := s.a.Ite(in, c.args[1], c.args[2])
	return s.split(x, m, r, top, f)
}

func (s *semEq) leaf(m, r *Term, f *fact) bool {
	a := s.a
	if m.kind == 'i' {
		// open boxes and simplify embedded values
		if s.hasBox(m) || s.hasBox(r) {
			mb, p := s.ground(m, f)
			if p == nil {
				var rb *Term
				rb, p = s.ground(r, f)
				if p == nil && (mb != m || rb != r) {
					return s.eq(mb, rb, f)
				}
			}
			if p != nil {
				return s.eq(m, r, s.with(f, p, true)) && s.eq(m, r, s.with(f, p, false))
			}
		}
		d := a.Sub(m, r)
		if d.op == OIte {
			return false
		}
		if s.zero(d, f) {
			return true
		}
		if s.pairs(d, f) {
			return true
		}
	}
	return s.shape(m, r, f)
}

// open replaces boxed monomials of a polynomial by their contents.
func (s *semEq) open(t *Term) *Term {
	if v, ok := s.subs[t]; ok {
		return v
	}
	v := t
	switch t.op {
	case OBox:
		v = strip(t)
	case OPoly:
		ch := false
		sum := s.a.Int(t.k)
		for i, x := range t.args {
			y := strip(x)
			if y == x && x.op == OMono {
				y = s.open(x)
			}
			if y != x {
				ch = true
			}
			sum = s.a.Add(sum, s.a.Scale(y, t.co[i]))
		}
		if ch {
			v = sum
		}
	case OMono:
		ch := false
		p := s.a.Int(1)
		for _, x := range t.args {
			y := strip(x)
			if y != x {
				ch = true
			}
			p = s.a.Mul(p, y)
		}
		if ch {
			v = p
		}
	}
	s.subs[t] = v
	return v
}

// zero: d is 0 under the equalities of the context.
func (s *semEq) zero(d *Term, f *fact) bool {
	if d.op == OConst {
		return d.k == 0
	}
	a := s.a
	used := map[*Term]bool{}
	for round := 0; round < 6; round++ {
		changed := false
		for g := f; g != nil; g = g.up {
			if g.body == nil || g.lo != g.hi || used[g.body] {
				continue
			}
			bm, _ := polyOf(g.body)
			dm, _ := polyOf(d)
			for _, x := range sortedTerms(bm) {
				c := bm[x]
				if c != 1 && c != -1 {
					continue
				}
				q := dm[x]
				if q == 0 {
					continue
				}
				// d -= (q/c) * (body - v)
				d = a.Sub(d, a.Scale(a.Sub(g.body, a.Int(g.lo)), q*c))
				used[g.body] = true
				changed = true
				break
			}
			if d.op == OConst {
				return d.k == 0
			}
			if d.op == OIte {
				return false
			}
		}
		if !changed {
			break
		}
	}
	return false
}

func sortedTerms(m map[*Term]int64) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// pairs: the remaining summands cancel in pairs of equal values.
func (s *semEq) pairs(d *Term, f *fact) bool {
	dm, k := polyOf(d)
	if k != 0 || len(dm) < 2 || len(dm)%2 != 0 || len(dm) > 8 {
		return false
	}
	ts := sortedTerms(dm)
	used := make([]bool, len(ts))
	for i, x := range ts {
		if used[i] {
			continue
		}
		ok := false
		for j := i + 1; j < len(ts); j++ {
			if used[j] || dm[ts[j]] != -dm[x] || ts[j].op != x.op || ts[j].s != x.s {
				continue
			}
			if s.shape(x, ts[j], f) {
				used[i], used[j], ok = true, true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// shape: same construction from equal parts.
func (s *semEq) shape(m, r *Term, f *fact) bool {
	if m.op != r.op || m.s != r.s || m.k != r.k || len(m.args) != len(r.args) || len(m.ents) != len(r.ents) || m.tab != r.tab || m.fn != r.fn {
		return false
	}
	switch m.op {
	case OPoly, OConst, OStr, OBool, OSym, OMu, OBMu, OIter, OAddr, OSlice, OTable, OUndef:
		return false
	}
	if (m.place == nil) != (r.place == nil) || m.place != nil && m.place.key() != r.place.key() {
		return false
	}
	if m.op == OZero || m.op == OStruct {
		if typeStr(m.typ) != typeStr(r.typ) {
			return false
		}
	}
	switch m.op {
	case OCore: // next values matter only while the loop goes on
		for i := range m.args {
			x, y := m.args[i], r.args[i]
			if x == y {
				continue
			}
			if i > 0 && i%3 == 0 {
				if !s.under(m.args[0], false, x, y, f) {
					return false
				}
				continue
			}
			if !s.eq(x, y, f) {
				return false
			}
		}
		return true
	case OLoop: // results matter only when it ends
		mc, rc, mv, rv := m.args[0], r.args[0], m.args[1], r.args[1]
		if mc != rc {
			mc, mv, rc, rv = s.marked(mc, mv, rc, rv, f)
		}
		if mc != rc && (mc.k != rc.k || !s.eq(mc, rc, f)) {
			return false
		}
		return mv == rv || s.under(mc.args[0], true, mv, rv, f)
	}
	for i := range m.args {
		x, y := m.args[i], r.args[i]
		if (x == nil) != (y == nil) {
			return false
		}
		if x != nil && x != y && !s.eq(x, y, f) {
			return false
		}
	}
	if len(m.ents) == 0 {
		return true
	}
	// overlay entries: same positions, equal values
	used := make([]bool, len(r.ents))
	for _, e := range m.ents {
		ok := false
		for j, g := range r.ents {
			if used[j] || len(g.path) != len(e.path) {
				continue
			}
			same := true
			for i := range e.path {
				if e.path[i] != g.path[i] && !s.eq(e.path[i], g.path[i], f) {
					same = false
					break
				}
			}
			if same && (e.val == g.val || s.eq(e.val, g.val, f)) {
				used[j], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// raised renames the variables of a loop to those of level h, if it is of a
// lower one; nil if they are in use there.
func (s *semEq) raised(core, v *Term, h int64) (*Term, *Term) {
	if core.k >= h {
		return core, v
	}
	free := v.mask
	for i, x := range core.args {
		if i == 0 || i%3 == 0 {
			free |= x.mask
		}
	}
	if h >= 24 || free&bitBound(h) != 0 {
		return nil, nil
	}
	m := map[*Term]*Term{s.a.mk(&Term{op: OIter, k: core.k, kind: 'i'}): s.a.mk(&Term{op: OIter, k: h, kind: 'i'})}
	t := &Term{op: core.op, kind: core.kind, k: h, s: core.s, typ: core.typ, args: append([]*Term(nil), core.args...)}
	for i := 1; i < len(core.args); i += 3 {
		b := core.args[i]
		z := s.a.mk(&Term{op: OBMu, s: b.s, k: h<<16 | b.k&0xffff, kind: b.kind, typ: b.typ})
		t.args[i], m[b] = z, z
		if b.kind == 'b' {
			m[b] = s.a.rawIte(z, s.a.T, s.a.F)
		}
	}
	c := s.a.newSubst(m)
	for i, x := range core.args {
		if i == 0 || i > 1 && i%3 == 0 {
			t.args[i] = c.do(x)
		}
	}
	return s.a.mk(t), c.do(v)
}

// marked gives corresponding loop variables of two loops the same number and
// mark.  The variables of a loop are numbered by their initial values, so values
// that are equal but not the same term can order them differently; and that a
// variable is never negative holds for both when the loops turn out equal.
func (s *semEq) marked(mc, mv, rc, rv *Term, f *fact) (*Term, *Term, *Term, *Term) {
	if len(mc.args) != len(rc.args) {
		return mc, mv, rc, rv
	}
	if mc.k != rc.k {
		// one of them has more loops inside
		m1, v1 := s.raised(mc, mv, rc.k)
		r1, w1 := s.raised(rc, rv, mc.k)
		if m1 == nil || r1 == nil {
			return mc, mv, rc, rv
		}
		mc, mv, rc, rv = m1, v1, r1, w1
		if mc == rc {
			return mc, mv, rc, rv
		}
	}
	n := len(mc.args) / 3
	of := make([]int, n) // variable of r for each of m
	used := make([]bool, n)
	fits := func(i, j int) bool {
		x, y := mc.args[1+3*i], rc.args[1+3*j]
		return x.op == OBMu && y.op == OBMu && x.kind == y.kind && (x.typ == nil) == (y.typ == nil) && (x.typ == nil || typeStr(x.typ) == typeStr(y.typ))
	}
	for i := range of {
		of[i] = -1
		for j := range used {
			if !used[j] && fits(i, j) && mc.args[2+3*i] == rc.args[2+3*j] {
				of[i], used[j] = j, true
				break
			}
		}
	}
	for i := range of {
		if of[i] >= 0 {
			continue
		}
		var l []int
		for j := range used {
			if !used[j] && fits(i, j) {
				l = append(l, j)
			}
		}
		for k, j := range l {
			if k == len(l)-1 || s.eq(mc.args[2+3*i], rc.args[2+3*j], f) {
				of[i], used[j] = j, true
				break
			}
		}
		if of[i] < 0 {
			return mc, mv, rc, rv
		}
	}
	mm, rm := map[*Term]*Term{}, map[*Term]*Term{}
	for i, j := range of {
		x, y := mc.args[1+3*i], rc.args[1+3*j]
		z := x
		if y.s == nonNeg && x.s == "" {
			z = s.a.mk(&Term{op: OBMu, s: nonNeg, k: x.k, kind: x.kind, typ: x.typ})
			mm[x] = z
		}
		if y != z {
			rm[y] = z
		}
	}
	ren := func(core, v *Term, m map[*Term]*Term, of []int) (*Term, *Term) {
		if len(m) == 0 {
			return core, v
		}
		for k, z := range m {
			if k.kind == 'b' {
				m[k] = s.a.rawIte(z, s.a.T, s.a.F)
			}
		}
		c := s.a.newSubst(m)
		t := &Term{op: core.op, kind: core.kind, k: core.k, s: core.s, typ: core.typ, args: make([]*Term, len(core.args))}
		t.args[0] = c.do(core.args[0])
		for i := 0; i < n; i++ {
			j := i
			if of != nil {
				j = of[i]
			}
			b := core.args[1+3*j]
			if z, ok := m[b]; ok {
				if b = z; b.op == OIte {
					b = b.args[0]
				}
			}
			t.args[1+3*i], t.args[2+3*i], t.args[3+3*i] = b, core.args[2+3*j], c.do(core.args[3+3*j])
		}
		return s.a.mk(t), c.do(v)
	}
	mc, mv = ren(mc, mv, mm, nil)
	rc, rv = ren(rc, rv, rm, of)
	return mc, mv, rc, rv
}
