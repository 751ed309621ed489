package main

import "sort"

// ---------------------------------------------------------------------------
// Arrays whose elements of a different constant index are written apart.
//
// When every write to a content has a constant at some position of its path, the content is the
// product of its slices: two contents are equal if, for each index, they are
// equal with the writes to all other indices left out.  Leaving them out is
// only sound where nothing computed reads an element of another index.
// ---------------------------------------------------------------------------

type slicer struct {
	a    *Arena
	d    int // the index that is looked at
	k    int64
	bad  bool
	vars map[*Term]bool // content loop variables of the sliced content
	memo map[*Term]*Term
}

// carriers are the loop variables a content is built on.
type carriers map[*Term]bool

func (c carriers) add(t *Term) {
	t = strip(t)
	switch t.op {
	case OUpd:
		c.add(t.args[0])
	case OIte:
		c.add(t.args[1])
		c.add(t.args[2])
	case OLoop:
		in := spine(t.args[1])
		in.through(t.args[0])
		for i := 1; i+2 < len(t.args[0].args); i += 3 {
			delete(in, t.args[0].args[i]) // bound there
		}
		for x := range in {
			c[x] = true
		}
		// what the carried variables start from belongs to this scope
		on := spine(t.args[1])
		on.through(t.args[0])
		for i := 1; i+2 < len(t.args[0].args); i += 3 {
			if on[t.args[0].args[i]] {
				c.add(t.args[0].args[i+1])
			}
		}
	case OBMu:
		c[t] = true
	}
}

func spine(t *Term) carriers {
	c := carriers{}
	c.add(t)
	return c
}

// through follows the variables of core to their next values.
func (c carriers) through(core *Term) {
	done := map[*Term]bool{}
	for again := true; again; {
		again = false
		for i := 1; i+2 < len(core.args); i += 3 {
			x := core.args[i]
			if c[x] && !done[x] {
				done[x], again = true, true
				c.add(core.args[i+2])
			}
		}
	}
}

// firsts collects the constants written at position d of paths in t; false if another
// kind of write occurs.
func firsts(t *Term, d int, ks map[int64]bool, seen map[*Term]bool) bool {
	t = strip(t)
	if seen[t] {
		return true
	}
	seen[t] = true
	if len(seen) > 400 {
		return false
	}
	switch t.op {
	case OUpd:
		for _, e := range t.ents {
			if len(e.path) <= d || e.path[d].op != OConst {
				return false
			}
			ks[e.path[d].k] = true
		}
		return firsts(t.args[0], d, ks, seen)
	case OIte:
		return firsts(t.args[1], d, ks, seen) && firsts(t.args[2], d, ks, seen)
	case OLoop:
		core := t.args[0]
		if !firsts(t.args[1], d, ks, seen) {
			return false
		}
		for again := true; again; {
			again = false
			for i := 1; i+2 < len(core.args); i += 3 {
				x := core.args[i]
				if x.kind != 'o' || !seen[x] || seen[core.args[i+1]] && seen[core.args[i+2]] {
					continue
				}
				again = true
				if !firsts(core.args[i+1], d, ks, seen) || !firsts(core.args[i+2], d, ks, seen) {
					return false
				}
				seen[core.args[i+1]], seen[core.args[i+2]] = true, true
			}
		}
	}
	return true
}

// do leaves the writes to other indices out of content t.
func (p *slicer) do(t *Term) *Term {
	t = strip(t)
	if v, ok := p.memo[t]; ok {
		return v
	}
	a := p.a
	v := t
	switch t.op {
	case OUpd:
		base := p.do(t.args[0])
		var keep []updEnt
		for _, e := range t.ents {
			if len(e.path) <= p.d || e.path[p.d].op != OConst {
				p.bad = true
			} else if e.path[p.d].k == p.k {
				keep = append(keep, e)
			}
		}
		v = base
		for _, e := range keep {
			v = a.Upd(v, e.path, e.val)
		}
	case OIte:
		v = a.mkIte(t.args[0], p.do(t.args[1]), p.do(t.args[2]))
	case OLoop:
		core := t.args[0]
		out := p.do(t.args[1])
		args := append([]*Term(nil), core.args...)
		carried := spine(t.args[1])
		carried.through(core)
		for i := 1; i+2 < len(args); i += 3 {
			if carried[args[i]] {
				p.vars[args[i]] = true
				args[i+1], args[i+2] = p.do(args[i+1]), p.do(args[i+2])
			}
		}
		v = nil
		for i := 1; i+2 < len(args); i += 3 {
			if args[i] == out && args[i+2] == out {
				v = args[i+1] // nothing left to do
			}
		}
		if v == nil {
			c := &Term{op: core.op, kind: core.kind, k: core.k, s: core.s, typ: core.typ, args: args}
			v = a.mk(&Term{op: t.op, kind: t.kind, k: t.k, s: t.s, typ: t.typ, args: []*Term{a.mk(c), out}})
		}
	}
	p.memo[t] = v
	return v
}

// clean: the sliced variables are only carried on, or read at index k.
func (p *slicer) clean(t *Term, spine bool, seen map[[2]interface{}]bool) bool {
	if t == nil {
		return true
	}
	key := [2]interface{}{t, spine}
	if seen[key] {
		return true
	}
	seen[key] = true
	if len(seen) > 20000 {
		return false
	}
	if p.vars[t] {
		return spine
	}
	switch t.op {
	case OBox:
		return p.clean(t.args[0], spine, seen)
	case OSel:
		from := 1
		if p.vars[t.args[0]] {
			if len(t.args) <= 1+p.d || t.args[1+p.d].op != OConst || t.args[1+p.d].k != p.k {
				return false
			}
		} else if !p.clean(t.args[0], false, seen) {
			return false
		}
		for _, x := range t.args[from:] {
			if !p.clean(x, false, seen) {
				return false
			}
		}
		return true
	case OUpd:
		if !p.clean(t.args[0], spine, seen) {
			return false
		}
		for _, e := range t.ents {
			for _, x := range e.path {
				if !p.clean(x, false, seen) {
					return false
				}
			}
			if !p.clean(e.val, false, seen) {
				return false
			}
		}
		return true
	case OIte:
		return p.clean(t.args[0], false, seen) && p.clean(t.args[1], spine, seen) && p.clean(t.args[2], spine, seen)
	case OLoop:
		core := t.args[0]
		if !p.clean(core.args[0], false, seen) || !p.clean(t.args[1], spine, seen) {
			return false
		}
		for i := 1; i+2 < len(core.args); i += 3 {
			sp := spine && p.vars[core.args[i]]
			if !p.clean(core.args[i+1], sp, seen) || !p.clean(core.args[i+2], sp, seen) {
				return false
			}
		}
		return true
	}
	for _, x := range t.args {
		if !p.clean(x, false, seen) {
			return false
		}
	}
	for _, e := range t.ents {
		if !p.clean(e.val, false, seen) {
			return false
		}
		for _, x := range e.path {
			if !p.clean(x, false, seen) {
				return false
			}
		}
	}
	return true
}

// sliced compares two contents index by index.
func (s *semEq) sliced(m, r *Term, f *fact) bool {
	if m.kind != 'o' || m.op != OLoop && m.op != OUpd || r.op != OLoop && r.op != OUpd {
		return false
	}
	for d := 0; d < 4; d++ {
		ks := map[int64]bool{}
		if !firsts(m, d, ks, map[*Term]bool{}) || !firsts(r, d, ks, map[*Term]bool{}) || len(ks) < 2 || len(ks) > 4 {
			continue
		}
		var l []int64
		for k := range ks {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		if s.slices(m, r, d, l, f) {
			return true
		}
	}
	return false
}

func (s *semEq) slices(m, r *Term, d int, l []int64, f *fact) bool {
	for _, k := range l {
		p := &slicer{a: s.a, d: d, k: k, vars: map[*Term]bool{}, memo: map[*Term]*Term{}}
		x := p.do(m)
		q := &slicer{a: s.a, d: d, k: k, vars: map[*Term]bool{}, memo: map[*Term]*Term{}}
		y := q.do(r)
		if p.bad || q.bad || !p.clean(x, true, map[[2]interface{}]bool{}) || !q.clean(y, true, map[[2]interface{}]bool{}) || !s.eq(x, y, f) {
			return false
		}
	}
	return true
}
