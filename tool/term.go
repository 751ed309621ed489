package main

import (
	"go/types"
	"hash/maphash"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------------------
// Hash-consed value-graph terms.
//
// A term denotes the value of an expression over the initial state of a
// function.  Equal terms are the same *Term, so "the two programs compute the
// same value" is pointer equality after normalisation.
// ---------------------------------------------------------------------------

type Op uint8

const (
	OConst   Op = iota // k
	OStr               // s   (string/float constant, field-name path element)
	OBool              // k = 0/1
	OSym               // s   opaque input symbol
	OPoly              // k + sum co[i]*args[i]
	OMono              // product of args
	OIte               // args = atom, hi, lo
	OGe                // atom: args[0] >= k
	OEq                // atom: args[0] == args[1] (non-integers)
	OFn                // pure function s(args)
	OSel               // args = content, path...
	OUpd               // args[0] = base, ents
	OZero              // zero-filled array: args[0] = len, typ = element type
	OTable             // constant table (tab)
	OCall              // s(args): opaque call
	OOut               // args[0] = call, s = output name
	OField             // args[0] . s
	OStruct            // struct literal, typ, args by field index
	OTuple             // args
	OLoop              // args = core, out
	OMu                // provisional loop variable
	OBMu               // canonical bound loop variable (k = height<<8|j)
	OIter              // canonical iteration counter (k = height); provisional: OMu with s="iter"
	OAddr              // pointer to a place (place)
	OSlice             // slice referring to a place (place); args = lo (or nil)
	OClosure           // fn + bindings
	OAlias             // state-only marker: contents live at place
	OUndef
	OCore // args = exit, then (sym, init, next)*; k = height
	OBox  // args[0]: a decision diagram treated as one value
)

type updEnt struct {
	path []*Term
	val  *Term
}

type Term struct {
	id     int
	next   *Term // in the same hash bucket
	op     Op
	kind   byte // 'i' int, 'b' bool, 'o' other
	k      int64
	s      string
	args   []*Term
	co     []int64
	ents   []updEnt
	typ    types.Type
	tab    *Table
	place  *Place
	fn     any
	height int    // max loop height inside
	mu     bool   // contains OMu
	mask   uint64 // free loop variables, see bitMu
	sz     int
	rset   bool
	rlo    int64
	rhi    int64
}

type Table struct {
	elems []*Table // nil for scalar leaf
	leaf  int64
	isArr bool
	hash  string
	elemT types.Type
}

type Arena struct {
	tab    map[uint64]*Term
	seed   maphash.Seed
	n      int
	T, F   *Term
	memo   map[memoKey]*Term
	first  map[*Term][2]*Term // loops at their start
	blanks map[*Term]bool
	spines map[*Term]int
	muN    int
	muCnt  []int
	alpha  int
	limit  int
	ops    int
	made   int
	start  time.Time
}

type memoKey struct {
	op      byte
	x, y, z *Term
}

func (a *Arena) tick() {
	a.ops++
	if a.ops > a.limit*8 {
		panic(evalAbort{"term budget exceeded"})
	}
}

func NewArena() *Arena {
	a := &Arena{tab: map[uint64]*Term{}, seed: maphash.MakeSeed(), memo: map[memoKey]*Term{}, first: map[*Term][2]*Term{}, blanks: map[*Term]bool{}, spines: map[*Term]int{}, muCnt: []int{0}, limit: 1500000, start: time.Now()}
	a.F = a.mk(&Term{op: OBool, k: 0, kind: 'b'})
	a.T = a.mk(&Term{op: OBool, k: 1, kind: 'b'})
	return a
}

// A comparison that takes longer than fnLimit, or a run that takes longer than
// runLimit, is given up as undecided rather than left to run.
const (
	fnLimit  = 240 * time.Second
	runLimit = 560 * time.Second
	memLimit = 9 << 30
	// once a difference is established, the remaining cells get this long
	moreLimit = 20 * time.Second
)

var runStart = time.Now()

func (a *Arena) clock() {
	if time.Since(a.start) > fnLimit || time.Since(runStart) > runLimit {
		panic(evalAbort{"time budget exceeded"})
	}
	m := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	metrics.Read(m)
	if m[0].Value.Kind() == metrics.KindUint64 && m[0].Value.Uint64() > memLimit {
		panic(evalAbort{"memory budget exceeded"})
	}
}

// settle shortens what is left of the time budget to moreLimit.
func (a *Arena) settle() {
	if t := time.Now().Add(moreLimit - fnLimit); t.Before(a.start) {
		a.start = t
	}
}

// mk hash-conses: structurally equal terms are the same pointer.
func (a *Arena) mk(t *Term) *Term {
	a.made++
	if a.made&0x3fff == 0 {
		a.clock()
	}
	h := a.hashOf(t)
	for o := a.tab[h]; o != nil; o = o.next {
		if sameTerm(o, t) {
			return o
		}
	}
	t.id = a.n
	a.n++
	if a.n > a.limit {
		panic(evalAbort{"term budget exceeded"})
	}
	sz := 1
	ht := 0
	m := uint64(0)
	see := func(x *Term) {
		if x == nil {
			return
		}
		if x.height > ht {
			ht = x.height
		}
		m |= x.mask
		sz += x.sz
	}
	for _, x := range t.args {
		see(x)
	}
	for _, e := range t.ents {
		for _, p := range e.path {
			see(p)
		}
		see(e.val)
	}
	if t.place != nil {
		for _, p := range t.place.idx {
			see(p)
		}
	}
	switch t.op {
	case OMu:
		m = bitMu(t.k)
	case OBMu, OIter:
		m = symBit(t)
	case OCore:
		m &^= bitBound(t.k)
		for i := 2; i < len(t.args); i += 3 {
			m |= t.args[i].mask
		}
		ht = max(ht, int(t.k))
	case OLoop:
		m = t.args[0].mask | t.args[1].mask&^bitBound(t.args[0].k)
	}
	t.mask = m
	t.mu = m&(1<<40-1) != 0
	if sz > 1<<30 {
		sz = 1 << 30
	}
	t.sz = sz
	t.height = ht
	t.next = a.tab[h]
	a.tab[h] = t
	return t
}

func (a *Arena) hashOf(t *Term) uint64 {
	h := uint64(t.op)<<8 | uint64(t.kind)
	mix := func(x uint64) {
		h = (h ^ x) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	mix(uint64(t.k))
	if t.s != "" {
		mix(maphash.String(a.seed, t.s))
	}
	for i, x := range t.args {
		if x == nil {
			mix(1)
		} else {
			mix(uint64(x.id) + 2)
		}
		if t.co != nil {
			mix(uint64(t.co[i]))
		}
	}
	for _, e := range t.ents {
		mix(3)
		for _, p := range e.path {
			mix(uint64(p.id))
		}
		mix(uint64(e.val.id))
	}
	if t.op == OZero || t.op == OStruct {
		mix(maphash.String(a.seed, typeStr(t.typ)))
	}
	if t.op == OTable {
		mix(maphash.String(a.seed, t.tab.hash))
	}
	return h
}

func sameTerm(o, t *Term) bool {
	if o.op != t.op || o.kind != t.kind || o.k != t.k || o.s != t.s || len(o.args) != len(t.args) || len(o.ents) != len(t.ents) || (o.co == nil) != (t.co == nil) || (o.place == nil) != (t.place == nil) {
		return false
	}
	for i := range o.args {
		if o.args[i] != t.args[i] || o.co != nil && o.co[i] != t.co[i] {
			return false
		}
	}
	for i := range o.ents {
		x, y := &o.ents[i], &t.ents[i]
		if x.val != y.val || len(x.path) != len(y.path) {
			return false
		}
		for k := range x.path {
			if x.path[k] != y.path[k] {
				return false
			}
		}
	}
	switch o.op {
	case OZero, OStruct:
		if o.typ != t.typ && typeStr(o.typ) != typeStr(t.typ) {
			return false
		}
	case OTable:
		if o.tab.hash != t.tab.hash {
			return false
		}
	case OClosure:
		if o.fn != t.fn {
			return false
		}
	}
	return o.place == t.place || o.place.key() == t.place.key()
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	if v, ok := typeStrs.Load(t); ok {
		return v.(string)
	}
	v := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	typeStrs.Store(t, v)
	return v
}

var typeStrs sync.Map

func (a *Arena) Int(k int64) *Term { return a.mk(&Term{op: OConst, k: k, kind: 'i'}) }
func (a *Arena) Str(s string) *Term {
	return a.mk(&Term{op: OStr, s: s, kind: 'o'})
}
func (a *Arena) BoolC(b bool) *Term {
	if b {
		return a.T
	}
	return a.F
}

func kindOf(t types.Type) byte {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return 'b'
		}
		if u.Info()&types.IsInteger != 0 {
			return 'i'
		}
	}
	return 'o'
}

// opaque wraps a freshly built leaf: boolean leaves become decision nodes.
func (a *Arena) leaf(t *Term) *Term {
	x := a.mk(t)
	if x.kind == 'b' {
		return a.rawIte(x, a.T, a.F)
	}
	return x
}

func (a *Arena) Sym(name string, kind byte) *Term {
	return a.leaf(&Term{op: OSym, s: name, kind: kind})
}

// ---------------------------------------------------------------------------
// Decision diagrams
// ---------------------------------------------------------------------------

func (a *Arena) rawIte(atom, hi, lo *Term) *Term {
	return a.mk(&Term{op: OIte, args: []*Term{atom, hi, lo}, kind: hi.kind})
}

// atomLess orders atoms; thresholds on the same body are contiguous, ascending.
func atomLess(x, y *Term) bool {
	bx, by := x, y
	if x.op == OGe {
		bx = x.args[0]
	}
	if y.op == OGe {
		by = y.args[0]
	}
	if bx != by {
		return bx.id < by.id
	}
	if x.op == OGe && y.op == OGe {
		return x.k < y.k
	}
	return x.op == OGe && y.op != OGe
}

func topAtom(t *Term) *Term {
	if t.op == OIte {
		return t.args[0]
	}
	return nil
}

// cof: cofactor of t with respect to atom=val; atom is <= every atom at the top of t.
func cof(t, atom *Term, val bool) *Term {
	for t.op == OIte {
		ta := t.args[0]
		if ta == atom {
			if val {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
			continue
		}
		if !val && atom.op == OGe && ta.op == OGe && ta.args[0] == atom.args[0] && ta.k > atom.k {
			t = t.args[2]
			continue
		}
		if val && atom.op == OGe && ta.op == OGe && ta.args[0] == atom.args[0] && ta.k < atom.k {
			t = t.args[1]
			continue
		}
		break
	}
	return t
}

func isContent(t *Term) bool { return t.kind == 'o' }

// mkIte: atom is strictly smaller than the top atoms of hi and lo (else falls back).
func (a *Arena) mkIte(atom, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	lo = cof(lo, atom, false)
	hi = cof(hi, atom, true)
	if hi == lo {
		return hi
	}
	if v := a.extreme(atom, hi, lo); v != nil {
		return v
	}
	if h := topAtom(hi); h != nil && !atomLess(atom, h) {
		return a.Ite(a.rawIte(atom, a.T, a.F), hi, lo)
	}
	if l := topAtom(lo); l != nil && !atomLess(atom, l) {
		return a.Ite(a.rawIte(atom, a.T, a.F), hi, lo)
	}
	if atom.op == OGe && hi.op == OIte && hi.args[0].op == OGe && hi.args[0].args[0] == atom.args[0] && hi.args[2] == lo {
		return hi // the two ranges below the next threshold agree
	}
	if hi.kind == 'i' && lo.kind == 'i' && atom.op == OGe && lo.op != OIte && hi.op != OIte {
		// boundary shift: if at body = k-1 both arms agree use the smaller threshold
		hl := cofAt(hi, atom.args[0], atom.k-1)
		if hl.op != OIte {
			d := a.Sub(hl, lo)
			al, be, ok := a.linearIn(d, atom.args[0])
			if ok && al != 0 && al*(atom.k-1)+be == 0 {
				na := a.mkGe(atom.args[0], atom.k-1)
				if na.op == OGe {
					return a.mkIte(na, hi, lo)
				}
			}
		}
	}
	if hi.kind == 'o' && lo.kind == 'o' {
		if m := a.mergeContent(atom, hi, lo); m != nil {
			return m
		}
	}
	if hi.op == OStruct && lo.op == OStruct && len(hi.args) == len(lo.args) {
		at := a.rawIte(atom, a.T, a.F)
		args := make([]*Term, len(hi.args))
		for i := range args {
			args[i] = a.Ite(at, hi.args[i], lo.args[i])
		}
		return a.mk(&Term{op: OStruct, typ: hi.typ, args: args, kind: 'o'})
	}
	if hi.op == OTuple && lo.op == OTuple && len(hi.args) == len(lo.args) {
		at := a.rawIte(atom, a.T, a.F)
		args := make([]*Term, len(hi.args))
		for i := range args {
			args[i] = a.Ite(at, hi.args[i], lo.args[i])
		}
		return a.mk(&Term{op: OTuple, args: args, kind: 'o'})
	}
	return a.rawIte(atom, hi, lo)
}

// extreme: a threshold of the larger or the smaller of two values is the
// conjunction or the disjunction of the two thresholds.
func (a *Arena) extreme(atom, hi, lo *Term) *Term {
	if atom.op != OGe || atom.k != 0 && atom.k != 1 || hi.op != OIte || lo.op != OIte || hi.kind != 'b' {
		return nil
	}
	g, h := hi.args[0], lo.args[0]
	if g.op != OGe || h.op != OGe || g.k != h.k || hi.args[1] != lo.args[1] || hi.args[2] != lo.args[2] {
		return nil
	}
	above := hi.args[1] == a.T && hi.args[2] == a.F
	if !above && (hi.args[1] != a.F || hi.args[2] != a.T) {
		return nil
	}
	largest := true
	if a.Sub(g.args[0], h.args[0]) != atom.args[0] {
		if a.Sub(h.args[0], g.args[0]) != atom.args[0] {
			return nil
		}
		largest = false
	}
	if largest == above {
		return a.Or(hi, lo)
	}
	return a.And(hi, lo)
}

// cofAt follows same-body thresholds for body value v.
func cofAt(t, body *Term, v int64) *Term {
	for t.op == OIte && t.args[0].op == OGe && t.args[0].args[0] == body {
		if v >= t.args[0].k {
			t = t.args[1]
		} else {
			t = t.args[2]
		}
	}
	return t
}

// linearIn: d == al*body + be
func (a *Arena) linearIn(d, body *Term) (int64, int64, bool) {
	if d.op == OConst {
		return 0, d.k, true
	}
	dm, dk := polyOf(d)
	bm, _ := polyOf(body)
	if len(dm) != len(bm) || len(bm) == 0 {
		return 0, 0, false
	}
	var al int64
	first := true
	for m, c := range bm {
		dc, ok := dm[m]
		if !ok || dc%c != 0 {
			return 0, 0, false
		}
		q := dc / c
		if first {
			al = q
			first = false
		} else if al != q {
			return 0, 0, false
		}
	}
	return al, dk, true
}

func minTop(ts ...*Term) *Term {
	var m *Term
	for _, t := range ts {
		if t != nil && t.op == OIte {
			if m == nil || atomLess(t.args[0], m) {
				m = t.args[0]
			}
		}
	}
	return m
}

// Ite builds c ? g : h for a decision diagram c.
func (a *Arena) Ite(c, g, h *Term) *Term {
	if c == a.T || g == h {
		return g
	}
	if c == a.F {
		return h
	}
	if g == a.T && h == a.F {
		return c
	}
	a.tick()
	key := memoKey{'I', c, g, h}
	if r, ok := a.memo[key]; ok {
		return r
	}
	if g.op == OLoop && a.idle(g, a.Not(c), h) {
		a.memo[key] = g
		return g
	}
	if h.op == OLoop && a.idle(h, c, g) {
		a.memo[key] = h
		return h
	}
	at := minTop(c, g, h)
	hi := a.Ite(cof(c, at, true), a.cofV(g, at, true), a.cofV(h, at, true))
	lo := a.Ite(cof(c, at, false), a.cofV(g, at, false), a.cofV(h, at, false))
	r := a.mkIte(at, hi, lo)
	a.memo[key] = r
	return r
}

// atStart: whether loop t ends before its first iteration, and its value then.
func (a *Arena) atStart(t *Term) [2]*Term {
	at, ok := a.first[t]
	if !ok {
		core := t.args[0]
		m := map[*Term]*Term{a.mk(&Term{op: OIter, k: core.k, kind: 'i'}): a.Int(0)}
		for i := 1; i+2 < len(core.args); i += 3 {
			m[core.args[i]] = core.args[i+1]
		}
		at = [2]*Term{a.Subst(core.args[0], m), a.Subst(t.args[1], m)}
		a.first[t] = at
	}
	return at
}

// idle: given c, loop t ends before its first iteration with value v.
func (a *Arena) idle(t, c, v *Term) bool {
	at := a.atStart(t)
	return at[1] == v && a.Ite(c, at[0], a.T) == a.T
}

// cofV: like cof but also specialises overlays of content terms.
func (a *Arena) cofV(t, atom *Term, val bool) *Term {
	t = cof(t, atom, val)
	if t.op == OUpd {
		return a.updMap(t, func(x *Term) *Term { return a.cofDeep(x, atom, val) })
	}
	return t
}

// cofDeep: cofactor where atom may occur anywhere in the spine.
func (a *Arena) cofDeep(t, atom *Term, val bool) *Term {
	c := a.rawIte(atom, a.T, a.F)
	if !val {
		c = a.rawIte(atom, a.F, a.T)
	}
	return a.Constrain(t, c)
}

func (a *Arena) updMap(t *Term, f func(*Term) *Term) *Term {
	ch := false
	base := f(t.args[0])
	if base != t.args[0] {
		ch = true
	}
	vals := make([]*Term, len(t.ents))
	for i, e := range t.ents {
		vals[i] = f(e.val)
		if vals[i] != e.val {
			ch = true
		}
	}
	if !ch {
		return t
	}
	r := base
	for i, e := range t.ents {
		r = a.Upd(r, e.path, vals[i])
	}
	return r
}

func (a *Arena) And(x, y *Term) *Term { return a.Ite(x, y, a.F) }
func (a *Arena) Or(x, y *Term) *Term  { return a.Ite(x, a.T, y) }
func (a *Arena) Not(x *Term) *Term    { return a.Ite(x, a.F, a.T) }

const spineLimit = 600

// spine counts the decisions of t, up to spineLimit.
func (a *Arena) spine(t *Term) int {
	if n, ok := a.spines[t]; ok {
		return n
	}
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if x.op != OIte || seen[x] || len(seen) >= spineLimit {
			return
		}
		seen[x] = true
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(t)
	a.spines[t] = len(seen)
	return len(seen)
}

// Constrain is the generalised cofactor f|c (canonical modulo the care set c).
func (a *Arena) Constrain(f, c *Term) *Term {
	if c == a.T || c == a.F {
		return f
	}
	switch f.op {
	case OIte:
	case OUpd, OStruct, OTuple:
	default:
		return f
	}
	if f.sz > 200000 && (f.op != OIte || a.spine(f) >= spineLimit) {
		return f
	}
	a.tick()
	key := memoKey{'C', f, c, nil}
	if r, ok := a.memo[key]; ok {
		return r
	}
	var r *Term
	switch f.op {
	case OUpd:
		r = a.updMap(f, func(x *Term) *Term { return a.Constrain(x, c) })
	case OStruct, OTuple:
		args := make([]*Term, len(f.args))
		for i, x := range f.args {
			args[i] = a.Constrain(x, c)
		}
		r = a.mk(&Term{op: f.op, typ: f.typ, args: args, kind: f.kind, s: f.s})
	default:
		at := minTop(f, c)
		c1, c0 := cof(c, at, true), cof(c, at, false)
		if c1 == a.F {
			r = a.Constrain(cof(f, at, false), c0)
		} else if c0 == a.F {
			r = a.Constrain(cof(f, at, true), c1)
		} else {
			r = a.mkIte(at, a.Constrain(cof(f, at, true), c1), a.Constrain(cof(f, at, false), c0))
		}
	}
	a.memo[key] = r
	return r
}

// Implies reports whether BDD p implies q.
func (a *Arena) Implies(p, q *Term) bool { return a.And(p, a.Not(q)) == a.F }

var liftBudget = 200

// Box hides the decisions of a value, which is then compared as a whole.
func (a *Arena) Box(x *Term) *Term {
	if x == nil || x.op != OIte {
		return x
	}
	if x.kind == 'b' {
		return a.rawIte(a.mk(&Term{op: OBox, args: []*Term{x}, kind: 'b'}), a.T, a.F)
	}
	return a.mk(&Term{op: OBox, args: []*Term{x}, kind: x.kind})
}

// capLimit bounds the decisions carried by one scalar value.
var capLimit = 120

// capped boxes an integer whose decision diagram has grown too large.
func (a *Arena) capped(t *Term) *Term {
	if t == nil || t.op != OIte || t.kind != 'i' || t.sz < capLimit {
		return t
	}
	n := 0
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if x.op != OIte || seen[x] || n > capLimit {
			return
		}
		seen[x] = true
		n++
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(t)
	if n > capLimit {
		return a.Box(t)
	}
	return t
}

// mapLeaves applies f, which gives no decisions of its own, to the leaves of t.
func (a *Arena) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if x.op == OIte {
			r = a.mkIte(x.args[0], rec(x.args[1]), rec(x.args[2]))
		} else {
			r = f(x)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// lift distributes f over the decision nodes of args[i] (those with sel[i]).
func (a *Arena) lift(name string, args []*Term, f func([]*Term) *Term) *Term {
	if minTop(args...) == nil {
		return f(args)
	}
	budget := liftBudget
	local := map[string]*Term{}
	var rec func(xs []*Term) *Term
	rec = func(xs []*Term) *Term {
		at := minTop(xs...)
		if at == nil {
			return f(xs)
		}
		var sb strings.Builder
		for _, x := range xs {
			if x == nil {
				sb.WriteString("-,")
			} else {
				sb.WriteString(strconv.Itoa(x.id))
				sb.WriteByte(',')
			}
		}
		k := sb.String()
		if r, ok := local[k]; ok {
			return r
		}
		budget--
		if budget < 0 {
			return nil
		}
		his := make([]*Term, len(xs))
		los := make([]*Term, len(xs))
		for i, x := range xs {
			if x == nil {
				continue
			}
			his[i] = a.cofV(x, at, true)
			los[i] = a.cofV(x, at, false)
		}
		hi := rec(his)
		if hi == nil {
			return nil
		}
		lo := rec(los)
		if lo == nil {
			return nil
		}
		r := a.mkIte(at, hi, lo)
		local[k] = r
		return r
	}
	r := rec(args)
	if r == nil {
		// too large to distribute: treat the decisions as atomic values
		bx := make([]*Term, len(args))
		for i, x := range args {
			bx[i] = a.Box(x)
		}
		return f(bx)
	}
	return r
}

// ---------------------------------------------------------------------------
// Integer polynomials
// ---------------------------------------------------------------------------

func polyOf(t *Term) (map[*Term]int64, int64) {
	switch t.op {
	case OConst:
		return map[*Term]int64{}, t.k
	case OPoly:
		m := make(map[*Term]int64, len(t.args))
		for i, x := range t.args {
			m[x] = t.co[i]
		}
		return m, t.k
	}
	return map[*Term]int64{t: 1}, 0
}

func (a *Arena) fromPoly(m map[*Term]int64, k int64) *Term {
	var xs []*Term
	for x, c := range m {
		if c != 0 {
			xs = append(xs, x)
		}
	}
	if len(xs) == 0 {
		return a.Int(k)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	if len(xs) == 1 && m[xs[0]] == 1 && k == 0 {
		return xs[0]
	}
	co := make([]int64, len(xs))
	for i, x := range xs {
		co[i] = m[x]
	}
	return a.mk(&Term{op: OPoly, args: xs, co: co, k: k, kind: 'i'})
}

func (a *Arena) Add(x, y *Term) *Term {
	return a.lift("add", []*Term{x, y}, func(v []*Term) *Term {
		m, k := polyOf(v[0])
		m2, k2 := polyOf(v[1])
		for t, c := range m2 {
			m[t] += c
		}
		return a.fromPoly(m, k+k2)
	})
}

func (a *Arena) Scale(x *Term, c int64) *Term {
	if c == 1 {
		return x
	}
	return a.lift("scale"+strconv.FormatInt(c, 10), []*Term{x}, func(v []*Term) *Term {
		m, k := polyOf(v[0])
		for t := range m {
			m[t] *= c
		}
		return a.fromPoly(m, k*c)
	})
}

func (a *Arena) Sub(x, y *Term) *Term {
	if x == y {
		return a.Int(0)
	}
	return a.Add(x, a.Scale(y, -1))
}

func (a *Arena) Mul(x, y *Term) *Term {
	if x.op == OConst {
		return a.Scale(y, x.k)
	}
	if y.op == OConst {
		return a.Scale(x, y.k)
	}
	return a.lift("mul", []*Term{x, y}, func(v []*Term) *Term {
		m1, k1 := polyOf(v[0])
		m2, k2 := polyOf(v[1])
		r := map[*Term]int64{}
		for t, c := range m1 {
			r[t] += c * k2
		}
		for t, c := range m2 {
			r[t] += c * k1
		}
		for t, c := range m1 {
			for u, d := range m2 {
				r[a.mono(t, u)] += c * d
			}
		}
		return a.fromPoly(r, k1*k2)
	})
}

func factors(t *Term) []*Term {
	if t.op == OMono {
		return t.args
	}
	return []*Term{t}
}

func (a *Arena) mono(x, y *Term) *Term {
	fs := append(append([]*Term(nil), factors(x)...), factors(y)...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return a.mk(&Term{op: OMono, args: fs, kind: 'i'})
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

const inf = int64(1) << 60

// rng returns a sound value range of an integer leaf/poly.
func (a *Arena) rng(t *Term) (int64, int64) {
	if !t.rset {
		t.rlo, t.rhi = a.rng1(t)
		t.rset = true
	}
	return t.rlo, t.rhi
}

func (a *Arena) rng1(t *Term) (int64, int64) {
	switch t.op {
	case OConst:
		return t.k, t.k
	case OPoly:
		lo, hi := t.k, t.k
		for i, x := range t.args {
			l, h := a.rng(x)
			c := t.co[i]
			if c < 0 {
				l, h = h, l
			}
			lo = satAdd(lo, satMul(l, c))
			hi = satAdd(hi, satMul(h, c))
		}
		return lo, hi
	case OMono:
		nn := true
		for _, x := range t.args {
			if l, _ := a.rng(x); l < 0 {
				nn = false
			}
		}
		if nn {
			return 0, inf
		}
		return -inf, inf
	case OBox:
		return a.rng(t.args[0])
	case OIter:
		return 0, inf
	case OMu:
		if t.s == "iter" || t.s == nonNeg {
			return 0, inf
		}
		return -inf, inf
	case OBMu:
		if t.s == nonNeg {
			return 0, inf
		}
		return -inf, inf
	case OLoop:
		if t.kind == 'i' {
			return a.rng(t.args[1])
		}
	case OIte:
		l1, h1 := a.rng(t.args[1])
		l2, h2 := a.rng(t.args[2])
		return min(l1, l2), max(h1, h2)
	case OOut:
		if r, ok := a.outRange(t); ok {
			return r[0], r[1]
		}
	case OSym:
		if nonNegSym(t.s) || t.k == 1 && strings.HasPrefix(t.s, "$") {
			return 0, inf
		}
	case OSel:
		if t.typ != nil {
			if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return 0, 255
			}
		}
		if t.args[0].op == OTable {
			lo, hi := tableRange(t.args[0].tab)
			return lo, hi
		}
	case OFn:
		switch t.s {
		case "len":
			return 0, inf
		case "pow2":
			return 1, inf
		case "and":
			for _, x := range t.args {
				if x.op == OConst && x.k >= 0 {
					return 0, x.k
				}
			}
			for _, x := range t.args {
				if l, _ := a.rng(x); l >= 0 {
					return 0, inf
				}
			}
		case "shr", "quo", "or", "xor":
			nn := true
			for _, x := range t.args {
				if l, _ := a.rng(x); l < 0 {
					nn = false
				}
			}
			if nn {
				return 0, inf
			}
		case "rem":
			if l, _ := a.rng(t.args[0]); l >= 0 {
				if t.args[1].op == OConst && t.args[1].k > 0 {
					return 0, t.args[1].k - 1
				}
				return 0, inf
			}
		}
	}
	return -inf, inf
}

func tableRange(tb *Table) (int64, int64) {
	if !tb.isArr {
		return tb.leaf, tb.leaf
	}
	lo, hi := inf, -inf
	for _, e := range tb.elems {
		l, h := tableRange(e)
		lo, hi = min(lo, l), max(hi, h)
	}
	if lo > hi {
		return -inf, inf
	}
	return lo, hi
}

func satAdd(x, y int64) int64 {
	s := x + y
	if s > inf {
		return inf
	}
	if s < -inf {
		return -inf
	}
	if x >= inf || y >= inf {
		if x <= -inf || y <= -inf {
			return s
		}
		return inf
	}
	if x <= -inf || y <= -inf {
		return -inf
	}
	return s
}

func satMul(x, c int64) int64 {
	if x >= inf || x <= -inf {
		if c == 0 {
			return 0
		}
		if (c > 0) == (x > 0) {
			return inf
		}
		return -inf
	}
	if x != 0 && (c > inf/abs64(x) || c < -inf/abs64(x)) {
		if (c > 0) == (x > 0) {
			return inf
		}
		return -inf
	}
	return x * c
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func (a *Arena) mkGe(body *Term, k int64) *Term {
	lo, hi := a.rng(body)
	if lo >= k {
		return a.T
	}
	if hi < k {
		return a.F
	}
	return a.mk(&Term{op: OGe, args: []*Term{body}, k: k, kind: 'b'})
}

// Ge0: p >= 0 as a decision diagram
func (a *Arena) Ge0(p *Term) *Term {
	return a.lift("ge0", []*Term{p}, func(v []*Term) *Term {
		m, k := polyOf(v[0])
		if len(m) == 0 {
			return a.BoolC(k >= 0)
		}
		var g int64
		var lead *Term
		for t, c := range m {
			g = gcd(g, c)
			if lead == nil || t.id < lead.id {
				lead = t
			}
		}
		neg := m[lead] < 0
		for t := range m {
			m[t] /= g
			if neg {
				m[t] = -m[t]
			}
		}
		body := a.fromPoly(m, 0)
		if !neg {
			// g*body + k >= 0  <=> body >= ceil(-k/g)
			th := -floorDiv(k, g)
			at := a.mkGe(body, th)
			if at.op == OBool {
				return at
			}
			return a.rawIte(at, a.T, a.F)
		}
		// -g*body + k >= 0 <=> body <= floor(k/g) <=> !(body >= floor(k/g)+1)
		th := floorDiv(k, g) + 1
		at := a.mkGe(body, th)
		if at.op == OBool {
			return a.Not(at)
		}
		return a.rawIte(at, a.F, a.T)
	})
}

func (a *Arena) Eq0(p *Term) *Term {
	return a.lift("eq0", []*Term{p}, func(v []*Term) *Term {
		m, k := polyOf(v[0])
		if len(m) == 0 {
			return a.BoolC(k == 0)
		}
		var g int64
		for _, c := range m {
			g = gcd(g, c)
		}
		if k%g != 0 {
			return a.F
		}
		if len(m) == 1 && k == 0 {
			for t := range m {
				if t.op == OFn && t.s == "rem" && t.args[1].op == OConst {
					if _, ok := isPow2(t.args[1].k); ok {
						// a zero remainder is zero whatever the sign: x % 2^n == 0 <=> x & (2^n-1) == 0
						return a.Eq0(a.fnLeaf("and", 'i', []*Term{t.args[0], a.Int(t.args[1].k - 1)}))
					}
				}
			}
		}
		return a.And(a.Ge0(v[0]), a.Ge0(a.Scale(v[0], -1)))
	})
}

func (a *Arena) Le(x, y *Term) *Term { return a.Ge0(a.Sub(y, x)) }
func (a *Arena) Lt(x, y *Term) *Term { return a.Ge0(a.Sub(a.Sub(y, x), a.Int(1))) }

func (a *Arena) Equal(x, y *Term) *Term {
	if x == y {
		return a.T
	}
	if x.kind == 'i' && y.kind == 'i' {
		return a.Eq0(a.Sub(x, y))
	}
	if x.kind == 'b' && y.kind == 'b' {
		return a.Ite(x, y, a.Not(y))
	}
	return a.lift("eq", []*Term{x, y}, func(v []*Term) *Term {
		if v[0] == v[1] {
			return a.T
		}
		if v[0].op == OStr && v[1].op == OStr {
			return a.F
		}
		p, q := v[0], v[1]
		if p.id > q.id {
			p, q = q, p
		}
		at := a.mk(&Term{op: OEq, args: []*Term{p, q}, kind: 'b'})
		return a.rawIte(at, a.T, a.F)
	})
}

// Fn builds a pure operator application with local simplification.
func (a *Arena) Fn(name string, kind byte, args ...*Term) *Term {
	return a.lift(name, args, func(v []*Term) *Term { return a.fnLeaf(name, kind, v) })
}

func isPow2(c int64) (int, bool) {
	if c <= 0 || c&(c-1) != 0 {
		return 0, false
	}
	n := 0
	for c > 1 {
		c >>= 1
		n++
	}
	return n, true
}

func (a *Arena) fnLeaf(name string, kind byte, v []*Term) *Term {
	c := func(i int) bool { return v[i].op == OConst }
	switch name {
	case "shl":
		if c(1) {
			if v[1].k >= 0 && v[1].k < 62 {
				return a.Scale(v[0], 1<<uint(v[1].k))
			}
		} else {
			return a.Mul(v[0], a.Pow2(v[1]))
		}
	case "shr":
		if c(1) && v[1].k == 0 {
			return v[0]
		}
		if c(0) && c(1) && v[1].k >= 0 && v[1].k < 63 {
			return a.Int(v[0].k >> uint(v[1].k))
		}
		if c(0) && v[0].k == 0 {
			return v[0]
		}
		if v[0].op == OFn && v[0].s == "shr" && c(1) && v[0].args[1].op == OConst {
			return a.fnLeaf("shr", kind, []*Term{v[0].args[0], a.Int(v[0].args[1].k + v[1].k)})
		}
		if c(1) && v[1].k > 0 && v[1].k < 40 {
			// (2^k*x + r) >> k = x + (r >> k) for exact multiples
			m, k := polyOf(v[0])
			d := int64(1) << uint(v[1].k)
			out := map[*Term]int64{}
			rest := map[*Term]int64{}
			for t, cc := range m {
				if cc%d == 0 {
					out[t] = cc / d
				} else {
					rest[t] = cc
				}
			}
			kq := floorDiv(k, d)
			kr := k - kq*d
			if len(out) > 0 || kq != 0 {
				o := a.fromPoly(out, kq)
				r := a.fromPoly(rest, kr)
				return a.Add(o, a.fnLeaf("shr", kind, []*Term{r, v[1]}))
			}
			if len(rest) == 0 {
				return a.Int(kr >> uint(v[1].k))
			}
		}
	case "quo":
		if c(1) && v[1].k == 1 {
			return v[0]
		}
		if c(0) && c(1) && v[1].k != 0 {
			return a.Int(v[0].k / v[1].k)
		}
		if c(1) {
			if n, ok := isPow2(v[1].k); ok {
				if lo, _ := a.rng(v[0]); lo >= 0 {
					return a.fnLeaf("shr", kind, []*Term{v[0], a.Int(int64(n))})
				}
			}
		}
	case "rem":
		if c(0) && c(1) && v[1].k != 0 {
			return a.Int(v[0].k % v[1].k)
		}
		if c(1) {
			if _, ok := isPow2(v[1].k); ok {
				if lo, _ := a.rng(v[0]); lo >= 0 {
					return a.fnLeaf("and", kind, []*Term{v[0], a.Int(v[1].k - 1)})
				}
			}
		}
	case "and", "or", "xor":
		var fl []*Term
		var ck int64
		hasC := false
		for _, x := range v {
			xs := []*Term{x}
			if x.op == OFn && x.s == name {
				xs = x.args
			}
			for _, y := range xs {
				if y.op == OConst {
					if !hasC {
						ck = y.k
						hasC = true
					} else {
						switch name {
						case "and":
							ck &= y.k
						case "or":
							ck |= y.k
						case "xor":
							ck ^= y.k
						}
					}
				} else {
					fl = append(fl, y)
				}
			}
		}
		sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
		if name != "xor" {
			var d []*Term
			for i, x := range fl {
				if i == 0 || x != fl[i-1] {
					d = append(d, x)
				}
			}
			fl = d
		}
		if hasC {
			if len(fl) == 0 {
				return a.Int(ck)
			}
			if ck == 0 && name == "and" {
				return a.Int(0)
			}
			if name == "and" && ck > 0 && len(fl) == 1 && (ck&(ck+1)) == 0 {
				if lo, hi := a.rng(fl[0]); lo >= 0 && hi <= ck {
					return fl[0]
				}
			}
			if ck == 0 && name != "and" {
				hasC = false
			}
			if ck == -1 && name == "and" {
				hasC = false
			}
		}
		if hasC {
			fl = append(fl, a.Int(ck))
		}
		if len(fl) == 1 {
			return fl[0]
		}
		return a.mk(&Term{op: OFn, s: name, args: fl, kind: 'i'})
	case "not":
		return a.Sub(a.Int(-1), v[0]) // ^x = -1-x
	case "conv:floor":
	}
	return a.leaf(&Term{op: OFn, s: name, args: append([]*Term(nil), v...), kind: kind})
}

func (a *Arena) Pow2(n *Term) *Term {
	return a.lift("pow2", []*Term{n}, func(v []*Term) *Term {
		if v[0].op == OConst {
			if v[0].k >= 0 && v[0].k < 62 {
				return a.Int(1 << uint(v[0].k))
			}
			return a.mk(&Term{op: OFn, s: "pow2", args: v, kind: 'i'})
		}
		m, k := polyOf(v[0])
		if k > 0 && k < 40 {
			b := a.mk(&Term{op: OFn, s: "pow2", args: []*Term{a.fromPoly(m, 0)}, kind: 'i'})
			return a.Scale(b, 1<<uint(k))
		}
		return a.mk(&Term{op: OFn, s: "pow2", args: []*Term{v[0]}, kind: 'i'})
	})
}
