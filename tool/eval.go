package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fmtInt36(i int) string { return strconv.FormatInt(int64(i), 36) }

// ---------------------------------------------------------------------------
// Places and states
// ---------------------------------------------------------------------------

type pathElem struct {
	name  string     // field name, or "*"
	st    types.Type // struct type holding the field (nil for deref)
	typ   types.Type // type after following the element
	deref bool
}

type Place struct {
	root  string
	rootT types.Type
	agg   bool // one cell for the whole root (local variable)
	path  []pathElem
	idx   []*Term
}

func (p *Place) cell() string {
	if p.agg {
		return p.root + "|"
	}
	return p.root + "|" + p.pathStr()
}

func (p *Place) pathStr() string {
	var sb strings.Builder
	for i, e := range p.path {
		if i > 0 {
			sb.WriteByte('.')
		}
		sb.WriteString(e.name)
	}
	return sb.String()
}

func (p *Place) key() string {
	var sb strings.Builder
	sb.WriteString(p.root + "|" + p.pathStr())
	for _, x := range p.idx {
		sb.WriteByte('[')
		sb.WriteString(strconv.Itoa(x.id))
	}
	return sb.String()
}

type cellV struct {
	t    *Term
	lazy func() *Term
}

type State struct {
	cells  map[string]*cellV
	parent *State
	frame  *loopFrame
}

func (s *State) clone() *State {
	n := &State{cells: make(map[string]*cellV, len(s.cells)+4), parent: s.parent, frame: s.frame}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

type loopFrame struct {
	mod    map[string]bool // nil = discovery
	cellMu map[string]*Term
	depth  int // of the loop symbols
	closed bool
	order  []string
	typs   map[string]byte
}

type symInfo struct {
	param int
	root  string
	path  []pathElem
	typ   types.Type
	slice bool // content of slice parameter
	glob  string
}

type edge struct {
	from, to *ssa.BasicBlock
	P        *Term
	st       *State
	phi      map[*ssa.Phi]*Term
	live     map[ssa.Value]*Term
}

type retEdge struct {
	P    *Term
	vals []*Term
	st   *State
}

type fctx struct {
	fn    *ssa.Function
	env   map[ssa.Value]*Term
	key   string
	li    *loopInfo
	depth int
}

type Evaluator struct {
	A        *Arena
	prog     *Prog
	cutOf    func(fn *ssa.Function) (*Summary, string)
	syms     map[string]*symInfo
	unsup    []string
	vroots   map[string]*Term
	stack    []*ssa.Function
	inlined  map[string]bool
	opaqueC  map[string]int
	loopMod  map[string]map[string]bool
	steps    int
	maxSteps int
	posOf    map[string]token.Pos // last writer position per cell
	dbg      bool
	loops    int
}

type evalAbort struct{ why string }

func (e *Evaluator) un(where ssa.Instruction, why string) *Term {
	pos := ""
	if where != nil && where.Parent() != nil {
		p := e.prog.fset.Position(where.Pos())
		pos = fmt.Sprintf("%s:%d (%s)", shortFile(p.Filename), p.Line, where.Parent().Name())
	}
	e.unsup = append(e.unsup, pos+": "+why)
	e.A.muN++
	return e.A.Sym(fmt.Sprintf("unsupported#%d", e.A.muN), 'o')
}

func (e *Evaluator) initCell(p *Place, t types.Type) *Term {
	c := p.cell()
	if strings.HasPrefix(p.root, "V:") {
		return e.vroots[p.root]
	}
	if strings.HasPrefix(p.root, "G:") && len(p.path) == 0 {
		if tb := e.prog.tables[p.root[2:]]; tb != nil {
			return e.A.TableTerm(tb)
		}
	}
	if strings.HasPrefix(p.root, "L:") {
		return e.A.Sym("undef:"+c, kindOf(t))
	}
	name := "init:" + c
	k := kindOf(t)
	if _, ok := e.syms[name]; !ok {
		si := &symInfo{root: p.root, path: append([]pathElem(nil), p.path...), typ: t, param: -1}
		if strings.HasPrefix(p.root, "G:") {
			si.glob = p.root[2:]
		} else if strings.HasPrefix(p.root, "$") {
			r := p.root[1:]
			if strings.HasSuffix(r, "[]") {
				si.slice = true
				r = r[:len(r)-2]
			}
			si.param, _ = strconv.Atoi(r)
		}
		e.syms[name] = si
	}
	return e.A.Sym(name, k)
}

// get reads the whole cell of p.
func (e *Evaluator) get(st *State, p *Place, t types.Type) *Term {
	key := p.cell()
	return e.getKey(st, key, p, t)
}

func (e *Evaluator) getKey(st *State, key string, p *Place, t types.Type) *Term {
	if v, ok := st.cells[key]; ok {
		if v.t == nil {
			v.t = v.lazy()
		}
		return v.t
	}
	if st.parent == nil {
		return e.initCell(p, t)
	}
	if strings.HasPrefix(key, "V:") {
		return e.vroots[p.root]
	}
	fr := st.frame
	if fr.mod == nil || fr.mod[key] {
		if m, ok := fr.cellMu[key]; ok {
			return e.wrapMu(m)
		}
		init := e.getKey(st.parent, key, p, t)
		if init.op == OAlias || init.op == OTable {
			return init
		}
		if fr.closed {
			panic(evalAbort{"cell " + key + " first read after its loop was closed"})
		}
		if p != nil {
			e.note(p, t)
		}
		m := e.A.freshMuAt(fr.depth, "", init.kind, nil)
		fr.cellMu[key] = m
		fr.order = append(fr.order, key)
		return e.wrapMu(m)
	}
	return e.getKey(st.parent, key, p, t)
}

func (e *Evaluator) wrapMu(m *Term) *Term {
	if m.kind == 'b' {
		return e.A.rawIte(m, e.A.T, e.A.F)
	}
	return m
}

func (e *Evaluator) setCell(st *State, p *Place, v *Term) {
	st.cells[p.cell()] = &cellV{t: v}
}

func (e *Evaluator) resolveAlias(st *State, p *Place) *Place {
	for i := 0; i < 8; i++ {
		if !strings.HasPrefix(p.root, "L:") {
			return p
		}
		c := e.get(st, p, contentType)
		if c == nil || c.op != OAlias {
			return p
		}
		q := *c.place
		q.idx = append(append([]*Term(nil), q.idx...), p.idx...)
		p = &q
	}
	return p
}

// load reads a value of type t at place p.
func (e *Evaluator) load(st *State, p *Place, t types.Type, P *Term) *Term {
	p = e.resolveAlias(st, p)
	A := e.A
	if p.agg {
		v := e.get(st, p, p.rootT)
		ty := p.rootT
		for _, el := range p.path {
			v = A.FieldName(v, el.st, el.name)
			ty = el.typ
		}
		if len(p.idx) > 0 {
			v = A.Sel(v, p.idx, t)
		}
		_ = ty
		return e.refine(v, p, t)
	}
	if len(p.idx) > 0 {
		ct := p.rootT
		if len(p.path) > 0 {
			ct = p.path[len(p.path)-1].typ
		}
		c := e.get(st, p, ct)
		return e.refine(A.Sel(c, p.idx, t), p, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			f := u.Field(i)
			args[i] = e.contentOf(st, e.load(st, p.field(t, i), f.Type(), P))
		}
		return A.mk(&Term{op: OStruct, typ: t, args: args, kind: 'o'})
	case *types.Pointer:
		v := e.get(st, p, t)
		if v.op == OSym && strings.HasPrefix(v.s, "init:") {
			q := *p
			q.path = append(append([]pathElem(nil), p.path...), pathElem{name: "*", typ: u.Elem(), deref: true})
			return A.mk(&Term{op: OAddr, place: &q, kind: 'o'})
		}
		return v
	}
	return e.refine(e.get(st, p, t), p, t)
}

// refine turns loaded slice contents into references to their place.
func (e *Evaluator) refine(v *Term, p *Place, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return e.A.mk(&Term{op: OSlice, place: p, kind: 'o'})
	}
	return v
}

func (p *Place) field(st types.Type, i int) *Place {
	s := st.Underlying().(*types.Struct)
	return p.fieldN(st, s.Field(i).Name(), s.Field(i).Type())
}

func (p *Place) fieldN(st types.Type, name string, ft types.Type) *Place {
	q := *p
	if len(p.idx) > 0 {
		q.idx = append(append([]*Term(nil), p.idx...), theArena.Str("."+name))
		return &q
	}
	q.path = append(append([]pathElem(nil), p.path...), pathElem{name: name, st: st, typ: ft})
	return &q
}

var theArena *Arena

// contentOf gives the value of a slice reference (contents), or the value itself.
func (e *Evaluator) contentOf(st *State, v *Term) *Term {
	A := e.A
	switch v.op {
	case OSlice:
		p := e.resolveAlias(st, v.place)
		c := e.rawContent(st, p)
		if len(v.args) == 2 {
			return A.SliceC(c, v.args[0], v.args[1])
		}
		return c
	case OIte:
		if v.kind == 'o' {
			hi, lo := e.contentOf(st, v.args[1]), e.contentOf(st, v.args[2])
			return A.Ite(A.rawIte(v.args[0], A.T, A.F), hi, lo)
		}
	case OStr:
		if v.s == "nil" {
			return v
		}
	case OStruct:
		args := make([]*Term, len(v.args))
		ch := false
		for i, x := range v.args {
			args[i] = e.contentOf(st, x)
			if args[i] != x {
				ch = true
			}
		}
		if ch {
			return A.mk(&Term{op: OStruct, typ: v.typ, args: args, kind: 'o'})
		}
	}
	return v
}

func (e *Evaluator) rawContent(st *State, p *Place) *Term {
	A := e.A
	if p.agg {
		v := e.get(st, p, p.rootT)
		for _, el := range p.path {
			v = A.FieldName(v, el.st, el.name)
		}
		return A.Sel(v, p.idx, contentType)
	}
	c := e.get(st, p, contentType)
	return A.Sel(c, p.idx, contentType)
}

// store writes v at p.
func (e *Evaluator) store(st *State, p *Place, v *Term, t types.Type, P *Term, pos token.Pos) {
	A := e.A
	p = e.resolveAliasForStore(st, p)
	src := v
	v = e.contentOf(st, v)
	if v.kind != 'o' || v.op == OUpd || v.op == OIte {
		v = A.Constrain(v, P)
	}
	if p.agg {
		if len(p.path) == 0 && len(p.idx) == 0 {
			e.setCell(st, p, v)
		} else {
			old := e.get(st, p, p.rootT)
			e.setCell(st, p, e.setIn(old, p.rootT, p.path, p.idx, v))
		}
	} else if len(p.idx) > 0 {
		ct := p.rootT
		if len(p.path) > 0 {
			ct = p.path[len(p.path)-1].typ
		}
		c := e.get(st, p, ct)
		e.setCell(st, p, A.full(A.Upd(c, p.idx, v), ct))
		e.posOf[p.cell()] = pos
	} else if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			e.store(st, p.field(t, i), A.FieldName(v, t, u.Field(i).Name()), u.Field(i).Type(), P, pos)
		}
		return
	} else {
		e.setCell(st, p, v)
		e.posOf[p.cell()] = pos
	}
	// a local array now lives at p
	if src.op == OSlice && len(src.args) == 0 && strings.HasPrefix(src.place.root, "L:") && len(src.place.path) == 0 && len(src.place.idx) == 0 && !(p.root == src.place.root) {
		if _, ok := t.Underlying().(*types.Slice); ok {
			st.cells[src.place.cell()] = &cellV{t: A.mk(&Term{op: OAlias, place: p, kind: 'o'})}
		}
	}
}

func (e *Evaluator) resolveAliasForStore(st *State, p *Place) *Place {
	if len(p.idx) == 0 && len(p.path) == 0 {
		return p // re-binding the variable itself
	}
	return e.resolveAlias(st, p)
}

func (e *Evaluator) setIn(old *Term, t types.Type, path []pathElem, idx []*Term, v *Term) *Term {
	A := e.A
	if len(path) == 0 {
		return A.full(A.Upd(old, idx, v), t)
	}
	st := path[0].st.Underlying().(*types.Struct)
	args := make([]*Term, st.NumFields())
	for i := range args {
		f := A.FieldName(old, path[0].st, st.Field(i).Name())
		if st.Field(i).Name() == path[0].name {
			f = e.setIn(f, path[0].typ, path[1:], idx, v)
		}
		args[i] = f
	}
	return A.mk(&Term{op: OStruct, typ: path[0].st, args: args, kind: 'o'})
}

func (a *Arena) FieldName(base *Term, st types.Type, name string) *Term {
	s := st.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if base.op == OStruct {
				bs := base.typ.Underlying().(*types.Struct)
				for j := 0; j < bs.NumFields(); j++ {
					if bs.Field(j).Name() == name {
						return base.args[j]
					}
				}
			}
			return a.Field(base, st, i)
		}
	}
	return a.Sym("nofield:"+name, 'o')
}

// mergeStates joins incoming edges.
func (e *Evaluator) mergeStates(es []edge) (*State, *Term) {
	A := e.A
	if len(es) == 1 {
		return es[0].st.clone(), es[0].P
	}
	P := A.F
	for _, x := range es {
		P = A.Or(P, x.P)
	}
	sel := make([]*Term, len(es))
	for i, x := range es {
		sel[i] = A.Constrain(x.P, P)
	}
	n := &State{cells: map[string]*cellV{}, parent: es[0].st.parent, frame: es[0].st.frame}
	keys := map[string]bool{}
	for _, x := range es {
		for k := range x.st.cells {
			keys[k] = true
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var first *cellV
		same := true
		missing := false
		for i, x := range es {
			c := x.st.cells[k]
			if c == nil {
				missing = true
				same = false
				continue
			}
			if i == 0 || first == nil {
				first = c
			} else if c != first && (c.t == nil || c.t != first.t) {
				same = false
			}
		}
		if same {
			n.cells[k] = first
			continue
		}
		if missing && strings.HasPrefix(k, "L:") {
			// local not alive on some edge
			alive := []int{}
			for i, x := range es {
				if x.st.cells[k] != nil {
					alive = append(alive, i)
				} else if x.st.parent != nil && e.knownUp(x.st, k) {
					alive = append(alive, i)
				}
			}
			if len(alive) == 1 {
				n.cells[k] = es[alive[0]].st.cells[k]
				continue
			}
		}
		var v *Term
		for i := len(es) - 1; i >= 0; i-- {
			t := e.peek(es[i].st, k)
			if t == nil {
				continue
			}
			if t.op == OAlias {
				t = e.rawContentAlias(es[i].st, t)
			}
			t = A.Constrain(t, sel[i])
			if v == nil {
				v = t
			} else {
				v = A.Ite(sel[i], t, v)
			}
		}
		v = A.capped(v)
		if v != nil {
			n.cells[k] = &cellV{t: v}
		}
	}
	return n, P
}

func (e *Evaluator) rawContentAlias(st *State, t *Term) *Term {
	return e.rawContent(st, e.resolveAlias(st, t.place))
}

func (e *Evaluator) knownUp(st *State, k string) bool {
	for s := st; s != nil; s = s.parent {
		if _, ok := s.cells[k]; ok {
			return true
		}
	}
	return false
}

// peek reads a cell by key; uses the place registry for initial values.
func (e *Evaluator) peek(st *State, k string) *Term {
	if v, ok := st.cells[k]; ok {
		if v.t == nil {
			v.t = v.lazy()
		}
		return v.t
	}
	pl, ok := e.prog.places[k]
	if !ok {
		return nil
	}
	if strings.HasPrefix(k, "L:") && !e.knownUp(st, k) {
		return nil
	}
	return e.getKey(st, k, pl.p, pl.t)
}

type placeT struct {
	p *Place
	t types.Type
}

// note registers a place so that its cell can be read by key later.
func (e *Evaluator) note(p *Place, t types.Type) {
	k := p.cell()
	if _, ok := e.prog.places[k]; ok {
		return
	}
	q := *p
	q.idx = nil
	ty := t
	if p.agg {
		q.path = nil
		ty = p.rootT
	} else if len(p.idx) > 0 {
		if len(p.path) > 0 {
			ty = p.path[len(p.path)-1].typ
		} else {
			ty = p.rootT
		}
	}
	e.prog.places[k] = placeT{&q, ty}
	if u, ok := ty.Underlying().(*types.Struct); ok && !p.agg && len(p.idx) == 0 {
		for i := 0; i < u.NumFields(); i++ {
			e.note(p.field(ty, i), u.Field(i).Type())
		}
	}
}

// places applies f to every place a pointer/slice term may denote, under its guard.
func (e *Evaluator) places(v *Term, guard *Term, f func(g *Term, p *Place, lo *Term)) bool {
	A := e.A
	switch v.op {
	case OAddr:
		f(guard, v.place, nil)
		return true
	case OSlice:
		if len(v.args) == 2 {
			f(guard, v.place, v.args[0])
		} else {
			f(guard, v.place, nil)
		}
		return true
	case OIte:
		c := A.rawIte(v.args[0], A.T, A.F)
		gh, gl := A.And(guard, c), A.And(guard, A.Not(c))
		ok := true
		if gh != A.F {
			ok = e.places(v.args[1], gh, f) && ok
		}
		if gl != A.F {
			ok = e.places(v.args[2], gl, f) && ok
		}
		return ok
	case OStr:
		return true // nil: dereferencing it traps
	case OOut, OSym, OSel, OField, OFn, OLoop:
		f(guard, &Place{root: "P:" + strconv.Itoa(v.id)}, nil)
		return true
	}
	return false
}

// asSlice makes any content-valued slice register addressable.
func (e *Evaluator) asSlice(v *Term) *Term {
	switch v.op {
	case OSlice, OAddr:
		return v
	case OIte:
		return e.A.mapLeaves(v, e.asSlice)
	}
	root := "V:" + strconv.Itoa(v.id)
	e.vroots[root] = v
	return e.A.mk(&Term{op: OSlice, place: &Place{root: root, rootT: contentType}, kind: 'o'})
}

func (e *Evaluator) mapAddr(v *Term, f func(p *Place, lo *Term) *Term) *Term {
	return e.A.mapLeaves(v, func(x *Term) *Term {
		switch x.op {
		case OAddr:
			return f(x.place, nil)
		case OSlice:
			if len(x.args) == 2 {
				return f(x.place, x.args[0])
			}
			return f(x.place, nil)
		}
		// opaque pointer: its own root
		q := &Place{root: "P:" + strconv.Itoa(x.id)}
		return f(q, nil)
	})
}

// ---------------------------------------------------------------------------
// Function evaluation
// ---------------------------------------------------------------------------

func (e *Evaluator) loadVia(st *State, ptr *Term, t types.Type, P *Term) *Term {
	A := e.A
	var res *Term
	ok := e.places(ptr, A.T, func(g *Term, p *Place, lo *Term) {
		e.note(p, t)
		v := e.load(st, p, t, P)
		if res == nil {
			res = v
		} else {
			res = A.Ite(g, v, res)
		}
	})
	if !ok || res == nil {
		if ptr.op == OIte || ptr.op == OStr {
			return nil
		}
		p := &Place{root: "P:" + strconv.Itoa(ptr.id), rootT: t}
		e.note(p, t)
		return e.load(st, p, t, P)
	}
	return res
}

func (e *Evaluator) storeVia(st *State, ptr *Term, v *Term, t types.Type, P *Term, pos token.Pos) bool {
	A := e.A
	n := 0
	e.places(ptr, A.T, func(g *Term, p *Place, lo *Term) { n++ })
	if n == 0 {
		return false
	}
	return e.places(ptr, A.T, func(g *Term, p *Place, lo *Term) {
		e.note(p, t)
		if g == A.T {
			e.store(st, p, v, t, P, pos)
			return
		}
		old := e.contentOf(st, e.load(st, p, t, P))
		e.store(st, p, A.Ite(g, e.contentOf(st, v), old), t, P, pos)
	})
}

func (e *Evaluator) constTerm(c *ssa.Const) *Term {
	A := e.A
	if c.Value == nil {
		return A.zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return A.BoolC(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return A.Str("f:" + c.Value.ExactString())
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return A.Int(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return A.Int(int64(u))
		}
	case constant.String:
		return A.Str(strconv.Quote(constant.StringVal(c.Value)))
	}
	return A.Str("f:" + c.Value.ExactString())
}

func (e *Evaluator) val(f *fctx, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Global:
		p := &Place{root: "G:" + globName(x), rootT: x.Type().Underlying().(*types.Pointer).Elem()}
		return e.A.mk(&Term{op: OAddr, place: p, kind: 'o'})
	case *ssa.Function:
		return e.A.mk(&Term{op: OClosure, fn: x, kind: 'o'})
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	return e.un(nil, "value not available: "+v.Name())
}

func globName(g *ssa.Global) string {
	return g.Pkg.Pkg.Name() + "." + g.Name()
}

// CallFn evaluates fn inline.
func (e *Evaluator) CallFn(fn *ssa.Function, args []*Term, binds []*Term, st *State, P *Term, key string) ([]*Term, *State, *Term, *Term) {
	A := e.A
	if len(fn.Blocks) == 0 {
		panic(evalAbort{"no body for " + fn.String()})
	}
	for _, s := range e.stack {
		if s == fn {
			panic(evalAbort{"recursive helper " + fn.String()})
		}
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	f := &fctx{fn: fn, env: map[ssa.Value]*Term{}, key: key, li: e.prog.loopsOf(fn)}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		f.env[b] = binds[i]
	}
	exits, backs, rets, trap := e.region(f, nil, fn.Blocks[0], []edge{{to: fn.Blocks[0], P: P, st: st}}, false)
	_ = exits
	_ = backs
	if len(rets) == 0 {
		return nil, nil, A.F, trap
	}
	es := make([]edge, len(rets))
	for i, r := range rets {
		es[i] = edge{P: r.P, st: r.st}
	}
	var vals []*Term
	nst, np := e.mergeStates(es)
	if len(rets) == 1 {
		vals = rets[0].vals
	} else {
		D := np
		for k := range rets[0].vals {
			var v *Term
			for i := len(rets) - 1; i >= 0; i-- {
				s := A.Constrain(rets[i].P, D)
				x := rets[i].vals[k]
				x = A.Constrain(x, s)
				if v == nil {
					v = x
				} else {
					v = A.Ite(s, x, v)
				}
			}
			vals = append(vals, v)
		}
	}
	// drop locals of this activation unless referenced by the results
	if key != "" {
		esc := map[string]bool{}
		for _, v := range vals {
			e.escapes(v, esc)
		}
		pre := "L:" + key + ":"
		pre2 := "L:" + key + "/"
		for k, c := range nst.cells {
			if strings.HasPrefix(k, "L:") {
				if c.t != nil && (c.t.op == OAlias) {
					continue
				}
				_ = c
			}
		}
		for k := range nst.cells {
			if strings.HasPrefix(k, pre) || strings.HasPrefix(k, pre2) {
				if !esc[k[:strings.Index(k, "|")]] {
					delete(nst.cells, k)
				}
			}
		}
	}
	return vals, nst, np, trap
}

func (e *Evaluator) escapes(v *Term, m map[string]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.place != nil {
			m[t.place.root] = true
		}
		if t.op == OIte || t.op == OStruct || t.op == OTuple || t.op == OClosure {
			for _, x := range t.args {
				rec(x)
			}
		}
	}
	rec(v)
}

// region evaluates the blocks of loop (nil: the function) starting at entry.
func (e *Evaluator) region(f *fctx, loop *Loop, entry *ssa.BasicBlock, in []edge, skipPhis bool) (exits, backs []edge, rets []retEdge, trap *Term) {
	A := e.A
	trap = A.F
	pend := map[*ssa.BasicBlock][]edge{entry: in}
	push := func(ed edge) {
		if ed.P == A.F {
			return
		}
		if loop != nil && ed.to == loop.header {
			backs = append(backs, ed)
			return
		}
		if loop != nil && !loop.blocks[ed.to] {
			exits = append(exits, ed)
			return
		}
		pend[ed.to] = append(pend[ed.to], ed)
	}
	for _, b := range f.li.rpo {
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		delete(pend, b)
		if L := f.li.header[b]; L != nil && L != loop {
			lr := e.loop(f, L, es)
			trap = A.Or(trap, lr.trap)
			rets = append(rets, lr.rets...)
			for _, x := range lr.exits {
				push(x)
			}
			continue
		}
		st, P := e.mergeStates(es)
		// phis
		if !(b == entry && skipPhis) {
			e.phis(f, b, es, st, P)
		}
		e.block(f, b, st, P, push, &rets, &trap)
	}
	return
}

func (e *Evaluator) phis(f *fctx, b *ssa.BasicBlock, es []edge, st *State, P *Term) {
	A := e.A
	var newv []*Term
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v *Term
		for i := len(es) - 1; i >= 0; i-- {
			x := e.phiIn(f, p, es[i])
			if x == nil {
				continue
			}
			s := A.Constrain(es[i].P, P)
			x = A.Constrain(x, s)
			if v == nil {
				v = x
			} else {
				v = A.Ite(s, x, v)
			}
		}
		ph = append(ph, p)
		newv = append(newv, A.capped(v))
	}
	for i, p := range ph {
		f.env[p] = newv[i]
	}
}

func (e *Evaluator) phiIn(f *fctx, p *ssa.Phi, ed edge) *Term {
	if ed.phi != nil {
		if v, ok := ed.phi[p]; ok {
			return v
		}
	}
	for i, pr := range p.Block().Preds {
		if pr == ed.from {
			return e.val(f, p.Edges[i])
		}
	}
	return nil
}

func (e *Evaluator) tick() {
	e.steps++
	if e.steps > e.maxSteps {
		panic(evalAbort{"evaluation budget exceeded"})
	}
}

func (e *Evaluator) block(f *fctx, b *ssa.BasicBlock, st *State, P *Term, push func(edge), rets *[]retEdge, trap *Term2) {
	A := e.A
	last := A.ops
	for i, in := range b.Instrs {
		e.tick()
		if profPrefix != "" && f.key == profPrefix && A.ops-last > profMin {
			fmt.Fprintf(os.Stderr, "%d ops, total %d, terms %d: %s %v\n", A.ops-last, A.ops, A.n, e.prog.pos(in.Pos()), b.Instrs[max(i-1, 0)])
		}
		last = A.ops
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.If:
			c := e.val(f, x.Cond)
			push(edge{from: b, to: b.Succs[0], P: A.And(P, c), st: st.clone()})
			push(edge{from: b, to: b.Succs[1], P: A.And(P, A.Not(c)), st: st.clone()})
			return
		case *ssa.Jump:
			push(edge{from: b, to: b.Succs[0], P: P, st: st})
			return
		case *ssa.Return:
			vals := make([]*Term, len(x.Results))
			for i, r := range x.Results {
				vals[i] = e.val(f, r)
			}
			*rets = append(*rets, retEdge{P, vals, st})
			return
		case *ssa.Panic:
			*trap = A.Or(*trap, P)
			return
		case *ssa.Store:
			ptr := e.val(f, x.Addr)
			v := e.val(f, x.Val)
			if !e.storeVia(st, ptr, v, x.Val.Type(), P, x.Pos()) {
				p := &Place{root: "P:" + strconv.Itoa(ptr.id), rootT: x.Val.Type()}
				e.note(p, x.Val.Type())
				e.store(st, p, v, x.Val.Type(), P, x.Pos())
			}
		case *ssa.Call:
			var dead bool
			var tr *Term
			st, P, tr, dead = e.call(f, x, st, P)
			*trap = A.Or(*trap, tr)
			if dead {
				return
			}
		case ssa.Value:
			v := e.instr(f, x, st, P)
			f.env[x] = v
		default:
			e.un(in, fmt.Sprintf("unsupported instruction %T", in))
		}
	}
}

// profPrefix names the function whose evaluation cost is printed (debugging).
var profPrefix = os.Getenv("GOV1_TRACEFN")
var profMin = func() int { n, _ := strconv.Atoi(os.Getenv("GOV1_TRACEMIN")); return n }()

type Term2 = *Term

func (e *Evaluator) localPlace(f *fctx, in ssa.Instruction, name string, t types.Type) *Place {
	root := fmt.Sprintf("L:%s:%s%d.%s", f.key, name, in.Block().Index, instrName(in))
	return &Place{root: root, rootT: t, agg: true}
}

func instrName(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name()
	}
	return fmt.Sprintf("%p", in)
}

func (e *Evaluator) newTemp(f *fctx, in ssa.Instruction, tag string, st *State, content *Term) *Term {
	p := e.localPlace(f, in, tag, contentType)
	e.note(p, contentType)
	e.setCell(st, p, content)
	return e.A.mk(&Term{op: OSlice, place: p, kind: 'o'})
}

func (e *Evaluator) instr(f *fctx, v ssa.Value, st *State, P *Term) *Term {
	A := e.A
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		p := e.localPlace(f, x, "a", t)
		e.note(p, t)
		e.setCell(st, p, A.zeroOf(t))
		return A.mk(&Term{op: OAddr, place: p, kind: 'o'})
	case *ssa.FieldAddr:
		base := e.val(f, x.X)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		return e.mapAddr(base, func(p *Place, lo *Term) *Term {
			return A.mk(&Term{op: OAddr, place: p.field(pt, x.Field), kind: 'o'})
		})
	case *ssa.IndexAddr:
		base := e.asSlice(e.val(f, x.X))
		idx := A.Constrain(e.val(f, x.Index), P)
		return e.mapAddr(base, func(p *Place, lo *Term) *Term {
			q := *p
			i := idx
			if lo != nil {
				i = A.Add(i, lo)
			}
			q.idx = append(append([]*Term(nil), p.idx...), i)
			return A.mk(&Term{op: OAddr, place: &q, kind: 'o'})
		})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			r := e.loadVia(st, e.val(f, x.X), x.Type(), P)
			if r == nil {
				return e.un(x, "load through unresolved pointer")
			}
			return A.Constrain(r, P)
		case token.NOT:
			return A.Not(e.val(f, x.X))
		case token.SUB:
			if kindOf(x.Type()) == 'i' {
				return A.Scale(e.val(f, x.X), -1)
			}
			return A.Fn("fneg", 'o', e.val(f, x.X))
		case token.XOR:
			return A.Fn("not", 'i', e.val(f, x.X))
		}
		return e.un(x, "unary "+x.Op.String())
	case *ssa.BinOp:
		return e.binop(x, e.val(f, x.X), e.val(f, x.Y), st)
	case *ssa.Convert:
		return e.convert(x, e.val(f, x.X), x.X.Type(), x.Type(), st)
	case *ssa.ChangeType:
		return e.val(f, x.X)
	case *ssa.MakeInterface:
		return e.val(f, x.X)
	case *ssa.ChangeInterface:
		return e.val(f, x.X)
	case *ssa.Extract:
		t := e.val(f, x.Tuple)
		return A.lift("extract", []*Term{t}, func(v []*Term) *Term {
			if v[0].op == OTuple {
				return v[0].args[x.Index]
			}
			return A.Sym(fmt.Sprintf("extract:%d.%d", v[0].id, x.Index), kindOf(x.Type()))
		})
	case *ssa.Field:
		b := e.val(f, x.X)
		return A.FieldName(b, x.X.Type(), x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name())
	case *ssa.Index:
		b := e.contentOf(st, e.val(f, x.X))
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			return A.Fn("strindex", 'i', b, e.val(f, x.Index))
		}
		return A.Sel(b, []*Term{e.val(f, x.Index)}, x.Type())
	case *ssa.MakeSlice:
		n := A.Constrain(e.val(f, x.Len), P)
		el := x.Type().Underlying().(*types.Slice).Elem()
		return e.newTemp(f, x, "m", st, A.Zero(n, el))
	case *ssa.Slice:
		return e.slice(f, x, st, P)
	case *ssa.MakeClosure:
		var b []*Term
		for _, y := range x.Bindings {
			b = append(b, e.val(f, y))
		}
		return A.mk(&Term{op: OClosure, fn: x.Fn.(*ssa.Function), args: b, kind: 'o'})
	}
	return e.un(v.(ssa.Instruction), fmt.Sprintf("unsupported value %T", v))
}

func (e *Evaluator) slice(f *fctx, x *ssa.Slice, st *State, P *Term) *Term {
	A := e.A
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		args := []*Term{e.val(f, x.X)}
		for _, y := range []ssa.Value{x.Low, x.High} {
			if y != nil {
				args = append(args, e.val(f, y))
			} else {
				args = append(args, A.Str("-"))
			}
		}
		return A.Fn("substr", 'o', args...)
	}
	base := e.asSlice(e.val(f, x.X))
	if x.Low == nil && x.High == nil {
		return e.mapAddr(base, func(p *Place, lo *Term) *Term {
			if lo != nil {
				return base
			}
			return A.mk(&Term{op: OSlice, place: p, kind: 'o'})
		})
	}
	lo := A.Int(0)
	if x.Low != nil {
		lo = e.val(f, x.Low)
	}
	var hi *Term
	if x.High != nil {
		hi = e.val(f, x.High)
	}
	return e.A.lift("slice", []*Term{base}, func(v []*Term) *Term {
		b := v[0]
		if b.place == nil {
			return e.un(x, "slice of unresolved value")
		}
		l := lo
		h := hi
		if h == nil {
			h = A.Len(e.contentOf(st, A.mk(&Term{op: OSlice, place: b.place, args: b.args, kind: 'o'})))
		}
		if len(b.args) == 2 {
			l = A.Add(l, b.args[0])
			h = A.Add(h, b.args[0])
		}
		return A.mk(&Term{op: OSlice, place: b.place, args: []*Term{l, h}, kind: 'o'})
	})
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Evaluator) binop(x *ssa.BinOp, a, b *Term, st *State) *Term {
	A := e.A
	ty := x.X.Type()
	if isFloat(ty) {
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			r := A.Fn("fcmp"+x.Op.String(), 'b', a, b)
			return r
		}
		return A.Fn("f"+x.Op.String(), 'o', a, b)
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		if _, ok := ty.Underlying().(*types.Slice); ok {
			// comparison with nil: length zero stands for nil
			r := A.Eq0(A.Len(e.contentOf(st, pickNonNil(a, b))))
			if x.Op == token.NEQ {
				return A.Not(r)
			}
			return r
		}
		if at, ok := ty.Underlying().(*types.Array); ok && at.Len() <= 16 {
			r := A.T
			for i := int64(0); i < at.Len(); i++ {
				r = A.And(r, A.Equal(A.Sel(a, []*Term{A.Int(i)}, at.Elem()), A.Sel(b, []*Term{A.Int(i)}, at.Elem())))
			}
			if x.Op == token.NEQ {
				return A.Not(r)
			}
			return r
		}
		if st2, ok := ty.Underlying().(*types.Struct); ok {
			r := A.T
			for i := 0; i < st2.NumFields(); i++ {
				r = A.And(r, A.Equal(A.FieldName(a, ty, st2.Field(i).Name()), A.FieldName(b, ty, st2.Field(i).Name())))
			}
			if x.Op == token.NEQ {
				return A.Not(r)
			}
			return r
		}
		r := A.Equal(a, b)
		if x.Op == token.NEQ {
			return A.Not(r)
		}
		return r
	}
	if kindOf(ty) == 'b' {
		switch x.Op {
		case token.AND, token.LAND:
			return A.And(a, b)
		case token.OR, token.LOR:
			return A.Or(a, b)
		}
	}
	if kindOf(ty) != 'i' {
		switch x.Op {
		case token.ADD:
			return A.Fn("concat", 'o', a, b)
		}
		return A.Fn("strcmp"+x.Op.String(), kindOf(x.Type()), a, b)
	}
	switch x.Op {
	case token.ADD:
		return e.wrap(A.Add(a, b), ty)
	case token.SUB:
		return e.wrap(A.Sub(a, b), ty)
	case token.MUL:
		return e.wrap(A.Mul(a, b), ty)
	case token.QUO:
		return A.Fn("quo", 'i', a, b)
	case token.REM:
		return A.Fn("rem", 'i', a, b)
	case token.AND:
		return A.Fn("and", 'i', a, b)
	case token.OR:
		return A.Fn("or", 'i', a, b)
	case token.XOR:
		return A.Fn("xor", 'i', a, b)
	case token.AND_NOT:
		return A.Fn("and", 'i', a, A.Fn("not", 'i', b))
	case token.SHL:
		return e.wrap(A.Fn("shl", 'i', a, b), ty)
	case token.SHR:
		return A.Fn("shr", 'i', a, b)
	case token.LSS:
		return A.Lt(a, b)
	case token.LEQ:
		return A.Le(a, b)
	case token.GTR:
		return A.Lt(b, a)
	case token.GEQ:
		return A.Le(b, a)
	}
	return e.un(x, "binop "+x.Op.String())
}

func pickNonNil(a, b *Term) *Term {
	if a.op == OStr || (a.op == OZero) {
		return b
	}
	return a
}

// wrap models narrow integer types; int/int64/uint/uint64 are treated as unbounded.
func (e *Evaluator) wrap(t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
		lo, hi := intRange(b.Kind())
		l, h := e.A.rng(t)
		if l >= lo && h <= hi {
			return t
		}
		return e.A.Fn("wrap:"+b.Name(), 'i', t)
	}
	return t
}

func intRange(k types.BasicKind) (int64, int64) {
	switch k {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	}
	return -inf, inf
}

func (e *Evaluator) convert(in ssa.Instruction, v *Term, from, to types.Type, st *State) *Term {
	A := e.A
	kf, kt := kindOf(from), kindOf(to)
	switch {
	case kf == 'i' && kt == 'i':
		return e.wrap(v, to)
	case kf == 'i' && isFloat(to):
		return A.Fn("i2f", 'o', v)
	case isFloat(from) && kt == 'i':
		return A.lift("f2i", []*Term{v}, func(x []*Term) *Term {
			t := x[0]
			if t.op == OFn && t.s == "i2f" {
				return t.args[0]
			}
			if t.op == OFn && t.s == "ext:math.Floor" {
				u := t.args[0]
				if u.op == OFn && u.s == "f/" && u.args[0].op == OFn && u.args[0].s == "i2f" && u.args[1].op == OStr && strings.HasPrefix(u.args[1].s, "f:") {
					if c, err := strconv.ParseInt(u.args[1].s[2:], 10, 64); err == nil {
						if n, ok := isPow2(c); ok {
							return A.Fn("shr", 'i', u.args[0].args[0], A.Int(int64(n)))
						}
					}
				}
			}
			return A.mk(&Term{op: OFn, s: "f2i", args: []*Term{t}, kind: 'i'})
		})
	}
	return A.Fn("conv:"+typeStr(to), kt, e.contentOf(st, v))
}
