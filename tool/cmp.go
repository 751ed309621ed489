package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine compares functions of the repository with the reference model.
type Engine struct {
	M, R    *Prog
	cut     map[string]bool
	inlineC map[string]bool
	sums    map[string]*Summary
	inprog  map[string]bool
	dbg     bool
	stats   map[string]int
	eqMemo  map[string]bool
	noIdent bool
	nonNeg  map[string][]bool // parameters the repository never passes a negative value for
}

type FnResult struct {
	outs   map[string]*Term
	pos    map[string]token.Pos
	order  []string
	trap   *Term
	unsup  []string
	abort  string
	syms   map[string]*symInfo
	steps  int
	inl    []string
	opaque map[string]int
	loops  int
	cellsT map[string]placeT
	init   map[string]*Term
}

func sigStr(fn *ssa.Function) string {
	s := fn.Signature
	r := ""
	if s.Recv() != nil {
		r = typeStr(s.Recv().Type()) + " "
	}
	tuple := func(t *types.Tuple) string {
		var ps []string
		for i := 0; i < t.Len(); i++ {
			ps = append(ps, typeStr(t.At(i).Type()))
		}
		return strings.Join(ps, ",")
	}
	return r + "(" + tuple(s.Params()) + ")(" + tuple(s.Results()) + ")"
}

func newEngine(M, R *Prog) *Engine {
	e := &Engine{M: M, R: R, nonNeg: nonNegParams(R), cut: map[string]bool{}, inlineC: map[string]bool{}, sums: map[string]*Summary{}, inprog: map[string]bool{}, stats: map[string]int{}, eqMemo: map[string]bool{}}
	for k, fn := range M.funcs {
		if strings.HasSuffix(k, knownSuffix) {
			continue
		}
		if e.isInlineClass(fn) {
			e.inlineC[k] = true
			continue
		}
		if rf := R.funcs[k]; rf != nil && sigStr(rf) == sigStr(fn) {
			e.cut[k] = true
		}
	}
	return e
}

// isInlineClass: small pure loop-free model functions are always expanded.
func (g *Engine) isInlineClass(fn *ssa.Function) bool {
	if len(g.M.loopsOf(fn).header) > 0 || len(fn.Blocks) > 12 {
		return false
	}
	for _, p := range fn.Params {
		if kindOf(p.Type()) == 'o' {
			return false
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			n++
			switch x := in.(type) {
			case *ssa.Store:
				return false
			case *ssa.Panic:
				return false
			case *ssa.Call:
				c := x.Call.StaticCallee()
				if c == nil {
					if _, ok := x.Call.Value.(*ssa.Builtin); ok {
						continue
					}
					return false
				}
				if c == fn {
					return false
				}
				if g.M.inModule(c) && !g.isInlineClass(c) {
					return false
				}
			}
		}
	}
	return n < 60
}

func newEvaluator(g *Engine, p *Prog, a *Arena) *Evaluator {
	ev := &Evaluator{A: a, prog: p, syms: map[string]*symInfo{}, vroots: map[string]*Term{}, inlined: map[string]bool{}, opaqueC: map[string]int{}, loopMod: map[string]map[string]bool{}, maxSteps: 3000000, posOf: map[string]token.Pos{}}
	ev.cutOf = func(fn *ssa.Function) (*Summary, string) {
		if fn.Parent() != nil {
			return nil, ""
		}
		k := funcKey(fn)
		if !g.cut[k] {
			return nil, ""
		}
		return g.summary(k), k
	}
	return ev
}

// run evaluates one function from an arbitrary initial state.
func (g *Engine) run(p *Prog, fn *ssa.Function, a *Arena) (res *FnResult) {
	theArena = a
	p.places = map[string]placeT{}
	ev := newEvaluator(g, p, a)
	res = &FnResult{outs: map[string]*Term{}, pos: map[string]token.Pos{}, syms: ev.syms, trap: a.F, cellsT: p.places, init: map[string]*Term{}}
	defer func() {
		res.unsup = ev.unsup
		res.steps = ev.steps
		res.opaque = ev.opaqueC
		res.loops = ev.loops
		for k := range ev.inlined {
			res.inl = append(res.inl, k)
		}
		sort.Strings(res.inl)
		if r := recover(); r != nil {
			if ab, ok := r.(evalAbort); ok {
				res.abort = ab.why
				return
			}
			if os.Getenv("GOV1_PANIC") != "" {
				panic(r)
			}
			res.abort = fmt.Sprint("internal: ", r)
		}
	}()
	args := make([]*Term, len(fn.Params))
	for i, q := range fn.Params {
		name := fmt.Sprintf("$%d", i)
		switch t := q.Type().Underlying().(type) {
		case *types.Pointer:
			args[i] = a.mk(&Term{op: OAddr, place: &Place{root: name, rootT: t.Elem()}, kind: 'o'})
		case *types.Slice:
			args[i] = a.mk(&Term{op: OSlice, place: &Place{root: name + "[]", rootT: t}, kind: 'o'})
		default:
			args[i] = a.Sym(name, kindOf(q.Type()))
			if nn := g.nonNeg[funcKey(fn)]; i < len(nn) && nn[i] && len(nn) == len(fn.Params) && args[i].op == OSym {
				args[i] = a.mk(&Term{op: OSym, s: name, kind: args[i].kind, k: 1})
			}
			ev.syms[name] = &symInfo{param: i, typ: q.Type()}
			if st, ok := t.(*types.Struct); ok {
				args[i] = explodeSym(a, args[i], q.Type(), st, 0)
			}
		}
	}
	st := &State{cells: map[string]*cellV{}}
	vals, fin, P, trap := ev.CallFn(fn, args, nil, st, a.T, "f")
	res.trap = trap
	if trap.mask&(1<<40-1) != 0 {
		panic(evalAbort{"internal: open loop variable in the panic condition"})
	}
	if fin == nil {
		res.order = nil
		return
	}
	emit := func(name string, t *Term, pos token.Pos) {
		if t == nil {
			return
		}
		t = a.Constrain(t, P)
		if t.mask&(1<<40-1) != 0 {
			panic(evalAbort{"internal: open loop variable in " + name})
		}
		res.outs[name] = t
		res.pos[name] = pos
		res.order = append(res.order, name)
	}
	var emitVal func(name string, v *Term, t types.Type, depth int)
	emitVal = func(name string, v *Term, t types.Type, depth int) {
		if depth > 4 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if v.op == OAddr && strings.HasPrefix(v.place.root, "L:") {
				x := ev.load(fin, v.place, u.Elem(), P)
				emitVal(name+".*", ev.contentOf(fin, x), u.Elem(), depth+1)
				return
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				emitVal(name+"."+u.Field(i).Name(), a.FieldName(v, t, u.Field(i).Name()), u.Field(i).Type(), depth+1)
			}
			return
		}
		if v.op == OStr && v.s == "nil" {
			if s, ok := t.Underlying().(*types.Slice); ok {
				v = a.Zero(a.Int(0), s.Elem())
			}
		}
		emit(name, ev.contentOf(fin, v), fn.Pos())
	}
	for i, v := range vals {
		emitVal(fmt.Sprintf("r%d", i), ev.contentOf(fin, v), fn.Signature.Results().At(i).Type(), 0)
	}
	keys := make([]string, 0, len(fin.cells))
	for k := range fin.cells {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "V:") {
			continue
		}
		v := ev.peek(fin, k)
		pl := p.places[k]
		if pl.p == nil {
			continue
		}
		ini := ev.initCell(pl.p, pl.t)
		v = ev.contentOf(fin, v)
		if v.op == OStr && v.s == "nil" {
			if s, ok := pl.t.Underlying().(*types.Slice); ok {
				v = a.Zero(a.Int(0), s.Elem())
			}
		}
		if c := a.Constrain(v, P); c == ini {
			continue
		}
		res.init[k] = ini
		emit(k, v, ev.posOf[k])
	}
	return
}

func explodeSym(a *Arena, v *Term, t types.Type, st *types.Struct, depth int) *Term {
	if depth > 3 {
		return v
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		f := st.Field(i)
		args[i] = a.leaf(&Term{op: OField, s: f.Name(), args: []*Term{v}, kind: kindOf(f.Type()), typ: f.Type()})
		if s2, ok := f.Type().Underlying().(*types.Struct); ok {
			args[i] = explodeSym(a, args[i], f.Type(), s2, depth+1)
		}
	}
	return a.mk(&Term{op: OStruct, typ: t, args: args, kind: 'o'})
}

// summary computes (on the model) what a function reads and writes.
func (g *Engine) summary(key string) *Summary {
	if s := g.sums[key]; s != nil && (s.valid || g.inprog[key]) {
		return s
	}
	fn := g.M.funcs[key]
	s := &Summary{key: key}
	g.sums[key] = s
	g.inprog[key] = true
	saveA, saveP := theArena, g.M.places
	if g.dbg {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				fmt.Fprintf(os.Stderr, "summary %s: %v refs=%d mods=%d\n", key, d, len(s.refs), len(s.mods))
			}
		}()
	}
	for round := 0; round < 6; round++ {
		a := NewArena()
		r := g.run(g.M, fn, a)
		if r.abort != "" || len(r.unsup) > 0 {
			g.stats["model-undecided"]++
			if g.dbg {
				fmt.Fprintf(os.Stderr, "model %s: abort=%q unsup=%v\n", key, r.abort, r.unsup)
			}
		}
		ns := g.makeSummary(key, fn, a, r)
		same := sumEq(g.sums[key], ns)
		*s = *ns
		if same {
			break
		}
		if !g.recursive(fn) {
			break
		}
	}
	theArena, g.M.places = saveA, saveP
	s.valid = true
	delete(g.inprog, key)
	return s
}

func (g *Engine) recursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if t := c.Call.StaticCallee(); t != nil {
						if t == fn {
							return true
						}
						if !seen[t] {
							seen[t] = true
							if rec(t) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

func sumEq(a, b *Summary) bool {
	if a == nil || len(a.refs) != len(b.refs) || len(a.mods) != len(b.mods) || a.trap != b.trap {
		return false
	}
	for i := range a.refs {
		if a.refs[i].name != b.refs[i].name {
			return false
		}
	}
	for i := range a.mods {
		if a.mods[i].name != b.mods[i].name {
			return false
		}
	}
	return true
}

func (g *Engine) makeSummary(key string, fn *ssa.Function, a *Arena, r *FnResult) *Summary {
	s := &Summary{key: key, rets: fn.Signature.Results().Len()}
	refs := map[string]sumRef{}
	seen := map[*Term]bool{}
	addSym := func(t *Term) {
		si := r.syms[t.s]
		if si == nil {
			return
		}
		sr := sumRef{name: t.s, param: si.param, path: si.path, typ: si.typ, slice: si.slice, glob: si.glob}
		if si.glob != "" {
			sr.param = -1
		} else if si.param < 0 {
			return
		}
		if strings.HasPrefix(t.s, "$") {
			sr.value = true
		}
		refs[sr.name] = sr
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OField {
			// chain of fields of a by-value parameter
			var path []string
			x := t
			for x.op == OField {
				path = append([]string{x.s}, path...)
				x = x.args[0]
			}
			if x.op == OSym && strings.HasPrefix(x.s, "$") {
				if si := r.syms[x.s]; si != nil {
					sr := sumRef{name: x.s + "." + strings.Join(path, "."), param: si.param, value: true, typ: t.typ}
					ty := si.typ
					for _, f := range path {
						ft := fieldType(ty, f)
						sr.path = append(sr.path, pathElem{name: f, st: ty, typ: ft})
						ty = ft
					}
					refs[sr.name] = sr
					return
				}
			}
		}
		if t.op == OSym {
			addSym(t)
		}
		for _, x := range t.args {
			rec(x)
		}
		for _, e := range t.ents {
			for _, p := range e.path {
				rec(p)
			}
			rec(e.val)
		}
		if t.place != nil {
			for _, p := range t.place.idx {
				rec(p)
			}
			// a returned reference into a parameter
			if strings.HasPrefix(t.place.root, "$") && r.cellsT != nil {
				if pl, ok := r.cellsT[t.place.cell()]; ok {
					ev := &Evaluator{A: a, syms: r.syms, prog: g.M}
					rec(ev.initCell(pl.p, pl.t))
				}
			}
		}
	}
	for _, o := range r.order {
		rec(r.outs[o])
	}
	rec(r.trap)
	s.trap = r.trap != a.F
	for _, o := range r.order {
		if o[0] == 'r' && !strings.Contains(o, "|") {
			continue
		}
		ini := r.init[o]
		if ini == nil {
			continue
		}
		for ini.op == OIte {
			ini = ini.args[0]
		}
		if ini.op != OSym {
			continue
		}
		si := r.syms[ini.s]
		if si == nil {
			continue
		}
		if si.glob == "" && si.param < 0 {
			continue
		}
		sr := sumRef{name: ini.s, param: si.param, path: si.path, typ: si.typ, slice: si.slice, glob: si.glob}
		s.mods = append(s.mods, sr)
		// a conditional or partial write also depends on the old contents
	}
	for _, r := range refs {
		s.refs = append(s.refs, r)
	}
	sort.Slice(s.refs, func(i, j int) bool { return s.refs[i].name < s.refs[j].name })
	sort.Slice(s.mods, func(i, j int) bool { return s.mods[i].name < s.mods[j].name })
	return s
}

func fieldType(t types.Type, name string) types.Type {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return types.Typ[types.Invalid]
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

type Diff struct {
	Key  string
	Out  string
	Pos  string
	Why  string
	M, R *Term
	How  string
}

type CmpResult struct {
	Second int // values shown equal by the second stage
	Key    string
	Diffs  []Diff
	Outs   int
	Steps  int
	Loops  int
	Inl    []string
	Calls  int
	Undec  []string
	Time   time.Duration
	MUndec bool
	Ident  bool
}

// compare decides whether the repository's function computes what the model's does.
func (g *Engine) compare(key string) *CmpResult { return g.compareAs(key, key) }

// compareAs compares reference function mkey with the repository's key.
func (g *Engine) compareAs(mkey, key string) (res *CmpResult) {
	t0 := time.Now()
	res = &CmpResult{Key: key}
	defer func() {
		if x := recover(); x != nil {
			ab, is := x.(evalAbort)
			if !is {
				panic(x)
			}
			if len(res.Diffs) == 0 {
				res.Diffs = append(res.Diffs, Diff{Key: key, Why: "cannot be decided: " + ab.why})
			}
			res.Time = time.Since(t0)
		}
	}()
	mf, rf := g.M.funcs[mkey], g.R.funcs[key]
	if mf == nil {
		res.Diffs = append(res.Diffs, Diff{Key: key, Why: "no reference function"})
		return res
	}
	if rf == nil {
		// a vanished internal function: its obligations moved to its callers
		res.Undec = append(res.Undec, "not present in the repository (inlined into its callers)")
		return res
	}
	fpos := g.R.pos(rf.Pos())
	if !g.noIdent && sigStr(mf) == sigStr(rf) && g.identical(mf, rf) {
		res.Ident = true
		for _, b := range rf.Blocks {
			res.Steps += len(b.Instrs)
		}
		res.Time = time.Since(t0)
		return res
	}
	a := NewArena()
	wasCut := g.cut[key]
	mr := g.run(g.M, mf, a)
	rr := g.run(g.R, rf, a)
	g.cut[key] = wasCut
	res.Outs = len(mr.order)
	res.Steps = mr.steps + rr.steps
	res.Loops = rr.loops
	res.Inl = rr.inl
	for _, n := range rr.opaque {
		res.Calls += n
	}
	if sigStr(mf) != sigStr(rf) {
		// roots whose signature changed cannot be matched parameter by parameter
		res.Undec = append(res.Undec, "signature changed: "+sigStr(rf))
		return res
	}
	if mr.abort != "" || len(mr.unsup) > 0 {
		res.MUndec = true
		res.Undec = append(res.Undec, "model: "+mr.abort+strings.Join(mr.unsup, "; "))
	}
	if rr.abort != "" {
		if mr.abort != rr.abort {
			res.Diffs = append(res.Diffs, Diff{Key: key, Pos: fpos, Why: "cannot be decided: " + rr.abort})
		}
		return res
	}
	outs := map[string]bool{}
	for k := range mr.outs {
		outs[k] = true
	}
	for k := range rr.outs {
		outs[k] = true
	}
	for _, k := range sortedKeys(outs) {
		mt, rt := mr.outs[k], rr.outs[k]
		if mt == nil {
			mt = rr.init[k]
		}
		if rt == nil {
			rt = mr.init[k]
		}
		if mt == rt {
			continue
		}
		if os.Getenv("GOV1_PTR") != "" {
			fmt.Println("PTR", k, mt.sz, rt.sz, a.explain(mt, rt))
		}
		if a.sameValue(mt, rt) {
			res.Second++
			continue
		}
		pos := fpos
		if p := rr.pos[k]; p.IsValid() {
			pos = g.R.pos(p)
		}
		why := "value differs from the reference"
		if mr.outs[k] == nil {
			why = "written, but the reference leaves it unchanged"
		} else if rr.outs[k] == nil {
			why = "left unchanged, but the reference writes it"
		}
		res.Diffs = append(res.Diffs, Diff{Key: key, Out: k, Pos: pos, Why: why, M: mt, R: rt})
		a.settle()
	}
	if !a.sameValue(mr.trap, rr.trap) {
		res.Diffs = append(res.Diffs, Diff{Key: key, Out: "panic-condition", Pos: fpos, Why: "panics on different inputs than the reference", M: mr.trap, R: rr.trap})
	}
	for i := range res.Diffs {
		if i < 6 && res.Diffs[i].M != nil && res.Diffs[i].R != nil {
			res.Diffs[i].How = a.explain(res.Diffs[i].M, res.Diffs[i].R)
		}
	}
	if len(res.Diffs) > 0 && len(rr.unsup) > 0 {
		for i := range res.Diffs {
			res.Diffs[i].Why += " (not analysable: " + rr.unsup[0] + ")"
		}
	}
	res.Time = time.Since(t0)
	return res
}

// ---------------------------------------------------------------------------
// Printing
// ---------------------------------------------------------------------------

func show(t *Term, depth int) string {
	if t == nil {
		return "<none>"
	}
	if depth <= 0 {
		return "…"
	}
	var l []string
	for _, x := range t.args {
		if x != nil && t.op != OPoly {
			l = append(l, "")
		}
	}
	sub := func(x *Term) string { return show(x, depth-1) }
	list := func(xs []*Term) string {
		l = l[:0]
		for _, x := range xs {
			l = append(l, sub(x))
		}
		return strings.Join(l, ", ")
	}
	switch t.op {
	case OConst:
		return fmt.Sprint(t.k)
	case OStr:
		return t.s
	case OBool:
		return fmt.Sprint(t.k == 1)
	case OSym:
		return strings.TrimPrefix(t.s, "init:")
	case OPoly:
		var sb strings.Builder
		for i, x := range t.args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if t.co[i] != 1 {
				fmt.Fprintf(&sb, "%d*", t.co[i])
			}
			sb.WriteString(sub(x))
		}
		if t.k != 0 {
			fmt.Fprintf(&sb, " + %d", t.k)
		}
		return "(" + sb.String() + ")"
	case OMono:
		return "mul(" + list(t.args) + ")"
	case OIte:
		return "if(" + show(t.args[0], depth) + " ? " + sub(t.args[1]) + " : " + sub(t.args[2]) + ")"
	case OGe:
		return sub(t.args[0]) + ">=" + fmt.Sprint(t.k)
	case OEq:
		return sub(t.args[0]) + "==" + sub(t.args[1])
	case OFn:
		return t.s + "(" + list(t.args) + ")"
	case OSel:
		return sub(t.args[0]) + "[" + list(t.args[1:]) + "]"
	case OUpd:
		s := sub(t.args[0]) + "{"
		for i, e := range t.ents {
			if i > 0 {
				s += "; "
			}
			if i > 6 {
				s += "…"
				break
			}
			s += list(e.path) + ":=" + sub(e.val)
		}
		return s + "}"
	case OZero:
		return "zero[" + sub(t.args[0]) + "]" + typeStr(t.typ)
	case OTable:
		return "table:" + t.tab.hash
	case OCall:
		return t.s + "(" + list(t.args) + ")"
	case OOut:
		return t.s + "@" + sub(t.args[0])
	case OField:
		return sub(t.args[0]) + "." + t.s
	case OStruct:
		return "{" + list(t.args) + "}"
	case OTuple:
		return "(" + list(t.args) + ")"
	case OLoop:
		return sub(t.args[0]) + "→" + sub(t.args[1])
	case OCore:
		s := "loop{exit " + sub(t.args[0])
		for i := 1; i < len(t.args); i += 3 {
			s += "; " + show(t.args[i], 1) + "=" + sub(t.args[i+1]) + "→" + sub(t.args[i+2])
		}
		return s + "}"
	case OMu:
		return fmt.Sprintf("μ%d", t.k)
	case OBMu:
		return fmt.Sprintf("v%d_%d", t.k>>16, t.k&0xffff)
	case OBox:
		return "box(" + sub(t.args[0]) + ")"
	case OIter:
		return fmt.Sprintf("i%d", t.k)
	case OAddr:
		return "&" + t.place.root + "|" + t.place.pathStr() + "[" + list(t.place.idx) + "]"
	case OSlice:
		return "ref:" + t.place.root + "|" + t.place.pathStr() + "[" + list(t.place.idx) + "](" + list(t.args) + ")"
	case OAlias:
		return "alias:" + t.place.key()
	}
	return fmt.Sprintf("?op%d", t.op)
}
