package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	header map[*ssa.BasicBlock]*Loop
	irred  bool
}

func computeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{header: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	type be struct{ from, to *ssa.BasicBlock }
	var backs []be
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = 1
		for _, s := range b.Succs {
			if seen[s] == 0 {
				dfs(s)
			} else if seen[s] == 1 {
				backs = append(backs, be{b, s})
				if !s.Dominates(b) {
					li.irred = true
				}
			}
		}
		seen[b] = 2
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, e := range backs {
		L := li.header[e.to]
		if L == nil {
			L = &Loop{header: e.to, blocks: map[*ssa.BasicBlock]bool{e.to: true}}
			li.header[e.to] = L
		}
		work := []*ssa.BasicBlock{e.from}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if L.blocks[b] {
				continue
			}
			L.blocks[b] = true
			for _, p := range b.Preds {
				if seen[p] != 0 {
					work = append(work, p)
				}
			}
		}
	}
	return li
}

const maxUnroll = 8

// tripCount recognises for(i=c0; i<c1; i+=c) with constant bounds: -1 unknown.
func (e *Evaluator) tripCount(f *fctx, L *Loop, es []edge) int {
	var ifi *ssa.If
	hb := L.header
	if x, ok := hb.Instrs[len(hb.Instrs)-1].(*ssa.If); ok {
		ifi = x
	}
	best := -1
	for _, in := range hb.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if kindOf(p.Type()) != 'i' {
			continue
		}
		var init *Term
		okc := true
		for _, ed := range es {
			v := e.phiIn(f, p, ed)
			if v == nil || v.op != OConst || init != nil && init != v {
				okc = false
				break
			}
			init = v
		}
		if !okc || init == nil {
			continue
		}
		step := int64(0)
		for i, pr := range hb.Preds {
			if !L.blocks[pr] {
				continue
			}
			s, ok := stepOf(p.Edges[i], p)
			if !ok || s == 0 || step != 0 && s != step {
				step = 0
				okc = false
				break
			}
			step = s
		}
		if !okc || step == 0 {
			continue
		}
		// a constant-start constant-step variable
		if best == -1 {
			best = 0 // maybe
		}
		if ifi == nil {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || cmp.Block() != hb {
			continue
		}
		inBody := L.blocks[hb.Succs[0]]
		if inBody == L.blocks[hb.Succs[1]] {
			continue
		}
		x, y, op := cmp.X, cmp.Y, cmp.Op
		off, okx := offsetOf(x, p)
		if !okx {
			off, okx = offsetOf(y, p)
			y = x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !okx {
			continue
		}
		var bound *Term
		if c, ok := y.(*ssa.Const); ok && c.Value != nil {
			bound = e.constTerm(c)
		} else if t, ok := f.env[y]; ok && !L.blocks[blockOf(y)] {
			bound = t
		} else if c, ok := y.(*ssa.Call); ok && L.blocks[c.Block()] {
			return 0 // e.g. len(x) evaluated in the header: try
		}
		if bound == nil || bound.op != OConst {
			if bound != nil {
				if (op == token.LSS || op == token.LEQ) && step == 1 && init.k == 0 && off == 0 && fewConsts(bound) {
					return 3
				}
				return -1
			}
			continue
		}
		n := 0
		v := init.k + off
		for n <= maxUnroll+1 {
			var c bool
			switch op {
			case token.LSS:
				c = v < bound.k
			case token.LEQ:
				c = v <= bound.k
			case token.GTR:
				c = v > bound.k
			case token.GEQ:
				c = v >= bound.k
			case token.NEQ:
				c = v != bound.k
			case token.EQL:
				c = v == bound.k
			default:
				return -1
			}
			if c != inBody {
				break
			}
			v += step
			n++
		}
		if n > maxUnroll {
			return -1
		}
		return n + 1 // known: n iterations (+1 so that 0 means "maybe")
	}
	if best == -1 && ifi != nil && ifi.Block() == hb {
		// a counter kept in memory (captured by a closure)
		if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && cmp.Block() == hb {
			counter := func(v ssa.Value) bool {
				if b, ok := v.(*ssa.BinOp); ok {
					if _, ok := b.Y.(*ssa.Const); ok {
						v = b.X
					}
				}
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return false
				}
				al, ok := u.X.(*ssa.Alloc)
				if !ok || kindOf(al.Type().Underlying().(*types.Pointer).Elem()) != 'i' {
					return false
				}
				// starts as a constant
				ad := f.env[al]
				if ad == nil || ad.op != OAddr {
					return false
				}
				for _, ed := range es {
					if x := e.load(ed.st, ad.place, al.Type().Underlying().(*types.Pointer).Elem(), ed.P); x == nil || x.op != OConst {
						return false
					}
				}
				return true
			}
			fixed := func(v ssa.Value) bool {
				if c, ok := v.(*ssa.Const); ok {
					return c.Value != nil
				}
				t, ok := f.env[v]
				return ok && !L.blocks[blockOf(v)] && t.op == OConst
			}
			if counter(cmp.X) && fixed(cmp.Y) || counter(cmp.Y) && fixed(cmp.X) {
				return 0
			}
		}
	}
	return best
}

// fewConsts: a choice between constants of at most 2, the bound of a loop over
// one or two elements.
func fewConsts(t *Term) bool {
	switch t.op {
	case OConst:
		return t.k <= 2
	case OIte:
		return fewConsts(t.args[1]) && fewConsts(t.args[2])
	}
	return false
}

// fewLeft: the condition of L, evaluated in its header, compares with such a bound.
func (e *Evaluator) fewLeft(f *fctx, L *Loop) bool {
	ifi, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != L.header && !L.blocks[cmp.Block()] {
		return false
	}
	t := f.env[cmp.Y]
	return t != nil && t.op == OIte && t.kind == 'i' && fewConsts(t)
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

func stepOf(v ssa.Value, p *ssa.Phi) (int64, bool) {
	off, ok := offsetOf(v, p)
	return off, ok
}

func offsetOf(v ssa.Value, p *ssa.Phi) (int64, bool) {
	if v == p {
		return 0, true
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			o, ok := offsetOf(b.X, p)
			if b.Op == token.SUB {
				return o - c.Int64(), ok
			}
			return o + c.Int64(), ok
		}
		if c, ok := b.X.(*ssa.Const); ok && b.Op == token.ADD && c.Value != nil {
			o, ok := offsetOf(b.Y, p)
			return o + c.Int64(), ok
		}
	}
	return 0, false
}

type loopResult struct {
	exits []edge
	rets  []retEdge
	trap  *Term
}

// loop evaluates loop L entered through es.
func (e *Evaluator) loop(f *fctx, L *Loop, es []edge) loopResult {
	if f.li.irred {
		panic(evalAbort{"irreducible control flow in " + f.fn.String()})
	}
	tc := e.tripCount(f, L, es)
	if tc >= 0 {
		if r, ok := e.unroll(f, L, es, tc); ok {
			return r
		}
	}
	return e.symLoop(f, L, es)
}

func (e *Evaluator) unroll(f *fctx, L *Loop, es []edge, tc int) (loopResult, bool) {
	A := e.A
	var res loopResult
	res.trap = A.F
	limit := maxUnroll + 1
	probe := tc == 0
	cur := es
	saved := len(e.unsup)
	// values defined in the loop and used outside, per iteration
	outs := e.liveOut(f, L)
	for it := 0; ; it++ {
		if it > limit {
			e.unsup = e.unsup[:saved]
			return res, false
		}
		st, P := e.mergeStates(cur)
		e.phis(f, L.header, cur, st, P)
		exits, backs, rets, tr := e.region(f, L, L.header, []edge{{to: L.header, P: P, st: st}}, true)
		// freeze phi inputs and live-outs for this iteration
		for i := range exits {
			e.freeze(f, L, &exits[i])
			exits[i].live = map[ssa.Value]*Term{}
			for _, v := range outs {
				if t, ok := f.env[v]; ok {
					exits[i].live[v] = t
				}
			}
		}
		if probe {
			// a symbolic loop would be better: any iteration where continuing is undecided by constants
			hasHdr := false
			for _, x := range exits {
				if x.from == L.header {
					hasHdr = true
				}
			}
			if hasHdr && len(backs) > 0 && !(it == 1 && e.fewLeft(f, L)) {
				e.unsup = e.unsup[:saved]
				return res, false
			}
		}
		res.exits = append(res.exits, exits...)
		res.rets = append(res.rets, rets...)
		res.trap = A.Or(res.trap, tr)
		for i := range backs {
			e.freezePhis(f, L.header, &backs[i])
		}
		if len(backs) == 0 {
			break
		}
		cur = backs
	}
	res.exits = e.mergeExits(f, L, res.exits, outs)
	return res, true
}

func (e *Evaluator) freezePhis(f *fctx, b *ssa.BasicBlock, ed *edge) {
	m := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v := e.phiIn(f, p, *ed); v != nil {
			m[p] = v
		}
	}
	ed.phi = m
}

func (e *Evaluator) freeze(f *fctx, L *Loop, ed *edge) {
	if ed.phi == nil {
		e.freezePhis(f, ed.to, ed)
	}
}

func (e *Evaluator) liveOut(f *fctx, L *Loop) []ssa.Value {
	var outs []ssa.Value
	for _, b := range f.li.rpo {
		if !L.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !L.blocks[r.Block()] {
					if _, isPhi := r.(*ssa.Phi); isPhi {
						// used on the edge; may be inside another loop-exit block
					}
					outs = append(outs, v)
					break
				}
			}
		}
	}
	return outs
}

// mergeExits groups unrolled exits by target and merges live-out registers.
func (e *Evaluator) mergeExits(f *fctx, L *Loop, exits []edge, outs []ssa.Value) []edge {
	A := e.A
	P := A.F
	for _, x := range exits {
		P = A.Or(P, x.P)
	}
	for _, v := range outs {
		var r *Term
		for i := len(exits) - 1; i >= 0; i-- {
			x, ok := exits[i].live[v]
			if !ok {
				continue
			}
			s := A.Constrain(exits[i].P, P)
			x = A.Constrain(x, s)
			if r == nil {
				r = x
			} else {
				r = A.Ite(s, x, r)
			}
		}
		if r != nil {
			f.env[v] = r
		}
	}
	byTo := map[*ssa.BasicBlock][]edge{}
	var order []*ssa.BasicBlock
	for _, x := range exits {
		if byTo[x.to] == nil {
			order = append(order, x.to)
		}
		byTo[x.to] = append(byTo[x.to], x)
	}
	var res []edge
	for _, to := range order {
		g := byTo[to]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		st, p := e.mergeStates(g)
		ph := map[*ssa.Phi]*Term{}
		for _, in := range to.Instrs {
			pn, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var r *Term
			for i := len(g) - 1; i >= 0; i-- {
				x := g[i].phi[pn]
				if x == nil {
					continue
				}
				s := A.Constrain(g[i].P, p)
				x = A.Constrain(x, s)
				if r == nil {
					r = x
				} else {
					r = A.Ite(s, x, r)
				}
			}
			if r != nil {
				ph[pn] = r
			}
		}
		res = append(res, edge{from: g[0].from, to: to, P: p, st: st, phi: ph})
	}
	return res
}

func (e *Evaluator) loopKey(f *fctx, L *Loop) string {
	return fmt.Sprintf("%s#%s#%d", f.fn.String(), f.key, L.header.Index)
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// symLoop summarises the loop with bound loop variables.
func (e *Evaluator) symLoop(f *fctx, L *Loop, es []edge) loopResult {
	A := e.A
	e.loops++
	st0, P0 := e.mergeStates(es)
	A.pushMu()
	defer A.popMu()
	type phiV struct {
		p     *ssa.Phi
		init  *Term
		sym   *Term
		place *Place // slice-typed
		next  *Term
	}
	var phis []*phiV
	for _, in := range L.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v *Term
		for i := len(es) - 1; i >= 0; i-- {
			x := e.phiIn(f, p, es[i])
			if x == nil {
				continue
			}
			if isSliceT(p.Type()) {
				x = e.contentOf(es[i].st, x)
			}
			s := A.Constrain(es[i].P, P0)
			x = A.Constrain(x, s)
			if v == nil {
				v = x
			} else {
				v = A.Ite(s, x, v)
			}
		}
		pv := &phiV{p: p, init: v}
		if isSliceT(p.Type()) {
			if v.op == OStr && v.s == "nil" {
				pv.init = A.Zero(A.Int(0), p.Type().Underlying().(*types.Slice).Elem())
			}
			pv.place = e.localPlace(f, p, "phi", contentType)
			e.note(pv.place, contentType)
		}
		phis = append(phis, pv)
	}
	lk := e.loopKey(f, L)
	mod := e.loopMod[lk]
	var fr *loopFrame
	var exits, backs []edge
	var rets []retEdge
	var trap *Term
	saved := len(e.unsup)
	for pass := 0; ; pass++ {
		if pass > 12 {
			panic(evalAbort{"loop effects do not stabilise in " + f.fn.String()})
		}
		e.unsup = e.unsup[:saved]
		A.popMu()
		A.pushMu()
		fr = &loopFrame{mod: mod, cellMu: map[string]*Term{}, depth: len(A.muCnt) - 1}
		body := &State{cells: map[string]*cellV{}, parent: st0, frame: fr}
		for _, pv := range phis {
			name := ""
			if pv.init.kind == 'i' && counts(pv.p) {
				name = nonNeg
			}
			pv.sym = A.FreshMu(name, pv.init.kind, nil)
			if pv.place != nil {
				body.cells[pv.place.cell()] = &cellV{t: pv.sym}
				f.env[pv.p] = A.mk(&Term{op: OSlice, place: pv.place, kind: 'o'})
			} else {
				if pv.init.kind == 'o' && e.isRefTerm(pv.init) {
					// pointer-valued loop variable
					f.env[pv.p] = e.un(pv.p, "pointer-valued loop variable")
					continue
				}
				f.env[pv.p] = e.wrapMu(pv.sym)
			}
		}
		exits, backs, rets, trap = e.region(f, L, L.header, []edge{{to: L.header, P: P0, st: body}}, true)
		changed := map[string]bool{}
		collect := func(st *State) {
			for k, c := range st.cells {
				if c.t != nil {
					if m, ok := fr.cellMu[k]; ok && c.t == e.wrapMu(m) {
						continue
					}
				}
				changed[k] = true
			}
		}
		for _, x := range exits {
			collect(x.st)
		}
		for _, x := range backs {
			collect(x.st)
		}
		for _, x := range rets {
			collect(x.st)
		}
		for _, pv := range phis {
			if pv.place != nil {
				delete(changed, pv.place.cell())
			}
		}
		if mod != nil {
			ok := true
			for k := range changed {
				if !mod[k] {
					ok = false
				}
			}
			if ok {
				break
			}
			for k := range mod {
				changed[k] = true
			}
		}
		mod = changed
		e.loopMod[lk] = mod
	}
	for i := range exits {
		e.freeze(f, L, &exits[i])
	}
	if len(backs) == 0 {
		// never repeats: plain code; mus stand for the entry values
		m := map[*Term]*Term{}
		for _, pv := range phis {
			m[pv.sym] = pv.init
		}
		return e.closeAll(f, L, st0, P0, fr, exits, rets, trap, mod, func(t *Term) *Term {
			return e.substInit(t, m, fr, st0)
		}, nil)
	}
	// next-iteration values
	bst, bP := e.mergeStates(backs)
	for _, pv := range phis {
		var v *Term
		for i := len(backs) - 1; i >= 0; i-- {
			x := e.phiIn(f, pv.p, backs[i])
			if x == nil {
				continue
			}
			if pv.place != nil {
				x = e.contentOf(backs[i].st, x)
			}
			s := A.Constrain(backs[i].P, bP)
			x = A.Constrain(x, s)
			if v == nil {
				v = x
			} else {
				v = A.Ite(s, x, v)
			}
		}
		pv.next = v
	}
	exitP := A.F
	for _, x := range exits {
		exitP = A.Or(exitP, x.P)
	}
	for _, x := range rets {
		exitP = A.Or(exitP, x.P)
	}
	cont := A.Constrain(bP, P0)
	exitR := A.Constrain(exitP, P0)
	alive := A.Or(cont, exitR)
	exitC := A.Constrain(exitR, alive)
	trapR := A.Constrain(trap, P0)

	var vars []loopVar
	for _, pv := range phis {
		if pv.next == nil {
			pv.next = e.wrapMu(pv.sym)
		}
		vars = append(vars, loopVar{pv.sym, pv.init, pv.next})
	}
	// cells: reading a next value may create further loop variables
	done := map[string]bool{}
	for {
		n := 0
		for _, k := range append([]string(nil), fr.order...) {
			if done[k] {
				continue
			}
			done[k] = true
			n++
			m := fr.cellMu[k]
			pl := e.prog.places[k]
			init := e.getKey(st0, k, pl.p, pl.t)
			next := e.peek(bst, k)
			if next == nil {
				next = e.wrapMu(m)
			}
			if next.op == OAlias {
				next = e.rawContentAlias(bst, next)
			}
			if init.op == OAlias {
				init = e.rawContentAlias(st0, init)
			}
			vars = append(vars, loopVar{m, init, next})
		}
		// exits and rets may read further cells lazily: force every modified cell now
		for _, k := range sortedKeys(mod) {
			for _, x := range exits {
				e.forceCell(x.st, k)
			}
			for _, x := range rets {
				e.forceCell(x.st, k)
			}
		}
		if n == 0 && len(fr.order) == len(done) {
			break
		}
	}
	fr.closed = true
	iter := A.FreshMu("iter", 'i', nil)
	// next values are only relevant when the loop continues
	for i := range vars {
		vars[i].next = A.Constrain(vars[i].next, bP)
	}
	// induction-variable and invariant elimination
	total := map[*Term]*Term{}
	syms := map[*Term]int{}
	live := append([]loopVar(nil), vars...)
	exC, trR, coP := exitC, trapR, cont
	fixed := map[*Term]*Term{}
	for _, v := range live {
		if v.sym.kind == 'o' && v.next != e.wrapMu(v.sym) {
			fixed[v.sym] = v.init
		}
	}
	// variables that keep their initial value, assuming all of them do
	for n := -1; n != len(fixed) && len(fixed) > 0; {
		n = len(fixed)
		ctx := A.newSubst(fixed)
		for _, v := range live {
			if fixed[v.sym] != nil && ctx.do(v.next) != v.init {
				delete(fixed, v.sym)
			}
		}
	}
	// initial values matter only where the loop is entered
	for i := range live {
		if fixed[live[i].sym] == nil {
			live[i].init = A.Constrain(live[i].init, P0)
		}
	}
	for {
		m := map[*Term]*Term{}
		for i := range live {
			syms[live[i].sym] = i
		}
		oc := A.newCloser(exC, live, iter)
		var keep []loopVar
		for _, v := range live {
			w := e.wrapMu(v.sym)
			if v.next == w || fixed[v.sym] != nil {
				m[v.sym] = v.init
				continue
			}
			if v.sym.kind == 'i' {
				d := A.Sub(v.next, v.sym)
				if d.op != OIte && len(oc.occ(d)) == 0 {
					m[v.sym] = A.Add(v.init, A.Mul(d, iter))
					continue
				}
			}
			if x := A.latch(v, w, iter, oc); x != nil {
				m[v.sym] = x
				continue
			}
			keep = append(keep, v)
		}
		if len(m) == 0 {
			break
		}
		ctx := A.newSubst(m)
		for i := range keep {
			keep[i].next = ctx.do(keep[i].next)
		}
		exC = ctx.do(exC)
		trR = ctx.do(trR)
		coP = ctx.do(coP)
		for k, v := range total {
			total[k] = ctx.do(v)
		}
		for k, v := range m {
			total[k] = v
		}
		for i := range keep {
			keep[i].next = A.Constrain(keep[i].next, coP)
		}
		live = keep
		fixed = nil
	}
	// elements of arrays modified by the loop that keep their value
	inv := A.invariantElems(live, exC, trR, iter)
	var invS *substCtx
	if len(inv) > 0 {
		invS = A.newSubst(inv)
		exC, trR, coP = invS.do(exC), invS.do(trR), invS.do(coP)
		for i := range live {
			live[i].next = A.Constrain(invS.do(live[i].next), coP)
		}
		for k, v := range total {
			total[k] = invS.do(v)
		}
	}
	// loop variables that are never negative: they start so and stay so as long
	// as all of them are
	if nn := A.nonNegVars(live); len(nn) > 0 {
		ctx := A.newSubst(nn)
		exC, trR, coP = ctx.do(exC), ctx.do(trR), ctx.do(coP)
		for i, v := range live {
			if r := nn[v.sym]; r != nil {
				live[i].sym = r
			}
			live[i].next = A.Constrain(ctx.do(v.next), coP)
		}
		for k, v := range total {
			total[k] = ctx.do(v)
		}
		for k, v := range nn {
			total[k] = v
		}
	}
	tot := A.newSubst(total)
	cl := A.newCloser(exC, live, iter)
	closeT := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		t = tot.do(t)
		if invS != nil {
			t = invS.do(t)
		}
		t = A.Constrain(t, exC)
		return e.closeVal(t, cl)
	}
	trapOut := A.F
	if trR != A.F {
		trapOut = A.And(P0, A.newCloser(A.Or(exC, trR), live, iter).close(trR))
	}
	if exitP == A.F {
		// infinite loop
		return loopResult{trap: trapOut}
	}
	r := e.closeAll(f, L, st0, P0, fr, exits, rets, trapOut, mod, closeT, &exC)
	r.trap = trapOut
	return r
}

func (e *Evaluator) closeVal(t *Term, cl *closer) *Term {
	A := e.A
	switch t.op {
	case OSlice, OAddr:
		if t.mu {
			idx := make([]*Term, len(t.place.idx))
			for i, x := range t.place.idx {
				idx[i] = cl.close(x)
			}
			args := make([]*Term, len(t.args))
			for i, x := range t.args {
				args[i] = cl.close(x)
			}
			q := *t.place
			q.idx = idx
			return A.mk(&Term{op: t.op, kind: 'o', place: &q, args: args})
		}
		return t
	case OStruct, OTuple:
		args := make([]*Term, len(t.args))
		for i, x := range t.args {
			args[i] = e.closeVal(x, cl)
		}
		return A.mk(&Term{op: t.op, typ: t.typ, s: t.s, args: args, kind: t.kind})
	}
	return cl.close(t)
}

func (e *Evaluator) forceCell(st *State, k string) {
	e.peek(st, k)
}

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (e *Evaluator) substInit(t *Term, m map[*Term]*Term, fr *loopFrame, st0 *State) *Term {
	for _, k := range fr.order {
		mu := fr.cellMu[k]
		if _, ok := m[mu]; !ok {
			pl := e.prog.places[k]
			m[mu] = e.getKey(st0, k, pl.p, pl.t)
		}
	}
	return e.A.Subst(t, m)
}

// closeAll turns the per-iteration exits into edges of the enclosing region.
func (e *Evaluator) closeAll(f *fctx, L *Loop, st0 *State, P0 *Term, fr *loopFrame, exits []edge, rets []retEdge, trap *Term, mod map[string]bool, closeT func(*Term) *Term, exC **Term) loopResult {
	A := e.A
	var res loopResult
	res.trap = trap
	if exC == nil && trap != A.F {
		res.trap = closeT(trap)
	}
	all := A.F
	for _, x := range exits {
		all = A.Or(all, x.P)
	}
	for _, x := range rets {
		all = A.Or(all, x.P)
	}
	if all == A.F {
		return res
	}
	rel := func(P *Term) *Term { return A.Constrain(A.Constrain(P, all), P0) }
	// registers live after the loop
	for _, v := range e.liveOut(f, L) {
		if t, ok := f.env[v]; ok {
			vv, tt := v, t
			if isSliceT(vv.Type()) && (tt.op == OSlice || tt.op == OIte) {
				f.env[vv] = e.closeRef(f, tt, closeT)
				continue
			}
			f.env[vv] = closeT(tt)
		}
	}
	// merged final state
	var es []edge
	for _, x := range exits {
		es = append(es, edge{P: x.P, st: x.st})
	}
	for _, x := range rets {
		es = append(es, edge{P: x.P, st: x.st})
	}
	fin, _ := e.mergeStates(es)
	out := st0.clone()
	// a cell the exiting iteration did not touch still carries the loop's value
	for _, k := range sortedKeys(mod) {
		if fin.cells[k] == nil {
			if t := e.peek(fin, k); t != nil {
				fin.cells[k] = &cellV{t: t}
			}
		}
	}
	for _, k := range sortedKeys(boolKeys(fin.cells)) {
		c := fin.cells[k]
		if _, ok := mod[k]; !ok && !strings.HasPrefix(k, "L:") {
			continue
		}
		cc := c
		if cc.t != nil && cc.t.op == OAlias {
			if !cc.t.place.hasMu() {
				out.cells[k] = cc
			}
			continue
		}
		var done *Term
		out.cells[k] = &cellV{lazy: func() *Term {
			if done == nil {
				if cc.t == nil {
					cc.t = cc.lazy()
				}
				t := cc.t
				if t.op == OAlias {
					t = A.Str("aliased")
				}
				done = closeT(t)
			}
			return done
		}}
		if !strings.HasPrefix(k, "L:") {
			out.cells[k].t = out.cells[k].lazy()
		}
	}
	// group by target
	byTo := map[*ssa.BasicBlock][]edge{}
	var order []*ssa.BasicBlock
	for _, x := range exits {
		if byTo[x.to] == nil {
			order = append(order, x.to)
		}
		byTo[x.to] = append(byTo[x.to], x)
	}
	nt := len(order)
	if len(rets) > 0 {
		nt++
	}
	for _, to := range order {
		g := byTo[to]
		p := A.F
		for _, x := range g {
			p = A.Or(p, x.P)
		}
		sel := A.T
		if nt > 1 {
			sel = closeT(rel(p))
		}
		ph := map[*ssa.Phi]*Term{}
		for _, in := range to.Instrs {
			pn, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var r *Term
			for i := len(g) - 1; i >= 0; i-- {
				x := g[i].phi[pn]
				if x == nil {
					continue
				}
				s := A.Constrain(g[i].P, p)
				x = A.Constrain(x, s)
				if r == nil {
					r = x
				} else {
					r = A.Ite(s, x, r)
				}
			}
			if r != nil {
				if isSliceT(pn.Type()) {
					ph[pn] = e.closeRef(f, r, closeT)
				} else {
					ph[pn] = closeT(A.Constrain(r, p))
				}
			}
		}
		res.exits = append(res.exits, edge{from: g[0].from, to: to, P: A.And(P0, sel), st: out.clone(), phi: ph})
	}
	if len(rets) > 0 {
		p := A.F
		for _, x := range rets {
			p = A.Or(p, x.P)
		}
		sel := A.T
		if nt > 1 {
			sel = closeT(rel(p))
		}
		var vals []*Term
		for k := range rets[0].vals {
			var r *Term
			for i := len(rets) - 1; i >= 0; i-- {
				x := rets[i].vals[k]
				if x.op == OSlice {
					x = e.contentOf(rets[i].st, x)
				}
				s := A.Constrain(rets[i].P, p)
				x = A.Constrain(x, s)
				if r == nil {
					r = x
				} else {
					r = A.Ite(s, x, r)
				}
			}
			vals = append(vals, closeT(A.Constrain(r, p)))
		}
		res.rets = append(res.rets, retEdge{P: A.And(P0, sel), vals: vals, st: out.clone()})
	}
	return res
}

func boolKeys(m map[string]*cellV) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

func (p *Place) hasMu() bool {
	for _, x := range p.idx {
		if x.mu {
			return true
		}
	}
	return false
}

// closeRef closes a slice reference: only its index terms depend on the loop.
func (e *Evaluator) closeRef(f *fctx, t *Term, closeT func(*Term) *Term) *Term {
	A := e.A
	switch t.op {
	case OIte:
		c := closeT(A.rawIte(t.args[0], A.T, A.F))
		return A.Ite(c, e.closeRef(f, t.args[1], closeT), e.closeRef(f, t.args[2], closeT))
	case OSlice:
		return closeT(t)
	}
	return closeT(t)
}

func (l *Loop) contains(b *ssa.BasicBlock) bool { return l.blocks[b] }

func (li *loopInfo) all() []*Loop {
	var r []*Loop
	for _, b := range li.rpo {
		if l := li.header[b]; l != nil {
			r = append(r, l)
		}
	}
	return r
}

// nonNeg marks a loop variable (as its name) that is never negative.
const nonNeg = "nn"

// nonNegVars finds the integer loop variables that start non-negative and, as
// long as all of those found are, stay non-negative.  It gives each a symbol
// that carries the fact.
func (a *Arena) nonNegVars(vars []loopVar) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, v := range vars {
		if v.sym.kind == 'i' && v.sym.s == "" {
			if lo, _ := a.rng(v.init); lo >= 0 {
				m[v.sym] = a.mk(&Term{op: OMu, s: nonNeg, k: v.sym.k, kind: 'i', typ: v.sym.typ})
			}
		}
	}
	for n := -1; n != len(m) && len(m) > 0; {
		n = len(m)
		ctx := a.newSubst(m)
		for _, v := range vars {
			if m[v.sym] != nil {
				if lo, _ := a.rng(ctx.do(v.next)); lo < 0 {
					delete(m, v.sym)
				}
			}
		}
	}
	return m
}

// latch: a loop variable that keeps its value except in the one iteration with
// iter == s, where it becomes c, is c from the next iteration on:
// v = (0 <= s < iter ? c : init).
func (a *Arena) latch(v loopVar, w, iter *Term, oc *closer) *Term {
	var set *Term
	var atoms []*Term
	memo := map[*Term]*Term{}
	var upd func(t *Term) *Term
	upd = func(t *Term) *Term {
		if t == w {
			return a.F
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch {
		case t.op == OIte:
			atoms = append(atoms, t.args[0])
			hi, lo := upd(t.args[1]), upd(t.args[2])
			if hi != nil && lo != nil {
				r = a.Ite(a.rawIte(t.args[0], a.T, a.F), hi, lo)
			}
		case len(oc.occ(t)) == 0 && (set == nil || set == t):
			set, r = t, a.T
		}
		memo[t] = r
		return r
	}
	u := upd(v.next)
	if u == nil || set == nil || len(atoms) > 4 {
		return nil
	}
	for _, at := range atoms {
		if at.op != OGe {
			continue
		}
		body := at.args[0]
		for _, c := range []int64{1, -1} {
			rest := a.Sub(body, a.Scale(iter, c))
			if len(oc.occ(rest)) != 0 {
				continue
			}
			at0 := a.Scale(a.Sub(a.Int(at.k), rest), c)
			for _, d := range []int64{0, -c} {
				s := a.Add(at0, a.Int(d))
				if u == a.Eq0(a.Sub(iter, s)) {
					return a.Ite(a.And(a.Ge0(s), a.Lt(s, iter)), set, v.init)
				}
			}
		}
	}
	return nil
}

// invariantElems finds reads, at places the loop does not change, of arrays the
// loop modifies, that give the same value in every iteration: every element the
// loop stores is either elsewhere or that very value.
func (a *Arena) invariantElems(live []loopVar, exC, trR, iter *Term) map[*Term]*Term {
	oc := a.newCloser(exC, live, iter)
	arr := map[*Term]loopVar{}
	for _, v := range live {
		if v.sym.kind == 'o' && v.next != v.sym {
			arr[v.sym] = v
		}
	}
	if len(arr) == 0 {
		return nil
	}
	m := map[*Term]*Term{}
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.mask&oc.bit == 0 || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OSel && arr[t.args[0]].sym != nil {
			inv := true
			for _, p := range t.args[1:] {
				inv = inv && len(oc.occ(p)) == 0
			}
			if inv {
				et := t.typ
				if et == nil {
					et = contentType
				}
				m[t] = a.Sel(arr[t.args[0]].init, t.args[1:], et)
				order = append(order, t)
			}
		}
		for _, x := range t.args {
			walk(x)
		}
		for _, e := range t.ents {
			for _, p := range e.path {
				walk(p)
			}
			walk(e.val)
		}
	}
	for _, v := range live {
		walk(v.next)
	}
	walk(exC)
	walk(trR)
	for n := -1; n != len(m) && len(m) > 0; {
		n = len(m)
		ctx := a.newSubst(m)
		for _, t := range order {
			if m[t] == nil {
				continue
			}
			v := arr[t.args[0]]
			if !a.keeps(ctx.do(v.next), t, m[t], map[*Term]bool{v.sym: true}) {
				delete(m, t)
			}
		}
	}
	return m
}

// keeps reports whether content c has value val at the place sel reads, assuming
// the contents in ok do.
func (a *Arena) keeps(c, sel, val *Term, ok map[*Term]bool) bool {
	if ok[c] {
		return true
	}
	et := sel.typ
	if et == nil {
		et = contentType
	}
	path := sel.args[1:]
	switch c.op {
	case OIte:
		return a.keeps(c.args[1], sel, val, ok) && a.keeps(c.args[2], sel, val, ok)
	case OUpd:
		for _, e := range c.ents {
			if r := a.pathRel(e.path, path); r == 0 || r == 2 {
				if len(e.path) > len(path) || a.Sel(e.val, path[len(e.path):], et) != val {
					return false
				}
			}
		}
		return a.keeps(c.args[0], sel, val, ok)
	case OLoop:
		core, out := c.args[0], c.args[1]
		for i := 1; i < len(core.args); i += 3 {
			if core.args[i] == out && out.kind == 'o' {
				if !a.keeps(core.args[i+1], sel, val, ok) {
					return false
				}
				ok[out] = true
				r := a.keeps(core.args[i+2], sel, val, ok)
				delete(ok, out)
				return r
			}
		}
	}
	return a.Sel(c, path, et) == val
}
