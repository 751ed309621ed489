package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Origin analysis: a flow-insensitive, interprocedural, field-based points-to
// analysis.  Every reference-carrying value gets the set of places its object
// may come from: a struct field, a package-level variable, or an allocation.
//
//	field/cell   the storage of a field itself (its address)
//	field/obj    an object reached through a field (slice contents, ...)

type okind int

const (
	oFieldCell okind = iota
	oFieldObj
	oGlobCell
	oGlobObj
	oAlloc
)

type origin struct {
	k    okind
	name string    // Type.field or pkg.Var
	site ssa.Value // allocation
}

type oset map[origin]bool

func (s oset) addAll(t oset) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

type fieldAssign struct {
	in  ssa.Instruction
	val ssa.Value
	adr ssa.Value
	obj bool // into an element of an object reached through the field
	to  string
}

type aliasInfo struct {
	p       *Prog
	fns     []*ssa.Function
	org     map[ssa.Value]oset
	content map[ssa.Value]oset // what is stored inside an allocation
	rets    map[*ssa.Function][]ssa.Value
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[string][]*ssa.Function
	changed bool

	assigns map[string][]fieldAssign
	inplace map[string][]ssa.Instruction
	gwrites map[string][]ssa.Instruction
	leaks   map[string][]fieldAssign // objects of a field stored elsewhere

	callSites map[*ssa.Function][]ssa.CallInstruction
	called    map[*ssa.Function]bool
	stores    int
	calls     int
}

func carriesRef(t types.Type) bool { return carriesRef2(t, map[types.Type]bool{}) }

func carriesRef2(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Array:
		return carriesRef2(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carriesRef2(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carriesRef2(u.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	n := "struct"
	if nm, ok := t.(*types.Named); ok {
		n = nm.Obj().Name()
		if nm.Obj().Pkg() != nil {
			n = nm.Obj().Pkg().Name() + "." + n
		}
	} else {
		n = t.String()
	}
	return n + "." + st.Field(i).Name()
}

func newAlias(p *Prog) *aliasInfo {
	a := &aliasInfo{p: p, org: map[ssa.Value]oset{}, content: map[ssa.Value]oset{}, rets: map[*ssa.Function][]ssa.Value{},
		callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[string][]*ssa.Function{}}
	for fn := range ssautil.AllFunctions(p.ssap) {
		if p.inModule(fn) && len(fn.Blocks) > 0 {
			a.fns = append(a.fns, fn)
		}
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })
	for _, fn := range a.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					a.rets[fn] = append(a.rets[fn], r.Results...)
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if c, isc := in.(ssa.CallInstruction); isc && c.Common().Value == ssa.Value(f) && !c.Common().IsInvoke() && op == &c.Common().Value {
							continue
						}
						a.taken[sigKey(f.Signature)] = append(a.taken[sigKey(f.Signature)], f)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					a.taken[sigKey(f.Signature)] = append(a.taken[sigKey(f.Signature)], f)
				}
			}
		}
	}
	for i := 0; i < 60; i++ {
		a.changed = false
		for _, fn := range a.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					a.step(in)
				}
			}
		}
		if !a.changed {
			break
		}
	}
	a.collect()
	return a
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func (a *aliasInfo) get(v ssa.Value) oset {
	switch x := v.(type) {
	case *ssa.Global:
		return oset{origin{k: oGlobCell, name: globName(x)}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return a.org[v]
}

func (a *aliasInfo) add(v ssa.Value, s oset) {
	if len(s) == 0 || !carriesRef(v.Type()) {
		return
	}
	m := a.org[v]
	if m == nil {
		m = oset{}
		a.org[v] = m
	}
	if m.addAll(s) {
		a.changed = true
	}
}

func (a *aliasInfo) addContent(site ssa.Value, s oset) {
	m := a.content[site]
	if m == nil {
		m = oset{}
		a.content[site] = m
	}
	if m.addAll(s) {
		a.changed = true
	}
}

// load: objects held in the places described by s.
func (a *aliasInfo) load(s oset) oset {
	r := oset{}
	for o := range s {
		switch o.k {
		case oFieldCell, oFieldObj:
			r[origin{k: oFieldObj, name: o.name}] = true
		case oGlobCell, oGlobObj:
			r[origin{k: oGlobObj, name: o.name}] = true
		case oAlloc:
			r.addAll(a.content[o.site])
		}
	}
	return r
}

func (a *aliasInfo) step(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.add(x, oset{origin{k: oAlloc, site: x}: true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a.add(v, oset{origin{k: oAlloc, site: v}: true})
	case *ssa.FieldAddr:
		a.add(x, oset{origin{k: oFieldCell, name: fieldName(x.X.Type(), x.Field)}: true})
	case *ssa.Field:
		a.add(x, oset{origin{k: oFieldObj, name: fieldName(x.X.Type(), x.Field)}: true})
	case *ssa.IndexAddr:
		a.add(x, a.get(x.X))
	case *ssa.Index:
		a.add(x, a.load(a.get(x.X)))
	case *ssa.Lookup:
		a.add(x, a.load(a.get(x.X)))
	case *ssa.Slice:
		s := oset{}
		for o := range a.get(x.X) {
			// slicing an array that is a field or variable aliases its storage
			if o.k == oFieldCell {
				o.k = oFieldObj
			}
			if o.k == oGlobCell {
				o.k = oGlobObj
			}
			s[o] = true
		}
		a.add(x, s)
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			a.add(x, a.load(a.get(x.X)))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.add(x, a.get(e))
		}
	case *ssa.ChangeType:
		a.add(x, a.get(x.X))
	case *ssa.Convert:
		a.add(x, a.get(x.X))
	case *ssa.MakeInterface:
		a.add(x, a.get(x.X))
	case *ssa.ChangeInterface:
		a.add(x, a.get(x.X))
	case *ssa.TypeAssert:
		a.add(x, a.get(x.X))
	case *ssa.SliceToArrayPointer:
		a.add(x, a.get(x.X))
	case *ssa.Extract:
		a.extract(x)
	case *ssa.Store:
		a.store(x.Addr, a.get(x.Val))
	case *ssa.MapUpdate:
		a.store(x.Map, a.get(x.Value))
		a.store(x.Map, a.get(x.Key))
	case *ssa.Send:
		a.store(x.Chan, a.get(x.X))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			a.add(f.FreeVars[i], a.get(b))
		}
	case ssa.CallInstruction:
		a.call(x)
	}
}

func (a *aliasInfo) store(addr ssa.Value, v oset) {
	for o := range a.get(addr) {
		if o.k == oAlloc {
			a.addContent(o.site, v)
		}
	}
}

func (a *aliasInfo) targets(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	if s, ok := c.Value.Type().Underlying().(*types.Signature); ok {
		return a.taken[sigKey(s)]
	}
	return nil
}

func (a *aliasInfo) call(in ssa.CallInstruction) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, _ := in.(ssa.Value)
		switch b.Name() {
		case "append":
			s := oset{origin{k: oAlloc, site: v}: true}
			s.addAll(a.get(c.Args[0]))
			a.add(v, s)
			if len(c.Args) > 1 {
				cont := a.load(a.get(c.Args[1]))
				a.addContent(v, cont)
				a.store(c.Args[0], cont)
			}
			a.addContent(v, a.load(a.get(c.Args[0])))
		case "copy":
			a.store(c.Args[0], a.load(a.get(c.Args[1])))
		}
		return
	}
	for _, f := range a.targets(c) {
		if len(f.Blocks) == 0 || !a.p.inModule(f) {
			continue
		}
		off := 0
		for i, arg := range c.Args {
			if i+off < len(f.Params) {
				a.add(f.Params[i+off], a.get(arg))
			}
		}
		if v, ok := in.(*ssa.Call); ok && f.Signature.Results().Len() == 1 {
			for _, r := range a.rets[f] {
				a.add(v, a.result(c, f, r))
			}
		}
	}
}

// result: origins of the result value r of f as seen by the call c; a
// parameter handed through stands for this call's argument.
func (a *aliasInfo) result(c *ssa.CallCommon, f *ssa.Function, r ssa.Value) oset {
	s := oset{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == x && i < len(c.Args) {
					s.addAll(a.get(c.Args[i]))
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Slice:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				rec(x.X)
			} else {
				s.addAll(a.get(v))
			}
		default:
			s.addAll(a.get(v))
		}
	}
	rec(r)
	return s
}

func (a *aliasInfo) extract(x *ssa.Extract) {
	switch t := x.Tuple.(type) {
	case *ssa.Call:
		for _, f := range a.targets(&t.Call) {
			n := f.Signature.Results().Len()
			rs := a.rets[f]
			for i := x.Index; i < len(rs); i += n {
				a.add(x, a.result(&t.Call, f, rs[i]))
			}
		}
	case *ssa.Lookup:
		if x.Index == 0 {
			a.add(x, a.load(a.get(t.X)))
		}
	case *ssa.TypeAssert:
		if x.Index == 0 {
			a.add(x, a.get(t.X))
		}
	case *ssa.Next:
		if r, ok := t.Iter.(*ssa.Range); ok && x.Index > 0 {
			a.add(x, a.load(a.get(r.X)))
		}
	case *ssa.UnOp:
		if x.Index == 0 {
			a.add(x, a.load(a.get(t.X)))
		}
	}
}

func isInitFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// collect: which fields are assigned, which objects are written in place.
func (a *aliasInfo) collect() {
	a.assigns = map[string][]fieldAssign{}
	a.inplace = map[string][]ssa.Instruction{}
	a.gwrites = map[string][]ssa.Instruction{}
	a.called = map[*ssa.Function]bool{}
	a.leaks = map[string][]fieldAssign{}
	a.callSites = map[*ssa.Function][]ssa.CallInstruction{}
	leak := func(in ssa.Instruction, adr, val ssa.Value) {
		if val == nil || !carriesRef(val.Type()) {
			return
		}
		rs := a.roots(val)
		for o := range a.get(adr) {
			if o.k == oAlloc {
				continue
			}
			for f := range rs {
				if f != o.name {
					a.leaks[f] = append(a.leaks[f], fieldAssign{in, val, adr, false, o.name})
				}
			}
		}
	}
	write := func(in ssa.Instruction, adr, val ssa.Value) {
		for o := range a.get(adr) {
			switch o.k {
			case oFieldCell:
				if val != nil && carriesRef(val.Type()) {
					a.assigns[o.name] = append(a.assigns[o.name], fieldAssign{in, val, adr, false, o.name})
				}
			case oFieldObj:
				a.inplace[o.name] = append(a.inplace[o.name], in)
				if val != nil && carriesRef(val.Type()) {
					a.assigns[o.name] = append(a.assigns[o.name], fieldAssign{in, val, adr, true, o.name})
				}
			case oGlobCell, oGlobObj:
				a.gwrites[o.name] = append(a.gwrites[o.name], in)
			}
		}
	}
	for _, fn := range a.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					a.stores++
					if g, ok := x.Addr.(*ssa.Global); ok && isInitFn(fn) {
						_ = g
						continue
					}
					if isInitFn(fn) && rootGlobal(x.Addr) != nil {
						continue
					}
					write(in, x.Addr, x.Val)
					leak(in, x.Addr, x.Val)
				case *ssa.MapUpdate:
					a.stores++
					if isInitFn(fn) {
						continue
					}
					write(in, x.Map, x.Value)
					leak(in, x.Map, x.Value)
				case ssa.CallInstruction:
					a.calls++
					a.callSites[fn] = append(a.callSites[fn], x)
					for _, t := range a.targets(x.Common()) {
						a.called[t] = true
					}
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy":
							write(in, c.Args[0], nil)
						case "append":
							if _, sl := c.Args[0].(*ssa.Slice); sl {
								write(in, c.Args[0], nil)
							}
						case "delete":
							write(in, c.Args[0], nil)
						}
						continue
					}
					f := c.StaticCallee()
					if f != nil && !a.p.inModule(f) && f.Pkg != nil {
						switch f.Pkg.Pkg.Path() {
						case "sort", "slices":
							for _, arg := range c.Args {
								write(in, arg, nil)
							}
						}
					}
				}
			}
		}
	}
}

// fresh: every object reachable from v was allocated by this module's code and
// does not come from a field or a package-level variable.
func (a *aliasInfo) fresh(v ssa.Value) (bool, string) {
	seen := map[origin]bool{}
	var rec func(s oset) (bool, string)
	rec = func(s oset) (bool, string) {
		keys := make([]origin, 0, len(s))
		for o := range s {
			keys = append(keys, o)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].name < keys[j].name })
		for _, o := range keys {
			if seen[o] {
				continue
			}
			seen[o] = true
			switch o.k {
			case oAlloc:
				if ok, w := rec(a.content[o.site]); !ok {
					return false, w
				}
			default:
				return false, o.name
			}
		}
		return true, ""
	}
	return rec(a.get(v))
}

// sharedInLoop: v is stored through an address that varies in a loop while v
// itself is computed outside of it, so several elements share one object.
func (a *aliasInfo) sharedInLoop(in ssa.Instruction, adr, v ssa.Value) bool {
	def, ok := v.(ssa.Instruction)
	if !ok || def.Parent() != in.Parent() {
		return false
	}
	li := computeLoops(in.Parent())
	for _, l := range li.all() {
		if l.contains(in.Block()) && !l.contains(def.Block()) && variesIn(adr, l.contains, 0) {
			return true
		}
	}
	return false
}

func variesIn(v ssa.Value, in func(*ssa.BasicBlock) bool, d int) bool {
	i, ok := v.(ssa.Instruction)
	if !ok || d > 20 || !in(i.Block()) {
		return false
	}
	switch x := v.(type) {
	case *ssa.IndexAddr:
		return variesIn(x.Index, in, d+1) || variesIn(x.X, in, d+1)
	case *ssa.FieldAddr:
		return variesIn(x.X, in, d+1)
	case *ssa.UnOp:
		return variesIn(x.X, in, d+1)
	case *ssa.BinOp:
		return variesIn(x.X, in, d+1) || variesIn(x.Y, in, d+1)
	case *ssa.Phi:
		return true
	case *ssa.Extract, *ssa.Call, *ssa.Lookup:
		return true
	}
	return false
}

// roots: fields and package-level variables whose objects v may hold.
func (a *aliasInfo) roots(v ssa.Value) map[string]bool {
	r := map[string]bool{}
	seen := map[origin]bool{}
	var rec func(s oset)
	rec = func(s oset) {
		for o := range s {
			if seen[o] {
				continue
			}
			seen[o] = true
			if o.k == oAlloc {
				rec(a.content[o.site])
			} else {
				r[o.name] = true
			}
		}
	}
	rec(a.get(v))
	return r
}

type bitv []uint64

func (b bitv) has(i int) bool { return b[i>>6]&(1<<uint(i&63)) != 0 }
func (b bitv) set(i int)      { b[i>>6] |= 1 << uint(i&63) }
func (b bitv) clear(i int)    { b[i>>6] &^= 1 << uint(i&63) }
func (b bitv) or(c bitv) bool {
	ch := false
	for i := range b {
		if n := b[i] | c[i]; n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}
func (b bitv) clone() bitv { return append(bitv(nil), b...) }

// fullLoop: the index expression runs through all of [0,n) in a loop whose
// every iteration executes block b.  It returns the loop.
func fullLoop(idx ssa.Value, n int64, b *ssa.BasicBlock) *Loop {
	off := int64(0)
	phi, ok := idx.(*ssa.Phi)
	if !ok {
		bo, ok2 := idx.(*ssa.BinOp)
		if !ok2 || bo.Op != token.ADD {
			return nil
		}
		phi, ok = bo.X.(*ssa.Phi)
		c, ok3 := bo.Y.(*ssa.Const)
		if !ok || !ok3 {
			return nil
		}
		off = c.Int64()
	}
	l := computeLoops(b.Parent()).header[phi.Block()]
	if l == nil || !l.contains(b) {
		return nil
	}
	var init, step *int64
	for k, e := range phi.Edges {
		if !l.contains(phi.Block().Preds[k]) {
			c, ok := e.(*ssa.Const)
			if !ok || init != nil {
				return nil
			}
			v := c.Int64()
			init = &v
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(phi) || step != nil {
			return nil
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok {
			return nil
		}
		v := c.Int64()
		if bo.Op == token.SUB {
			v = -v
		} else if bo.Op != token.ADD {
			return nil
		}
		step = &v
		if !b.Dominates(phi.Block().Preds[k]) {
			return nil
		}
	}
	if init == nil || step == nil {
		return nil
	}
	// the only exit is the header's test against a constant
	for x := range l.blocks {
		for _, t := range x.Succs {
			if !l.contains(t) && x != phi.Block() {
				return nil
			}
		}
	}
	iff, ok := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !ok || !l.contains(phi.Block().Succs[0]) {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	cy, ok := cmp.Y.(*ssa.Const)
	if !ok || cy.Value == nil {
		return nil
	}
	lhs := int64(0)
	switch x := cmp.X.(type) {
	case *ssa.Phi:
		if x != phi {
			return nil
		}
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Const)
		if x.X != ssa.Value(phi) || x.Op != token.ADD || !ok {
			return nil
		}
		lhs = c.Int64()
	default:
		return nil
	}
	seen := map[int64]bool{}
	v := *init
	for k := 0; k < 4096; k++ {
		a, y := v+lhs, cy.Int64()
		t := false
		switch cmp.Op {
		case token.LSS:
			t = a < y
		case token.LEQ:
			t = a <= y
		case token.GTR:
			t = a > y
		case token.GEQ:
			t = a >= y
		case token.NEQ:
			t = a != y
		}
		if !t {
			break
		}
		seen[v+off] = true
		v += *step
	}
	for k := int64(0); k < n; k++ {
		if !seen[k] {
			return nil
		}
	}
	return l
}

// freshStore: st replaces, on its own or together with the other iterations of
// its loop, the whole object at base by freshly allocated ones.  The block
// returned dominates exactly the program points where that has happened.
func (a *aliasInfo) freshStore(st *ssa.Store) (base ssa.Value, at *ssa.BasicBlock) {
	if ok, _ := a.fresh(st.Val); !ok {
		return nil, nil
	}
	switch x := st.Addr.(type) {
	case *ssa.FieldAddr, *ssa.Parameter:
		return x, st.Block()
	case *ssa.IndexAddr:
		b, at := ssa.Value(x), st.Block()
		for {
			ix, ok := b.(*ssa.IndexAddr)
			if !ok {
				break
			}
			pt, ok := ix.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return nil, nil
			}
			arr, ok := pt.Elem().Underlying().(*types.Array)
			if !ok {
				return nil, nil
			}
			l := fullLoop(ix.Index, arr.Len(), at)
			if l == nil {
				return nil, nil
			}
			at = l.header
			b = ix.X
		}
		switch b.(type) {
		case *ssa.FieldAddr, *ssa.Parameter:
			return b, at
		}
	}
	return nil, nil
}

// freshensParam: every return of fn has passed a store that makes the object
// at its parameter p a fresh one.
func (a *aliasInfo) freshensParam(fn *ssa.Function, p int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			base, at := a.freshStore(st)
			if base != ssa.Value(fn.Params[p]) {
				continue
			}
			all := true
			for _, r := range fn.Blocks {
				if _, ok := r.Instrs[len(r.Instrs)-1].(*ssa.Return); ok && !at.Dominates(r) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// frozenWrites is an interprocedural typestate analysis.  The object held by a
// field is shared once it has been stored somewhere else, or once the field
// has been assigned an object owned by something else; assigning freshly
// allocated objects to the field ends that.  Reported are the in-place writes
// that may happen while the object is shared.
func (a *aliasInfo) frozenWrites(fields []string) (map[string][]ssa.Instruction, int) {
	idx := map[string]int{}
	for i, f := range fields {
		idx[f] = i
	}
	W := (len(fields) + 63) / 64
	mk := func() bitv { return make(bitv, W) }
	event := map[ssa.Instruction][]int{}
	clr := map[ssa.Instruction][]int{}
	wr := map[ssa.Instruction][]int{}
	type loopClr struct {
		l *Loop
		k int
	}
	clrExit := map[*ssa.BasicBlock][]loopClr{}
	for k, f := range fields {
		for _, as := range a.leaks[f] {
			event[as.in] = append(event[as.in], k)
		}
		for _, as := range a.assigns[f] {
			ok, o := a.fresh(as.val)
			if !ok && !(o == f && len(a.roots(as.val)) == 1) {
				event[as.in] = append(event[as.in], k)
			}
		}
		for _, i := range a.inplace[f] {
			wr[i] = append(wr[i], k)
		}
	}
	for _, fn := range a.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if base, at := a.freshStore(x); base != nil {
						if fa, ok := base.(*ssa.FieldAddr); ok {
							if k, ok := idx[fieldName(fa.X.Type(), fa.Field)]; ok {
								if x.Addr == base {
									clr[in] = append(clr[in], k)
								} else {
									clrExit[at] = append(clrExit[at], loopClr{computeLoops(fn).header[at], k})
								}
							}
						}
					}
				case *ssa.Call:
					t := x.Call.StaticCallee()
					if t == nil || len(t.Blocks) == 0 || !a.p.inModule(t) {
						continue
					}
					for i, arg := range x.Call.Args {
						if fa, ok := arg.(*ssa.FieldAddr); ok && i < len(t.Params) {
							if k, ok := idx[fieldName(fa.X.Type(), fa.Field)]; ok && a.freshensParam(t, i) {
								clr[in] = append(clr[in], k)
							}
						}
					}
				}
			}
		}
	}
	type sum struct {
		out  [2]bitv // nil: does not return so far
		rch  [2]bitv // fields for which this context is reached
		seen bool
	}
	S := map[*ssa.Function]*sum{}
	ones := mk()
	for i := range fields {
		ones.set(i)
	}
	roots := map[*ssa.Function]bool{}
	for _, fn := range a.fns {
		s := &sum{rch: [2]bitv{mk(), mk()}}
		S[fn] = s
		if !a.called[fn] {
			roots[fn] = true
			s.rch[0].or(ones)
			s.seen = true
		}
	}
	badSet := map[string]map[ssa.Instruction]bool{}
	tg := map[ssa.CallInstruction][]*ssa.Function{}
	for _, cs := range a.callSites {
		for _, c := range cs {
			tg[c] = a.targets(c.Common())
		}
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range a.fns {
			sm := S[fn]
			if !sm.seen {
				continue
			}
			for c := 0; c < 2; c++ {
				st := map[*ssa.BasicBlock]bitv{}
				if c == 1 {
					st[fn.Blocks[0]] = ones.clone()
				} else {
					st[fn.Blocks[0]] = mk()
				}
				for again := true; again; {
					again = false
					for _, b := range fn.Blocks {
						if st[b] == nil {
							continue
						}
						s := st[b].clone()
						for _, i := range b.Instrs {
							for _, k := range wr[i] {
								if s.has(k) && sm.rch[c].has(k) {
									if badSet[fields[k]] == nil {
										badSet[fields[k]] = map[ssa.Instruction]bool{}
									}
									badSet[fields[k]][i] = true
								}
							}
							if call, ok := i.(ssa.CallInstruction); ok {
								var n bitv
								ext := len(tg[call]) == 0
								for _, t := range tg[call] {
									ts := S[t]
									if ts == nil {
										ext = true
										continue
									}
									if !ts.seen {
										ts.seen = true
										ch = true
									}
									for w := range s {
										x := ts.rch[0][w] | (sm.rch[c][w] &^ s[w])
										y := ts.rch[1][w] | (sm.rch[c][w] & s[w])
										if x != ts.rch[0][w] || y != ts.rch[1][w] {
											ts.rch[0][w], ts.rch[1][w] = x, y
											ch = true
										}
									}
									if ts.out[0] != nil && ts.out[1] != nil {
										if n == nil {
											n = mk()
										}
										for w := range s {
											n[w] |= (ts.out[0][w] &^ s[w]) | (ts.out[1][w] & s[w])
										}
									}
								}
								if ext {
									if n == nil {
										n = s
									} else {
										n.or(s)
									}
								}
								s = n
								if s == nil {
									break
								}
							}
							for _, k := range event[i] {
								s.set(k)
							}
							for _, k := range clr[i] {
								s.clear(k)
							}
							if _, ok := i.(*ssa.Return); ok {
								if sm.out[c] == nil {
									sm.out[c] = mk()
									ch = true
								}
								if sm.out[c].or(s) {
									ch = true
								}
							}
						}
						if s == nil {
							continue
						}
						for _, t := range b.Succs {
							s := s
							for _, x := range clrExit[b] {
								if !x.l.contains(t) {
									s = s.clone()
									s.clear(x.k)
								}
							}
							if st[t] == nil {
								st[t] = s.clone()
								again = true
							} else if st[t].or(s) {
								again = true
							}
						}
					}
				}
				if roots[fn] && sm.out[c] != nil {
					// the state outlives the call, so any root may come next
					for r := range roots {
						for w := range ones {
							if n := S[r].rch[1][w] | (sm.out[c][w] & sm.rch[c][w]); n != S[r].rch[1][w] {
								S[r].rch[1][w] = n
								ch = true
							}
						}
					}
				}
			}
		}
	}
	bad := map[string][]ssa.Instruction{}
	for f, m := range badSet {
		for i := range m {
			bad[f] = append(bad[f], i)
		}
		l := bad[f]
		sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
	}
	n := 0
	for _, s := range S {
		if s.seen {
			n++
		}
	}
	return bad, n
}

type ownDiag struct{ field, where, what string }

// ownership: an object is only written in place through a field while it
// belongs to that field alone.
func (a *aliasInfo) ownership() (fields []string, assigns, ctxs int, ds []ownDiag) {
	fields = sortedInstr(a.inplace)
	if len(fields) == 0 {
		return
	}
	all, n := a.frozenWrites(fields)
	ctxs = n
	for _, f := range fields {
		assigns += len(a.assigns[f])
		for _, i := range all[f] {
			var with []string
			for _, as := range a.leaks[f] {
				with = append(with, fmt.Sprintf("%s (stored by %s, %s)", as.to, shortFn(as.in.Parent()), a.p.pos(as.in.Pos())))
			}
			for _, as := range a.assigns[f] {
				if ok, o := a.fresh(as.val); !ok && o != f {
					with = append(with, fmt.Sprintf("%s (assigned by %s, %s)", o, shortFn(as.in.Parent()), a.p.pos(as.in.Pos())))
				}
			}
			ds = append(ds, ownDiag{f, a.p.pos(i.Pos()), fmt.Sprintf("%s writes an element of %s while the object may be shared with %s", shortFn(i.Parent()), f, strings.Join(with, ", "))})
		}
		for _, as := range a.assigns[f] {
			if a.sharedInLoop(as.in, as.adr, as.val) {
				ds = append(ds, ownDiag{f, a.p.pos(as.in.Pos()), fmt.Sprintf("several elements of %s share the object assigned in %s, and it is written in place (%s)", f, shortFn(as.in.Parent()), a.p.pos(a.inplace[f][0].Pos()))})
			}
		}
	}
	return
}

func shortFn(fn *ssa.Function) string { return funcKey(fn) }

func sortedInstr(m map[string][]ssa.Instruction) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
