package main

// Value-graph evaluation of SSA functions. Every instruction is mapped to a
// canonical term; joins are gated by the conditions of the incoming edges;
// static calls inside the repository are expanded; loops are summarised (see
// loops.go). Nothing is executed and no path is enumerated.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	kind  string // panic, index, slice, call, extstore, globalstore, mapupdate, sort, defer, go, send, recurse, dyncall, return
	conds []*Term
	fn    *ssa.Function
	instr ssa.Instruction
	name  string
	args  []*Term
	vals  []Val
	res   *Term
	loops []*LoopInfo
	st    *State
}

func (e *Event) cond() *Term {
	c := tTrue
	for _, x := range e.conds {
		c = bAnd(c, x)
	}
	return c
}
func (e *Event) pos() string {
	if e.instr == nil {
		return fnPos(e.fn)
	}
	p := e.instr.Pos()
	if !p.IsValid() {
		// nearest position in the block
		for _, i := range e.instr.Block().Instrs {
			if i.Pos().IsValid() {
				p = i.Pos()
			}
			if i == e.instr && p.IsValid() {
				break
			}
		}
	}
	return relPos(e.fn.Prog, p)
}
func (e *Event) where() string { return e.pos() + " in " + e.fn.String() }

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	binds  []Val
	loops  map[*ssa.BasicBlock]*natLoop
	order  []*ssa.BasicBlock
	parent *Frame
	defers []*Event
}

type Eval struct {
	nobj     int
	events   []*Event
	count    map[string]int
	panics   int
	onDyn    func(st *State, fn *Term, args []*Term) // effect of calling an unknown function value
	returned *Term                                   // condition under which the call just evaluated returns
	loopsRec []*LoopInfo
	rec      int // >0: discovery, no recording
	conds    []*Term
	curLoops []*LoopInfo
	opaque   map[*ssa.Function]bool                                 // do not expand
	forbid   func(fn *ssa.Function, cond *Term, in ssa.Instruction) // told of every call
	pureFn   map[*ssa.Function]bool                                 // uninterpreted functions of what their arguments refer to
	instead  map[*ssa.Function]*ssa.Function                        // evaluate the second for the first
	opaqueBy func(*ssa.Function) bool
	heap     map[string]*Object
	globs    map[*ssa.Global]*Object
	addr     map[*Term]*Object
	// library functions evaluated by a specification function
	stubs       map[*ssa.Function]func(f *Frame, st *State, args []Val, in ssa.Instruction) []Val
	insteadName map[string]*ssa.Function
	poison      *Term // stands for the result of dividing by zero
	open        bool  // loops are not closed: symbols stand for the last iteration
	lazy        bool  // values are simplified by the path condition, stores are kept apart
	ptrs        map[*Term]Loc
	funcs       map[*Term]*FuncV
	ifaces      map[*Term]*IfaceV
	extObj      map[*Term]*Object
	seq         int
	depth       int
	stack       []*ssa.Function
	steps       int
	inInit      bool
	analysed    map[*ssa.Function]bool
}

func newEval() *Eval {
	return &Eval{opaque: map[*ssa.Function]bool{}, heap: map[string]*Object{}, globs: map[*ssa.Global]*Object{},
		addr: map[*Term]*Object{}, ptrs: map[*Term]Loc{}, funcs: map[*Term]*FuncV{}, ifaces: map[*Term]*IfaceV{},
		extObj: map[*Term]*Object{}, analysed: map[*ssa.Function]bool{}}
}

func (e *Eval) newObj(name string, t types.Type) *Object {
	e.nobj++
	return &Object{id: e.nobj, name: name, typ: t}
}

func (e *Eval) fresh(name string) string {
	if e.open { // numbered by name, so that both sides of a simulation agree
		if e.count == nil {
			e.count = map[string]int{}
		}
		e.count[name]++
		return fmt.Sprintf("%s#%d", name, e.count[name])
	}
	e.seq++
	return fmt.Sprintf("%s#%d", name, e.seq)
}

func (e *Eval) event(ev *Event) *Event {
	ev.conds = append([]*Term{}, e.conds...)
	ev.loops = append([]*LoopInfo{}, e.curLoops...)
	if e.rec == 0 {
		e.events = append(e.events, ev)
	}
	return ev
}

// ---------- conversions between values and terms ----------

func (e *Eval) toTerm(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *SliceV:
		return e.sliceTerm(st, x)
	case *MapV:
		return e.load(st, x.Loc)
	case *Ptr:
		return e.ptrTerm(x.Loc)
	case *FuncV:
		args := make([]*Term, len(x.bind))
		for i, b := range x.bind {
			args[i] = e.toTerm(st, b)
		}
		t := mkFn("func:"+x.fn.String(), SOther, false, args...)
		e.funcs[t] = x
		return t
	case *IfaceV:
		t := mkFn("fresh:iface:"+tname(x.typ), SOther, false, e.toTerm(st, x.val))
		e.ifaces[t] = x
		return t
	}
	panic(undecided(fmt.Sprintf("value %T as term", v)))
}

func (e *Eval) ptrTerm(l Loc) *Term {
	mk := func(o *Object) *Term {
		n := fmt.Sprintf("%s.%d", o.name, o.id)
		if o.tag != "" {
			n = o.tag
		}
		t := mkVar("addr:"+n, SNum, true)
		e.addr[t] = o
		return t
	}
	if len(l.path) == 0 {
		return mk(l.obj)
	}
	if e.lazy && len(l.path) == 1 && l.path[0].idx != nil && e.heap[tname(elemOf(l.obj.typ))] == l.obj {
		return l.path[0].idx
	}
	if len(l.path) == 1 && l.path[0].idx != nil {
		return tAdd(mk(l.obj), l.path[0].idx)
	}
	sig := ""
	var idx []*Term
	for _, s := range l.path {
		if s.idx != nil {
			sig += "[]"
			idx = append(idx, s.idx)
		} else {
			sig += "." + itoa(s.field)
		}
	}
	n := fmt.Sprintf("%s.%d", l.obj.name, l.obj.id)
	if l.obj.tag != "" {
		n = l.obj.tag
	}
	t := mkFn("ptr:"+n+sig, SNum, true, idx...)
	e.ptrs[t] = l
	return t
}

// selfRef: a structure with references to its own kind
func selfRef(T types.Type) bool {
	st, ok := under(T).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := under(st.Field(i).Type()).(*types.Pointer); ok && types.Identical(p.Elem(), T) {
			return true
		}
	}
	return false
}

// hasBase: a place in a list of nodes
func hasBase(t *Term) bool {
	for _, q := range asPoly(t) {
		if len(q.m) == 1 && q.m[0].a.op == OVar && hasPfx(q.m[0].a.name, "base:") {
			return true
		}
	}
	return false
}

func (e *Eval) heapObj(T types.Type) *Object {
	k := tname(T)
	if o, ok := e.heap[k]; ok {
		return o
	}
	o := e.newObj("heap:"+k, types.NewSlice(T))
	o.init = mkVar("heap:"+k, SSeq, false)
	o.ext = true
	e.heap[k] = o
	return o
}

// deref maps a pointer-valued term to a location.
func (e *Eval) deref(t *Term, elem types.Type) Loc {
	if l, ok := e.ptrs[t]; ok {
		return l
	}
	for _, p := range asPoly(t) {
		if len(p.m) == 1 && p.m[0].e == 1 && p.c.Cmp(rat1) == 0 {
			if o, ok := e.addr[p.m[0].a]; ok {
				rest := tSub(t, p.m[0].a)
				switch under(o.typ).(type) {
				case *types.Slice:
					return Loc{o, []Step{{idx: rest}}}
				case *types.Array:
					if !types.Identical(o.typ, elem) {
						return Loc{o, []Step{{idx: rest}}}
					}
				}
				return Loc{o, nil}
			}
		}
	}
	return Loc{e.heapObj(elem), []Step{{idx: t}}}
}

func (e *Eval) sliceTerm(st *State, s *SliceV) *Term {
	l := st.resolve(s.Loc)
	c := e.load(st, l)
	return mkSub(c, s.lo, tAdd(s.lo, s.n))
}

// seqObj wraps a sequence-valued term of unknown owner.
func (e *Eval) asSlice(st *State, v Val, T types.Type) *SliceV {
	switch x := v.(type) {
	case *SliceV:
		return x
	case *Term:
		if x.sort != SSeq && !(x.op == OIte && x.sort == SSeq) {
			panic(undecided("slice value expected: " + x.String()))
		}
		if x.op == OSub {
			b := e.asSlice(st, x.args[0], T)
			return &SliceV{b.Loc, tAdd(b.lo, x.args[1]), tSub(x.args[2], x.args[1])}
		}
		o := e.extObj[x]
		if o == nil {
			o = e.newObj("seq:"+clipN(x.String(), 40), T)
			o.init = x
			o.ext = x != tEmpty
			e.extObj[x] = o
		}
		return &SliceV{Loc{o, nil}, tZero, mkLen(x)}
	}
	panic(undecided(fmt.Sprintf("slice value expected, got %T", v)))
}
func clipN(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}
func (e *Eval) freshSlice(st *State, name string, T types.Type, content *Term) *SliceV {
	if _, ok := under(T).(*types.Slice); !ok {
		T = types.NewSlice(elemOf(T))
	}
	o := e.newObj(name, T)
	st.mem[o] = content
	return &SliceV{Loc{o, nil}, tZero, mkLen(content)}
}

// ---------- memory ----------

func (e *Eval) load(st *State, l Loc) *Term {
	l = st.resolve(l)
	t := st.get(l.obj)
	T := l.obj.typ
	for _, s := range l.path {
		t = s.sel(t, T)
		T = s.typ(T)
	}
	return t
}

// loadVal loads with slices and maps kept as views of their location.
func (e *Eval) loadVal(st *State, l Loc) Val {
	l = st.resolve(l)
	T := l.typ()
	t := e.load(st, l)
	switch under(T).(type) {
	case *types.Slice:
		if isHeapLoc(l) {
			return &SliceV{l, tZero, mkLen(t)}
		}
		return &SliceV{l, tZero, mkLen(t)}
	case *types.Map:
		return &MapV{l}
	}
	return e.thaw(t)
}
func isHeapLoc(l Loc) bool { return strings.HasPrefix(l.obj.name, "heap:") }

// thaw recovers structured values from terms.
func (e *Eval) thaw(t *Term) Val {
	if f, ok := e.funcs[t]; ok {
		return f
	}
	if f, ok := e.ifaces[t]; ok {
		return f
	}
	return t
}

func (e *Eval) storeTerm(st *State, l Loc, t *Term) {
	l = st.resolve(l)
	st.mem[l.obj] = update(st.get(l.obj), l.obj.typ, l.path, t)
}

func (e *Eval) storeVal(st *State, l Loc, v Val, f *Frame, in ssa.Instruction) {
	l = st.resolve(l)
	if l.obj.ext {
		kind := "extstore"
		if l.obj.glob != nil {
			kind = "globalstore"
		}
		ev := &Event{kind: kind, fn: f.fn, instr: in, name: l.String(), vals: []Val{&Ptr{l}}}
		ev.args = []*Term{e.toTerm(st, v)}
		e.event(ev)
	}
	t := e.toTerm(st, v)
	// the stored slice or map now lives at l
	var own *Object
	switch x := v.(type) {
	case *SliceV:
		if len(x.path) == 0 && x.lo == tZero && !x.obj.ext && x.obj != l.obj && x.n == mkLen(st.getOr(x.obj)) {
			own = x.obj
		}
	case *MapV:
		if len(x.path) == 0 && !x.obj.ext && x.obj != l.obj {
			own = x.obj
		}
	}
	e.storeTerm(st, l, t)
	if own != nil {
		if _, done := st.fwd[own]; !done {
			nf := make(map[*Object]Loc, len(st.fwd)+1)
			for k, w := range st.fwd {
				nf[k] = w
			}
			nf[own] = l
			st.fwd = nf
		}
	}
}
func (s *State) getOr(o *Object) *Term {
	if t, ok := s.mem[o]; ok {
		return t
	}
	if o.init == nil {
		return tEmpty
	}
	return o.init
}

// ---------- functions ----------

func (e *Eval) isOpaque(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || fn.Pkg == nil || !P.inRep[fn.Pkg] {
		if fn.Pkg == nil && len(fn.Blocks) > 0 { // wrappers, bound methods
			return false
		}
		return true
	}
	if e.opaque[fn] || (e.opaqueBy != nil && e.opaqueBy(fn)) {
		return true
	}
	return false
}

type retVal struct {
	cond *Term
	vals []Val
	st   *State
}

// call evaluates fn on args; returns the results and the merged state.
func (e *Eval) call(fn *ssa.Function, args []Val, binds []Val, st *State) ([]Val, *State) {
	for _, g := range e.stack {
		if g == fn {
			panic("recursive call must be handled by caller")
		}
	}
	if len(e.stack) > 40 {
		panic(undecided("call depth"))
	}
	e.stack = append(e.stack, fn)
	e.analysed[fn] = true
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = binds[i]
	}
	f.loops = naturalLoops(fn)
	f.order = rpo(fn)
	panics := e.panics
	r := e.region(f, nil, fn.Blocks[0], st)
	if len(r.rets) == 0 {
		// never returns
		return nil, nil
	}
	total := tFalse
	for _, x := range r.rets {
		total = bOr(total, x.cond)
	}
	var vals []Val
	var conds []*Term
	var sts []*State
	var vs [][]Val
	for _, x := range r.rets {
		conds = append(conds, x.cond)
		sts = append(sts, x.st)
		vs = append(vs, x.vals)
	}
	e.returned = nil
	if e.open && e.panics > panics && total != tTrue {
		e.returned = total
	}
	out := e.mergeStates(conds, sts, total)
	if len(vs[0]) > 0 {
		for i := range vs[0] {
			col := make([]Val, len(vs))
			for j := range vs {
				col[j] = vs[j][i]
			}
			vals = append(vals, e.mergeVals(conds, col, sts, out, total, fn.Signature.Results().At(i).Type()))
		}
	}
	for _, d := range f.defers {
		_ = d
	}
	return vals, out
}

// ---------- merging ----------

// care: simplify f knowing c holds (only its decision spine)
func care(f, c *Term) *Term {
	type key struct{ a, b *Term }
	memo := map[key]*Term{}
	var rec func(f, c *Term) *Term
	rec = func(f, c *Term) *Term {
		if c == tTrue || c == tFalse || f.op != OIte {
			return f
		}
		k := key{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		fa, ca := f.args[0], c.args[0]
		switch {
		case fa == ca:
			if c.args[1] == tFalse {
				r = rec(f.args[2], c.args[2])
			} else if c.args[2] == tFalse {
				r = rec(f.args[1], c.args[1])
			} else {
				r = mkIteAtom(fa, rec(f.args[1], c.args[1]), rec(f.args[2], c.args[2]))
			}
		case ca.id < fa.id:
			r = rec(f, bOr(c.args[1], c.args[2]))
		default:
			r = mkIteAtom(fa, rec(f.args[1], c), rec(f.args[2], c))
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

func mergeTerms(conds []*Term, ts []*Term, total *Term) *Term {
	r := ts[len(ts)-1]
	all := true
	for _, t := range ts {
		if t != r {
			all = false
		}
	}
	if all {
		return r
	}
	for i := len(ts) - 2; i >= 0; i-- {
		r = mkIte(conds[i], ts[i], r)
	}
	return care(r, total)
}

func (e *Eval) mergeVals(conds []*Term, vs []Val, sts []*State, out *State, total *Term, T types.Type) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	// views of one location
	if s0, ok := vs[0].(*SliceV); ok {
		los, ns := []*Term{}, []*Term{}
		one := true
		for _, v := range vs {
			s, ok := v.(*SliceV)
			if !ok || !sameLoc(s.Loc, s0.Loc) {
				one = false
				break
			}
			los = append(los, s.lo)
			ns = append(ns, s.n)
		}
		if one {
			return &SliceV{s0.Loc, mergeTerms(conds, los, total), mergeTerms(conds, ns, total)}
		}
	}
	if _, ok := vs[0].(TupleV); ok {
		n := len(vs[0].(TupleV))
		r := make(TupleV, n)
		for i := 0; i < n; i++ {
			col := make([]Val, len(vs))
			for j := range vs {
				col[j] = vs[j].(TupleV)[i]
			}
			var ti types.Type
			if tt, ok := T.(*types.Tuple); ok {
				ti = tt.At(i).Type()
			}
			r[i] = e.mergeVals(conds, col, sts, out, total, ti)
		}
		return r
	}
	ts := make([]*Term, len(vs))
	for i, v := range vs {
		ts[i] = e.toTerm(sts[i], v)
	}
	t := mergeTerms(conds, ts, total)
	if T != nil {
		if _, ok := under(T).(*types.Slice); ok {
			return e.freshSlice(out, "merged", T, t)
		}
		if _, ok := under(T).(*types.Map); ok {
			o := e.newObj("mergedmap", T)
			out.mem[o] = t
			return &MapV{Loc{o, nil}}
		}
	}
	return t
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		return a == b
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && sameLoc(x.Loc, y.Loc)
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && sameLoc(x.Loc, y.Loc) && x.lo == y.lo && x.n == y.n
	case *MapV:
		y, ok := b.(*MapV)
		return ok && sameLoc(x.Loc, y.Loc)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.typ, y.typ) && sameVal(x.val, y.val)
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *RangeV:
		return a == b
	}
	return false
}

func (e *Eval) mergeStates(conds []*Term, sts []*State, total *Term) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	out := newState()
	for _, s := range sts {
		for o, l := range s.fwd {
			out.fwd[o] = l
		}
	}
	seen := map[*Object]bool{}
	for _, s := range sts {
		for _, o := range sortedObjs(s.mem) {
			if seen[o] {
				continue
			}
			seen[o] = true
			var cs, ts []*Term
			for i, s2 := range sts {
				t, ok := s2.mem[o]
				if !ok {
					if o.init == nil {
						continue
					}
					t = o.init
				}
				cs = append(cs, conds[i])
				ts = append(ts, t)
			}
			out.mem[o] = mergeTerms(cs, ts, total)
		}
	}
	return out
}

// ---------- regions ----------

type edgeIn struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	cond *Term
	st   *State
}
type regionResult struct {
	out  []edgeIn // edges leaving the region
	back []edgeIn // edges to the region's header
	rets []retVal
}

// region evaluates the blocks of loop lp (nil: whole function) from entry.
func (e *Eval) region(f *Frame, lp *natLoop, entry *ssa.BasicBlock, st *State) regionResult {
	var res regionResult
	in := map[*ssa.BasicBlock][]edgeIn{}
	in[entry] = []edgeIn{{nil, entry, tTrue, st}}
	inside := func(b *ssa.BasicBlock) bool { return lp == nil || lp.body[b] }
	push := func(ed edgeIn) {
		if ed.cond == tFalse {
			return
		}
		if lp != nil && ed.to == entry {
			res.back = append(res.back, ed)
		} else if !inside(ed.to) {
			res.out = append(res.out, ed)
		} else {
			in[ed.to] = append(in[ed.to], ed)
		}
	}
	for _, b := range f.order {
		if !inside(b) {
			continue
		}
		eds := in[b]
		if len(eds) == 0 {
			continue
		}
		if inner := f.loops[b]; inner != nil && inner != lp && b == inner.header && (lp == nil || b != entry) {
			cond := tFalse
			for _, ed := range eds {
				cond = bOr(cond, ed.cond)
			}
			e.pushCond(cond)
			lr := e.loop(f, inner, eds, cond)
			e.popCond()
			for _, ed := range lr.out {
				ed.cond = bAnd(cond, ed.cond)
				push(ed)
			}
			for _, r := range lr.rets {
				r.cond = bAnd(cond, r.cond)
				res.rets = append(res.rets, r)
			}
			continue
		}
		cond := tFalse
		conds := make([]*Term, len(eds))
		sts := make([]*State, len(eds))
		for i, ed := range eds {
			cond = bOr(cond, ed.cond)
			conds[i] = ed.cond
			sts[i] = ed.st
		}
		if cond == tFalse {
			continue
		}
		cur := e.mergeStates(conds, sts, cond)
		if len(eds) == 1 {
			cur = sts[0].clone()
		}
		// phis
		if eds[0].from != nil {
			var phis []*ssa.Phi
			var nv []Val
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				vs := make([]Val, len(eds))
				for i, ed := range eds {
					vs[i] = e.operand(f, ed.st, phiArg(ph, ed.from))
				}
				phis = append(phis, ph)
				nv = append(nv, e.mergeVals(conds, vs, sts, cur, cond, ph.Type()))
			}
			for i, ph := range phis {
				f.env[ph] = nv[i]
			}
		}
		e.pushCond(cond)
		next, rets := e.block(f, b, cur)
		e.popCond()
		for _, n := range next {
			n.cond = bAnd(cond, n.cond)
			push(n)
		}
		for _, r := range rets {
			r.cond = bAnd(cond, r.cond)
			res.rets = append(res.rets, r)
		}
	}
	return res
}

func phiArg(ph *ssa.Phi, from *ssa.BasicBlock) ssa.Value {
	for i, p := range ph.Block().Preds {
		if p == from {
			return ph.Edges[i]
		}
	}
	panic("phi without matching predecessor")
}

func (e *Eval) pushCond(c *Term) { e.conds = append(e.conds, c) }
func (e *Eval) popCond()         { e.conds = e.conds[:len(e.conds)-1] }

// block evaluates one basic block; when a call in it may end in a panic and
// loops are left open, what follows is conditional on its returning.
func (e *Eval) block(f *Frame, b *ssa.BasicBlock, st *State) (next []edgeIn, rets []retVal) {
	alive := tTrue
	pushed := len(e.conds)
	next, rets = e.blockBody(f, b, st, &alive)
	e.conds = e.conds[:pushed]
	if alive != tTrue {
		for i := range next {
			next[i].cond = bAnd(alive, next[i].cond)
		}
		for i := range rets {
			rets[i].cond = bAnd(alive, rets[i].cond)
		}
	}
	return next, rets
}

func (e *Eval) blockBody(f *Frame, b *ssa.BasicBlock, st *State, live **Term) (next []edgeIn, rets []retVal) {
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > 3000000 {
			panic(undecided("evaluation budget exhausted"))
		}
		checkDeadline()
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.cond(f, st, x.Cond)
			return []edgeIn{{b, b.Succs[0], c, st}, {b, b.Succs[1], bNot(c), st}}, nil
		case *ssa.Jump:
			return []edgeIn{{b, b.Succs[0], tTrue, st}}, nil
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, e.operand(f, st, r))
			}
			ev := &Event{kind: "return", fn: f.fn, instr: x, vals: vs}
			if len(e.stack) == 1 {
				ev.st = st.clone()
				e.event(ev)
			}
			return nil, []retVal{{tTrue, vs, st}}
		case *ssa.Panic:
			e.panics++
			ev := &Event{kind: "panic", fn: f.fn, instr: x}
			if types.Implements(x.X.Type(), errType()) || types.IsInterface(x.X.Type()) {
				ev.args = []*Term{e.toTerm(st, e.operand(f, st, x.X))}
			}
			e.event(ev)
			return nil, nil
		default:
			alive := e.instr(f, st, in)
			if !alive {
				return nil, nil
			}
			if r := e.returned; r != nil {
				e.returned = nil
				*live = bAnd(*live, r)
				e.pushCond(r)
			}
		}
	}
	return nil, nil
}

func (e *Eval) cond(f *Frame, st *State, v ssa.Value) *Term {
	t := e.term(f, st, v)
	return boolOf(t)
}

func (e *Eval) term(f *Frame, st *State, v ssa.Value) *Term {
	return e.toTerm(st, e.operand(f, st, v))
}

func (e *Eval) operand(f *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		return &Ptr{Loc{e.globalObj(x), nil}}
	case *ssa.Builtin:
		return nil
	}
	r, ok := f.env[v]
	if !ok {
		panic(undecided("value " + v.Name() + " of " + f.fn.String() + " not available"))
	}
	if t, ok := r.(*Term); ok && e.lazy {
		return e.onPath(t)
	}
	return r
}

// onPath: the value on the paths that lead here
func (e *Eval) onPath(t *Term) *Term {
	for i := len(e.conds) - 1; i >= 0 && t.op == OIte; i-- {
		t = care(t, e.conds[i])
	}
	return t
}

func (e *Eval) globalObj(g *ssa.Global) *Object {
	if o, ok := e.globs[g]; ok {
		return o
	}
	T := g.Type().(*types.Pointer).Elem()
	o := e.newObj("global:"+g.Name(), T)
	o.glob = g
	o.ext = true
	e.globs[g] = o
	o.init = symOf("global:"+g.Name(), T)
	if g.Pkg != nil && P.inRep[g.Pkg] && !e.inInit {
		if t := globalInit(g); t != nil {
			o.init = t
		}
	}
	return o
}

// globalInit: the value package initialisation gives to a global that nothing
// else writes.
var globInit = map[*ssa.Package]map[*ssa.Global]*Term{}
var globWritten map[*ssa.Global]bool

func globalInit(g *ssa.Global) *Term {
	if globWritten == nil {
		globWritten = map[*ssa.Global]bool{}
		for _, fn := range P.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if onlyReadThrough(in, gl) {
							continue
						}
						globWritten[gl] = true
					}
				}
			}
		}
	}
	if globWritten[g] {
		return nil
	}
	m, ok := globInit[g.Pkg]
	if !ok {
		m = map[*ssa.Global]*Term{}
		globInit[g.Pkg] = m
		init := g.Pkg.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			return nil
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(undecidedErr); !ok {
						panic(r)
					}
				}
			}()
			ev := newEval()
			ev.inInit = true
			ev.rec = 1
			st := newState()
			for _, name := range sortedNames(g.Pkg.Members) {
				if gl, ok := g.Pkg.Members[name].(*ssa.Global); ok {
					st.mem[ev.globalObj(gl)] = zeroOf(gl.Type().(*types.Pointer).Elem())
				}
			}
			_, out := ev.call(init, nil, nil, st)
			if out == nil {
				return
			}
			for gl, o := range ev.globs {
				if t, ok := out.mem[o]; ok {
					m[gl] = t
				}
			}
		}()
	}
	t := m[g]
	if t != nil && anyTerm(t, func(x *Term) bool {
		return strings.HasPrefix(x.name, "addr:") || strings.HasPrefix(x.name, "ptr:") || strings.HasPrefix(x.name, "func:")
	}) {
		return nil
	}
	return t
}

// onlyReadThrough: the instruction takes the address of a part of the global
// which is only loaded from.
func onlyReadThrough(in ssa.Instruction, g ssa.Value) bool {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.FieldAddr:
		v = x
	case *ssa.IndexAddr:
		if x.X != g {
			return true
		}
		v = x
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if !onlyReadThrough(r, v) {
			return false
		}
	}
	return true
}

// location of an address operand
func (e *Eval) loc(f *Frame, st *State, v ssa.Value) Loc {
	return e.locOf(e.operand(f, st, v), v.Type())
}
func (e *Eval) locOf(v Val, T types.Type) Loc {
	switch x := v.(type) {
	case *Ptr:
		return x.Loc
	case *Term:
		return e.deref(x, under(T).(*types.Pointer).Elem())
	}
	panic(undecided(fmt.Sprintf("address %T", v)))
}

// splitPtr distributes an operation over a gated pointer.
func (e *Eval) iteLocs(v Val, T types.Type) (conds []*Term, locs []Loc) {
	if t, ok := v.(*Term); ok && t.op == OIte {
		var walk func(t, c *Term)
		walk = func(t, c *Term) {
			if c == tFalse {
				return
			}
			if t.op == OIte {
				a := mkAtomNode(t.args[0])
				walk(t.args[1], bAnd(c, a))
				walk(t.args[2], bAnd(c, bNot(a)))
				return
			}
			conds = append(conds, c)
			locs = append(locs, e.locOf(t, T))
		}
		walk(t, tTrue)
		return
	}
	return []*Term{tTrue}, []Loc{e.locOf(v, T)}
}

func (e *Eval) indexEvent(f *Frame, in ssa.Instruction, kind string, args ...*Term) {
	e.event(&Event{kind: kind, fn: f.fn, instr: in, args: args})
}

func (e *Eval) instr(f *Frame, st *State, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Alloc:
		T := x.Type().(*types.Pointer).Elem()
		o := e.newObj(x.Comment, T)
		o.site = x
		if e.open { // named by its type on both sides of a simulation
			o.tag = e.fresh("local:" + tname(T))
		}
		st.mem[o] = zeroOf(T)
		f.env[x] = &Ptr{Loc{o, nil}}
	case *ssa.UnOp:
		return e.unop(f, st, x)
	case *ssa.BinOp:
		a, b := e.operand(f, st, x.X), e.operand(f, st, x.Y)
		f.env[x] = e.binop(f, st, x, a, b)
	case *ssa.FieldAddr:
		cs, ls := e.iteLocs(e.operand(f, st, x.X), x.X.Type())
		if len(ls) == 1 {
			f.env[x] = &Ptr{ls[0].with(Step{field: x.Field})}
		} else {
			r := e.ptrTerm(ls[len(ls)-1].with(Step{field: x.Field}))
			for i := len(ls) - 2; i >= 0; i-- {
				r = mkIte(cs[i], e.ptrTerm(ls[i].with(Step{field: x.Field})), r)
			}
			f.env[x] = r
		}
	case *ssa.IndexAddr:
		idx := e.term(f, st, x.Index)
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			v := e.operand(f, st, x.X)
			s := e.asSlice(st, v, x.X.Type())
			e.indexEvent(f, x, "index", idx, s.n)
			f.env[x] = &Ptr{st.resolve(s.Loc).with(Step{idx: tAdd(s.lo, idx)})}
		case *types.Pointer:
			l := e.loc(f, st, x.X)
			n := under(u.Elem()).(*types.Array).Len()
			e.indexEvent(f, x, "index", idx, numInt(n))
			f.env[x] = &Ptr{l.with(Step{idx: idx})}
		default:
			panic(undecided("IndexAddr"))
		}
	case *ssa.Field:
		t := e.term(f, st, x.X)
		f.env[x] = e.thaw(getField(t, x.X.Type(), x.Field))
	case *ssa.Index:
		idx := e.term(f, st, x.Index)
		t := e.term(f, st, x.X)
		if isString(x.X.Type()) {
			e.indexEvent(f, x, "index", idx, mkLen(t))
			f.env[x] = mkByteAt(t, idx)
		} else {
			n := under(x.X.Type()).(*types.Array).Len()
			e.indexEvent(f, x, "index", idx, numInt(n))
			f.env[x] = e.thaw(selElem(t, x.X.Type(), idx))
		}
	case *ssa.Store:
		cs, ls := e.iteLocs(e.operand(f, st, x.Addr), x.Addr.Type())
		v := e.operand(f, st, x.Val)
		if len(ls) == 1 {
			e.storeVal(st, ls[0], v, f, x)
		} else {
			t := e.toTerm(st, v)
			for i, l := range ls {
				old := e.load(st, l)
				e.storeVal(st, l, mkIte(cs[i], t, old), f, x)
			}
		}
	case *ssa.Convert:
		f.env[x] = e.convert(e.operand(f, st, x.X), x.X.Type(), x.Type(), st)
	case *ssa.ChangeType:
		v := e.operand(f, st, x.X)
		if t, ok := v.(*Term); ok && t.sort == STup && tname(x.X.Type()) != tname(x.Type()) {
			v = retag(t, x.X.Type(), x.Type())
		}
		f.env[x] = v
	case *ssa.ChangeInterface:
		f.env[x] = e.operand(f, st, x.X)
	case *ssa.MakeInterface:
		f.env[x] = &IfaceV{x.X.Type(), e.operand(f, st, x.X)}
	case *ssa.MakeClosure:
		b := make([]Val, len(x.Bindings))
		for i, y := range x.Bindings {
			b[i] = e.operand(f, st, y)
		}
		f.env[x] = &FuncV{x.Fn.(*ssa.Function), b}
	case *ssa.MakeSlice:
		n := e.term(f, st, x.Len)
		e.indexEvent(f, x, "make", n)
		el := elemOf(x.Type())
		if e.lazy && selfRef(el) {
			// list nodes live in the heap, at unknown consecutive places
			f.env[x] = &SliceV{Loc{e.heapObj(el), nil}, mkVar(e.fresh("base:"+tname(el)), SNum, true), n}
			break
		}
		f.env[x] = e.freshSlice(st, "make", x.Type(), mkFill(n, zeroOf(el)))
	case *ssa.MakeMap:
		o := e.newObj("map", x.Type())
		st.mem[o] = tMap0
		f.env[x] = &MapV{Loc{o, nil}}
	case *ssa.MakeChan:
		f.env[x] = mkFn(e.fresh("fresh:chan"), SOther, false)
	case *ssa.Slice:
		e.sliceInstr(f, st, x)
	case *ssa.MapUpdate:
		m := e.mapOf(st, e.operand(f, st, x.Map), x.Map.Type())
		k, v := e.term(f, st, x.Key), e.term(f, st, x.Value)
		ev := &Event{kind: "mapupdate", fn: f.fn, instr: x, args: []*Term{k, v, e.load(st, m.Loc)}, vals: []Val{m}}
		e.event(ev)
		e.storeTerm(st, m.Loc, mkFn("mapset", SOther, false, e.load(st, m.Loc), k, v))
	case *ssa.Lookup:
		k := e.term(f, st, x.Index)
		if isString(x.X.Type()) {
			t := e.term(f, st, x.X)
			e.indexEvent(f, x, "index", k, mkLen(t))
			f.env[x] = mkByteAt(t, k)
			break
		}
		mt := under(x.X.Type()).(*types.Map)
		m := e.term(f, st, x.X)
		val := mkMapGet(m, k, mt.Elem())
		if x.CommaOk {
			f.env[x] = TupleV{e.thaw(val), mkMapHas(m, k)}
		} else {
			f.env[x] = e.thaw(val)
		}
	case *ssa.Range:
		o := e.newObj("iter", types.Typ[types.Int])
		st.mem[o] = tZero
		f.env[x] = &RangeV{isString(x.X.Type()), e.term(f, st, x.X), o}
	case *ssa.Next:
		r := e.operand(f, st, x.Iter).(*RangeV)
		c := st.get(r.iter)
		st.mem[r.iter] = tAdd(c, tOne)
		if x.IsString {
			if c == tZero && false {
				break
			}
			n := mkFnN("runelen", true, r.x)
			f.env[x] = TupleV{bLt(c, n), mkFnN("runeoff", true, r.x, c), mkFnN("rune", true, r.x, c)}
		} else {
			tt := x.Type().(*types.Tuple)
			n := mkFnN("len", true, mkFn("mapkeys", SSeq, false, r.x))
			ks, ki := sortOf(mapKeyT(x))
			k := mkFn("mapkey", ks, ki, r.x, c)
			_ = tt
			f.env[x] = TupleV{bLt(c, n), k, e.thaw(mkMapGet(r.x, k, mapElemT(x)))}
		}
	case *ssa.Extract:
		f.env[x] = e.operand(f, st, x.Tuple).(TupleV)[x.Index]
	case *ssa.TypeAssert:
		v := e.operand(f, st, x.X)
		if iv, ok := v.(*IfaceV); ok && types.Identical(iv.typ, x.AssertedType) {
			if x.CommaOk {
				f.env[x] = TupleV{iv.val, tTrue}
			} else {
				f.env[x] = iv.val
			}
			break
		}
		t := e.toTerm(st, v)
		s, n := sortOf(x.AssertedType)
		r := mkFn("assert:"+tname(x.AssertedType), s, n, t)
		if s == SBool {
			r = bHolds(r)
		}
		if x.CommaOk {
			f.env[x] = TupleV{r, bHolds(mkFn("is:"+tname(x.AssertedType), SBool, false, t))}
		} else {
			f.env[x] = r
		}
	case *ssa.Call:
		return e.callInstr(f, st, x, &x.Call, x)
	case *ssa.Defer:
		ev := &Event{kind: "defer", fn: f.fn, instr: x, name: calleeName(&x.Call)}
		for _, a := range x.Call.Args {
			ev.vals = append(ev.vals, e.operand(f, st, a))
			ev.args = append(ev.args, e.term(f, st, a))
		}
		e.event(ev)
	case *ssa.RunDefers:
	case *ssa.Go:
		e.event(&Event{kind: "go", fn: f.fn, instr: x, name: calleeName(&x.Call)})
	case *ssa.Send:
		e.event(&Event{kind: "send", fn: f.fn, instr: x})
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.Select:
		panic(undecided("instruction " + in.String()))
	default:
		panic(undecided(fmt.Sprintf("instruction %T", in)))
	}
	return true
}

func mapKeyT(x *ssa.Next) types.Type {
	return under(x.Iter.(*ssa.Range).X.Type()).(*types.Map).Key()
}
func mapElemT(x *ssa.Next) types.Type {
	return under(x.Iter.(*ssa.Range).X.Type()).(*types.Map).Elem()
}

func retag(t *Term, from, to types.Type) *Term {
	if t.op == OTup {
		return mkTup(tname(to), t.args...)
	}
	return mkTup(tname(to), tupOf(t, from)...)
}

func mkByteAt(t, idx *Term) *Term {
	if t.op == OStrC {
		if k, ok := isConstInt(idx); ok && k >= 0 && int(k) < len(t.name) {
			return numInt(int64(t.name[k]))
		}
	}
	if t.op == OFn && t.name == "strsub" {
		return mkByteAt(t.args[0], tAdd(t.args[1], idx))
	}
	return mkFnN("byteat", true, t, idx)
}

func (e *Eval) mapOf(st *State, v Val, T types.Type) *MapV {
	switch x := v.(type) {
	case *MapV:
		return x
	case *Term:
		o := e.extObj[x]
		if o == nil {
			o = e.newObj("map:"+clipN(x.String(), 40), T)
			o.init = x
			o.ext = true
			e.extObj[x] = o
		}
		return &MapV{Loc{o, nil}}
	}
	panic(undecided("map value"))
}

// mapElem: the value type of the map a lookup reads
var mapElem = map[*Term]types.Type{}

func mkMapGet(m, k *Term, T types.Type) *Term {
	switch {
	case m == tMap0 || m == tNil:
		return zeroOf(T)
	case m.op == OIte:
		return mkIteAtom(m.args[0], mkMapGet(m.args[1], k, T), mkMapGet(m.args[2], k, T))
	case m.op == OFn && m.name == "mapset":
		c := bEq(m.args[1], k)
		if c == tTrue {
			return m.args[2]
		}
		return mkIte(c, m.args[2], mkMapGet(m.args[0], k, T))
	case m.op == OFn && m.name == "mapdel":
		return mkIte(bEq(m.args[1], k), zeroOf(T), mkMapGet(m.args[0], k, T))
	}
	s, n := sortOf(T)
	r := mkFn("mapget", s, n, m, k)
	mapElem[r] = T
	if s == SBool {
		return bHolds(r)
	}
	return r
}
func mkMapHas(m, k *Term) *Term {
	switch {
	case m == tMap0 || m == tNil:
		return tFalse
	case m.op == OIte:
		return mkIteAtom(m.args[0], mkMapHas(m.args[1], k), mkMapHas(m.args[2], k))
	case m.op == OFn && m.name == "mapset":
		return bOr(bEq(m.args[1], k), mkMapHas(m.args[0], k))
	case m.op == OFn && m.name == "mapdel":
		return bAnd(bNot(bEq(m.args[1], k)), mkMapHas(m.args[0], k))
	}
	return bHolds(mkFn("maphas", SBool, false, m, k))
}

func (e *Eval) unop(f *Frame, st *State, x *ssa.UnOp) bool {
	switch x.Op {
	case token.MUL:
		cs, ls := e.iteLocs(e.operand(f, st, x.X), x.X.Type())
		if len(ls) == 1 {
			f.env[x] = e.loadVal(st, ls[0])
		} else {
			r := e.load(st, ls[len(ls)-1])
			for i := len(ls) - 2; i >= 0; i-- {
				r = mkIte(cs[i], e.load(st, ls[i]), r)
			}
			f.env[x] = e.thaw(r)
		}
		if t, ok := f.env[x].(*Term); ok && e.lazy {
			f.env[x] = e.onPath(t)
		}
	case token.NOT:
		f.env[x] = bNot(boolOf(e.term(f, st, x.X)))
	case token.SUB:
		f.env[x] = tNeg(e.term(f, st, x.X))
	case token.XOR:
		f.env[x] = tSub(tNeg(e.term(f, st, x.X)), tOne)
	case token.ARROW:
		s, n := sortOf(x.Type())
		f.env[x] = mkFn(e.fresh("recv"), s, n)
		e.event(&Event{kind: "recv", fn: f.fn, instr: x})
	default:
		panic(undecided("unop " + x.Op.String()))
	}
	return true
}

func eqTyped(T types.Type, a, b *Term) *Term {
	switch u := under(T).(type) {
	case *types.Struct:
		if a == b {
			return tTrue
		}
		r := tTrue
		for i := 0; i < u.NumFields(); i++ {
			r = bAnd(r, eqTyped(u.Field(i).Type(), getField(a, T, i), getField(b, T, i)))
		}
		return r
	case *types.Array:
		r := tTrue
		for i := 0; i < int(u.Len()); i++ {
			r = bAnd(r, eqTyped(u.Elem(), getField(a, T, i), getField(b, T, i)))
		}
		return r
	}
	return bEq(a, b)
}

func (e *Eval) hasAddr(t *Term) bool {
	if t.sort != SNum {
		return false
	}
	if _, ok := e.ptrs[t]; ok {
		return true
	}
	for _, p := range asPoly(t) {
		if len(p.m) == 1 && p.c.Sign() > 0 {
			if _, ok := e.addr[p.m[0].a]; ok {
				return true
			}
		}
	}
	return false
}

func (e *Eval) binop(f *Frame, st *State, x *ssa.BinOp, av, bv Val) Val {
	T := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch under(T).(type) {
		case *types.Slice:
			var s Val = av
			if c, ok := x.X.(*ssa.Const); ok && c.Value == nil {
				s = bv
			}
			r = bEq(mkLen(e.toTerm(st, s)), tZero)
		case *types.Pointer:
			a, b := e.toTerm(st, av), e.toTerm(st, bv)
			if a == tZero && hasBase(b) || b == tZero && hasBase(a) || (a == tZero && e.hasAddr(b)) || (b == tZero && e.hasAddr(a)) {
				r = tFalse
			} else {
				r = bEq(a, b)
			}
		default:
			r = eqTyped(T, e.toTerm(st, av), e.toTerm(st, bv))
		}
		if x.Op == token.NEQ {
			r = bNot(r)
		}
		return r
	}
	a, b := e.toTerm(st, av), e.toTerm(st, bv)
	if isString(T) {
		switch x.Op {
		case token.ADD:
			return mkSCat(a, b)
		case token.LSS:
			return bHolds(mkFn("strlt", SBool, false, a, b))
		case token.GTR:
			return bHolds(mkFn("strlt", SBool, false, b, a))
		case token.LEQ:
			return bNot(bHolds(mkFn("strlt", SBool, false, b, a)))
		case token.GEQ:
			return bNot(bHolds(mkFn("strlt", SBool, false, a, b)))
		}
	}
	if a.sort != SNum || b.sort != SNum {
		if a.sort == SBool {
			switch x.Op {
			case token.AND:
				return bAnd(boolOf(a), boolOf(b))
			case token.OR:
				return bOr(boolOf(a), boolOf(b))
			}
		}
		panic(undecided("operator on " + T.String()))
	}
	if e.poison != nil {
		// arguments are constants: dividing by zero spoils what is computed from it
		if c, ok := constOf(b); ok && c.Sign() == 0 && x.Op == token.QUO || occurs(a, e.poison) || occurs(b, e.poison) {
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return tFalse
			}
			return e.poison
		}
	}
	switch x.Op {
	case token.ADD:
		return numLift2(tAdd2, a, b)
	case token.SUB:
		return numLift2(tSub, a, b)
	case token.MUL:
		return numLift2(tMul2, a, b)
	case token.QUO:
		if isFloat(T) {
			return numLift2(tDiv, a, b)
		}
		return numLift2(mkIdiv, a, b)
	case token.REM:
		return numLift2(mkMod, a, b)
	case token.LSS:
		return bLt(a, b)
	case token.GTR:
		return bLt(b, a)
	case token.LEQ:
		return bLe(a, b)
	case token.GEQ:
		return bLe(b, a)
	case token.SHL:
		if k, ok := isConstInt(b); ok && k >= 0 && k < 62 {
			return tMul2(a, numInt(1<<uint(k)))
		}
	case token.SHR:
		if k, ok := isConstInt(b); ok && k >= 0 && k < 62 {
			return mkIdiv(a, numInt(1<<uint(k)))
		}
	case token.AND:
		if k, ok := isConstInt(b); ok && k >= 0 && (k&(k+1)) == 0 {
			return mkMod(a, numInt(k+1))
		}
	}
	return mkFnN("op:"+x.Op.String(), true, a, b)
}

func tAdd2(a, b *Term) *Term { return tAdd(a, b) }

// numLift2 distributes arithmetic over top-level decisions so that gated
// values stay decision diagrams with polynomial leaves.
func numLift2(op func(a, b *Term) *Term, a, b *Term) *Term {
	if a.op != OIte && b.op != OIte {
		return op(a, b)
	}
	if size(a) > 64 || size(b) > 64 {
		return op(a, b)
	}
	at := topAtom(a, b)
	return mkIteAtom(at, numLift2(op, cof(a, at, true), cof(b, at, true)), numLift2(op, cof(a, at, false), cof(b, at, false)))
}
func size(t *Term) int {
	if t.op != OIte {
		return 1
	}
	n := 0
	seen := map[*Term]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		n++
		if x.op == OIte && n < 200 {
			w(x.args[1])
			w(x.args[2])
		}
	}
	w(t)
	return n
}

func (e *Eval) convert(v Val, from, to types.Type, st *State) Val {
	switch {
	case isInteger(from) && isFloat(to):
		return f32If(v.(*Term), to)
	case isFloat(from) && isFloat(to):
		return f32If(v.(*Term), to)
	case isInteger(from) && isInteger(to):
		if n, uns := intBits(to); n < 32 && uns {
			if m, _ := intBits(from); m > n {
				if t, ok := v.(*Term); ok {
					if k, c := isConstInt(t); !c || k < 0 || k >= 1<<n {
						return mkMod(t, numInt(1<<n))
					}
				}
			}
		}
		return v
	case isFloat(from) && isInteger(to):
		t := v.(*Term)
		return mkTrunc(t)
	case isString(to):
		t := e.toTerm(st, v)
		if isString(from) {
			return t
		}
		if isInteger(from) {
			return mkRunes2Str(mkUnit(t))
		}
		if s, ok := under(from).(*types.Slice); ok {
			if b, ok := under(s.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				if t.op == OFn && t.name == "bytes" {
					return t.args[0]
				}
				return mkFn("bytes2str", SStr, false, t)
			}
			return mkRunes2Str(t)
		}
	case isString(from):
		t := e.toTerm(st, v)
		s := under(to).(*types.Slice)
		if b, ok := under(s.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			return e.freshSlice(st, "bytes", to, mkFn("bytes", SSeq, false, t))
		}
		return e.freshSlice(st, "runes", to, mkFn("runes", SSeq, false, t))
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	panic(undecided("conversion " + from.String() + " to " + to.String()))
}

// intBits: the width of an integer type, and whether it is unsigned
func intBits(t types.Type) (int, bool) {
	switch under(t).(*types.Basic).Kind() {
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func f32If(t *Term, to types.Type) Val {
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.Float32 {
		return mkF32(t)
	}
	return t
}
func mkTrunc(t *Term) *Term {
	if t.op == OIte {
		return mkIteAtom(t.args[0], mkTrunc(t.args[1]), mkTrunc(t.args[2]))
	}
	if t.isInt {
		return t
	}
	return mkFnN("trunc", true, t)
}

func (e *Eval) sliceInstr(f *Frame, st *State, x *ssa.Slice) {
	var lo, hi *Term
	lo = tZero
	if x.Low != nil {
		lo = e.term(f, st, x.Low)
	}
	if isString(x.X.Type()) {
		s := e.term(f, st, x.X)
		hi = mkLen(s)
		if x.High != nil {
			hi = e.term(f, st, x.High)
		}
		e.indexEvent(f, x, "slice", lo, hi, mkLen(s))
		f.env[x] = mkStrSub(s, lo, hi)
		return
	}
	var s *SliceV
	var capn *Term
	if _, ok := under(x.X.Type()).(*types.Pointer); ok {
		l := e.loc(f, st, x.X)
		n := under(l.typ()).(*types.Array).Len()
		// view of an array: kept by converting the array to a sequence object
		t := e.load(st, l)
		if n <= 32 {
			parts := make([]*Term, n)
			for i := range parts {
				parts[i] = mkUnit(getField(t, l.typ(), i))
			}
			sv := e.freshSlice(st, "array", types.NewSlice(elemOf(l.typ())), mkCat(parts...))
			s = sv
		} else {
			s = &SliceV{l, tZero, numInt(n)}
		}
	} else {
		s = e.asSlice(st, e.operand(f, st, x.X), x.X.Type())
	}
	capn = s.n
	hi = s.n
	if x.High != nil {
		hi = e.term(f, st, x.High)
	}
	e.indexEvent(f, x, "slice", lo, hi, capn)
	f.env[x] = &SliceV{s.Loc, tAdd(s.lo, lo), tSub(hi, lo)}
}
