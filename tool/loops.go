package main

// Loop summaries. A natural loop is evaluated once over symbols for
// everything it changes; the symbols are then replaced by closed forms
// (arithmetic progressions, sums, comprehensions, folds) where possible.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	m := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &natLoop{h, map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			var work []*ssa.BasicBlock
			if !l.body[b] {
				l.body[b] = true
				work = append(work, b)
			}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				for _, p := range x.Preds {
					if !l.body[p] {
						l.body[p] = true
						work = append(work, p)
					}
				}
			}
		}
	}
	return m
}

// rpo: reverse postorder in which the body of a loop precedes what follows it.
func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	loops := naturalLoops(fn)
	depth := func(b *ssa.BasicBlock) int {
		n := 0
		for _, l := range loops {
			if l.body[b] {
				n++
			}
		}
		return n
	}
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit loop exits first so that they come later
		ss := append([]*ssa.BasicBlock{}, b.Succs...)
		for i := 0; i < len(ss); i++ {
			for j := i + 1; j < len(ss); j++ {
				if depth(ss[j]) < depth(ss[i]) {
					ss[i], ss[j] = ss[j], ss[i]
				}
			}
		}
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type LoopVar struct {
	name   string
	typ    types.Type
	phi    *ssa.Phi
	loc    *Loc
	init   *Term
	sym    *Term // header symbol
	step   *Term // value at the next header, over header symbols
	closed *Term // closed form over K, nil if none
	isBool bool
}

type ExitInfo struct {
	cond *Term // over header symbols / K
	ret  bool
	vals []*Term
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
}

type LoopInfo struct {
	id     int
	fn     *ssa.Function
	header *ssa.BasicBlock
	parent *LoopInfo
	vars   []*LoopVar
	K      *Term
	trip   *Term     // number of completed iterations when the only exit is the header's
	maxT   *Term     // bound from a header exit when there are several exits
	X      *Term     // iteration at which the loop is left
	cont   *Term     // condition of reaching the next iteration
	raw    []LoopVar // steps over the header symbols, nothing closed
	exits  []ExitInfo
	conds  []*Term
	depth  int
	final  *State
	pinf   token.Pos
}

func (l *LoopInfo) pos() string   { return relPos(l.fn.Prog, l.pinf) }
func (l *LoopInfo) where() string { return l.pos() + " in " + l.fn.String() }

func loopPos(l *natLoop) token.Pos {
	best := token.NoPos
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (!best.IsValid() || p < best) {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				best = p
			}
		}
	}
	return best
}

// leaves of an object: scalar/sequence components that change independently
func leaves(o *Object) []Loc {
	var out []Loc
	var walk func(l Loc, T types.Type)
	walk = func(l Loc, T types.Type) {
		switch u := under(T).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(l.with(Step{field: i}), u.Field(i).Type())
			}
			return
		case *types.Array:
			if u.Len() <= 32 {
				for i := 0; i < int(u.Len()); i++ {
					walk(l.with(Step{idx: numInt(int64(i))}), u.Elem())
				}
				return
			}
		}
		out = append(out, l)
	}
	walk(Loc{o, nil}, o.typ)
	return out
}

type loopPass struct {
	vars   []*LoopVar
	res    regionResult
	events []*Event
	loops  []*LoopInfo
	cont   *Term
}

func locKey(l Loc) string {
	s := itoa(l.obj.id)
	for _, p := range l.path {
		if p.idx != nil {
			s += "[" + itoa(p.idx.id) + "]"
		} else {
			s += "." + itoa(p.field)
		}
	}
	return s
}

func (e *Eval) loop(f *Frame, lp *natLoop, eds []edgeIn, entryCond *Term) regionResult {
	conds := make([]*Term, len(eds))
	sts := make([]*State, len(eds))
	for i, ed := range eds {
		conds[i] = ed.cond
		sts[i] = ed.st
	}
	st0 := e.mergeStates(conds, sts, entryCond)
	if len(eds) == 1 {
		st0 = sts[0].clone()
	}
	var phis []*ssa.Phi
	var inits []Val
	for _, in := range lp.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]Val, len(eds))
		for i, ed := range eds {
			vs[i] = e.operand(f, ed.st, phiArg(ph, ed.from))
		}
		phis = append(phis, ph)
		inits = append(inits, e.mergeVals(conds, vs, sts, st0, entryCond, ph.Type()))
	}
	e.seq++
	id := e.seq
	info := &LoopInfo{id: id, fn: f.fn, header: lp.header, K: mkVar(fmt.Sprintf("K%d", id), SNum, true), pinf: loopPos(lp)}
	if n := len(e.curLoops); n > 0 {
		info.parent = e.curLoops[n-1]
	}
	info.conds = append([]*Term{}, e.conds...)
	info.depth = len(e.curLoops)
	e.curLoops = append(e.curLoops, info)
	defer func() { e.curLoops = e.curLoops[:len(e.curLoops)-1] }()

	changed := map[string]Loc{}
	var order []string
	known := map[*Term]*Term{}   // sym -> closed form used while evaluating the body
	hints := map[string]string{} // objects of the same name keep apart
	symFor := func(key string, T types.Type, hint string) *Term {
		for h, n := hint, 2; key != ""; n++ {
			if k, taken := hints[h]; !taken || k == key {
				hints[h] = key
				hint = h
				break
			}
			h = hint + "'" + itoa(n)
		}
		return symOf(fmt.Sprintf("λ%d:%s", id, hint), T)
	}
	objSym := map[string]*Object{}
	invPhi := map[*ssa.Phi]bool{}
	for _, ph := range phis {
		invPhi[ph] = true // optimistic: assumed invariant until seen to change
	}

	count0 := map[string]int{}
	for k, n := range e.count {
		count0[k] = n
	}
	pass := func() (loopPass, bool) {
		st := st0.clone()
		var lv []*LoopVar
		for i, ph := range phis {
			if invPhi[ph] {
				f.env[ph] = inits[i]
				lv = append(lv, &LoopVar{name: ph.Comment, typ: ph.Type(), phi: ph})
				continue
			}
			sym := symFor("", ph.Type(), nameOf(ph))
			v := &LoopVar{name: ph.Comment, typ: ph.Type(), phi: ph, init: e.toTerm(st0, inits[i]), sym: sym}
			cur := sym
			if k, ok := known[sym]; ok {
				cur = k
			}
			switch under(ph.Type()).(type) {
			case *types.Slice:
				key := "phi" + ph.Name()
				o := objSym[key]
				if o == nil {
					o = e.newObj(nameOf(ph), ph.Type())
					objSym[key] = o
				}
				st.mem[o] = cur
				f.env[ph] = &SliceV{Loc{o, nil}, tZero, mkLen(cur)}
			case *types.Map:
				key := "phi" + ph.Name()
				o := objSym[key]
				if o == nil {
					o = e.newObj(nameOf(ph), ph.Type())
					objSym[key] = o
				}
				st.mem[o] = cur
				f.env[ph] = &MapV{Loc{o, nil}}
			default:
				f.env[ph] = cur
			}
			lv = append(lv, v)
		}
		for _, k := range order {
			l := changed[k]
			T := l.typ()
			sym := symFor(k, T, l.String())
			v := &LoopVar{name: l.String(), typ: T, loc: &Loc{l.obj, l.path}, init: e.load(st0, l), sym: sym}
			cur := sym
			if kf, ok := known[sym]; ok {
				cur = kf
			}
			e.storeTerm(st, l, cur)
			lv = append(lv, v)
		}
		saveEv, saveLp := e.events, e.loopsRec
		e.events, e.loopsRec = nil, nil
		if e.open { // every pass numbers the calls alike
			e.count = map[string]int{}
			for k, n := range count0 {
				e.count[k] = n
			}
		}
		res := e.region(f, lp, lp.header, st)
		p := loopPass{vars: lv, res: res, events: e.events, loops: e.loopsRec}
		e.events, e.loopsRec = saveEv, saveLp
		// continue condition and merged latch state
		again := false
		cont := tFalse
		var bc []*Term
		var bs []*State
		for _, b := range res.back {
			cont = bOr(cont, b.cond)
			bc = append(bc, b.cond)
			bs = append(bs, b.st)
		}
		p.cont = cont
		if len(bc) > 0 {
			latch := e.mergeStates(bc, bs, cont)
			for i := range phis {
				v := lv[i]
				vs := make([]Val, len(res.back))
				for j, b := range res.back {
					vs[j] = e.operand(f, b.st, phiArg(phis[i], b.from))
				}
				nv := e.mergeVals(bc, vs, bs, latch, cont, phis[i].Type())
				if invPhi[phis[i]] {
					if !sameVal(nv, inits[i]) {
						invPhi[phis[i]] = false
						again = true
					}
					continue
				}
				v.step = care(e.toTerm(latch, nv), cont)
			}
			for i := len(phis); i < len(lv); i++ {
				lv[i].step = care(e.load(latch, *lv[i].loc), cont)
			}
			// newly changed memory
			for _, o := range sortedObjs(latch.mem) {
				base, ok := st0.mem[o]
				if !ok {
					base = o.init
				}
				if base == nil || base == latch.mem[o] {
					continue
				}
				for _, l := range leaves(o) {
					if _, ok := changed[locKey(l)]; ok {
						continue
					}
					if e.load(st, l) != e.load(latch, l) {
						changed[locKey(l)] = l
						order = append(order, locKey(l))
						again = true
					}
				}
			}
		}
		return p, again
	}

	e.rec++
	var p loopPass
	for i := 0; ; i++ {
		var again bool
		p, again = pass()
		if !again {
			break
		}
		if i > 60 {
			panic(undecided("loop does not stabilise"))
		}
	}
	// arithmetic progressions
	for _, v := range p.vars {
		if v.step == nil || v.sym == nil || v.sym.sort != SNum {
			continue
		}
		if isPointer(v.typ) {
			continue
		}
		d := tSub(v.step, v.sym)
		if c, ok := constOf(d); ok && c.Sign() != 0 && !v.init.free {
			known[v.sym] = tAdd(v.init, tScale(info.K, c))
		}
	}
	e.rec--
	p, _ = pass() // recorded pass (also when nothing is known)
	// pass() created events relative to current recording level

	syms := map[*Term]bool{}
	for _, v := range p.vars {
		if v.sym != nil {
			syms[baseSym(v.sym)] = true
		}
	}
	for _, v := range p.vars {
		if v.sym != nil && v.step != nil {
			if _, ok := known[v.sym]; !ok {
				info.raw = append(info.raw, *v)
			}
		}
	}
	var closed map[*Term]*Term
	if !e.open {
		closed = e.solve(info, p.vars, syms, known)
	}
	info.vars = nil
	for _, v := range p.vars {
		if v.sym != nil && v.step != nil {
			info.vars = append(info.vars, v)
		}
	}
	info.cont = p.cont

	// substitution applied to everything seen inside the loop
	inner := map[*Term]*Term{}
	folds := map[*Term]*Term{}
	for _, v := range info.vars {
		if c, ok := closed[v.sym]; ok {
			v.closed = c
			if c.op == OFold {
				folds[v.sym] = c
			} else if v.sym.op != OIte {
				inner[v.sym] = c
			} else {
				inner[baseSym(v.sym)] = c
			}
		}
	}
	rw := memoSubst(inner)
	for _, ev := range p.events {
		mapEvent(ev, rw)
	}
	for _, l := range p.loops {
		mapLoop(l, rw)
	}
	for _, v := range info.vars {
		v.step = rw(v.step)
	}
	info.cont = rw(info.cont)
	if e.rec == 0 {
		e.events = append(e.events, p.events...)
		e.loopsRec = append(e.loopsRec, info)
		e.loopsRec = append(e.loopsRec, p.loops...)
	}

	// trip count
	var out []edgeIn
	for _, ed := range p.res.out {
		ed.cond = rw(ed.cond)
		out = append(out, ed)
	}
	rets := p.res.rets
	for i := range rets {
		rets[i].cond = rw(rets[i].cond)
	}
	single := len(out) == 1 && len(rets) == 0
	var headerT *Term
	for _, ed := range out {
		if ed.from == lp.header {
			headerT = tripCount(bNot(ed.cond), info.K)
		}
	}
	if single && headerT == nil {
		headerT = tripCount(bNot(out[0].cond), info.K)
		if headerT != nil && out[0].from != lp.header {
			// exits in the middle of the body: the count still holds for the header symbols
		}
	}
	hasPanic := false
	for _, ev := range p.events {
		if ev.kind == "panic" {
			hasPanic = true
		}
	}
	_ = hasPanic
	if single && headerT != nil {
		info.trip = headerT
		info.X = headerT
	} else {
		info.maxT = headerT
		info.X = mkVar(fmt.Sprintf("X%d", id), SNum, true)
		if x := canonExit(info, syms); x != nil && !e.open {
			info.X = x
		}
		xVars[info.X] = info
	}
	exit := map[*Term]*Term{info.K: info.X}
	if e.open {
		// everything stays in terms of the header symbols of the last iteration
		exit = map[*Term]*Term{}
		info.X = info.K
	}
	for _, v := range info.vars {
		b := v.sym
		if b.op == OIte {
			b = baseSym(b)
		}
		if v.closed != nil {
			exit[b] = subst(v.closed, map[*Term]*Term{info.K: info.X})
		}
	}
	for _, ed := range out {
		info.exits = append(info.exits, ExitInfo{cond: ed.cond, to: ed.to, from: ed.from})
	}
	for _, r := range rets {
		x := ExitInfo{cond: r.cond, ret: true}
		for _, v := range r.vals {
			x.vals = append(x.vals, rw(e.toTerm(r.st, v)))
		}
		info.exits = append(info.exits, x)
	}
	first := memoSubst(inner)
	second := memoSubst(exit)
	ex := func(t *Term) *Term { return second(first(t)) }
	// values defined inside the loop, seen from outside
	for _, b := range sortedBlocks(lp.body) {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if w, ok := f.env[v]; ok && w != nil {
					f.env[v] = substVal(w, ex)
				}
			}
		}
	}
	doneSt := map[*State]bool{}
	fixSt := func(s *State) {
		if doneSt[s] {
			return
		}
		doneSt[s] = true
		for _, o := range sortedObjs(s.mem) {
			s.mem[o] = ex(s.mem[o])
		}
	}
	r := regionResult{}
	for _, ed := range out {
		fixSt(ed.st)
		if single {
			ed.cond = tTrue
		} else {
			ed.cond = ex(ed.cond)
		}
		r.out = append(r.out, ed)
	}
	for _, rt := range rets {
		fixSt(rt.st)
		rt.cond = ex(rt.cond)
		for i := range rt.vals {
			rt.vals[i] = substVal(rt.vals[i], ex)
		}
		r.rets = append(r.rets, rt)
	}
	return r
}

var xVars = map[*Term]*LoopInfo{}

var tOmega = mkVar("ω", SNum, true)

// canonExit: the first iteration at which the loop is left, as a closed term
// first([cont(κ) ? 0 : 1 | κ]) when everything the condition depends on has a
// closed form or is a recurrence.
func canonExit(info *LoopInfo, syms map[*Term]bool) *Term {
	m := map[*Term]*Term{}
	for _, v := range info.vars {
		if v.closed != nil {
			m[baseSym(v.sym)] = v.closed
		}
	}
	c := subst(info.cont, m)
	if hasLambda(c, nil) || bigTerm(c, 3000) {
		return nil
	}
	freshCount++
	bv := mkVar("β"+itoa(freshCount), SNum, true)
	c = subst(c, map[*Term]*Term{info.K: bv})
	if !occurs(c, bv) {
		return nil
	}
	return mkFnN("first", true, mkComp(bv, tOmega, mkUnit(mkIte(c, tZero, tOne))))
}

func isPointer(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }

func nameOf(v ssa.Value) string {
	if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
		return ph.Comment + "." + ph.Name()
	}
	return v.Name()
}

// baseSym: boolean symbols are decisions over an opaque atom
func baseSym(t *Term) *Term {
	if t.op == OIte && t.args[0].op == OHolds {
		return t.args[0].args[0]
	}
	return t
}

func memoSubst(m map[*Term]*Term) func(*Term) *Term {
	if len(m) == 0 {
		return func(t *Term) *Term { return t }
	}
	r := &rewriter{m: m, memo: map[*Term]*Term{}}
	return func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return r.rw(t)
	}
}

func mapEvent(ev *Event, rw func(*Term) *Term) {
	for i := range ev.conds {
		ev.conds[i] = rw(ev.conds[i])
	}
	for i := range ev.args {
		ev.args[i] = rw(ev.args[i])
	}
	for i := range ev.vals {
		ev.vals[i] = substVal(ev.vals[i], rw)
	}
	if ev.res != nil {
		ev.res = rw(ev.res)
	}
	if ev.st != nil {
		s := ev.st.clone()
		for _, o := range sortedObjs(s.mem) {
			s.mem[o] = rw(s.mem[o])
		}
		ev.st = s
	}
}
func mapLoop(l *LoopInfo, rw func(*Term) *Term) {
	for _, v := range l.vars {
		v.init, v.step = rw(v.init), rw(v.step)
		if v.closed != nil {
			v.closed = rw(v.closed)
		}
	}
	if l.trip != nil {
		l.trip = rw(l.trip)
	}
	if l.maxT != nil {
		l.maxT = rw(l.maxT)
	}
	if l.X != nil && l.X.op != OVar {
		l.X = rw(l.X)
	}
	l.cont = rw(l.cont)
	for i := range l.exits {
		l.exits[i].cond = rw(l.exits[i].cond)
		for j := range l.exits[i].vals {
			l.exits[i].vals[j] = rw(l.exits[i].vals[j])
		}
	}
	for i := range l.conds {
		l.conds[i] = rw(l.conds[i])
	}
}

func mkPos(t *Term) *Term { // max(0,t) for integers
	if c, ok := constOf(t); ok {
		if c.Sign() < 0 {
			return tZero
		}
		return t
	}
	if provablyNonNeg(t) {
		return t
	}
	if t.op == OIte {
		return mkIteAtom(t.args[0], mkPos(t.args[1]), mkPos(t.args[2]))
	}
	return mkFnN("pos", true, t)
}

// tripCount: number of iterations K=0,1,... for which the condition holds
// before it first fails, for conditions monotone in K.
func tripCount(cont, K *Term) *Term {
	if cont.op != OIte || !(cont.args[1] == tTrue && cont.args[2] == tFalse || cont.args[1] == tFalse && cont.args[2] == tTrue) {
		return nil
	}
	at := cont.args[0]
	neg := cont.args[1] == tFalse
	lin := func(p *Term) (a *big.Rat, rest *Term) {
		acc := newAcc()
		a = new(big.Rat)
		for _, q := range asPoly(p) {
			dep := false
			for _, f := range q.m {
				if occurs(f.a, K) {
					dep = true
				}
			}
			if !dep {
				acc.add(q.m, q.c)
				continue
			}
			if len(q.m) != 1 || q.m[0].a != K || q.m[0].e != 1 {
				return nil, nil
			}
			a = q.c
		}
		return a, acc.term()
	}
	switch at.op {
	case OLt0:
		p := at.args[0]
		if !p.isInt {
			return nil
		}
		if neg { // continue iff p >= 0  <=>  -p-1 < 0
			p = tSub(tNeg(p), tOne)
		}
		a, r := lin(p)
		if a == nil || a.Sign() <= 0 || !a.IsInt() {
			return nil
		}
		// aK + r < 0  <=> K < ceil(-r/a)
		k := a.Num().Int64()
		if k == 1 {
			return mkPos(tNeg(r))
		}
		return mkPos(mkIdiv(tAdd(tNeg(r), numInt(k-1)), numInt(k)))
	case OEq0:
		if !neg {
			return nil
		}
		a, r := lin(at.args[0])
		if a == nil || a.Sign() == 0 {
			return nil
		}
		t := tScale(r, new(big.Rat).Neg(new(big.Rat).Inv(a)))
		if !t.isInt {
			return nil
		}
		return mkPos(t)
	}
	return nil
}

// ---------- closed forms ----------

func containsAny(t *Term, set map[*Term]bool) bool {
	return anyTerm(t, func(x *Term) bool { return set[x] })
}
func hasLambda(t *Term, own map[*Term]bool) bool {
	return anyTerm(t, func(x *Term) bool {
		if own[x] {
			return false
		}
		return x.op == OVar && (strings.HasPrefix(x.name, "λ") || strings.HasPrefix(x.name, "X")) && !outerSym(x)
	})
}

// outerSym: symbols of enclosing loops are constants for an inner loop; they
// are recognised by not being created during the current loop. The evaluator
// tags them while solving.
var outerSyms map[*Term]bool

func outerSym(x *Term) bool { return outerSyms[x] }

func (e *Eval) solve(info *LoopInfo, vars []*LoopVar, syms map[*Term]bool, known map[*Term]*Term) map[*Term]*Term {
	closed := map[*Term]*Term{}
	for k, v := range known {
		closed[k] = v
	}
	// symbols occurring in initial values are outer
	outerSyms = map[*Term]bool{}
	for _, v := range vars {
		if v.init != nil {
			anyTerm(v.init, func(x *Term) bool {
				if x.op == OVar {
					outerSyms[x] = true
				}
				return false
			})
		}
	}
	for l := info.parent; l != nil; l = l.parent {
		pfx := fmt.Sprintf("λ%d:", l.id)
		for _, t := range termList {
			if t.op == OVar && strings.HasPrefix(t.name, pfx) {
				outerSyms[t] = true
			}
		}
	}
	K := info.K
	unsolved := map[*Term]bool{}
	for s := range syms {
		unsolved[s] = true
	}
	sub := map[*Term]*Term{}
	for k, c := range closed {
		delete(unsolved, baseSym(k))
		sub[baseSym(k)] = c
	}
	progress := true
	for progress {
		progress = false
		for _, v := range vars {
			if v.sym == nil || v.step == nil || closed[v.sym] != nil {
				continue
			}
			b := baseSym(v.sym)
			s := subst(v.step, sub)
			c := e.closeOne(v, b, s, K, unsolved)
			if c == nil {
				continue
			}
			closed[v.sym] = c
			delete(unsolved, b)
			sub[b] = c
			progress = true
		}
	}
	// folds over what is left
	left := map[*Term]*LoopVar{}
	for _, v := range vars {
		if v.sym != nil && v.step != nil && closed[v.sym] == nil {
			left[baseSym(v.sym)] = v
		}
	}
	for _, b := range sortedTerms(left) {
		v := left[b]
		// dependency group in order of first use
		group := []*Term{b}
		in := map[*Term]bool{b: true}
		ok := true
		for i := 0; i < len(group) && ok; i++ {
			g := left[group[i]]
			if g == nil {
				ok = false
				break
			}
			s := subst(g.step, sub)
			own := map[*Term]bool{}
			for x := range left {
				own[x] = true
			}
			if hasLambda(s, own) || bigTerm(s, 4000) {
				ok = false
				break
			}
			for _, d := range varsIn(s, left) {
				if !in[d] {
					in[d] = true
					group = append(group, d)
				}
			}
		}
		if !ok || len(group) > 6 {
			continue
		}
		var vs, is, ss []*Term
		for _, g := range group {
			vs = append(vs, g)
			is = append(is, left[g].init)
			ss = append(ss, subst(left[g].step, sub))
		}
		c := mkFold(0, K, K, vs, is, ss)
		if v.sym.sort == SBool {
			c = bHolds(c)
		}
		closed[v.sym] = c
	}
	return closed
}

func bigTerm(t *Term, n int) bool {
	seen := map[*Term]bool{}
	anyTerm(t, func(x *Term) bool { seen[x] = true; return len(seen) > n })
	return len(seen) > n
}

func varsIn(t *Term, left map[*Term]*LoopVar) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	anyTerm(t, func(x *Term) bool {
		if left[x] != nil && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
		return false
	})
	return out
}

// mkFold: value of component 0 after n iterations of the simultaneous
// recurrence; bound variables are canonical.
func mkFold(idx int, bound, n *Term, vars, inits, steps []*Term) *Term {
	if n == tZero {
		return inits[idx]
	}
	if k, ok := smallCount(n, steps...); ok {
		cur := append([]*Term{}, inits...)
		for i := int64(0); i < k; i++ {
			m := map[*Term]*Term{bound: numInt(i)}
			for j, v := range vars {
				m[v] = cur[j]
			}
			nx := make([]*Term, len(cur))
			for j := range nx {
				nx[j] = subst(steps[j], m)
			}
			cur = nx
		}
		return cur[idx]
	}
	d := 0
	for _, s := range append(append([]*Term{}, steps...), inits...) {
		if x := boundDepth(s, bound); x > d {
			d = x
		}
	}
	d++
	kv := mkVar("κ"+itoa(d), SNum, true)
	m := map[*Term]*Term{bound: kv}
	nv := make([]*Term, len(vars))
	for i, v := range vars {
		nv[i] = mkVar(fmt.Sprintf("φ%d_%d", d, i), v.sort, v.isInt)
		m[v] = nv[i]
	}
	args := []*Term{kv, n}
	args = append(args, nv...)
	args = append(args, inits...)
	for _, s := range steps {
		args = append(args, subst(s, m))
	}
	return intern(&Term{op: OFold, sort: vars[idx].sort, isInt: vars[idx].isInt, name: itoa(idx), args: args})
}

type foldView struct {
	k, n               *Term
	vars, inits, steps []*Term
}

func foldOf(t *Term) *foldView {
	if t.op == OIte && t.args[0].op == OHolds && t.args[0].args[0].op == OFold {
		t = t.args[0].args[0]
	}
	if t.op != OFold {
		return nil
	}
	m := (len(t.args) - 2) / 3
	return &foldView{t.args[0], t.args[1], t.args[2 : 2+m], t.args[2+m : 2+2*m], t.args[2+2*m:]}
}

// closeOne tries to express the loop variable as a function of K.
func (e *Eval) closeOne(v *LoopVar, b, s, K *Term, unsolved map[*Term]bool) *Term {
	others := map[*Term]bool{}
	for x := range unsolved {
		if x != b {
			others[x] = true
		}
	}
	if v.init != nil && !v.init.free && subst(s, map[*Term]*Term{b: v.init}) == v.init {
		return v.init // the initial value is kept by every iteration
	}
	if containsAny(s, others) {
		return nil
	}
	if hasLambda(s, map[*Term]bool{b: true}) {
		return nil
	}
	if !occurs(s, b) {
		if s == v.init {
			return s
		}
		// value of the previous iteration
		prev := subst(s, map[*Term]*Term{K: tSub(K, tOne)})
		if prev == v.init {
			return prev
		}
		return mkIte(bEq0(K), v.init, prev)
	}
	switch v.sym.sort {
	case SNum:
		if isPointer(v.typ) {
			return nil
		}
		d := tSub(s, b)
		if !occurs(d, b) {
			freshCount++
			bv := mkVar("β"+itoa(freshCount), SNum, true)
			return tAdd(v.init, mkSum(bv, K, subst(d, map[*Term]*Term{K: bv})))
		}
		// conditional increments: ite(c, b+d1, b+d2)
		if g := appendPart(s, func(leaf *Term) *Term {
			d := tSub(leaf, b)
			if occurs(d, b) {
				return nil
			}
			return d
		}); g != nil && !occurs(g, b) {
			freshCount++
			bv := mkVar("β"+itoa(freshCount), SNum, true)
			return tAdd(v.init, mkSum(bv, K, subst(g, map[*Term]*Term{K: bv})))
		}
	case SSeq:
		g := appendPart(s, func(leaf *Term) *Term {
			if leaf == b {
				return tEmpty
			}
			if leaf.op == OCat && len(leaf.args) > 0 && leaf.args[0] == b {
				return mkCat(leaf.args[1:]...)
			}
			return nil
		})
		if g != nil {
			lb := mkLen(b)
			if occurs(g, b) {
				// lengths of the sequence so far
				lg := mkLen(g)
				if !occurs(lg, b) && !occurs(lg, K) {
					g = subst(g, map[*Term]*Term{lb: tAdd(mkLen(v.init), tMul2(K, lg))})
				}
			}
			if !occurs(g, b) {
				freshCount++
				bv := mkVar("β"+itoa(freshCount), SNum, true)
				return mkCat(v.init, mkComp(bv, K, subst(g, map[*Term]*Term{K: bv})))
			}
			return nil
		}
		if r := closeCuts(v.init, b, s, K); r != nil {
			return r
		}
		return closeStores(v.init, b, s, K)
	case SStr:
		g := appendPart(s, func(leaf *Term) *Term {
			if leaf == b {
				return mkStr("")
			}
			if leaf.op == OSCat && leaf.args[0] == b {
				return mkSCat(leaf.args[1:]...)
			}
			return nil
		})
		if g != nil && !occurs(g, b) {
			freshCount++
			bv := mkVar("β"+itoa(freshCount), SNum, true)
			return mkSCat(v.init, mkConcat(mkComp(bv, K, strUnits(subst(g, map[*Term]*Term{K: bv})))))
		}
	}
	return nil
}

// strUnits: list of pieces whose concatenation is the string
func strUnits(g *Term) *Term {
	if g.op == OIte {
		return mkIteAtom(g.args[0], strUnits(g.args[1]), strUnits(g.args[2]))
	}
	if g.op == OStrC && g.name == "" {
		return tEmpty
	}
	if g.op == OSCat {
		var u []*Term
		for _, a := range g.args {
			u = append(u, strUnits(a))
		}
		return mkCat(u...)
	}
	return mkUnit(g)
}

func appendPart(s *Term, leaf func(*Term) *Term) *Term {
	if s.op == OIte {
		a := appendPart(s.args[1], leaf)
		if a == nil {
			return nil
		}
		b := appendPart(s.args[2], leaf)
		if b == nil {
			return nil
		}
		return mkIteAtom(s.args[0], a, b)
	}
	return leaf(s)
}

// closeCuts: every iteration drops as many elements at the front and at the end
func closeCuts(init, b, s, K *Term) *Term {
	if s.op != OSub || s.args[0] != b {
		return nil
	}
	lo, hi, n := s.args[1], s.args[2], mkLen(init)
	front, ok := isConstInt(lo)
	if !ok || front < 0 {
		return nil
	}
	back, ok := isConstInt(tSub(mkLen(b), hi))
	if !ok && front == 0 && !occurs(hi, b) {
		// cut to a length that shrinks in step
		prev := subst(hi, map[*Term]*Term{K: tSub(K, tOne)})
		if back, ok = isConstInt(tSub(prev, hi)); !ok || prev != tSub(n, tMul(numInt(back), K)) {
			return nil
		}
	}
	if !ok || back < 0 {
		return nil
	}
	return mkSub(init, tMul(numInt(front), K), tSub(n, tMul(numInt(back), K)))
}

// closeStores: one store per iteration at an index moving with K.
func closeStores(init, b, s, K *Term) *Term {
	type upd struct{ i, v *Term }
	var us []upd
	for s.op == OStore {
		us = append([]upd{{s.args[1], s.args[2]}}, us...)
		s = s.args[0]
	}
	if s != b || len(us) == 0 {
		return nil
	}
	// two-pointer reversal
	if len(us) == 2 {
		n := mkLen(init)
		i, j := us[0].i, us[1].i
		vi, vj := us[0].v, us[1].v
		if j == K && i != K {
			i, j, vi, vj = j, i, vj, vi
		}
		if i == K && j == tSub(tSub(n, tOne), K) && vi.op == OSel && vj.op == OSel && vi.args[0] == b && vi.args[1] == j && vj.args[0] == b && vj.args[1] == i {
			return mkRevPart(init, K)
		}
	}
	// distinct constant offsets from a·K
	n := mkLen(b)
	for _, u := range us {
		if occurs(u.v, b) {
			// reading the cell about to be written is a per-cell update
			return nil
		}
		_ = n
	}
	if len(us) == 1 {
		off := tSub(us[0].i, K)
		if occurs(off, K) || occurs(off, b) {
			return nil
		}
		freshCount++
		bv := mkVar("β"+itoa(freshCount), SNum, true)
		c := mkComp(bv, K, mkUnit(subst(us[0].v, map[*Term]*Term{K: bv})))
		return mkCat(mkSub(init, tZero, off), c, mkSub(init, tAdd(off, K), mkLen(init)))
	}
	return nil
}

// mkRevPart: the first k elements exchanged with the last k.
func mkRevPart(s, k *Term) *Term {
	if h := mkIdiv(mkLen(s), numInt(2)); k == h || k == mkPos(h) {
		return mkFn("reversed", SSeq, false, s)
	}
	return mkFn("revpart", SSeq, false, s, k)
}
