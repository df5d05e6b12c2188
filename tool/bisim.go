package main

// Simulation: a function and its specification are compared loop by loop. The
// loops are not closed; their header variables are paired by type and initial
// value, and under that pairing every step, the condition of going on, and
// what is computed from the variables afterwards must agree in every case.
// This is an induction over the iterations.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type simulation struct {
	c        *Chk
	cur, ref *Run
	named    map[string]bool // functions both sides call without looking into them
	m        map[*Term]*Term // symbols of the specification -> symbols of the code
	pre      func(ctx *Ctx)  // what holds of the arguments
	frozen   bool
	paired   bool // the only pairing of the variables was used
	done     bool // the results agree
	inv      func(ctx *Ctx, l *LoopInfo)
}

// simulate evaluates both sides with open loops.
func (c *Chk) simulate(label, pkg, name, refName string, opaque ...string) *simulation {
	return c.simulateWith(label, pkg, name, refName, nil, opaque...)
}

func (c *Chk) simulateWith(label, pkg, name, refName string, args func(*Eval, *State, *ssa.Function) []Val, opaque ...string) *simulation {
	fn, rf := P.fn(pkg, name), P.fn(pkg, refName)
	if fn == nil || rf == nil {
		c.unknown(label, pkg+"."+name, "no such function")
		return nil
	}
	if len(rf.Params) != len(fn.Params) {
		c.unknown(label, fnPos(fn), "the signature differs from the specification's")
		return nil
	}
	run := func(f *ssa.Function) *Run {
		e := newEval()
		e.open = true
		for _, o := range opaque {
			pure := hasPfx(o, "=")
			o = strings.TrimPrefix(o, "=")
			if g := P.fn(pkg, o); g != nil {
				e.opaque[g] = true
				if pure {
					if e.pureFn == nil {
						e.pureFn = map[*ssa.Function]bool{}
					}
					e.pureFn[g] = true
				}
			}
		}
		st := newState()
		var a []Val
		if args != nil {
			a = args(e, st, fn)
		} else {
			for _, p := range fn.Params {
				a = append(a, e.symArg(p.Name(), p.Type(), st))
			}
		}
		r := evalFn(e, f, a, st)
		for g := range e.analysed {
			c.fns[g.String()] = true
		}
		c.insts += e.steps
		return r
	}
	var cur, ref *Run
	c.try(label, fnPos(fn), func() { cur, ref = run(fn), run(rf) })
	if cur == nil || ref == nil {
		return nil
	}
	if cur.err != "" || ref.err != "" {
		c.unknown(label, fnPos(fn), cur.err+ref.err)
		return nil
	}
	named := map[string]bool{}
	for _, o := range opaque {
		named[strings.TrimPrefix(o, "=")] = true
	}
	return &simulation{c: c, cur: cur, ref: ref, m: map[*Term]*Term{}, named: named}
}

// textual: calls that change a text in ways no other call in the
// specification could make up for
var textual = map[string]bool{"strings.Trim": true, "strings.TrimSpace": true, "strings.ToUpper": true, "strings.ToLower": true, "strings.Replace": true, "strings.ReplaceAll": true, "strings.Fields": true, "strings.Title": true, "unicode.IsLetter": true, "unicode.IsDigit": true, "unicode.IsUpper": true, "unicode.IsLower": true, "unicode.IsPunct": true, "unicode.IsControl": true, "unicode.IsPrint": true, "unicode.IsGraphic": true, "unicode.IsNumber": true}

// definite: what the specification does not mention in the code's term is
// interpreted, so that a difference of the terms is one of the values.
func (s *simulation) definite(got, want *Term) bool {
	pw := map[*Term]bool{}
	anyTerm(want, func(t *Term) bool { pw[t] = true; return false })
	ok := true
	anyTerm(got, func(t *Term) bool {
		if pw[t] || !(t.op == OFn && hasPfx(t.name, "opq:") || t.op == OFold || t.op == OFn && hasPfx(t.name, "unsolved") || t.op == OVar && (hasPfx(t.name, "after:") || isXName(t.name))) {
			return false
		}
		n := strings.TrimPrefix(t.name, "opq:")
		if i := strings.IndexByte(n, '#'); i > 0 {
			n = n[:i]
		}
		if t.op == OFn && textual[n] {
			return false
		}
		if t.op == OFn && s.named[n[strings.LastIndexByte(n, '.')+1:]] {
			return false
		}
		ok = false
		return true
	})
	return ok
}

func sortedLoops(e *Eval) []*LoopInfo {
	ls := append([]*LoopInfo{}, e.loopsRec...)
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	return ls
}

// results: after pairing the loops, the results agree.
func (s *simulation) results(label string) {
	if s == nil {
		return
	}
	c := s.c
	w := s.cur.where()
	c.try(label, w, func() {
		la, lb := sortedLoops(s.cur.e), sortedLoops(s.ref.e)
		if s.cur.st == nil && s.ref.st != nil {
			c.fail(label, w, "no execution of the function returns")
			return
		}
		unclear := func(w, why string) {
			if d := s.confirm(); d != "" {
				c.fail(label, w, d)
			} else {
				c.unknown(label, w, why)
			}
		}
		if len(la) != len(lb) {
			unclear(w, itoa(len(la))+" loops where the specification has "+itoa(len(lb)))
			return
		}
		base := newCtx()
		if s.pre != nil {
			s.pre(base)
		}
		for i := range la {
			status, why := s.loop(base, la[i], lb[i])
			if status != cmpEqual {
				if status == cmpDiffer {
					c.fail(label, la[i].where(), why)
				} else {
					unclear(la[i].where(), why)
				}
				return
			}
		}
		if len(s.cur.res) != len(s.ref.res) {
			c.unknown(label, w, "different number of results")
			return
		}
		ctx := base.clone()
		for _, l := range la {
			s.assumeInv(ctx, l)
		}
		for i := range s.cur.res {
			got, want := s.cur.ret(i), subst(s.ref.ret(i), s.m)
			if ok, why := ctx.equal(got, want); !ok {
				if s.definite(got, want) {
					c.fail(label, w, "result: "+why)
				} else {
					unclear(w, "result: "+why)
				}
				return
			}
		}
		s.done = true
		c.ok(label, w)
	})
}

func (s *simulation) assumeInv(ctx *Ctx, l *LoopInfo) {
	ctx.assume(bLt(l.K, tZero), false)
	for _, v := range l.raw {
		// elements are replaced, the length stays
		if v.sym.op == OVar && v.sym.sort == SSeq && v.step.op == OStore && mkLen(v.step) == mkLen(v.sym) {
			ctx.assume(bEq(mkLen(v.sym), mkLen(v.init)), true)
		}
	}
	if s.inv != nil {
		s.inv(ctx, l)
	}
}

func (s *simulation) loop(base *Ctx, a, b *LoopInfo) (cmpResult, string) {
	type cand struct{ as []int }
	va, vb := s.alive(a, s.cur), s.alive(b, s.ref)
	s.m[b.K] = a.K
	opts := make([][]int, len(vb))
	for j, y := range vb {
		yi := subst(y.init, s.m)
		for i, x := range va {
			if !types.Identical(under(x.typ), under(y.typ)) && !(x.sym.sort == SSeq && y.sym.sort == SSeq && sameElem(x.typ, y.typ)) {
				continue
			}
			if ok, _ := base.tryEqual(x.init, yi); ok {
				opts[j] = append(opts[j], i)
			}
		}
		if len(opts[j]) == 0 {
			if len(va) < len(vb) && s.forgets(base, a, b, j, yi) {
				return cmpDiffer, y.name + " is not kept from one iteration to the next"
			}
			return cmpUnclear, "no variable corresponds to " + y.name
		}
	}
	best, bestWhy, bestSure := -1, "", false
	var bestM map[*Term]*Term
	used := map[int]bool{}
	m := map[*Term]*Term{}
	for k, v := range s.m {
		m[k] = v
	}
	tries := 0
	var rec func(j int) bool
	rec = func(j int) bool {
		if j == len(vb) {
			tries++
			if tries > 200 {
				panic(undecided("too many pairings"))
			}
			n, why, sure := s.steps(base, a, b, va, vb, m)
			if best < 0 || n < best {
				best, bestWhy, bestSure = n, why, sure
				bestM = map[*Term]*Term{}
				for k, v := range m {
					bestM[k] = v
				}
			}
			return n == 0
		}
		for _, i := range opts[j] {
			if used[i] {
				continue
			}
			used[i] = true
			m[baseSym(vb[j].sym)] = va[i].sym
			if rec(j + 1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	rec(0)
	if best == 0 {
		s.m = bestM
		return cmpEqual, ""
	}
	if best < 0 {
		return cmpUnclear, "no pairing of the variables"
	}
	if (tries == 1 || best == 1) && len(va) == len(vb) && bestSure {
		return cmpDiffer, bestWhy
	}
	if tries == 1 && len(va) == len(vb) {
		s.m, s.paired = bestM, true
	}
	return cmpUnclear, bestWhy
}

// alive: the variables that something else depends on
func (s *simulation) alive(l *LoopInfo, r *Run) []LoopVar {
	var out []LoopVar
	for _, v := range l.raw {
		sym := baseSym(v.sym)
		used := occurs(l.cont, sym)
		for _, w := range l.raw {
			if baseSym(w.sym) != sym && occurs(w.step, sym) {
				used = true
			}
		}
		for _, o := range r.e.loopsRec {
			if o == l {
				continue
			}
			if occurs(o.cont, sym) {
				used = true
			}
			for _, w := range o.raw {
				if occurs(w.step, sym) || occurs(w.init, sym) {
					used = true
				}
			}
		}
		for i := range r.res {
			if occurs(r.ret(i), sym) {
				used = true
			}
		}
		for i, p := range r.params {
			if _, ok := p.(*Ptr); ok && occurs(r.post(i), sym) {
				used = true
			}
		}
		for _, ev := range r.e.events {
			for _, t := range append(append([]*Term{}, ev.args...), ev.conds...) {
				if t != nil && occurs(t, sym) {
					used = true
				}
			}
		}
		if used {
			out = append(out, v)
		}
	}
	return out
}

// forgets: the code is the specification with one of its variables stuck at
// its first value.
func (s *simulation) forgets(base *Ctx, a, b *LoopInfo, j int, init *Term) bool {
	if s.frozen {
		return false
	}
	rest := &LoopInfo{id: b.id, fn: b.fn, K: b.K, cont: b.cont, raw: nil}
	m := map[*Term]*Term{baseSym(b.raw[j].sym): init}
	rest.cont = subst(b.cont, m)
	for i, v := range b.raw {
		if i != j {
			v.step = subst(v.step, m)
			rest.raw = append(rest.raw, v)
		}
	}
	t := &simulation{c: s.c, cur: s.cur, ref: s.ref, inv: s.inv, named: s.named, m: map[*Term]*Term{}, frozen: true}
	for k, v := range s.m {
		t.m[k] = v
	}
	r, _ := t.loop(base, a, rest)
	return r == cmpEqual
}

func sameElem(x, y types.Type) bool {
	a, ok1 := under(x).(*types.Slice)
	b, ok2 := under(y).(*types.Slice)
	return ok1 && ok2 && types.Identical(under(a.Elem()), under(b.Elem()))
}

// steps: the number of components that disagree under the pairing
func (s *simulation) steps(base *Ctx, a, b *LoopInfo, va, vb []LoopVar, m map[*Term]*Term) (int, string, bool) {
	ctx := base.clone()
	sure := false
	s.assumeInv(ctx, a)
	bad, why := 0, ""
	contB := subst(b.cont, m)
	if ok, w := ctx.equal(a.cont, contB); !ok {
		bad++
		why = "the loop goes on " + w
		sure = s.definite(a.cont, contB)
	}
	d := ctx.clone()
	d.assume(a.cont, true)
	for _, y := range vb {
		x := m[baseSym(y.sym)]
		for _, v := range va {
			if v.sym != x {
				continue
			}
			want := subst(y.step, m)
			if ok, w := underCond(ctx, a.cont, v.step, want); !ok {
				bad++
				if why == "" || !sure {
					why = v.name + " becomes " + w
					sure = s.definite(v.step, want)
				}
			}
		}
	}
	return bad, why, sure
}

// underCond: the terms agree in every case in which the condition holds
func underCond(ctx *Ctx, cond, x, y *Term) (bool, string) {
	why := ""
	limit := 20000
	ok := ctx.cases([]*Term{cond, x, y}, &limit, func(d *Ctx, s []*Term) bool {
		if s[0] == tFalse || d.same(s[1], s[2]) {
			return true
		}
		why = clip(s[1].String()) + "  where  " + clip(s[2].String()) + " is specified, when " + joinLits(d.lits)
		return false
	})
	return ok, why
}

// calls: the named library functions are called in the same places, under the
// same conditions and with the same arguments.
func (s *simulation) calls(label string, names ...string) {
	if s == nil || !s.done && !s.paired {
		return
	}
	c := s.c
	w := s.cur.where()
	la, lb := sortedLoops(s.cur.e), sortedLoops(s.ref.e)
	place := func(ls []*LoopInfo, ev *Event) int {
		for i, l := range ls {
			if len(ev.loops) > 0 && ev.loops[len(ev.loops)-1] == l {
				return i
			}
		}
		return -1
	}
	for _, n := range names {
		var ea, eb []*Event
		for _, ev := range s.cur.e.events {
			if (ev.kind == "call" || ev.kind == "dyncall") && ev.name == n {
				ea = append(ea, ev)
			}
		}
		for _, ev := range s.ref.e.events {
			if (ev.kind == "call" || ev.kind == "dyncall") && ev.name == n {
				eb = append(eb, ev)
			}
		}
		l := label + " (" + n + ")"
		c.try(l, w, func() {
			ctx := newCtx()
			for _, x := range la {
				s.assumeInv(ctx, x)
			}
			for i, x := range ea {
				if i >= len(eb) || place(la, x) != place(lb, eb[i]) {
					c.fail(l, x.pos(), "a call the specification does not make")
					return
				}
				if ok, why := ctx.equal(x.cond(), subst(eb[i].cond(), s.m)); !ok {
					if s.definite(x.cond(), subst(eb[i].cond(), s.m)) {
						c.fail(l, x.pos(), "called when "+why)
					} else {
						c.unknown(l, x.pos(), "called when "+why)
					}
					return
				}
				for k, a := range x.args {
					if k >= len(eb[i].args) {
						break
					}
					want := subst(eb[i].args[k], s.m)
					d := ctx.clone()
					d.assume(x.cond(), true)
					if ok, why := underCond(d, x.cond(), a, want); !ok {
						if s.definite(a, want) {
							c.fail(l, x.pos(), "argument "+why)
						} else {
							c.unknown(l, x.pos(), "argument "+why)
						}
						return
					}
				}
			}
			if len(ea) < len(eb) {
				c.unknown(l, w, "fewer calls than specified")
				return
			}
			c.ok(l, w)
		})
	}
}

// effects: the objects pointer parameters refer to are left as specified
func (s *simulation) effects(label string) {
	if s == nil || !s.done {
		return
	}
	c := s.c
	w := s.cur.where()
	for i, v := range s.cur.params {
		if _, ok := v.(*Ptr); !ok {
			continue
		}
		l := label + " (effect on " + s.cur.fn.Params[i].Name() + ")"
		c.try(l, w, func() {
			got, want := s.cur.post(i), subst(s.ref.post(i), s.m)
			ctx := newCtx()
			if s.pre != nil {
				s.pre(ctx)
			}
			for _, x := range sortedLoops(s.cur.e) {
				s.assumeInv(ctx, x)
			}
			if ok, why := ctx.equal(got, want); ok {
				c.ok(l, w)
			} else if s.definite(got, want) {
				c.fail(l, w, why)
			} else {
				c.unknown(l, w, why)
			}
		})
	}
}
