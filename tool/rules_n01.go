package main

// N01: the knot span search. The invariants of the search loop are inferred
// (the largest set of order facts between its indices, and between the
// parameter and the knots at them, that holds at entry and is kept by every
// iteration), the result and a ranking are judged from them. A violation is
// only reported from small constant degrees, where an early iteration leaves
// with a wrong span or repeats its own state.

import (
	"fmt"
	"math/big"
	"sort"
)

func init() {
	register("N01", "inferred loop invariants bracket the parameter between the knots of the search's bounds; every way out then returns the specified span and a difference of bounds falls in every iteration; a violation is an early iteration at a constant degree that leaves with a wrong span or repeats its state", checkN01)
}

type spanCheck struct {
	c          *Chk
	r          *Run
	n, p, u, U *Term
	knotInt    bool
	L          *LoopInfo
	vars       []LoopVar // numeric loop variables, and the iteration count
}

func (s *spanCheck) knot(i *Term) *Term { return mkSel(s.U, i, SNum, s.knotInt) }

// more: facts about the knots and quotients mentioned
func (s *spanCheck) more(f *Facts) {
	var idx, divs []*Term
	seen := map[*Term]bool{}
	for _, t := range f.ts {
		anyTerm(t, func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.op == OSel && x.args[0] == s.U && !x.args[1].free {
				idx = append(idx, x)
			}
			if x.op == OFn && x.name == "idiv" && !x.free {
				divs = append(divs, x)
			}
			return false
		})
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
	sort.Slice(divs, func(i, j int) bool { return divs[i].id < divs[j].id })
	for _, d := range divs {
		k := "div" + itoa(d.id)
		if f.done[k] {
			continue
		}
		if c, ok := constOf(d.args[1]); ok && c.Sign() > 0 && f.proves(d.args[0], false) {
			f.done[k] = true
			q := tScale(d, c)
			f.cons = append(f.cons, linCon(tSub(d.args[0], q), false), linCon(tSub(tAdd(q, tScale(tOne, new(big.Rat).Sub(c, big.NewRat(1, 1)))), d.args[0]), false))
		}
	}
	for i, a := range idx {
		for _, b := range idx[:i] {
			k := "sel" + itoa(a.id) + "," + itoa(b.id)
			if f.done[k] {
				continue
			}
			d := tSub(a.args[1], b.args[1])
			le, ge := f.proves(tScale(d, big.NewRat(-1, 1)), false), f.proves(d, false)
			if le {
				f.cons = append(f.cons, linCon(tSub(b, a), false))
			}
			if ge {
				f.cons = append(f.cons, linCon(tSub(a, b), false))
			}
			f.done[k] = le || ge
		}
	}
}

func neg(t *Term) *Term { return tScale(t, big.NewRat(-1, 1)) }

// cases: every decision in ts made, as far as the facts allow
func (s *spanCheck) cases(f *Facts, ts []*Term, limit *int, g func(*Facts, []*Term) bool) bool {
	checkDeadline()
	at := firstAtom(ts...)
	if at == nil {
		return g(f, ts)
	}
	if *limit--; *limit < 0 {
		panic(undecided("too many cases"))
	}
	type br struct {
		v    bool
		more func(*Facts)
	}
	brs := []br{{true, nil}, {false, nil}}
	if at.op == OEq0 {
		t := at.args[0]
		brs = []br{{true, nil}, {false, func(h *Facts) { h.ge(t, true) }}, {false, func(h *Facts) { h.ge(neg(t), true) }}}
	}
	for _, b := range brs {
		h := f.clone()
		h.literal(at, b.v)
		if b.more != nil {
			b.more(h)
		}
		h.close(at)
		if !h.sat() {
			continue
		}
		d := newCtx()
		d.assumeAtom(at, b.v)
		us := make([]*Term, len(ts))
		for i, t := range ts {
			us[i] = d.simp(t)
		}
		if !s.cases(h, us, limit, g) {
			return false
		}
	}
	return true
}

func (s *spanCheck) base() *Facts {
	f := &Facts{more: s.more, done: map[string]bool{}}
	f.ge(s.p, false)
	f.ge(tSub(s.n, s.p), false)
	return f
}

// within adds a boolean over the arguments that is known to hold
func (s *spanCheck) given(f *Facts, b *Term, g func(*Facts) bool) bool {
	lim := 200
	return s.cases(f, []*Term{b}, &lim, func(h *Facts, x []*Term) bool {
		if x[0] == tFalse {
			return true
		}
		return g(h)
	})
}

type ineq struct {
	t      *Term
	strict bool
}

func checkN01(c *Chk) {
	label := "knot span search"
	fn := P.fn("nurbs", "findSpan")
	if fn == nil {
		c.unknown(label, "nurbs.findSpan", "no such function")
		return
	}
	s := &spanCheck{c: c}
	c.try(label, fnPos(fn), func() {
		e := newEval()
		e.open = true
		s.r = evalFn(e, fn, nil, nil)
		for g := range e.analysed {
			c.fns[g.String()] = true
		}
		c.insts += e.steps
	})
	if s.r == nil || s.r.err != "" || len(s.r.res) != 1 || len(s.r.params) != 4 {
		why := "signature"
		if s.r != nil {
			why += " " + s.r.err
		}
		c.unknown(label, fnPos(fn), "not comparable: "+why)
		return
	}
	w := s.r.where()
	var ints, reals, seqs []*Term
	for _, v := range s.r.params {
		t := s.r.term(v)
		switch {
		case t.sort == SSeq:
			seqs = append(seqs, t)
		case t.isInt:
			ints = append(ints, t)
		default:
			reals = append(reals, t)
		}
	}
	if len(ints) != 2 || len(reals) != 1 || len(seqs) != 1 {
		c.unknown(label, w, "not the parameters n, p, u, U")
		return
	}
	s.n, s.p, s.u, s.U = ints[0], ints[1], reals[0], seqs[0]
	s.knotInt = true
	ls := sortedLoops(s.r.e)
	if len(ls) != 1 {
		c.unknown(label, w, itoa(len(ls))+" loops in the search")
		return
	}
	s.L = ls[0]
	for _, v := range s.L.raw {
		if v.sym.sort == SNum && v.sym.op == OVar && v.sym.isInt {
			s.vars = append(s.vars, v)
		} else if s.used(baseSym(v.sym)) {
			c.unknown(label, w, "the search keeps "+v.name)
			return
		}
	}
	s.vars = append(s.vars, LoopVar{name: "iteration", sym: s.L.K, init: tZero, step: tAdd(s.L.K, tOne)})
	var res *Term
	c.try(label, w, func() { res = s.r.ret(0) })
	if res == nil {
		return
	}
	if bad, why := s.early(res); bad {
		c.fail(label, w, why)
		return
	}
	var inv []ineq
	c.try(label+": invariants", w, func() { inv = s.invariants(res) })
	if inv == nil {
		return
	}
	lr := "the span returned brackets the parameter, clamped at both ends"
	c.try(lr, w, func() {
		if why := s.post(res, inv); why != "" {
			c.unknown(lr, w, why)
		} else {
			c.ok(lr, w)
		}
	})
	lt := "the search terminates"
	c.try(lt, s.L.where(), func() {
		if why := s.ranking(res, inv); why != "" {
			c.unknown(lt, s.L.where(), why)
		} else {
			c.ok(lt, s.L.where())
		}
	})
}

// used: the loop's steps, its condition or the result depend on a variable
func (s *spanCheck) used(x *Term) bool {
	if occurs(s.L.cont, x) || occurs(s.r.ret(0), x) {
		return true
	}
	for _, v := range s.L.raw {
		if baseSym(v.sym) != x && occurs(v.step, x) {
			return true
		}
	}
	return false
}

func (s *spanCheck) entry() *Term {
	b := tTrue
	for _, x := range s.L.conds {
		b = bAnd(b, x)
	}
	return b
}

func (s *spanCheck) hasLoopSym(t *Term) bool {
	for _, v := range s.vars {
		if occurs(t, v.sym) {
			return true
		}
	}
	return false
}

// indices: the positions the search compares
func (s *spanCheck) indices(res *Term) []*Term {
	out := []*Term{s.p, s.n, tAdd(s.n, tOne)}
	add := func(t *Term) {
		for _, o := range out {
			if o == t {
				return
			}
		}
		out = append(out, t)
	}
	for _, v := range s.vars {
		if v.sym != s.L.K {
			add(v.sym)
		}
	}
	for _, t := range []*Term{s.L.cont, res} {
		anyTerm(t, func(x *Term) bool {
			if x.op == OSel && x.args[0] == s.U && !x.args[1].free && len(out) < 10 {
				add(x.args[1])
			}
			return false
		})
	}
	var leaf func(t *Term)
	leaf = func(t *Term) {
		if t.op == OIte {
			leaf(t.args[1])
			leaf(t.args[2])
		} else if t.sort == SNum && s.hasLoopSym(t) && len(out) < 10 {
			add(t)
		}
	}
	leaf(res)
	for _, t := range append([]*Term{}, out...) {
		if s.hasLoopSym(t) && len(out) < 12 {
			add(tAdd(t, tOne))
		}
	}
	return out
}

// invariants: the candidates that survive
func (s *spanCheck) invariants(res *Term) []ineq {
	E := s.indices(res)
	var cand []ineq
	add := func(t *Term, strict bool) {
		if s.hasLoopSym(t) {
			cand = append(cand, ineq{t, strict})
		}
	}
	add(s.L.K, false)
	for i, a := range E {
		for j, b := range E {
			if i != j {
				add(tSub(b, a), false)
				add(tSub(b, a), true)
			}
		}
		add(tSub(s.u, s.knot(a)), false)
		add(tSub(s.knot(a), s.u), true)
	}
	for _, m := range s.vars {
		for i, a := range s.vars {
			for _, b := range s.vars[:i] {
				if m.sym != a.sym && m.sym != b.sym && m.sym != s.L.K && a.sym != s.L.K && b.sym != s.L.K {
					d := tSub(tAdd(a.sym, b.sym), tScale(m.sym, big.NewRat(2, 1)))
					add(d, false)
					add(tSub(tOne, d), false)
				}
			}
		}
	}
	atInit, atStep := map[*Term]*Term{}, map[*Term]*Term{}
	var inits, steps []*Term
	for _, v := range s.vars {
		inits, steps = append(inits, v.init), append(steps, v.step)
	}
	at := func(vals []*Term, m map[*Term]*Term, t *Term) *Term {
		for i, v := range s.vars {
			m[v.sym] = vals[i]
		}
		return subst(t, m)
	}
	keep := func(f *Facts, vals []*Term, m map[*Term]*Term) bool {
		var left []ineq
		var ts []*Term
		for _, q := range cand {
			ts = append(ts, at(vals, m, q.t))
		}
		f.close(ts...)
		f.close()
		same := true
		for i, q := range cand {
			if f.proves(ts[i], q.strict) {
				left = append(left, q)
			} else {
				same = false
			}
		}
		cand = left
		return same
	}
	lim := 500
	s.given(s.base(), s.entry(), func(f *Facts) bool {
		return s.cases(f, inits, &lim, func(h *Facts, x []*Term) bool {
			keep(h, x, atInit)
			return true
		})
	})
	for round := 0; ; round++ {
		if round > 40 {
			panic(undecided("invariants do not stabilise"))
		}
		stable := true
		lim := 2000
		ok := s.given(s.base(), s.entry(), func(f *Facts) bool {
			for _, q := range cand {
				f.ge(q.t, q.strict)
			}
			f.close()
			return s.cases(f, append([]*Term{s.L.cont}, steps...), &lim, func(h *Facts, x []*Term) bool {
				if x[0] == tFalse {
					return true
				}
				if !keep(h, x[1:], atStep) {
					stable = false
				}
				return stable
			})
		})
		if ok && stable {
			break
		}
	}
	s.c.sites += len(cand)
	if cand == nil {
		cand = []ineq{}
	}
	return cand
}

// post: every way out returns the specified span
func (s *spanCheck) post(res *Term, inv []ineq) string {
	why := ""
	last := tAdd(s.n, tOne)
	judge := func(f *Facts, r *Term) {
		one, p1 := tOne, s.knot(tAdd(r, tOne))
		_ = one
		h := f.clone()
		h.ge(tSub(s.u, s.knot(last)), false)
		h.close(r)
		if h.sat() && !h.provesEq(tSub(r, s.n)) {
			why = "not shown to return the last span at or after the last knot of the domain: " + clip(r.String())
		}
		h = f.clone()
		h.ge(tSub(s.knot(s.p), s.u), true)
		h.ge(tSub(s.knot(last), s.u), true)
		h.close(r)
		if h.sat() && !h.provesEq(tSub(r, s.p)) {
			why = "not shown to return the first span before the domain: " + clip(r.String())
		}
		h = f.clone()
		h.ge(tSub(s.u, s.knot(s.p)), false)
		h.ge(tSub(s.knot(last), s.u), true)
		h.close(s.knot(r), p1)
		h.close()
		if h.sat() && !(h.proves(tSub(s.u, s.knot(r)), false) && h.proves(tSub(p1, s.u), true)) {
			why = "not shown to bracket the parameter: " + clip(r.String())
		}
	}
	lim := 3000
	// decisions before the loop, then what the loop leaves behind
	s.cases(s.base(), []*Term{res}, &lim, func(f *Facts, x []*Term) bool {
		mentions := s.hasLoopSym(x[0])
		for _, t := range f.ts {
			mentions = mentions || s.hasLoopSym(t)
		}
		if !mentions {
			judge(f, x[0])
			return why == ""
		}
		g := f.clone()
		for _, q := range inv {
			g.ge(q.t, q.strict)
		}
		g.close()
		return s.given(g, bAnd(s.entry(), bNot(s.L.cont)), func(h *Facts) bool {
			judge(h, x[0])
			return why == ""
		})
	})
	return why
}

// ranking: a difference of bounds that stays nonnegative and falls
func (s *spanCheck) ranking(res *Term, inv []ineq) string {
	E := s.indices(res)
	var steps []*Term
	m := map[*Term]*Term{}
	for _, v := range s.vars {
		steps = append(steps, v.step)
	}
	for _, a := range E {
		for _, b := range E {
			rank := tSub(b, a)
			if a == b || !s.hasLoopSym(rank) {
				continue
			}
			lim := 2000
			ok := s.given(s.base(), s.entry(), func(f *Facts) bool {
				for _, q := range inv {
					f.ge(q.t, q.strict)
				}
				f.close()
				return s.cases(f, append([]*Term{s.L.cont}, steps...), &lim, func(h *Facts, x []*Term) bool {
					if x[0] == tFalse {
						return true
					}
					for i, v := range s.vars {
						m[v.sym] = x[i+1]
					}
					next := subst(rank, m)
					h.close(rank, next)
					if h.proves(rank, false) && h.proves(tSub(tSub(rank, next), tOne), false) {
						return true
					}
					return s.adjacent(h, rank, next)
				})
			})
			if ok {
				return ""
			}
		}
	}
	return "no difference of bounds is shown to fall in every iteration"
}

// adjacent: the same, with the bounds next to each other and further apart
func (s *spanCheck) adjacent(f *Facts, rank, next *Term) bool {
	for _, far := range []bool{false, true} {
		h := f.clone()
		if far {
			h.ge(tSub(rank, numInt(2)), false)
		} else {
			h.ge(tSub(tOne, rank), false)
		}
		h.done = map[string]bool{}
		h.close(rank, next)
		h.close()
		if h.sat() && !(h.proves(rank, false) && h.proves(tSub(tSub(rank, next), tOne), false)) {
			return false
		}
	}
	return true
}

// early: with constant n and p, an iteration leaves with a wrong span or
// repeats a state it has been in
func (s *spanCheck) early(res *Term) (bool, string) {
	bad, why := false, ""
	for p := int64(0); p <= 2 && !bad; p++ {
		for d := int64(0); d <= 3 && !bad; d++ {
			s.c.tryQuiet(func() {
				bad, why = s.earlyAt(res, p, p+d)
			})
		}
	}
	return bad, why
}

func (s *spanCheck) earlyAt(res *Term, p, n int64) (bool, string) {
	m := map[*Term]*Term{s.p: numInt(p), s.n: numInt(n)}
	k := func(i int64) *Term { return s.knot(numInt(i)) }
	last := n + p + 1
	f0 := &Facts{more: s.more, done: map[string]bool{}}
	for i := int64(0); i < last; i++ {
		f0.ge(tSub(k(i+1), k(i)), false)
		f0.done["sel"+itoa(k(i+1).id)+","+itoa(k(i).id)] = true
	}
	found, why := false, ""
	with := fmt.Sprintf("with n=%d p=%d", n, p)
	// a result that is definitely wrong in some case
	judge := func(f *Facts, r *Term, how string) {
		rc, ok := constOf(r)
		if !ok || !rc.IsInt() {
			return
		}
		v := rc.Num().Int64()
		say := func(h *Facts, spec string) {
			if !found && h.sat() {
				found, why = true, with+": "+how+" returns span "+itoa(int(v))+" "+spec
			}
		}
		h := f.clone()
		h.ge(tSub(s.u, k(n+1)), false)
		if v != n {
			say(h, "at or after the end of the domain")
		}
		h = f.clone()
		h.ge(tSub(k(n+1), s.u), true)
		h.ge(tSub(k(p), s.u), true)
		if v != p {
			say(h, "before the domain")
		}
		h = f.clone()
		h.ge(tSub(k(n+1), s.u), true)
		h.ge(tSub(s.u, k(p)), false)
		if v < 0 || v >= last {
			say(h, "which does not exist")
			return
		}
		g := h.clone()
		g.ge(tSub(k(v), s.u), true)
		say(g, "for a parameter before it")
		g = h.clone()
		g.ge(tSub(s.u, k(v+1)), false)
		say(g, "for a parameter after it")
	}
	inRange := func(ts ...*Term) bool {
		for _, t := range ts {
			if anyTerm(t, func(x *Term) bool {
				if x.op != OSel || x.args[0] != s.U {
					return false
				}
				c, ok := constOf(x.args[1])
				return !ok || c.Sign() < 0 || c.Cmp(big.NewRat(last, 1)) > 0
			}) {
				return false
			}
		}
		return true
	}
	lim := 4000
	entry, out := subst(s.entry(), m), subst(res, m)
	s.cases(f0, []*Term{out}, &lim, func(f *Facts, x []*Term) bool {
		if !s.hasLoopSym(x[0]) && inRange(f.ts...) {
			touched := false
			for _, t := range f.ts {
				touched = touched || s.hasLoopSym(t)
			}
			if !touched {
				judge(f, x[0], "the search")
			}
		}
		return !found
	})
	if found {
		return found, why
	}
	var inits []*Term
	for _, v := range s.vars {
		inits = append(inits, subst(v.init, m))
	}
	var iter func(f *Facts, state []*Term, past [][]*Term) bool
	iter = func(f *Facts, state []*Term, past [][]*Term) bool {
		checkDeadline()
		for i, v := range s.vars {
			m[v.sym] = state[i]
		}
		ts := []*Term{subst(s.L.cont, m), subst(out, m)}
		for _, v := range s.vars {
			ts = append(ts, subst(v.step, m))
		}
		return s.cases(f, ts, &lim, func(h *Facts, x []*Term) bool {
			if !inRange(h.ts...) {
				return true
			}
			if x[0] == tFalse {
				judge(h, x[1], "iteration "+itoa(len(past)))
				return !found
			}
			if x[0] != tTrue {
				return true
			}
			next := x[2:]
			for _, o := range append(past, state) {
				same := true
				for i, v := range s.vars {
					if v.sym == s.L.K && !s.countUsed(res) {
						continue
					}
					_, isC := constOf(next[i])
					same = same && isC && next[i] == o[i]
				}
				if same {
					found, why = true, with+": iteration "+itoa(len(past))+" leads back to a state the search has been in, so that it does not terminate"
					return false
				}
			}
			if len(past) >= 6 {
				return true
			}
			return iter(h, next, append(append([][]*Term{}, past...), state))
		})
	}
	s.given(f0, entry, func(f *Facts) bool {
		return s.cases(f, inits, &lim, func(h *Facts, x []*Term) bool {
			return iter(h, x, nil)
		})
	})
	return found, why
}

// countUsed: the iteration count itself matters to the search
func (s *spanCheck) countUsed(res *Term) bool {
	if occurs(s.L.cont, s.L.K) || occurs(res, s.L.K) {
		return true
	}
	for _, v := range s.vars {
		if v.sym != s.L.K && occurs(v.step, s.L.K) {
			return true
		}
	}
	return false
}
