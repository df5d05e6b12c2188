package main

import (
	"fmt"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N02", "the value graph of the basis function table, including its two nested recurrences, equals that of the Cox-de Boor algorithm; a difference is established on the value graph at a constant degree", checkN02)
	register("N03", "the value graph of a curve point equals the sum over the basis functions of the span of value times control point span-p+i, and the control points are left alone", checkN03)
	register("N04", "the value graph of the derivative table equals that of the standard divided difference algorithm; a difference is established on the value graph at constant degree and order", checkN04)
}

func degreeCtx(c *Ctx) *Ctx {
	p := mkVar("p", SNum, true)
	c.assume(bLt(p, tZero), false)
	return c
}

// atConstants compares a function with its specification: in general when the
// value graphs are comparable, and otherwise on the graphs evaluated with some
// integer parameters constant. Only the latter establishes a difference.
func (c *Chk) atConstants(label, pkg, name, ref string, facts func(*Ctx, map[string]int64), insts []map[string]int64) {
	fn := P.fn(pkg, name)
	end := time.Now().Add(60 * time.Second)
	p := c.pair(pkg, name, ref)
	if p == nil {
		return
	}
	w := p.cur.where()
	why := ""
	deadline = time.Now().Add(oblBudget)
	func() {
		defer func() {
			deadline = time.Time{}
			if x := recover(); x != nil {
				u, is := x.(undecidedErr)
				if !is {
					panic(x)
				}
				why = fmt.Sprint(u)
			}
		}()
		for i := range p.cur.res {
			ctx := newCtx()
			facts(ctx, nil)
			r, s := deepEqual(ctx, p.cur.ret(i), p.ref.ret(i))
			if r != cmpEqual && why == "" {
				why = s + " "
			}
		}
	}()
	eq := why == "" && len(p.cur.res) == len(p.ref.res)
	lr := "positions of the lists made here are in range"
	todo := ""
	c.try(lr, w, func() { todo = localBounds(p.cur.e, facts) })
	for _, in := range insts {
		if todo == "" || !eq || time.Now().After(end) {
			break
		}
		in := in
		c.tryQuiet(func() {
			r := c.runWith(pkg, name, constArgs(fn, in))
			if r == nil {
				return
			}
			if where, d := constantOutside(r.e); d != "" {
				c.fail(lr, where, "with "+fmt.Sprint(in)+": "+d)
				todo = "-"
			}
		})
		if todo == "-" {
			return
		}
	}
	if todo == "" {
		c.ok(lr, w)
	} else {
		c.unknown(lr, w, todo)
	}
	if eq {
		c.ok(label, w)
		return
	}
	for _, in := range insts {
		in := in
		bad := false
		if time.Now().After(end) {
			why += "(time budget for constants exhausted at " + fmt.Sprint(in) + ")"
			break
		}

		c.try(label, w, func() {
			q := c.pairWith(pkg, name, ref, constArgs(fn, in))
			if q == nil {
				bad = true
				return
			}
			if where, d := constantOutside(q.cur.e); d != "" {
				bad = true
				c.fail(label, where, "with "+fmt.Sprint(in)+": "+d)
				return
			}
			ctx := newCtx()
			facts(ctx, in)
			for i := range q.cur.res {
				got, want := expandConst(q.cur.ret(i)), expandConst(q.ref.ret(i))
				if diff, sure := c.differAt(ctx, got, want); diff != "" {
					bad = true
					if sure {
						c.fail(label, w, "with "+fmt.Sprint(in)+": "+diff)
					} else {
						c.unknown(label, w, "with "+fmt.Sprint(in)+": "+diff)
					}
					return
				}
			}
		})
		if bad {
			return
		}
	}
	c.unknown(label, w, "not comparable in general, equal at the constants tried: "+why)
}

// differAt: a case in which two terms differ, and whether everything in them
// is interpreted
func (c *Chk) differAt(ctx *Ctx, got, want *Term) (string, bool) {
	if got == want {
		return "", true
	}
	allUnits := func(t *Term) bool {
		for _, a := range t.args {
			if a.op != OUnit {
				return false
			}
		}
		return true
	}
	if got.op == want.op && len(got.args) == len(want.args) && (got.op == OUnit || got.op == OTup || got.op == OCat && allUnits(got) && allUnits(want)) {
		why := ""
		for i := range got.args {
			d, sure := c.differAt(ctx, got.args[i], want.args[i])
			if d != "" && sure {
				return "element " + itoa(i) + ": " + d, true
			}
			if d != "" && why == "" {
				why = "element " + itoa(i) + ": " + d
			}
		}
		return why, false
	}
	why, sure := "", false
	limit := 5000
	ctx.cases([]*Term{got, want}, &limit, func(d *Ctx, s []*Term) bool {
		if d.same(s[0], s[1]) {
			return true
		}
		why = clip(s[0].String()) + "  where  " + clip(s[1].String()) + " is specified, when " + joinLits(d.lits)
		sure = vague(s[0]) == "" && vague(s[1]) == "" || subsetParts(s[0], s[1]) && subsetParts(s[1], s[0])
		return !sure
	})
	return why, sure
}

func checkN02(c *Chk) {
	var in []map[string]int64
	for p := int64(0); p <= 3; p++ {
		in = append(in, map[string]int64{"p": p})
	}
	c.atConstants("basis functions follow the Cox-de Boor recurrence", "nurbs", "basisFuns", "gegovBasisFuns", func(x *Ctx, in map[string]int64) {
		if in == nil {
			degreeCtx(x)
		}
	}, in)
}

func checkN03(c *Chk) {
	var in []map[string]int64
	for p := int64(0); p <= 2; p++ {
		in = append(in, map[string]int64{"p": p})
	}
	c.atConstants("curve point is the weighted sum of the control points", "nurbs", "curvePoint", "gegovCurvePoint", func(x *Ctx, in map[string]int64) {
		if in == nil {
			degreeCtx(x)
		}
	}, in)
	if fn := P.fn("nurbs", "curvePoint"); fn != nil {
		c.untouched("curvePoint leaves its arguments unchanged", fn, "all")
	}
}

func checkN04(c *Chk) {
	var in []map[string]int64
	for p := int64(0); p <= 3; p++ {
		for n := int64(0); n <= p; n++ {
			in = append(in, map[string]int64{"p": p, "n": n})
		}
	}
	c.atConstants("derivatives follow the standard recurrence", "nurbs", "dersBasisFuns", "gegovDersBasisFuns", func(x *Ctx, in map[string]int64) {
		if in == nil {
			degreeCtx(x)
		}
	}, in)
}

// constantOutside: an index that is a constant out of range in some iteration,
// every loop around it having a constant number of iterations
func constantOutside(e *Eval) (string, string) {
	for _, ev := range e.events {
		if ev.kind != "index" {
			continue
		}
		found := ""
		var rec func(i int, m map[*Term]*Term)
		rec = func(i int, m map[*Term]*Term) {
			checkDeadline()
			if found != "" {
				return
			}
			if i < len(ev.loops) {
				l := ev.loops[i]
				if l.trip == nil {
					return
				}
				n, ok := isConstInt(expandConst(subst(l.trip, m)))
				if !ok || n > 12 {
					return
				}
				for k := int64(0); k < n; k++ {
					d := map[*Term]*Term{l.K: numInt(k)}
					for a, b := range m {
						d[a] = b
					}
					rec(i+1, d)
				}
				return
			}
			if expandConst(subst(ev.cond(), m)) != tTrue {
				return
			}
			x, ok1 := isConstInt(expandConst(subst(ev.args[0], m)))
			n, ok2 := isConstInt(expandConst(subst(ev.args[1], m)))
			if ok1 && ok2 && (x < 0 || x >= n) {
				found = "position " + itoa(int(x)) + " of a list of " + itoa(int(n))
			}
		}
		rec(0, map[*Term]*Term{})
		if found != "" {
			return ev.where(), found
		}
	}
	return "", ""
}

// constArgs: some integer parameters constant
func constArgs(fn *ssa.Function, in map[string]int64) func(*Eval, *State, *ssa.Function) []Val {
	return func(e *Eval, st *State, f *ssa.Function) []Val {
		var a []Val
		for _, p := range fn.Params {
			if k, ok := in[p.Name()]; ok {
				a = append(a, numInt(k))
			} else {
				a = append(a, e.symArg(p.Name(), p.Type(), st))
			}
		}
		return a
	}
}

// localBounds: every index into a list whose length does not come from an
// argument is in range; otherwise the first that is not shown to be
func localBounds(e *Eval, facts func(*Ctx, map[string]int64)) string {
	for _, ev := range e.events {
		if ev.kind != "index" {
			continue
		}
		i, n := ev.args[0], ev.args[1]
		if anyTerm(n, func(t *Term) bool {
			return t.op == OFn && t.name == "len" && t.args[0].op == OVar && !hasPfx(t.args[0].name, "λ")
		}) {
			continue
		}
		if linearInRange(ev) {
			continue
		}
		ctx := newCtx()
		facts(ctx, nil)
		for _, l := range ev.loops {
			if l.trip != nil {
				ctx = ctx.boundVar(l.K, l.trip)
			}
		}
		ctx.assume(ev.cond(), true)
		if !inRange(ctx, i, n, false, 0) {
			return ev.where() + ": " + clip(i.String()) + " of " + clip(n.String()) + " when " + clip(ev.cond().String())
		}
	}
	return ""
}

// linearInRange: the range follows from the numbers of iterations, the
// condition and 0 <= n <= p by linear arithmetic
func linearInRange(ev *Event) bool {
	f := &Facts{done: map[string]bool{}}
	p, n := mkVar("p", SNum, true), mkVar("n", SNum, true)
	f.ge(p, false)
	f.ge(n, false)
	f.ge(tSub(p, n), false)
	f.more = func(f *Facts) {
		for _, t := range f.ts {
			anyTerm(t, func(x *Term) bool {
				if x.op == OFn && x.name == "pos" && !x.free && !f.done[itoa(x.id)] {
					f.done[itoa(x.id)] = true
					f.cons = append(f.cons, linCon(x, false), linCon(tSub(x, x.args[0]), false))
				}
				return false
			})
		}
	}
	for _, l := range ev.loops {
		f.ge(l.K, false)
		if l.trip != nil {
			t := l.trip
			if t.op == OFn && t.name == "pos" { // positive inside the loop
				t = t.args[0]
			}
			if t.free {
				return false
			}
			f.ge(tSub(t, l.K), true)
		}
	}
	f.close()
	lim := 200
	s := &spanCheck{}
	return s.cases(f, []*Term{ev.cond(), ev.args[0], ev.args[1]}, &lim, func(h *Facts, x []*Term) bool {
		if x[0] == tFalse {
			return true
		}
		h.close(x[1], x[2])
		return h.proves(x[1], false) && h.proves(tSub(x[2], x[1]), true)
	})
}
