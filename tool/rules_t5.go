package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T05", "with the circumradius infinite for every triple (collinear or coincident points, one point or two), the value graph of the triangulation is an error, or an empty triangulation for no points, and no triangle is begun; the circumradius of every degenerate triple is infinite; every index evaluated on the way is bounded by its sequence's length", checkT05)
}

func checkT05(c *Chk) {
	pk := "triangulate2"
	fn := P.fn(pk, "Triangulate")
	lab := "no triangulation is begun when no three points have a circle"
	no, cr := P.fn(pk, "gegovNoCircle"), P.fn(pk, "circumradius")
	if fn == nil || no == nil || cr == nil {
		c.unknown(lab, pk+".Triangulate", "no such function")
		return
	}
	if r := c.runWith(pk, "circumradius", triangleArgs); r != nil {
		c.try("circumradius of a degenerate triple is infinite", r.where(), func() {
			a := r.vec(0)
			deg := newCtx()
			deg.assume(bEq0(det2(r.vec(1).sub(a), r.vec(2).sub(a))), true)
			c.eq("circumradius of a degenerate triple is infinite", r.where(), deg, r.ret(0), P.globalTerm(pk, "infinity"))
		})
	}
	e := newEval()
	e.instead = map[*ssa.Function]*ssa.Function{cr: no}
	for _, n := range strings.Fields("triangulator.addTriangle triangulator.legalize triangulator.hashKey triangulator.hashEdge newNode node.remove area circumcenter squaredDistance") {
		if f := P.fn(pk, n); f != nil {
			e.opaque[f] = true
		}
	}
	begun := map[*ssa.Function]bool{}
	for _, n := range strings.Fields("triangulator.addTriangle newNode triangulator.hashEdge") {
		if f := P.fn(pk, n); f != nil {
			begun[f] = true
		}
	}
	var where, cond string
	vagueCond := false
	e.forbid = func(f *ssa.Function, t *Term, in ssa.Instruction) {
		if !begun[f] {
			return
		}
		where, cond = at(in), "call of "+f.Name()+" when "+clip(t.String())
		vagueCond = !onlyLens(t)
		panic(undecided("triangulation begun"))
	}
	var r *Run
	c.try(lab, fnPos(fn), func() { r = evalFn(e, fn, nil, nil) })
	for f := range e.analysed {
		c.fns[f.String()] = true
	}
	c.insts += e.steps
	if r == nil {
		return
	}
	pts := mkLen(r.e.toTerm(r.st0, r.params[0]))
	base := newCtx()
	if where != "" {
		if vagueCond {
			c.unknown(lab, where, cond)
		} else {
			c.fail(lab, where, cond)
		}
	} else if r.err != "" {
		c.unknown(lab, r.where(), r.err)
	} else {
		c.ok(lab, r.where())
	}
	c.bounds("every index on the way is in range", r.where(), e, base, []*Term{pts})
	if r.err != "" || len(r.res) != 2 {
		return
	}
	c.try("some points without a circle: an error", r.where(), func() {
		l := "some points without a circle: an error"
		ctx := newCtx()
		ctx.assume(bEq0(pts), false)
		c.errLeaves(l, r.where(), ctx.simp(r.ret(1)), false)
		l = "no points: no error"
		ctx = newCtx()
		ctx.assume(bEq0(pts), true)
		c.errLeaves(l, r.where(), ctx.simp(r.ret(1)), true)
		// the fields
		p, ok := r.res[0].(*Ptr)
		if !ok {
			c.unknown("no points: empty triangulation", r.where(), "result not followed")
			return
		}
		T := P.typ(pk, "Triangulation")
		t := r.e.load(r.st, p.Loc)
		for _, f := range []string{"ConvexHull", "Triangles", "Halfedges"} {
			c.eq("no points: "+f+" is empty", r.where(), ctx, mkLen(fld(t, T, f)), tZero)
		}
		c.eq("the points are handed back", r.where(), nil, fld(t, T, "Vectors"), r.e.toTerm(r.st0, r.params[0]))
	})
	for _, ev := range e.events {
		if ev.kind == "panic" && ev.cond() != tFalse {
			c.fail("no panic", ev.where(), "panic when "+clip(ev.cond().String()))
		}
	}
}

// onlyLens: the condition speaks of nothing but lengths and loop counters
func onlyLens(t *Term) bool {
	return !anyTerm(t, func(y *Term) bool {
		return y.op == OFold || y.op == OFn && !hasPfx(y.name, "len")
	})
}

// errLeaves: every leaf of an error value is nil, or none is
func (c *Chk) errLeaves(label, where string, t *Term, wantNil bool) {
	bad, und := "", ""
	var w func(t *Term, cond string)
	w = func(t *Term, cond string) {
		switch {
		case t.op == OIte:
			w(t.args[1], cond+" "+t.args[0].String())
			w(t.args[2], cond+" !"+t.args[0].String())
		case isNilT(t):
			if !wantNil {
				bad = "nil" + cond
			}
		case isFreshRef(t) || t.op == OVar:
			if wantNil {
				bad = t.String() + cond
			}
		default:
			und = t.String()
		}
	}
	w(t, "")
	switch {
	case bad != "":
		c.fail(label, where, clipN(bad, 300))
	case und != "":
		c.unknown(label, where, clipN(und, 300))
	default:
		c.ok(label, where)
	}
}
