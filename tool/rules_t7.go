package main

import "math/big"

func init() {
	register("T07", "under the condition that Validate returns nil, each of its requirements (mutual twins, both hull areas, the triangle areas, both perimeters within 1e-9) follows; the triangle area sum has the specified value graph", checkT07)
}

// nilBool: the condition under which a reference is nil
func nilBool(t *Term) *Term {
	if t.op == OIte {
		return mkIteAtom(t.args[0], nilBool(t.args[1]), nilBool(t.args[2]))
	}
	if isNilT(t) {
		return tTrue
	}
	if isFreshRef(t) {
		return tFalse
	}
	return bEq(tNil, t)
}

func checkT07(c *Chk) {
	pk := "triangulate2"
	op := []string{"=ConvexHull", "=polygonArea", "=polygonPerimeter", "=Triangulation.area"}
	r := c.run(pk, "Triangulation.Validate", op...)
	if r == nil {
		return
	}
	var acc *Term
	c.try("outcome", r.where(), func() { acc = nilBool(r.ret(0)) })
	if acc == nil {
		return
	}
	spec := func(n string) *Term {
		p := c.pair(pk, "Triangulation.Validate", n, op...)
		if p == nil {
			return nil
		}
		var t *Term
		c.try(n, r.where(), func() { t = p.ref.ret(0) })
		return t
	}
	h1, h2, tr, p1, p2, tw := spec("gegovFirstHull"), spec("gegovSecondHull"), spec("gegovTriArea"), spec("gegovFirstRim"), spec("gegovSecondRim"), spec("gegovTwins")
	if h1 == nil || h2 == nil || tr == nil || p1 == nil || p2 == nil || tw == nil {
		return
	}
	need := func(l string, cond *Term) {
		c.try(l, r.where(), func() {
			ctx := newCtx()
			ctx.assume(acc, true)
			if ok, _ := ctx.equal(cond, tTrue); ok {
				c.ok(l, r.where())
				return
			}
			// accepted although the requirement fails
			bad := newCtx()
			bad.assume(cond, false)
			g := bad.simp(acc)
			if g == tFalse {
				c.ok(l, r.where())
				return
			}
			if re := vague(g); re != "" {
				c.unknown(l, r.where(), re)
				return
			}
			c.fail(l, r.where(), "accepted when "+clip(g.String())+" although not "+clip(cond.String()))
		})
	}
	tol := numRat(new(big.Rat).SetFloat64(1e-9))
	within := func(a, b *Term) *Term { return bNot(bLt(tol, mkAbs(tSub(a, b)))) }
	need("the stored hull has the area of the points' hull", within(h1, h2))
	need("the stored hull has the area of the triangles", within(h1, tr))
	need("the stored hull has the perimeter of the points' hull", within(p1, p2))
	// twins: the loop's exit condition
	l := "every half-edge's twin points back"
	c.try(l, r.where(), func() {
		ctx := newCtx()
		ctx.assume(tw, false)
		g := ctx.simp(acc)
		if g == tFalse {
			c.ok(l, r.where())
			return
		}
		if forallImplied(acc, tw) {
			c.ok(l, r.where())
			return
		}
		c.twins(l, r, acc, tw)
	})
	if p := c.pair(pk, "Triangulation.area", "gegovAreaSum"); p != nil {
		l := "area sums the triangles' areas"
		c.try(l, p.cur.where(), func() {
			// the triangle list has three entries per triangle
			n := mkLen(fld(p.cur.pterm(0), p.cur.ptype(0), "Triangles"))
			m := map[*Term]*Term{n: tScale(mkVar("triangles", SNum, true), big.NewRat(3, 1))}
			ctx := newCtx()
			ctx.assume(bLt(mkVar("triangles", SNum, true), tZero), false)
			got, want := ctx.simp(subst(p.cur.ret(0), m)), ctx.simp(subst(p.ref.ret(0), m))
			if r, why := deepEqual(ctx, got, want); r == cmpEqual {
				c.ok(l, p.cur.where())
			} else if r == cmpDiffer {
				c.fail(l, p.cur.where(), why)
			} else {
				for k := int64(0); k <= 2; k++ {
					m := map[*Term]*Term{mkVar("triangles", SNum, true): numInt(k)}
					if r, why := deepEqual(nil, expandConst(subst(got, m)), expandConst(subst(want, m))); r == cmpDiffer {
						c.fail(l, p.cur.where(), "for "+numInt(k).String()+" triangles: "+why)
						return
					}
				}
				c.unknown(l, p.cur.where(), why)
			}
		})
	}
	c.bounds("every index of the half-edge list is in range", r.where(), r.e, newCtx(), nil, func(t *Term) bool { return t.op == OSel })
}

// twins: the acceptance condition is instantiated for every half-edge list of
// up to three entries; none with a dangling twin may be accepted.
func (c *Chk) twins(l string, r *Run, acc, tw *Term) {
	T := r.ptype(0)
	seq := fld(r.pterm(0), T, "Halfedges")
	for n := 0; n <= 3; n++ {
		a, w := instantiate(acc, seq, int64(n)), instantiate(tw, seq, int64(n))
		tot := 1
		for i := 0; i < n; i++ {
			tot *= n + 1
		}
		for k := 0; k < tot; k++ {
			var parts []*Term
			desc := ""
			for i, x := 0, k; i < n; i, x = i+1, x/(n+1) {
				v := numInt(int64(x%(n+1) - 1))
				parts = append(parts, mkUnit(v))
				desc += " " + v.String()
			}
			m := map[*Term]*Term{seq: mkCat(parts...)}
			ctx := newCtx()
			ga, gw := ctx.simp(firsts(expandConst(subst(a, m)))), ctx.simp(firsts(expandConst(subst(w, m))))
			if gw == tFalse && ga != tFalse && vague(ga) == "" {
				c.fail(l, r.where(), "half-edges"+desc+" are accepted")
				return
			}
		}
	}
	c.unknown(l, r.where(), "acceptance condition not related to the requirement")
}

// noneBefore: the atom n < first(g)+1 says that g(k) is 0 for every k < n
func noneBefore(at *Term) (n *Term, g func(k *Term) *Term) {
	if at.op != OLt0 {
		return nil, nil
	}
	for _, q := range asPoly(at.args[0]) {
		if len(q.m) != 1 || q.m[0].e != 1 || q.m[0].a.op != OFn || q.m[0].a.name != "first" || q.c.Cmp(big.NewRat(-1, 1)) != 0 {
			continue
		}
		f := q.m[0].a
		co := f.args[0]
		if co.op != OComp || co.args[1] != tOmega || co.args[2].op != OUnit {
			continue
		}
		n = tAdd(at.args[0], f, tOne)
		return n, func(k *Term) *Term { return subst(co.args[2].args[0], map[*Term]*Term{co.args[0]: k}) }
	}
	return nil, nil
}

// conjuncts: atoms that hold whenever the decision diagram is true
func conjuncts(t *Term) []*Term {
	var out []*Term
	top := t
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t.op != OIte || seen[t] {
			return
		}
		seen[t] = true
		y := t.args[0]
		if !seen[y] {
			seen[y] = true
			c := newCtx()
			c.assume(mkAtomNode(y), false)
			if c.simp(top) == tFalse {
				out = append(out, y)
			}
		}
		w(t.args[1])
		w(t.args[2])
	}
	w(t)
	return out
}

// forallImplied: the acceptance condition contains "no position below n is
// bad", from which the requirement's own such statement follows position by
// position.
func forallImplied(acc, want *Term) bool {
	for _, w := range conjuncts(want) {
		n, g := noneBefore(w)
		if n == nil {
			return false
		}
		ok := false
		for _, a := range conjuncts(acc) {
			m, h := noneBefore(a)
			if m != n {
				continue
			}
			k := freshBound()
			ctx := newCtx().boundVar(k, n)
			if ctx.implies(bNot(bAnd(bEq0(h(k)), bNot(bEq0(g(k)))))) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	// nothing else is required
	ctx := newCtx()
	for _, w := range conjuncts(want) {
		ctx.assume(mkAtomNode(w), true)
	}
	return ctx.simp(want) == tTrue
}

// firsts evaluates "the first position where" once its first values are known.
func firsts(t *Term) *Term {
	m := map[*Term]*Term{}
	anyTerm(t, func(y *Term) bool {
		if y.op != OFn || y.name != "first" || y.args[0].op != OComp || y.args[0].args[2].op != OUnit {
			return false
		}
		co := y.args[0]
		for i := int64(0); i < 9; i++ {
			v := expandConst(subst(co.args[2].args[0], map[*Term]*Term{co.args[0]: numInt(i)}))
			x, ok := isConstInt(v)
			if !ok {
				break
			}
			if x == 1 {
				m[y] = numInt(i)
				break
			}
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}
