package main

func init() {
	register("P01", "the value graph of each predicate is the cofactor expansion of its determinant, as a polynomial identity", checkP01)
	register("P02", "the filtered predicate's value graph is: the determinant when its absolute value exceeds the bound times the permanent, the fallback otherwise", checkP02)
}

// orientation determinant |a-d; b-d; c-d|
func orientDet(a, b, cc, d V3) *Term {
	return a.sub(d).dot(b.sub(d).cross(cc.sub(d)))
}

// in-sphere determinant of rows (p-e, |p-e|^2) for p = a, b, c, d
func inSphereDet(a, b, cc, d, e V3) *Term {
	A, B, C, D := a.sub(e), b.sub(e), cc.sub(e), d.sub(e)
	det3 := func(x, y, z V3) *Term { return x.dot(y.cross(z)) }
	// expansion along the last column
	return tAdd(
		tMul(A.norm2(), det3(B, C, D)),
		tNeg(tMul(B.norm2(), det3(A, C, D))),
		tMul(C.norm2(), det3(A, B, D)),
		tNeg(tMul(D.norm2(), det3(A, B, C))))
}

func coordParams(r *Run) []V3 {
	var out []V3
	if len(r.params) == 5 {
		for i := 0; i < 5; i++ {
			out = append(out, r.vec(i))
		}
		return out
	}
	if len(r.params) < 15 {
		panic(undecided("unexpected parameters"))
	}
	for i := 0; i < 5; i++ {
		out = append(out, V3{r.pterm(3 * i), r.pterm(3*i + 1), r.pterm(3*i + 2)})
	}
	return out
}

// permanent: the determinant's expansion with every product replaced by its
// absolute value (the lifts stay sums of squares)
func permanent(a, b, cc, d, e V3) *Term {
	A, B, C, D := a.sub(e), b.sub(e), cc.sub(e), d.sub(e)
	m := func(x, y V3) *Term { // |x0*y1| + |y0*x1|
		return tAdd(mkAbs(tMul(x[0], y[1])), mkAbs(tMul(y[0], x[1])))
	}
	z := func(x V3) *Term { return mkAbs(x[2]) }
	t := func(x, y, w V3) *Term { // |x y w| minor expanded along z
		return tAdd(tMul(m(y, w), z(x)), tMul(m(x, w), z(y)), tMul(m(x, y), z(w)))
	}
	return tAdd(tMul(t(B, C, D), A.norm2()), tMul(t(A, C, D), B.norm2()), tMul(t(A, B, D), C.norm2()), tMul(t(A, B, C), D.norm2()))
}

func checkP01(c *Chk) {
	if r := c.run("predicates", "orient3dfast"); r != nil {
		c.try("orient3dfast", r.where(), func() {
			c.eq("orient3dfast is the orientation determinant", r.where(), nil, r.ret(0), orientDet(r.vec(0), r.vec(1), r.vec(2), r.vec(3)))
		})
		c.pure(r, false)
	}
	if r := c.run("predicates", "InSphereFast"); r != nil {
		c.try("InSphereFast", r.where(), func() {
			p := coordParams(r)
			c.eq("InSphereFast is the in-sphere determinant", r.where(), nil, r.ret(0), inSphereDet(p[0], p[1], p[2], p[3], p[4]))
		})
		c.pure(r, false)
	}
	if r := c.run("predicates", "inSphere", "inSphereAdapt"); r != nil {
		c.try("inSphere", r.where(), func() {
			p := coordParams(r)
			det := inSphereDet(p[0], p[1], p[2], p[3], p[4])
			got := r.ret(0)
			// every leaf of the decision structure that does not come from the fallback is the determinant
			n := 0
			for _, l := range leavesOf(got) {
				if hasCall(l, "inSphereAdapt") {
					continue
				}
				if l == tZero {
					continue
				}
				n++
				c.eq("inSphere's determinant value", r.where(), nil, l, det)
			}
			if n == 0 {
				c.fail("inSphere returns the determinant", r.where(), clip(got.String()))
			}
		})
		c.pure(r, false)
	}
}

func leavesOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var w func(*Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == OIte {
			w(x.args[1])
			w(x.args[2])
			return
		}
		out = append(out, x)
	}
	w(t)
	return out
}

func hasCall(t *Term, name string) bool {
	return anyTerm(t, func(y *Term) bool {
		return y.op == OFn && len(y.name) > len(name) && containsStr(y.name, name)
	})
}

func checkP02(c *Chk) {
	r := c.run("predicates", "inSphere", "inSphereAdapt")
	if r == nil {
		return
	}
	c.pure(r, false)
	c.try("filter", r.where(), func() {
		p := coordParams(r)
		det := inSphereDet(p[0], p[1], p[2], p[3], p[4])
		perm := permanent(p[0], p[1], p[2], p[3], p[4])
		u := floatTerm(1.1102230246251565e-16)
		bound := tMul(tAdd(numInt(16), tMul(numInt(224), u)), u, perm)
		certified := bLt(bound, mkAbs(det))
		certified2 := bOr(bLt(bound, det), bLt(bound, tNeg(det)))
		fn := P.fn("predicates", "inSphereAdapt")
		var calls []*Event
		for _, ev := range r.e.events {
			if containsStr(ev.name, "inSphereAdapt") && ev.cond() != tFalse {
				calls = append(calls, ev)
			}
		}
		got := r.ret(0)
		var fb *Term
		if len(calls) > 0 {
			ev := calls[0]
			for i := 0; i < 15 && i < len(ev.args); i++ {
				c.eq("fallback argument "+itoa(i), ev.where(), nil, ev.args[i], r.pterm(i))
			}
			if len(ev.args) == 16 {
				c.eq("fallback permanent", ev.where(), nil, ev.args[15], perm)
			}
		}
		_ = fn
		for _, l := range leavesOf(got) {
			if hasCall(l, "inSphereAdapt") {
				fb = l
			}
		}
		if fb == nil {
			// fallback expanded away: its value is what is returned when not certified
			r2 := c.run("predicates", "inSphere")
			if r2 == nil {
				return
			}
			got = r2.ret(0)
			fb = tZero
		}
		ctx := newCtx()
		ok1, why := ctx.equal(got, mkIte(certified, det, fb))
		if !ok1 {
			ok1, why = ctx.equal(got, mkIte(certified2, det, fb))
		}
		c.hold("value is certified or the fallback's", r.where(), ok1, why)
	})
}
