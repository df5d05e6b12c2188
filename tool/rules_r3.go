package main

import "go/types"

// V01-V03: vector algebra as identities between value graphs.

func init() {
	register("V01", "the value graph of every vector operation is the textbook polynomial in each component, in-place and value-returning forms leave the same graph, and no other store or panic is reachable", checkV01)
	register("V02", "norms, distances and normalisation have the Euclidean value graphs, with the zero vector mapped to zero", checkV02)
	register("V03", "plane and line queries satisfy their defining equations as rational identities", checkV03)
}

func checkV01(c *Chk) {
	half := func(name string, want func(r *Run) V3) {
		if r := c.run("r3", name); r != nil {
			c.try(name, r.where(), func() { c.eqVec(name, r, r.retVec(0), want(r)) })
			c.pure(r, false)
		}
	}
	inplace := func(name string, want func(r *Run) V3) {
		if r := c.run("r3", name); r != nil {
			c.try(name, r.where(), func() {
				c.eqVec(name+" receiver", r, vec(r.post(0)), want(r))
				if len(r.res) == 1 {
					c.eq(name+" returns its receiver", r.where(), nil, r.ret(0), r.term(r.params[0]))
				}
			})
			c.pure(r, false, 0)
		}
	}
	num := func(name string, want func(r *Run) *Term) {
		if r := c.run("r3", name); r != nil {
			c.try(name, r.where(), func() { c.eq(name, r.where(), nil, r.ret(0), want(r)) })
			c.pure(r, false)
		}
	}
	sum := func(r *Run) V3 { return r.vec(0).add(r.vec(1)) }
	diff := func(r *Run) V3 { return r.vec(0).sub(r.vec(1)) }
	scale := func(r *Run) V3 { return r.vec(0).scale(r.pterm(1)) }
	abs := func(r *Run) V3 {
		v := r.vec(0)
		return V3{mkAbs(v[0]), mkAbs(v[1]), mkAbs(v[2])}
	}
	half("Add", sum)
	half("Sub", diff)
	half("createVector", diff)
	half("Abs", abs)
	half("Vector.Scaled", scale)
	inplace("Vector.Add", sum)
	inplace("Vector.Sub", diff)
	inplace("Vector.Scale", scale)
	inplace("Vector.Abs", abs)
	half("Cross", func(r *Run) V3 { return r.vec(0).cross(r.vec(1)) })
	num("Dot", func(r *Run) *Term { return r.vec(0).dot(r.vec(1)) })
	num("det2D", func(r *Run) *Term {
		a, b := r.vec(0), r.vec(1)
		return tSub(tMul(a[0], b[1]), tMul(a[1], b[0]))
	})
	half("Interpolate", func(r *Run) V3 {
		t := r.pterm(2)
		return r.vec(0).scale(tSub(tOne, t)).add(r.vec(1).scale(t))
	})
	half("Vector.GetInterpolationVector", func(r *Run) V3 {
		t := r.pterm(2)
		return r.vec(0).scale(t).add(r.vec(1).scale(tSub(tOne, t)))
	})
}

func checkV02(c *Chk) {
	num := func(name string, want func(r *Run) *Term) {
		if r := c.run("r3", name); r != nil {
			c.try(name, r.where(), func() { c.eq(name, r.where(), nil, r.ret(0), want(r)) })
			c.pure(r, false)
		}
	}
	n2 := func(r *Run) *Term { return r.vec(0).norm2() }
	d2 := func(r *Run) *Term { return r.vec(0).sub(r.vec(1)).norm2() }
	num("Vector.Norm2", n2)
	num("Vector.SquaredMagnitude", n2)
	num("Vector.Norm", func(r *Run) *Term { return mkSqrt(n2(r)) })
	num("Vector.Magnitude", func(r *Run) *Term { return mkSqrt(n2(r)) })
	num("SquaredDistance", d2)
	num("Distance", func(r *Run) *Term { return mkSqrt(d2(r)) })
	unit := func(v V3) V3 {
		n := v.norm2()
		var o V3
		for i := range v {
			o[i] = mkIte(bEq0(n), tZero, tDiv(v[i], mkSqrt(n)))
		}
		return o
	}
	if r := c.run("r3", "Normalize"); r != nil {
		c.try("Normalize", r.where(), func() { c.eqVec("Normalize", r, r.retVec(0), unit(r.vec(0))) })
		c.pure(r, false)
	}
	if r := c.run("r3", "Vector.Normalize"); r != nil {
		c.try("Vector.Normalize", r.where(), func() {
			c.eqVec("Vector.Normalize receiver", r, vec(r.post(0)), unit(r.vec(0)))
			c.eq("Vector.Normalize returns its receiver", r.where(), nil, r.ret(0), r.term(r.params[0]))
		})
		c.pure(r, false, 0)
	}
	c.zeroSafe("Normalize")
	c.zeroSafe("Vector.Normalize")
	if r := c.run("r3", "Vector.IsUnit"); r != nil {
		c.try("Vector.IsUnit", r.where(), func() {
			c.eq("Vector.IsUnit", r.where(), nil, r.ret(0), bLe(mkAbs(tSub(n2(r), tOne)), floatTerm(5e-14)))
		})
		c.pure(r, false)
	}
}

func checkV03(c *Chk) {
	pT := P.typ("r3", "Plane")
	if r := c.run("r3", "newPlane"); r != nil {
		c.try("newPlane", r.where(), func() {
			p := r.ret(0)
			n := vec(fld(p, pT, "Normal"))
			c.eqVec("newPlane keeps the normal", r, n, r.vec(0))
			c.eq("newPlane contains its origin", r.where(), nil, tAdd(n.dot(r.vec(1)), fld(p, pT, "Distance")), tZero)
		})
		c.pure(r, false)
	}
	if r := c.run("r3", "Vector.CalculateDistanceToPlane"); r != nil {
		c.try("distance", r.where(), func() {
			p := r.pterm(1)
			c.eq("signed distance to a plane", r.where(), nil, r.ret(0), tAdd(vec(fld(p, pT, "Normal")).dot(r.vec(0)), fld(p, pT, "Distance")))
		})
		c.pure(r, false)
	}
	if r := c.run("r3", "Plane.calculateNormal"); r != nil {
		c.try("normal", r.where(), func() {
			a, b, d := r.vec(1), r.vec(2), r.vec(3)
			c.eqVec("normal of three points", r, r.retVec(0), b.sub(a).cross(d.sub(a)))
		})
		c.pure(r, false)
	}
	if r := c.run("r3", "Line.IntersectPlane"); r != nil {
		c.try("intersection", r.where(), func() {
			lT, qT := P.typ("r3", "Line"), P.typ("r3", "Plane3D")
			l, q := r.pterm(0), r.pterm(1)
			o, d := vec(fld(l, lT, "Vector")), vec(fld(l, lT, "Direction"))
			n, p0 := vec(fld(q, qT, "Normal")), vec(fld(q, qT, "Vector"))
			ctx := newCtx()
			ctx.assume(bEq0(n.dot(d)), false)
			ctx.assume(bEq0(d.norm2()), false)
			x := r.retVec(0)
			t := tDiv(tSub(n.dot(p0), n.dot(o)), n.dot(d))
			for i := range x {
				c.eq("intersection point ."+axes[i], r.where(), ctx, x[i], tAdd(o[i], tMul(t, d[i])))
			}
			pc := tFalse
			for _, ev := range r.e.events {
				if ev.kind == "panic" {
					pc = bOr(pc, ev.cond())
				}
			}
			c.eq("panics exactly when direction and normal are orthogonal", r.where(), nil, pc, bEq0(n.dot(d)))
		})
		c.pure(r, true)
	}
}

// zeroSafe: at the zero vector no division by zero reaches the result
func (c *Chk) zeroSafe(name string) {
	fn := P.fn("r3", name)
	if fn == nil {
		return
	}
	label := name + " does not divide by zero at the zero vector"
	c.try(label, fnPos(fn), func() {
		zero := mkTup(tname(P.typ("r3", "Vector")), tZero, tZero, tZero)
		e := newEval()
		e.poison = mkVar("0/0", SNum, false)
		st := newState()
		var a []Val
		for _, p := range fn.Params {
			if pt, ok := under(p.Type()).(*types.Pointer); ok {
				o := e.newObj(p.Name(), pt.Elem())
				o.ext = true
				o.init = zero
				a = append(a, &Ptr{Loc{o, nil}})
			} else {
				a = append(a, zero)
			}
		}
		r := evalFn(e, fn, a, st)
		if r.err != "" {
			c.unknown(label, fnPos(fn), r.err)
			return
		}
		var out []*Term
		for i := range r.res {
			out = append(out, r.ret(i))
		}
		for i, v := range r.params {
			if _, ok := v.(*Ptr); ok {
				out = append(out, r.post(i))
			}
		}
		for _, t := range out {
			if occurs(t, e.poison) {
				c.fail(label, r.where(), "the result depends on a division by zero")
				return
			}
		}
		c.ok(label, r.where())
	})
}
