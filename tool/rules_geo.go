package main

import (
	"go/types"
	"math/big"
)

func init() {
	register("G01", "every bound is the recurrence min/max of its coordinate over the whole sequence; other loop shapes are compared with the true extreme for sequences of 1 to 3 points", checkG01)
	register("G02", "the containment test has the truth function of the four non-strict same-side conditions; centroid identity", checkG02)
	register("G03", "the seed measures are the cross product's squared norm and the triple product; the seed recurrences keep a point of greatest measure; wiring of the four seeds", checkG03)
	register("G04", "all eight corners of the box lie on the inner side of the four faces: each oriented volume is a polynomial with one-signed coefficients in non-negative extents", checkG04)
	register("M05", "the nearest-point recurrence keeps a point of least distance; the flipped index list is the specified one", checkM05)
}

func tMin2(a, b *Term) *Term { return mkIte(bLt(b, a), b, a) }
func tMax2(a, b *Term) *Term { return mkIte(bLt(a, b), b, a) }

// either: got equals one of the wanted graphs; otherwise inst looks for a
// difference on small instances.
func (c *Chk) either(label, where string, ctx *Ctx, got *Term, wants []*Term, inst func() string) {
	c.try(label, where, func() {
		for _, w := range wants {
			if w == nil {
				continue
			}
			if r, _ := deepEqual(ctx, got, w); r == cmpEqual {
				c.ok(label, where)
				return
			}
		}
		if s := inst(); s != "" {
			c.fail(label, where, s)
			return
		}
		c.unknown(label, where, "not comparable in general; no difference for small lengths")
	})
}

func vecsT() types.Type                 { return types.NewSlice(vecT()) }
func (v V3) subst(m map[*Term]*Term) V3 { return V3{subst(v[0], m), subst(v[1], m), subst(v[2], m)} }

// points of a sequence of n vectors
func seqPoints(s *Term, n int64) []V3 {
	var out []V3
	for i := int64(0); i < n; i++ {
		out = append(out, vec(selElem(s, vecsT(), numInt(i))))
	}
	return out
}

// finite: every coordinate lies strictly between the largest float64 and its opposite
func finite(ctx *Ctx, ps []V3) {
	m := floatTerm(maxFloat)
	for _, p := range ps {
		for _, x := range p {
			ctx.assume(bLt(x, m), true)
			ctx.assume(bLt(tNeg(m), x), true)
		}
	}
}

const maxFloat = 0x1p1023 * (1 + (1 - 0x1p-52))

// bound compares got with the extreme of coordinate k for n = 1..3 points
func instExtreme(got, s *Term, k int, max bool) string {
	for n := int64(1); n <= 3; n++ {
		ps := seqPoints(s, n)
		ctx := newCtx()
		finite(ctx, ps)
		w := ps[0][k]
		for _, p := range ps[1:] {
			if max {
				w = tMax2(w, p[k])
			} else {
				w = tMin2(w, p[k])
			}
		}
		if r, why := deepEqual(ctx, instantiate(got, s, n), w); r == cmpDiffer {
			return "with " + itoa(int(n)) + " points: " + why
		}
	}
	return ""
}

// instBest: for 1..3 points the vector got is one of the points and its measure
// is the greatest (least), provided that the greatest measure is positive when
// positive is set.
func instBest(got V3, s *Term, measure func(V3) *Term, max, positive bool) string {
	for n := int64(1); n <= 3; n++ {
		ps := seqPoints(s, n)
		ctx := newCtx()
		finite(ctx, ps)
		m := make([]*Term, n)
		for i, p := range ps {
			m[i] = measure(p)
			ctx.assume(bLt(m[i], floatTerm(maxFloat)), true)
			if m[i].op == OFn && m[i].name == "sqrt" {
				ctx.assume(bLt(m[i].args[0], floatTerm(maxFloat)), true)
			}
			if positive {
				ctx.assume(bLt(m[i], tZero), false)
			}
		}
		var g V3
		for i := range got {
			g[i] = instantiate(got[i], s, n)
		}
		if vague(g[0])+vague(g[1])+vague(g[2]) != "" {
			return ""
		}
		// for each point: when it has strictly the best measure, it is the result
		for i := range ps {
			sub := ctx.clone()
			for j := range ps {
				if j == i {
					continue
				}
				if !max && m[i].op == OFn && m[i].name == "sqrt" && m[j].op == OFn && m[j].name == "sqrt" {
					sub.assume(bLt(m[i].args[0], m[j].args[0]), true)
				}
				if max {
					sub.assume(bLt(m[j], m[i]), true)
				} else {
					sub.assume(bLt(m[i], m[j]), true)
				}
			}
			if positive {
				sub.assume(bLt(tZero, m[i]), true)
			}
			for k := range g {
				if ok, why := sub.tryEqual(g[k], ps[i][k]); !ok && hasPfx(why, "when") {
					return "with " + itoa(int(n)) + " points, point " + itoa(i) + " having the best measure: " + why
				}
			}
		}
		// the result is one of the points
		mem := tFalse
		for _, p := range ps {
			mem = bOr(mem, bAnd(bAnd(bEq0(tSub(g[0], p[0])), bEq0(tSub(g[1], p[1]))), bEq0(tSub(g[2], p[2]))))
		}
		sub := ctx.clone()
		if positive {
			any := tFalse
			for i := range m {
				any = bOr(any, bLt(tZero, m[i]))
			}
			mem = bOr(mem, bNot(any))
		}
		if ok, why := sub.tryEqual(mem, tTrue); !ok && hasPfx(why, "when") {
			return "with " + itoa(int(n)) + " points the result is not one of them: " + why
		}
	}
	return ""
}

func (c *Chk) boundsOf(label, where string, got, want [2]V3, s *Term) {
	ctx := newCtx()
	for b := range got {
		for k := range axes {
			b, k := b, k
			c.either(label+" "+[]string{"minimum", "maximum"}[b]+" ."+axes[k], where, ctx, got[b][k], []*Term{want[b][k]}, func() string {
				return instExtreme(got[b][k], s, k, b == 1)
			})
		}
	}
}

func checkG01(c *Chk) {
	if p := c.pair("triangulate3", "computeBoundingBoxForVectors", "gegovBounds"); p != nil {
		c.try("bounding box", p.cur.where(), func() {
			r, f := p.cur, p.ref
			c.boundsOf("bounding box", r.where(), [2]V3{r.retVec(0), r.retVec(1)}, [2]V3{f.retVec(0), f.retVec(1)}, r.pterm(0))
		})
		c.pure(p.cur, false)
	}
	if p := c.pair("meshing", "helper.findExtremas", "gegovExtremas"); p != nil {
		c.try("extremes", p.cur.where(), func() {
			T := P.typ("meshing", "helper")
			mm := func(r *Run) [2]V3 {
				h := r.post(0)
				return [2]V3{vec(fld(h, T, "min")), vec(fld(h, T, "max"))}
			}
			c.boundsOf("findExtremas", p.cur.where(), mm(p.cur), mm(p.ref), p.cur.pterm(1))
		})
		c.pure(p.cur, false, 0)
	}
	if p := c.pair("triangulate3", "computeExtremitiesForAxeX", "gegovExtremesX"); p != nil {
		c.try("extremes along X", p.cur.where(), func() {
			s := p.cur.pterm(0)
			for b := 0; b < 2; b++ {
				b := b
				got, want := p.cur.retVec(b), p.ref.retVec(b)
				label := "point of " + []string{"least", "greatest"}[b] + " X"
				c.eitherVec(label, p.cur.where(), got, []V3{want}, func() string {
					return instBest(got, s, func(v V3) *Term { return v[0] }, b == 1, false)
				})
			}
		})
		c.pure(p.cur, false)
	}
}

func (c *Chk) eitherVec(label, where string, got V3, wants []V3, inst func() string) {
	c.try(label, where, func() {
		for _, w := range wants {
			all := true
			for k := range got {
				if r, _ := deepEqual(newCtx(), got[k], w[k]); r != cmpEqual {
					all = false
				}
			}
			if all {
				c.ok(label, where)
				return
			}
		}
		if s := inst(); s != "" {
			c.fail(label, where, s)
			return
		}
		c.unknown(label, where, "not comparable in general; no difference for small lengths")
	})
}

func orient(a, b, d, p V3) *Term { return b.sub(a).cross(d.sub(a)).dot(p.sub(a)) }

func sameSideSpec(v [4]V3, p V3) *Term {
	x, y := orient(v[0], v[1], v[2], v[3]), orient(v[0], v[1], v[2], p)
	neg := func(t *Term) *Term { return bLt(t, tZero) }
	pos := func(t *Term) *Term { return bLt(tZero, t) }
	return bNot(bOr(bAnd(neg(x), pos(y)), bAnd(pos(x), neg(y))))
}

func checkG02(c *Chk) {
	for _, k := range [][4]string{{"triangulate3", "SameSide", "VectorInTetrahedron", "findCentroid"}, {"meshing", "sameSide", "vectorInTetrahedron", "findCentroid"}} {
		pk := k[0]
		args := func(r *Run) (v [4]V3, p V3) {
			for i := range v {
				v[i] = r.vec(i)
			}
			return v, r.vec(4)
		}
		if r := c.run(pk, k[1]); r != nil {
			c.try(k[1], r.where(), func() {
				v, p := args(r)
				c.eq(pk+": same side of the plane of the first three, not strictly opposite", r.where(), nil, r.ret(0), sameSideSpec(v, p))
			})
			c.pure(r, false)
		}
		if r := c.run(pk, k[2]); r != nil {
			c.try(k[2], r.where(), func() {
				v, p := args(r)
				all := tTrue
				for i := 0; i < 4; i++ {
					all = bAnd(all, sameSideSpec([4]V3{v[i], v[(i+1)%4], v[(i+2)%4], v[(i+3)%4]}, p))
				}
				c.eq(pk+": inside exactly when on the inner side of all four faces", r.where(), nil, r.ret(0), all)
			})
			c.pure(r, false)
		}
		if r := c.run(pk, k[3]); r != nil {
			c.try(k[3], r.where(), func() {
				c.eqVec(pk+": centroid", r, r.retVec(0), r.vec(0).add(r.vec(1)).add(r.vec(2)).add(r.vec(3)).scale(ratF(1, 4)))
			})
			c.pure(r, false)
		}
	}
}

func checkG03(c *Chk) {
	pk := "triangulate3"
	if r := c.run(pk, "Get2Ddist"); r != nil {
		c.try("Get2Ddist", r.where(), func() {
			a, b, d := r.vec(0), r.vec(1), r.vec(2)
			c.eq("Get2Ddist is the squared norm of the cross product", r.where(), nil, r.ret(0), b.sub(a).cross(d.sub(a)).norm2())
		})
		c.pure(r, false)
	}
	if r := c.run(pk, "Get3Ddist"); r != nil {
		c.try("Get3Ddist", r.where(), func() {
			w := orient(r.vec(0), r.vec(1), r.vec(2), r.vec(3))
			c.eq("Get3Ddist is the scalar triple product", r.where(), nil, r.ret(0), w)
		})
		c.pure(r, false)
	}
	if p := c.pair(pk, "getFurthestFromTwoVectors", "gegovFurthest2"); p != nil {
		c.try("third seed", p.cur.where(), func() {
			a, b := p.cur.vec(1), p.cur.vec(2)
			got := p.cur.retVec(0)
			c.eitherVec("third seed has the greatest area over the first two", p.cur.where(), got, []V3{p.ref.retVec(0)}, func() string {
				return instBest(got, p.cur.pterm(0), func(v V3) *Term { return b.sub(a).cross(v.sub(a)).norm2() }, true, true)
			})
		})
		c.pure(p.cur, false)
	}
	if p := c.pair(pk, "getFurthestFromthreeVectors", "gegovFurthest3"); p != nil {
		c.try("fourth seed", p.cur.where(), func() {
			a, b, d := p.cur.vec(1), p.cur.vec(2), p.cur.vec(3)
			got := p.cur.retVec(0)
			c.eitherVec("fourth seed has the greatest volume over the first three", p.cur.where(), got, []V3{p.ref.retVec(0)}, func() string {
				return instBest(got, p.cur.pterm(0), func(v V3) *Term { return mkAbs(orient(a, b, d, v)) }, true, true)
			})
		})
		c.pure(p.cur, false)
	}
	if p := c.pair(pk, "createInitialTetra", "gegovInitialTetra"); p != nil {
		c.results("initial simplex: X extremes, furthest from their line, furthest from their plane", p, nil)
		c.pure(p.cur, false)
	}
}

// ---------- G04 ----------

// oneSigned: the polynomial in the given non-negative symbols has only
// non-negative (or, when it has negative coefficients, a negative value at a
// witness). It returns +1 non-negative everywhere, -1 negative somewhere (with
// the witness), 0 unknown.
func nonNegative(t *Term, syms []*Term) (int, string) {
	num, den := ratio(t)
	if den != tOne {
		s, why := nonNegative(den, syms)
		if s != 1 {
			if s2, _ := nonNegative(tNeg(den), syms); s2 != 1 {
				return 0, "sign of the denominator: " + why
			}
			num = tNeg(num)
		}
	}
	t = num
	poly := asPoly(t)
	in := map[*Term]bool{}
	for _, s := range syms {
		in[s] = true
	}
	neg := false
	for _, q := range poly {
		odd := false
		for _, f := range q.m {
			if !in[f.a] && f.e%2 != 0 || f.e < 0 {
				odd = true
			}
			if !in[f.a] {
				odd = true
			}
		}
		if odd {
			return 0, "not a polynomial in the extents: " + clip(t.String())
		}
		if q.c.Sign() < 0 {
			neg = true
		}
	}
	if !neg {
		return 1, ""
	}
	vals := []int64{0, 1, 10}
	idx := make([]int, len(syms))
	for {
		m := map[*Term]*Term{}
		desc := ""
		for i, s := range syms {
			m[s] = numInt(vals[idx[i]])
			desc += " " + s.name + "=" + itoa(int(vals[idx[i]]))
		}
		if v, ok := constOf(subst(t, m)); ok && v.Sign() < 0 {
			return -1, "negative at" + desc
		}
		i := 0
		for ; i < len(idx); i++ {
			idx[i]++
			if idx[i] < len(vals) {
				break
			}
			idx[i] = 0
		}
		if i == len(idx) {
			return 0, "sign not decided"
		}
	}
}

// contains: the box [lo, lo+e] lies in the tetrahedron v
func (c *Chk) contains(label, where string, v [4]V3, lo, e V3) {
	syms := append([]*Term{}, e[:]...)
	for i := range v {
		for k := range v[i] {
			num, den := ratio(v[i][k])
			v[i][k] = num
			if den != tOne {
				v[i][k] = tMul(num, tInv(den))
			}
		}
	}
	vol := orient(v[0], v[1], v[2], v[3])
	s, why := nonNegative(vol, syms)
	if s != 1 {
		s2, _ := nonNegative(tNeg(vol), syms)
		if s2 == 1 {
			s = -1
		} else {
			s = 0
		}
	}
	if s == 0 {
		if w := outsideAt(v, lo, e); w != "" {
			c.fail(label+": every corner of the box on the inner side of every face", where, w)
			return
		}
		c.unknown(label, where, "orientation of the tetrahedron: "+why)
		return
	}
	// not flat for a box with interior
	one := map[*Term]*Term{}
	for _, x := range syms {
		one[x] = tOne
	}
	if q, ok := constOf(subst(vol, one)); !ok || q.Sign() == 0 {
		c.fail(label+": not flat", where, "the tetrahedron around a unit box has volume "+vol.String())
		return
	}
	for f := 0; f < 4; f++ {
		for k := 0; k < 8; k++ {
			p := lo
			name := ""
			for d := 0; d < 3; d++ {
				if k>>uint(d)&1 == 1 {
					p[d] = tAdd(lo[d], e[d])
					name += "+"
				} else {
					name += "-"
				}
			}
			w := v
			w[f] = p
			t := tScale(orient(w[0], w[1], w[2], w[3]), big.NewRat(int64(s), 1))
			l := label + ": corner " + name + " on the inner side of the face opposite vertex " + itoa(f)
			switch r, why := nonNegative(t, syms); r {
			case 1:
				c.ok(l, where)
			case -1:
				c.fail(l, where, why)
			default:
				if w := outsideAt(v, lo, e); w != "" {
					c.fail(l, where, w)
					return
				}
				c.unknown(l, where, why)
			}
		}
	}
}

// outsideAt: a box, given by numbers, with a corner strictly outside the
// tetrahedron; the terms evaluate to constants there.
func outsideAt(v [4]V3, lo, e V3) string {
	for _, l := range []int64{0, -1, 1, -7, 9} {
		for _, w := range []int64{1, 10} {
			m := map[*Term]*Term{}
			for d := range lo {
				m[lo[d]], m[e[d]] = numInt(l+int64(d)), numInt(w+int64(d))
			}
			var q [4]V3
			for i := range v {
				q[i] = v[i].subst(m)
			}
			vol, ok := constOf(orient(q[0], q[1], q[2], q[3]))
			if !ok {
				continue
			}
			at := "for the box from " + itoa(int(l)) + " of extent " + itoa(int(w)) + " (rising by one per axis)"
			if vol.Sign() == 0 {
				return "flat " + at
			}
			for f := 0; f < 4; f++ {
				for k := 0; k < 8; k++ {
					p := lo.subst(m)
					for d := 0; d < 3; d++ {
						if k>>uint(d)&1 == 1 {
							p[d] = tAdd(p[d], subst(e[d], m))
						}
					}
					x := q
					x[f] = p
					if s, ok := constOf(orient(x[0], x[1], x[2], x[3])); ok && s.Sign()*vol.Sign() < 0 {
						return "corner " + itoa(k) + " outside the face opposite vertex " + itoa(f) + " " + at
					}
				}
			}
		}
	}
	return ""
}

// strayPoint: three points, given by numbers, one of which lies strictly
// outside the tetrahedron whose vertices depend on the list of points
func strayPoint(v [4]V3, list *Term) string {
	sample := [][3]int64{{-3, 40, 5}, {8, -1, 60}, {90, 7, -2}}
	for rot := 0; rot < 3; rot++ {
		m := map[*Term]*Term{}
		ps := seqPoints(list, 3)
		for i, p := range ps {
			for k := range p {
				m[p[k]] = numInt(sample[(i+rot)%3][k])
			}
		}
		at := func(t *Term) *Term { return subst(instantiate(t, list, 3), m) }
		var q [4]V3
		for i := range v {
			for k := range v[i] {
				q[i][k] = at(v[i][k])
			}
		}
		vol, ok := constOf(orient(q[0], q[1], q[2], q[3]))
		if !ok || vol.Sign() == 0 {
			continue
		}
		for i, p := range ps {
			p = p.subst(m)
			for f := 0; f < 4; f++ {
				x := q
				x[f] = p
				if s, ok := constOf(orient(x[0], x[1], x[2], x[3])); ok && s.Sign()*vol.Sign() < 0 {
					return "of three given points, point " + itoa(i) + " lies outside the face opposite vertex " + itoa(f)
				}
			}
		}
	}
	return ""
}

func checkG04(c *Chk) {
	mk := func(n string) V3 {
		return V3{mkVar(n+"x", SNum, false), mkVar(n+"y", SNum, false), mkVar(n+"z", SNum, false)}
	}
	lo, e := mk("lo"), mk("e")
	hi := lo.add(e)
	if r := c.run("meshing", "helper.computerInitialTetraPoints"); r != nil {
		c.try("enclosing tetrahedron", r.where(), func() {
			T := P.typ("meshing", "helper")
			h := r.pterm(0)
			m := map[*Term]*Term{}
			mn, mx := vec(fld(h, T, "min")), vec(fld(h, T, "max"))
			for k := range axes {
				m[mn[k]], m[mx[k]] = lo[k], hi[k]
			}
			var v [4]V3
			for i := range v {
				v[i] = r.retVec(i).subst(m)
			}
			c.contains("meshing", r.where(), v, lo, e)
		})
		c.pure(r, false)
	}
	// the points englobe puts first are the vertices of a tetrahedron around the
	// box of the very points it is given
	if r, x := c.run("meshing", "englobe"), c.pair("meshing", "helper.findExtremas", "gegovExtremas"); r != nil && x != nil {
		c.try("auxiliary points", r.where(), func() {
			T := P.typ("meshing", "helper")
			ps := r.post(0)
			m := map[*Term]*Term{}
			for _, q := range []*Run{x.cur, x.ref} {
				h := q.post(0)
				in := map[*Term]*Term{q.pterm(1): r.pterm(0)}
				mn, mx := vec(fld(h, T, "min")).subst(in), vec(fld(h, T, "max")).subst(in)
				for k := range axes {
					m[mn[k]], m[mx[k]] = lo[k], hi[k]
				}
			}
			var v [4]V3
			for i := range v {
				v[i] = vec(selElem(ps, vecsT(), numInt(int64(i)))).subst(m)
			}
			if w := strayPoint(v, r.pterm(0)); w != "" {
				c.fail("meshing: auxiliary points: every point inside their tetrahedron", r.where(), w)
				return
			}
			c.contains("meshing: auxiliary points", r.where(), v, lo, e)
		})
	}
	if r, g := c.run("triangulate3", "constructEnglobingTetra"), c.run("triangulate3", "computeBoundingBoxForVectors"); r != nil && g != nil {
		c.try("enclosing tetrahedron", r.where(), func() {
			m := map[*Term]*Term{}
			mn, mx := g.retVec(0), g.retVec(1)
			for k := range axes {
				m[mn[k]], m[mx[k]] = lo[k], hi[k]
			}
			T := P.typ("shape", "Mesh")
			vs := fld(r.ret(0), T, "Vertices")
			ctx := newCtx()
			for _, x := range e {
				ctx.assume(bLt(x, tZero), false)
			}
			c.eq("triangulate3: four vertices", r.where(), nil, mkLen(vs), numInt(4))
			var v [4]V3
			for i := range v {
				v[i] = vec(selElem(vs, vecsT(), numInt(int64(i)))).subst(m)
				for k := range v[i] {
					v[i][k] = ctx.simp(v[i][k])
				}
			}
			pc := tFalse
			for _, ev := range r.e.events {
				if ev.kind == "panic" {
					pc = bOr(pc, subst(ev.cond(), m))
				}
			}
			c.eq("triangulate3: no panic", r.where(), ctx, pc, tFalse)
			c.contains("triangulate3", r.where(), v, lo, e)
			idx := fld(r.ret(0), T, "Indices")
			c.faceList("triangulate3: the four faces", r.where(), idx)
		})
	}
}

// faceList: 12 constant indices listing every 3-subset of 0..3 once
func (c *Chk) faceList(label, where string, idx *Term) {
	n, ok := isConstInt(mkLen(idx))
	if !ok {
		c.unknown(label, where, "number of indices not constant")
		return
	}
	seen := map[string]int{}
	for i := int64(0); i < n; i++ {
		if _, ok := isConstInt(mkSel(idx, numInt(i), SNum, true)); !ok {
			c.unknown(label, where, "indices not constant")
			return
		}
	}
	if n != 12 {
		c.fail(label, where, "lists "+itoa(int(n))+" indices")
		return
	}
	for i := int64(0); i < n; i += 3 {
		var b [4]bool
		for k := int64(0); k < 3; k++ {
			x, _ := isConstInt(mkSel(idx, numInt(i+k), SNum, true))
			if x < 0 || x > 3 {
				c.fail(label, where, "index "+itoa(int(x)))
				return
			}
			b[x] = true
		}
		key := ""
		for k, y := range b {
			if y {
				key += itoa(k)
			}
		}
		seen[key]++
	}
	c.hold(label, where, len(seen) == 4 && seen["012"] == 1 && seen["013"] == 1 && seen["023"] == 1 && seen["123"] == 1, "the faces listed are not the four faces")
}

func checkM05(c *Chk) {
	if p := c.pair("meshing", "getNearestPoint", "gegovNearest"); p != nil {
		c.try("nearest point", p.cur.where(), func() {
			q := p.cur.vec(1)
			got := p.cur.retVec(0)
			wants := []V3{p.ref.retVec(0)}
			if p2 := c.pair("meshing", "getNearestPoint", "gegovNearestStrict"); p2 != nil {
				wants = append(wants, p2.ref.retVec(0))
			}
			c.eitherVec("nearest point has the least distance", p.cur.where(), got, wants, func() string {
				return instBest(got, p.cur.pterm(0), func(v V3) *Term { return mkSqrt(v.sub(q).norm2()) }, false, false)
			})
		})
		c.pure(p.cur, false)
	}
	if r := c.run("meshing", "Meshing.flip14"); r != nil {
		c.try("flip", r.where(), func() {
			T := P.typ("meshing", "Meshing")
			o, n := r.pterm(0), r.post(0)
			c.eq("the flip appends the point", r.where(), nil, fld(n, T, "vertices"), mkCat(fld(o, T, "vertices"), mkUnit(r.pterm(1))))
			c.flipFaces("the flip lists every face of the four tetrahedra in both orientations", r.where(), expandConst(fld(n, T, "indices")))
		})
		c.pure(r, false, 0)
	}
	if r := c.run("meshing", "duplicateInReverse"); r != nil {
		c.try("reversal", r.where(), func() {
			s := r.pterm(0)
			got := r.post(0)
			for n := int64(0); n <= 4; n++ {
				w := instantiate(s, s, n)
				items := []*Term{w}
				for i := n - 1; i >= 0; i-- {
					items = append(items, mkUnit(mkSel(s, numInt(i), SNum, true)))
				}
				g := instantiate(got, s, n)
				l := "reversed copy of " + itoa(int(n)) + " indices"
				c.eq(l+": length", r.where(), nil, subst(mkLen(g), map[*Term]*Term{mkLen(s): numInt(n)}), numInt(2*n))
				for i := int64(0); i < 2*n; i++ {
					j := i
					if i >= n {
						j = 2*n - 1 - i
					}
					c.eq(l+": element "+itoa(int(i)), r.where(), nil, subst(mkSel(g, numInt(i), SNum, true), map[*Term]*Term{mkLen(s): numInt(n)}), mkSel(s, numInt(j), SNum, true))
				}
			}
		})
	}
}

// flipFaces: each face of the four tetrahedra {i,j,k,4} twice per tetrahedron,
// once in each orientation.
func (c *Chk) flipFaces(label, where string, idx *Term) {
	items, ok := seqItems(idx, func(i *Term) *Term { return mkSel(idx, i, SNum, true) })
	if !ok {
		c.unknown(label, where, "number of indices not constant")
		return
	}
	count := map[string]int{}
	if len(items)%3 != 0 {
		c.fail(label, where, itoa(len(items))+" indices")
		return
	}
	for i := 0; i < len(items); i += 3 {
		var t [3]int
		for k := range t {
			v, ok := isConstInt(items[i+k])
			if !ok {
				c.unknown(label, where, "index not constant")
				return
			}
			t[k] = int(v)
		}
		for t[0] > t[1] || t[0] > t[2] {
			t = [3]int{t[1], t[2], t[0]}
			if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
				break
			}
		}
		count[itoa(t[0])+","+itoa(t[1])+","+itoa(t[2])]++
	}
	want := map[string]int{}
	for _, q := range [][3]int{{0, 1, 2}, {0, 1, 3}, {1, 2, 3}, {0, 2, 3}} {
		f := [][3]int{q, {q[0], q[1], 4}, {q[1], q[2], 4}, {q[0], q[2], 4}}
		for _, t := range f {
			want[itoa(t[0])+","+itoa(t[1])+","+itoa(t[2])]++
			want[itoa(t[0])+","+itoa(t[2])+","+itoa(t[1])]++
		}
	}
	for k, n := range want {
		if count[k] != n {
			c.fail(label, where, "face ("+k+") listed "+itoa(count[k])+" times instead of "+itoa(n))
			return
		}
	}
	for k := range count {
		if want[k] == 0 {
			c.fail(label, where, "unexpected face ("+k+")")
			return
		}
	}
	c.ok(label, where)
}
