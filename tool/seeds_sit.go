package main

// Definite points: where the loops that choose the seeds cannot be compared
// with the specified ones as they stand, the two terms are evaluated on a few
// sets of points with fixed coordinates, with the radius and the centre of a
// circle given. Only a difference in what was fully computed counts.

import "math/big"

const farAway = 1000000007

// settle: the values after the loops, in order, of the variables they change
func settle(ls []*LoopInfo, m map[*Term]*Term, fold func(*Term) *Term) bool {
	ev := func(t *Term, n map[*Term]*Term) *Term {
		// the symbols of this loop first: they are independent of the rest
		return fold(subst(subst(t, n), m))
	}
	for _, l := range ls {
		if len(l.exits) > 1 {
			return false
		}
		state := make([]*Term, len(l.raw))
		for i, v := range l.raw {
			state[i] = ev(v.init, nil)
		}
		for k := int64(0); ; k++ {
			if k > 20 {
				return false
			}
			n := map[*Term]*Term{l.K: numInt(k)}
			for i, v := range l.raw {
				n[baseSym(v.sym)] = state[i]
			}
			c := ev(l.cont, n)
			if c == tFalse {
				break
			}
			if c != tTrue {
				return false
			}
			next := make([]*Term, len(l.raw))
			for i, v := range l.raw {
				next[i] = ev(v.step, n)
			}
			state = next
		}
		for i, v := range l.raw {
			m[baseSym(v.sym)] = state[i]
		}
	}
	return true
}

type pt2 struct{ x, y int64 }

func (p pt2) term() *Term {
	return mkTup("Vector", numInt(p.x), numInt(p.y), tZero)
}

// circle: centre and squared radius; no circle when the points are on a line
func circle(a, b, c V3) (V3, *Term) {
	n := func(t *Term) *big.Rat {
		v, ok := constOf(t)
		if !ok {
			panic(undecided("no definite point"))
		}
		return v
	}
	mul := func(x, y *big.Rat) *big.Rat { return new(big.Rat).Mul(x, y) }
	sub := func(x, y *big.Rat) *big.Rat { return new(big.Rat).Sub(x, y) }
	add := func(x, y *big.Rat) *big.Rat { return new(big.Rat).Add(x, y) }
	dx, dy := sub(n(b[0]), n(a[0])), sub(n(b[1]), n(a[1]))
	ex, ey := sub(n(c[0]), n(a[0])), sub(n(c[1]), n(a[1]))
	d := mul(big.NewRat(2, 1), sub(mul(dx, ey), mul(dy, ex)))
	if d.Sign() == 0 {
		return V3{tZero, tZero, tZero}, numInt(farAway)
	}
	bl, cl := add(mul(dx, dx), mul(dy, dy)), add(mul(ex, ex), mul(ey, ey))
	x := new(big.Rat).Quo(sub(mul(ey, bl), mul(dy, cl)), d)
	y := new(big.Rat).Quo(sub(mul(dx, cl), mul(ex, bl)), d)
	return V3{numRat(add(n(a[0]), x)), numRat(add(n(a[1]), y)), tZero}, numRat(add(mul(x, x), mul(y, y)))
}

// known2: circles through definite points
func known2(t *Term) *Term {
	for {
		m := map[*Term]*Term{}
		for _, x := range subTerms(t) {
			if x.op != OFn || len(x.args) != 3 {
				continue
			}
			r, ce := hasPfx(x.name, "uf:triangulate2.circumradius"), hasPfx(x.name, "uf:triangulate2.circumcenter")
			if !r && !ce {
				continue
			}
			def := true
			var v [3]V3
			for i, a := range x.args {
				if a.op != OTup || len(a.args) < 2 {
					def = false
					break
				}
				v[i] = vec(a)
				for _, q := range v[i][:2] {
					if _, ok := constOf(q); !ok {
						def = false
					}
				}
			}
			if !def {
				continue
			}
			c, q := circle(v[0], v[1], v[2])
			if r {
				m[x] = q
			} else {
				m[x] = mkTup("Vector", c[0], c[1], c[2])
			}
		}
		if len(m) == 0 {
			return t
		}
		t = subst(t, m)
	}
}

func (c *Chk) seedSituations(x *construction) {
	if x.a == nil || x.b == nil || x.a.seed == nil || len(x.a.pre) == 0 {
		return
	}
	var sets [][]pt2
	r := int64(12345)
	rnd := func(n int64) int64 {
		r = (r*1103515245 + 12345) % 2147483648
		return (r / 65536) % n
	}
	for i := 0; i < 14; i++ {
		var s []pt2
		for j := 0; j < 4+i%3; j++ {
			p := pt2{rnd(199) - 99, rnd(199) - 99}
			if i%4 == 2 {
				p.x, p.y = p.x+400, p.y-300
			} else if i%4 == 3 {
				p.x, p.y = p.x-300, p.y+400
			}
			s = append(s, p)
		}
		sets = append(sets, s)
	}
	sets = append(sets,
		[]pt2{{0, 0}, {1, 1}, {2, 2}, {5, 5}},
		[]pt2{{10, 0}, {0, 1}, {0, 1}, {-9, 2}, {3, 40}, {-1, -37}},
		[]pt2{{-40, -3}, {41, 2}, {1, 44}, {2, -47}, {2, -47}, {13, 5}, {13, 5}},
	)
	label := "choice of the seeds, on definite points"
	for _, s := range sets {
		a, b := x.seeded(x.a, s), x.seeded(x.b, s)
		if b == nil {
			panic("specification: no seeds")
		}
		if a == nil || tied(s) {
			continue
		}
		for i := range b.vals {
			if a.vals[i] == nil || b.vals[i] == nil || a.vals[i] == b.vals[i] {
				continue
			}
			what := []string{"the first seed", "the second seed", "the third seed", "an error", "the distances"}[i]
			c.fail(label, x.a.pre[0].where(), what+" is "+a.vals[i].String()+" where "+b.vals[i].String()+" is specified, for the points "+ptsText(s))
			return
		}
	}
}

func ptsText(s []pt2) string {
	t := ""
	for _, p := range s {
		t += " (" + itoa(int(p.x)) + ", " + itoa(int(p.y)) + ")"
	}
	return t
}

type seededAt struct {
	vals [5]*Term
}

// seeded: what is computed for the points; nil when it cannot be told
func (x *construction) seeded(s *advSide, pts []pt2) *seededAt {
	e := s.r.e
	loc := s.r.params[0].(*Ptr).Loc
	var u []*Term
	for _, p := range pts {
		u = append(u, mkUnit(p.term()))
	}
	var list *Term
	for _, l := range s.pre {
		anyTerm(l.cont, func(t *Term) bool {
			if t.op == OFn && t.name == "len" && list == nil {
				list = t.args[0]
			}
			return false
		})
	}
	if list == nil || list != e.load(s.seed.st, triField(loc, "Vectors")) {
		return nil
	}
	m := map[*Term]*Term{list: mkCat(u...), tInf: numInt(farAway)}
	if !settle(s.pre, m, known2) {
		return nil
	}
	full := func(t *Term) *Term { return known2(subst(t, m)) }
	out := &seededAt{}
	switch full(s.seed.cond()) {
	case tTrue:
		out.vals[3] = tZero
	case tFalse:
		out.vals[3] = tOne
		return out
	default:
		return nil
	}
	for i := 0; i < 3; i++ {
		if k, ok := isConstInt(full(s.seed.args[i])); ok && k >= 0 && int(k) < len(pts) {
			out.vals[i] = pts[k].term()
		}
	}
	ds := full(e.load(s.seed.st, triField(loc, "squaredDistances")))
	var v []*Term
	for k := range pts {
		d := mkSel(ds, numInt(int64(k)), SNum, false)
		if _, ok := constOf(d); !ok {
			v = nil
			break
		}
		v = append(v, d)
	}
	if v != nil {
		out.vals[4] = mkTup("distances", v...)
	}
	return out
}

// tied: two different points do equally well as a seed
func tied(s []pt2) bool {
	lo, hi := s[0], s[0]
	for _, p := range s {
		lo.x, lo.y, hi.x, hi.y = min(lo.x, p.x), min(lo.y, p.y), max(hi.x, p.x), max(hi.y, p.y)
	}
	d := func(p, q pt2) int64 { return (p.x-q.x)*(p.x-q.x) + (p.y-q.y)*(p.y-q.y) }
	least := func(skip []pt2, f func(p pt2) *big.Rat) (pt2, bool) {
		var best pt2
		var v *big.Rat
		tie := false
	next:
		for _, p := range s {
			for _, q := range skip {
				if p == q {
					continue next
				}
			}
			w := f(p)
			switch {
			case v == nil || w.Cmp(v) < 0:
				best, v, tie = p, w, false
			case w.Cmp(v) == 0 && p != best:
				tie = true
			}
		}
		return best, tie
	}
	a, t1 := least(nil, func(p pt2) *big.Rat {
		return big.NewRat(d(pt2{2 * p.x, 2 * p.y}, pt2{lo.x + hi.x, lo.y + hi.y}), 1)
	})
	b, t2 := least([]pt2{a}, func(p pt2) *big.Rat { return big.NewRat(d(p, a), 1) })
	_, t3 := least([]pt2{a, b}, func(p pt2) *big.Rat {
		_, r := circle(vec(a.term()), vec(b.term()), vec(p.term()))
		v, _ := constOf(r)
		return v
	})
	if t3 {
		// on a line with the first two, no circle at all
		for _, p := range s {
			if (b.x-a.x)*(p.y-a.y) != (b.y-a.y)*(p.x-a.x) {
				return true
			}
		}
	}
	return t1 || t2
}
