package main

// Linear facts: a conjunction of linear inequalities over uninterpreted
// quantities (rational simplex with strict bounds; integer inequalities are
// tightened). Used to judge invariants; running out of range reads as
// "satisfiable", that is as nothing being implied.

import (
	"math/big"
	"sort"
)

type frac struct{ n, d int64 }

type fracOverflow struct{}

func (a frac) norm() frac {
	if a.d < 0 {
		a.n, a.d = -a.n, -a.d
	}
	x, y := a.n, a.d
	if x < 0 {
		x = -x
	}
	for y != 0 {
		x, y = y, x%y
	}
	if x > 1 {
		a.n, a.d = a.n/x, a.d/x
	}
	const lim = 1 << 31
	if a.n > lim || a.n < -lim || a.d > lim {
		panic(fracOverflow{})
	}
	return a
}
func (a frac) add(b frac) frac { return frac{a.n*b.d + b.n*a.d, a.d * b.d}.norm() }
func (a frac) mul(b frac) frac { return frac{a.n * b.n, a.d * b.d}.norm() }
func (a frac) neg() frac       { return frac{-a.n, a.d} }
func (a frac) inv() frac       { return frac{a.d, a.n}.norm() }
func (a frac) sgn() int {
	switch {
	case a.n > 0:
		return 1
	case a.n < 0:
		return -1
	}
	return 0
}

type dval struct{ v, e frac } // v + e·δ

func (a dval) add(b dval) dval   { return dval{a.v.add(b.v), a.e.add(b.e)} }
func (a dval) scale(f frac) dval { return dval{a.v.mul(f), a.e.mul(f)} }
func (a dval) less(b dval) bool {
	d := a.v.add(b.v.neg()).sgn()
	if d != 0 {
		return d < 0
	}
	return a.e.add(b.e.neg()).sgn() < 0
}

// lcon: co·x + k >= 0, > 0 when strict
type lcon struct {
	co     map[*Term]frac
	k      frac
	strict bool
}

// linCon: t >= 0 or t > 0
func linCon(t *Term, strict bool) lcon {
	r := lcon{co: map[*Term]frac{}, k: frac{0, 1}, strict: strict}
	den := big.NewInt(1)
	ints := true
	for _, q := range asPoly(t) {
		den = new(big.Int).Mul(den, new(big.Int).Div(q.c.Denom(), new(big.Int).GCD(nil, nil, den, q.c.Denom())))
	}
	for _, q := range asPoly(t) {
		c := new(big.Rat).Mul(q.c, new(big.Rat).SetInt(den))
		if !c.Num().IsInt64() {
			panic(fracOverflow{})
		}
		f := frac{c.Num().Int64(), 1}.norm()
		if len(q.m) == 0 {
			r.k = f
			continue
		}
		var at *Term
		if len(q.m) == 1 && q.m[0].e == 1 {
			at = q.m[0].a
		} else {
			m := newAcc()
			m.add(q.m, big.NewRat(1, 1))
			at = m.term()
		}
		ints = ints && at.isInt
		r.co[at] = f
	}
	if ints && strict {
		r.k, r.strict = r.k.add(frac{-1, 1}), false
	}
	return r
}

// satisfiable: some values of the quantities meet every inequality
func satisfiable(cs []lcon) (res bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(fracOverflow); !is {
				panic(x)
			}
			res = true
		}
	}()
	zero := frac{0, 1}
	idx := map[*Term]int{}
	var atoms []*Term
	for _, c := range cs {
		for a := range c.co {
			if _, ok := idx[a]; !ok {
				idx[a] = 0
				atoms = append(atoms, a)
			}
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	for i, a := range atoms {
		idx[a] = i
	}
	n := len(atoms)
	type row struct {
		basic int
		co    map[int]frac
	}
	var rows []*row
	lo := map[int]dval{}
	val := make([]dval, n, n+len(cs))
	for i := range val {
		val[i] = dval{zero, zero}
	}
	for _, c := range cs {
		if len(c.co) == 0 {
			if c.k.sgn() < 0 || c.strict && c.k.sgn() == 0 {
				return false
			}
			continue
		}
		id := len(val)
		val = append(val, dval{zero, zero})
		r := &row{id, map[int]frac{}}
		for a, f := range c.co {
			r.co[idx[a]] = f
		}
		rows = append(rows, r)
		e := zero
		if c.strict {
			e = frac{1, 1}
		}
		lo[id] = dval{c.k.neg(), e}
	}
	for steps := 0; steps < 2000; steps++ {
		// smallest violated basic variable
		var r *row
		for _, q := range rows {
			if l, ok := lo[q.basic]; ok && val[q.basic].less(l) && (r == nil || q.basic < r.basic) {
				r = q
			}
		}
		if r == nil {
			return true
		}
		// smallest nonbasic that can raise it
		pick := -1
		for j, f := range r.co {
			ok := f.sgn() > 0
			if f.sgn() < 0 {
				l, has := lo[j]
				ok = !has || l.less(val[j])
			}
			if f.sgn() != 0 && ok && (pick < 0 || j < pick) {
				pick = j
			}
		}
		if pick < 0 {
			return false
		}
		// pivot
		b := r.basic
		f := r.co[pick]
		theta := lo[b].add(val[b].scale(frac{-1, 1})).scale(f.inv())
		val[b] = lo[b]
		val[pick] = val[pick].add(theta)
		for _, q := range rows {
			if q == r {
				continue
			}
			if g, ok := q.co[pick]; ok && g.sgn() != 0 {
				val[q.basic] = val[q.basic].add(theta.scale(g))
			}
		}
		nr := map[int]frac{b: f.inv()}
		for j, g := range r.co {
			if j != pick && g.sgn() != 0 {
				nr[j] = g.mul(f.inv()).neg()
			}
		}
		r.basic, r.co = pick, nr
		for _, q := range rows {
			if q == r {
				continue
			}
			g, ok := q.co[pick]
			if !ok {
				continue
			}
			delete(q.co, pick)
			if g.sgn() == 0 {
				continue
			}
			for j, h := range nr {
				s := zero
				if old, ok := q.co[j]; ok {
					s = old
				}
				s = s.add(g.mul(h))
				if s.sgn() == 0 {
					delete(q.co, j)
				} else {
					q.co[j] = s
				}
			}
		}
	}
	return true
}

// Facts: what is known, as inequalities
type Facts struct {
	cons []lcon
	ts   []*Term        // the terms seen, for the quantities they mention
	more func(f *Facts) // facts about the quantities mentioned
	done map[string]bool
}

func (f *Facts) clone() *Facts {
	g := &Facts{more: f.more, done: map[string]bool{}}
	g.cons = append([]lcon{}, f.cons...)
	g.ts = append([]*Term{}, f.ts...)
	for k := range f.done {
		g.done[k] = true
	}
	return g
}

// ge: t >= 0 (t > 0)
func (f *Facts) ge(t *Term, strict bool) {
	f.cons = append(f.cons, linCon(t, strict))
	f.ts = append(f.ts, t)
}

func (f *Facts) eq(t *Term) { f.ge(t, false); f.ge(tScale(t, big.NewRat(-1, 1)), false) }

// literal: a decided atom
func (f *Facts) literal(at *Term, v bool) {
	t := at.args[0]
	switch {
	case at.op == OLt0 && v:
		f.ge(tScale(t, big.NewRat(-1, 1)), true)
	case at.op == OLt0:
		f.ge(t, false)
	case at.op == OEq0 && v:
		f.eq(t)
	}
}

// sat: the facts have a model, as far as linear arithmetic tells
func (f *Facts) sat() bool { return satisfiable(f.cons) }

// proves: t >= 0 (t > 0) follows
func (f *Facts) proves(t *Term, strict bool) bool {
	g := append(append([]lcon{}, f.cons...), linCon(tScale(t, big.NewRat(-1, 1)), !strict))
	return !satisfiable(g)
}

func (f *Facts) provesEq(t *Term) bool {
	if c, ok := constOf(t); ok {
		return c.Sign() == 0
	}
	return f.proves(t, false) && f.proves(tScale(t, big.NewRat(-1, 1)), false)
}

// close adds what holds of the quantities mentioned, in extra too
func (f *Facts) close(extra ...*Term) {
	f.ts = append(f.ts, extra...)
	if f.more != nil {
		f.more(f)
	}
}
