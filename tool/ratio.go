package main

import "math/big"

// ratio writes a rational function as numerator over denominator, cancelling
// the radicands and denominators that occur in it.
func ratio(t *Term) (num, den *Term) {
	z := mkVar("ζratio", SNum, false)
	var cand []*Term
	anyTerm(t, func(x *Term) bool {
		if x.op == OFn && (x.name == "inv" || x.name == "sqrt") {
			cand = append(cand, clearDenoms(x.args[0]))
		}
		return false
	})
	p := clearDenoms(tSub(t, z))
	n, d := newAcc(), newAcc()
	for _, q := range asPoly(p) {
		hasZ := false
		rest := mono{}
		for _, f := range q.m {
			if f.a == z {
				hasZ = true
				if f.e != 1 {
					panic(undecided("not a ratio"))
				}
			} else {
				rest = append(rest, f)
			}
		}
		if hasZ {
			d.add(rest, new(big.Rat).Neg(q.c))
		} else {
			n.add(rest, q.c)
		}
	}
	num, den = n.term(), d.term()
	if isZero(num) {
		return tZero, tOne
	}
	for round := 0; round < 20; round++ {
		changed := false
		if a, b, ok := cancelMono(num, den); ok {
			num, den, changed = a, b, true
		}
		for _, c := range cand {
			if _, isC := constOf(c); isC {
				continue
			}
			a, ok1 := polyDiv(num, c)
			b, ok2 := polyDiv(den, c)
			if ok1 && ok2 {
				num, den, changed = a, b, true
			}
		}
		// radicals: multiply by the radical when every term lacks or has it
		if !changed {
			break
		}
	}
	if q, ok := polyDiv(num, den); ok {
		return q, tOne
	}
	return num, den
}

func cancelMono(num, den *Term) (*Term, *Term, bool) {
	min := map[*Term]int{}
	for i, q := range append(append([]pterm{}, asPoly(num)...), asPoly(den)...) {
		cur := map[*Term]int{}
		for _, f := range q.m {
			cur[f.a] = f.e
		}
		if i == 0 {
			min = cur
			continue
		}
		for a, e := range min {
			if cur[a] < e {
				min[a] = cur[a]
			}
		}
	}
	any := false
	for _, e := range min {
		if e > 0 {
			any = true
		}
	}
	if !any {
		return num, den, false
	}
	strip := func(t *Term) *Term {
		a := newAcc()
		for _, q := range asPoly(t) {
			m := mono{}
			for _, f := range q.m {
				if e := f.e - min[f.a]; e != 0 {
					f.e = e
					m = append(m, f)
				}
			}
			a.add(m, q.c)
		}
		return a.term()
	}
	return strip(num), strip(den), true
}

func monoExp(m mono) map[*Term]int {
	o := map[*Term]int{}
	for _, f := range m {
		o[f.a] += f.e
	}
	return o
}

// monoCmp: lexicographic order by atom number
func monoCmp(a, b mono) int {
	x, y := monoExp(a), monoExp(b)
	var best *Term
	d := 0
	for _, m := range []map[*Term]int{x, y} {
		for t := range m {
			if x[t] != y[t] && (best == nil || t.id < best.id) {
				best, d = t, x[t]-y[t]
			}
		}
	}
	return d
}

func leadMono(t *Term) pterm {
	p := asPoly(t)
	l := p[0]
	for _, q := range p[1:] {
		if monoCmp(q.m, l.m) > 0 {
			l = q
		}
	}
	return l
}

// polyDiv: exact quotient of polynomials
func polyDiv(a, b *Term) (*Term, bool) {
	if isZero(b) {
		return nil, false
	}
	if isZero(a) {
		return tZero, true
	}
	lb := leadMono(b)
	q := tZero
	for i := 0; i < 400; i++ {
		checkDeadline()
		if isZero(a) {
			return q, true
		}
		la := leadMono(a)
		ea := monoExp(la.m)
		for _, f := range lb.m {
			ea[f.a] -= f.e
			if ea[f.a] < 0 {
				return nil, false
			}
		}
		m := mono{}
		for _, f := range la.m {
			if e := ea[f.a]; e > 0 {
				f.e = e
				m = append(m, f)
			}
		}
		t := fromPoly([]pterm{{m, new(big.Rat).Quo(la.c, lb.c)}})
		q = tAdd(q, t)
		n := tSub(a, tMul2(t, b))
		if !isZero(n) && monoCmp(leadMono(n).m, la.m) >= 0 {
			return nil, false
		}
		a = n
	}
	return nil, false
}
