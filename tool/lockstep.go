package main

// Lockstep comparison: walks two value graphs of the same skeleton together and
// collects the places where they positively differ. Bound variables are named
// by nesting depth, so equal skeletons use equal names.

type diffPair struct {
	x, y *Term
	why  string
}

type lockstep struct {
	pairs []diffPair
	steps int
}

const maxPairs = 3

// different: the graphs have one skeleton and differ in a few places whose
// values are interpreted on both sides.
func (l *lockstep) run(ctx *Ctx, a, b *Term) (cmpResult, string) {
	if !l.diff(ctx, a, b, 0) {
		return cmpUnclear, ""
	}
	if len(l.pairs) == 0 {
		return cmpEqual, ""
	}
	return cmpDiffer, l.pairs[0].why
}

func (l *lockstep) pair(x, y *Term, why string) bool {
	for _, p := range l.pairs {
		if p.x == x && p.y == y {
			return true
		}
	}
	if vague(x) != "" && !subsetParts(x, y) || vague(y) != "" && !subsetParts(y, x) {
		return false
	}
	if x.op == OSub && x.args[0] == y && isOpaquePart(y) || y.op == OSub && y.args[0] == x && isOpaquePart(x) {
		return false // may be all of it
	}
	l.pairs = append(l.pairs, diffPair{x, y, why})
	return len(l.pairs) <= maxPairs
}

// subsetParts: what is uninterpreted in x also occurs in y
func subsetParts(x, y *Term) bool {
	py := map[*Term]bool{}
	anyTerm(y, func(t *Term) bool { py[t] = true; return false })
	ok := true
	anyTerm(x, func(t *Term) bool {
		if isOpaquePart(t) && !py[t] {
			ok = false
		}
		return !ok
	})
	return ok
}

func (l *lockstep) all(ctx *Ctx, as, bs []*Term, d int) bool {
	if len(as) != len(bs) {
		return false
	}
	for i := range as {
		if !l.diff(ctx, as[i], bs[i], d) {
			return false
		}
	}
	return true
}

func (l *lockstep) diff(ctx *Ctx, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	checkDeadline()
	l.steps++
	if l.steps > 5000 || d > 80 {
		return false
	}
	same := a.op == b.op && a.name == b.name && a.sort == b.sort && len(a.args) == len(b.args)
	da, db := minus(opaqueParts(a), opaqueParts(b)), minus(opaqueParts(b), opaqueParts(a))
	if len(da) == 0 && len(db) == 0 {
		ok, why := ctx.tryEqual(a, b)
		if ok {
			return true
		}
		return l.pair(a, b, why)
	}
	if same {
		switch a.op {
		case OSum, OComp:
			if a.args[0] != b.args[0] {
				return false
			}
			if !l.diff(ctx, a.args[1], b.args[1], d+1) {
				return false
			}
			sub := ctx.clone()
			if a.args[1] != tOmega {
				sub = ctx.boundVar(a.args[0], a.args[1])
			}
			return l.diff(sub, a.args[2], b.args[2], d+1)
		case OFold:
			return l.folds(ctx, a, b, d)
		case OTup, OUnit, OCat, OFn, OSel, OStore, OFill, OSub, OSCat, OHolds, OEqT:
			return l.all(ctx, a.args, b.args, d+1)
		}
	}
	// decisions and polynomials: match the parts, then compare what is left
	if a.op != b.op && a.op != OIte && b.op != OIte && a.op != OPoly && b.op != OPoly || len(da) != len(db) || len(da) > 6 {
		return false
	}
	m := map[*Term]*Term{}
	used := map[*Term]bool{}
	for _, y := range db {
		var best *lockstep
		var bx *Term
		for _, x := range da {
			if used[x] || x.op != y.op || x.name != y.name || len(x.args) != len(y.args) || x.sort != y.sort {
				continue
			}
			t := &lockstep{steps: l.steps}
			if t.diff(ctx, x, y, d+1) && (best == nil || len(t.pairs) < len(best.pairs)) {
				best, bx = t, x
			}
			l.steps = t.steps
		}
		if best == nil {
			return false
		}
		used[bx] = true
		m[y] = bx
		for _, p := range best.pairs {
			if !l.pair(p.x, p.y, p.why) {
				return false
			}
		}
	}
	b2 := subst(b, m)
	if ok, why := ctx.tryEqual(a, b2); !ok {
		return l.pair(a, b2, why)
	}
	return true
}

func (l *lockstep) folds(ctx *Ctx, x, y *Term, d int) bool {
	a, b := foldOf(x), foldOf(y)
	n := len(a.vars)
	if n != len(b.vars) || a.k != b.k {
		return false
	}
	for i := range a.vars {
		if a.vars[i] != b.vars[i] {
			return false
		}
	}
	if !l.diff(ctx, a.n, b.n, d+1) || !l.all(ctx, a.inits, b.inits, d+1) {
		return false
	}
	before := len(l.pairs)
	if !l.all(ctx.boundVar(a.k, a.n), a.steps, b.steps, d+1) {
		return false
	}
	return len(l.pairs) == before || !sameStart(ctx, x, y)
}

// sameStart: after one to four iterations the recurrences have equal values, so
// that a difference of their steps at an arbitrary state may be one at a state
// they never reach.
func sameStart(ctx *Ctx, x, y *Term) bool {
	var fs [2]*foldView
	var cur [2][]*Term
	for i, t := range []*Term{x, y} {
		fs[i] = foldOf(t)
		cur[i] = append([]*Term{}, fs[i].inits...)
	}
	idx, _ := atoi(x.name)
	idy, _ := atoi(y.name)
	for k := int64(0); k < 4; k++ {
		for i, f := range fs {
			m := map[*Term]*Term{f.k: numInt(k)}
			for j, v := range f.vars {
				m[v] = cur[i][j]
			}
			nx := make([]*Term, len(cur[i]))
			for j := range nx {
				nx[j] = subst(f.steps[j], m)
				if bigTerm(nx[j], 3000) {
					return false
				}
			}
			cur[i] = nx
		}
		if ok, _ := ctx.tryEqual(cur[0][idx], cur[1][idy]); !ok {
			return false
		}
	}
	return true
}
