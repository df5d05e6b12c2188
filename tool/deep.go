package main

import "regexp"

// Comparison of two value graphs that contain recurrences (folds), sums and
// comprehensions: recurrences are paired and compared component by component
// (bound, initial values, one step). The outcome is equal, different (a
// definite difference in one interpreted component of otherwise matching
// graphs) or unclear (the shapes do not correspond).

type cmpResult int

const (
	cmpEqual cmpResult = iota
	cmpDiffer
	cmpUnclear
)

func (r cmpResult) String() string { return [...]string{"equal", "different", "unclear"}[r] }

// opaqueParts: outermost subterms that are not interpreted pointwise.
func opaqueParts(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if isOpaquePart(x) {
			out[x] = true
			return
		}
		for _, a := range x.args {
			w(a)
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				w(f.a)
			}
		}
	}
	w(t)
	return out
}

func isOpaquePart(x *Term) bool {
	switch x.op {
	case OFold, OSum, OComp:
		return true
	case OFn:
		switch {
		case x.name == "first", hasPfx(x.name, "opq:"), hasPfx(x.name, "unsolved"):
			return true
		}
	case OVar:
		return hasPfx(x.name, "after:") || hasPfx(x.name, "λ") || isXName(x.name)
	}
	return false
}
func isXName(n string) bool {
	if len(n) < 2 || n[0] != 'X' {
		return false
	}
	for _, r := range n[1:] {
		if r < '0' || r > '9' {
			return false
		}
	}
	return true
}

func minus(a, b map[*Term]bool) []*Term {
	var out []*Term
	for x := range a {
		if !b[x] {
			out = append(out, x)
		}
	}
	sortTerms(out)
	return out
}
func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

type deepCmp struct{ depth int }

// deepEqual: a difference that consists in taking the first elements of an
// array changed by a call is none when these are all its elements.
func deepEqual(ctx *Ctx, a, b *Term) (cmpResult, string) {
	r, why := deepEqual1(ctx, a, b)
	if r == cmpDiffer && firstOfChanged.MatchString(why) {
		return cmpUnclear, why
	}
	return r, why
}

var firstOfChanged = regexp.MustCompile(`after:[^ ]*#[0-9]+\[0:`)

func deepEqual1(ctx *Ctx, a, b *Term) (cmpResult, string) {
	if ctx == nil {
		ctx = newCtx()
	}
	if a == b {
		return cmpEqual, ""
	}
	if r, why := (&lockstep{}).run(ctx, a, b); r != cmpUnclear {
		return r, why
	}
	if r, why := (&aligner{ctx: ctx, a: a}).run(b, 0, ""); r != cmpUnclear {
		return r, why
	}
	if bigTerm(a, 6000) || bigTerm(b, 6000) {
		return cmpUnclear, "large graphs of different shape"
	}
	return (&deepCmp{}).cmp(ctx, a, b)
}

// aligner replaces, innermost first, every computation (recurrence, sum,
// comprehension, sort) of b that a does not have by a computation of a: by one
// proved equal, or else by one that positively differs. When this makes the
// graphs identical the outcome is equal (no differing pair was needed) or
// different.
type aligner struct {
	ctx   *Ctx
	a     *Term
	tries int
}

func (al *aligner) run(b *Term, nd int, first string) (cmpResult, string) {
	ca := computations(al.a)
	inA := map[*Term]bool{}
	for _, x := range ca {
		inA[x] = true
	}
	for {
		checkDeadline()
		if al.a == b {
			if nd == 0 {
				return cmpEqual, ""
			}
			return cmpDiffer, first
		}
		cb := computations(b)
		inB := map[*Term]bool{}
		var y *Term
		for _, t := range cb {
			inB[t] = true
			if y == nil && !inA[t] {
				y = t
			}
		}
		if y == nil {
			// same computations everywhere: compare what is left pointwise
			pa, pb := opaqueParts(al.a), opaqueParts(b)
			if len(minus(pa, pb))+len(minus(pb, pa)) > 0 || bigTerm(al.a, 8000) {
				return cmpUnclear, ""
			}
			ok, why := al.ctx.equal(al.a, b)
			switch {
			case ok && nd == 0:
				return cmpEqual, ""
			case ok:
				return cmpDiffer, first
			case nd == 0:
				return cmpDiffer, why
			}
			return cmpUnclear, "several differences"
		}
		type alt struct {
			x   *Term
			why string
		}
		var diffs []alt
		var eq *Term
		for _, x := range ca {
			if inB[x] || x.op != y.op || x.name != y.name || len(x.args) != len(y.args) || x.sort != y.sort {
				continue
			}
			al.tries++
			if al.tries > 600 {
				return cmpUnclear, "too many pairs"
			}
			r, why := (&deepCmp{}).part(al.ctx.withBound(x, y), x, y)
			if r == cmpEqual {
				eq = x
				break
			}
			if r == cmpDiffer {
				diffs = append(diffs, alt{x, why})
			}
		}
		if eq != nil {
			b = subst(b, map[*Term]*Term{y: eq})
			continue
		}
		if nd >= 3 {
			return cmpUnclear, "several differences"
		}
		for i, d := range diffs {
			if i > 5 {
				break
			}
			f := first
			if nd == 0 {
				f = d.why
			}
			if r, why := al.run(subst(b, map[*Term]*Term{y: d.x}), nd+1, f); r != cmpUnclear {
				return r, why
			}
		}
		return cmpUnclear, "computations of different shape"
	}
}

// withBound: iteration variables free in the terms are non-negative
func (c *Ctx) withBound(ts ...*Term) *Ctx {
	d := c.clone()
	seen := map[*Term]bool{}
	for _, t := range ts {
		anyTerm(t, func(x *Term) bool {
			if x.op == OVar && hasPfx(x.name, "κ") && !seen[x] {
				seen[x] = true
				d.assume(bLt(x, tZero), false)
			}
			return false
		})
	}
	return d
}

// computations: recurrences, sums, comprehensions and sorts at any depth, innermost first.
func computations(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			w(a)
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				w(f.a)
			}
		}
		if isOpaquePart(x) && len(x.args) > 0 || x.op == OFn && (x.name == "sortedby" || x.name == "sorted") {
			out = append(out, x)
		}
	}
	w(t)
	return out
}

func (d *deepCmp) cmp(ctx *Ctx, a, b *Term) (cmpResult, string) {
	checkDeadline()
	if a == b {
		return cmpEqual, ""
	}
	if d.depth > 12 {
		return cmpUnclear, "too deep"
	}
	d.depth++
	defer func() { d.depth-- }()
	a, b = mergeSums(a), mergeSums(b)
	if a == b {
		return cmpEqual, ""
	}
	pa, pb := opaqueParts(a), opaqueParts(b)
	da, db := minus(pa, pb), minus(pb, pa)
	if len(da) == 0 && len(db) == 0 {
		ok, why := ctx.equal(a, b)
		if ok {
			return cmpEqual, ""
		}
		return cmpDiffer, why
	}
	if ok, _ := ctx.tryEqual(a, b); ok {
		return cmpEqual, ""
	}
	if len(da) > 12 || len(db) > 12 {
		return cmpUnclear, "many recurrences differ"
	}
	// pair what is provably equal
	m := map[*Term]*Term{}
	used := map[*Term]bool{}
	type pr struct{ x, y *Term }
	var diffs []string
	for _, y := range db {
		for _, x := range da {
			if x.sort != y.sort {
				continue
			}
			if r, _ := d.part(ctx, x, y); r == cmpEqual {
				m[y] = x
				used[x] = true
				break
			}
		}
	}
	var ra, rb []*Term
	for _, x := range da {
		if !used[x] {
			ra = append(ra, x)
		}
	}
	for _, y := range db {
		if m[y] == nil {
			rb = append(rb, y)
		}
	}
	b2 := subst(b, m)
	if len(ra) == 0 && len(rb) == 0 {
		ok, why := ctx.equal(a, b2)
		if ok {
			return cmpEqual, ""
		}
		return cmpDiffer, why
	}
	if len(ra) != len(rb) {
		// one side has a recurrence the other has not
		return cmpUnclear, "different recurrences"
	}
	// pair the rest with the partner from which it positively differs
	usedA := map[*Term]bool{}
	m2 := map[*Term]*Term{}
	for _, y := range rb {
		found := false
		for _, x := range ra {
			if usedA[x] || x.sort != y.sort {
				continue
			}
			if r, why := d.part(ctx, x, y); r == cmpDiffer {
				usedA[x] = true
				m2[y] = x
				diffs = append(diffs, why)
				found = true
				break
			}
		}
		if !found {
			return cmpUnclear, "recurrences of different shape"
		}
	}
	// apart from those, the graphs must correspond
	if ok, _ := ctx.tryEqual(a, subst(b2, m2)); !ok {
		return cmpUnclear, "several differences"
	}
	return cmpDiffer, diffs[0]
}

// tryEqual is equal without the undecided panic
func (c *Ctx) tryEqual(a, b *Term) (ok bool, why string) {
	defer func() {
		if x := recover(); x != nil {
			if u, isU := x.(undecidedErr); isU && !hasPfx(u.msg, "time") {
				ok, why = false, u.msg
				return
			}
			panic(x)
		}
	}()
	return c.equal(a, b)
}

func freshBound() *Term {
	freshCount++
	return mkVar("β"+itoa(freshCount), SNum, true)
}

// part compares two recurrences, sums or comprehensions.
func (d *deepCmp) part(ctx *Ctx, x, y *Term) (cmpResult, string) {
	if x == y {
		return cmpEqual, ""
	}
	if x.op != y.op || x.name != y.name || len(x.args) != len(y.args) || x.sort != y.sort {
		return cmpUnclear, ""
	}
	switch x.op {
	case OSum, OComp:
		rn, wn := d.cmp(ctx, x.args[1], y.args[1])
		fv := freshBound()
		sub := ctx
		if x.args[1] != tOmega {
			sub = ctx.boundVar(fv, x.args[1])
		} else {
			sub = ctx.clone()
			sub.assume(bLt(fv, tZero), false)
		}
		rb, wb := d.cmp(sub, subst(x.args[2], map[*Term]*Term{x.args[0]: fv}), subst(y.args[2], map[*Term]*Term{y.args[0]: fv}))
		return combineCmp([]cmpResult{rn, rb}, []string{"number of iterations: " + wn, "element: " + wb})
	case OFold:
		return d.folds(ctx, x, y)
	case OFn:
		if len(x.args) == 0 {
			return cmpUnclear, ""
		}
		var rs []cmpResult
		var ws []string
		for i := range x.args {
			r, w := d.cmp(ctx, x.args[i], y.args[i])
			rs, ws = append(rs, r), append(ws, w)
		}
		return combineCmp(rs, ws)
	}
	return cmpUnclear, ""
}

// combineCmp: equal when all are; different when exactly one differs and none is unclear
func combineCmp(rs []cmpResult, ws []string) (cmpResult, string) {
	nd := 0
	why := ""
	for i, r := range rs {
		if r == cmpUnclear {
			return cmpUnclear, ws[i]
		}
		if r == cmpDiffer {
			nd++
			why = ws[i]
		}
	}
	if nd == 0 {
		return cmpEqual, ""
	}
	if nd == 1 {
		return cmpDiffer, why
	}
	return cmpUnclear, "several components differ"
}

func perms(n int, fixed0 int, f func([]int) bool) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(p)
		}
		for j := 0; j < n; j++ {
			if used[j] || i == fixed0 && j != fixed0 || j == fixed0 && i != fixed0 {
				continue
			}
			used[j] = true
			p[i] = j
			if !rec(i + 1) {
				return false
			}
			used[j] = false
		}
		return true
	}
	rec(0)
}

func (d *deepCmp) folds(ctx *Ctx, x, y *Term) (cmpResult, string) {
	a, b := foldOf(x), foldOf(y)
	n := len(a.vars)
	if n != len(b.vars) || n > 5 {
		return cmpUnclear, "different numbers of loop variables"
	}
	rn, wn := d.cmp(ctx, a.n, b.n)
	if rn == cmpUnclear {
		return rn, wn
	}
	idx := 0
	for i := 0; i < n; i++ {
		if itoa(i) == x.name {
			idx = i
		}
	}
	kv := freshBound()
	sub := ctx.boundVar(kv, a.n)
	ma := map[*Term]*Term{a.k: kv}
	nv := make([]*Term, n)
	for i := range nv {
		freshCount++
		nv[i] = mkVar("φφ"+itoa(freshCount), a.vars[i].sort, a.vars[i].isInt)
		ma[a.vars[i]] = nv[i]
	}
	sa := make([]*Term, n)
	for i := range sa {
		sa[i] = subst(a.steps[i], ma)
	}
	best, bestWhy := cmpUnclear, "loop variables do not correspond"
	count := 0
	perms(n, idx, func(p []int) bool { // a.vars[i] corresponds to b.vars[p[i]]
		count++
		if count > 24 {
			return false
		}
		mb := map[*Term]*Term{b.k: kv}
		for i := range p {
			if a.vars[i].sort != b.vars[p[i]].sort {
				return true
			}
			mb[b.vars[p[i]]] = nv[i]
		}
		rs := []cmpResult{rn}
		ws := []string{"number of iterations: " + wn}
		for i := range p {
			r, w := d.cmp(ctx, a.inits[i], b.inits[p[i]])
			rs, ws = append(rs, r), append(ws, "initial value: "+w)
			r, w = d.cmp(sub, sa[i], subst(b.steps[p[i]], mb))
			rs, ws = append(rs, r), append(ws, "one iteration: "+w)
			if r == cmpUnclear {
				break
			}
		}
		r, w := combineCmp(rs, ws)
		if r == cmpEqual {
			best, bestWhy = r, w
			return false
		}
		if r == cmpDiffer && best != cmpDiffer {
			best, bestWhy = r, w
		}
		return true
	})
	if best == cmpDiffer && rn == cmpEqual && sameStart(ctx, x, y) {
		return cmpUnclear, "equal after the first iterations"
	}
	return best, bestWhy
}

// mergeSums rewrites c1·Σ(n,f) + c2·Σ(n,g) as Σ(n, c1·f + c2·g).
func mergeSums(t *Term) *Term {
	if t.sort != SNum {
		return t
	}
	type grp struct {
		n, v, body *Term
		cnt        int
	}
	var gs []*grp
	rest := tZero
	for _, q := range asPoly(t) {
		var s *Term
		var other mono
		ns := 0
		for _, f := range q.m {
			if f.a.op == OSum && f.e == 1 {
				s = f.a
				ns++
			} else {
				other = append(other, f)
			}
		}
		if ns != 1 {
			rest = tAdd(rest, fromPoly([]pterm{q}))
			continue
		}
		var g *grp
		for _, x := range gs {
			if x.n == s.args[1] {
				g = x
			}
		}
		if g == nil {
			g = &grp{n: s.args[1], v: freshBound(), body: tZero}
			gs = append(gs, g)
		}
		g.cnt++
		g.body = tAdd(g.body, tMul2(fromPoly([]pterm{{other, q.c}}), subst(s.args[2], map[*Term]*Term{s.args[0]: g.v})))
	}
	any := false
	for _, g := range gs {
		if g.cnt > 1 {
			any = true
		}
	}
	if !any {
		return t
	}
	for _, g := range gs {
		bv, nb := canonBound(g.v, g.body)
		rest = tAdd(rest, intern(&Term{op: OSum, sort: SNum, isInt: nb.isInt, args: []*Term{bv, g.n, nb}}))
	}
	return rest
}

// deep compares two terms that may contain recurrences and records the obligation.
func (c *Chk) deep(label, where string, ctx *Ctx, got, want *Term) {
	c.try(label, where, func() {
		r, why := deepEqual(ctx, got, want)
		switch r {
		case cmpEqual:
			c.ok(label, where)
		case cmpDiffer:
			c.fail(label, where, why)
		default:
			c.unknown(label, where, "not comparable: "+why)
		}
	})
}

// firstConst: the iteration at which a loop leaves, when that is a small
// constant
func firstConst(x *Term, rw func(*Term) *Term) (int64, bool) {
	if x.op != OFn || x.name != "first" || len(x.args) != 1 || x.args[0].op != OComp {
		return 0, false
	}
	co := x.args[0]
	if co.args[1] != tOmega || co.args[2].op != OUnit {
		return 0, false
	}
	for k := int64(0); k <= 12; k++ {
		b := rw(subst(co.args[2].args[0], map[*Term]*Term{co.args[0]: numInt(k)}))
		if b == tOne {
			return k, true
		}
		if b != tZero {
			break
		}
	}
	return 0, false
}

// expandConst unrolls sums, comprehensions and recurrences whose number of
// iterations has become a small constant.
func expandConst(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rw func(x *Term) *Term
	rw = func(x *Term) *Term {
		if y, ok := memo[x]; ok {
			return y
		}
		checkDeadline()
		memo[x] = x
		y := x
		switch x.op {
		case OSum, OComp:
			n := rw(x.args[1])
			if k, ok := isConstInt(n); ok && k >= 0 && k <= 12 {
				if x.op == OSum {
					y = tZero
					for i := int64(0); i < k; i++ {
						y = tAdd(y, rw(subst(x.args[2], map[*Term]*Term{x.args[0]: numInt(i)})))
					}
				} else {
					y = tEmpty
					for i := int64(0); i < k; i++ {
						y = mkCat(y, rw(subst(x.args[2], map[*Term]*Term{x.args[0]: numInt(i)})))
					}
				}
			}
		case OFold:
			f := foldOf(x)
			n := rw(f.n)
			if k, ok := isConstInt(n); ok && k >= 0 && k <= 12 {
				cur := make([]*Term, len(f.vars))
				for i := range cur {
					cur[i] = rw(f.inits[i])
				}
				for it := int64(0); it < k; it++ {
					m := map[*Term]*Term{f.k: numInt(it)}
					for i, v := range f.vars {
						m[v] = cur[i]
					}
					nx := make([]*Term, len(cur))
					for i := range nx {
						nx[i] = rw(subst(f.steps[i], m))
					}
					cur = nx
				}
				for i := range cur {
					if itoa(i) == x.name {
						y = cur[i]
					}
				}
			}
		case OIte:
			at := x.args[0]
			as := make([]*Term, len(at.args))
			ch := false
			for i, a := range at.args {
				as[i] = rw(a)
				ch = ch || as[i] != a
			}
			cd := mkAtomNode(at)
			if ch {
				cd = rebuildAtom(at, as)
			}
			switch cd {
			case tTrue:
				y = rw(x.args[1])
			case tFalse:
				y = rw(x.args[2])
			default:
				p, q := rw(x.args[1]), rw(x.args[2])
				if ch || p != x.args[1] || q != x.args[2] {
					y = mkIte(cd, p, q)
				}
			}
		case OLt0, OEq0, OEqT, OHolds:
			panic(undecided("atom out of place"))
		default:
			if k, ok := firstConst(x, rw); ok {
				y = numInt(k)
				break
			}
			m := map[*Term]*Term{}
			for _, a := range x.args {
				if b := rw(a); b != a {
					m[a] = b
				}
			}
			for _, p := range x.poly {
				for _, f := range p.m {
					if b := rw(f.a); b != f.a {
						m[f.a] = b
					}
				}
			}
			if len(m) > 0 {
				y = subst(x, m)
			}
		}
		memo[x] = y
		return y
	}
	for i := 0; i < 6; i++ {
		n := rw(t)
		if n == t {
			return t
		}
		t = n
		memo = map[*Term]*Term{}
	}
	return t
}

// instantiate fixes the length of a sequence to n.
func instantiate(t, seq *Term, n int64) *Term {
	return expandConst(subst(t, map[*Term]*Term{mkLen(seq): numInt(n)}))
}

// instances: got and want are compared for every length lo..hi of the
// sequences. A difference in fully interpreted instances is a violation;
// agreement in all of them only leaves the general claim undecided.
func (c *Chk) instances(label, where string, ctx *Ctx, got, want *Term, seqs []*Term, lo, hi int64) {
	if ctx == nil {
		ctx = newCtx()
	}
	var rec func(i int, g, w *Term, desc string) bool
	rec = func(i int, g, w *Term, desc string) bool {
		if i == len(seqs) {
			r, why := deepEqual(ctx, g, w)
			if r == cmpDiffer {
				c.fail(label, where, "for length "+desc+": "+why)
				return true
			}
			return false
		}
		for n := lo; n <= hi; n++ {
			if rec(i+1, instantiate(g, seqs[i], n), instantiate(w, seqs[i], n), desc+" "+itoa(int(n))) {
				return true
			}
		}
		return false
	}
	if !rec(0, got, want, "") {
		c.unknown(label, where, "not comparable in general; no difference for small lengths")
	}
}
