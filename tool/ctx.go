package main

// Ctx: a set of assumptions about atomic comparisons, kept as intervals of
// linear forms (a finite set of orderings), used to decide conditions and to
// compare gated terms by case distinction on the orderings they mention.

import (
	"math/big"
	"os"
	"strings"
)

type bound struct {
	lo, hi   *big.Rat
	loS, hiS bool // strict
	ne       []*big.Rat
}

type Ctx struct {
	parent *Ctx
	forms  map[*Term]*bound
	truth  map[*Term]bool
	subs   map[*Term]*Term
	bad    bool
	lits   []string
	atoms  []lit
	depth  int
	ext    int // nesting of comparisons element by element
}

// lit: an assumed atom
type lit struct {
	at  *Term
	val bool
}

func newCtx() *Ctx {
	return &Ctx{forms: map[*Term]*bound{}, truth: map[*Term]bool{}, subs: map[*Term]*Term{}}
}

func (c *Ctx) clone() *Ctx {
	n := newCtx()
	for k, v := range c.forms {
		b := *v
		b.ne = append([]*big.Rat{}, v.ne...)
		n.forms[k] = &b
	}
	for k, v := range c.truth {
		n.truth[k] = v
	}
	for k, v := range c.subs {
		n.subs[k] = v
	}
	n.bad, n.ext = c.bad, c.ext
	n.lits = append([]string{}, c.lits...)
	return n
}

// boundVar: context for the body of a comprehension: 0 <= v < n
func (c *Ctx) boundVar(v, n *Term) *Ctx {
	d := c.clone()
	d.assume(bLt(v, n), true)
	return d
}

// form splits p = c + s*F with F canonical (primitive, positive lead, no constant).
func form(p *Term) (F *Term, s, cst *big.Rat) {
	a := newAcc()
	cst = new(big.Rat)
	for _, q := range asPoly(p) {
		if len(q.m) == 0 {
			cst = q.c
			continue
		}
		a.add(q.m, q.c)
	}
	f := a.term()
	if f == tZero {
		return tZero, new(big.Rat), cst
	}
	F = primitive(f)
	if leadCoef(F).Sign() < 0 {
		F = tNeg(F)
	}
	s = new(big.Rat).Quo(leadCoef(f), leadCoef(F))
	return
}

func (c *Ctx) get(F *Term) *bound {
	b := c.forms[F]
	if b == nil {
		b = &bound{}
		c.forms[F] = b
	}
	return b
}

func (b *bound) setLo(v *big.Rat, strict bool) {
	if b.lo == nil || v.Cmp(b.lo) > 0 || (v.Cmp(b.lo) == 0 && strict) {
		b.lo, b.loS = v, strict
	}
}
func (b *bound) setHi(v *big.Rat, strict bool) {
	if b.hi == nil || v.Cmp(b.hi) < 0 || (v.Cmp(b.hi) == 0 && strict) {
		b.hi, b.hiS = v, strict
	}
}
func (b *bound) normInt() {
	if b.lo != nil {
		f := ceilRat(b.lo)
		if b.loS && b.lo.IsInt() {
			f = new(big.Int).Add(f, big.NewInt(1))
		}
		b.lo, b.loS = new(big.Rat).SetInt(f), false
		for again := true; again; {
			again = false
			for _, n := range b.ne {
				if n.Cmp(b.lo) == 0 {
					b.lo = new(big.Rat).Add(b.lo, rat1)
					again = true
				}
			}
		}
	}
	if b.hi != nil {
		f := floorRat(b.hi)
		if b.hiS && b.hi.IsInt() {
			f = new(big.Int).Sub(f, big.NewInt(1))
		}
		b.hi, b.hiS = new(big.Rat).SetInt(f), false
		for again := true; again; {
			again = false
			for _, n := range b.ne {
				if n.Cmp(b.hi) == 0 {
					b.hi = new(big.Rat).Sub(b.hi, rat1)
					again = true
				}
			}
		}
	}
}
func (b *bound) empty() bool {
	if b.lo == nil || b.hi == nil {
		return false
	}
	k := b.lo.Cmp(b.hi)
	if k > 0 || (k == 0 && (b.loS || b.hiS)) {
		return true
	}
	if k == 0 {
		for _, n := range b.ne {
			if n.Cmp(b.lo) == 0 {
				return true
			}
		}
	}
	return false
}
func ceilRat(r *big.Rat) *big.Int {
	f := floorRat(new(big.Rat).Neg(r))
	return new(big.Int).Neg(f)
}

// rangeOf gives an interval enclosure of a numeric term.
func (c *Ctx) rangeOf(t *Term) bound {
	F, s, k := form(t)
	if F == tZero {
		return bound{lo: k, hi: k}
	}
	b := c.rangeForm(F)
	return affine(b, s, k)
}

func affine(b bound, s, k *big.Rat) bound {
	var r bound
	ap := func(x *big.Rat) *big.Rat {
		if x == nil {
			return nil
		}
		return new(big.Rat).Add(new(big.Rat).Mul(x, s), k)
	}
	if s.Sign() > 0 {
		r.lo, r.loS, r.hi, r.hiS = ap(b.lo), b.loS, ap(b.hi), b.hiS
	} else {
		r.lo, r.loS, r.hi, r.hiS = ap(b.hi), b.hiS, ap(b.lo), b.loS
	}
	for _, n := range b.ne {
		r.ne = append(r.ne, ap(n))
	}
	return r
}

func (c *Ctx) atomRange(a *Term) bound {
	var r bound
	if b := c.forms[a]; b != nil {
		r = *b
	}
	if isNonNegAtom(a) {
		r.setLo(new(big.Rat), false)
	}
	if a.op == OFn && a.name == "indexof" && a.args[1].op == OStrC && a.args[1].name != "" {
		r.setLo(big.NewRat(-1, 1), false)
		if l := c.rangeOf2(mkLen(a.args[0])); l.hi != nil { // or -1
			h := new(big.Rat).Sub(l.hi, big.NewRat(int64(len(a.args[1].name)), 1))
			if m := big.NewRat(-1, 1); h.Cmp(m) < 0 {
				h = m
			}
			r.setHi(h, false)
		}
	}
	if a.op == OFn && a.name == "mod" {
		if m, ok := isConstInt(a.args[1]); ok && m > 0 {
			r.setLo(new(big.Rat), false)
			r.setHi(big.NewRat(m-1, 1), false)
		}
	}
	if a.op == OFn && (a.name == "sin" || a.name == "cos") {
		r.setLo(big.NewRat(-1, 1), false)
		r.setHi(big.NewRat(1, 1), false)
	}
	if a.op == OIte {
		x, y := c.rangeOf2(a.args[1]), c.rangeOf2(a.args[2])
		if x.lo != nil && y.lo != nil {
			m := x.lo
			if y.lo.Cmp(m) < 0 {
				m = y.lo
			}
			r.setLo(m, false)
		}
		if x.hi != nil && y.hi != nil {
			m := x.hi
			if y.hi.Cmp(m) > 0 {
				m = y.hi
			}
			r.setHi(m, false)
		}
	}
	if a == tPI {
		r.setLo(big.NewRat(314159265, 100000000), true)
		r.setHi(big.NewRat(314159266, 100000000), true)
	}
	if a.isInt {
		r.normInt()
	}
	return r
}

func (c *Ctx) rangeOf2(t *Term) bound {
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 12 {
		return bound{}
	}
	return c.rangeOf(t)
}

func (c *Ctx) rangeForm(F *Term) bound {
	var r bound
	if b := c.forms[F]; b != nil {
		r = *b
	}
	// monomial-wise interval sum
	lo, hi := new(big.Rat), new(big.Rat)
	loOK, hiOK := true, true
	loS, hiS := false, false
	for _, p := range asPoly(F) {
		m := bound{lo: big.NewRat(1, 1), hi: big.NewRat(1, 1)}
		for _, f := range p.m {
			ar := c.atomRange(f.a)
			if f.e < 0 {
				m = bound{}
				if ar.lo != nil && ar.lo.Sign() >= 0 {
					m.lo = new(big.Rat)
				}
				break
			}
			if f.e%2 == 0 {
				sq := bound{lo: new(big.Rat)}
				_ = sq
				if ar.lo != nil && ar.lo.Sign() > 0 {
					sq.lo = powRat(ar.lo, f.e)
				}
				if ar.lo != nil && ar.hi != nil {
					x, y := new(big.Rat).Abs(ar.lo), new(big.Rat).Abs(ar.hi)
					if x.Cmp(y) < 0 {
						x = y
					}
					sq.hi = powRat(x, f.e)
				}
				m = mulB(m, sq)
			} else {
				for i := 0; i < f.e; i++ {
					m = mulB(m, ar)
				}
			}
		}
		m = affine(m, p.c, new(big.Rat))
		if m.lo == nil {
			loOK = false
		} else if loOK {
			lo.Add(lo, m.lo)
			loS = loS || m.loS
		}
		if m.hi == nil {
			hiOK = false
		} else if hiOK {
			hi.Add(hi, m.hi)
			hiS = hiS || m.hiS
		}
	}
	if loOK {
		r.setLo(lo, loS)
	}
	if hiOK {
		r.setHi(hi, hiS)
	}
	if F.isInt {
		r.normInt()
	}
	return r
}

func powRat(x *big.Rat, e int) *big.Rat {
	r := big.NewRat(1, 1)
	for i := 0; i < e; i++ {
		r.Mul(r, x)
	}
	return r
}

func mulB(a, b bound) bound {
	// common cases: both non-negative lower bounds; otherwise all four corners when finite
	if a.lo != nil && b.lo != nil && a.hi != nil && b.hi != nil {
		c := []*big.Rat{new(big.Rat).Mul(a.lo, b.lo), new(big.Rat).Mul(a.lo, b.hi), new(big.Rat).Mul(a.hi, b.lo), new(big.Rat).Mul(a.hi, b.hi)}
		r := bound{lo: c[0], hi: c[0]}
		for _, x := range c {
			if x.Cmp(r.lo) < 0 {
				r.lo = x
			}
			if x.Cmp(r.hi) > 0 {
				r.hi = x
			}
		}
		return r
	}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		return bound{lo: new(big.Rat).Mul(a.lo, b.lo)}
	}
	return bound{}
}

// decide returns the truth of an atom under the context.
func (c *Ctx) decide(at *Term) (val, known bool) {
	if v, ok := c.truth[at]; ok {
		return v, true
	}
	switch at.op {
	case OLt0:
		r := c.rangeOf(at.args[0])
		if r.hi != nil && (r.hi.Sign() < 0 || (r.hi.Sign() == 0 && r.hiS)) {
			return true, true
		}
		if r.lo != nil && r.lo.Sign() >= 0 {
			return false, true
		}
		// real numbers: p<=0 and p!=0
		if r.hi != nil && r.hi.Sign() == 0 {
			for _, n := range r.ne {
				if n.Sign() == 0 {
					return true, true
				}
			}
		}
	case OEq0:
		r := c.rangeOf(at.args[0])
		if r.hi != nil && (r.hi.Sign() < 0 || (r.hi.Sign() == 0 && r.hiS)) {
			return false, true
		}
		if r.lo != nil && (r.lo.Sign() > 0 || (r.lo.Sign() == 0 && r.loS)) {
			return false, true
		}
		for _, n := range r.ne {
			if n.Sign() == 0 {
				return false, true
			}
		}
		if r.lo != nil && r.hi != nil && r.lo.Sign() == 0 && r.hi.Sign() == 0 {
			return true, true
		}
	}
	return false, false
}

func (c *Ctx) decideBool(b *Term) *Term {
	if b.op != OIte {
		return b
	}
	if v, ok := c.decide(b.args[0]); ok {
		if v {
			return c.decideBool(b.args[1])
		}
		return c.decideBool(b.args[2])
	}
	hi := c.decideBool(b.args[1])
	lo := c.decideBool(b.args[2])
	return mkIteAtom(b.args[0], hi, lo)
}

// assume adds a boolean diagram with a single decided path where possible;
// conjunctions are split into literals, anything else is kept only if atomic.
func (c *Ctx) assume(b *Term, val bool) {
	if !val {
		b = bNot(b)
	}
	for b.op == OIte {
		at := b.args[0]
		if b.args[2] == tFalse {
			c.assumeAtom(at, true)
			b = c.simp(b.args[1])
			continue
		}
		if b.args[1] == tFalse {
			c.assumeAtom(at, false)
			b = c.simp(b.args[2])
			continue
		}
		return // disjunction: no information kept
	}
	if b == tFalse {
		c.bad = true
	}
}

func (c *Ctx) assumeAtom(at *Term, val bool) {
	s := atomStr(at, 0)
	if !val {
		s = "!(" + s + ")"
	}
	c.lits = append(c.lits, s)
	c.atoms = append(c.atoms, lit{at, val})
	if v, ok := c.decide(at); ok {
		if v != val {
			c.bad = true
		}
		if at.op != OLt0 && at.op != OEq0 {
			return
		}
	}
	c.truth[at] = val
	switch at.op {
	case OHolds:
		c.ufFact(at, val)
	case OLt0:
		F, sc, k := form(at.args[0])
		b := c.get(F)
		lim := new(big.Rat).Quo(new(big.Rat).Neg(k), sc)
		if val == (sc.Sign() > 0) {
			if val {
				b.setHi(lim, true)
			} else {
				b.setHi(lim, false)
			}
		} else {
			if val {
				b.setLo(lim, true)
			} else {
				b.setLo(lim, false)
			}
		}
		if F.isInt {
			b.normInt()
		}
		if b.empty() {
			c.bad = true
		}
		r := c.rangeForm(F)
		if r.empty() {
			c.bad = true
		}
		if r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) == 0 {
			c.addEq(tSub(F, numRat(r.lo)))
		}
		if F.op == OFn && F.name == "indexof" && F.args[1].op == OStrC && b.lo != nil && b.lo.Sign() >= 0 {
			// what is found lies within the text
			end := tAdd(numRat(b.lo), mkLen(F.args[1]))
			if short := bLt(mkLen(F.args[0]), end); short != tFalse && !c.bad {
				c.assume(short, false)
			}
		}
	case OEq0:
		F, sc, k := form(at.args[0])
		b := c.get(F)
		lim := new(big.Rat).Quo(new(big.Rat).Neg(k), sc)
		if val {
			b.setLo(lim, false)
			b.setHi(lim, false)
			if F.isInt {
				b.normInt()
			}
			if b.empty() {
				c.bad = true
			}
			c.addEq(at.args[0])
			if F.op == OFn && F.name == "len" && F.args[0].sort == SSeq && lim.Sign() == 0 {
				// the text made of no bytes
				c.addSub(mkFn("bytes2str", SStr, false, F.args[0]), mkStr(""))
				for at, val := range c.truth {
					c.ufFact(at, val)
				}
			}
			if v, ok := c.constRange(F); ok && F.op == OFn && !c.bad {
				c.textFacts(F, v)
			}
		} else {
			b.ne = append(b.ne, lim)
			if F.isInt {
				b.normInt()
			}
			if b.empty() {
				c.bad = true
			}
		}
	case OEqT:
		if val {
			x, y := at.args[0], at.args[1]
			if (x.op == OStrC || x.op == OTup || x.op == OFn && isNilT(x)) && !occurs(y, x) {
				x, y = y, x
			}
			if !occurs(y, x) {
				c.addSub(x, y)
			}
		}
	}
}

// ufFact: the truth of a function of the repository for constant texts
func (c *Ctx) ufFact(at *Term, val bool) {
	if at.op == OHolds && at.args[0].op == OFn && hasPfx(at.args[0].name, "uf:") {
		if b := subst(at.args[0], c.subs); b == tTrue && !val || b == tFalse && val {
			c.bad = true
		}
	}
}

func (c *Ctx) addSub(x, y *Term) {
	if x.op == OStrC {
		return
	}
	m := map[*Term]*Term{x: y}
	for _, k := range sortedTerms(c.subs) {
		v := c.subs[k]
		c.subs[k] = subst(v, m)
		if occurs(k, x) {
			// the same quantity, written with the substitution applied
			k2 := subst(k, m)
			if _, ok := c.subs[k2]; !ok && (k2.op == OVar || k2.op == OSel) && !occurs(c.subs[k], k2) {
				c.subs[k2] = c.subs[k]
			}
		}
	}
	c.subs[x] = y
}

// addEq records p == 0 as a substitution for one of its atoms when p is
// linear in that atom.
func (c *Ctx) addEq(p *Term) {
	p = c.simp(p)
	ps := asPoly(p)
	if len(ps) > 1 || len(ps) == 1 && len(ps[0].m) == 1 && ps[0].m[0].e > 1 {
		// a sum of squares vanishes only if every square does
		sq := true
		for _, q := range ps {
			sq = sq && len(q.m) == 1 && q.m[0].e%2 == 0 && q.c.Sign() == ps[0].c.Sign()
		}
		if sq {
			for _, q := range ps {
				c.addEq(q.m[0].a)
			}
			return
		}
	}
	for pass := 0; pass < 2; pass++ {
		for i, q := range ps {
			if len(q.m) != 1 || q.m[0].e != 1 {
				continue
			}
			a := q.m[0].a
			if pass == 0 && a.op != OVar && a.op != OSel {
				continue
			}
			if a == tPI || (a.op == OFn && a.name == "inv") {
				continue
			}
			ok := true
			for j, r := range ps {
				if j == i {
					continue
				}
				for _, f := range r.m {
					if occurs(f.a, a) {
						ok = false
					}
				}
			}
			if !ok {
				continue
			}
			rest := tSub(p, tScale(a, q.c))
			v := tScale(rest, new(big.Rat).Neg(new(big.Rat).Inv(q.c)))
			c.addSub(a, v)
			return
		}
	}
}

func (c *Ctx) simp(t *Term) *Term {
	r := &rewriter{m: c.subs, memo: map[*Term]*Term{}, ctx: c}
	for i := 0; i < 4; i++ {
		n := r.rw(t)
		if n == t {
			return n
		}
		t = n
		r.memo = map[*Term]*Term{}
	}
	return t
}

// firstAtom finds an undecided decision atom in t (outermost first).
func firstAtom(ts ...*Term) *Term {
	var best *Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if !x.free || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OIte {
			at := x.args[0]
			// prefer atoms that themselves contain no decisions
			if !at.free {
				if best == nil || at.id < best.id {
					best = at
				}
			} else {
				walk(at)
			}
		}
		if x.op == OComp || x.op == OSum || x.op == OFold {
			// atoms depending on the bound variable cannot be split globally
			for _, a := range x.args[1:] {
				walkBound(a, x, &best)
			}
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				walk(f.a)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return best
}

func walkBound(t, binder *Term, best **Term) {
	bound := map[*Term]bool{}
	bind := func(x *Term) bool {
		if x.op == OFold {
			for _, v := range foldOf(x).vars {
				bound[v] = true
			}
			bound[x.args[0]] = true
		}
		return false
	}
	bound[binder.args[0]] = true
	bind(binder)
	anyTerm(t, bind)
	var w func(x *Term)
	loc := map[*Term]bool{}
	w = func(x *Term) {
		if !x.free || loc[x] {
			return
		}
		loc[x] = true
		if x.op == OIte {
			at := x.args[0]
			if !at.free && !anyTerm(at, func(y *Term) bool {
				return y.op == OVar && len(y.name) > 0 && (bound[y] || hasPfx(y.name, "κ") || hasPfx(y.name, "β"))
			}) {
				if *best == nil || at.id < (*best).id {
					*best = at
				}
			}
		}
		for _, a := range x.args {
			w(a)
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				w(f.a)
			}
		}
	}
	w(t)
}

func hasPfx(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// cases enumerates the consistent orderings that decide every condition in
// ts, calling f with the simplified terms in each.
func (c *Ctx) cases(ts []*Term, limit *int, f func(*Ctx, []*Term) bool) bool {
	if c.bad {
		return true
	}
	s := make([]*Term, len(ts))
	for i, t := range ts {
		s[i] = c.simp(t)
	}
	at := firstAtom(s...)
	if at == nil {
		*limit--
		if *limit < 0 {
			panic(undecided("too many orderings"))
		}
		if c.contradicted() {
			return true
		}
		return f(c, s)
	}
	for _, v := range []bool{true, false} {
		d := c.clone()
		d.assumeAtom(at, v)
		if d.bad {
			continue
		}
		if !d.cases(s, limit, f) {
			return false
		}
	}
	return true
}

// contradicted: something assumed before an equality was found does not hold
// for what the equality makes of it, so the case does not arise.
func (c *Ctx) contradicted() bool {
	if len(c.subs) == 0 {
		return false
	}
	for at, val := range c.truth {
		x := mkAtomNode(at)
		y := subst(x, c.subs)
		if y == x {
			continue
		}
		if y = c.simp(y); y == tTrue && !val || y == tFalse && val {
			return true
		}
	}
	return false
}

// equal: t1 == t2 in every consistent case. The failing case is returned.
func (c *Ctx) equal(t1, t2 *Term) (bool, string) {
	if t1 == t2 {
		return true, ""
	}
	if t1.sort != t2.sort && !(t1.sort == SBool || t2.sort == SBool) {
		return false, "different sorts"
	}
	why := ""
	limit := 20000
	ok := c.cases([]*Term{t1, t2}, &limit, func(d *Ctx, s []*Term) bool {
		if d.same(s[0], s[1]) {
			return true
		}
		why = "when " + joinLits(d.lits) + ": " + clip(s[0].String()) + "  vs  " + clip(s[1].String())
		return false
	})
	return ok, why
}

func joinLits(l []string) string {
	if len(l) == 0 {
		return "always"
	}
	s := ""
	for i, x := range l {
		if i > 0 {
			s += " ∧ "
		}
		s += x
	}
	return clip(s)
}

var clipLen = envInt("GEGOV_CLIP", 600)

func clip(s string) string {
	if len(s) > clipLen {
		return strings.ToValidUTF8(s[:clipLen], "") + "…"
	}
	return s
}

func (c *Ctx) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.sort == SNum && b.sort == SNum {
		d := tSub(a, b)
		if isZero(d) {
			return true
		}
		if isZero(c.simp(clearDenoms(d))) {
			return true
		}
		r := c.reduced(d)
		return r != d && isZero(c.simp(clearDenoms(r)))
	}
	if c.sameParts(a, b) {
		return true
	}
	return c.sameElems(a, b)
}

// reduced: remainders of what is known to be less than the divisor are gone
func (c *Ctx) reduced(t *Term) *Term {
	var m map[*Term]*Term
	anyTerm(t, func(x *Term) bool {
		if x.op == OFn && x.name == "mod" && len(x.args) == 2 && m[x] == nil {
			if c.implies(bLe(tZero, x.args[0])) && c.implies(bLt(x.args[0], x.args[1])) {
				if m == nil {
					m = map[*Term]*Term{}
				}
				m[x] = x.args[0]
			}
		}
		return false
	})
	if m == nil {
		return t
	}
	return subst(t, m)
}

// sameElems: two lists are equal when they have the same length and the same
// element at every position
func (c *Ctx) sameElems(a, b *Term) bool {
	built := func(t *Term) bool { return t.op == OStore || t.op == OCat || t.op == OSub }
	if a.sort != SSeq || b.sort != SSeq || !built(a) && !built(b) || c.ext >= 2 {
		return false
	}
	d := c.clone()
	d.ext = c.ext + 1
	if ok, _ := d.tryEqual(mkLen(a), mkLen(b)); !ok {
		return false
	}
	es, isInt := elemSort(a)
	if es == SOther {
		es, isInt = elemSort(b)
	}
	if es == SOther {
		return false
	}
	freshCount++
	fv := mkVar("β"+itoa(freshCount), SNum, true)
	d = d.boundVar(fv, mkLen(a))
	d.ext = c.ext + 1
	d.assume(bLt(fv, tZero), false)
	ok, _ := d.tryEqual(mkSel(a, fv, es, isInt), mkSel(b, fv, es, isInt))
	return ok
}

// elemSort: what a list holds, judged by an element it is built with
func elemSort(t *Term) (Sort, bool) {
	switch t.op {
	case OUnit:
		return t.args[0].sort, t.args[0].isInt
	case OStore:
		return t.args[2].sort, t.args[2].isInt
	case OFill:
		return t.args[1].sort, t.args[1].isInt
	case OSub, OIte, OCat:
		for _, a := range t.args {
			if a.sort == SSeq {
				if s, i := elemSort(a); s != SOther {
					return s, i
				}
			}
		}
	case OComp:
		return elemSort(t.args[2])
	}
	return SOther, false
}

func (c *Ctx) sameParts(a, b *Term) bool {
	if a.op == b.op && a.sort == b.sort && a.name == b.name && len(a.args) == len(b.args) && len(a.args) > 0 && a.op != OPoly {
		if a.op == OComp || a.op == OSum {
			if !c.same(a.args[1], b.args[1]) {
				return false
			}
			freshCount++
			fv := mkVar("β"+itoa(freshCount), SNum, true)
			x := subst(a.args[2], map[*Term]*Term{a.args[0]: fv})
			y := subst(b.args[2], map[*Term]*Term{b.args[0]: fv})
			ok, _ := c.boundVar(fv, a.args[1]).equal(x, y)
			return ok
		}
		for i := range a.args {
			if !c.same(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// implies: boolean b holds in every consistent case.
func (c *Ctx) implies(b *Term) bool {
	ok, _ := c.equal(b, tTrue)
	return ok
}

// textFacts: a character found at a position is found when it is searched for
func (c *Ctx) textFacts(F *Term, v int64) {
	switch {
	case F.name == "byteat" && v > 0 && v < 128:
		x := mkIndex(F.args[0], mkStr(string(rune(v))))
		if x.op == OFn {
			c.assume(bLt0(x), false)
			c.assume(bLt(F.args[1], x), false)
		}
	case F.name == "indexof" && v >= 0 && F.args[1].op == OStrC && len(F.args[1].name) == 1 && F.args[1].name[0] < 128:
		if x := bEq(mkByteAt(F.args[0], numInt(v)), numInt(int64(F.args[1].name[0]))); x != tTrue {
			c.assume(x, true)
		}
	}
}

// constRange: the one value of an integer form
func (c *Ctx) constRange(F *Term) (int64, bool) {
	b := c.forms[F]
	if b == nil || b.lo == nil || b.hi == nil || b.lo.Cmp(b.hi) != 0 || !b.lo.IsInt() || !b.lo.Num().IsInt64() {
		return 0, false
	}
	return b.lo.Num().Int64(), true
}

func envInt(k string, d int) int {
	if n, ok := atoi(os.Getenv(k)); ok && n > 0 {
		return n
	}
	return d
}
