package main

// Canonical terms ("value graph" nodes). Terms are hash-consed: pointer
// equality is structural equality. Numeric terms are kept in polynomial
// normal form over atoms, booleans as reduced ordered decision diagrams over
// atomic comparisons, other sorts as free terms with local simplification.

import (
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Sort uint8

const (
	SNum Sort = iota
	SBool
	SAtom // atomic condition (not a value)
	SSeq
	SStr
	STup
	SRef
	SOther
)

func (s Sort) String() string {
	return [...]string{"num", "bool", "atom", "seq", "str", "tup", "ref", "other"}[s]
}

type Op uint8

const (
	OPoly Op = iota // polynomial (not a bare atom)
	OVar            // named symbol
	OFn             // function application name(args)
	OIte            // args: atom, then, else (any value sort, incl. SBool: decision node)
	OTrue
	OFalse
	OLt0   // atom: args[0] < 0
	OEq0   // atom: args[0] == 0
	OEqT   // atom: args[0] == args[1], non numeric
	OHolds // atom: args[0] an opaque boolean-valued term (OVar/OFn of sort SBool-like)
	OTup
	OSel  // seq[i]
	OUnit // one-element sequence
	OCat  // concatenation of sequences
	OStore
	OFill // zero-valued sequence: name=elem zero key, args: n, zero
	OSub  // subsequence args: seq, lo, hi
	OComp // comprehension args: boundvar, n, body(seq)
	OSum  // args: boundvar, n, body(num)
	OStrC // string constant
	OSCat // string concatenation
	OFold // general loop result: name=index, args: boundvar,n, vars..., inits..., steps...
)

type Term struct {
	id    int
	op    Op
	sort  Sort
	isInt bool
	name  string
	args  []*Term
	poly  []pterm // for OPoly
	free  bool    // contains an ite somewhere inside
	key   string
}

type factor struct {
	a *Term
	e int
}
type mono []factor // sorted by atom id
type pterm struct {
	m mono
	c *big.Rat
}

var terms = map[string]*Term{}
var termList []*Term

// deadline bounds the time spent on one obligation; running into it makes the
// obligation undecided.
var deadline time.Time

// memLimit bounds the heap the same way.
const memLimit = 6 << 30

var lastMem time.Time

func checkDeadline() {
	if deadline.IsZero() {
		return
	}
	now := time.Now()
	if now.After(deadline) {
		panic(undecided("time budget exhausted"))
	}
	if now.Sub(lastMem) > time.Second {
		lastMem = now
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > memLimit {
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > memLimit {
				panic(undecided("memory budget exhausted"))
			}
		}
	}
}

var interned uint

func intern(t *Term) *Term {
	if interned++; interned&1023 == 0 {
		checkDeadline()
	}
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteByte(byte('0' + t.sort))
	if t.isInt {
		b.WriteByte('i')
	}
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	for _, a := range t.args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	if t.op == OPoly {
		for _, p := range t.poly {
			b.WriteString(p.c.RatString())
			for _, f := range p.m {
				b.WriteByte('*')
				b.WriteString(strconv.Itoa(f.a.id))
				b.WriteByte('^')
				b.WriteString(strconv.Itoa(f.e))
			}
			b.WriteByte('+')
		}
	}
	k := b.String()
	if x, ok := terms[k]; ok {
		return x
	}
	t.id = len(termList)
	t.key = k
	if t.op == OIte {
		t.free = true
	}
	for _, a := range t.args {
		if a.free {
			t.free = true
		}
	}
	for _, p := range t.poly {
		for _, f := range p.m {
			if f.a.free {
				t.free = true
			}
		}
	}
	terms[k] = t
	termList = append(termList, t)
	return t
}

var tTrue = intern(&Term{op: OTrue, sort: SBool})
var tFalse = intern(&Term{op: OFalse, sort: SBool})

// ---------- polynomials ----------

func mkVar(name string, s Sort, isInt bool) *Term {
	return intern(&Term{op: OVar, sort: s, isInt: isInt, name: name})
}

func numInt(n int64) *Term { return numRat(new(big.Rat).SetInt64(n)) }
func numRat(r *big.Rat) *Term {
	if r.Sign() == 0 {
		return intern(&Term{op: OPoly, sort: SNum, isInt: true})
	}
	return intern(&Term{op: OPoly, sort: SNum, isInt: r.IsInt(), poly: []pterm{{nil, new(big.Rat).Set(r)}}})
}
func ratF(a, b int64) *Term { return numRat(big.NewRat(a, b)) }

var tZero = numInt(0)
var tOne = numInt(1)
var tPI = mkVar("π", SNum, false)

func asPoly(t *Term) []pterm {
	if t.sort != SNum {
		panic(undecided("numeric term expected, got " + t.sort.String() + ": " + t.String()))
	}
	if t.op == OPoly {
		return t.poly
	}
	return []pterm{{mono{{t, 1}}, big.NewRat(1, 1)}}
}

func monoKey(m mono) string {
	var b strings.Builder
	for _, f := range m {
		b.WriteString(strconv.Itoa(f.a.id))
		b.WriteByte('^')
		b.WriteString(strconv.Itoa(f.e))
		b.WriteByte('*')
	}
	return b.String()
}

type acc struct {
	m map[string]*pterm
}

func newAcc() *acc { return &acc{map[string]*pterm{}} }
func (a *acc) add(m mono, c *big.Rat) {
	if c.Sign() == 0 {
		return
	}
	k := monoKey(m)
	if p, ok := a.m[k]; ok {
		p.c.Add(p.c, c)
		if p.c.Sign() == 0 {
			delete(a.m, k)
		}
		return
	}
	a.m[k] = &pterm{m, new(big.Rat).Set(c)}
}
func (a *acc) addPoly(p []pterm, scale *big.Rat) {
	for _, t := range p {
		a.add(t.m, new(big.Rat).Mul(t.c, scale))
	}
}
func cmpMono(a, b mono) int {
	da, db := 0, 0
	for _, f := range a {
		da += f.e
	}
	for _, f := range b {
		db += f.e
	}
	if da != db {
		return db - da // higher degree first
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].a != b[i].a {
			return a[i].a.id - b[i].a.id
		}
		if a[i].e != b[i].e {
			return b[i].e - a[i].e
		}
	}
	return len(a) - len(b)
}
func (a *acc) list() []pterm {
	out := make([]pterm, 0, len(a.m))
	for _, p := range a.m {
		out = append(out, *p)
	}
	sort.Slice(out, func(i, j int) bool { return cmpMono(out[i].m, out[j].m) < 0 })
	return out
}
func (a *acc) term() *Term { return fromPoly(a.list()) }

func fromPoly(p []pterm) *Term {
	if len(p) == 1 && len(p[0].m) == 1 && p[0].m[0].e == 1 && p[0].c.Cmp(big.NewRat(1, 1)) == 0 {
		return p[0].m[0].a
	}
	isInt := true
	for _, t := range p {
		if !t.c.IsInt() {
			isInt = false
		}
		for _, f := range t.m {
			if !f.a.isInt || f.e < 0 {
				isInt = false
			}
		}
	}
	return intern(&Term{op: OPoly, sort: SNum, isInt: isInt, poly: p})
}

var rat1 = big.NewRat(1, 1)
var ratM1 = big.NewRat(-1, 1)

func tAdd(ts ...*Term) *Term {
	a := newAcc()
	for _, t := range ts {
		a.addPoly(asPoly(t), rat1)
	}
	return a.term()
}
func tSub(x, y *Term) *Term {
	a := newAcc()
	a.addPoly(asPoly(x), rat1)
	a.addPoly(asPoly(y), ratM1)
	return a.term()
}
func tNeg(x *Term) *Term { return tSub(tZero, x) }
func tScale(x *Term, r *big.Rat) *Term {
	a := newAcc()
	a.addPoly(asPoly(x), r)
	return a.term()
}
func tMul(ts ...*Term) *Term {
	r := tOne
	for _, t := range ts {
		r = tMul2(r, t)
	}
	return r
}

func constOf(t *Term) (*big.Rat, bool) {
	if t.op == OPoly {
		if len(t.poly) == 0 {
			return new(big.Rat), true
		}
		if len(t.poly) == 1 && len(t.poly[0].m) == 0 {
			return t.poly[0].c, true
		}
	}
	return nil, false
}
func isConstInt(t *Term) (int64, bool) {
	if c, ok := constOf(t); ok && c.IsInt() && c.Num().IsInt64() {
		return c.Num().Int64(), true
	}
	return 0, false
}

func tMul2(x, y *Term) *Term {
	if c, ok := constOf(x); ok {
		return tScale(y, c)
	}
	if c, ok := constOf(y); ok {
		return tScale(x, c)
	}
	a := newAcc()
	px, py := asPoly(x), asPoly(y)
	if len(px)*len(py) > 400000 {
		panic(undecided("polynomial too large"))
	}
	for _, p := range px {
		for _, q := range py {
			c := new(big.Rat).Mul(p.c, q.c)
			a.mulInto(combine(p.m, q.m), c)
		}
	}
	return a.term()
}

func combine(m1, m2 mono) mono {
	out := make(mono, 0, len(m1)+len(m2))
	i, j := 0, 0
	for i < len(m1) || j < len(m2) {
		switch {
		case j >= len(m2) || (i < len(m1) && m1[i].a.id < m2[j].a.id):
			out = append(out, m1[i])
			i++
		case i >= len(m1) || m2[j].a.id < m1[i].a.id:
			out = append(out, m2[j])
			j++
		default:
			if e := m1[i].e + m2[j].e; e != 0 {
				out = append(out, factor{m1[i].a, e})
			}
			i++
			j++
		}
	}
	return out
}

// mulInto adds c*m to the accumulator, first rewriting reducible factors
// (sqrt(t)^2 = t, sin^2 = 1-cos^2, abs(x)^2 = x^2, inv(p)*p is left to
// clearing of denominators).
func (a *acc) mulInto(m mono, c *big.Rat) {
	for i, f := range m {
		var repl *Term
		restE := 0
		if f.a.op == OFn {
			switch f.a.name {
			case "sqrt":
				if f.e >= 2 || f.e < 0 {
					k := f.e / 2
					restE = f.e % 2
					if f.e < 0 {
						k = -((-f.e + 1) / 2)
						restE = f.e - 2*k
					}
					repl = tPow(f.a.args[0], k)
				}
			case "sin":
				if f.e >= 2 {
					k := f.e / 2
					restE = f.e % 2
					co := mkFnN("cos", false, f.a.args[0])
					repl = tPow(tSub(tOne, tMul2(co, co)), k)
				}
			case "abs":
				// |p|·|q| = |p·q|, so that a product of magnitudes and the
				// magnitude of a product are one term
				if f.e == 1 && len(asPoly(f.a.args[0])) > 1 {
					for j := i + 1; j < len(m); j++ {
						g := m[j]
						if g.e != 1 || g.a.op != OFn || g.a.name != "abs" || len(asPoly(g.a.args[0])) < 2 {
							continue
						}
						if len(asPoly(f.a.args[0]))*len(asPoly(g.a.args[0])) > 64 {
							continue
						}
						rest := make(mono, 0, len(m))
						rest = append(rest, m[:i]...)
						rest = append(rest, m[i+1:j]...)
						rest = append(rest, m[j+1:]...)
						for _, q := range asPoly(mkAbs(tMul2(f.a.args[0], g.a.args[0]))) {
							a.mulInto(combine(rest, q.m), new(big.Rat).Mul(c, q.c))
						}
						return
					}
				}
				if f.e >= 2 {
					k := f.e / 2
					restE = f.e % 2
					repl = tPow(f.a.args[0], 2*k)
				}
			case "inv":
				if f.e < 0 {
					repl = tPow(f.a.args[0], -f.e)
				}
			}
		}
		if repl != nil {
			rest := make(mono, 0, len(m))
			rest = append(rest, m[:i]...)
			if restE != 0 {
				rest = append(rest, factor{f.a, restE})
			}
			rest = append(rest, m[i+1:]...)
			for _, q := range asPoly(repl) {
				a.mulInto(combine(rest, q.m), new(big.Rat).Mul(c, q.c))
			}
			return
		}
	}
	a.add(m, c)
}

func tPow(x *Term, k int) *Term {
	if k < 0 {
		return tPow(tInv(x), -k)
	}
	r := tOne
	for i := 0; i < k; i++ {
		r = tMul2(r, x)
	}
	return r
}

// tInv: multiplicative inverse over the reals.
func tInv(x *Term) *Term {
	if x.op == OIte {
		return mkIteAtom(x.args[0], tInv(x.args[1]), tInv(x.args[2]))
	}
	p := asPoly(x)
	switch len(p) {
	case 0:
		return intern(&Term{op: OFn, sort: SNum, name: "inv0"})
	case 1:
		r := numRat(new(big.Rat).Inv(p[0].c))
		for _, f := range p[0].m {
			a := newAcc()
			a.mulInto(mono{{f.a, -f.e}}, rat1)
			r = tMul2(r, a.term())
		}
		return r
	}
	lead := p[0].c
	q := tScale(x, new(big.Rat).Inv(lead))
	at := intern(&Term{op: OFn, sort: SNum, name: "inv", args: []*Term{q}})
	return tScale(at, new(big.Rat).Inv(lead))
}
func tDiv(x, y *Term) *Term { return tMul2(x, tInv(y)) }

// clearDenoms multiplies t by enough factors to remove all inverses. The
// result is zero iff t is zero wherever its denominators do not vanish.
func clearDenoms(t *Term) *Term {
	for round := 0; round < 40; round++ {
		p := asPoly(t)
		var target *Term
		max := 0
		for _, q := range p {
			for _, f := range q.m {
				e := 0
				if f.a.op == OFn && f.a.name == "inv" {
					e = f.e
				} else if f.e < 0 {
					e = -f.e
				}
				if e > 0 && (target == nil || f.a == target) {
					target = f.a
					if e > max {
						max = e
					}
				}
			}
		}
		if target == nil {
			return t
		}
		a := newAcc()
		isInv := target.op == OFn && target.name == "inv"
		base := target
		if isInv {
			base = target.args[0]
		}
		for _, q := range p {
			e := 0
			rest := make(mono, 0, len(q.m))
			for _, f := range q.m {
				if f.a == target {
					e = f.e
					continue
				}
				rest = append(rest, f)
			}
			k := max + e // plain atom with negative exponent e
			if isInv {
				k = max - e
			}
			for _, w := range asPoly(tPow(base, k)) {
				a.mulInto(combine(rest, w.m), new(big.Rat).Mul(q.c, w.c))
			}
		}
		t = a.term()
	}
	panic(undecided("denominators do not clear"))
}

func isZero(t *Term) bool {
	if t == tZero {
		return true
	}
	return clearDenoms(t) == tZero
}

// ---------- generic function atoms ----------

func mkFn(name string, s Sort, isInt bool, args ...*Term) *Term {
	return intern(&Term{op: OFn, sort: s, isInt: isInt, name: name, args: args})
}
func mkFnN(name string, isInt bool, args ...*Term) *Term { return mkFn(name, SNum, isInt, args...) }

func leadCoef(t *Term) *big.Rat {
	p := asPoly(t)
	if len(p) == 0 {
		return new(big.Rat)
	}
	return p[0].c
}

func mkSqrt(x *Term) *Term {
	if x.op == OIte {
		return mkIteAtom(x.args[0], mkSqrt(x.args[1]), mkSqrt(x.args[2]))
	}
	if c, ok := constOf(x); ok && c.Sign() >= 0 {
		n, d := new(big.Int).Sqrt(c.Num()), new(big.Int).Sqrt(c.Denom())
		if new(big.Int).Mul(n, n).Cmp(c.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(c.Denom()) == 0 {
			return numRat(new(big.Rat).SetFrac(n, d))
		}
	}
	return mkFnN("sqrt", false, x)
}

func mkAbs(x *Term) *Term {
	if x.op == OIte {
		return mkIteAtom(x.args[0], mkAbs(x.args[1]), mkAbs(x.args[2]))
	}
	if c, ok := constOf(x); ok {
		return numRat(new(big.Rat).Abs(c))
	}
	p := asPoly(x)
	if len(p) == 1 {
		r := numRat(new(big.Rat).Abs(p[0].c))
		for _, f := range p[0].m {
			at := f.a
			if f.e%2 == 0 {
				r = tMul2(r, tPow(at, f.e))
			} else if isNonNegAtom(at) {
				r = tMul2(r, tPow(at, f.e))
			} else {
				r = tMul2(r, tPow(mkFnN("abs", at.isInt, at), f.e))
			}
		}
		return r
	}
	// |m·p| = |m|·|p| for the monomial m common to every term
	for _, f := range p[0].m {
		e := f.e
		for _, q := range p[1:] {
			have := 0
			for _, g := range q.m {
				if g.a == f.a {
					have = g.e
				}
			}
			if have < e {
				e = have
			}
		}
		if e <= 0 {
			continue
		}
		a := newAcc()
		for _, q := range p {
			rest := make(mono, 0, len(q.m))
			for _, g := range q.m {
				switch {
				case g.a != f.a:
					rest = append(rest, g)
				case g.e > e:
					rest = append(rest, factor{g.a, g.e - e})
				}
			}
			a.add(rest, q.c)
		}
		return tMul2(mkAbs(tPow(f.a, e)), mkAbs(a.term()))
	}
	if c := leadCoef(x); !x.isInt && c.Cmp(rat1) != 0 {
		inv := new(big.Rat).Inv(c)
		return tScale(mkFnN("abs", false, tScale(x, inv)), new(big.Rat).Abs(c))
	}
	if leadCoef(x).Sign() < 0 {
		x = tNeg(x)
	}
	return mkFnN("abs", x.isInt, x)
}

func isNonNegAtom(t *Term) bool {
	if t.op == OFn {
		switch t.name {
		case "abs", "sqrt", "len", "pos", "runelen", "first":
			return true
		}
	}
	if t.op == OVar && strings.HasPrefix(t.name, "X") || nonNegParam[t] {
		return true
	}
	if t.op == OVar && (strings.HasPrefix(t.name, "K") || strings.HasPrefix(t.name, "κ") || strings.HasPrefix(t.name, "β") || t == tPI) {
		return true
	}
	return false
}

// nonNegParam: parameters assumed non-negative while a rule runs
var nonNegParam = map[*Term]bool{}

// trig with canonical argument
func mkTrig(cos bool, x *Term) *Term {
	if x.op == OIte {
		return mkIteAtom(x.args[0], mkTrig(cos, x.args[1]), mkTrig(cos, x.args[2]))
	}
	// split off rational multiple of pi
	q := new(big.Rat)
	a := newAcc()
	for _, p := range asPoly(x) {
		if len(p.m) == 1 && p.m[0].a == tPI && p.m[0].e == 1 {
			q = p.c
			continue
		}
		a.add(p.m, p.c)
	}
	rest := a.term()
	// q = h/2 + frac, h integer number of half turns steps
	h := new(big.Rat).Mul(q, big.NewRat(2, 1))
	fl := floorRat(h)
	frac := new(big.Rat).Sub(h, new(big.Rat).SetInt(fl))
	rest = tAdd(rest, tScale(tPI, new(big.Rat).Mul(frac, big.NewRat(1, 2))))
	m := int(new(big.Int).Mod(fl, big.NewInt(4)).Int64())
	// f(x + m*pi/2)
	sgn := int64(1)
	for i := 0; i < m; i++ {
		if cos {
			cos = false
			sgn = -sgn
		} else {
			cos = true
		}
	}
	if rest == tZero {
		if cos {
			return numInt(sgn)
		}
		return tZero
	}
	if leadCoef(rest).Sign() < 0 {
		rest = tNeg(rest)
		if !cos {
			sgn = -sgn
		}
	}
	name := "sin"
	if cos {
		name = "cos"
	}
	return tScale(mkFnN(name, false, rest), new(big.Rat).SetInt64(sgn))
}

func floorRat(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return q
}

// mod of a non-negative integer by a positive constant
func mkMod(x, m *Term) *Term {
	mc, ok := isConstInt(m)
	if xc, isC := isConstInt(x); isC && ok && mc != 0 {
		return numInt(xc % mc)
	}
	if x == m && !ok && x.isInt {
		return tZero
	}
	if ok && mc > 0 && x.isInt {
		if c := constPart(x); c.Sign() < 0 {
			return mkFnN("mod", true, x, m)
		}
		a := newAcc()
		allNN := true
		for _, p := range asPoly(x) {
			if len(p.m) > 0 && new(big.Int).Mod(p.c.Num(), big.NewInt(mc)).Sign() == 0 {
				continue
			}
			if len(p.m) == 0 {
				a.add(p.m, new(big.Rat).SetInt(new(big.Int).Mod(p.c.Num(), big.NewInt(mc))))
				continue
			}
			a.add(p.m, p.c)
			allNN = false
		}
		r := a.term()
		if allNN {
			return r
		}
		if r.op == OFn && r.name == "mod" && r.args[1] == m {
			return r
		}
		x = r
	}
	return mkFnN("mod", true, x, m)
}

func mkIdiv(x, y *Term) *Term {
	if a, ok := isConstInt(x); ok {
		if b, ok := isConstInt(y); ok && b != 0 {
			return numInt(a / b)
		}
	}
	if y == tOne {
		return x
	}
	if c, ok := isConstInt(y); ok && c > 0 && x.isInt && constPart(x).Sign() >= 0 {
		// multiples of the divisor are divided out (non-negative dividends)
		q, r := newAcc(), newAcc()
		for _, p := range asPoly(x) {
			d := new(big.Int)
			m := new(big.Int)
			if len(p.m) > 0 {
				if d.DivMod(p.c.Num(), big.NewInt(c), m); m.Sign() == 0 {
					q.add(p.m, new(big.Rat).SetInt(d))
				} else {
					r.add(p.m, p.c)
				}
				continue
			}
			d.DivMod(p.c.Num(), big.NewInt(c), m)
			q.add(p.m, new(big.Rat).SetInt(d))
			r.add(p.m, new(big.Rat).SetInt(m))
		}
		rt := r.term()
		if _, isC := isConstInt(rt); isC {
			return q.term()
		}
		return tAdd(q.term(), mkFnN("idiv", true, rt, y))
	}
	return mkFnN("idiv", true, x, y)
}

// constPart is the constant term of a polynomial
func constPart(t *Term) *big.Rat {
	for _, p := range asPoly(t) {
		if len(p.m) == 0 {
			return p.c
		}
	}
	return new(big.Rat)
}

// ---------- booleans ----------

func mkAtomNode(at *Term) *Term {
	return intern(&Term{op: OIte, sort: SBool, args: []*Term{at, tTrue, tFalse}})
}

func primitive(t *Term) *Term { // positive rational multiple with coprime integer coefficients
	p := asPoly(t)
	if len(p) == 0 {
		return t
	}
	l := big.NewInt(1)
	for _, q := range p {
		d := q.c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Div(new(big.Int).Mul(l, d), g)
	}
	g := new(big.Int)
	for _, q := range p {
		n := new(big.Int).Mul(q.c.Num(), new(big.Int).Div(l, q.c.Denom()))
		g.GCD(nil, nil, g, new(big.Int).Abs(n))
	}
	return tScale(t, new(big.Rat).SetFrac(l, g))
}

// bLt0: boolean  t < 0
func bLt0(t *Term) *Term {
	if t.op == OIte {
		return bIte(mkAtomNode(t.args[0]), bLt0(t.args[1]), bLt0(t.args[2]))
	}
	if c, ok := constOf(t); ok {
		return bConst(c.Sign() < 0)
	}
	if h := hoistIte(t); h != nil {
		return bIte(mkAtomNode(h.args[0]), bLt0(replaceAtom(t, h, h.args[1])), bLt0(replaceAtom(t, h, h.args[2])))
	}
	if t.isInt {
		// canonical: leading coefficient positive
		if leadCoef(t).Sign() < 0 {
			// t<0  <=>  not (t>=0) <=> not(-t <= 0) <=> not(-t-1 < 0)
			u := tSub(tNeg(t), tOne)
			if x := emptyRunes(tAdd(u, tOne)); x != nil {
				return bNot(bLt0(tSub(mkLen(x), tOne)))
			}
			return bNot(mkAtomNode(intern(&Term{op: OLt0, sort: SAtom, args: []*Term{u}})))
		}
		if x := emptyRunes(tAdd(t, tOne)); x != nil {
			return bLt0(tSub(mkLen(x), tOne))
		}
		return mkAtomNode(intern(&Term{op: OLt0, sort: SAtom, args: []*Term{t}}))
	}
	return mkAtomNode(intern(&Term{op: OLt0, sort: SAtom, args: []*Term{primitive(t)}}))
}

// emptyRunes: the text whose number of characters t is; it is empty exactly
// when it has no bytes
func emptyRunes(t *Term) *Term {
	if t.op == OFn && t.name == "runelen" {
		return t.args[0]
	}
	return nil
}

func bEq0(t *Term) *Term {
	if t.op == OIte {
		return bIte(mkAtomNode(t.args[0]), bEq0(t.args[1]), bEq0(t.args[2]))
	}
	if c, ok := constOf(t); ok {
		return bConst(c.Sign() == 0)
	}
	if h := hoistIte(t); h != nil {
		return bIte(mkAtomNode(h.args[0]), bEq0(replaceAtom(t, h, h.args[1])), bEq0(replaceAtom(t, h, h.args[2])))
	}
	if !t.isInt {
		if f := commonFactor(t); f != nil {
			rest := divFactor(t, f)
			if f.name == "inv" {
				return bEq0(rest)
			}
			return bOr(bEq0(f.args[0]), bEq0(rest))
		}
	}
	if x := emptyRunes(t); x != nil {
		return bEq0(mkLen(x))
	}
	t = primitive(t)
	if t.isInt && !integerRoot(t) {
		return tFalse
	}
	if leadCoef(t).Sign() < 0 {
		t = tNeg(t)
	}
	return mkAtomNode(intern(&Term{op: OEq0, sort: SAtom, args: []*Term{t}}))
}

// commonFactor: an inv or sqrt atom dividing every monomial of t
func commonFactor(t *Term) *Term {
	ps := asPoly(t)
	if len(ps) == 0 {
		return nil
	}
	for _, f := range ps[0].m {
		if f.a.op != OFn || f.a.name != "inv" && f.a.name != "sqrt" {
			continue
		}
		all := true
		for _, q := range ps[1:] {
			has := false
			for _, g := range q.m {
				has = has || g.a == f.a
			}
			all = all && has
		}
		if all && !(len(ps) == 1 && len(ps[0].m) == 1 && f.e == 1 && f.a.name == "inv") {
			return f.a
		}
	}
	return nil
}

// divFactor removes every common power of the atom f
func divFactor(t, f *Term) *Term {
	a := newAcc()
	for _, q := range asPoly(t) {
		m := mono{}
		for _, g := range q.m {
			if g.a == f {
				if g.e > 1 {
					m = append(m, factor{g.a, g.e - 1})
				}
				continue
			}
			m = append(m, g)
		}
		a.add(m, q.c)
	}
	return a.term()
}

// hoistIte finds an ite atom occurring directly as a factor of the polynomial.
func hoistIte(t *Term) *Term {
	if t.op != OPoly || !t.free {
		return nil
	}
	for _, p := range t.poly {
		for _, f := range p.m {
			if f.a.op == OIte {
				return f.a
			}
		}
	}
	return nil
}
func replaceAtom(t, from, to *Term) *Term {
	return subst(t, map[*Term]*Term{from: to})
}

func bConst(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func bLt(a, b *Term) *Term { return bLt0(tSub(a, b)) }
func bLe(a, b *Term) *Term { return bNot(bLt0(tSub(b, a))) }
func bEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SNum && b.sort == SNum {
		return bEq0(tSub(a, b))
	}
	if a.sort == SBool && b.sort == SBool {
		return bIte(a, b, bNot(b))
	}
	if a.op == OIte {
		return bIte(mkAtomNode(a.args[0]), bEq(a.args[1], b), bEq(a.args[2], b))
	}
	if b.op == OIte {
		return bIte(mkAtomNode(b.args[0]), bEq(a, b.args[1]), bEq(a, b.args[2]))
	}
	if a.op == OStrC && b.op == OStrC {
		return tFalse // interned and different
	}
	if a.op == OTup && b.op == OTup && len(a.args) == len(b.args) {
		r := tTrue
		for i := range a.args {
			r = bAnd(r, bEq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.sort == SStr || b.sort == SStr { // "" == s  <=> len(s)==0
		if a.op == OStrC && a.name == "" {
			return bEq0(mkLen(b))
		}
		if b.op == OStrC && b.name == "" {
			return bEq0(mkLen(a))
		}
	}
	if isFuncRef(a) && isNilT(b) || isFuncRef(b) && isNilT(a) {
		return tFalse
	}
	if isFreshRef(a) && (isNilT(b) || isFreshRef(b)) || isFreshRef(b) && isNilT(a) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkAtomNode(intern(&Term{op: OEqT, sort: SAtom, args: []*Term{a, b}}))
}

func isFreshRef(t *Term) bool { return t.op == OFn && strings.HasPrefix(t.name, "fresh:") }
func isFuncRef(t *Term) bool  { return t.op == OFn && strings.HasPrefix(t.name, "func:") }
func isNilT(t *Term) bool     { return t.op == OFn && t.name == "nil" }

// bHolds: opaque boolean term
func bHolds(t *Term) *Term {
	if t == tTrue || t == tFalse {
		return t
	}
	return mkAtomNode(intern(&Term{op: OHolds, sort: SAtom, args: []*Term{t}}))
}

var iteMemo = map[[3]int]*Term{}

// bIte / mkIte: decision-diagram composition. c is boolean.
func bIte(c, a, b *Term) *Term { return mkIte(c, a, b) }

func topAtom(ts ...*Term) *Term {
	var best *Term
	for _, t := range ts {
		if t.op == OIte {
			if best == nil || t.args[0].id < best.id {
				best = t.args[0]
			}
		}
	}
	return best
}
func cof(t, at *Term, hi bool) *Term {
	if t.op == OIte && t.args[0] == at {
		if hi {
			return t.args[1]
		}
		return t.args[2]
	}
	return t
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	var r *Term
	if a.op == OTup && b.op == OTup && a.name == b.name && len(a.args) == len(b.args) {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = mkIte(c, a.args[i], b.args[i])
		}
		r = mkTup(a.name, args...)
	} else {
		at := topAtom(c, a, b)
		hi := mkIte(cof(c, at, true), cof(a, at, true), cof(b, at, true))
		lo := mkIte(cof(c, at, false), cof(a, at, false), cof(b, at, false))
		r = mkIteAtom(at, hi, lo)
	}
	iteMemo[k] = r
	return r
}

func mkIteAtom(at, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	if hi.op == OTup && lo.op == OTup && hi.name == lo.name && len(hi.args) == len(lo.args) {
		args := make([]*Term, len(hi.args))
		for i := range args {
			args[i] = mkIteAtom(at, hi.args[i], lo.args[i])
		}
		return mkTup(hi.name, args...)
	}
	// ordering violation inside branches: rebuild through mkIte
	if (hi.op == OIte && hi.args[0].id <= at.id) || (lo.op == OIte && lo.args[0].id <= at.id) {
		h, l := restrict(hi, at, true), restrict(lo, at, false)
		if (h.op == OIte && h.args[0].id < at.id) || (l.op == OIte && l.args[0].id < at.id) {
			return mkIte(mkAtomNode(at), h, l)
		}
		hi, lo = h, l
		if hi == lo {
			return hi
		}
	}
	// |x| recognition
	if hi.sort == SNum && lo.sort == SNum && at.op == OLt0 {
		p := at.args[0]
		if !p.free && isZero(tAdd(hi, lo)) {
			q := primitive(hi)
			if q == tNeg(p) || q == primitive(tNeg(p)) {
				return mkAbs(hi)
			}
			if q == p || q == primitive(p) {
				return tNeg(mkAbs(hi))
			}
		}
	}
	s := hi.sort
	if s == SBool && hi == tTrue && lo == tFalse {
		return mkAtomNode(at)
	}
	return intern(&Term{op: OIte, sort: s, isInt: hi.isInt && lo.isInt, args: []*Term{at, hi, lo}})
}

func restrict(t, at *Term, v bool) *Term {
	if t.op != OIte {
		return t
	}
	if t.args[0] == at {
		if v {
			return t.args[1]
		}
		return t.args[2]
	}
	if t.args[0].id > at.id {
		return t
	}
	return mkIteAtom(t.args[0], restrict(t.args[1], at, v), restrict(t.args[2], at, v))
}

func bNot(a *Term) *Term    { return mkIte(a, tFalse, tTrue) }
func bAnd(a, b *Term) *Term { return mkIte(a, b, tFalse) }
func bOr(a, b *Term) *Term  { return mkIte(a, tTrue, b) }

// ---------- tuples, sequences, strings ----------

func mkTup(name string, args ...*Term) *Term {
	// eta: Tup(field0(x),field1(x),...) = x
	if len(args) > 0 && args[0].op == OFn && strings.HasPrefix(args[0].name, "field0:"+name) {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if a.op != OFn || len(a.args) != 1 || a.args[0] != x || a.name != fmt.Sprintf("field%d:%s", i, name) {
				ok = false
				break
			}
		}
		if ok && x.sort == STup {
			return x
		}
	}
	return intern(&Term{op: OTup, sort: STup, name: name, args: args})
}

func mkField(t *Term, tname string, i int, s Sort, isInt bool) *Term {
	if t.op == OTup {
		return t.args[i]
	}
	if t.op == OIte {
		return mkIteAtom(t.args[0], mkField(t.args[1], tname, i, s, isInt), mkField(t.args[2], tname, i, s, isInt))
	}
	return mkFn(fmt.Sprintf("field%d:%s", i, tname), s, isInt, t)
}

var tEmpty = intern(&Term{op: OCat, sort: SSeq})

func mkUnit(v *Term) *Term { return intern(&Term{op: OUnit, sort: SSeq, args: []*Term{v}}) }

func mkCat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OCat {
			out = append(out, p.args...)
			continue
		}
		if p.op == OSub && p.args[1] == p.args[2] {
			continue
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: OCat, sort: SSeq, args: out})
}

func mkLen(t *Term) *Term {
	switch t.op {
	case OUnit:
		return tOne
	case OCat:
		r := tZero
		for _, a := range t.args {
			r = tAdd(r, mkLen(a))
		}
		return r
	case OSCat:
		r := tZero
		for _, a := range t.args {
			r = tAdd(r, mkLen(a))
		}
		return r
	case OStore:
		return mkLen(t.args[0])
	case OFill:
		return t.args[0]
	case OSub:
		return tSub(t.args[2], t.args[1])
	case OStrC:
		return numInt(int64(len(t.name)))
	case OIte:
		return mkIteAtom(t.args[0], mkLen(t.args[1]), mkLen(t.args[2]))
	case OComp:
		l := mkLen(t.args[2])
		if !occurs(l, t.args[0]) {
			return tMul2(t.args[1], l)
		}
		return mkSum(t.args[0], t.args[1], l)
	case OFn:
		if t.name == "strsub" {
			return tSub(t.args[2], t.args[1])
		}
		switch t.name {
		case "sorted", "sortedby", "seqmap", "bytes", "bytes2str", "revpart", "reversed":
			return mkLen(t.args[0])
		case "runes":
			return mkFnN("runelen", true, t.args[0])
		}
	}
	if t.op == OFn && strings.HasPrefix(t.name, "fillupd") {
		return mkLen(t.args[0])
	}
	if l := keptLen[t]; l != nil {
		return l
	}
	return mkFnN("len", true, t)
}

func mkSum(v, n, body *Term) *Term {
	if body == tZero || n == tZero {
		return tZero
	}
	if !occurs(body, v) {
		return tMul2(n, body)
	}
	// linearity: pull out terms not involving v, and coefficients
	a := newAcc()
	if n1, ok := isConstInt(n); ok && n1 == 1 {
		return subst(body, map[*Term]*Term{v: tZero})
	}
	res := tZero
	if k, ok := smallCount(n, body); ok {
		for i := int64(0); i < k; i++ {
			res = tAdd(res, subst(body, map[*Term]*Term{v: numInt(i)}))
		}
		return res
	}
	for _, p := range asPoly(body) {
		dep := false
		for _, f := range p.m {
			if occurs(f.a, v) {
				dep = true
			}
		}
		if !dep {
			res = tAdd(res, tMul2(n, fromPoly([]pterm{p})))
			continue
		}
		// polynomial in v alone of low degree: closed form
		if len(p.m) == 1 && p.m[0].a == v && p.m[0].e == 1 {
			s := tMul(n, tSub(n, tOne), ratF(1, 2))
			res = tAdd(res, tScale(s, p.c))
			continue
		}
		inv := mono{}
		depm := mono{}
		for _, f := range p.m {
			if occurs(f.a, v) {
				depm = append(depm, f)
			} else {
				inv = append(inv, f)
			}
		}
		if len(depm) == 1 && depm[0].a == v && depm[0].e == 1 {
			s := tMul(n, tSub(n, tOne), ratF(1, 2))
			res = tAdd(res, tMul2(s, fromPoly([]pterm{{inv, p.c}})))
			continue
		}
		d := fromPoly([]pterm{{depm, rat1}})
		bv, nb := canonBound(v, d)
		st := intern(&Term{op: OSum, sort: SNum, isInt: d.isInt, args: []*Term{bv, n, nb}})
		for _, q := range asPoly(tMul2(st, fromPoly([]pterm{{inv, p.c}}))) {
			a.add(q.m, q.c)
		}
	}
	return tAdd(res, a.term())
}

// canonBound renames bound variable v in body to a canonical κ variable.
func canonBound(v, body *Term) (*Term, *Term) {
	d := boundDepth(body, v) + 1
	bv := mkVar("κ"+strconv.Itoa(d), SNum, true)
	if bv == v {
		return v, body
	}
	return bv, subst(body, map[*Term]*Term{v: bv})
}

var freshCount int

func boundDepth(t, except *Term) int {
	// maximum κ index occurring (bound or free) in t other than `except`
	m := 0
	seen := map[*Term]bool{}
	var walk func(*Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == OVar && x != except && strings.HasPrefix(x.name, "κ") {
			if k, err := strconv.Atoi(strings.TrimPrefix(x.name, "κ")); err == nil && k > m {
				m = k
			}
		}
		for _, a := range x.args {
			walk(a)
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				walk(f.a)
			}
		}
	}
	walk(t)
	return m
}

// smallCount: a loop over few cheap iterations is unrolled
func smallCount(n *Term, bodies ...*Term) (int64, bool) {
	k, ok := isConstInt(n)
	if !ok || k < 1 || k > 8 {
		return 0, false
	}
	for _, b := range bodies {
		if bigTerm(b, 150) || anyTerm(b, func(x *Term) bool { return x.op == OFold || x.op == OSum || x.op == OComp }) {
			return 0, false
		}
	}
	return k, true
}

func mkComp(v, n, body *Term) *Term {
	if n == tZero || body == tEmpty {
		return tEmpty
	}
	if n == tOne {
		return subst(body, map[*Term]*Term{v: tZero})
	}
	// [S[i] for i in 0..len S) = S
	if body.op == OUnit {
		e := body.args[0]
		if e.op == OSel && e.args[1] == v && !occurs(e.args[0], v) && mkLen(e.args[0]) == n {
			return e.args[0]
		}
		if e.op == OSel && !occurs(e.args[0], v) && mkLen(e.args[0]) == n && e.args[1] == tSub(tSub(n, tOne), v) {
			return mkFn("reversed", SSeq, false, e.args[0])
		}
	}
	if k, ok := smallCount(n, body); ok {
		l := tEmpty
		for i := int64(0); i < k; i++ {
			l = mkCat(l, subst(body, map[*Term]*Term{v: numInt(i)}))
		}
		return l
	}
	bv, nb := canonBound(v, body)
	return intern(&Term{op: OComp, sort: SSeq, args: []*Term{bv, n, nb}})
}

func mkSub(s, lo, hi *Term) *Term {
	if lo == hi {
		return tEmpty
	}
	if lo == tZero && hi == mkLen(s) {
		return s
	}
	if s.op == OIte {
		return mkIteAtom(s.args[0], mkSub(s.args[1], lo, hi), mkSub(s.args[2], lo, hi))
	}
	if s.op == OSub {
		return mkSub(s.args[0], tAdd(s.args[1], lo), tAdd(s.args[1], hi))
	}
	if s.op == OCat {
		// cut at constant-length boundaries
		pos := tZero
		parts := s.args
		// drop leading parts entirely before lo
		i := 0
		for i < len(parts) {
			l := mkLen(parts[i])
			np := tAdd(pos, l)
			if d, ok := constOf(tSub(lo, np)); ok && d.Sign() >= 0 {
				pos = np
				i++
				continue
			}
			break
		}
		if i > 0 {
			return mkSub(mkCat(parts[i:]...), tSub(lo, pos), tSub(hi, pos))
		}
		// drop trailing parts entirely after hi
		end := mkLen(s)
		j := len(parts)
		for j > 0 {
			l := mkLen(parts[j-1])
			np := tSub(end, l)
			if d, ok := constOf(tSub(np, hi)); ok && d.Sign() >= 0 {
				end = np
				j--
				continue
			}
			break
		}
		if j < len(parts) {
			return mkSub(mkCat(parts[:j]...), lo, hi)
		}
	}
	return intern(&Term{op: OSub, sort: SSeq, args: []*Term{s, lo, hi}})
}

func mkFill(n, zero *Term) *Term {
	if n == tZero {
		return tEmpty
	}
	return intern(&Term{op: OFill, sort: SSeq, args: []*Term{n, zero}})
}

func mkStore(s, i, v *Term) *Term {
	if s.op == OIte {
		return mkIteAtom(s.args[0], mkStore(s.args[1], i, v), mkStore(s.args[2], i, v))
	}
	if s.op == OStore && s.args[1] == i {
		return mkStore(s.args[0], i, v)
	}
	if v.op == OSel && v.args[0] == s && v.args[1] == i {
		return s
	}
	if s.op == OUnit && i == tZero {
		return mkUnit(v)
	}
	if s.op == OFill {
		if n, ok := isConstInt(s.args[0]); ok && n <= 64 {
			if _, ok := isConstInt(i); ok {
				u := make([]*Term, n)
				for k := range u {
					u[k] = mkUnit(s.args[1])
				}
				return mkStore(mkCat(u...), i, v)
			}
		}
	}
	if s.op == OCat {
		pos := tZero
		for k, p := range s.args {
			l := mkLen(p)
			np := tAdd(pos, l)
			if d, ok := constOf(tSub(i, np)); ok && d.Sign() >= 0 {
				pos = np
				continue
			}
			if d, ok := constOf(tSub(i, pos)); ok && d.Sign() >= 0 {
				if d2, ok := constOf(tSub(np, i)); ok && d2.Sign() > 0 {
					parts := append([]*Term{}, s.args...)
					parts[k] = mkStore(p, tSub(i, pos), v)
					return mkCat(parts...)
				}
			}
			break
		}
	}
	// commuting stores with provably different indices: order by index id
	if s.op == OStore {
		if d, ok := constOf(tSub(s.args[1], i)); ok && d.Sign() != 0 && s.args[1].id > i.id {
			return mkStore(mkStore(s.args[0], i, v), s.args[1], s.args[2])
		}
	}
	return intern(&Term{op: OStore, sort: SSeq, args: []*Term{s, i, v}})
}

// mkSel: element i of sequence s, of the given sort.
// lazySel: reading a sequence after a store at another place is left as it is
var lazySel bool

func mkSel(s, i *Term, es Sort, isInt bool) *Term {
	switch s.op {
	case OIte:
		return mkIteAtom(s.args[0], mkSel(s.args[1], i, es, isInt), mkSel(s.args[2], i, es, isInt))
	case OUnit:
		return s.args[0]
	case OFill:
		return s.args[1]
	case OSub:
		return mkSel(s.args[0], tAdd(s.args[1], i), es, isInt)
	case OStore:
		if s.args[1] == i {
			return s.args[2]
		}
		if d, ok := constOf(tSub(s.args[1], i)); ok && d.Sign() != 0 {
			return mkSel(s.args[0], i, es, isInt)
		}
		if lazySel {
			break
		}
		return mkIte(bEq0(tSub(i, s.args[1])), s.args[2], mkSel(s.args[0], i, es, isInt))
	case OFn:
		if s.name == "reversed" {
			return mkSel(s.args[0], tSub(tSub(mkLen(s.args[0]), tOne), i), es, isInt)
		}
	case OComp:
		body := s.args[2]
		bl := mkLen(body)
		if bl == tOne {
			e := mkSel(body, tZero, es, isInt)
			return subst(e, map[*Term]*Term{s.args[0]: i})
		}
	case OCat:
		pos := tZero
		for k, p := range s.args {
			l := mkLen(p)
			np := tAdd(pos, l)
			rel := tSub(i, np)
			if d, ok := constOf(rel); ok && d.Sign() >= 0 {
				pos = np
				continue
			}
			if provablyNonNeg(rel) {
				pos = np
				continue
			}
			inside := k == len(s.args)-1
			if d, ok := constOf(rel); ok && d.Sign() < 0 {
				inside = true
			}
			if inside {
				return mkSel(p, tSub(i, pos), es, isInt)
			}
			rest := mkSel(mkCat(s.args[k+1:]...), tSub(i, np), es, isInt)
			return mkIte(bLt0(rel), mkSel(p, tSub(i, pos), es, isInt), rest)
		}
	}
	return intern(&Term{op: OSel, sort: es, isInt: isInt, args: []*Term{s, i}})
}

// provablyNonNeg: all coefficients non-negative over non-negative atoms.
func provablyNonNeg(t *Term) bool {
	for _, p := range asPoly(t) {
		if p.c.Sign() < 0 {
			return false
		}
		for _, f := range p.m {
			if f.e%2 != 0 && !isNonNegAtom(f.a) {
				return false
			}
		}
	}
	return true
}

func mkStr(s string) *Term { return intern(&Term{op: OStrC, sort: SStr, name: s}) }
func mkSCat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		switch {
		case p.op == OSCat:
			for _, q := range p.args {
				out = appendStr(out, q)
			}
		default:
			out = appendStr(out, p)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{op: OSCat, sort: SStr, args: out})
}
func appendStr(out []*Term, p *Term) []*Term {
	if p.op == OStrC && p.name == "" {
		return out
	}
	if len(out) > 0 && p.op == OStrC && out[len(out)-1].op == OStrC {
		out = append(out[:len(out)-1:len(out)-1], mkStr(out[len(out)-1].name+p.name))
		return out
	}
	return append(out, p)
}

// ---------- traversal ----------

func occurs(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(x *Term) bool {
		if x == v {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				if walk(f.a) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

func anyTerm(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				if walk(f.a) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return (&rewriter{m: m, memo: map[*Term]*Term{}}).rw(t)
}

type rewriter struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	ctx  *Ctx // optional: decide atoms
}

func (r *rewriter) rw(t *Term) *Term {
	if x, ok := r.memo[t]; ok {
		return x
	}
	x := r.rw1(t)
	r.memo[t] = x
	return x
}

func (r *rewriter) args(t *Term) ([]*Term, bool) {
	ch := false
	out := make([]*Term, len(t.args))
	for i, a := range t.args {
		out[i] = r.rw(a)
		if out[i] != a {
			ch = true
		}
	}
	return out, ch
}

func (r *rewriter) rw1(t *Term) *Term {
	if x, ok := r.m[t]; ok {
		return x
	}
	switch t.op {
	case OVar, OTrue, OFalse, OStrC:
		return t
	case OPoly:
		ch := false
		vals := make([][]*Term, len(t.poly))
		for i, p := range t.poly {
			vals[i] = make([]*Term, len(p.m))
			for j, f := range p.m {
				vals[i][j] = r.rw(f.a)
				if vals[i][j] != f.a {
					ch = true
				}
			}
		}
		if !ch {
			return t
		}
		a := newAcc()
		for i, p := range t.poly {
			same := true
			for j, f := range p.m {
				if vals[i][j] != f.a {
					same = false
				}
			}
			if same {
				a.add(p.m, p.c)
				continue
			}
			x := numRat(p.c)
			for j, f := range p.m {
				x = tMul2(x, tPow(vals[i][j], f.e))
			}
			a.addPoly(asPoly(x), rat1)
		}
		return a.term()
	case OIte:
		c := r.cond(t.args[0])
		if c == tTrue {
			return r.rw(t.args[1])
		}
		if c == tFalse {
			return r.rw(t.args[2])
		}
		return mkIte(c, r.rw(t.args[1]), r.rw(t.args[2]))
	}
	if t.op == OComp || t.op == OSum {
		if r.ctx == nil {
			hit := false
			for k := range r.m {
				if occurs(t, k) {
					hit = true
					break
				}
			}
			if !hit {
				return t
			}
		}
		freshCount++
		fv := mkVar("β"+strconv.Itoa(freshCount), SNum, true)
		n := r.rw(t.args[1])
		rr := r
		if r.ctx != nil {
			rr = &rewriter{m: r.m, memo: map[*Term]*Term{}, ctx: r.ctx.boundVar(fv, n)}
		}
		body := rr.rw(subst(t.args[2], map[*Term]*Term{t.args[0]: fv}))
		if t.op == OComp {
			return mkComp(fv, n, body)
		}
		return mkSum(fv, n, body)
	}
	if t.op == OFold {
		return r.rwFold(t)
	}
	args, ch := r.args(t)
	if ch {
		t = rebuild(t, args)
	}
	if r.ctx != nil {
		return r.ctx.known(t)
	}
	return t
}

// known uses what the context knows about lengths and maps.
func (c *Ctx) known(t *Term) *Term {
	switch {
	case t.op == OSub && t.args[0].op == OCat && len(t.args[0].args) > 0:
		p := t.args[0].args
		l := mkLen(p[0])
		no := func(b *Term) bool { return c.decideBool(b) == tFalse }
		if no(bLt(l, t.args[1])) && no(bLt(t.args[2], l)) {
			return mkCat(mkSub(p[0], t.args[1], l), mkSub(mkCat(p[1:]...), tZero, tSub(t.args[2], l)))
		}
	case t.op == OFn && t.name == "mapget":
		if T := mapElem[t]; T != nil {
			if h := mkMapHas(t.args[0], t.args[1]); c.decideBool(h) == tFalse {
				return zeroOf(T)
			}
		}
	}
	return t
}

func (r *rewriter) rwFold(t *Term) *Term {
	if r.ctx == nil {
		hit := false
		for k := range r.m {
			if occurs(t, k) {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
	}
	fv := foldOf(t)
	freshCount++
	tag := strconv.Itoa(freshCount)
	bv := mkVar("β"+tag, SNum, true)
	m := map[*Term]*Term{fv.k: bv}
	vs := make([]*Term, len(fv.vars))
	for i, v := range fv.vars {
		vs[i] = mkVar("ψ"+tag+"_"+strconv.Itoa(i), v.sort, v.isInt)
		m[v] = vs[i]
	}
	n := r.rw(fv.n)
	rr := r
	if r.ctx != nil {
		rr = &rewriter{m: r.m, memo: map[*Term]*Term{}, ctx: r.ctx.boundVar(bv, n)}
	}
	inits := make([]*Term, len(vs))
	steps := make([]*Term, len(vs))
	for i := range vs {
		inits[i] = r.rw(fv.inits[i])
		steps[i] = rr.rw(subst(fv.steps[i], m))
	}
	idx, _ := strconv.Atoi(t.name)
	return mkFold(idx, bv, n, vs, inits, steps)
}

// cond rewrites an atom to a boolean.
func (r *rewriter) cond(at *Term) *Term {
	args, ch := r.args(at)
	var b *Term
	if !ch {
		b = mkAtomNode(at)
	} else {
		b = rebuildAtom(at, args)
	}
	if r.ctx != nil {
		if b.op == OIte {
			b = r.ctx.decideBool(b)
		}
	}
	return b
}

func rebuildAtom(at *Term, args []*Term) *Term {
	switch at.op {
	case OLt0:
		return bLt0(args[0])
	case OEq0:
		return bEq0(args[0])
	case OEqT:
		return bEq(args[0], args[1])
	case OHolds:
		return boolOf(args[0])
	}
	panic("rebuildAtom")
}

// boolOf turns a boolean-valued term into a decision diagram.
func boolOf(t *Term) *Term {
	if t.sort == SBool && (t.op == OTrue || t.op == OFalse) {
		return t
	}
	if t.op == OIte {
		return mkIte(mkAtomNode(t.args[0]), boolOf(t.args[1]), boolOf(t.args[2]))
	}
	return bHolds(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OFn:
		return rebuildFn(t, args)
	case OTup:
		return mkTup(t.name, args...)
	case OSel:
		return mkSel(args[0], args[1], t.sort, t.isInt)
	case OUnit:
		return mkUnit(args[0])
	case OCat:
		return mkCat(args...)
	case OStore:
		return mkStore(args[0], args[1], args[2])
	case OFill:
		return mkFill(args[0], args[1])
	case OSub:
		return mkSub(args[0], args[1], args[2])
	case OComp:
		return mkComp(args[0], args[1], args[2])
	case OSum:
		return mkSum(args[0], args[1], args[2])
	case OSCat:
		return mkSCat(args...)
	}
	panic(fmt.Sprintf("rebuild %v", t.op))
}

func rebuildFn(t *Term, args []*Term) *Term {
	switch t.name {
	case "sqrt":
		return mkSqrt(args[0])
	case "abs":
		return mkAbs(args[0])
	case "inv":
		return tInv(args[0])
	case "sin":
		return mkTrig(false, args[0])
	case "cos":
		return mkTrig(true, args[0])
	case "len":
		return mkLen(args[0])
	case "mod":
		return mkMod(args[0], args[1])
	case "idiv":
		return mkIdiv(args[0], args[1])
	case "strsub":
		return mkStrSub(args[0], args[1], args[2])
	case "pos":
		return mkPos(args[0])
	case "trunc":
		return mkTrunc(args[0])
	case "itoa":
		return mkItoa(args[0])
	case "opq:strings.TrimSpace":
		return mkTrim(args[0])
	case "indexof":
		return mkIndex(args[0], args[1])
	case "byteat":
		return mkByteAt(args[0], args[1])
	case "sorted":
		return mkSorted("asc", args[0])
	case "revpart":
		return mkRevPart(args[0], args[1])
	case "concat":
		return mkConcat(args[0])
	case "runes2str":
		return mkRunes2Str(args[0])
	case "f32":
		if args[0].op == OIte {
			return mkF32(args[0])
		}
	}
	if strings.HasPrefix(t.name, "field") && len(args) == 1 {
		var i int
		k := strings.IndexByte(t.name, ':')
		fmt.Sscanf(t.name[5:k], "%d", &i)
		return mkField(args[0], t.name[k+1:], i, t.sort, t.isInt)
	}
	if strings.HasPrefix(t.name, "uf:") {
		if v := ufValue(t.name, args); v != nil {
			return v
		}
	}
	if !strings.HasPrefix(t.name, "opq:") {
		if len(args) == 1 && args[0].op == OIte {
			// distribute unary functions over decisions
			a := args[0]
			return mkIteAtom(a.args[0], rebuildFn(t, []*Term{a.args[1]}), rebuildFn(t, []*Term{a.args[2]}))
		}
	}
	return intern(&Term{op: OFn, sort: t.sort, isInt: t.isInt, name: t.name, args: args})
}

func mkF32(x *Term) *Term {
	if x.op == OIte {
		return mkIteAtom(x.args[0], mkF32(x.args[1]), mkF32(x.args[2]))
	}
	if x.op == OFn && x.name == "f32" {
		return x
	}
	return mkFnN("f32", false, x)
}

func mkStrSub(s, lo, hi *Term) *Term {
	if lo == tZero && hi == mkLen(s) {
		return s
	}
	if lo == hi {
		return mkStr("")
	}
	if s.op == OFn && s.name == "strsub" {
		return mkStrSub(s.args[0], tAdd(s.args[1], lo), tAdd(s.args[1], hi))
	}
	if s.op == OIte {
		return mkIteAtom(s.args[0], mkStrSub(s.args[1], lo, hi), mkStrSub(s.args[2], lo, hi))
	}
	return mkFn("strsub", SStr, false, s, lo, hi)
}
func mkRunes2Str(s *Term) *Term {
	if s == tEmpty {
		return mkStr("")
	}
	if s.op == OFn && s.name == "runes" {
		return s.args[0]
	}
	if s.op == OCat {
		parts := make([]*Term, len(s.args))
		for i, p := range s.args {
			parts[i] = mkRunes2Str(p)
		}
		return mkSCat(parts...)
	}
	if s.op == OIte {
		return mkIteAtom(s.args[0], mkRunes2Str(s.args[1]), mkRunes2Str(s.args[2]))
	}
	if s.op == OComp {
		return mkConcat(mkComp(s.args[0], s.args[1], strPieces(s.args[2])))
	}
	if s.op == OUnit {
		if k, ok := isConstInt(s.args[0]); ok {
			return mkStr(string(rune(k)))
		}
		if s.args[0].op == OIte {
			a := s.args[0]
			return mkIteAtom(a.args[0], mkRunes2Str(mkUnit(a.args[1])), mkRunes2Str(mkUnit(a.args[2])))
		}
	}
	return mkFn("runes2str", SStr, false, s)
}

// strPieces: a rune sequence as a sequence of strings with the same concatenation
func strPieces(s *Term) *Term {
	switch s.op {
	case OCat:
		parts := make([]*Term, len(s.args))
		for i, p := range s.args {
			parts[i] = strPieces(p)
		}
		return mkCat(parts...)
	case OIte:
		return mkIteAtom(s.args[0], strPieces(s.args[1]), strPieces(s.args[2]))
	}
	x := mkRunes2Str(s)
	if x.op == OFn && x.name == "concat" {
		return x.args[0]
	}
	return mkUnit(x)
}

// mkConcat: concatenation of a sequence of strings
func mkConcat(s *Term) *Term {
	switch s.op {
	case OCat:
		parts := make([]*Term, len(s.args))
		for i, p := range s.args {
			parts[i] = mkConcat(p)
		}
		return mkSCat(parts...)
	case OUnit:
		return s.args[0]
	case OIte:
		return mkIteAtom(s.args[0], mkConcat(s.args[1]), mkConcat(s.args[2]))
	}
	return mkFn("concat", SStr, false, s)
}

// ---------- printing ----------

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return t.name
	case OStrC:
		return strconv.Quote(t.name)
	case OPoly:
		if len(t.poly) == 0 {
			return "0"
		}
		var b strings.Builder
		for i, p := range t.poly {
			if i > 60 {
				fmt.Fprintf(&b, " …(%d terms)", len(t.poly))
				break
			}
			c := new(big.Rat).Set(p.c)
			if i > 0 {
				if c.Sign() < 0 {
					b.WriteString(" - ")
					c.Neg(c)
				} else {
					b.WriteString(" + ")
				}
			}
			one := c.Cmp(rat1) == 0
			if !one || len(p.m) == 0 {
				b.WriteString(c.RatString())
			}
			for j, f := range p.m {
				if j > 0 || !one {
					b.WriteString("·")
				}
				s := f.a.str(d + 1)
				if f.a.op == OIte {
					s = "(" + s + ")"
				}
				b.WriteString(s)
				if f.e != 1 {
					fmt.Fprintf(&b, "^%d", f.e)
				}
			}
		}
		return b.String()
	case OIte:
		if t.args[1] == tTrue && t.args[2] == tFalse {
			return atomStr(t.args[0], d)
		}
		if t.args[1] == tFalse && t.args[2] == tTrue {
			return "!(" + atomStr(t.args[0], d) + ")"
		}
		return "(" + atomStr(t.args[0], d) + " ? " + t.args[1].str(d+1) + " : " + t.args[2].str(d+1) + ")"
	case OLt0, OEq0, OEqT, OHolds:
		return atomStr(t, d)
	case OTup:
		return "{" + strList(t.args, d) + "}"
	case OSel:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OUnit:
		return "[" + t.args[0].str(d+1) + "]"
	case OCat:
		if len(t.args) == 0 {
			return "[]"
		}
		s := make([]string, len(t.args))
		for i, a := range t.args {
			s[i] = a.str(d + 1)
		}
		return strings.Join(s, "++")
	case OStore:
		return t.args[0].str(d+1) + "{" + t.args[1].str(d+1) + "↦" + t.args[2].str(d+1) + "}"
	case OFill:
		return "fill(" + strList(t.args, d) + ")"
	case OSub:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":" + t.args[2].str(d+1) + "]"
	case OComp:
		return "⟨" + t.args[2].str(d+1) + " | " + t.args[0].str(d+1) + "<" + t.args[1].str(d+1) + "⟩"
	case OSum:
		return "Σ(" + t.args[0].str(d+1) + "<" + t.args[1].str(d+1) + ", " + t.args[2].str(d+1) + ")"
	case OSCat:
		s := make([]string, len(t.args))
		for i, a := range t.args {
			s[i] = a.str(d + 1)
		}
		return strings.Join(s, "⧺")
	case OFold:
		return "fold#" + t.name + "(" + strList(t.args, d) + ")"
	case OFn:
		return t.name + "(" + strList(t.args, d) + ")"
	}
	return "?"
}
func strList(a []*Term, d int) string {
	s := make([]string, len(a))
	for i, x := range a {
		s[i] = x.str(d + 1)
	}
	return strings.Join(s, ", ")
}
func atomStr(t *Term, d int) string {
	switch t.op {
	case OLt0:
		return t.args[0].str(d+1) + " < 0"
	case OEq0:
		return t.args[0].str(d+1) + " == 0"
	case OEqT:
		return t.args[0].str(d+1) + " == " + t.args[1].str(d+1)
	case OHolds:
		return t.args[0].str(d + 1)
	}
	return t.str(d)
}

type undecidedErr struct{ msg string }

func (u undecidedErr) Error() string    { return u.msg }
func undecided(msg string) undecidedErr { return undecidedErr{msg} }

// integerRoot: false when the constant term rules out a zero over the integers
// (the other coefficients have a common divisor that does not divide it)
func integerRoot(t *Term) bool {
	g := new(big.Int)
	var c *big.Int
	for _, q := range asPoly(t) {
		if !q.c.IsInt() {
			return true
		}
		if len(q.m) == 0 {
			c = q.c.Num()
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(q.c.Num()))
	}
	if c == nil || g.Sign() == 0 {
		return true
	}
	return new(big.Int).Mod(c, g).Sign() == 0
}
