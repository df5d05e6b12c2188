package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T01", "each planar predicate has the value graph of its textbook formula (polynomial and rational identities); cyclic sums are compared modulo rotation of the summation index", checkT01)
	register("T02", "link records both directions; addTriangle appends three linked half-edges; for each of the 9 slot combinations of two adjacent triangles the state legalize reaches before its recursive checks is the flipped quadrilateral", checkT02)
	register("T06", "the value graph of the hull equals that of the specified monotone chain: sorted copy, distinct neighbours, two chains with strict pops, lower chain plus reversed upper chain", checkT06)
}

// det2 is the planar cross product of u and v
func det2(u, v V3) *Term { return tSub(tMul(u[0], v[1]), tMul(u[1], v[0])) }

// symbolic vector a, and b = a + u, c = a + v, so that squared lengths of the
// triangle's sides are sums of squares of symbols
func triangleArgs(e *Eval, st *State, fn *ssa.Function) []Val {
	mk := func(n string) V3 {
		return V3{mkVar(n+"x", SNum, false), mkVar(n+"y", SNum, false), mkVar(n+"z", SNum, false)}
	}
	a := mk("a")
	T := vecT()
	tup := func(v V3) Val { return mkTup(tname(T), v[0], v[1], v[2]) }
	out := []Val{tup(a), tup(a.add(mk("u"))), tup(a.add(mk("v")))}
	if len(fn.Params) != 3 {
		panic(undecided("unexpected parameters"))
	}
	return out
}

func checkT01(c *Chk) {
	pk := "triangulate2"
	if r := c.run(pk, "area"); r != nil {
		c.try("area", r.where(), func() {
			a, b, d := r.vec(0), r.vec(1), r.vec(2)
			c.eq("area is minus the planar cross product", r.where(), nil, r.ret(0), tNeg(det2(b.sub(a), d.sub(a))))
		})
		c.pure(r, false)
	}
	if r := c.run(pk, "cross2D"); r != nil {
		c.try("cross2D", r.where(), func() {
			p, a, b := r.vec(0), r.vec(1), r.vec(2)
			c.eq("cross2D is the planar cross product", r.where(), nil, r.ret(0), det2(a.sub(p), b.sub(p)))
		})
		c.pure(r, false)
	}
	if r := c.run(pk, "inCircle"); r != nil {
		c.try("inCircle", r.where(), func() {
			p := r.vec(3)
			A, B, C := r.vec(0).sub(p), r.vec(1).sub(p), r.vec(2).sub(p)
			n := func(v V3) *Term { return tAdd(tMul(v[0], v[0]), tMul(v[1], v[1])) }
			det := tAdd(tMul(n(A), det2(B, C)), tNeg(tMul(n(B), det2(A, C))), tMul(n(C), det2(A, B)))
			c.eq("inCircle is the sign of the in-circle determinant", r.where(), nil, r.ret(0), bLt(det, tZero))
		})
		c.pure(r, false)
	}
	if r := c.runWith(pk, "circumradius", triangleArgs); r != nil {
		c.try("circumradius", r.where(), func() {
			a := r.vec(0)
			u, v := r.vec(1).sub(a), r.vec(2).sub(a)
			n := func(v V3) *Term { return tAdd(tMul(v[0], v[0]), tMul(v[1], v[1])) }
			d := det2(u, v)
			x := tDiv(tMul(tSub(tMul(v[1], n(u)), tMul(u[1], n(v))), ratF(1, 2)), d)
			y := tDiv(tMul(tSub(tMul(u[0], n(v)), tMul(v[0], n(u))), ratF(1, 2)), d)
			rr := tAdd(tMul(x, x), tMul(y, y))
			ok := newCtx()
			for _, t := range []*Term{d, n(u), n(v), rr} {
				ok.assume(bEq0(t), false)
			}
			c.eq("circumradius is the squared distance of the circumcentre", r.where(), ok, r.ret(0), rr)
			deg := newCtx()
			deg.assume(bEq0(d), true)
			c.eq("circumradius of a degenerate triple is infinite", r.where(), deg, r.ret(0), P.globalTerm(pk, "infinity"))
		})
		c.pure(r, false)
	}
	if r := c.run(pk, "circumcenter"); r != nil {
		c.try("circumcenter", r.where(), func() {
			a, b, d := r.vec(0), r.vec(1), r.vec(2)
			u, v := b.sub(a), d.sub(a)
			ctx := newCtx()
			ctx.assume(bEq0(det2(u, v)), false)
			o := r.retVec(0)
			n := func(v V3) *Term { return tAdd(tMul(v[0], v[0]), tMul(v[1], v[1])) }
			c.eq("circumcentre equidistant from first and second point", r.where(), ctx, tSub(n(o.sub(a)), n(o.sub(b))), tZero)
			c.eq("circumcentre equidistant from first and third point", r.where(), ctx, tSub(n(o.sub(a)), n(o.sub(d))), tZero)
		})
		c.pure(r, false)
	}
	if r := c.run(pk, "polygonArea"); r != nil {
		ref := c.pair(pk, "polygonArea", "gegovPolygonArea")
		if ref != nil {
			c.cyclic("polygonArea is the shoelace sum", ref)
		}
		c.pure(r, false)
	}
	if r := c.run(pk, "polygonPerimeter"); r != nil {
		ref := c.pair(pk, "polygonPerimeter", "gegovPolygonPerimeter")
		if ref != nil {
			c.cyclic("polygonPerimeter is the sum of the closed polygon's edge lengths", ref)
		}
		c.pure(r, false)
	}
}

// cyclic compares two results that are sums over consecutive elements of a
// closed sequence, after rotating every summand to one position. When they
// differ, the difference is confirmed on the value graph instantiated for
// sequences of 1 to 4 elements.
func (c *Chk) cyclic(label string, p *Pair) {
	c.try(label, p.cur.where(), func() {
		got, want := cyclicNF(p.cur.ret(0)), cyclicNF(p.ref.ret(0))
		s := p.cur.term(p.cur.params[0])
		ne := newCtx()
		ne.assume(bLt(tZero, mkLen(s)), true)
		em := newCtx()
		em.assume(bEq0(mkLen(s)), true)
		okE, _ := em.tryEqual(got, want)
		r, _ := deepEqual(ne, got, want)
		if okE && r == cmpEqual {
			c.ok(label, p.cur.where())
			return
		}
		c.instances(label, p.cur.where(), nil, p.cur.ret(0), p.ref.ret(0), []*Term{s}, 0, 4)
	})
}

// cyclicNF: in every sum over all positions of a sequence S, the successor
// (and predecessor) position is rotated to the current one where a summand
// refers to one position only.
func cyclicNF(t *Term) *Term {
	if t.op == OIte {
		return mkIteAtom(t.args[0], cyclicNF(t.args[1]), cyclicNF(t.args[2]))
	}
	if t.sort != SNum {
		return t
	}
	t = mergeSums(t)
	res := tZero
	for _, q := range asPoly(t) {
		var s *Term
		other := mono{}
		for _, f := range q.m {
			if s == nil && f.a.op == OSum && f.e == 1 {
				s = f.a
			} else {
				other = append(other, f)
			}
		}
		if s == nil {
			res = tAdd(res, fromPoly([]pterm{q}))
			continue
		}
		res = tAdd(res, tMul2(fromPoly([]pterm{{other, q.c}}), cyclicSum(s)))
	}
	return mergeSums(res)
}

func cyclicSum(s *Term) *Term {
	k, n := s.args[0], s.args[1]
	v := freshBound()
	body := subst(s.args[2], map[*Term]*Term{k: v})
	// predecessor form: (κ == 0 ? S[n-1] : S[κ-1])  ->  S[mod(κ-1, n)]
	prev := mkVar("cyc-prev", SNum, true)
	next := mkVar("cyc-next", SNum, true)
	m := map[*Term]*Term{}
	anyTerm(body, func(x *Term) bool {
		if x.op == OIte && x.args[0].op == OEq0 && x.args[0].args[0] == v {
			hi, lo := x.args[1], x.args[2]
			if subst(hi, map[*Term]*Term{tSub(n, tOne): prev}) == subst(lo, map[*Term]*Term{tSub(v, tOne): prev}) {
				m[x] = subst(lo, map[*Term]*Term{tSub(v, tOne): prev})
			}
		}
		return false
	})
	body = subst(body, m)
	body = subst(body, map[*Term]*Term{
		mkMod(tAdd(v, tOne), n):          next,
		mkMod(tSub(tAdd(v, n), tOne), n): prev,
		mkMod(tAdd(v, tSub(n, tOne)), n): prev,
		mkMod(tSub(v, tOne), n):          prev,
	})
	if occurs(body, prev) {
		if occurs(body, next) {
			return s
		}
		body = subst(body, map[*Term]*Term{prev: v, v: next})
	}
	out := tZero
	for _, q := range asPoly(body) {
		x := fromPoly([]pterm{q})
		if occurs(x, next) && !occurs(x, v) {
			x = subst(x, map[*Term]*Term{next: v})
		}
		out = tAdd(out, x)
	}
	out = subst(out, map[*Term]*Term{next: mkMod(tAdd(v, tOne), n)})
	bv, nb := canonBound(v, out)
	if nb == tZero {
		return tZero
	}
	return intern(&Term{op: OSum, sort: SNum, isInt: nb.isInt, args: []*Term{bv, n, nb}})
}

func checkT02(c *Chk) {
	pk := "triangulate2"
	for _, x := range [][2]string{{"triangulator.link", "gegovLink"}, {"triangulator.addTriangle", "gegovAddTriangle"}} {
		p := c.pair(pk, x[0], x[1])
		var ctx *Ctx
		if p != nil && x[1] == "gegovAddTriangle" {
			// the lists have room for the triangle
			c.try("room for the triangle", p.cur.where(), func() {
				t, T := p.cur.pterm(0), P.typ(pk, "triangulator")
				ctx = newCtx()
				n := fld(t, T, "trianglesLen")
				ctx.assume(bLt(n, tZero), false)
				for _, l := range []string{"triangles", "halfedges"} {
					ctx.assume(bLt(mkLen(fld(t, T, l)), tAdd(n, numInt(3))), false)
				}
			})
		}
		c.results(x[0]+" returns the new position", p, ctx)
		c.posts(x[0]+" state", p, ctx)
	}
	for i := int64(0); i < 3; i++ {
		for j := int64(0); j < 3; j++ {
			for xb := 0; xb < 2; xb++ {
				for yb := 0; yb < 2; yb++ {
					c.flip(i, j, xb == 1, yb == 1)
				}
			}
		}
		c.flipBoundary(i)
	}
}

type flipSetup struct {
	a, al, ar, b, bl, br, x, y *Term
	ctx                        *Ctx
	T                          [6]*Term // triangles at a al ar b bl br
}

func (c *Chk) flipArgs(i, j int64, hasX, hasY, boundary bool) (*flipSetup, func(e *Eval, st *State, fn *ssa.Function) []Val) {
	s, q := mkVar("s", SNum, true), mkVar("q", SNum, true)
	at := func(base *Term, k int64) *Term { return tAdd(tMul(numInt(3), base), numInt(k%3)) }
	f := &flipSetup{ctx: newCtx()}
	f.ctx.assume(bLt(s, tZero), false)
	f.ctx.assume(bLt(q, tZero), false)
	f.ctx.assume(bEq0(tSub(s, q)), false)
	f.a, f.al, f.ar = at(s, i), at(s, i+1), at(s, i+2)
	f.b, f.br, f.bl = at(q, j), at(q, j+1), at(q, j+2)
	out := func(name string, has bool) *Term {
		if !has {
			return numInt(-1)
		}
		v := mkVar(name, SNum, true)
		f.ctx.assume(bLt(v, tZero), false)
		for _, o := range []*Term{f.a, f.al, f.ar, f.b, f.bl, f.br} {
			f.ctx.assume(bEq0(tSub(v, o)), false)
		}
		return v
	}
	f.x, f.y = out("x", hasX), out("y", hasY)
	if hasX && hasY {
		f.ctx.assume(bEq0(tSub(f.x, f.y)), false)
	}
	for k, n := range []string{"ta", "tal", "tar", "tb", "tbl", "tbr"} {
		f.T[k] = mkVar(n, SNum, true)
	}
	return f, func(e *Eval, st *State, fn *ssa.Function) []Val {
		T := P.typ("triangulate2", "triangulator")
		o := e.newObj("t", T)
		o.ext = true
		t := symOf("t", T)
		h := fld(t, T, "halfedges")
		if boundary {
			h = mkStore(h, f.a, numInt(-1))
		} else {
			h = mkStore(mkStore(mkStore(mkStore(h, f.a, f.b), f.b, f.a), f.bl, f.x), f.ar, f.y)
		}
		tr := fld(t, T, "triangles")
		for k, p := range []*Term{f.a, f.al, f.ar, f.b, f.bl, f.br} {
			tr = mkStore(tr, p, f.T[k])
		}
		t = update(t, T, []Step{{field: fieldIndex(T, "halfedges")}}, h)
		t = update(t, T, []Step{{field: fieldIndex(T, "triangles")}}, tr)
		o.init = t
		if len(fn.Params) != 2 {
			panic(undecided("unexpected parameters of legalize"))
		}
		return []Val{&Ptr{Loc{o, nil}}, f.a}
	}
}

func (c *Chk) flipBoundary(i int64) {
	f, args := c.flipArgs(i, 0, true, true, true)
	r := c.runWith("triangulate2", "triangulator.legalize", args)
	if r == nil {
		return
	}
	l := "edge without twin in slot " + itoa(int(i))
	c.eq(l+" is left alone and its predecessor returned", r.where(), f.ctx, r.ret(0), f.ar)
	c.eq(l+" changes nothing", r.where(), f.ctx, r.post(0), r.pterm(0))
	c.try(l+" is not re-checked", r.where(), func() {
		for _, ev := range r.e.events {
			if ev.kind == "recurse" {
				if why := definiteCase(f.ctx, boolNum(ev.cond()), tZero); why != "" {
					c.fail(l+" is not re-checked", ev.where(), why)
					return
				}
			}
		}
		c.ok(l+" is not re-checked", r.where())
	})
}

func (c *Chk) flip(i, j int64, hasX, hasY bool) {
	l := "flip in slots " + itoa(int(i)) + "," + itoa(int(j))
	if !hasX {
		l += " (hull edge beyond bl)"
	}
	if !hasY {
		l += " (hull edge beyond ar)"
	}
	f, args := c.flipArgs(i, j, hasX, hasY, false)
	r := c.runWith("triangulate2", "triangulator.legalize", args)
	if r == nil {
		return
	}
	w := r.where()
	T := P.typ("triangulate2", "triangulator")
	c.try(l, w, func() {
		var rec []*Event
		for _, ev := range r.e.events {
			if ev.kind == "recurse" {
				rec = append(rec, ev)
			}
		}
		if len(rec) == 0 {
			if v := vague(fld(r.post(0), T, "halfedges")) + vague(r.ret(0)); v != "" {
				c.unknown(l, w, "no recursive check")
			} else {
				c.fail(l+": both edges opposite the inserted point are re-checked", w, "no re-check happens")
			}
			return
		}
		vs := fld(r.pterm(0), T, "Vectors")
		vT := fldT(T, "Vectors")
		pt := func(k int) V3 { return vec(selElem(vs, vT, f.T[k])) }
		p1 := pt(4)
		A, B, C := pt(2).sub(p1), pt(0).sub(p1), pt(1).sub(p1)
		n := func(v V3) *Term { return tAdd(tMul(v[0], v[0]), tMul(v[1], v[1])) }
		illegal := bLt(tAdd(tMul(n(A), det2(B, C)), tNeg(tMul(n(B), det2(A, C))), tMul(n(C), det2(A, B))), tZero)
		cond := rec[0].cond()
		for _, ev := range rec {
			if !hasX {
				continue // the search of the hull list precedes the re-check
			}
			ctx := f.ctx.clone()
			c.eq(l+": re-check happens exactly when the opposite vertex is inside the circumcircle", ev.where(), ctx, ev.cond(), illegal)
		}
		bad := f.ctx.clone()
		bad.assume(illegal, false)
		c.eq(l+": a legal edge is left alone", w, bad, r.ret(0), f.ar)
		c.eq(l+": a legal edge changes nothing", w, bad, r.post(0), r.pterm(0))
		good := f.ctx.clone()
		good.assume(illegal, true)
		_ = cond
		// which edges are re-checked
		a0, b0 := false, false
		for _, ev := range rec {
			if len(ev.args) != 2 {
				continue
			}
			if ok, _ := good.tryEqual(ev.args[1], f.a); ok {
				a0 = true
			}
			if ok, _ := good.tryEqual(ev.args[1], f.br); ok {
				b0 = true
			}
		}
		c.hold(l+": both edges opposite the inserted point are re-checked", w, a0 && b0, "re-checked: "+argList(rec))
		last := rec[len(rec)-1]
		if len(last.args) == 2 && last.args[1] != f.br {
			if ok, _ := good.tryEqual(last.args[1], f.br); !ok {
				c.fail(l+": returns the result of the last re-check", w, "last re-check is of "+last.args[1].String())
			}
		}
		c.hullEntry(l, r, f, hasX)
		if i == 0 && !hasX {
			c.hullRing(l, r, f, rec[0], illegal)
		}
		// state when the first re-check starts
		p, ok := rec[0].vals[0].(*Ptr)
		if !ok || rec[0].st == nil {
			c.unknown(l, w, "state not available")
			return
		}
		after := r.e.load(rec[0].st, p.Loc)
		H, Tr := fld(after, T, "halfedges"), fld(after, T, "triangles")
		before := ""
		for _, x := range []*Term{H, Tr} {
			anyTerm(x, func(y *Term) bool {
				if y.op == OStore {
					if k, ok := isConstInt(y.args[1]); ok && k < 0 {
						before = "entry " + itoa(int(k)) + " is written"
					}
				}
				return before != ""
			})
		}
		c.hold(l+": nothing is written outside the lists", rec[0].where(), before == "", before)
		hT := fldT(T, "halfedges")
		g := mkVar("g", SNum, true)
		gen := good.clone()
		for _, o := range []*Term{f.a, f.al, f.ar, f.b, f.bl, f.br, f.x, f.y} {
			gen.assume(bEq0(tSub(g, o)), false)
		}
		gen.assume(bLt(g, tZero), false)
		sel := func(s, i *Term) *Term { return selElem(s, hT, i) }
		type row struct {
			name string
			i, v *Term
		}
		rows := []row{{"a", f.a, f.x}, {"b", f.b, f.y}, {"ar", f.ar, f.bl}, {"bl", f.bl, f.ar},
			{"al", f.al, sel(fld(r.pterm(0), T, "halfedges"), f.al)}, {"br", f.br, sel(fld(r.pterm(0), T, "halfedges"), f.br)}}
		if hasX {
			rows = append(rows, row{"the neighbour beyond bl", f.x, f.a})
		}
		if hasY {
			rows = append(rows, row{"the neighbour beyond ar", f.y, f.b})
		}
		for _, x := range rows {
			c.eq(l+": half-edge of "+x.name, rec[0].where(), good, sel(H, x.i), x.v)
		}
		c.eq(l+": other half-edges unchanged", rec[0].where(), gen, sel(H, g), sel(fld(r.pterm(0), T, "halfedges"), g))
		want := [6]*Term{f.T[4], f.T[1], f.T[2], f.T[2], f.T[4], f.T[5]}
		for k, p := range []*Term{f.a, f.al, f.ar, f.b, f.bl, f.br} {
			c.eq(l+": corner "+[]string{"a", "al", "ar", "b", "bl", "br"}[k], rec[0].where(), good, sel(Tr, p), want[k])
		}
		c.eq(l+": other corners unchanged", rec[0].where(), gen, sel(Tr, g), sel(fld(r.pterm(0), T, "triangles"), g))
	})
}

func argList(evs []*Event) string {
	s := ""
	for _, ev := range evs {
		if len(ev.args) > 1 {
			s += " " + ev.args[1].String()
		}
	}
	return s
}

func checkT06(c *Chk) {
	p := c.pair("triangulate2", "ConvexHull", "gegovConvexHull")
	chain := "ConvexHull is the monotone chain of the distinct sorted points"
	c.results(chain, p, nil)
	if p != nil {
		if os.Getenv("GEGOV_HULL") != "" || c.open(chain) {
			c.hullSituations(chain, p)
		}
		c.pure(p.cur, false)
	}
	if r := c.run("triangulate2", "cross2D"); r != nil {
		c.try("turn", r.where(), func() {
			p, a, b := r.vec(0), r.vec(1), r.vec(2)
			c.eq("turn predicate", r.where(), nil, r.ret(0), det2(a.sub(p), b.sub(p)))
		})
	}
}

// hullEntry: the hull node that referred to bl refers to a after the flip, and
// no node changes when bl has a neighbour.
func (c *Chk) hullEntry(l string, r *Run, f *flipSetup, hasX bool) {
	nT := P.typ("triangulate2", "node")
	ti := fieldIndex(nT, "t")
	n := 0
	for _, ev := range r.e.events {
		if ev.kind != "extstore" || len(ev.vals) != 1 || len(ev.args) != 1 {
			continue
		}
		p, ok := ev.vals[0].(*Ptr)
		if !ok || p.obj.name != "heap:node" || len(p.path) != 2 || p.path[1].field != ti {
			continue
		}
		n++
		ctx := f.ctx.clone()
		if hasX {
			c.eq(l+": hull nodes unchanged", ev.where(), ctx, ev.cond(), tFalse)
			continue
		}
		c.eq(l+": the hull node that referred to bl refers to a", ev.where(), ctx, ev.args[0], f.a)
		found := false
		for _, cd := range ev.conds {
			anyTerm(cd, func(x *Term) bool {
				if x.op == OEq0 {
					for _, d := range []*Term{tAdd(x.args[0], f.bl), tSub(x.args[0], f.bl)} {
						found = found || size(d) <= size(x.args[0]) && !occurs(d, mkVar("q", SNum, true)) && !occurs(d, mkVar("s", SNum, true))
					}
				}
				return false
			})
		}
		c.hold(l+": only the hull node that referred to bl changes", ev.where(), found, "stored when "+clip(ev.cond().String()))
	}
	if n == 0 && !hasX {
		c.fail(l+": the hull node that referred to bl refers to a", r.where(), "no hull node is updated")
	}
}

// hullRing: in hull lists of one, two and three nodes, whichever node refers
// to bl refers to a when the re-check starts, and the others are unchanged.
// The list is put into the value graph of the heap, nothing is run.
func (c *Chk) hullRing(l string, r *Run, f *flipSetup, ev *Event, illegal *Term) {
	T, nT := P.typ("triangulate2", "triangulator"), P.typ("triangulate2", "node")
	ho := r.e.heapObj(nT)
	after := r.e.load(ev.st, Loc{ho, nil})
	place := map[*Term]*Term{mkVar("s", SNum, true): tZero, mkVar("q", SNum, true): tOne}
	at := func(t *Term) *Term { return subst(t, place) }
	ctx := newCtx()
	ctx.assume(at(illegal), true)
	for _, x := range []*Term{f.x, f.y} {
		if _, k := isConstInt(x); !k {
			ctx.assume(bLt(x, numInt(6)), false)
		}
	}
	for n := int64(1); n <= 3; n++ {
		for who := int64(1); who <= n; who++ {
			lab := l + ": hull list of " + itoa(int(n)) + ", node " + itoa(int(who)) + " refers to the flipped edge"
			c.try(lab, ev.where(), func() {
				ring := mkUnit(zeroOf(nT))
				for k := int64(1); k <= n; k++ {
					t := numInt(90 + k)
					if k == who {
						t = at(f.bl)
					}
					vals := make([]*Term, under(nT).(*types.Struct).NumFields())
					for name, v := range map[string]*Term{"i": numInt(40 + k), "t": t, "prev": numInt((k+n-2)%n + 1), "next": numInt(k%n + 1)} {
						vals[fieldIndex(nT, name)] = v
					}
					ring = mkCat(ring, mkUnit(mkTup(tname(nT), vals...)))
				}
				m := map[*Term]*Term{ho.init: ring}
				m[fld(r.pterm(0), T, "hull")] = tOne
				got := at(subst(after, m))
				got = firsts(expandConst(got))
				got = expandConst(got)
				for k := int64(1); k <= n; k++ {
					v := ctx.simp(expandConst(fld(selElem(got, types.NewSlice(nT), numInt(k)), nT, "t")))
					want := numInt(90 + k)
					if k == who {
						want = at(f.a)
					}
					if x, ok := isConstInt(v); ok {
						y, _ := isConstInt(want)
						if x != y {
							c.fail(lab, ev.where(), "node "+itoa(int(k))+" refers to "+v.String()+", not "+want.String())
							return
						}
						continue
					}
					c.unknown(lab, ev.where(), "node "+itoa(int(k))+" refers to "+clip(v.String()))
					return
				}
				c.ok(lab, ev.where())
			})
		}
	}
}

// hullSituations: the hulls of a few definite sorted lists of points, put into
// both value graphs in the place of the sorted list; used where the graphs as
// a whole do not compare.
func (c *Chk) hullSituations(l string, p *Pair) {
	vT := P.typ("r3", "Vector")
	if vT == nil || len(p.cur.res) != 1 {
		return
	}
	sorted := func(t *Term) (out *Term, one bool) {
		one = true
		anyTerm(t, func(x *Term) bool {
			if x.op == OFn && x.name == "sortedby" {
				one = one && (out == nil || out == x)
				out = x
			}
			return false
		})
		return out, one && out != nil
	}
	c.try(l, p.cur.where(), func() {
		got, want := p.cur.ret(0), p.ref.ret(0)
		a, ok := sorted(got)
		b, ok2 := sorted(want)
		if !ok || !ok2 || !newCtx().same(a, b) {
			return
		}
		arg := p.cur.pterm(0)
		for _, pts := range [][][2]int64{
			{}, {{1, 1}}, {{0, 0}, {1, 2}}, {{1, 1}, {1, 1}, {1, 1}}, {{0, 0}, {0, 0}, {1, 2}, {2, 0}, {2, 0}},
			{{0, 0}, {1, 2}, {2, 0}}, {{0, 0}, {1, -2}, {2, 0}}, {{0, 0}, {0, 3}, {1, 1}}, {{0, 0}, {1, 1}, {2, 2}},
			{{0, 0}, {0, 1}, {1, 0}, {1, 1}}, {{0, 0}, {1, 1}, {2, 5}, {4, 0}}, {{0, 0}, {1, -3}, {2, -1}, {4, 0}},
			{{0, 0}, {1, 3}, {2, 1}, {3, -2}, {4, 1}}, {{0, 0}, {1, 2}, {2, 2}, {3, 2}, {4, 0}, {4, 1}},
		} {
			list := tEmpty
			var txt []string
			for _, q := range pts {
				list = mkCat(list, mkUnit(mkTup(tname(vT), numInt(q[0]), numInt(q[1]), tZero)))
				txt = append(txt, "("+itoa(int(q[0]))+", "+itoa(int(q[1]))+")")
			}
			put := func(t, s *Term) *Term {
				t = subst(t, map[*Term]*Term{s: list})
				t = subst(t, map[*Term]*Term{arg: list})
				for i := 0; i < 12; i++ {
					u := newCtx().simp(expandConst(firsts(expandConst(t))))
					if u == t {
						break
					}
					t = u
				}
				return t
			}
			x, y := put(got, a), put(want, b)
			if os.Getenv("GEGOV_HULL") != "" {
				fmt.Println(strings.Join(txt, " "), "=>", clip(x.String()), "/", clip(y.String()))
				fmt.Println(definiteList(x, vT))
			}
			xs, dx := definiteList(x, vT)
			ys, dy := definiteList(y, vT)
			if dx && dy && xs != ys {
				c.fail(l, p.cur.where(), "for the sorted points "+strings.Join(txt, " ")+" it is ["+xs+"] where the chain is ["+ys+"]")
				return
			}
		}
	})
}

// definiteList: the coordinates of the points of a list, all of them numbers
func definiteList(t *Term, vT types.Type) (string, bool) {
	n, ok := isConstInt(mkLen(t))
	out := ""
	for i := int64(0); ok && i < n; i++ {
		e := newCtx().simp(selElem(t, types.NewSlice(vT), numInt(i)))
		ok = e.op == OTup
		for _, x := range e.args {
			if _, k := constOf(x); !k {
				ok = false
			}
		}
		out += e.String()
	}
	return out, ok
}
