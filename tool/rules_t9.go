package main

// T09, T10: the construction of a 2D triangulation. The code and its
// specification are compared loop by loop with open loops (see bisim.go); the
// hull of nodes is compared on a ring whose places are fixed.

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// advRun evaluates the construction with open loops; the steps that have
// checks of their own are recorded as calls.
func advRun(name string) *Run {
	pkg := "triangulate2"
	fn := P.fn(pkg, name)
	if fn == nil {
		return nil
	}
	e := newEval()
	e.open, e.lazy = true, true
	e.pureFn = map[*ssa.Function]bool{}
	for _, n := range []string{"circumradius", "circumcenter", "pseudoAngle"} {
		if g := P.fn(pkg, n); g != nil {
			e.pureFn[g] = true
		}
	}
	e.stubs = map[*ssa.Function]func(f *Frame, st *State, args []Val, in ssa.Instruction) []Val{}
	stub := func(name string, res func(st *State, args []Val) []Val) {
		g := P.fn(pkg, "triangulator."+name)
		if g == nil {
			return
		}
		e.stubs[g] = func(f *Frame, st *State, args []Val, in ssa.Instruction) []Val {
			ev := &Event{kind: "call", fn: f.fn, instr: in, name: name, vals: args, st: st.clone()}
			for _, a := range args[1:] {
				ev.args = append(ev.args, e.toTerm(st, a))
			}
			e.event(ev)
			return res(st, args)
		}
	}
	stub("addTriangle", func(st *State, args []Val) []Val {
		l := triField(args[0].(*Ptr).Loc, "trianglesLen")
		n := e.load(st, l)
		e.storeTerm(st, l, tAdd(n, numInt(3)))
		return []Val{n}
	})
	stub("legalize", func(st *State, args []Val) []Val {
		return []Val{mkFn("legalized", SNum, true, e.toTerm(st, args[1]))}
	})
	stub("hashEdge", func(st *State, args []Val) []Val {
		l := args[0].(*Ptr).Loc
		if s, ok := e.loadVal(st, triField(l, "hash")).(*SliceV); ok {
			at := st.resolve(s.Loc)
			n := e.toTerm(st, args[1])
			e.storeTerm(st, at, mkStore(e.load(st, at), mkFn("slot", SNum, true, n), n))
		}
		return nil
	})
	st := newState()
	return evalFn(e, fn, []Val{e.symArg("t", fn.Params[0].Type(), st)}, st)
}

// triField: a field of the object a triangulator reference refers to
func triField(l Loc, name string) Loc {
	T := under(l.obj.typ).(*types.Struct)
	for i := 0; i < T.NumFields(); i++ {
		if T.Field(i).Name() == name {
			return l.with(Step{field: i})
		}
	}
	panic(undecided("no field " + name))
}

// advSide: what the loops of the construction are for
type advSide struct {
	r                        *Run
	main, see, probe, fw, bk *LoopInfo
	seed, first, fwd, back   *Event
	pre                      []*LoopInfo
}

func pointsTo(T types.Type, name string) bool {
	p, ok := under(T).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == name
}

func (l *LoopInfo) heapVar() *LoopVar {
	for i := range l.raw {
		if l.raw[i].loc != nil && hasPfx(l.raw[i].loc.obj.name, "heap:") && hasSfx(l.raw[i].loc.obj.name, "node") {
			return &l.raw[i]
		}
	}
	return nil
}

func hasSfx(s, x string) bool { return strings.HasSuffix(s, x) }

// place: the variables a loop walks the hull with
func (l *LoopInfo) nodeVars() []*LoopVar {
	var out []*LoopVar
	for i := range l.raw {
		if l.raw[i].loc == nil && pointsTo(l.raw[i].typ, "node") {
			out = append(out, &l.raw[i])
		}
	}
	return out
}

func (l *LoopInfo) fieldVar(f int) *LoopVar {
	for i := range l.raw {
		v := &l.raw[i]
		if v.loc != nil && v.loc.obj.name == "t" && len(v.loc.path) == 1 && v.loc.path[0].idx == nil && v.loc.path[0].field == f {
			return v
		}
	}
	return nil
}

// advRoles: empty reason when every part was found
func advRoles(r *Run) (*advSide, string) {
	s := &advSide{r: r}
	for _, ev := range r.e.events {
		if ev.kind != "call" || ev.name != "addTriangle" || len(ev.args) != 6 {
			continue
		}
		switch n := len(ev.loops); {
		case n == 0 && s.seed == nil:
			s.seed = ev
		case n == 1 && s.first == nil:
			s.first, s.main = ev, ev.loops[0]
		case n == 2 && s.fwd == nil:
			s.fwd, s.fw = ev, ev.loops[1]
		case n == 2 && s.back == nil:
			s.back, s.bk = ev, ev.loops[1]
		default:
			return nil, "triangles are added in other places than specified"
		}
	}
	if s.seed == nil || s.main == nil {
		return nil, "no first triangle and loop over the points found"
	}
	for _, l := range sortedLoops(r.e) {
		switch {
		case l == s.main || l == s.fw || l == s.bk:
		case l.parent == nil && l.id < s.main.id:
			s.pre = append(s.pre, l)
		case l.parent == s.main && len(l.nodeVars()) == 1 && s.see == nil && s.probe != nil:
			s.see = l
		case l.parent == s.main && s.probe == nil:
			s.probe = l
		default:
			return s, "a loop the specification does not have"
		}
	}
	if s.see == nil || s.probe == nil {
		return s, "no search for a visible edge found"
	}
	return s, ""
}

// construction evaluates both sides and pairs the loops that choose the seed
type construction struct {
	c      *Chk
	s      *simulation
	a, b   *advSide
	whyA   string
	status []cmpResult
	why    []string
	err    string
}

func (c *Chk) construction() *construction {
	x := &construction{c: c}
	cur, ref := advRun("triangulator.triangulate"), advRun("gegovTriangulate")
	if cur == nil || ref == nil {
		x.err = "no such function"
		return x
	}
	for g := range cur.e.analysed {
		c.fns[g.String()] = true
	}
	c.insts += cur.e.steps
	if cur.err+ref.err != "" {
		x.err = cur.err + ref.err
		return x
	}
	if cur.st == nil {
		x.err = "no execution of the function returns"
		return x
	}
	var w string
	x.a, x.whyA = advRoles(cur)
	x.b, w = advRoles(ref)
	if w != "" {
		panic("specification: " + w)
	}
	if x.a == nil {
		x.err = x.whyA
		return x
	}
	if len(x.a.pre) != len(x.b.pre) {
		x.err = itoa(len(x.a.pre)) + " loops before the first triangle where the specification has " + itoa(len(x.b.pre))
		return x
	}
	x.s = &simulation{c: c, cur: cur, ref: ref, m: map[*Term]*Term{}, named: map[string]bool{"circumradius": true, "circumcenter": true, "pseudoAngle": true}}
	lazySel = false
	for i, l := range x.a.pre {
		st, why := x.s.loop(newCtx(), l, x.b.pre[i])
		x.status = append(x.status, st)
		x.why = append(x.why, why)
		if st != cmpEqual {
			break
		}
	}
	return x
}

func withLazy(f func()) {
	defer func(v bool) { lazySel = v }(lazySel)
	lazySel = true
	f()
}

func checkT09(c *Chk) {

	fn := P.fn("triangulate2", "triangulator.triangulate")
	if fn == nil {
		c.unknown("construction", "triangulate2", "no such function")
		return
	}
	w := fnPos(fn)
	labels := []string{"bounds of the points", "the first seed is the point nearest the centre of the bounds", "the second seed is the nearest point distinct from the first", "the third seed gives the least circumcircle", "distances from the circumcentre of the seeds"}
	var x *construction
	c.try("construction", w, func() { withLazy(func() { x = c.construction() }) })
	if x == nil {
		return
	}
	defer func() {
		if c.undecided() > 0 || os.Getenv("GEGOV_SIT") != "" {
			c.try("choice of the seeds, on definite points", w, func() { withLazy(func() { c.seedSituations(x) }) })
		}
	}()
	if x.err != "" {
		c.unknown("construction", w, x.err)
		return
	}
	for i, st := range x.status {
		l := "seeds"
		if i < len(labels) {
			l = labels[i]
		}
		at := x.a.pre[i].where()
		switch st {
		case cmpEqual:
			c.ok(l, at)
		case cmpDiffer:
			c.fail(l, at, x.why[i])
		default:
			c.unknown(l, at, x.why[i])
		}
		if st != cmpEqual {
			return
		}
	}
	s := x.s
	done := newCtx()
	for _, l := range x.a.pre {
		s.assumeInv(done, l)
	}
	vd := func(label, at string, ctx *Ctx, cond, got, want *Term) {
		c.try(label, at, func() {
			want = subst(want, s.m)
			if ok, why := underCond(ctx, cond, got, want); ok {
				c.ok(label, at)
			} else if s.definite(got, want) {
				c.fail(label, at, why)
			} else {
				c.unknown(label, at, why)
			}
		})
	}
	ra, rb := x.a.r, x.b.r
	ca := x.a.seed.cond()
	vd("an error is reported exactly when no three points have a circumcircle", w, done, tTrue, boolNum(nilBool(ra.ret(0))), boolNum(nilBool(rb.ret(0))))
	vd("the first triangle is made when there is one", x.a.seed.where(), done, tTrue, boolNum(ca), boolNum(x.b.seed.cond()))
	for i := 0; i < 6; i++ {
		names := []string{"first", "second", "third"}
		l := "side " + itoa(i-2) + " of the first triangle has no neighbour"
		if i < 3 {
			l = names[i] + " corner of the first triangle"
		}
		ctx := done.clone()
		if i < 3 {
			x.notFlat(ctx)
		}
		vd(l, x.a.seed.where(), ctx, ca, x.a.seed.args[i], x.b.seed.args[i])
	}
	at := func(r *Run, ev *Event, name string) (t *Term) {
		return r.e.load(ev.st, triField(r.params[0].(*Ptr).Loc, name))
	}
	c.try("room for the triangles", x.a.seed.where(), func() {
		for _, f := range []string{"triangles", "halfedges"} {
			got, want := mkLen(at(ra, x.a.seed, f)), mkLen(subst(at(rb, x.b.seed, f), s.m))
			d := tSub(got, want)
			l := "room for three entries per triangle in " + f
			if k, ok := constOf(d); ok && k.Sign() < 0 {
				c.fail(l, x.a.seed.where(), "room for "+got.String()+" entries, there can be "+want.String())
			} else if ok || provablyNonNeg(d) {
				c.ok(l, x.a.seed.where())
			} else {
				ctx := newCtx()
				ctx.assume(bLt(want, numInt(3)), false)
				if ctx.implies(bLe(tZero, d)) {
					c.ok(l, x.a.seed.where())
				} else if ctx.implies(bLt(d, tZero)) {
					c.fail(l, x.a.seed.where(), "room for "+got.String()+" entries, there can be "+want.String())
				} else {
					c.unknown(l, x.a.seed.where(), got.String()+" entries, there can be "+want.String())
				}
			}
		}
	})
	// the order in which the points are added
	var sa, sb *Event
	for _, ev := range ra.e.events {
		if ev.kind == "sort" && len(ev.loops) == 0 && sa == nil {
			sa = ev
		}
	}
	for _, ev := range rb.e.events {
		if ev.kind == "sort" {
			sb = ev
		}
	}
	if sa == nil || len(sa.args) < 2 || sa.args[1] == nil {
		c.unknown("points are added by distance from the circumcentre", w, "no sorting of the points found")
	} else {
		c.byDistance(x, sa, sb, done)
	}
	// what is left at the end
	c.try("the lists end with the last triangle", w, func() {
		fin := func(r *Run, f string) *Term {
			return r.e.load(r.st, triField(r.params[0].(*Ptr).Loc, f))
		}
		na := fin(ra, "trianglesLen")
		for _, f := range []string{"triangles", "halfedges"} {
			vd("the "+f+" end with the last triangle", w, done, ca, mkLen(fin(ra, f)), na)
		}
	})
}

func boolNum(b *Term) *Term { return mkIte(b, tOne, tZero) }

// notFlat: the three seeds are not on a line
func (x *construction) notFlat(ctx *Ctx) {
	e := x.a.r.e
	vs := e.load(x.a.seed.st, triField(x.a.r.params[0].(*Ptr).Loc, "Vectors"))
	var v [3]V3
	for i, n := range []string{":a.", ":b.", ":c."} {
		for _, l := range x.b.pre {
			for _, y := range l.raw {
				if strings.Contains(y.sym.name, n) && y.loc == nil {
					v[i] = vec(selElem(vs, vecsT(), subst(y.sym, x.s.m)))
				}
			}
		}
	}
	ctx.assume(bEq(det2(v[1].sub(v[0]), v[2].sub(v[0])), tZero), false)
}

// byDistance: the order the points are added in
func (c *Chk) byDistance(x *construction, sa, sb *Event, done *Ctx) {
	w := sa.where()
	c.try("points are added by distance from the circumcentre", w, func() {
		e := x.b.r.e
		loc := x.b.r.params[0].(*Ptr).Loc
		ds := subst(e.load(x.b.seed.st, triField(loc, "squaredDistances")), x.s.m)
		vs := subst(e.load(x.b.seed.st, triField(loc, "Vectors")), x.s.m)
		a, b := mkVar("σa", SNum, true), mkVar("σb", SNum, true)
		da, db := mkSel(ds, a, SNum, false), mkSel(ds, b, SNum, false)
		pa, pb := vec(selElem(vs, vecsT(), a)), vec(selElem(vs, vecsT(), b))
		less := sa.args[1]
		back := subst(less, map[*Term]*Term{a: b, b: a})
		want := func(label string, cond, got *Term) {
			if ok, why := underCond(done, cond, boolNum(got), tOne); ok {
				c.ok(label, w)
			} else if x.s.definite(less, subst(sb.args[1], x.s.m)) {
				c.fail(label, w, why)
			} else {
				c.unknown(label, w, why)
			}
		}
		want("a point nearer to the circumcentre comes first", bLt(da, db), bAnd(less, bNot(back)))
		apart := bAnd(bEq(da, db), bNot(bAnd(bEq(pa[0], pb[0]), bEq(pa[1], pb[1]))))
		want("equal points stay together", apart, bNot(bAnd(less, back)))
		want("equal points stay together (order)", apart, bOr(less, back))
		if len(sa.args) > 2 && len(sb.args) > 2 && sa.args[2] != nil {
			got, ref := sa.args[2], subst(sb.args[2], x.s.m)
			if ok, why := done.equal(got, ref); ok {
				c.ok("every point is in the order once", w)
			} else if x.s.definite(got, ref) {
				c.fail("every point is in the order once", w, why)
			} else {
				c.unknown("every point is in the order once", w, why)
			}
		}
	})
}

// advRing: the hull with nodes at places 1..n for the points 0..n-1; the point
// being added is 7, its node at place 8.
type advRing struct {
	T    types.Type
	i, t int
	p, n int
}

func (g *advRing) node(i, t, p, n *Term) *Term {
	st := under(g.T).(*types.Struct)
	a := make([]*Term, st.NumFields())
	for k := range a {
		a[k] = zeroOf(st.Field(k).Type())
	}
	a[g.i], a[g.t], a[g.p], a[g.n] = i, t, p, n
	return mkTup(tname(g.T), a...)
}

// hull: the nodes of the ring in order; the others are removed
func (g *advRing) hull(order ...int64) *Term {
	var u []*Term
	for k := int64(0); k <= 8; k++ {
		t := mkVar("t"+itoa(int(k)), SNum, true)
		v := g.node(numInt(-1), t, numInt((k+8)%9), numInt((k+1)%9))
		for j, o := range order {
			if o == k {
				v = g.node(numInt(k-1), t, numInt(order[(j+len(order)-1)%len(order)]), numInt(order[(j+1)%len(order)]))
			}
		}
		u = append(u, mkUnit(v))
	}
	return mkCat(u...)
}

func (g *advRing) field(heap *Term, k int64, f int) *Term {
	st := under(g.T).(*types.Struct)
	s, n := sortOf(st.Field(f).Type())
	return mkField(mkSel(heap, numInt(k), STup, false), tname(g.T), f, s, n)
}

// sameHull: nil when the nodes of the hull agree under the condition
func (g *advRing) sameHull(ctx *Ctx, cond, got, want *Term) string {
	st := under(g.T).(*types.Struct)
	for k := int64(1); k <= 8; k++ {
		gi, wi := g.field(got, k, g.i), g.field(want, k, g.i)
		live := bAnd(cond, bLe(tZero, wi))
		if ok, why := underCond(ctx, bAnd(cond, bLt(wi, tZero)), boolNum(bLt(gi, tZero)), tOne); !ok {
			return "the removed node still looks alive: " + why
		}
		for f := 0; f < st.NumFields(); f++ {
			if f != g.i && f != g.t && f != g.p && f != g.n {
				continue
			}
			if ok, why := underCond(ctx, live, g.field(got, k, f), g.field(want, k, f)); !ok {
				return "the " + st.Field(f).Name() + " of the hull node " + itoa(int(k)) + " becomes " + why
			}
		}
	}
	return ""
}

// ringOps: what joining and taking out do to the links, on a ring of at least
// three nodes
func (c *Chk) ringOps() {
	for _, o := range []struct{ spec, fn, label string }{
		{"gegovJoined", "newNode", "a node is joined between its predecessor and the one that followed"},
		{"gegovAlone", "newNode", "the first node is its own neighbour"},
		{"gegovTakenOut", "node.remove", "the neighbours of a node taken out are linked"},
	} {
		sp, fn := P.fn("triangulate2", o.spec), P.fn("triangulate2", o.fn)
		if sp == nil || fn == nil {
			c.unknown(o.label, "triangulate2", "no such function")
			continue
		}
		w := fnPos(fn)
		c.try(o.label, w, func() {
			e := newEval()
			r := evalFn(e, sp, nil, nil)
			c.fns[fn.String()] = true
			c.insts += e.steps
			if r.err != "" || len(r.res) != 1 {
				c.unknown(o.label, w, "not evaluated: "+r.err)
				return
			}
			t, ok := r.res[0].(*Term)
			if !ok || vague(t) != "" {
				c.unknown(o.label, w, "no definite value")
				return
			}
			limit := 500
			bad := ""
			newCtx().cases([]*Term{boolNum(t)}, &limit, func(d *Ctx, s []*Term) bool {
				if s[0] != tOne {
					bad = joinLits(d.lits)
				}
				return bad == ""
			})
			if bad != "" {
				c.fail(o.label, w, "not when "+clip(bad))
				return
			}
			c.ok(o.label, w)
		})
	}
}

func checkT10(c *Chk) {
	c.ringOps()
	fn := P.fn("triangulate2", "triangulator.triangulate")
	if fn == nil {
		c.unknown("construction", "triangulate2", "no such function")
		return
	}
	w := fnPos(fn)
	var x *construction
	c.try("construction", w, func() { withLazy(func() { x = c.construction() }) })
	if x == nil {
		return
	}
	if x.err != "" {
		c.unknown("construction", w, x.err)
		return
	}
	if x.whyA != "" {
		c.unknown("construction", w, x.whyA)
		return
	}
	for i, st := range x.status {
		if st != cmpEqual {
			c.unknown("construction", x.a.pre[i].where(), "the seeds are not chosen as specified: "+x.why[i])
			return
		}
	}
	c.try("construction", w, func() { c.advance(x) })
}

func (c *Chk) advance(x *construction) {
	s, a, b := x.s, x.a, x.b
	w := a.main.where()
	T := P.pkgs["triangulate2"].Type("node")
	if T == nil {
		panic(undecided("no node type"))
	}
	g := &advRing{T: T.Type(), i: fieldIndex(T.Type(), "i"), t: fieldIndex(T.Type(), "t"), p: fieldIndex(T.Type(), "prev"), n: fieldIndex(T.Type(), "next")}
	if g.i < 0 || g.t < 0 || g.p < 0 || g.n < 0 {
		panic(undecided("the fields of a node are not the ones specified"))
	}
	hull := triFieldIndex("hull")
	count := triFieldIndex("trianglesLen")
	hash := triFieldIndex("hash")
	if a.fw == nil || a.bk == nil {
		c.fail("triangles are added on both sides of a new point", w, "no loop adds triangles over further edges")
		return
	}
	type pairing struct{ x, y *LoopInfo }
	all := []pairing{{a.main, b.main}, {a.probe, b.probe}, {a.see, b.see}, {a.fw, b.fw}, {a.bk, b.bk}}
	for _, p := range all {
		s.m[p.y.K] = p.x.K
		for _, f := range []int{hull, count, hash} {
			u, v := p.x.fieldVar(f), p.y.fieldVar(f)
			if u != nil && v != nil {
				s.m[baseSym(v.sym)] = u.sym
			}
		}
		u, v := p.x.heapVar(), p.y.heapVar()
		if v != nil && u == nil {
			c.fail("the hull follows the triangles", p.x.where(), "the loop leaves the hull as it was")
			return
		}
		if u != nil && v != nil {
			s.m[baseSym(v.sym)] = u.sym
		}
		un, vn := p.x.nodeVars(), p.y.nodeVars()
		if len(un) != len(vn) {
			panic(undecided("the loop at " + p.x.pos() + " keeps other references to the hull than specified"))
		}
		for i := range vn {
			s.m[baseSym(vn[i].sym)] = un[i].sym
		}
	}
	if n := 0; true {
		for _, ev := range a.r.e.events {
			if ev.kind == "call" && ev.name == "hashEdge" && len(ev.loops) > 0 && ev.loops[0] == a.main {
				n++
			}
		}
		if n == 0 {
			c.fail("the search can find a node of the hull afterwards", w, "no node of an added point is entered in the table")
			return
		}
	}
	// the last point seen
	last := func(l *LoopInfo) (out [3]*LoopVar, whole *LoopVar) {
		for i := range l.raw {
			v := &l.raw[i]
			if v.loc != nil && hasPfx(v.loc.obj.name, "heap:") {
				continue
			}
			if v.sym.sort == STup && isVector(v.typ) {
				whole = v
			}
			for k := 0; k < 3; k++ {
				if hasSfx(v.sym.name, "."+itoa(k)) && v.loc != nil && isVector(v.loc.obj.typ) {
					out[k] = v
				}
			}
		}
		return
	}
	la, wa := last(a.main)
	lb, wb := last(b.main)
	var pa, pb V3
	var ia, ib, ea, eb V3
	for k := 0; k < 3; k++ {
		get := func(l [3]*LoopVar, w *LoopVar) (sym, init, step *Term) {
			if w != nil {
				return vec(w.sym)[k], vec(w.init)[k], vec(w.step)[k]
			}
			if l[k] == nil {
				if only := func() bool {
					for i := range a.main.raw {
						v := &a.main.raw[i]
						if v.loc == nil || v.loc.obj.name != "t" && !hasPfx(v.loc.obj.name, "heap:") {
							return false
						}
					}
					return true
				}(); only {
					return nil, nil, nil
				}
				panic(undecided("the last point is not kept the way specified"))
			}
			return l[k].sym, l[k].init, l[k].step
		}
		pa[k], ia[k], ea[k] = get(la, wa)
		pb[k], ib[k], eb[k] = get(lb, wb)
		if pa[k] == nil {
			c.fail("the last point is kept", w, "nothing is remembered of the point before")
			return
		}
	}
	if wb != nil {
		s.m[baseSym(wb.sym)] = mkTup(tname(wb.typ), pa[0], pa[1], pa[2])
	} else {
		for k := range pb {
			s.m[pb[k]] = pa[k]
		}
	}
	// the search of a node to begin with
	pv := func(l *LoopInfo) *LoopVar {
		for i := range l.raw {
			if v := &l.raw[i]; v.loc == nil && v.sym.sort == SNum && v.sym.isInt && !pointsTo(v.typ, "node") {
				return v
			}
		}
		return nil
	}
	if u, v := pv(a.probe), pv(b.probe); u != nil && v != nil {
		s.m[baseSym(v.sym)] = u.sym
	}
	ctx := newCtx()
	for _, l := range a.pre {
		s.assumeInv(ctx, l)
	}
	for _, p := range all {
		s.assumeInv(ctx, p.x)
	}
	// the search through the table
	probed := ctx.clone()
	// the place searched at stays within the table: it begins there, and the
	// specification keeps it there
	if v := a.main.fieldVar(hash); v != nil {
		var key []*LoopVar
		for j := range b.probe.raw {
			h := &b.probe.raw[j]
			if h.loc != nil || !strings.Contains(h.sym.name, ":h.") {
				continue
			}
			for i := range a.probe.raw {
				u := &a.probe.raw[i]
				if u.loc == nil && u.sym.sort == SNum && u.sym.isInt {
					if ok, _ := ctx.tryEqual(u.init, subst(h.init, s.m)); ok {
						key = append(key, u)
					}
				}
			}
		}
		if len(key) == 1 {
			probed.assume(bLe(tZero, key[0].sym), true)
			probed.assume(bLt(key[0].sym, mkLen(v.sym)), true)
		}
	}
	if st, why := s.loop(probed, a.probe, b.probe); st == cmpEqual {
		c.ok("the table is searched from the place of the point on, all around", a.probe.where())
	} else if st == cmpDiffer {
		c.fail("the table is searched from the place of the point on, all around", a.probe.where(), why)
	} else {
		c.unknown("the table is searched from the place of the point on, all around", a.probe.where(), why)
	}
	start := a.see.nodeVars()[0].init
	startB := subst(b.see.nodeVars()[0].init, s.m)
	if ok, why := ctx.equal(start, startB); !ok {
		c.unknown("the search starts on the hull", a.see.where(), why)
		return
	}
	c.ok("the search starts on the hull", a.see.where())
	ptA, ptB := a.first.args[1], subst(b.first.args[1], s.m)
	if ok, why := ctx.equal(ptA, ptB); !ok {
		if s.reversed(ctx, a.first, b.first) {
			c.fail("points are taken in order", a.first.where(), "the corners of the triangle over the first edge are given the other way round")
		} else if skips(ptA, ptB, a.main.K) {
			c.fail("points are taken in order", a.first.where(), "points are left out: "+ptA.String())
		} else {
			c.unknown("points are taken in order", a.first.where(), why)
		}
		return
	}
	c.ok("points are taken in order", a.first.where())
	c.firstHull(x, g, hull)
	var starts []*Term
	var leaves func(t *Term)
	leaves = func(t *Term) {
		switch t.op {
		case OIte:
			leaves(t.args[1])
			leaves(t.args[2])
		case OFn:
			starts = append(starts, t)
		case OPoly:
			if p := asPoly(t); len(p) == 1 && len(p[0].m) == 1 && p[0].m[0].a.op == OFn {
				starts = append(starts, p[0].m[0].a)
				return
			}
			fallthrough
		default:
			panic(undecided("no fixed place for the search to start"))
		}
	}
	leaves(start)
	leaves(startB)
	if ptA.op == OPoly || ptA.op == OIte {
		panic(undecided("the points are not taken from a list"))
	}
	sym := func(v *LoopVar) *Term { return baseSym(v.sym) }
	states := []advState{{7, 1, 1, true}, {7, 1, 1, false}, {7, 0, 0, true}, {3, 0, 0, true}, {3, 0, 0, false}, {3, 1, 0, true}, {4, 0, 1, true}, {4, 1, 0, false}, {5, 1, 1, true}, {5, 0, 1, true}, {5, 2, 0, true}, {6, 1, 2, true}}
	for _, q := range states {
		// the walks begin at place 3; fn and bn nodes have been taken off
		back, e, first := q.back, int64(2), int64(2)
		if !back {
			first = 1
		}
		note := " (hull of " + itoa(q.n) + ", " + itoa(q.fn) + " edges passed forward, " + itoa(q.bn) + " backward)"
		if !back {
			note = " (hull of " + itoa(q.n) + ", " + itoa(q.fn) + " edges passed, none seen before)"
		}
		from := numInt(first)
		if !back {
			from = numInt(1)
		}
		var whole, fwd, bwd []int64
		for k := int64(1); k <= int64(q.n); k++ {
			whole = append(whole, k)
		}
		at := func(k int64) int64 { return (k-1+int64(2*q.n))%int64(q.n) + 1 }
		fq, bq := at(e+1+int64(q.fn)), at(e-int64(q.bn))
		fwd = append(fwd, 8)
		for k := fq; ; k = at(k + 1) {
			fwd = append(fwd, k)
			if k == e {
				break
			}
		}
		bwd = append(bwd, 8)
		for k := fq; ; k = at(k + 1) {
			bwd = append(bwd, k)
			if k == bq {
				break
			}
		}
		m := map[*Term]*Term{
			ptA: numInt(7), ptB: numInt(7),
			sym(a.main.heapVar()):    g.hull(whole...),
			sym(a.see.nodeVars()[0]): numInt(e),
			sym(a.fw.heapVar()):      g.hull(fwd...),
			sym(a.fw.nodeVars()[0]):  numInt(fq),
			sym(a.bk.heapVar()):      g.hull(bwd...),
			sym(a.bk.nodeVars()[0]):  numInt(bq),
		}
		for _, t := range starts {
			m[t] = from
		}
		fix := func(t *Term) *Term { return subst(basesTo1(t), m) }
		ref := func(t *Term) *Term { return fix(subst(t, s.m)) }
		differ := func(label, at string, cond, got, want *Term) {
			c.try(label, at, func() {
				if ok, why := underCond(ctx, cond, got, want); ok {
					c.ok(label+note, at)
				} else if s.definite(got, want) {
					c.fail(label+note, at, why)
				} else {
					c.unknown(label+note, at, why)
				}
			})
		}
		hulls := func(label, at string, cond, got, want *Term) {
			c.try(label, at, func() {
				if why := g.sameHull(ctx, cond, got, want); why == "" {
					c.ok(label+note, at)
				} else if s.definite(got, want) {
					c.fail(label+note, at, why)
				} else {
					c.unknown(label+note, at, why)
				}
			})
		}
		args := func(kind string, u, v *Event, cond *Term) {
			for i := range u.args {
				if i < len(v.args) {
					differ(kind+", argument "+itoa(i), u.where(), cond, fix(u.args[i]), ref(v.args[i]))
				}
			}
		}
		// the search for an edge that is seen goes once around
		if q.n == 7 || q.n == 3 {
			for _, k := range whole {
				m[sym(a.see.nodeVars()[0])] = numInt(k)
				on := fix(a.see.cont)
				l := ", looking at edge " + itoa(int(k))
				differ("the search goes on until an edge is seen or all were looked at"+l, a.see.where(), tTrue, boolNum(on), boolNum(ref(b.see.cont)))
				differ("the next edge of the search"+l, a.see.where(), on, fix(a.see.nodeVars()[0].step), ref(b.see.nodeVars()[0].step))
				// the search ends here
				over := bAnd(bNot(on), bNot(ref(b.see.cont)))
				differ("a point is added when it sees an edge of the hull"+l, a.first.where(), over, boolNum(fix(a.first.cond())), boolNum(ref(b.first.cond())))
				differ("every point is taken"+l, w, over, boolNum(fix(a.main.cont)), boolNum(ref(b.main.cont)))
			}
			m[sym(a.see.nodeVars()[0])] = numInt(e)
		}
		// the point is joined to the first edge it sees
		cond := fix(a.first.cond())
		differ("a point is added when it sees an edge of the hull", a.first.where(), tTrue, boolNum(cond), boolNum(ref(b.first.cond())))
		args("triangle over the first edge seen", a.first, b.first, cond)
		// further edges
		for _, q := range []struct {
			n      string
			p      pairing
			ea, eb *Event
		}{{"forward", pairing{a.fw, b.fw}, a.fwd, b.fwd}, {"backward", pairing{a.bk, b.bk}, a.back, b.back}} {
			at := q.p.x.where()
			pre := cond
			if q.n == "backward" && !back {
				differ("the hull is followed backward only from the first edge", at, tTrue, boolNum(fix(q.ea.cond())), boolNum(ref(q.eb.cond())))
				continue
			}
			differ(q.n+": begins next to the new point", at, pre, fix(q.p.x.nodeVars()[0].init), ref(q.p.y.nodeVars()[0].init))
			hulls(q.n+": the hull it begins with", at, pre, fix(q.p.x.heapVar().init), ref(q.p.y.heapVar().init))
			cont := fix(q.p.x.cont)
			differ(q.n+": goes on while the edge is seen", at, pre, boolNum(cont), boolNum(ref(q.p.y.cont)))
			on := bAnd(pre, cont)
			args(q.n+": triangle over an edge seen", q.ea, q.eb, on)
			differ(q.n+": next edge", at, on, fix(q.p.x.nodeVars()[0].step), ref(q.p.y.nodeVars()[0].step))
			hulls(q.n+": the node is taken off the hull", at, on, fix(q.p.x.heapVar().step), ref(q.p.y.heapVar().step))
		}
		for k := range ea {
			differ("the last point, coordinate "+itoa(k), w, tTrue, fix(ea[k]), ref(eb[k]))
			if back {
				differ("no point before the first, coordinate "+itoa(k), w, tTrue, fix(ia[k]), ref(ib[k]))
			}
		}
		hulls("the hull after a point", w, cond, fix(a.main.heapVar().step), ref(b.main.heapVar().step))
		for _, q := range []struct {
			l    *LoopInfo
			cond *Term
			ring []int64
		}{{a.main, cond, whole}, {a.fw, bAnd(cond, fix(a.fw.cont)), fwd}, {a.bk, bAnd(cond, fix(a.bk.cont)), bwd}} {
			v := q.l.fieldVar(hull)
			if v == nil || q.l == a.bk && !back {
				continue
			}
			w := q.l.where()
			// the entry can be any node of the hull before
			em := map[*Term]*Term{}
			for i, l := range []*LoopInfo{a.main, a.fw, a.bk} {
				if x := l.fieldVar(hull); x != nil && l != q.l {
					em[sym(x)] = numInt([][]int64{whole, fwd, bwd}[i][0])
				}
			}
			c.try("the hull is entered at one of its nodes", w, func() {
				bad := ""
				for _, entry := range q.ring {
					em[sym(v)] = numInt(entry)
					got, live := subst(fix(v.step), em), subst(fix(q.l.heapVar().step), em)
					n := 20000
					ctx.cases([]*Term{subst(q.cond, em), got, live}, &n, func(d *Ctx, t []*Term) bool {
						if t[0] == tFalse {
							return true
						}
						if k, ok := isConstInt(t[1]); ok && k >= 1 && k <= 8 {
							if i, ok := isConstInt(g.field(t[2], k, g.i)); ok && i < 0 {
								bad = "node " + itoa(int(k)) + " has been removed"
							}
						}
						return bad == ""
					})
				}
				if bad != "" {
					c.fail("the hull is entered at one of its nodes"+note, w, bad)
				} else {
					c.ok("the hull is entered at one of its nodes"+note, w)
				}
			})
		}
		// every triangle made is checked
		c.calls10(x, g, note, cond, fix, ref, ctx)
	}
}

// reversed: the same corners in the other order round
func (s *simulation) reversed(ctx *Ctx, u, v *Event) bool {
	at := [3]int{-1, -1, -1}
	for i := range at {
		for j := range at {
			if ok, _ := ctx.tryEqual(u.args[i], subst(v.args[j], s.m)); ok {
				at[i] = j
			}
		}
	}
	return at == [3]int{0, 2, 1} || at == [3]int{2, 1, 0} || at == [3]int{1, 0, 2}
}

// skips: entries of the same list, but not every one
func skips(x, y, K *Term) bool {
	if x.op == OPoly {
		if p := asPoly(x); len(p) == 1 && len(p[0].m) == 1 {
			x = p[0].m[0].a
		}
	}
	if x.op != OSel || y.op != OSel || x.args[0] != y.args[0] || y.args[1] != K {
		return false
	}
	step, ok := isConstInt(tSub(subst(x.args[1], map[*Term]*Term{K: tAdd(K, tOne)}), x.args[1]))
	return ok && step > 1
}

// firstHull: the ring of the first triangle
func (c *Chk) firstHull(x *construction, g *advRing, hull int) {
	s, a, b := x.s, x.a, x.b
	w := a.seed.where()
	c.try("the first hull is the ring of the first triangle", w, func() {
		m := map[*Term]*Term{}
		k := int64(0)
		for _, n := range []string{":a.", ":b.", ":c."} {
			for _, l := range b.pre {
				for _, y := range l.raw {
					if strings.Contains(y.sym.name, n) && y.loc == nil {
						m[subst(y.sym, s.m)] = numInt(k)
						k++
					}
				}
			}
		}
		if k != 3 {
			panic(undecided("the three seeds were not identified"))
		}
		fix := func(t *Term) *Term { return subst(basesTo1(t), m) }
		got, want := fix(a.main.heapVar().init), fix(subst(b.main.heapVar().init, s.m))
		// new nodes are zero
		zero := map[*Term]*Term{}
		for _, t := range []*Term{got, want} {
			anyTerm(t, func(x *Term) bool {
				if x.op == OVar && hasPfx(x.name, "heap:") {
					var u []*Term
					for k := 0; k < 9; k++ {
						u = append(u, mkUnit(g.node(tZero, tZero, tZero, tZero)))
					}
					zero[x] = mkCat(u...)
				}
				return false
			})
		}
		got, want = subst(got, zero), subst(want, zero)
		ctx := newCtx()
		for k := int64(1); k <= 3; k++ {
			for j, n := range []string{"point", "triangle", "predecessor", "successor"} {
				f := []int{g.i, g.t, g.p, g.n}[j]
				l := "the " + n + " of node " + itoa(int(k)) + " of the first hull"
				u, v := g.field(got, k, f), g.field(want, k, f)
				if ok, why := underCond(ctx, fix(a.seed.cond()), u, v); ok {
					c.ok(l, w)
				} else if s.definite(u, v) {
					c.fail(l, w, why)
				} else {
					c.unknown(l, w, why)
				}
			}
		}
		if v := a.main.fieldVar(hull); v != nil {
			l := "the first hull is entered at one of its nodes"
			in := fix(v.init)
			if ok, why := underCond(ctx, fix(a.seed.cond()), boolNum(bAnd(bLe(tOne, in), bLe(in, numInt(3)))), tOne); ok {
				c.ok(l, w)
			} else if s.definite(in, fix(subst(b.main.fieldVar(hull).init, s.m))) {
				c.fail(l, w, why)
			} else {
				c.unknown(l, w, why)
			}
		}
		n := 0
		for _, ev := range a.r.e.events {
			if ev.kind == "call" && ev.name == "hashEdge" && (len(ev.loops) == 0 || ev.loops[0] != a.main) {
				n++
			}
		}
		if l := "the first search finds a node of the hull"; n == 0 {
			c.fail(l, w, "no node of the first triangle is entered in the table")
		} else {
			c.ok(l, w)
		}
	})
}

// advState: a hull of n nodes, the number of them taken off on both sides of
// the new node, and whether the search began at the first edge seen
type advState struct {
	n, fn, bn int
	back      bool
}

func triFieldIndex(n string) int {
	T := P.pkgs["triangulate2"].Type("triangulator")
	if T == nil {
		return -1
	}
	return fieldIndex(T.Type(), n)
}

// basesTo1: the list of nodes is at place 1
func basesTo1(t *Term) *Term {
	m := map[*Term]*Term{}
	anyTerm(t, func(x *Term) bool {
		if x.op == OVar && hasPfx(x.name, "base:") {
			m[x] = tOne
		}
		return false
	})
	return subst(t, m)
}

// calls10: legalize and hashEdge, place by place
func (c *Chk) calls10(x *construction, g *advRing, note string, cond *Term, fix, ref func(*Term) *Term, ctx *Ctx) {
	at := func(s *advSide, name string, l *LoopInfo) (out []*Event) {
		for _, ev := range s.r.e.events {
			if ev.kind == "call" && ev.name == name && len(ev.loops) > 0 && ev.loops[len(ev.loops)-1] == l {
				out = append(out, ev)
			}
		}
		return
	}
	a, b := x.a, x.b
	for _, q := range []struct {
		n    string
		u, v *LoopInfo
	}{{"first edge", a.main, b.main}, {"forward", a.fw, b.fw}, {"backward", a.bk, b.bk}} {
		l := q.n + ": the new triangle is checked"
		ua, ub := at(a, "legalize", q.u), at(b, "legalize", q.v)
		c.try(l, q.u.where(), func() {
			if len(ua) == 0 {
				c.fail(l+note, q.u.where(), "legalize is not called")
				return
			}
			if len(ua) != len(ub) {
				c.unknown(l+note, q.u.where(), "other calls than specified")
				return
			}
			for i := range ua {
				cw := ref(ub[i].cond())
				if ok, why := underCond(ctx, tTrue, boolNum(fix(ua[i].cond())), boolNum(cw)); !ok {
					if x.s.definite(fix(ua[i].cond()), cw) {
						c.fail(l+note, ua[i].where(), "called when "+why)
					} else {
						c.unknown(l+note, ua[i].where(), "called when "+why)
					}
					return
				}
				if ok, why := underCond(ctx, cw, fix(ua[i].args[0]), ref(ub[i].args[0])); !ok {
					if x.s.definite(fix(ua[i].args[0]), ref(ub[i].args[0])) {
						c.fail(l+note, ua[i].where(), why)
					} else {
						c.unknown(l+note, ua[i].where(), why)
					}
					return
				}
			}
			c.ok(l+note, q.u.where())
		})
	}
	l := "the search can find a node of the hull afterwards"
	c.try(l, a.main.where(), func() {
		ev := at(a, "hashEdge", a.main)
		if len(ev) == 0 {
			if len(at(a, "hashEdge", a.fw))+len(at(a, "hashEdge", a.bk)) == 0 {
				c.fail(l+note, a.main.where(), "no node is entered in the table")
			} else {
				c.unknown(l+note, a.main.where(), "the table is filled in other places")
			}
			return
		}
		heap := fix(a.main.heapVar().step)
		for _, v := range ev {
			bad := ""
			n := 20000
			some := false
			ctx.cases([]*Term{cond, fix(v.args[0]), heap, boolNum(fix(v.cond()))}, &n, func(d *Ctx, t []*Term) bool {
				if t[0] == tFalse || t[3] == tZero {
					return true
				}
				some = true
				k, ok := isConstInt(t[1])
				if !ok {
					bad = "?"
					return false
				}
				if i, ok := isConstInt(g.field(t[2], k, g.i)); !ok || i < 0 {
					bad = "node " + itoa(int(k)) + " has been removed"
				}
				return bad == ""
			})
			if some && bad == "" {
				c.ok(l+note, v.where())
				return
			}
		}
		c.unknown(l+note, a.main.where(), "no call with a node that is certainly on the hull")
	})
}

func init() {
	register("T09", "the loops that choose the seed triangle, sort the points and make room are compared step by step with the specification's; order, first triangle and error condition agree as terms", checkT09)
	register("T10", "the loop that adds the points is compared with the specification's on hulls of three to seven nodes with symbolic points and triangles: conditions, calls, walk and links agree in every case", checkT10)
}
