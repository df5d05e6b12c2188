package main

// S01-S04: meshes of the figures. The vertex, normal, texture and index lists
// are closed forms (comprehensions over the sector and stack numbers). The
// equations of the surface are polynomial identities of the comprehension
// bodies; the index lists of the exported constructors have constant lengths
// and are judged in full.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register("S01", "every entry of every index list, in closed form over the constant sector and stack counts, is a vertex number; the number of entries is a multiple of three; for general counts by the extreme values of the affine bodies", checkS01)
	register("S02", "every body of the vertex comprehension satisfies the figure's implicit equation around the centre as a polynomial identity (sin² = 1 - cos²), in every case of its conditions", checkS02)
	register("S03", "normal, texture and vertex comprehensions run in step; each normal satisfies the identities of the unit outward normal at its vertex; texture coordinates are affine in the sector and stack number with values 0 and 1 at the ends", checkS03)
	register("S04", "the closed-form triangle list at the constant counts, with vertices identified by their closed-form positions: every directed edge occurs once together with its reverse, and the Euler characteristic is that of the figure; for the flat figures one fan in both orientations", checkS04)
}

// ---- evaluation of closed forms at constants ----

type numEnv map[*Term]float64

func numEval(t *Term, env numEnv) (float64, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	switch t.op {
	case OPoly:
		s := 0.0
		for _, p := range t.poly {
			c, _ := p.c.Float64()
			for _, f := range p.m {
				v, ok := numEval(f.a, env)
				if !ok {
					return 0, false
				}
				switch f.e {
				case 1:
					c *= v
				case 2:
					c *= v * v
				case -1:
					c /= v
				default:
					c *= math.Pow(v, float64(f.e))
				}
			}
			s += c
		}
		return s, true
	case OVar:
		if t == tPI {
			return math.Pi, true
		}
		return 0, false
	case OIte:
		b, ok := numAtom(t.args[0], env)
		if !ok {
			return 0, false
		}
		if b {
			return numEval(t.args[1], env)
		}
		return numEval(t.args[2], env)
	case OTrue:
		return 1, true
	case OFalse:
		return 0, true
	case OFn:
		var a []float64
		for _, x := range t.args {
			v, ok := numEval(x, env)
			if !ok {
				return 0, false
			}
			a = append(a, v)
		}
		switch {
		case len(a) == 1:
			switch t.name {
			case "sin":
				return math.Sin(a[0]), true
			case "cos":
				return math.Cos(a[0]), true
			case "sqrt":
				return math.Sqrt(a[0]), true
			case "abs":
				return math.Abs(a[0]), true
			case "inv":
				return 1 / a[0], true
			case "pos":
				return math.Max(0, a[0]), true
			case "trunc":
				return math.Trunc(a[0]), true
			case "floor":
				return math.Floor(a[0]), true
			case "ceil":
				return math.Ceil(a[0]), true
			}
		case len(a) == 2 && t.name == "mod" && a[1] != 0:
			return math.Mod(a[0], a[1]), true
		case len(a) == 2 && t.name == "idiv" && a[1] != 0:
			return math.Trunc(a[0] / a[1]), true
		}
	}
	return 0, false
}

func numAtom(a *Term, env numEnv) (bool, bool) {
	switch a.op {
	case OLt0, OEq0:
		v, ok := numEval(a.args[0], env)
		if a.op == OLt0 {
			return v < 0, ok
		}
		return v == 0, ok
	case OHolds:
		v, ok := numEval(a.args[0], env)
		return v != 0, ok
	}
	return false, false
}

// eachItem calls f for every element of a sequence whose lengths are constants.
func eachItem(s *Term, env numEnv, f func(t *Term, env numEnv) bool) bool {
	switch s.op {
	case OUnit:
		return f(s.args[0], env)
	case OCat:
		for _, a := range s.args {
			if !eachItem(a, env, f) {
				return false
			}
		}
		return true
	case OComp:
		n, ok := numEval(s.args[1], env)
		if !ok || n != math.Trunc(n) || n > 1e6 {
			return false
		}
		for i := 0.0; i < n; i++ {
			env[s.args[0]] = i
			if !eachItem(s.args[2], env, f) {
				return false
			}
		}
		delete(env, s.args[0])
		return true
	case OIte:
		b, ok := numAtom(s.args[0], env)
		if !ok {
			return false
		}
		if b {
			return eachItem(s.args[1], env, f)
		}
		return eachItem(s.args[2], env, f)
	}
	return isEmptySeq(s)
}

func isEmptySeq(s *Term) bool { return mkLen(s) == tZero }

// ---- the figures ----

type figure struct {
	name       string // of the exported constructor
	typ        string
	dims       []string
	solid      bool
	euler      int
	smallCount [][2]int64
}

var figures = []figure{
	{"ConstructSphere", "Sphere", []string{"radius"}, true, 2, [][2]int64{{3, 2}, {3, 3}, {4, 3}, {5, 4}, {7, 5}}},
	{"ConstructTorus", "Torus", []string{"radius", "tubeRadius"}, true, 0, [][2]int64{{3, 3}, {4, 3}, {3, 4}, {5, 4}, {7, 5}}},
	{"ConstructCircle", "Circle", []string{"radius"}, false, 1, [][2]int64{{3, 0}, {4, 0}, {5, 0}, {8, 0}}},
	{"ConstructEllipse", "Ellipse", []string{"semiAxis1", "semiAxis2"}, false, 1, [][2]int64{{3, 0}, {4, 0}, {5, 0}, {8, 0}}},
}

type meshRun struct {
	fig                         figure
	label                       string
	r                           *Run
	center                      V3
	dims                        []*Term
	sectors, stacks             *Term // nil for the exported constructors
	vertices, normals, tex, idx *Term
}

// each evaluates the exported constructor and the type's Construct of every
// figure, in every case of the conditions on the dimensions.
func (c *Chk) meshes(what string, solid bool, f func(m *meshRun, l string, ctx *Ctx)) {
	for _, fig := range figures {
		if solid && !fig.solid {
			continue
		}
		for _, method := range []bool{false, true} {
			name := fig.name
			if method {
				name = fig.typ + ".Construct"
			}
			r := c.run("shape", name)
			l := what + ", " + name
			if r == nil {
				continue
			}
			c.try(l, r.where(), func() {
				m := &meshRun{fig: fig, r: r}
				if method {
					T := r.ptype(0)
					m.center = vec(fld(r.pterm(0), T, "center"))
					for _, d := range fig.dims {
						m.dims = append(m.dims, fld(r.pterm(0), T, d))
					}
					m.sectors = fld(r.pterm(0), T, "sectorCount")
					if fig.solid {
						m.stacks = fld(r.pterm(0), T, "stackCount")
					}
				} else {
					if len(r.params) != 1+len(fig.dims) {
						panic(undecided("unexpected parameters"))
					}
					m.center = r.vec(0)
					for i := range fig.dims {
						m.dims = append(m.dims, r.pterm(1+i))
					}
				}
				if len(r.res) != 1 {
					panic(undecided("unexpected results"))
				}
				T := r.fn.Signature.Results().At(0).Type()
				if p, ok := T.Underlying().(*types.Pointer); ok {
					T = p.Elem()
				}
				mesh := r.ret(0)
				ctx := newCtx()
				for _, d := range m.dims {
					ctx.assume(bLt(tZero, d), true)
				}
				if m.sectors != nil {
					ctx.assume(bLt(m.sectors, numInt(3)), false)
				}
				if m.stacks != nil {
					ctx.assume(bLt(m.stacks, numInt(3)), false)
				}
				if fig.typ == "Torus" {
					ctx.assume(bLt(m.dims[1], m.dims[0]), true)
				}
				limit := 200
				parts := []*Term{fld(mesh, T, "Vertices"), fld(mesh, T, "Normals"), fld(mesh, T, "TexCoords"), fld(mesh, T, "Indices")}
				// a panic for a valid figure
				for _, ev := range r.e.events {
					if ev.kind == "panic" && ctx.simp(ev.cond()) != tFalse {
						c.unknown(l, ev.where(), "may panic")
						return
					}
				}
				n := 0
				ctx.cases(parts, &limit, func(d *Ctx, s []*Term) bool {
					mm := *m
					mm.vertices, mm.normals, mm.tex, mm.idx = m.clean(s[0]), m.clean(s[1]), m.clean(s[2]), m.clean(s[3])
					ll := l
					if n++; len(d.lits) > len(ctx.lits) {
						ll = l + " when " + joinLits(d.lits[len(ctx.lits):])
					}
					f(&mm, ll, d)
					return true
				})
			})
		}
	}
}

// instances: the parameter values at which the closed forms are evaluated.
func (m *meshRun) instances(ctx *Ctx, centre bool) []numEnv {
	var out []numEnv
	var counts [][2]int64
	if m.sectors == nil {
		counts = [][2]int64{{0, 0}}
	} else {
		counts = m.fig.smallCount
	}
	// values of the parameters: defaults and those around the case's thresholds
	params := append([]*Term{}, m.dims...)
	params = append(params, m.center[:]...)
	cand := map[*Term][]float64{}
	for i, d := range m.dims {
		for _, k := range []float64{1.7, 0.01, 300} {
			v := k
			if i == 0 && m.fig.typ == "Torus" {
				v = 3 * k
			}
			if i == 1 && m.fig.typ == "Ellipse" {
				v = 2 * k
			}
			cand[d] = append(cand[d], v)
		}
	}
	for i, x := range m.center {
		v := 0.0
		if centre {
			v = []float64{0.3125, -0.7, 1.9}[i]
		}
		cand[x] = []float64{v}
	}

	for _, l := range ctx.atoms {
		if l.at.op != OLt0 && l.at.op != OEq0 {
			continue
		}
		for _, p := range params {
			if !occurs(l.at.args[0], p) {
				continue
			}
			env := numEnv{}
			for _, q := range params {
				env[q] = cand[q][0]
			}
			env[p] = 0
			y0, ok0 := numEval(l.at.args[0], env)
			env[p] = 1
			y1, ok1 := numEval(l.at.args[0], env)
			if !ok0 || !ok1 || y0 == y1 {
				continue
			}
			z := -y0 / (y1 - y0)
			if len(cand[p]) < 12 {
				cand[p] = append(cand[p], z, z-0.5, z+0.5, z*0.5, z*2)

			}
		}
	}
	var sets []numEnv
	var build func(i int, env numEnv)
	build = func(i int, env numEnv) {
		if len(sets) > 4000 {
			return
		}
		if i == len(params) {
			e := numEnv{}
			for k, v := range env {
				e[k] = v
			}
			sets = append(sets, e)
			return
		}
		for _, v := range cand[params[i]] {
			env[params[i]] = v
			build(i+1, env)
		}
	}
	build(0, numEnv{})
	first := true
	for _, base := range sets {
		for _, cn := range counts {
			env := numEnv{}
			for k, v := range base {
				env[k] = v
			}
			if m.sectors != nil {
				env[m.sectors] = float64(cn[0])
				if m.stacks != nil {
					env[m.stacks] = float64(cn[1])
				}
			}
			ok := true
			for _, d := range m.dims {
				ok = ok && env[d] > 0
			}
			for _, l := range ctx.atoms { // only the instances of this case
				if v, known := numAtom(l.at, env); known && v != l.val {
					ok = false
				}
			}
			if ok {
				out = append(out, env)
			}
		}
		if len(out) >= len(counts) && first {
			first = false
			break
		}
	}
	return out
}

func (m *meshRun) at(env numEnv) string {
	var s []string
	for i, d := range m.dims {
		s = append(s, fmt.Sprintf("%s %v", m.fig.dims[i], env[d]))
	}
	if m.sectors != nil {
		s = append(s, fmt.Sprintf("%v sectors", env[m.sectors]))
	}
	if m.stacks != nil {
		s = append(s, fmt.Sprintf("%v stacks", env[m.stacks]))
	}
	return strings.Join(s, ", ")
}

func numbers(seq *Term, env numEnv) ([]float64, bool) {
	var out []float64
	ok := eachItem(seq, env, func(t *Term, e numEnv) bool {
		v, ok := numEval(t, e)
		out = append(out, v)
		return ok
	})
	return out, ok
}

func tuples(seq *Term, env numEnv, k int, comp func(t *Term, i int) *Term) ([][3]float64, bool) {
	var out [][3]float64
	ok := eachItem(seq, env, func(t *Term, e numEnv) bool {
		var p [3]float64
		for i := 0; i < k; i++ {
			v, ok := numEval(comp(t, i), e)
			if !ok {
				return false
			}
			p[i] = v
		}
		out = append(out, p)
		return true
	})
	return out, ok
}

var vecComps = map[*Term]V3{}

func vecComp(t *Term, i int) *Term {
	v, ok := vecComps[t]
	if !ok {
		v = vec(t)
		vecComps[t] = v
	}
	return v[i]
}

func arrComp(t *Term, i int) *Term {
	if t.op == OTup && i < len(t.args) {
		return t.args[i]
	}
	return mkSel(t, numInt(int64(i)), SNum, false)
}

// ---- S01 ----

func checkS01(c *Chk) {
	c.meshes("indices refer to vertices", false, func(m *meshRun, l string, ctx *Ctx) {
		und := ""
		n := 0
		for _, env := range m.instances(ctx, false) {
			nv, ok1 := numEval(mkLen(m.vertices), env)
			ix, ok2 := numbers(m.idx, env)
			if !ok1 || !ok2 {
				und = "the index list is not in closed form: " + clip(m.idx.String())
				break
			}
			n += len(ix)
			for k, i := range ix {
				if i < 0 || i >= nv || i != math.Trunc(i) {
					c.fail(l, m.r.where(), fmt.Sprintf("entry %d of the index list is %v but there are %v vertices (%s)", k, i, nv, m.at(env)))
					return
				}
			}
			if len(ix)%3 != 0 || len(ix) == 0 {
				c.fail(l, m.r.where(), fmt.Sprintf("%d indices (%s)", len(ix), m.at(env)))
				return
			}
		}
		c.sites += n
		if und == "" && n == 0 {
			und = "no instance of this case"
		}
		if und == "" && m.sectors != nil {
			und = m.extremes(ctx)
		}
		if und != "" {
			c.unknown(l, m.r.where(), und)
			return
		}
		c.ok(l, m.r.where())
	})
}

type binder struct{ v, n *Term }

type item struct {
	t  *Term
	bs []binder
}

// items: the bodies of a closed-form sequence with their bound variables.
func items(s *Term, bs []binder) ([]item, bool) {
	switch s.op {
	case OUnit:
		return []item{{s.args[0], bs}}, true
	case OCat:
		var out []item
		for _, a := range s.args {
			x, ok := items(a, bs)
			if !ok {
				return nil, false
			}
			out = append(out, x...)
		}
		return out, true
	case OComp:
		return items(s.args[2], append(append([]binder{}, bs...), binder{s.args[0], s.args[1]}))
	case OIte:
		a, ok1 := items(s.args[1], bs)
		b, ok2 := items(s.args[2], bs)
		return append(a, b...), ok1 && ok2
	}
	return nil, isEmptySeq(s)
}

// extremes: for general counts, the largest and smallest value of every body.
func (m *meshRun) extremes(ctx *Ctx) string {
	its, ok := items(m.idx, nil)
	if !ok {
		return "index list of unknown form"
	}
	nv := m.clean(ctx.simp(mkLen(m.vertices)))
	for _, it := range its {
		hi, lo := it.t, it.t
		for i := len(it.bs) - 1; i >= 0; i-- {
			b := it.bs[i]
			last := tSub(m.clean(ctx.simp(b.n)), tOne)
			d := tSub(subst(it.t, map[*Term]*Term{b.v: tAdd(b.v, tOne)}), it.t)
			for _, o := range it.bs {
				if occurs(d, o.v) {
					return "an index is not affine: " + clip(it.t.String())
				}
			}
			if s := m.sign(d); s == -2 {
				return "an index with unknown slope: " + clip(it.t.String())
			} else if s >= 0 {
				hi, lo = subst(hi, map[*Term]*Term{b.v: last}), subst(lo, map[*Term]*Term{b.v: tZero})
			} else {
				hi, lo = subst(hi, map[*Term]*Term{b.v: tZero}), subst(lo, map[*Term]*Term{b.v: last})
			}
		}
		if m.sign(tSub(tSub(nv, tOne), hi)) < 0 || m.sign(lo) < 0 {
			return "an index not shown to be below " + clip(nv.String()) + ": " + clip(it.t.String())
		}
	}
	return ""
}

// sign of a polynomial in the counts, for counts of at least three: by the
// signs of its coefficients after shifting. -2 when unknown.
func (m *meshRun) sign(t *Term) int {
	if m.sectors == nil {
		if c, ok := constOf(t); ok {
			return c.Sign()
		}
		return -2
	}
	sh := map[*Term]*Term{m.sectors: tAdd(mkVar("x", SNum, true), numInt(3))}
	if m.stacks != nil {
		sh[m.stacks] = tAdd(mkVar("y", SNum, true), numInt(3))
	}
	t = subst(t, sh)
	s := 2
	for _, p := range asPoly(t) {
		for _, f := range p.m {
			if f.e < 0 || f.a.op != OVar {
				return -2
			}
		}
		if s == 2 {
			s = p.c.Sign()
		} else if s != p.c.Sign() {
			return -2
		}
	}
	if s == 2 {
		return 0
	}
	return s
}

// clean: pos(p) of a polynomial that is never negative is p
func (m *meshRun) clean(t *Term) *Term {
	for i := 0; i < 4; i++ {
		mm := map[*Term]*Term{}
		anyTerm(t, func(x *Term) bool {
			if x.op == OFn && x.name == "pos" && m.sign(x.args[0]) >= 0 {
				mm[x] = x.args[0]
			}
			return false
		})
		if len(mm) == 0 {
			break
		}
		t = subst(t, mm)
	}
	return t
}

// ---- S02 ----

// zeroIn: the expression vanishes in every case; "" or a witness text, with
// definite telling that the difference is not zero at sample values.
func zeroIn(ctx *Ctx, t *Term) (bool, string) {
	why := ""
	limit := 64
	ok := ctx.cases([]*Term{t}, &limit, func(d *Ctx, s []*Term) bool {
		if isZero(s[0]) || isZero(d.simp(clearDenoms(s[0]))) {
			return true
		}
		why = clip(s[0].String())
		return false
	})
	return ok, why
}

func (c *Chk) identities(l string, m *meshRun, ctx *Ctx, its []item, eqs func(t *Term) ([]string, []*Term)) string {
	for _, it := range its {
		d := ctx
		for _, b := range it.bs {
			d = d.boundVar(b.v, b.n)
		}
		names, es := eqs(it.t)
		for i, e := range es {
			c.sites++
			if ok, why := zeroIn(d, e); !ok {
				return names[i] + ": " + why
			}
		}
	}
	return ""
}

func (m *meshRun) surface(v V3) ([]string, []*Term) {
	d := v.sub(m.center)
	switch m.fig.typ {
	case "Sphere":
		return []string{"distance from the centre"}, []*Term{tSub(d.norm2(), tPow(m.dims[0], 2))}
	case "Circle":
		return []string{"height of the plane", "distance from the centre"}, []*Term{d[2], tSub(tAdd(tPow(d[0], 2), tPow(d[1], 2)), tPow(m.dims[0], 2))}
	case "Ellipse":
		a, b := tPow(m.dims[0], 2), tPow(m.dims[1], 2)
		return []string{"height of the plane", "equation of the ellipse"}, []*Term{d[2], tSub(tAdd(tMul(b, tPow(d[0], 2)), tMul(a, tPow(d[1], 2))), tMul(a, b))}
	}
	// torus: (d² + R² - r²)² = 4 R² (dx² + dy²)
	R, r := m.dims[0], m.dims[1]
	e := tSub(tAdd(d.norm2(), tPow(R, 2)), tPow(r, 2))
	return []string{"equation of the torus"}, []*Term{tSub(tPow(e, 2), tScale(tMul(tPow(R, 2), tAdd(tPow(d[0], 2), tPow(d[1], 2))), big.NewRat(4, 1)))}
}

// off: the equation's value at sample values, relative to the size of the figure
func (m *meshRun) off(p [3]float64, env numEnv) float64 {
	var d [3]float64
	for i := range d {
		d[i] = p[i] - env[m.center[i]]
	}
	a := env[m.dims[0]]
	rho := math.Hypot(d[0], d[1])
	switch m.fig.typ {
	case "Sphere":
		return math.Abs(math.Hypot(rho, d[2])-a) / a
	case "Circle":
		return math.Max(math.Abs(rho-a), math.Abs(d[2])) / a
	case "Ellipse":
		b := env[m.dims[1]]
		return math.Max(math.Abs(math.Hypot(d[0]/a, d[1]/b)-1), math.Abs(d[2])/a)
	}
	b := env[m.dims[1]]
	return math.Abs(math.Hypot(rho-a, d[2])-b) / b
}

func checkS02(c *Chk) {
	c.meshes("vertices lie on the figure", false, func(m *meshRun, l string, ctx *Ctx) {
		its, ok := items(m.vertices, nil)
		why := "vertex list of unknown form: " + clip(m.vertices.String())
		hubs := 0
		if ok {
			if m.fig.solid {
				why = c.identities(l, m, ctx, its, func(t *Term) ([]string, []*Term) { return m.surface(vec(t)) })
			} else {
				var rest []item
				for _, it := range its {
					if v := vec(it.t); v == m.center {
						hubs++
						continue
					}
					rest = append(rest, it)
				}
				why = c.identities(l, m, ctx, rest, func(t *Term) ([]string, []*Term) { return m.surface(vec(t)) })
				if why == "" && hubs == 0 {
					why = "no hub vertex at the centre"
				}
			}
			if why == "" && len(its) == 0 {
				why = "no vertices"
			}
		}
		if why == "" {
			c.ok(l, m.r.where())
			return
		}
		// refute at sample values
		for _, env := range m.instances(ctx, true) {
			ps, ok := tuples(m.vertices, env, 3, vecComp)
			if !ok {
				break
			}
			hub := m.fig.solid
			for k, p := range ps {
				if !m.fig.solid {
					if math.Abs(p[0]-env[m.center[0]])+math.Abs(p[1]-env[m.center[1]])+math.Abs(p[2]-env[m.center[2]]) < 1e-9 {
						hub = true
						continue
					}
				}
				if m.off(p, env) > 1e-6 {
					c.fail(l, m.r.where(), fmt.Sprintf("%s; vertex %d is off the figure (%s)", why, k, m.at(env)))
					return
				}
			}
			if !hub || len(ps) == 0 {
				c.fail(l, m.r.where(), "no vertex at the centre")
				return
			}
		}
		c.unknown(l, m.r.where(), why)
	})
}

// ---- S03 ----

// zip walks sequences in step; f sees the corresponding elements.
func zip(ss []*Term, bs []binder, f func(ts []*Term, bs []binder) string) string {
	s0 := ss[0]
	for _, s := range ss {
		if s.op != s0.op || len(s.args) != len(s0.args) {
			return "the lists are not built in step"
		}
	}
	switch s0.op {
	case OUnit:
		var ts []*Term
		for _, s := range ss {
			ts = append(ts, s.args[0])
		}
		return f(ts, bs)
	case OCat:
		for i := range s0.args {
			var xs []*Term
			for _, s := range ss {
				xs = append(xs, s.args[i])
			}
			if w := zip(xs, bs, f); w != "" {
				return w
			}
		}
		return ""
	case OComp:
		v := s0.args[0]
		var xs []*Term
		for _, s := range ss {
			if s.args[1] != s0.args[1] {
				return "the lists differ in length: " + s.args[1].String() + " and " + s0.args[1].String()
			}
			xs = append(xs, subst(s.args[2], map[*Term]*Term{s.args[0]: v}))
		}
		return zip(xs, append(append([]binder{}, bs...), binder{v, s0.args[1]}), f)
	case OIte:
		for i := 1; i < 3; i++ {
			var xs []*Term
			for _, s := range ss {
				if s.args[0] != s0.args[0] {
					return "the lists are not built in step"
				}
				xs = append(xs, s.args[i])
			}
			if w := zip(xs, bs, f); w != "" {
				return w
			}
		}
		return ""
	}
	return "list of unknown form"
}

func (m *meshRun) normalEqs(v, n V3) ([]string, []*Term) {
	d := v.sub(m.center)
	if m.fig.typ == "Sphere" {
		e := d.sub(n.scale(m.dims[0]))
		return []string{"outward normal X", "outward normal Y", "outward normal Z"}, e[:]
	}
	R, r := m.dims[0], m.dims[1]
	q := d.sub(n.scale(r))
	return []string{"unit length", "foot in the plane of the ring", "foot on the ring", "normal in the tube's section"},
		[]*Term{tSub(n.norm2(), tOne), q[2], tSub(tAdd(tPow(q[0], 2), tPow(q[1], 2)), tPow(R, 2)), tSub(tMul(n[0], q[1]), tMul(n[1], q[0]))}
}

func (m *meshRun) normalOff(p, n [3]float64, env numEnv) float64 {
	var d, w [3]float64
	for i := range d {
		d[i] = p[i] - env[m.center[i]]
	}
	a := env[m.dims[0]]
	if m.fig.typ == "Sphere" {
		for i := range d {
			w[i] = d[i] / a
		}
	} else {
		rho := math.Hypot(d[0], d[1])
		b := env[m.dims[1]]
		w = [3]float64{d[0] * (1 - a/rho) / b, d[1] * (1 - a/rho) / b, d[2] / b}
	}
	o := 0.0
	for i := range d {
		o = math.Max(o, math.Abs(n[i]-w[i]))
	}
	return o
}

func checkS03(c *Chk) {
	c.meshes("one attribute per vertex", true, func(m *meshRun, l string, ctx *Ctx) {
		nv, nn, nt := ctx.simp(mkLen(m.vertices)), ctx.simp(mkLen(m.normals)), ctx.simp(mkLen(m.tex))
		if nv == nn && nv == nt {
			c.ok(l, m.r.where())
		} else {
			why := ""
			for _, env := range m.instances(ctx, false) {
				a, ok1 := numEval(nv, env)
				b, ok2 := numEval(nn, env)
				d, ok3 := numEval(nt, env)
				if ok1 && ok2 && ok3 && (a != b || a != d) {
					why = fmt.Sprintf("%v vertices, %v normals, %v texture coordinates (%s)", a, b, d, m.at(env))
				}
			}
			if why != "" {
				c.fail(l, m.r.where(), why)
			} else {
				c.unknown(l, m.r.where(), "lengths "+clip(nv.String()+", "+nn.String()+", "+nt.String()))
			}
		}
		m.checkNormals(c, strings.Replace(l, "one attribute per vertex", "unit outward normals", 1), ctx)
		m.checkTex(c, strings.Replace(l, "one attribute per vertex", "texture coordinates in proportion", 1), ctx)
	})
}

func (m *meshRun) checkNormals(c *Chk, l string, ctx *Ctx) {
	why := zip([]*Term{m.vertices, m.normals}, nil, func(ts []*Term, bs []binder) string {
		n := V3{arrComp(ts[1], 0), arrComp(ts[1], 1), arrComp(ts[1], 2)}
		return c.identities(l, m, ctx, []item{{ts[0], bs}}, func(t *Term) ([]string, []*Term) { return m.normalEqs(vec(t), n) })
	})
	if why == "" {
		c.ok(l, m.r.where())
		return
	}
	for _, env := range m.instances(ctx, true) {
		ps, ok1 := tuples(m.vertices, env, 3, vecComp)
		ns, ok2 := tuples(m.normals, env, 3, arrComp)
		if !ok1 || !ok2 {
			break
		}
		for k := range ps {
			if k >= len(ns) {
				c.fail(l, m.r.where(), fmt.Sprintf("vertex %d has no normal (%s)", k, m.at(env)))
				return
			}
			if m.normalOff(ps[k], ns[k], env) > 1e-6 {
				c.fail(l, m.r.where(), fmt.Sprintf("%s; normal %d is not the unit outward normal of its vertex (%s)", why, k, m.at(env)))
				return
			}
		}
	}
	c.unknown(l, m.r.where(), why)
}

// checkTex: s runs with the sector angle, t with the stack angle.
func (m *meshRun) checkTex(c *Chk, l string, ctx *Ctx) {
	why := zip([]*Term{m.vertices, m.tex}, nil, func(ts []*Term, bs []binder) string {
		v := vec(ts[0])
		if len(bs) != 2 {
			return "not a grid"
		}
		sec, sta := bs[1], bs[0]
		if occurs(v[2], sec.v) {
			sec, sta = sta, sec
		}
		if occurs(v[2], sec.v) || !occurs(v[2], sta.v) || !occurs(v[0], sec.v) {
			return "no sector and stack number"
		}
		for i, b := range []binder{sec, sta} {
			x := arrComp(ts[1], i)
			last := ctx.simp(tSub(b.n, tOne))
			at := func(k *Term) *Term { return ctx.simp(subst(x, map[*Term]*Term{b.v: k})) }
			step := ctx.simp(tSub(subst(x, map[*Term]*Term{b.v: tAdd(b.v, tOne)}), x))
			lo, hi := at(tZero), at(last)
			if occurs(step, b.v) || !(lo == tZero && ctx.same(hi, tOne) || ctx.same(lo, tOne) && isZero(hi)) {
				return "texture coordinate " + itoa(i) + " runs from " + clip(lo.String()) + " to " + clip(hi.String())
			}
		}
		return ""
	})
	if why == "" {
		c.ok(l, m.r.where())
		return
	}
	for _, env := range m.instances(ctx, false) {
		ps, ok1 := tuples(m.vertices, env, 3, vecComp)
		ts, ok2 := tuples(m.tex, env, 2, arrComp)
		if !ok1 || !ok2 || len(ps) != len(ts) {
			break
		}
		// vertices of one stack share t, vertices of one sector share s, and
		// both run evenly over [0, 1]
		if w := m.texOff(ps, ts, env); w != "" {
			c.fail(l, m.r.where(), w+" ("+m.at(env)+")")
			return
		}
	}
	c.unknown(l, m.r.where(), why)
}

func (m *meshRun) texOff(ps, ts [][3]float64, env numEnv) string {
	lo, hi := [2]float64{9, 9}, [2]float64{-9, -9}
	for _, t := range ts {
		for i := 0; i < 2; i++ {
			lo[i], hi[i] = math.Min(lo[i], t[i]), math.Max(hi[i], t[i])
		}
	}
	for i := 0; i < 2; i++ {
		if math.Abs(lo[i]) > 1e-9 || math.Abs(hi[i]-1) > 1e-9 {
			return fmt.Sprintf("texture coordinate %d runs over [%g, %g]", i, lo[i], hi[i])
		}
	}
	// the angle of a vertex around the axis, and in its section, are affine in
	// s and t up to whole turns: cos and sin of (angle - 2π s) take one value

	test := func(ang func(p [3]float64) (float64, bool), turns float64, i int) bool {
		for _, sgn := range []float64{1, -1} {
			var c0, s0 float64
			have, same := false, true
			for k, p := range ps {
				a, ok := ang(p)
				if !ok {
					continue
				}
				a -= sgn * 2 * math.Pi * turns * ts[k][i]
				c, s := math.Cos(a), math.Sin(a)
				if !have {
					c0, s0, have = c, s, true
				} else if math.Abs(c-c0)+math.Abs(s-s0) > 1e-6 {
					same = false
					break
				}
			}
			if same {
				return true
			}
		}
		return false
	}
	around := func(p [3]float64) (float64, bool) { return math.Atan2(p[1], p[0]), math.Hypot(p[0], p[1]) > 1e-6 }
	section := func(p [3]float64) (float64, bool) {
		rho := math.Hypot(p[0], p[1])
		if m.fig.typ == "Torus" {
			return math.Atan2(p[2], rho-env[m.dims[0]]), true
		}
		return math.Atan2(p[2], rho), true
	}
	turns := 0.5
	if m.fig.typ == "Torus" {
		turns = 1
	}
	if !test(around, 1, 0) {
		return "texture coordinate 0 is not in proportion to the sector"
	}
	if !test(section, turns, 1) {
		return "texture coordinate 1 is not in proportion to the stack"
	}
	return ""
}

// ---- S04 ----

func checkS04(c *Chk) {
	c.meshes("no holes", false, func(m *meshRun, l string, ctx *Ctx) {
		n := 0
		for _, env := range m.instances(ctx, false) {
			ps, ok1 := tuples(m.vertices, env, 3, vecComp)
			ix, ok2 := numbers(m.idx, env)
			if !ok1 || !ok2 || len(ix)%3 != 0 {
				c.unknown(l, m.r.where(), "the mesh is not in closed form: "+clip(m.idx.String()))
				return
			}
			id := identify(ps, env[m.dims[len(m.dims)-1]])
			var tri [][3]int
			for k := 0; k+2 < len(ix); k += 3 {
				var t [3]int
				for j := range t {
					i := int(ix[k+j])
					if i < 0 || i >= len(ps) {
						c.unknown(l, m.r.where(), "index outside the vertex list")
						return
					}
					t[j] = id[i]
				}
				tri = append(tri, t)
			}
			n += len(tri)
			w := ""
			if m.fig.solid {
				w = closed(tri, m.fig.euler)
			} else {
				w = fan(tri, ps, id)
			}
			if w != "" {
				c.fail(l, m.r.where(), w+" ("+m.at(env)+")")
				return
			}
		}
		c.sites += n
		if n == 0 {
			c.unknown(l, m.r.where(), "no instance of this case")
			return
		}
		c.ok(l, m.r.where())
	})
}

func identify(ps [][3]float64, size float64) []int {
	seen := map[[3]int64]int{}
	id := make([]int, len(ps))
	for i, p := range ps {
		var k [3]int64
		for j, x := range p {
			k[j] = int64(math.Round(x / size * 1e6))
		}
		if v, ok := seen[k]; ok {
			id[i] = v
		} else {
			seen[k], id[i] = i, i
		}
	}
	return id
}

func closed(tri [][3]int, euler int) string {
	edges := map[[2]int]int{}
	verts := map[int]bool{}
	for k, t := range tri {
		for j := range t {
			e := [2]int{t[j], t[(j+1)%3]}
			if e[0] == e[1] {
				return fmt.Sprintf("triangle %d has two equal corners (vertex %d)", k, e[0])
			}
			if o, ok := edges[e]; ok {
				return fmt.Sprintf("edge %d-%d belongs to triangles %d and %d in the same direction", e[0], e[1], o, k)
			}
			edges[e] = k
			verts[e[0]] = true
		}
	}
	var open [][2]int
	for e := range edges {
		if _, ok := edges[[2]int{e[1], e[0]}]; !ok {
			open = append(open, e)
		}
	}
	if len(open) > 0 {
		sort.Slice(open, func(i, j int) bool {
			return open[i][0] < open[j][0] || open[i][0] == open[j][0] && open[i][1] < open[j][1]
		})
		return fmt.Sprintf("%d edges are not shared, the first is %d-%d of triangle %d", len(open), open[0][0], open[0][1], edges[open[0]])
	}
	if x := len(verts) - len(edges)/2 + len(tri); x != euler {
		return fmt.Sprintf("Euler characteristic %d instead of %d", x, euler)
	}
	return ""
}

func fan(tri [][3]int, ps [][3]float64, id []int) string {
	hub := -1
	var rim []int
	for i, p := range ps {
		if id[i] != i {
			continue
		}
		if math.Hypot(p[0], p[1]) < 1e-9 {
			hub = i
		} else {
			rim = append(rim, i)
		}
	}
	if hub < 0 || len(rim) < 3 {
		return "no hub or no rim"
	}
	sort.Slice(rim, func(i, j int) bool {
		return math.Atan2(ps[rim[i]][1], ps[rim[i]][0]) < math.Atan2(ps[rim[j]][1], ps[rim[j]][0])
	})
	next := map[int]int{}
	for i, v := range rim {
		w := rim[(i+1)%len(rim)]
		next[v] = w
		if ps[v][0]*ps[w][1]-ps[v][1]*ps[w][0] <= 0 {
			return fmt.Sprintf("the sector between rim vertices %d and %d spans half a turn or more", v, w)
		}
	}
	count := map[[2]int]int{}
	for k, t := range tri {
		j := 0
		for j < 3 && t[j] != hub {
			j++
		}
		if j == 3 {
			return fmt.Sprintf("triangle %d does not use the hub", k)
		}
		a, b := t[(j+1)%3], t[(j+2)%3]
		if next[a] != b && next[b] != a || a == b {
			return fmt.Sprintf("triangle %d does not join neighbours on the rim", k)
		}
		count[[2]int{a, b}]++
	}
	for _, v := range rim {
		for _, e := range [][2]int{{v, next[v]}, {next[v], v}} {
			if count[e] != 1 {
				return fmt.Sprintf("the sector between rim vertices %d and %d occurs %d times in this orientation", e[0], e[1], count[e])
			}
		}
	}
	return ""
}
