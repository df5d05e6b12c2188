package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("M01", "corner and face lists of new tetrahedra are permutations of the required sets; key texts decompose uniquely into the required numbers", checkM01)
	register("M02", "number of prepended auxiliary vertices, insertion offset, filter threshold and emission offset are extracted from the value graphs and must agree", checkM02)
	register("M03", "value graph of the insertion loop equals that of the specified cavity retriangulation; sign of the circumsphere test under either orientation", checkM03)
	register("M04", "taint: no element of a map's iteration sequence reaches the result except through a sort of all keys; no scheduling, random or clock source is reachable", checkM04)
}

// setEq: the terms are the wanted ones in some order. A term that is provably
// another wanted or foreign value makes it fail.
func (c *Chk) sameSet(label, where string, ctx *Ctx, got, want []*Term) {
	c.try(label, where, func() {
		if len(got) != len(want) {
			c.fail(label, where, itoa(len(got))+" elements instead of "+itoa(len(want)))
			return
		}
		if ctx == nil {
			ctx = newCtx()
		}
		used := make([]bool, len(want))
		for _, g := range got {
			found := false
			for j, w := range want {
				if used[j] {
					continue
				}
				if ok, _ := ctx.tryEqual(g, w); ok {
					used[j], found = true, true
					break
				}
			}
			if !found {
				if v := vague(g); v != "" {
					c.unknown(label, where, "not comparable: "+v)
				} else {
					c.fail(label, where, "unexpected "+clip(g.String()))
				}
				return
			}
		}
		c.ok(label, where)
	})
}

// seqItems: elements of a sequence of constant length
func seqItems(s *Term, at func(i *Term) *Term) ([]*Term, bool) {
	n, ok := isConstInt(mkLen(s))
	if !ok || n > 200 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, at(numInt(i)))
	}
	return out, true
}

func (c *Chk) tetraValue(label, where string, t *Term, corners []*Term) {
	T, fT := P.typ("meshing", "tetra"), P.typ("meshing", "face")
	var got []*Term
	for _, n := range []string{"ia", "ib", "ic", "id"} {
		got = append(got, fld(t, T, n))
	}
	c.sameSet(label+": corners", where, nil, got, corners)
	fs := fld(t, T, "faces")
	items, ok := seqItems(fs, func(i *Term) *Term { return selElem(fs, fldT(T, "faces"), i) })
	if !ok {
		c.unknown(label+": faces", where, "number of faces not constant")
		return
	}
	if len(items) != 4 {
		c.fail(label+": faces", where, itoa(len(items))+" faces")
		return
	}
	seen := map[string]bool{}
	ctx := newCtx()
	for _, f := range items {
		key := []string{}
		for _, n := range []string{"pa", "pb", "pc"} {
			x := fld(f, fT, n)
			at := -1
			for k, w := range corners {
				if ok, _ := ctx.tryEqual(x, w); ok {
					at = k
				}
			}
			if at < 0 {
				if v := vague(x); v != "" {
					c.unknown(label+": faces", where, v)
				} else {
					c.fail(label+": faces", where, "face vertex "+clip(x.String())+" is not a corner")
				}
				return
			}
			key = append(key, itoa(at))
		}
		sort.Strings(key)
		k := strings.Join(key, "")
		if key[0] == key[1] || key[1] == key[2] || seen[k] {
			c.fail(label+": faces", where, "face {"+strings.Join(key, ",")+"} repeats a vertex or a face")
			return
		}
		seen[k] = true
	}
	c.ok(label+": faces", where)
}

// keyParts splits the text of a key into the numbers it is made of. The split
// is unique when every number is followed by a text that starts with neither a
// digit nor a sign.
func keyParts(k *Term) (nums []*Term, why string, known bool) {
	parts := []*Term{k}
	if k.op == OSCat {
		parts = k.args
	}
	for i, p := range parts {
		switch {
		case p.op == OFn && p.name == "itoa":
			if i > 0 && parts[i-1].op == OFn {
				return nums, "two numbers follow each other without a separator", true
			}
			nums = append(nums, p.args[0])
		case p.op == OStrC:
			if i > 0 && i < len(parts)-1 && p.name != "" {
				if r := p.name[0]; r >= '0' && r <= '9' {
					return nums, "separator " + p.name + " starts with a digit", true
				}
			}
		default:
			return nums, "", false
		}
	}
	return nums, "", true
}

func checkM01(c *Chk) {
	fT, tT := P.typ("meshing", "face"), P.typ("meshing", "tetra")
	vert := func(f *Term) []*Term {
		return []*Term{fld(f, fT, "pa"), fld(f, fT, "pb"), fld(f, fT, "pc")}
	}
	if r := c.run("meshing", "connect"); r != nil {
		c.try("connect", r.where(), func() {
			c.tetraValue("tetrahedron of a face and a point", r.where(), r.ret(0), append(vert(r.pterm(0)), r.pterm(1)))
		})
		c.pure(r, false)
	}
	if r := c.run("meshing", "englobe"); r != nil {
		c.try("englobe", r.where(), func() {
			c.tetraValue("enclosing tetrahedron", r.where(), r.ret(0), []*Term{tZero, tOne, numInt(2), numInt(3)})
		})
	}
	if r := c.run("meshing", "face.hash"); r != nil {
		c.try("face key", r.where(), func() {
			l := "face key is made of the three vertices in ascending order"
			nums, why, ok := keyParts(r.ret(0))
			switch {
			case !ok:
				c.unknown(l, r.where(), "key not decomposed: "+clip(r.ret(0).String()))
				return
			case why != "":
				c.fail(l, r.where(), why)
				return
			case len(nums) != 3:
				c.fail(l, r.where(), "made of "+itoa(len(nums))+" numbers")
				return
			}
			v := vert(r.pterm(0))
			srt := mkFn("sorted", SSeq, false, mkCat(mkUnit(v[0]), mkUnit(v[1]), mkUnit(v[2])))
			want := make([]*Term, 3)
			for i := range want {
				want[i] = mkSel(srt, numInt(int64(i)), SNum, true)
			}
			lib := true
			for _, n := range nums {
				lib = lib && n.op == OFn && n.name == "sel" || anyTerm(n, func(x *Term) bool { return x.op == OFn && x.name == "sorted" })
			}
			if lib {
				// any arrangement of the three vertices sorts to the same
				perm := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
				m := map[*Term]*Term{}
				for _, p := range perm {
					m[mkFn("sorted", SSeq, false, mkCat(mkUnit(v[p[0]]), mkUnit(v[p[1]]), mkUnit(v[p[2]])))] = srt
				}
				for i := range nums {
					nums[i] = subst(nums[i], m)
				}
				c.sameSet(l, r.where(), nil, nums, want)
				return
			}
			// in each of the orders the vertices may have
			for _, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
				for tie := 0; tie < 4; tie++ {
					ctx := newCtx()
					w, m := []*Term{v[p[0]], v[p[1]], v[p[2]]}, map[*Term]*Term{}
					for k := 0; k < 2; k++ {
						if tie>>k&1 == 1 {
							m[w[k+1]] = w[k]
							w[k+1] = w[k]
						}
					}
					for k := range w {
						for j := 0; j < k; j++ {
							if w[j] != w[k] {
								ctx.assume(bLt(w[j], w[k]), true)
							}
						}
					}
					for i, n := range nums {
						c.eq(l, r.where(), ctx, subst(n, m), w[i])
					}
				}
			}
		})
		c.pure(r, false)
	}
	if r := c.run("meshing", "tetraHash"); r != nil {
		c.try("tetrahedron key", r.where(), func() {
			l := "tetrahedron key is made of the four corners in sequence"
			nums, why, ok := keyParts(r.ret(0))
			switch {
			case !ok:
				c.unknown(l, r.where(), "key not decomposed: "+clip(r.ret(0).String()))
				return
			case why != "":
				c.fail(l, r.where(), why)
				return
			}
			t := r.pterm(0)
			var w []*Term
			for _, n := range []string{"ia", "ib", "ic", "id"} {
				w = append(w, fld(t, tT, n))
			}
			c.sameSet(l, r.where(), nil, nums, w)
		})
		c.pure(r, false)
	}
	if r := c.run("meshing", "tetrahedrisation.addTetra"); r != nil {
		h := c.run("meshing", "tetraHash")
		c.try("recording a tetrahedron", r.where(), func() {
			if h == nil {
				return
			}
			k := subst(h.ret(0), map[*Term]*Term{h.pterm(0): r.pterm(1)})
			c.eq("a tetrahedron is recorded under its key", r.where(), nil, r.post(0), mkFn("mapset", SOther, false, r.pterm(0), k, r.pterm(1)))
		})
	}
}

// auxiliary: number of points englobe puts before the caller's
func (c *Chk) auxiliary() (n int64, r *Run) {
	r = c.run("meshing", "englobe")
	if r == nil {
		return -1, nil
	}
	n = -1
	c.try("auxiliary vertices", r.where(), func() {
		l := "auxiliary vertices are prepended to the caller's points"
		ps, old := r.post(0), r.pterm(0)
		if ps.op != OCat || ps.args[len(ps.args)-1] != old {
			if vague(ps) != "" && ps.op != OCat {
				c.unknown(l, r.where(), "point list not decomposed")
				return
			}
			c.fail(l, r.where(), "the caller's points are not the tail of the list: "+clip(ps.String()))
			return
		}
		k, ok := isConstInt(tSub(mkLen(ps), mkLen(old)))
		if !ok {
			c.unknown(l, r.where(), "number of prepended points not constant")
			return
		}
		c.ok(l, r.where())
		n = k
	})
	return n, r
}

var insertOpaque = []string{"tetra.circumsphereContains", "face.hash", "tetraHash", "tetrahedrisation.sortedKeys", "face.isPartOfMesh", "connect", "englobe"}

func checkM02(c *Chk) {
	fT := P.typ("meshing", "face")
	n, _ := c.auxiliary()
	if n < 0 {
		return
	}
	aux := numInt(n)
	vert := func(f *Term) []*Term {
		return []*Term{fld(f, fT, "pa"), fld(f, fT, "pb"), fld(f, fT, "pc")}
	}
	if r := c.run("meshing", "englobe"); r != nil {
		c.try("corners", r.where(), func() {
			T := P.typ("meshing", "tetra")
			var got, want []*Term
			for i, k := range []string{"ia", "ib", "ic", "id"} {
				got = append(got, fld(r.ret(0), T, k))
				want = append(want, numInt(int64(i)))
			}
			c.sameSet("the enclosing tetrahedron's corners are the auxiliary vertices", r.where(), nil, got, want)
			c.eq("as many auxiliary vertices as corners", r.where(), nil, aux, numInt(4))
		})
	}
	if r := c.run("meshing", "face.isPartOfMesh"); r != nil {
		c.try("filter", r.where(), func() {
			ctx := newCtx()
			w := tTrue
			for _, v := range vert(r.pterm(0)) {
				ctx.assume(bLt(v, tZero), false)
				w = bAnd(w, bNot(bLt(v, aux)))
			}
			c.eq("a face is kept exactly when none of its vertices is auxiliary", r.where(), ctx, r.ret(0), w)
		})
		c.pure(r, false)
	}
	if r := c.run("meshing", "addFace"); r != nil {
		c.try("emission", r.where(), func() {
			l := "a face is emitted as its vertices less the number of auxiliary vertices"
			out, in := r.ret(0), r.pterm(0)
			if out.op != OCat || out.args[0] != in {
				if vague(out) == "" {
					c.fail(l, r.where(), "the list so far is not kept: "+clip(out.String()))
				} else {
					c.unknown(l, r.where(), "list not decomposed")
				}
				return
			}
			var got, want []*Term
			for i := int64(0); i < 3; i++ {
				got = append(got, mkSel(out, tAdd(mkLen(in), numInt(i)), SNum, true))
				want = append(want, tSub(vert(r.pterm(1))[i], aux))
			}
			c.eq("a face is emitted as three indices", r.where(), nil, tSub(mkLen(out), mkLen(in)), numInt(3))
			c.sameSet(l, r.where(), nil, got, want)
		})
		c.pure(r, false)
	}
	if r := c.run("meshing", "bowyerWatson", insertOpaque...); r != nil {
		c.try("insertion", r.where(), func() {
			l := "points are inserted under their position plus the number of auxiliary vertices"
			cnt, bad := 0, ""
			where := r.where()
			pts := r.term(r.params[0])
			for _, ev := range r.e.events {
				if ev.kind != "call" || !strings.HasSuffix(ev.name, ".connect") || len(ev.args) != 2 {
					continue
				}
				cnt++
				ok := false
				for _, lp := range ev.loops {
					if lp.trip == nil {
						continue
					}
					if d := tSub(ev.args[1], lp.K); d == aux && lp.trip == mkLen(pts) {
						ok = true
					}
				}
				if !ok {
					bad, where = clip(ev.args[1].String()), ev.where()
				}
			}
			switch {
			case cnt == 0:
				c.unknown(l, where, "no insertion found")
			case bad == "":
				c.ok(l, where)
			default:
				c.fail(l, where, "inserted as "+bad)
			}
			c.sites += cnt
		})
	}
}

func checkM03(c *Chk) {
	p := c.pair("meshing", "bowyerWatson", "gegovBowyerWatson", insertOpaque...)
	l := "insertion removes the violated tetrahedra and joins the point to the cavity's faces"
	before := c.undecided()
	c.results(l, p, nil)
	if p != nil && c.undecided() > before {
		c.tryQuiet(func() { c.cavities(l, p) })
	}
	if p != nil {
		c.pure(p.cur, false)
	}
	if r := c.run("meshing", "tetra.circumsphereContains"); r != nil {
		c.try("circumsphere", r.where(), func() {
			T := P.typ("meshing", "tetra")
			t := r.pterm(0)
			var v [4]V3
			for i, n := range []string{"ia", "ib", "ic", "id"} {
				v[i] = vec(selElem(r.pterm(1), vecsT(), fld(t, T, n)))
			}
			q := r.vec(2)
			det := inSphereDet(v[0], v[1], v[2], v[3], q)
			vol := orient(v[0], v[1], v[2], v[3])
			// a unit corner tetrahedron (positive volume) and a point inside it
			m := map[*Term]*Term{}
			pts := [][3]int64{{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}}
			for i := range v {
				for k := range v[i] {
					m[v[i][k]] = numInt(pts[i][k])
				}
			}
			for k := range q {
				m[q[k]] = tOne
			}
			s, ok := constOf(subst(det, m))
			if !ok {
				panic(undecided("sample"))
			}
			if s.Sign() < 0 {
				det = tNeg(det)
			}
			ctx := newCtx()
			ctx.assume(bEq0(det), false)
			ctx.assume(bEq0(vol), false)
			want := bIte(mkLtAtom(vol), bLt(det, tZero), bLt(tZero, det))
			c.eq("circumsphere test is right for either orientation of the corners", r.where(), ctx, r.ret(0), want)
		})
		c.pure(r, false)
	}
}

func mkLtAtom(t *Term) *Term { return bLt(t, tZero) }

// ---------- M04 ----------

// reachable functions of the repository, following static calls, closures and
// method values
func reachable(roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var w func(f *ssa.Function)
	w = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (g.Pkg == nil || P.inRep[g.Pkg]) {
						w(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		w(r)
	}
	return out
}

// mapOrder: a position of a map's iteration sequence that is visible outside a
// sort of the sequence (hard), or only in what a loop enters into a map or
// adds up, which need not depend on the order (soft)
func mapOrder(t *Term) (hard, soft string) {
	type key struct {
		t *Term
		s bool
	}
	seen := map[key]bool{}
	var w func(x *Term, sf bool)
	w = func(x *Term, sf bool) {
		if seen[key{x, sf}] || hard != "" {
			return
		}
		seen[key{x, sf}] = true
		switch {
		case x.op == OFn && (x.name == "sorted" || x.name == "sortedby" && totalOrder(x.args[1])):
			return
		case x.op == OFn && x.name == "mapkey":
			if sf {
				soft = clip(x.String())
			} else {
				hard = clip(x.String())
			}
			return
		case x.op == OSum, x.op == OFold && foldsMap(x):
			sf = true
		}
		for _, a := range x.args {
			w(a, sf)
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				w(f.a, sf)
			}
		}
	}
	w(t, false)
	return hard, soft
}

// totalOrder: a comparison that leaves no two different elements in either order
func totalOrder(less *Term) bool {
	a, b := mkVar("σa", SStr, false), mkVar("σb", SStr, false)
	if less == bHolds(mkFn("strlt", SBool, false, a, b)) || less == bHolds(mkFn("strlt", SBool, false, b, a)) {
		return true
	}
	a, b = mkVar("σa", SNum, true), mkVar("σb", SNum, true)
	return less == bLt(a, b) || less == bLt(b, a)
}

// foldsMap: the loop variable whose final value x is holds a map
func foldsMap(x *Term) bool {
	f := foldOf(x)
	i, ok := atoi(x.name)
	if !ok || i >= len(f.steps) {
		return false
	}
	return isMapTerm(f.inits[i]) || isMapTerm(f.steps[i])
}

func isMapTerm(t *Term) bool {
	switch {
	case t == tMap0 || t.op == OFn && (t.name == "mapset" || t.name == "mapdel" || t.name == "map0"):
		return true
	case t.op == OIte:
		return isMapTerm(t.args[1]) || isMapTerm(t.args[2])
	case t.op == OFold:
		return foldsMap(t)
	}
	return false
}

func checkM04(c *Chk) {
	fn := P.fn("meshing", "bowyerWatson")
	if fn == nil {
		c.unknown("reproducible output", "meshing", "no such function")
		return
	}
	op := []string{}
	for _, o := range insertOpaque {
		if o != "tetrahedrisation.sortedKeys" {
			op = append(op, o)
		}
	}
	decided := false
	if r := c.run("meshing", "bowyerWatson", op...); r != nil {
		c.try("map order", r.where(), func() {
			l := "the result does not depend on the iteration order of a map"
			hard, soft := mapOrder(r.ret(0))
			if hard != "" {
				c.fail(l, r.where(), "the result depends on the position "+hard+" of the iteration sequence")
			} else if soft != "" {
				c.unknown(l, r.where(), "a map or sum depends on the position "+soft+" of the iteration sequence")
			} else {
				c.ok(l, r.where())
			}
			decided = true
		})
	}
	for _, f := range reachable(fn) {
		c.fns[f.String()] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				l := "no scheduling, random or clock source"
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send:
					c.fail(l, f.String()+" "+relPos(f.Prog, in.Pos()), in.String())
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && g.Pkg != nil {
						switch g.Pkg.Pkg.Path() {
						case "math/rand", "math/rand/v2", "crypto/rand", "time", "os":
							c.fail(l, f.String()+" "+relPos(f.Prog, in.Pos()), "calls "+g.String())
						}
					}
				case *ssa.Range:
					c.sites++
				}
			}
		}
	}
	if !decided {
		return
	}
	c.ok("no scheduling, random or clock source", fnPos(fn))
}
