package main

// T11: what Triangulate hands over is what was constructed.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func checkT11(c *Chk) {
	fn := P.fn("triangulate2", "Triangulate")
	build, hull := P.fn("triangulate2", "triangulator.triangulate"), P.fn("triangulate2", "triangulator.convexHull")
	T, R := P.typ("triangulate2", "triangulator"), P.typ("triangulate2", "Triangulation")
	if fn == nil || build == nil || hull == nil || T == nil || R == nil {
		c.unknown("the result", "triangulate2.Triangulate", "no such function")
		return
	}
	w := fnPos(fn)
	c.try("the result", w, func() {
		e := newEval()
		e.stubs = map[*ssa.Function]func(f *Frame, st *State, args []Val, in ssa.Instruction) []Val{}
		made := map[string]*Term{}
		S := under(T).(*types.Struct)
		calls, after := 0, false
		e.stubs[build] = func(f *Frame, st *State, args []Val, in ssa.Instruction) []Val {
			calls++
			for i := 0; i < S.NumFields(); i++ {
				n := S.Field(i).Name()
				if n == "Vectors" {
					continue
				}
				s, isInt := sortOf(S.Field(i).Type())
				made[n] = mkVar("constructed:"+n, s, isInt)
				e.storeTerm(st, triField(args[0].(*Ptr).Loc, n), made[n])
			}
			s, isInt := sortOf(build.Signature.Results().At(0).Type())
			made["error"] = mkVar("construction:error", s, isInt)
			return []Val{made["error"]}
		}
		e.stubs[hull] = func(f *Frame, st *State, args []Val, in ssa.Instruction) []Val {
			h := e.load(st, triField(args[0].(*Ptr).Loc, "hull"))
			after = calls > 0 && h == made["hull"]
			made["ring"] = mkVar("hull of the construction", SSeq, false)
			return []Val{made["ring"]}
		}
		st := newState()
		in := e.symArg("Vectors", fn.Params[0].Type(), st)
		vs := e.toTerm(st, in)
		r := evalFn(e, fn, []Val{in}, st)
		for g := range e.analysed {
			c.fns[g.String()] = true
		}
		c.insts += e.steps
		if r.err != "" || len(r.res) != 2 {
			c.unknown("the result", w, "not evaluated: "+r.err)
			return
		}
		p, ok := r.res[0].(*Ptr)
		if !ok || calls != 1 {
			c.unknown("the result", w, "not made in one place after one construction")
			return
		}
		got := e.load(r.st, p.Loc)
		for _, q := range []struct {
			field, label string
			want         *Term
		}{
			{"Vectors", "the points are the ones given", vs},
			{"Triangles", "the triangles are the ones constructed", made["triangles"]},
			{"Halfedges", "the half-edges are the ones constructed", made["halfedges"]},
			{"ConvexHull", "the hull is the ring of the construction", made["ring"]},
		} {
			if fieldIndex(R, q.field) < 0 {
				c.unknown(q.label, w, "no field "+q.field)
				continue
			}
			v := fld(got, R, q.field)
			switch {
			case q.want == nil:
				if vague(v) != "" {
					c.unknown(q.label, w, "the ring is read in another way")
				} else {
					c.fail(q.label, w, "it is "+v.String())
				}
			case q.field == "ConvexHull" && !after && v == q.want:
				c.fail(q.label, w, "it is read before the construction")
			default:
				c.eq(q.label, w, newCtx(), v, q.want)
			}
		}
		c.eq("a failed construction is reported", w, newCtx(), boolNum(nilBool(r.ret(1))), boolNum(nilBool(made["error"])))
	})
	c.hullOrder()
}

// hullOrder: the points of the ring, each once, against the direction of next
func (c *Chk) hullOrder() {
	r := c.run("triangulate2", "triangulator.convexHull")
	if r == nil {
		return
	}
	w := r.where()
	T, nT := P.typ("triangulate2", "triangulator"), P.typ("triangulate2", "node")
	for i := int64(0); i < 15; i++ {
		// spare: points that are not on the hull; -1 for any list of points
		n, spare := []int64{0, 3, 4, 5, 6}[i%5], []int64{-1, 0, 2}[i/5]
		for entry := int64(1); entry <= n || entry == 1; entry++ {
			l := "hull ring of " + itoa(int(n)) + " entered at node " + itoa(int(entry))
			if n == 0 {
				l = "no hull"
			}
			if spare >= 0 {
				l += ", " + itoa(int(n+spare)) + " points"
			}
			at := func(k int64) *Term {
				if spare < 0 {
					return numInt(40 + k)
				}
				return numInt(n - k + spare/2)
			}
			c.try(l, w, func() {
				ho := r.e.heapObj(nT)
				ring := mkUnit(zeroOf(nT))
				for k := int64(1); k <= n; k++ {
					vals := make([]*Term, under(nT).(*types.Struct).NumFields())
					for i := range vals {
						vals[i] = tZero
					}
					for name, v := range map[string]*Term{"i": at(k), "prev": numInt((k+n-2)%n + 1), "next": numInt(k%n + 1)} {
						vals[fieldIndex(nT, name)] = v
					}
					ring = mkCat(ring, mkUnit(mkTup(tname(nT), vals...)))
				}
				in := numInt(entry)
				if n == 0 {
					in = tZero
				}
				m := map[*Term]*Term{ho.init: ring, fld(r.pterm(0), T, "hull"): in}
				vs := fld(r.pterm(0), T, "Vectors")
				vT := fldT(T, "Vectors")
				if spare >= 0 {
					pts := tEmpty
					for j := int64(0); j < n+spare; j++ {
						pts = mkCat(pts, mkUnit(selElem(vs, vT, numInt(70+j))))
					}
					m[vs] = pts
				}
				got := expandConst(firsts(expandConst(subst(r.ret(0), m))))
				length, ok := isConstInt(newCtx().simp(mkLen(got)))
				if !ok {
					c.unknown(l, w, "length "+clip(mkLen(got).String()))
					return
				}
				if length != n {
					c.fail(l, w, itoa(int(length))+" points for a hull of "+itoa(int(n)))
					return
				}
				// from any node on
				var seen []int64
				for k := int64(0); k < n; k++ {
					v := selElem(got, vT, numInt(k))
					id := int64(-1)
					for j := int64(1); j <= n; j++ {
						if newCtx().same(v, subst(selElem(vs, vT, at(j)), m)) {
							id = j
						}
					}
					if id < 0 {
						if vague(v) != "" {
							c.unknown(l, w, "point "+itoa(int(k))+" is "+clip(v.String()))
						} else {
							c.fail(l, w, "point "+itoa(int(k))+" is "+clip(v.String()))
						}
						return
					}
					seen = append(seen, id)
				}
				for k := range seen {
					if a, b := seen[k], seen[(k+1)%len(seen)]; n > 1 && b != (a+n-2)%n+1 {
						c.fail(l, w, "the point of node "+itoa(int(a))+" is followed by that of node "+itoa(int(b)))
						return
					}
				}
				c.ok(l, w)
			})
		}
	}
}

func init() {
	register("T11", "Triangulate is evaluated with the construction left open: each field of the result is the constructed list; the hull walk is followed on rings of three to six nodes from every entry", checkT11)
}
