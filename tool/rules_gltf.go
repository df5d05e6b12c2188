package main

// E01, E02: the exporter. The calls of the glTF library are events; the
// document is the abstract object handed to the call that saves it.

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E01", "the value handed to the position writer is the list of the mesh's vertices in order with each coordinate converted to single precision, the colour list has their length, the index list is the mesh's", checkE01)
	register("E02", "the document object at the save call holds one mesh, one primitive wired to the accessors returned by the writers, one node for it and the node in the default scene; every write precedes the save; the path is the parameter", checkE02)
}

const gltfLib = "github.com/qmuntal/gltf."
const modelerLib = "github.com/qmuntal/gltf/modeler."

type export struct {
	r      *Run
	mesh   *Term
	T      types.Type
	path   *Term
	writes map[string][]*Event
	order  []*Event
	saves  []*Event
}

func (c *Chk) export() *export {
	fn := P.fn("glTF", "Export")
	l := "value graph of glTF.Export"
	if fn == nil {
		c.unknown(l, "glTF.Export", "no such function")
		return nil
	}
	e := newEval()
	e.insteadName = map[string]*ssa.Function{}
	for lib, ref := range map[string]string{"Index": "gegovIndex", "NewDocument": "gegovNewDocument"} {
		if g := P.fn("glTF", ref); g != nil {
			e.insteadName[gltfLib+lib] = g
		}
	}
	var r *Run
	c.try(l, fnPos(fn), func() { r = evalFn(e, fn, nil, nil) })
	for f := range e.analysed {
		c.fns[f.String()] = true
	}
	c.insts += e.steps
	if r == nil {
		return nil
	}
	if r.err != "" {
		c.unknown(l, fnPos(fn), r.err)
		return nil
	}
	x := &export{r: r, writes: map[string][]*Event{}}
	for i := range r.params {
		T := r.ptype(i)
		if fieldIndex(T, "Vertices") >= 0 {
			x.mesh, x.T = r.pterm(i), T
		} else if isString(T) {
			x.path = r.pterm(i)
		}
	}
	if x.mesh == nil || x.path == nil {
		c.unknown(l, fnPos(fn), "parameters of unknown kind")
		return nil
	}
	for _, ev := range e.events {
		if ev.kind != "call" || ev.cond() == tFalse {
			continue
		}
		if strings.HasPrefix(ev.name, modelerLib+"Write") {
			n := strings.TrimPrefix(ev.name, modelerLib)
			x.writes[n] = append(x.writes[n], ev)
			x.order = append(x.order, ev)
		}
		if strings.HasPrefix(ev.name, gltfLib+"Save") {
			x.saves = append(x.saves, ev)
			x.order = append(x.order, ev)
		}
	}
	return x
}

// data: the list handed to a writer, behind its interface
func (x *export) data(ev *Event) *Term {
	v := ev.vals[1]
	if i, ok := v.(*IfaceV); ok {
		v = i.val
	}
	return x.r.e.toTerm(ev.st, v)
}

// one: the single unconditional call of a writer
func (c *Chk) one(x *export, l, name string, required bool) *Event {
	evs := x.writes[name]
	if len(evs) == 0 {
		if len(x.order) > len(x.saves) && !required {
			c.unknown(l, x.r.where(), "no call of modeler."+name)
			return nil
		}
		if len(x.writes["WriteAttributesInterleaved"])+len(x.writes["WriteAccessor"])+len(x.writes["WriteAccessorsInterleaved"]) > 0 {
			c.unknown(l, x.r.where(), "written by another call than modeler."+name)
			return nil
		}
		if len(x.order) == len(x.saves) {
			c.unknown(l, x.r.where(), "no call of the modeler")
			return nil
		}
		c.fail(l, x.r.where(), "no call of modeler."+name)
		return nil
	}
	if len(evs) > 1 || evs[0].st == nil || len(evs[0].loops) > 0 {
		c.unknown(l, x.r.where(), "several calls of modeler."+name)
		return nil
	}
	ev := evs[0]
	if cond := ev.cond(); cond != tTrue {
		if v := vague(cond); v != "" {
			c.unknown(l, ev.where(), v)
		} else {
			c.fail(l, ev.where(), "written only when "+clip(cond.String()))
		}
		return nil
	}
	return ev
}

// skipped: an iteration of the recurrence got that appends nothing, where
// the number of entries must be that of the iterations.
func skipped(got, want *Term) string {
	f := foldOf(got)
	if f == nil || got.op != OFold || f.n != mkLen(want) {
		return ""
	}
	i, _ := strconv.Atoi(got.name)
	if n, ok := isConstInt(mkLen(f.inits[i])); !ok || n != 0 {
		return ""
	}
	d := newCtx().boundVar(f.k, f.n)
	d.assume(bEq(mkLen(f.vars[i]), f.k), true)
	limit, why := 200, ""
	d.cases([]*Term{f.steps[i]}, &limit, func(d *Ctx, s []*Term) bool {
		if s[0] == f.vars[i] && vague(f.steps[i]) == "" {
			why = "an iteration adds nothing when " + joinLits(d.lits)
			return false
		}
		return true
	})
	return why
}

func (c *Chk) compare(l, where string, got, want *Term) {
	c.try(l, where, func() {
		if why := skipped(got, want); why != "" {
			c.fail(l, where, why)
			return
		}
		if r, why := deepEqual(nil, got, want); r == cmpEqual {
			c.ok(l, where)
		} else if r == cmpDiffer && vague(got) == "" {
			c.fail(l, where, why)
		} else {
			c.unknown(l, where, why)
		}
	})
}

func checkE01(c *Chk) {
	x := c.export()
	if x == nil {
		return
	}
	V := fld(x.mesh, x.T, "Vertices")
	l := "one position per vertex, in order, in single precision"
	if ev := c.one(x, l, "WritePosition", true); ev != nil {
		ref := P.fn("glTF", "gegovPositions")
		if ref == nil {
			c.unknown(l, ev.where(), "no specification")
		} else {
			var want *Term
			c.try(l, ev.where(), func() {
				e := newEval()
				st := newState()
				var a []Val
				for _, p := range x.r.fn.Params {
					a = append(a, e.symArg(p.Name(), p.Type(), st))
				}
				want = evalFn(e, ref, a, st).ret(0)
			})
			if want != nil {
				c.compare(l, ev.where(), x.data(ev), want)
			}
		}
	}
	l = "one colour per vertex"
	if ev := c.one(x, l, "WriteColor", true); ev != nil {
		got, want := mkLen(x.data(ev)), mkLen(V)
		if got == want {
			c.ok(l, ev.where())
		} else if ok, why := newCtx().equal(got, want); ok {
			c.ok(l, ev.where())
		} else if vague(got) != "" {
			c.unknown(l, ev.where(), why)
		} else {
			c.fail(l, ev.where(), "the number of colours is "+clip(got.String()))
		}
	}
	l = "the mesh's indices, unchanged"
	if ev := c.one(x, l, "WriteIndices", true); ev != nil {
		c.compare(l, ev.where(), x.data(ev), fld(x.mesh, x.T, "Indices"))
	}
	// the caller's mesh is not modified
	l = "the mesh is only read"
	c.untouched(l, x.r.fn, "all")
}

// deref reads an address term in the state of an event.
func (x *export) deref(st *State, t *Term) (*Term, types.Type) {
	for _, p := range asPoly(t) {
		if len(p.m) == 1 {
			if o, ok := x.r.e.addr[p.m[0].a]; ok {
				return st.getOr(o), o.typ
			}
		}
	}
	if o, ok := x.r.e.addr[t]; ok {
		return st.getOr(o), o.typ
	}
	panic(undecided("pointer of unknown target " + clip(t.String())))
}

func checkE02(c *Chk) {
	x := c.export()
	if x == nil {
		return
	}
	l := "saved once to the requested path"
	if len(x.saves) != 1 || x.saves[0].st == nil || len(x.saves[0].loops) > 0 {
		if len(x.saves) == 0 {
			c.unknown(l, x.r.where(), "no save call of the glTF library")
		} else {
			c.fail(l, x.saves[1].where(), "saved more than once")
		}
		return
	}
	sv := x.saves[0]
	if cond := sv.cond(); cond != tTrue && vague(cond) == "" {
		c.fail(l, sv.where(), "saved only when "+clip(cond.String()))
	} else if cond != tTrue {
		c.unknown(l, sv.where(), "saved when "+clip(cond.String()))
	} else if got := x.r.e.toTerm(sv.st, sv.vals[1]); got != x.path {
		if vague(got) != "" {
			c.unknown(l, sv.where(), "path "+clip(got.String()))
		} else {
			c.fail(l, sv.where(), "saved to "+clip(got.String()))
		}
	} else {
		c.ok(l, sv.where())
	}
	l = "every write precedes the save"
	late := ""
	seen := false
	for _, ev := range x.order {
		if ev == sv {
			seen = true
		} else if seen {
			late = ev.where()
		} else if ev.args[0] != sv.args[0] {
			late = ev.where() + " (another document)"
		}
	}
	if late != "" {
		c.fail(l, sv.where(), "not before the save: "+late)
	} else {
		c.ok(l, sv.where())
	}
	l = "the document is wired"
	where := sv.where()
	c.try(l, where, func() {
		p, ok := sv.vals[0].(*Ptr)
		if !ok {
			panic(undecided("document of unknown origin"))
		}
		doc := x.r.e.load(sv.st, p.Loc)
		D := p.Loc.typ()
		list := func(t *Term, T types.Type, name string) *Term { return fld(t, T, name) }
		single := func(what string, s *Term) *Term {
			n, ok := isConstInt(mkLen(s))
			if !ok {
				panic(undecided(what + " of unknown number: " + clip(s.String())))
			}
			if n != 1 {
				c.fail(l, where, itoa(int(n))+" "+what)
				return nil
			}
			return mkSel(s, tZero, SNum, true)
		}
		bad := false
		is := func(what string, got, want *Term) {
			if got == want {
				return
			}
			if vague(want) == "" && vague(got) != "" && !strings.Contains(got.String(), "modeler.Write") && !isConstT(got) {
				panic(undecided(what + " is " + clip(got.String())))
			}
			if strings.Contains(what, "accessor") && strings.Contains(got.String(), "after:Accessors") {
				panic(undecided(what + " is " + clip(got.String())))
			}
			bad = true
			c.fail(l, where, what+" is "+clip(got.String()))
		}
		ptr := func(what string, t *Term) *Term {
			if t == tZero {
				bad = true
				c.fail(l, where, what+" is missing")
				return nil
			}
			v, _ := x.deref(sv.st, t)
			return v
		}
		var used *Term
		ret := func(w string) *Term {
			var one *Term
			for _, ev := range x.writes[w] {
				one = x.r.e.toTerm(ev.st, ev.vals[len(ev.vals)-1])
				if one == used {
					return one
				}
			}
			if len(x.writes[w]) != 1 {
				panic(undecided("calls of modeler." + w))
			}
			return one
		}
		m := single("meshes", list(doc, D, "Meshes"))
		if m == nil {
			return
		}
		mv, mT := x.deref(sv.st, m)
		pr := single("primitives", fld(mv, mT, "Primitives"))
		if pr == nil {
			return
		}
		pv, pT := x.deref(sv.st, pr)
		if v := ptr("the index accessor", fld(pv, pT, "Indices")); v != nil {
			used = v
			is("the index accessor", v, ret("WriteIndices"))
		}
		is("the primitive mode", fld(pv, pT, "Mode"), tZero)
		at := x.mapOf(sv.st, fld(pv, pT, "Attributes"))
		for _, a := range [][2]string{{"POSITION", "WritePosition"}, {"COLOR_0", "WriteColor"}} {
			if v, ok := at[a[0]]; ok {
				used = v
				is("the accessor of "+a[0], v, ret(a[1]))
			} else {
				bad = true
				c.fail(l, where, "no attribute "+a[0])
			}
		}
		nd := single("nodes", list(doc, D, "Nodes"))
		if nd == nil {
			return
		}
		nv, nT := x.deref(sv.st, nd)
		if v := ptr("the node's mesh", fld(nv, nT, "Mesh")); v != nil {
			is("the node's mesh", v, tZero)
		}
		for _, f := range []struct {
			name string
			idn  []int64
		}{{"Translation", []int64{0, 0, 0}}, {"Scale", []int64{1, 1, 1}}, {"Rotation", []int64{0, 0, 0, 1}}, {"Matrix", []int64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}}} {
			t := fld(nv, nT, f.name)
			zero, id := true, true
			for i, k := range f.idn {
				y := mkSelAny(t, int64(i))
				zero = zero && y == tZero
				id = id && y == numRat(big.NewRat(k, 1))
			}
			if !zero && !id {
				bad = true
				c.fail(l, where, "the node carries a transformation ("+f.name+")")
			}
		}
		k := ptr("the default scene", fld(doc, D, "Scene"))
		if k == nil {
			return
		}
		s := fld(doc, D, "Scenes")
		if n, ok := isConstInt(mkLen(s)); ok {
			if ki, ok := isConstInt(k); ok && (ki < 0 || ki >= n) {
				c.fail(l, where, "the default scene does not exist")
				return
			}
		}
		scv, scT := x.deref(sv.st, mkSel(s, k, SNum, true))
		ns := fld(scv, scT, "Nodes")
		want := mkUnit(tZero)
		if ns != want {
			if _, ok := isConstInt(mkLen(ns)); !ok {
				panic(undecided("nodes of the scene: " + clip(ns.String())))
			}
			bad = true
			c.fail(l, where, "the nodes of the default scene are "+clip(ns.String()))
		}
		if !bad {
			c.ok(l, where)
		}
	})
}

func mkSelAny(t *Term, i int64) *Term {
	if t.op == OTup && int(i) < len(t.args) {
		return t.args[i]
	}
	return mkSel(t, numInt(i), SNum, false)
}

// mapOf: the entries of a map built from a literal
func (x *export) mapOf(st *State, t *Term) map[string]*Term {
	out := map[string]*Term{}
	for d := 0; d < 50; d++ {
		if o, ok := x.r.e.addr[t]; ok {
			t = st.getOr(o)
			continue
		}
		if t.op == OFn && t.name == "mapset" && t.args[1].op == OStrC {
			if _, ok := out[t.args[1].name]; !ok {
				out[t.args[1].name] = t.args[2]
			}
			t = t.args[0]
			continue
		}
		if t.op == OFn && t.name == "map0" {
			return out
		}
		for _, p := range asPoly(t) {
			if len(p.m) == 1 {
				if o, ok := x.r.e.addr[p.m[0].a]; ok {
					t = st.getOr(o)
				}
			}
		}
	}
	panic(undecided("attribute map of unknown form: " + clip(t.String())))
}
