package main

// Concrete cavities: when the insertion cannot be compared with the specified
// one as it stands, both are followed on a few definite situations: so many
// tetrahedra, which of them the point violates, which faces they share. What
// the pure helper functions return there is given; everything else is computed
// from the two terms. Only two fully computed lists of changes are compared.

import (
	"regexp"
	"sort"
	"strings"
)

// subTerms: every term inside t, innermost first
func subTerms(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			w(a)
		}
		for _, p := range x.poly {
			for _, f := range p.m {
				w(f.a)
			}
		}
		out = append(out, x)
	}
	w(t)
	return out
}

var callNumber = regexp.MustCompile(`#[0-9]+$`)

type situation struct {
	n        int      // tetrahedra present
	violated []bool   // by the new point
	shared   [][4]int // tetrahedron, face, tetrahedron, face
	inMesh   int      // faces that belong to the result, as a bit set over 4·n
	text     string
}

type cavity struct {
	s     situation
	T     *Term // the table at the beginning of the step
	faces string
	steps int
}

func (v *cavity) hash(i, j int) *Term {
	for _, x := range v.s.shared {
		if x[2] == i && x[3] == j {
			i, j = x[0], x[1]
		}
	}
	return mkStr("face " + itoa(i) + "/" + itoa(j))
}

func opqName(x *Term) string {
	if x.op != OFn || !hasPfx(x.name, "opq:") {
		return ""
	}
	n := callNumber.ReplaceAllString(x.name, "")
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func index(name, prefix string, max int) (int, bool) {
	if !hasPfx(name, prefix) {
		return 0, false
	}
	i, ok := atoi(name[len(prefix):])
	return i, ok && i < max
}

// redex: the value of x in the situation
func (v *cavity) redex(x *Term) *Term {
	tetraNo := func(t *Term) (int, bool) {
		if t.op != OVar {
			return 0, false
		}
		return index(t.name, "tetra·", v.s.n)
	}
	faceNo := func(t *Term) (int, bool) {
		if t.op != OVar {
			return 0, false
		}
		return index(t.name, "face·", 4*v.s.n)
	}
	switch x.op {
	case OVar:
		if hasPfx(x.name, "after:") && isMapSort(x, v.T) {
			return v.T
		}
	case OFn:
		switch x.name {
		case "len":
			if opqName(x.args[0]) == "sortedKeys" && x.args[0].args[0] == v.T {
				return numInt(int64(v.s.n))
			}
			if x.args[0].op == OFn && x.args[0].name == v.faces {
				if _, ok := tetraNo(x.args[0].args[0]); ok {
					return numInt(4)
				}
			}
		case "mapget":
			if val, has, known := lookup(x.args[0], x.args[1]); known && has {
				return val
			} else if T, ok := mapElem[x]; known && ok {
				return zeroOf(T)
			}
			if x.args[0] == v.T && x.args[1].op == OStrC {
				if i, ok := index(x.args[1].name, "key ", v.s.n); ok {
					return mkVar("tetra·"+itoa(i), x.sort, x.isInt)
				}
			}
		}
		switch opqName(x) {
		case "tetraHash":
			if i, ok := tetraNo(x.args[0]); ok && len(x.args) == 1 {
				return mkStr("key " + itoa(i))
			}
		case "hash":
			if k, ok := faceNo(x.args[0]); ok && len(x.args) == 1 {
				return v.hash(k/4, k%4)
			}
		}
	case OSel:
		k, ok := isConstInt(x.args[1])
		if !ok || k < 0 {
			break
		}
		if opqName(x.args[0]) == "sortedKeys" && x.args[0].args[0] == v.T && int(k) < v.s.n {
			return mkStr("key " + itoa(int(k)))
		}
		if x.args[0].op == OFn && x.args[0].name == v.faces && k < 4 {
			if i, ok := tetraNo(x.args[0].args[0]); ok {
				return mkVar("face·"+itoa(4*i+int(k)), x.sort, x.isInt)
			}
		}
	}
	return nil
}

// lookup: the entry a table made of definite texts has for a definite text
func lookup(m, k *Term) (val *Term, has, known bool) {
	if k.op != OStrC {
		return nil, false, false
	}
	for {
		switch {
		case m == tMap0 || m == tNil:
			return nil, false, true
		case m.op == OFn && (m.name == "mapset" || m.name == "mapdel") && m.args[1].op == OStrC:
			if m.args[1] == k {
				if m.name == "mapdel" {
					return nil, false, true
				}
				return m.args[2], true, true
			}
			m = m.args[0]
		default:
			return nil, false, false
		}
	}
}

func isMapSort(x, T *Term) bool { return x.sort == T.sort && x.sort == SOther }

// decision: the truth of an opaque condition in the situation
func (v *cavity) decision(at *Term) *Term {
	if at.op != OHolds {
		return nil
	}
	x := at.args[0]
	val := func(b bool) *Term {
		if b {
			return tTrue
		}
		return tFalse
	}
	if x.op == OFn && x.name == "maphas" {
		if _, has, known := lookup(x.args[0], x.args[1]); known {
			return val(has)
		}
	}
	switch opqName(x) {
	case "circumsphereContains":
		if x.args[0].op == OVar {
			if i, ok := index(x.args[0].name, "tetra·", v.s.n); ok {
				return val(v.s.violated[i])
			}
		}
	case "isPartOfMesh":
		if x.args[0].op == OVar {
			if i, ok := index(x.args[0].name, "face·", 4*v.s.n); ok {
				return val(v.s.inMesh>>uint(i)&1 == 1)
			}
		}
	}
	return nil
}

// at computes t in the situation
func (v *cavity) at(t *Term) *Term {
	for round := 0; round < 40; round++ {
		checkDeadline()
		m := map[*Term]*Term{}
		for _, x := range subTerms(t) {
			if y := v.redex(x); y != nil && y != x {
				m[x] = y
			}
		}
		n := subst(t, m)
		ctx := newCtx()
		any := false
		for _, x := range subTerms(n) {
			if d := v.decision(x); d != nil {
				ctx.assumeAtom(x, d == tTrue)
				any = true
			}
		}
		if any {
			n = ctx.simp(n)
		}
		n = expandConst(n)
		if n == t {
			return t
		}
		t = n
	}
	return t
}

// changes: the table as a set of changes to the one at the beginning
func (v *cavity) changes(t *Term) ([]string, bool) {
	var out []string
	for t != v.T {
		switch {
		case t.op == OFn && t.name == "mapdel" && t.args[1].op == OStrC && hasPfx(t.args[1].name, "key "):
			i, _ := index(t.args[1].name, "key ", v.s.n)
			out = append(out, "removes tetrahedron "+itoa(i))
		case t.op == OFn && t.name == "mapset" && opqName(t.args[1]) == "tetraHash" && opqName(t.args[2]) == "connect" && t.args[1].args[0] == t.args[2]:
			a := t.args[2].args
			if len(a) < 1 || a[0].op != OVar {
				return nil, false
			}
			k, ok := index(a[0].name, "face·", 4*v.s.n)
			if !ok {
				return nil, false
			}
			// shared faces are one face
			out = append(out, "joins "+v.hash(k/4, k%4).name)
		default:
			return nil, false
		}
		t = t.args[0]
	}
	sort.Strings(out)
	var u []string
	for i, s := range out {
		if i == 0 || out[i-1] != s {
			u = append(u, s)
		}
	}
	return u, true
}

var situations = []situation{
	{n: 2, violated: []bool{true, true}, shared: [][4]int{{0, 1, 1, 2}}, text: "the point violates two tetrahedra that share a face"},
	{n: 2, violated: []bool{true, false}, shared: [][4]int{{0, 1, 1, 2}}, text: "the point violates one of two tetrahedra that share a face"},
	{n: 3, violated: []bool{true, true, true}, shared: [][4]int{{0, 1, 1, 2}, {1, 0, 2, 3}}, text: "the point violates three tetrahedra in a row"},
}

var finalSituations = []situation{
	{n: 1, violated: []bool{false}, inMesh: 0b0101, text: "two of the four faces of a single tetrahedron belong to the mesh"},
	{n: 2, violated: []bool{false, false}, inMesh: 0b10000010, text: "one face of each of two tetrahedra belongs to the mesh"},
}

// tableStep: the recurrence of the table over the points
func tableStep(t, points *Term) (fold, T, K, step *Term) {
	for _, x := range subTerms(t) {
		if x.op != OFold || !foldsMap(x) {
			continue
		}
		f := foldOf(x)
		if f.n != mkLen(points) {
			continue
		}
		i, _ := atoi(x.name)
		return x, f.vars[i], f.k, f.steps[i]
	}
	return nil, nil, nil, nil
}

// cavities follows both sides on the situations; true when a violation was found
func (c *Chk) cavities(label string, p *Pair) bool {
	T := P.typ("meshing", "tetra")
	fi := fieldIndex(T, "faces")
	if fi < 0 {
		return false
	}
	got, want := p.cur.ret(0), p.ref.ret(0)
	fg, tg, kg, sg := tableStep(got, p.cur.pterm(0))
	fw, tw, kw, sw := tableStep(want, p.ref.pterm(0))
	if fw == nil || fg != nil && tg.sort != tw.sort {
		return false
	}
	common := mkVar("table", tw.sort, tw.isInt)
	it := mkVar("iteration", SNum, true)
	if fg != nil {
		sg = subst(sg, map[*Term]*Term{tg: common, kg: it})
	}
	sw = subst(sw, map[*Term]*Term{tw: common, kw: it})
	faces := "field" + itoa(fi) + ":tetra"
	for _, s := range situations {
		if fg == nil {
			break
		}
		v := &cavity{s: s, T: common, faces: faces}
		a, okA := v.changes(v.at(sg))
		b, okB := v.changes(v.at(sw))
		if okA && okB && strings.Join(a, "; ") != strings.Join(b, "; ") {
			c.fail(label, p.cur.where(), "when "+s.text+", one step "+list(a)+" where the specification "+list(b))
			return true
		}
	}
	if fg != nil {
		got = subst(got, map[*Term]*Term{fg: common})
	}
	want = subst(want, map[*Term]*Term{fw: common})
	for _, s := range finalSituations {
		v := &cavity{s: s, T: common, faces: faces}
		a, b := v.at(got), v.at(want)
		ia, okA := plainItems(a)
		ib, okB := plainItems(b)
		if okA && okB && strings.Join(ia, "; ") != strings.Join(ib, "; ") {
			c.fail(label, p.cur.where(), "when "+s.text+", the result is "+list(ia)+" where "+list(ib)+" is specified")
			return true
		}
	}
	return false
}

func list(a []string) string {
	if len(a) == 0 {
		return "(nothing)"
	}
	return strings.Join(a, ", ")
}

// plainItems: the elements of a sequence of known length, sorted; false when
// one is not a plain function of a face
func plainItems(s *Term) ([]string, bool) {
	var items, out []string
	var w func(t *Term) bool
	w = func(t *Term) bool {
		switch t.op {
		case OCat:
			for _, a := range t.args {
				if !w(a) {
					return false
				}
			}
			return true
		case OUnit:
			for _, x := range subTerms(t.args[0]) {
				if isOpaquePart(x) || x.op == OIte {
					return false
				}
			}
			items = append(items, t.args[0].String())
			return true
		}
		return t == tEmpty
	}
	if !w(s) || len(items)%3 != 0 {
		return nil, false
	}
	for i := 0; i < len(items); i += 3 {
		sort.Strings(items[i : i+3])
		out = append(out, "("+strings.Join(items[i:i+3], ", ")+")")
	}
	sort.Strings(out)
	return out, true
}
