package main

import (
	"go/types"
	"sort"
	"strings"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T03", "information flow from the Z coordinates of the points: no branch, index, comparison result or integer result may depend on one, no X or Y of a returned point may carry one", checkT03)
	register("T04", "provenance of every integer stored as a triangle corner and of every coordinate stored in the hull; the point slice returned is the caller's; paired lengths of the triangle and half-edge lists", checkT04)
	register("X01", "inclusion-based points-to analysis from every entry: no store reaches memory of an argument", checkX01)
}

func isVector(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Name() == "Vector" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "r3")
}

func at(in ssa.Instruction) string {
	fn := in.Parent()
	pos := in.Pos()
	if !pos.IsValid() {
		// the closest instruction of the block with a position
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				pos = x.Pos()
			}
		}
	}
	return relPos(fn.Prog, pos) + " in " + fn.String()
}

func (c *Chk) flowFrom(label string, fn *ssa.Function, f *Flow) bool {
	ok := false
	c.try(label, fnPos(fn), func() {
		f.analyse(fn)
		ok = true
	})
	for _, g := range f.order {
		c.fns[g.String()] = true
		for _, b := range g.Blocks {
			c.insts += len(b.Instrs)
		}
	}
	return ok
}

// ---------- T03 ----------

func checkT03(c *Chk) {
	for _, name := range []string{"Triangulate", "ConvexHull"} {
		fn := P.fn("triangulate2", name)
		l := name + " decides on X and Y only"
		if fn == nil {
			c.unknown(l, "triangulate2."+name, "no such function")
			continue
		}
		f := newFlow()
		seeded := 0
		f.cellL = func(o *AObj, path string, T types.Type) []string {
			if strings.HasSuffix(path, ".Z") {
				seeded++
				return []string{"Z"}
			}
			return nil
		}
		if !c.flowFrom(l, fn, f) {
			continue
		}
		if seeded == 0 {
			// the points are never looked at through a value of the vector type
			c.unknown(l, fnPos(fn), "no Z coordinate is read or carried")
			continue
		}
		bad := 0
		fail := func(in ssa.Instruction, what string) {
			bad++
			if bad <= 5 {
				c.fail(l, at(in), what)
			}
		}
		z := func(v ssa.Value) bool { return f.get(v).labels()["Z"] }
		for _, g := range f.order {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c.sites++
					switch x := in.(type) {
					case *ssa.If:
						if z(x.Cond) {
							fail(in, "the branch on "+x.Cond.String()+" depends on a Z coordinate")
						}
					case *ssa.IndexAddr:
						if z(x.Index) {
							fail(in, "the index depends on a Z coordinate")
						}
					case *ssa.MakeSlice:
						if z(x.Len) {
							fail(in, "the length depends on a Z coordinate")
						}
					case *ssa.Lookup:
						if z(x.Index) {
							fail(in, "the key depends on a Z coordinate")
						}
					case *ssa.Return:
						if f.indir[g] {
							for _, r := range x.Results {
								if z(r) && !isVector(r.Type()) {
									fail(in, "what the library gets back depends on a Z coordinate")
								}
							}
						}
					}
				}
			}
		}
		// what is returned
		f.visit(f.rets[fn], fn.Signature.Results(), func(path string, T types.Type, lf *Leaf) {
			if lf.labels["Z"] && !strings.HasSuffix(path, ".Z") {
				bad++
				c.fail(l, fnPos(fn), "result "+path+" depends on a Z coordinate")
			}
		})
		if bad == 0 {
			c.ok(l, fnPos(fn))
		}
	}
}

// visit walks everything reachable from a value of type T.
func (f *Flow) visit(a Abs, T types.Type, fn func(path string, T types.Type, l *Leaf)) {
	seen := map[string]bool{}
	var val func(a Abs, T types.Type, at string, depth int)
	val = func(a Abs, T types.Type, at string, depth int) {
		if depth > 8 {
			return
		}
		if t, ok := T.(*types.Tuple); ok && t.Len() == 1 {
			T = t.At(0).Type()
		}
		for _, x := range leafPaths(T) {
			l := a[x.path]
			if l == nil {
				continue
			}
			fn(at+x.path, x.typ, l)
			var el types.Type
			step := ""
			switch u := under(x.typ).(type) {
			case *types.Pointer:
				el = u.Elem()
			case *types.Slice:
				el, step = u.Elem(), "[]"
			case *types.Map:
				el, step = u.Elem(), "[]"
			default:
				continue
			}
			for _, pl := range f.places(Abs{"": l}) {
				k := pl.o.name + pl.path + step + "@" + at + x.path
				if seen[k] {
					continue
				}
				seen[k] = true
				val(f.load(place{pl.o, pl.path + step, false, false}, el), el, at+x.path+"*"+step, depth+1)
			}
		}
	}
	val(a, T, "", 0)
}

// ---------- T04 ----------

// inductionOver: v counts 0, 1, ... below the length of a sequence
func inductionOver(v ssa.Value) ssa.Value {
	phi, ok := v.(*ssa.Phi)
	add := ssa.Value(nil)
	if b, ok2 := v.(*ssa.BinOp); ok2 && b.Op == token.ADD {
		if p, ok3 := b.X.(*ssa.Phi); ok3 {
			if k, ok4 := b.Y.(*ssa.Const); ok4 && k.Value != nil && k.Value.ExactString() == "1" {
				phi, ok, add = p, true, b
			}
		}
	}
	if !ok {
		return nil
	}
	init, hasStep := "", false
	for _, e := range phi.Edges {
		switch x := e.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return nil
			}
			init = x.Value.ExactString()
		case *ssa.BinOp:
			k, okc := x.Y.(*ssa.Const)
			if x.Op != token.ADD || x.X != ssa.Value(phi) || !okc || k.Value == nil || k.Value.ExactString() != "1" {
				return nil
			}
			hasStep = true
		default:
			return nil
		}
	}
	if !hasStep {
		return nil
	}
	// the header's test bounds it
	want := ssa.Value(phi)
	if add != nil {
		if init != "-1" {
			return nil
		}
		want = add
	} else if strings.HasPrefix(init, "-") || init == "" {
		return nil
	}
	iff, ok := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.X != want {
		return nil
	}
	return lenOf(cmp.Y)
}

// lenOf: the sequence whose length v is
func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

func checkT04(c *Chk) {
	fn := P.fn("triangulate2", "Triangulate")
	const l1 = "every triangle corner is the index of a caller's point"
	if fn == nil {
		c.unknown(l1, "triangulate2.Triangulate", "no such function")
		return
	}
	f := newFlow()
	mem := "memory of parameter 0 of type " + fn.Params[0].Type().String()
	f.cellL = func(o *AObj, path string, T types.Type) []string {
		if o.name == mem && strings.HasPrefix(path, "[].") {
			return []string{"point" + path[2:]}
		}
		return nil
	}
	// over: s is the caller's slice, or one made with its length
	// (judged on the settled points-to solution)
	f0 := newFlow()
	if !c.flowFrom(l1, fn, f0) {
		return
	}
	var over func(s ssa.Value) bool
	over = func(s ssa.Value) bool {
		if s == nil {
			return false
		}
		ps := f0.places(f0.get(s))
		for _, p := range ps {
			if p.path != "" || p.cut {
				return false
			}
			if p.o.name == mem {
				continue
			}
			mk, ok := p.o.site.(*ssa.MakeSlice)
			if !ok || lenOf(mk.Len) == nil || lenOf(mk.Len) == s || !over(lenOf(mk.Len)) {
				return false
			}
		}
		return len(ps) > 0
	}
	f.constL = func(k *ssa.Const, _ *ssa.Function) []string {
		if k.Value == nil || !isInteger(k.Type()) {
			if isFloat(k.Type()) {
				return []string{"constant"}
			}
			return nil
		}
		return []string{"const " + k.Value.ExactString()}
	}
	f.arith = func(in ssa.Instruction, ops []Abs) ([]string, bool) {
		v, ok := in.(ssa.Value)
		if !ok {
			return nil, false
		}
		switch x := in.(type) {
		case *ssa.Phi:
			if over(inductionOver(x)) {
				return []string{"index"}, true
			}
			return nil, false
		case *ssa.Convert:
			return nil, !isInteger(x.Type())
		case *ssa.BinOp:
			if over(inductionOver(x)) {
				return []string{"index"}, true
			}
			if !isInteger(v.Type()) {
				return []string{"computed"}, true
			}
			k, ok := x.Y.(*ssa.Const)
			if x.Op == token.REM && over(lenOf(x.Y)) {
				return []string{"index"}, true
			}
			if ok && k.Value != nil && (x.Op == token.ADD || x.Op == token.SUB) {
				var out []string
				d := int(k.Int64())
				if x.Op == token.SUB {
					d = -d
				}
				for s := range ops[0].labels() {
					switch {
					case s == "index":
						out = append(out, "index "+itoa(d))
					case strings.HasPrefix(s, "const "):
						n, _ := atoi(s[6:])
						if n+d > 9 || n+d < -9 {
							out = append(out, "computed")
						} else {
							out = append(out, "const "+itoa(n+d))
						}
					case strings.HasPrefix(s, "index "):
						n, _ := atoi(s[6:])
						switch {
						case n+d == 0:
							out = append(out, "index")
						case n+d > 9 || n+d < -9:
							out = append(out, "computed")
						default:
							out = append(out, "index "+itoa(n+d))
						}
					default:
						out = append(out, "computed")
					}
				}
				return out, true
			}
			return []string{"computed"}, true
		case *ssa.UnOp:
			return []string{"computed"}, true
		}
		if isInteger(v.Type()) {
			return []string{"computed"}, true
		}
		return nil, false
	}
	if !c.flowFrom(l1, fn, f) {
		return
	}
	nT := P.typ("triangulate2", "Triangulation")
	removed := f.removeMarks()
	seenTri, seenHull := false, false
	badHull, badTri := "", ""
	undec := ""
	lv := "the caller's point slice is returned"
	lh := "every hull vertex is one of the caller's points"
	vec0 := false
	f.visit(f.rets[fn], fn.Signature.Results(), func(path string, T types.Type, lf *Leaf) {
		switch {
		case path == ".0*.Vectors":
			for p := range lf.pts {
				switch {
				case p.o.name != mem:
					c.fail(lv, fnPos(fn), "Vectors may be "+p.o.name)
				case p.cut || p.path != "":
					c.fail(lv, fnPos(fn), "Vectors may be a part of the caller's slice")
				}
			}
			vec0 = len(lf.pts) > 0
		case path == ".0*.Triangles*[]":
			seenTri = true
			if lf.labels["computed"] {
				// a count that is not followed
				undec = "computed"
				return
			}
			for s := range lf.labels {
				switch {
				case s == "index" || s == "const 0" || s == "const -1" && removed:
				case strings.HasPrefix(s, "index "):
					badTri = "a corner may be a point's index plus " + s[6:]
				case strings.HasPrefix(s, "const "):
					badTri = "a corner may be the number " + s[6:]
				default:
					undec = s
				}
			}
		case strings.HasPrefix(path, ".0*.ConvexHull*[]."):
			comp := path[len(".0*.ConvexHull*[]"):]
			for s := range lf.labels {
				seenHull = true
				if s != "point"+comp {
					badHull = "coordinate " + comp[1:] + " may be " + s
				}
			}
		}
	})
	_ = nT
	if vec0 {
		c.ok(lv, fnPos(fn))
	} else {
		c.unknown(lv, fnPos(fn), "not found in the result")
	}
	switch {
	case badTri != "":
		c.fail(l1, fnPos(fn), badTri)
	case !seenTri || undec != "":
		c.unknown(l1, fnPos(fn), "corner of unknown origin "+undec)
	default:
		c.ok(l1, fnPos(fn))
	}
	switch {
	case badHull != "":
		c.fail(lh, fnPos(fn), badHull)
	case !seenHull:
		c.unknown(lh, fnPos(fn), "no hull vertex found")
	default:
		c.ok(lh, fnPos(fn))
	}
	// unchanged and in order
	l := "the caller's points are left as they are"
	n := 0
	for _, w := range f.sortedWrites() {
		if w.pl.o.name == mem {
			n++
			c.fail(l, at(w.instr), w.how+" to "+w.pl.o.name+w.pl.path)
		}
	}
	if n == 0 {
		c.ok(l, fnPos(fn))
	}
	c.listLengths(f, fn)
}

func atoi(s string) (int, bool) {
	n, neg := 0, false
	for i, r := range s {
		if i == 0 && r == '-' {
			neg = true
			continue
		}
		if r < '0' || r > '9' {
			return 0, false
		}
		n = n*10 + int(r-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

// removeMarks: -1 is stored as a point number only into list nodes that are
// being taken out of their list
func (f *Flow) removeMarks() bool {
	for _, g := range f.order {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				k, ok := s.Val.(*ssa.Const)
				if !ok || k.Value == nil || !isInteger(k.Type()) || k.Value.ExactString() != "-1" {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if ok && fieldNameOf(fa) == "i" {
					if relinks(g) {
						continue
					}
					return false
				}
			}
		}
	}
	return true
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	return under(under(fa.X.Type()).(*types.Pointer).Elem()).(*types.Struct).Field(fa.Field).Name()
}

// relinks: the function stores both list pointers of neighbours
func relinks(g *ssa.Function) bool {
	p, n := false, false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					switch fieldNameOf(fa) {
					case "prev":
						p = true
					case "next":
						n = true
					}
				}
			}
		}
	}
	return p && n
}

func (f *Flow) sortedWrites() []Write {
	var out []Write
	for w := range f.writes {
		out = append(out, w)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := at(out[i].instr)+out[i].pl.o.name+out[i].pl.path, at(out[j].instr)+out[j].pl.o.name+out[j].pl.path
		return a < b
	})
	return out
}

// listLengths: what the triangle list and the half-edge list are set to has
// the same lengths, finally the number of half-edges created.
func (c *Chk) listLengths(f *Flow, fn *ssa.Function) {
	l := "triangle and half-edge lists have the same length"
	got := map[string][]string{}
	final := map[string]bool{}
	odd := ""
	for _, g := range f.order {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := fieldNameOf(fa)
				if n != "triangles" && n != "halfedges" {
					continue
				}
				switch v := s.Val.(type) {
				case *ssa.MakeSlice:
					got[n] = append(got[n], "make "+valExpr(v.Len, 0))
				case *ssa.Slice:
					lo, hi := "0", "len"
					if v.Low != nil {
						lo = valExpr(v.Low, 0)
					}
					if v.High != nil {
						hi = valExpr(v.High, 0)
						if hi == "trianglesLen" && lo == "0" {
							final[n] = true
						}
					}
					got[n] = append(got[n], "slice "+lo+":"+hi)
				default:
					odd = "assigned " + s.Val.String()
				}
			}
		}
	}
	t, h := got["triangles"], got["halfedges"]
	sort.Strings(t)
	sort.Strings(h)
	switch {
	case odd != "" || len(t) == 0 || len(h) == 0:
		c.unknown(l, fnPos(fn), "list assignments not recognised "+odd)
	case strings.Join(t, ";") != strings.Join(h, ";"):
		c.fail(l, fnPos(fn), "triangles: "+strings.Join(t, ", ")+"; halfedges: "+strings.Join(h, ", "))
	case !final["triangles"]:
		c.fail(l, fnPos(fn), "the lists are not cut to the number of half-edges created: "+strings.Join(t, ", "))
	default:
		c.ok(l, fnPos(fn))
	}
}

func valExpr(v ssa.Value, d int) string {
	if d > 12 {
		return "…"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return x.Value.ExactString()
		}
		return "nil"
	case *ssa.BinOp:
		a, b := valExpr(x.X, d+1), valExpr(x.Y, d+1)
		if (x.Op == token.ADD || x.Op == token.MUL) && b < a {
			a, b = b, a
		}
		return "(" + a + x.Op.String() + b + ")"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldNameOf(fa)
			}
		}
		return x.Op.String() + valExpr(x.X, d+1)
	case *ssa.Call:
		if s := lenOf(x); s != nil {
			return "len(" + valExpr(s, d+1) + ")"
		}
	case *ssa.Convert:
		return valExpr(x.X, d+1)
	case *ssa.Parameter:
		return x.Name()
	}
	return v.Name()
}

// ---------- X01 ----------

var inPlace = map[string]bool{"Normalize": true, "Abs": true, "Scale": true, "Add": true, "Sub": true}

func checkX01(c *Chk) {
	for _, fn := range P.funcs {
		if fn.Parent() != nil || fn.Pkg == nil || fn.Name() == "init" || strings.HasSuffix(P.pkgFile(fn), "_test.go") {
			continue
		}
		why := c.entryKind(fn)
		if why == "" {
			continue
		}
		c.untouched(fn.String()+" leaves its arguments unchanged", fn, why)
	}
}

// untouched: no store in what fn reaches lands in memory reachable from an
// argument of fn.
func (c *Chk) untouched(l string, fn *ssa.Function, why string) {
	f := newFlow()
	if !c.flowFrom(l, fn, f) {
		return
	}
	n := 0
	for _, w := range f.sortedWrites() {
		c.sites++
		if w.pl.o.param < 0 {
			continue
		}
		if ownReceiver(fn, w) || why == "points" && !strings.Contains(w.pl.path, "[]") {
			continue
		}
		n++
		if n <= 4 {
			c.fail(l, at(w.instr), w.how+" to "+w.pl.o.name+" at "+w.pl.path)
		}
	}
	if n == 0 {
		c.ok(l, fnPos(fn))
	}
}

func (p *Program) pkgFile(fn *ssa.Function) string {
	return fn.Prog.Fset.Position(fn.Pos()).Filename
}

// entryKind: "all": exported; "points": takes a list of points
func (c *Chk) entryKind(fn *ssa.Function) string {
	pt := false
	for _, p := range fn.Params {
		T := p.Type()
		if q, ok := under(T).(*types.Pointer); ok {
			if _, ok := q.Elem().(*types.Named); !ok {
				T = q.Elem()
			}
		}
		if s, ok := under(T).(*types.Slice); ok {
			if isVector(s.Elem()) || fn.Pkg.Pkg.Name() == "nurbs" {
				pt = true
			}
		}
	}
	recv := fn.Signature.Recv()
	exp := token.IsExported(fn.Name())
	if recv != nil {
		T := recv.Type()
		if p, ok := T.(*types.Pointer); ok {
			T = p.Elem()
		}
		if n, ok := T.(*types.Named); ok {
			exp = exp && n.Obj().Exported()
		}
	}
	switch {
	case exp:
		return "all"
	case pt && !usedElsewhere(fn):
		return "points"
	}
	return ""
}

// ownReceiver: the write goes to the receiver of a method that is documented to
// work in place, or to a reader's own state
func ownReceiver(fn *ssa.Function, w Write) bool {
	r := fn.Signature.Recv()
	if r == nil || w.pl.o.param != 0 {
		return false
	}
	p, ok := r.Type().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return false
	}
	if isVector(n) {
		return inPlace[fn.Name()]
	}
	return n.Obj().Name() != "Triangulation"
}

// usedElsewhere: another function of the repository mentions fn
func usedElsewhere(fn *ssa.Function) bool {
	for _, g := range P.funcs {
		if g == fn {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(fn) {
						return true
					}
				}
			}
		}
	}
	return false
}
