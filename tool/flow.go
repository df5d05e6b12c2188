package main

// Information flow: an inclusion-based, field-sensitive, flow-insensitive
// analysis of the SSA form, run from one entry function. Abstract values carry
// labels (where a scalar comes from), the places a reference may point to, and
// the functions a function value may be.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AObj is an abstract object: an allocation site, a global, or the memory one
// of the entry's parameters refers to.
type AObj struct {
	id    int
	name  string
	param int // index of the entry's parameter, -1: none
	glob  *ssa.Global
	site  ssa.Instruction
	cells map[string]*Leaf
}

type place struct {
	o      *AObj
	path   string
	shrunk bool // reached through s[:k]: an append may overwrite elements
	cut    bool // reached through s[i:j]
}

type Leaf struct {
	labels map[string]bool
	pts    map[place]bool
	fns    map[*ssa.Function][]Abs // with the bindings of a closure
}

// Abs: leaves of a value by path ("" for a scalar)
type Abs map[string]*Leaf

type Write struct {
	pl    place
	instr ssa.Instruction
	fn    *ssa.Function
	how   string
}

type Flow struct {
	objs    map[string]*AObj
	list    []*AObj
	vals    map[ssa.Value]Abs
	rets    map[*ssa.Function]Abs
	frees   map[*ssa.FreeVar]Abs
	reached map[*ssa.Function]bool
	order   []*ssa.Function
	changed bool
	writes  map[Write]bool
	indir   map[*ssa.Function]bool // called by library code
	// labels of constants and arithmetic; nil: none / union of the operands
	constL func(c *ssa.Const, fn *ssa.Function) []string
	arith  func(in ssa.Instruction, ops []Abs) ([]string, bool)
	cellL  func(o *AObj, path string, T types.Type) []string // labels of a parameter's memory
}

func newFlow() *Flow {
	return &Flow{objs: map[string]*AObj{}, vals: map[ssa.Value]Abs{}, rets: map[*ssa.Function]Abs{}, frees: map[*ssa.FreeVar]Abs{},
		reached: map[*ssa.Function]bool{}, writes: map[Write]bool{}, indir: map[*ssa.Function]bool{}}
}

func newLeaf() *Leaf {
	return &Leaf{map[string]bool{}, map[place]bool{}, map[*ssa.Function][]Abs{}}
}

func (f *Flow) obj(key string) *AObj {
	o := f.objs[key]
	if o == nil {
		o = &AObj{id: len(f.list), name: key, param: -1, cells: map[string]*Leaf{}}
		f.objs[key] = o
		f.list = append(f.list, o)
	}
	return o
}

func (f *Flow) joinLeaf(d, s *Leaf) {
	if d == s {
		return
	}
	for l := range s.labels {
		if !d.labels[l] {
			d.labels[l] = true
			f.changed = true
		}
	}
	for p := range s.pts {
		if !d.pts[p] {
			d.pts[p] = true
			f.changed = true
		}
	}
	for g, b := range s.fns {
		if _, ok := d.fns[g]; !ok {
			d.fns[g] = b
			f.changed = true
		}
	}
}

func (f *Flow) join(d, s Abs) {
	for p, l := range s {
		x := d[p]
		if x == nil {
			x = newLeaf()
			d[p] = x
			f.changed = true
		}
		f.joinLeaf(x, l)
	}
}

// merge: a join into a value that is not part of the solution
func (f *Flow) merge(d, s Abs) {
	c := f.changed
	f.join(d, s)
	f.changed = c
}

// reg: the abstract value held by an SSA register
func (f *Flow) reg(v ssa.Value) Abs {
	a := f.vals[v]
	if a == nil {
		a = Abs{}
		f.vals[v] = a
	}
	return a
}

func (f *Flow) get(v ssa.Value) Abs {
	switch x := v.(type) {
	case *ssa.Const:
		if f.constL != nil {
			l := newLeaf()
			for _, s := range f.constL(x, nil) {
				l.labels[s] = true
			}
			return Abs{"": l}
		}
		return Abs{}
	case *ssa.Function:
		l := newLeaf()
		l.fns[x] = nil
		return Abs{"": l}
	case *ssa.Global:
		o := f.obj("global " + x.String())
		o.glob = x
		l := newLeaf()
		l.pts[place{o, "", false, false}] = true
		return Abs{"": l}
	case *ssa.FreeVar:
		a := f.frees[x]
		if a == nil {
			a = Abs{}
			f.frees[x] = a
		}
		return a
	}
	return f.reg(v)
}

func (a Abs) leaf() *Leaf {
	if l := a[""]; l != nil {
		return l
	}
	return newLeaf()
}
func (a Abs) labels() map[string]bool {
	m := map[string]bool{}
	for _, l := range a {
		for s := range l.labels {
			m[s] = true
		}
	}
	return m
}

// sub: the part of a value under a path step
func (a Abs) sub(step string) Abs {
	out := Abs{}
	for p, l := range a {
		if strings.HasPrefix(p, step) && (len(p) == len(step) || p[len(step)] == '.' || p[len(step)] == '[') {
			out[p[len(step):]] = l
		}
	}
	return out
}

func (f *Flow) load(pl place, T types.Type) Abs {
	f.materialise(pl, T)
	out := Abs{}
	for p, l := range pl.o.cells {
		if strings.HasPrefix(p, pl.path) {
			r := p[len(pl.path):]
			if r == "" || r[0] == '.' || r[0] == '[' {
				out[r] = l
			}
		}
	}
	return out
}

// materialise: memory of a parameter comes into being when it is read
func (f *Flow) materialise(pl place, T types.Type) {
	if pl.o.param < 0 || T == nil {
		return
	}
	for _, x := range leafPaths(T) {
		p := pl.path + x.path
		if pl.o.cells[p] == nil {
			l := newLeaf()
			pl.o.cells[p] = l
			f.changed = true
			f.paramLeaf(l, pl.o.param, x.typ)
			if f.cellL != nil {
				for _, s := range f.cellL(pl.o, p, x.typ) {
					l.labels[s] = true
				}
			}
		}
	}
}

func (f *Flow) paramLeaf(l *Leaf, param int, T types.Type) {
	switch under(T).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		o := f.obj("memory of parameter " + itoa(param) + " of type " + T.String())
		o.param = param
		l.pts[place{o, "", false, false}] = true
	}
}

type leafPath struct {
	path string
	typ  types.Type
}

func leafPaths(T types.Type) []leafPath {
	switch u := under(T).(type) {
	case *types.Struct:
		var out []leafPath
		for i := 0; i < u.NumFields(); i++ {
			for _, x := range leafPaths(u.Field(i).Type()) {
				out = append(out, leafPath{"." + u.Field(i).Name() + x.path, x.typ})
			}
		}
		return out
	case *types.Array:
		var out []leafPath
		for _, x := range leafPaths(u.Elem()) {
			out = append(out, leafPath{"[]" + x.path, x.typ})
		}
		return out
	case *types.Tuple:
		var out []leafPath
		for i := 0; i < u.Len(); i++ {
			for _, x := range leafPaths(u.At(i).Type()) {
				out = append(out, leafPath{"." + itoa(i) + x.path, x.typ})
			}
		}
		return out
	}
	return []leafPath{{"", T}}
}

func (f *Flow) store(pl place, v Abs, in ssa.Instruction, how string) {
	for p, l := range v {
		k := pl.path + p
		c := pl.o.cells[k]
		if c == nil {
			c = newLeaf()
			pl.o.cells[k] = c
			f.changed = true
		}
		f.joinLeaf(c, l)
	}
	w := Write{pl, in, in.Parent(), how}
	if !f.writes[w] {
		f.writes[w] = true
		f.changed = true
	}
}

func (f *Flow) alloc(site ssa.Instruction, kind string) *AObj {
	v := ""
	if x, ok := site.(ssa.Value); ok {
		v = x.Name()
	}
	o := f.obj(kind + " " + v + " of " + site.Parent().String() + " " + relPos(site.Parent().Prog, site.Pos()))
	o.site = site
	return o
}

func ptrTo(o *AObj) Abs {
	l := newLeaf()
	l.pts[place{o, "", false, false}] = true
	return Abs{"": l}
}

func (f *Flow) places(v Abs) []place {
	var out []place
	for p := range v.leaf().pts {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.id != out[j].o.id {
			return out[i].o.id < out[j].o.id
		}
		if out[i].path != out[j].path {
			return out[i].path < out[j].path
		}
		return !out[i].shrunk && out[j].shrunk
	})
	return out
}

func (f *Flow) reach(fn *ssa.Function) {
	if fn == nil || f.reached[fn] || len(fn.Blocks) == 0 {
		return
	}
	f.reached[fn] = true
	f.order = append(f.order, fn)
	f.changed = true
}

// analyse runs from an entry to the fixed point.
func (f *Flow) analyse(entry *ssa.Function) {
	for i, p := range entry.Params {
		a := f.reg(p)
		for _, x := range leafPaths(p.Type()) {
			l := newLeaf()
			f.paramLeaf(l, i, x.typ)
			a[x.path] = l
		}
	}
	f.reach(entry)
	for n := 0; ; n++ {
		f.changed = false
		for i := 0; i < len(f.order); i++ {
			f.function(f.order[i])
		}
		if !f.changed {
			return
		}
		if n > 60 {
			panic(undecided("flow does not settle"))
		}
		checkDeadline()
	}
}

func (f *Flow) function(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f.instr(fn, in)
		}
	}
}

func (f *Flow) scalar(in ssa.Value, ops ...ssa.Value) {
	var as []Abs
	for _, o := range ops {
		as = append(as, f.get(o))
	}
	l := newLeaf()
	if f.arith != nil {
		if ls, ok := f.arith(in.(ssa.Instruction), as); ok {
			for _, s := range ls {
				l.labels[s] = true
			}
			f.join(f.reg(in), Abs{"": l})
			return
		}
	}
	for _, a := range as {
		for s := range a.labels() {
			l.labels[s] = true
		}
	}
	f.join(f.reg(in), Abs{"": l})
}

func (f *Flow) instr(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		f.join(f.reg(x), ptrTo(f.alloc(x, "local")))
	case *ssa.MakeSlice:
		f.join(f.reg(x), ptrTo(f.alloc(x, "slice")))
	case *ssa.MakeMap:
		f.join(f.reg(x), ptrTo(f.alloc(x, "map")))
	case *ssa.MakeChan:
		f.join(f.reg(x), ptrTo(f.alloc(x, "chan")))
	case *ssa.MakeInterface:
		f.join(f.reg(x), f.get(x.X))
	case *ssa.ChangeType:
		f.join(f.reg(x), f.get(x.X))
	case *ssa.ChangeInterface:
		f.join(f.reg(x), f.get(x.X))
	case *ssa.TypeAssert:
		a := f.get(x.X)
		if x.CommaOk {
			out := Abs{}
			for p, l := range a {
				out[".0"+p] = l
			}
			f.join(f.reg(x), out)
		} else {
			f.join(f.reg(x), a)
		}
	case *ssa.Convert:
		f.scalar(x, x.X)
	case *ssa.SliceToArrayPointer:
		f.join(f.reg(x), f.get(x.X))
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			f.join(f.get(g.FreeVars[i]), f.get(b))
		}
		l := newLeaf()
		l.fns[g] = nil
		f.join(f.reg(x), Abs{"": l})
	case *ssa.Phi:
		if f.arith != nil {
			if ls, ok := f.arith(x, nil); ok {
				// an induction variable has labels of its own
				l := newLeaf()
				for _, s := range ls {
					l.labels[s] = true
				}
				f.join(f.reg(x), Abs{"": l})
				return
			}
		}
		for _, e := range x.Edges {
			f.join(f.reg(x), f.get(e))
		}
	case *ssa.BinOp:
		f.scalar(x, x.X, x.Y)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ss, ok := f.varLoad(x); ok {
				for _, st := range ss {
					f.join(f.reg(x), f.get(st.Val))
				}
				return
			}
			T := x.Type()
			for _, pl := range f.places(f.get(x.X)) {
				f.join(f.reg(x), f.load(pl, T))
			}
			return
		}
		f.scalar(x, x.X)
	case *ssa.Field:
		s := under(x.X.Type()).(*types.Struct)
		f.join(f.reg(x), f.get(x.X).sub("."+s.Field(x.Field).Name()))
	case *ssa.FieldAddr:
		s := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
		f.step(x, x.X, "."+s.Field(x.Field).Name())
	case *ssa.IndexAddr:
		f.step(x, x.X, "[]")
	case *ssa.Index:
		f.join(f.reg(x), f.get(x.X).sub("[]"))
		if isString(x.X.Type()) {
			f.scalar(x, x.X)
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			f.scalar(x, x.X)
			return
		}
		T := under(x.X.Type()).(*types.Map).Elem()
		for _, pl := range f.places(f.get(x.X)) {
			v := f.load(place{pl.o, pl.path + "[]", false, false}, T)
			if x.CommaOk {
				out := Abs{}
				for p, l := range v {
					out[".0"+p] = l
				}
				v = out
			}
			f.join(f.reg(x), v)
		}
	case *ssa.MapUpdate:
		for _, pl := range f.places(f.get(x.Map)) {
			f.store(place{pl.o, pl.path + "[]", false, false}, f.get(x.Value), in, "map update")
			f.store(place{pl.o, pl.path + "[k]", false, false}, f.get(x.Key), in, "map update")
		}
	case *ssa.Range:
		f.join(f.reg(x), f.get(x.X))
	case *ssa.Next:
		if x.IsString {
			f.scalar(x, x.Iter)
			return
		}
		t := x.Type().(*types.Tuple)
		for _, pl := range f.places(f.get(x.Iter)) {
			out := Abs{}
			for p, l := range f.load(place{pl.o, pl.path + "[k]", false, false}, t.At(1).Type()) {
				out[".1"+p] = l
			}
			for p, l := range f.load(place{pl.o, pl.path + "[]", false, false}, t.At(2).Type()) {
				out[".2"+p] = l
			}
			f.join(f.reg(x), out)
		}
	case *ssa.Extract:
		f.join(f.reg(x), f.get(x.Tuple).sub("."+itoa(x.Index)))
	case *ssa.Slice:
		a := f.get(x.X)
		if isString(x.X.Type()) {
			f.scalar(x, x.X)
			return
		}
		out := Abs{"": newLeaf()}
		_, arr := under(x.X.Type()).(*types.Pointer)
		for p := range a.leaf().pts {
			if !arr && x.High != nil {
				p.shrunk = true
			}
			if x.High != nil || x.Low != nil {
				p.cut = true
			}
			out[""].pts[p] = true
		}
		f.join(f.reg(x), out)
	case *ssa.Store:
		for _, pl := range f.places(f.get(x.Addr)) {
			f.store(pl, f.get(x.Val), in, "store")
		}
	case *ssa.Return:
		r := f.rets[fn]
		if r == nil {
			r = Abs{}
			f.rets[fn] = r
		}
		if len(x.Results) == 1 {
			f.join(r, f.get(x.Results[0]))
		} else {
			for i, v := range x.Results {
				out := Abs{}
				for p, l := range f.get(v) {
					out["."+itoa(i)+p] = l
				}
				f.join(r, out)
			}
		}
	case *ssa.Call:
		f.call(fn, in, &x.Call, x)
	case *ssa.Defer:
		f.call(fn, in, &x.Call, nil)
	case *ssa.Go:
		f.call(fn, in, &x.Call, nil)
	}
}

func (f *Flow) step(x ssa.Value, base ssa.Value, step string) {
	l := newLeaf()
	for p := range f.get(base).leaf().pts {
		l.pts[place{p.o, p.path + step, false, false}] = true
	}
	f.join(f.reg(x), Abs{"": l})
}

func (f *Flow) call(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, res ssa.Value) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		f.builtin(in, b.Name(), c, res)
		return
	}
	var targets []*ssa.Function
	if c.IsInvoke() {
		// every repository type that flows here and has the method
		for _, g := range f.methods(c.Method) {
			targets = append(targets, g)
		}
	} else if g := c.StaticCallee(); g != nil {
		targets = []*ssa.Function{g}
	} else {
		for g := range f.get(c.Value).leaf().fns {
			targets = append(targets, g)
		}
		sort.Slice(targets, func(i, j int) bool { return targets[i].String() < targets[j].String() })
	}
	ext := len(targets) == 0
	for _, g := range targets {
		if len(g.Blocks) == 0 || g.Pkg != nil && !P.inRep[g.Pkg] {
			ext = true
			f.external(in, g, c, res)
			continue
		}
		f.reach(g)
		args := c.Args
		off := 0
		if c.IsInvoke() {
			off = 1
			f.join(f.reg(g.Params[0]), f.get(c.Value))
		}
		for i, a := range args {
			if i+off < len(g.Params) {
				f.join(f.reg(g.Params[i+off]), f.get(a))
			}
		}
		if res != nil && f.rets[g] != nil {
			f.join(f.reg(res), f.rets[g])
		}
	}
	if ext && len(targets) == 0 {
		f.external(in, nil, c, res)
	}
}

func (f *Flow) methods(m *types.Func) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range P.funcs {
		if fn.Signature.Recv() != nil && fn.Name() == m.Name() {
			out = append(out, fn)
		}
	}
	return out
}

func (f *Flow) elemsOf(T types.Type) types.Type {
	switch u := under(T).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return f.elemsOf(u.Elem())
	}
	return nil
}

func (f *Flow) builtin(in ssa.Instruction, name string, c *ssa.CallCommon, res ssa.Value) {
	switch name {
	case "append":
		base, T := f.get(c.Args[0]), f.elemsOf(c.Args[0].Type())
		n := f.alloc(in, "appended")
		out := newLeaf()
		out.pts[place{n, "", false, false}] = true
		var add Abs = Abs{}
		if isString(c.Args[1].Type()) {
			add = Abs{"": f.get(c.Args[1]).leaf()}
		} else {
			for _, pl := range f.places(f.get(c.Args[1])) {
				f.merge(add, f.load(place{pl.o, pl.path + "[]", false, false}, T))
			}
		}
		for _, pl := range f.places(base) {
			f.storeQuiet(place{n, "[]", false, false}, f.load(place{pl.o, pl.path + "[]", false, false}, T))
			// the base keeps its place when it has room
			out.pts[place{pl.o, pl.path, false, false}] = true
			if pl.shrunk {
				f.store(place{pl.o, pl.path + "[]", false, false}, add, in, "append over existing elements")
			} else {
				f.storeQuiet(place{pl.o, pl.path + "[]", false, false}, add)
			}
		}
		f.storeQuiet(place{n, "[]", false, false}, add)
		f.join(f.reg(res), Abs{"": out})
	case "copy":
		T := f.elemsOf(c.Args[0].Type())
		for _, d := range f.places(f.get(c.Args[0])) {
			for _, s := range f.places(f.get(c.Args[1])) {
				f.store(place{d.o, d.path + "[]", false, false}, f.load(place{s.o, s.path + "[]", false, false}, T), in, "copy")
			}
		}
	case "delete":
		for _, d := range f.places(f.get(c.Args[0])) {
			f.store(place{d.o, d.path + "[]", false, false}, Abs{}, in, "delete")
		}
	case "len", "cap", "real", "imag", "min", "max", "complex":
		if res != nil && name != "len" && name != "cap" {
			f.scalar(res, c.Args...)
		}
		if res != nil && f.arith != nil && (name == "len" || name == "cap") {
			f.scalar(res)
		}
	}
}

// storeQuiet: contents change without an observable write (spare capacity)
func (f *Flow) storeQuiet(pl place, v Abs) {
	for p, l := range v {
		k := pl.path + p
		c := pl.o.cells[k]
		if c == nil {
			c = newLeaf()
			pl.o.cells[k] = c
			f.changed = true
		}
		f.joinLeaf(c, l)
	}
}

// external: a library call. Its results carry the labels of its arguments;
// functions handed over are called; sorting permutes its argument in place.
func (f *Flow) external(in ssa.Instruction, g *ssa.Function, c *ssa.CallCommon, res ssa.Value) {
	name := ""
	if g != nil {
		name = g.String()
	} else if c.IsInvoke() {
		name = c.Method.FullName()
	}
	all := c.Args
	if c.IsInvoke() {
		all = append([]ssa.Value{c.Value}, c.Args...)
	}
	l := newLeaf()
	for _, a := range all {
		v := f.get(a)
		for s := range v.labels() {
			l.labels[s] = true
		}
		for fnv := range v.leaf().fns {
			if len(fnv.Blocks) > 0 && (fnv.Pkg == nil || P.inRep[fnv.Pkg]) {
				f.reach(fnv)
				f.indir[fnv] = true
			}
		}
		if _, ok := under(a.Type()).(*types.Interface); ok {
			if mi, ok := a.(*ssa.MakeInterface); ok {
				f.handedOver(mi, v)
			}
		}
	}
	if g != nil && chains(g) && len(all) > 0 {
		// go3d: what returns its receiver has worked on it in place
		for _, pl := range f.places(f.get(all[0])) {
			f.store(place{pl.o, pl.path + "[]", false, false}, Abs{}, in, name)
		}
		if res != nil {
			f.join(f.reg(res), f.get(all[0]))
		}
		return
	}
	if writesArg(name) && len(all) > 0 {
		for _, a := range all {
			for _, pl := range f.places(f.get(a)) {
				f.store(place{pl.o, pl.path + "[]", false, false}, Abs{}, in, name)
			}
		}
	}
	if res != nil {
		if f.arith != nil {
			var as []Abs
			for _, a := range all {
				as = append(as, f.get(a))
			}
			if ls, ok := f.arith(in, as); ok {
				l.labels = map[string]bool{}
				for _, s := range ls {
					l.labels[s] = true
				}
			}
		}
		o := f.alloc(in, "result of "+name)
		for _, x := range leafPaths(res.Type()) {
			r := newLeaf()
			for s := range l.labels {
				r.labels[s] = true
			}
			switch under(x.typ).(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
				r.pts[place{o, "", false, false}] = true
			}
			f.join(f.reg(res), Abs{x.path: r})
		}
	}
}

// handedOver: library code may call the methods of a value given to it as an interface
func (f *Flow) handedOver(mi *ssa.MakeInterface, v Abs) {
	T := mi.X.Type()
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok {
		return
	}
	it := mi.Type().Underlying().(*types.Interface)
	for _, fn := range P.funcs {
		r := fn.Signature.Recv()
		if r == nil {
			continue
		}
		rt := r.Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if rt != types.Type(n) {
			continue
		}
		isM := fn.Name() == "String" || fn.Name() == "Error"
		for i := 0; i < it.NumMethods(); i++ {
			isM = isM || it.Method(i).Name() == fn.Name()
		}
		if isM {
			f.reach(fn)
			f.indir[fn] = true
			a := v
			if _, ok := mi.X.Type().(*types.Pointer); ok {
				if _, ok := r.Type().(*types.Pointer); !ok {
					a = Abs{}
					for _, pl := range f.places(v) {
						f.merge(a, f.load(pl, rt))
					}
				}
			}
			f.join(f.reg(fn.Params[0]), a)
		}
	}
}

func writesArg(name string) bool {
	switch name {
	case "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort", "slices.SortFunc", "slices.Reverse", "math/rand.Shuffle",
		"encoding/json.Unmarshal", "encoding/binary.Read", "io.ReadFull", "io.ReadAtLeast":
		return true
	}
	return false
}

// chains: a method of the vector library that changes its receiver and returns
// it
func chains(g *ssa.Function) bool {
	r := g.Signature.Recv()
	if r == nil || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/ungerik/go3d/") || g.Signature.Results().Len() != 1 {
		return false
	}
	_, ptr := r.Type().(*types.Pointer)
	return ptr && types.Identical(r.Type(), g.Signature.Results().At(0).Type())
}
