package main

// Values and abstract memory of the evaluator.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Object struct {
	id   int
	name string
	typ  types.Type // type of the content (slice backing: slice type)
	init *Term      // content when not in the memory map
	tag  string
	ext  bool // reachable by the caller / the environment
	glob *ssa.Global
	site ssa.Instruction
}

type Step struct {
	field int
	idx   *Term // nil: field step
}
type Loc struct {
	obj  *Object
	path []Step
}
type Ptr struct{ Loc }
type SliceV struct {
	Loc
	lo, n *Term
}
type MapV struct{ Loc }
type FuncV struct {
	fn   *ssa.Function
	bind []Val
}
type IfaceV struct {
	typ types.Type
	val Val
}
type TupleV []Val
type RangeV struct {
	str  bool
	x    *Term
	iter *Object // iteration counter cell
}

func (l Loc) with(s Step) Loc {
	p := make([]Step, len(l.path)+1)
	copy(p, l.path)
	p[len(l.path)] = s
	return Loc{l.obj, p}
}
func (l Loc) String() string {
	s := l.obj.name
	for _, p := range l.path {
		if p.idx != nil {
			s += "[" + p.idx.String() + "]"
		} else {
			s += fmt.Sprintf(".%d", p.field)
		}
	}
	return s
}
func sameLoc(a, b Loc) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

type State struct {
	mem map[*Object]*Term
	fwd map[*Object]Loc
}

func newState() *State { return &State{mem: map[*Object]*Term{}, fwd: map[*Object]Loc{}} }
func (s *State) clone() *State {
	n := &State{mem: make(map[*Object]*Term, len(s.mem)), fwd: s.fwd}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}
func (s *State) get(o *Object) *Term {
	if t, ok := s.mem[o]; ok {
		return t
	}
	if o.init == nil {
		panic(undecided("object " + o.name + " has no content here"))
	}
	return o.init
}
func (s *State) resolve(l Loc) Loc {
	for i := 0; i < 8; i++ {
		f, ok := s.fwd[l.obj]
		if !ok {
			return l
		}
		l = Loc{f.obj, append(append([]Step{}, f.path...), l.path...)}
	}
	return l
}

// ---------- types ----------

func under(t types.Type) types.Type { return t.Underlying() }

func tname(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Alias:
		return tname(types.Unalias(x))
	}
	if _, ok := t.(*types.Tuple); ok {
		return "tuple"
	}
	return strings.ReplaceAll(types.TypeString(t, func(*types.Package) string { return "" }), " ", "")
}

func sortOf(t types.Type) (Sort, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SNum, true
		case u.Info()&types.IsFloat != 0:
			return SNum, false
		case u.Info()&types.IsBoolean != 0:
			return SBool, false
		case u.Info()&types.IsString != 0:
			return SStr, false
		}
		if u.Kind() == types.UnsafePointer {
			return SNum, true
		}
		return SOther, false
	case *types.Struct:
		return STup, false
	case *types.Array:
		if u.Len() <= 32 {
			return STup, false
		}
		return SSeq, false
	case *types.Slice:
		return SSeq, false
	case *types.Pointer:
		return SNum, true
	}
	return SOther, false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// symbol of a Go type
func symOf(name string, t types.Type) *Term {
	s, i := sortOf(t)
	if s == SBool {
		return bHolds(mkVar(name, SBool, false))
	}
	if s == STup {
		return mkVar(name, s, false)
	}
	return mkVar(name, s, i)
}

var tNil = intern(&Term{op: OFn, sort: SOther, name: "nil"})
var tMap0 = intern(&Term{op: OFn, sort: SOther, name: "map0"})

func zeroOf(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		s, _ := sortOf(t)
		switch s {
		case SNum:
			return tZero
		case SBool:
			return tFalse
		case SStr:
			return mkStr("")
		}
		return tNil
	case *types.Struct:
		a := make([]*Term, u.NumFields())
		for i := range a {
			a[i] = zeroOf(u.Field(i).Type())
		}
		return mkTup(tname(t), a...)
	case *types.Array:
		if u.Len() <= 32 {
			a := make([]*Term, u.Len())
			for i := range a {
				a[i] = zeroOf(u.Elem())
			}
			return mkTup(tname(t), a...)
		}
		return mkFill(numInt(u.Len()), zeroOf(u.Elem()))
	case *types.Slice:
		return tEmpty
	case *types.Pointer:
		return tZero
	case *types.Map:
		return tMap0
	}
	return tNil
}

func fieldOf(t types.Type, i int) types.Type {
	switch u := under(t).(type) {
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	}
	panic(undecided("field of " + t.String()))
}
func elemOf(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	panic(undecided("element of " + t.String()))
}

func (s Step) typ(t types.Type) types.Type {
	if s.idx != nil {
		return elemOf(t)
	}
	return fieldOf(t, s.field)
}
func (l Loc) typ() types.Type {
	t := l.obj.typ
	for _, s := range l.path {
		t = s.typ(t)
	}
	return t
}

func getField(t *Term, T types.Type, i int) *Term {
	s, n := sortOf(fieldOf(T, i))
	if s == SBool {
		return boolField(t, T, i)
	}
	return mkField(t, tname(T), i, s, n)
}
func boolField(t *Term, T types.Type, i int) *Term {
	if t.op == OTup {
		return t.args[i]
	}
	if t.op == OIte {
		return mkIteAtom(t.args[0], boolField(t.args[1], T, i), boolField(t.args[2], T, i))
	}
	return bHolds(mkFn(fmt.Sprintf("field%d:%s", i, tname(T)), SBool, false, t))
}

func selElem(t *Term, T types.Type, idx *Term) *Term {
	if a, ok := under(T).(*types.Array); ok && a.Len() <= 32 {
		if k, ok := isConstInt(idx); ok {
			if k < 0 || k >= a.Len() {
				return mkFn("outofrange", sortOnly(a.Elem()), false)
			}
			return getField(t, T, int(k))
		}
		r := getField(t, T, int(a.Len()-1))
		for k := a.Len() - 2; k >= 0; k-- {
			r = mkIte(bEq(idx, numInt(k)), getField(t, T, int(k)), r)
		}
		return r
	}
	s, n := sortOf(elemOf(T))
	r := mkSelS(t, idx, s, n)
	return r
}
func sortOnly(t types.Type) Sort { s, _ := sortOf(t); return s }

// mkSelS: like mkSel but boolean elements become decisions
func mkSelS(t, idx *Term, s Sort, isInt bool) *Term {
	r := mkSel(t, idx, s, isInt)
	if s == SBool {
		return boolOf(r)
	}
	return r
}

func (s Step) sel(t *Term, T types.Type) *Term {
	if s.idx != nil {
		return selElem(t, T, s.idx)
	}
	return getField(t, T, s.field)
}

func tupOf(t *Term, T types.Type) []*Term {
	n := 0
	switch u := under(T).(type) {
	case *types.Struct:
		n = u.NumFields()
	case *types.Array:
		n = int(u.Len())
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = getField(t, T, i)
	}
	return out
}

func update(t *Term, T types.Type, path []Step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx == nil {
		if len(path) == 1 && unread(T, s.field) {
			return t
		}
		f := tupOf(t, T)
		f[s.field] = update(f[s.field], fieldOf(T, s.field), path[1:], v)
		return mkTup(tname(T), f...)
	}
	if a, ok := under(T).(*types.Array); ok && a.Len() <= 32 {
		f := tupOf(t, T)
		if k, ok := isConstInt(s.idx); ok {
			if k < 0 || k >= a.Len() {
				return t
			}
			f[k] = update(f[k], a.Elem(), path[1:], v)
		} else {
			for k := range f {
				f[k] = mkIte(bEq(s.idx, numInt(int64(k))), update(f[k], a.Elem(), path[1:], v), f[k])
			}
		}
		return mkTup(tname(T), f...)
	}
	el := elemOf(T)
	var nv *Term
	if len(path) == 1 {
		nv = v
	} else {
		nv = update(selElem(t, T, s.idx), el, path[1:], v)
	}
	return mkStore(t, s.idx, nv)
}

// ---------- constants ----------

var piR = func() *big.Rat {
	r, _ := new(big.Rat).SetString("3.14159265358979323846264338327950288419716939937510582097494459")
	return r
}()

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return bConst(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Val(constant.ToInt(c.Value)).(int64); ok {
			return numInt(i)
		}
		r, _ := new(big.Rat).SetString(c.Value.ExactString())
		return numRat(r)
	case constant.Float:
		var r *big.Rat
		switch x := constant.Val(c.Value).(type) {
		case *big.Rat:
			r = x
		case *big.Float:
			r, _ = x.Rat(nil)
		}
		if r == nil {
			panic(undecided("constant " + c.String()))
		}
		return constRat(r)
	}
	panic(undecided("constant " + c.String()))
}

func constRat(r *big.Rat) *Term {
	// multiples of pi
	f, _ := r.Float64()
	if !r.IsInt() {
		for _, n := range []int64{1, 2, 3, 4, 6, 8, 12, 180, 360} {
			m := math.Round(f * float64(n) / math.Pi)
			if m != 0 && math.Abs(m) <= 720 {
				q := new(big.Rat).Mul(piR, big.NewRat(int64(m), n))
				d := new(big.Rat).Sub(r, q)
				d.Quo(d, q)
				d.Abs(d)
				if d.Cmp(big.NewRat(1, 1000000000000000)) < 0 {
					return tScale(tPI, big.NewRat(int64(m), n))
				}
			}
		}
	}
	// the value a float64 holds
	if !r.IsInt() {
		if g, _ := r.Float64(); !math.IsInf(g, 0) {
			r = new(big.Rat).SetFloat64(g)
		}
	}
	return numRat(r)
}

// ---------- subst over values ----------

func substVal(v Val, rw func(*Term) *Term) Val {
	switch x := v.(type) {
	case *Term:
		return rw(x)
	case *Ptr:
		return &Ptr{substLoc(x.Loc, rw)}
	case *SliceV:
		return &SliceV{substLoc(x.Loc, rw), rw(x.lo), rw(x.n)}
	case *MapV:
		return &MapV{substLoc(x.Loc, rw)}
	case TupleV:
		o := make(TupleV, len(x))
		for i := range x {
			o[i] = substVal(x[i], rw)
		}
		return o
	case *IfaceV:
		return &IfaceV{x.typ, substVal(x.val, rw)}
	case *FuncV:
		b := make([]Val, len(x.bind))
		for i := range b {
			b[i] = substVal(x.bind[i], rw)
		}
		return &FuncV{x.fn, b}
	case *RangeV:
		return &RangeV{x.str, rw(x.x), x.iter}
	}
	return v
}
func substLoc(l Loc, rw func(*Term) *Term) Loc {
	p := make([]Step, len(l.path))
	for i, s := range l.path {
		p[i] = s
		if s.idx != nil {
			p[i].idx = rw(s.idx)
		}
	}
	return Loc{l.obj, p}
}

func sortedObjs(m map[*Object]*Term) []*Object {
	out := make([]*Object, 0, len(m))
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
