package main

// Calls: expansion of repository functions and models of library functions.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke:" + c.Method.FullName()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return "dynamic"
}

func (e *Eval) callInstr(f *Frame, st *State, x ssa.Value, c *ssa.CallCommon, in ssa.Instruction) bool {
	var args []Val
	for _, a := range c.Args {
		if b, ok := a.(*ssa.Builtin); ok {
			_ = b
			continue
		}
		args = append(args, e.operand(f, st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		f.env[x] = e.builtin(f, st, b.Name(), args, c, in)
		return b.Name() != "panic"
	}
	setRes := func(vals []Val) {
		switch len(vals) {
		case 0:
		case 1:
			f.env[x] = vals[0]
		default:
			f.env[x] = TupleV(vals)
		}
	}
	if c.IsInvoke() {
		recv := e.operand(f, st, c.Value)
		if iv, ok := recv.(*IfaceV); ok {
			if m := f.fn.Prog.LookupMethod(iv.typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				return e.callFn(f, st, m, append([]Val{iv.val}, args...), nil, in, setRes)
			}
		}
		setRes(e.external(f, st, "invoke:"+c.Method.FullName(), c.Signature(), append([]Val{recv}, args...), in))
		return true
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = e.operand(f, st, mc).(*FuncV).bind
		}
		return e.callFn(f, st, fn, args, binds, in, setRes)
	}
	// call through a value
	v := e.operand(f, st, c.Value)
	if t, ok := v.(*Term); ok {
		v = e.thaw(t)
	}
	if fv, ok := v.(*FuncV); ok {
		return e.callFn(f, st, fv.fn, args, fv.bind, in, setRes)
	}
	t := e.toTerm(st, v)
	if t.op == OIte {
		// all alternatives known: expand each under its condition
		leaves := map[*Term]bool{}
		okAll := true
		var walk func(x *Term)
		walk = func(x *Term) {
			if x.op == OIte {
				walk(x.args[1])
				walk(x.args[2])
				return
			}
			leaves[x] = true
			if _, ok := e.funcs[x]; !ok {
				okAll = false
			}
		}
		walk(t)
		if okAll && len(leaves) <= 24 {
			var conds []*Term
			var sts []*State
			var cols [][]Val
			var ls []*Term
			for l := range leaves {
				ls = append(ls, l)
			}
			sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
			total := tFalse
			for _, l := range ls {
				cnd := selects(t, l)
				fv := e.funcs[l]
				s2 := st.clone()
				e.pushCond(cnd)
				var res []Val
				alive := e.callFn(f, s2, fv.fn, args, fv.bind, in, func(v []Val) { res = v })
				e.popCond()
				if !alive {
					continue
				}
				conds = append(conds, cnd)
				sts = append(sts, s2)
				cols = append(cols, res)
				total = bOr(total, cnd)
			}
			if len(conds) == 0 {
				return false
			}
			m := e.mergeStates(conds, sts, total)
			var out []Val
			if len(cols[0]) > 0 {
				for i := range cols[0] {
					col := make([]Val, len(cols))
					for j := range cols {
						col[j] = cols[j][i]
					}
					out = append(out, e.mergeVals(conds, col, sts, m, total, c.Signature().Results().At(i).Type()))
				}
			}
			st.mem, st.fwd = m.mem, m.fwd
			setRes(out)
			return true
		}
	}
	setRes(e.externalNamed(f, st, "dyncall", "dynamic", c.Signature(), append([]Val{v}, args...), in, t))
	if e.onDyn != nil {
		ts := make([]*Term, len(args))
		for i, a := range args {
			ts[i] = e.toTerm(st, a)
		}
		e.onDyn(st, t, ts)
	}
	return true
}

func unusedParam(fn *ssa.Function, i int) bool {
	for _, r := range *fn.Params[i].Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return false
		}
	}
	return true
}

func selects(t, leaf *Term) *Term {
	if t == leaf {
		return tTrue
	}
	if t.op != OIte {
		return tFalse
	}
	return mkIteAtom(t.args[0], selects(t.args[1], leaf), selects(t.args[2], leaf))
}

func (e *Eval) callFn(f *Frame, st *State, fn *ssa.Function, args, binds []Val, in ssa.Instruction, setRes func([]Val)) bool {
	for _, g := range e.stack {
		if g == fn {
			setRes(e.externalNamed(f, st, "recurse", fn.String(), fn.Signature, args, in, nil))
			return true
		}
	}
	if e.forbid != nil && e.rec == 0 {
		c := tTrue
		for _, x := range e.conds {
			c = bAnd(c, x)
		}
		if c != tFalse {
			e.forbid(fn, c, in)
		}
	}
	if g := e.stubs[fn]; g != nil {
		setRes(g(f, st, args, in))
		return true
	}
	if e.pureFn[fn] {
		ts := make([]*Term, len(args))
		for i, a := range args {
			if len(fn.Blocks) > 0 && unusedParam(fn, i) {
				ts[i] = tZero
			} else if p, ok := a.(*Ptr); ok {
				ts[i] = e.load(st, p.Loc)
			} else {
				ts[i] = e.toTerm(st, a)
			}
		}
		var out []Val
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			T := fn.Signature.Results().At(i).Type()
			s, n := sortOf(T)
			t := mkFn("uf:"+shortName(fn.String())+"."+itoa(i), s, n, ts...)
			ufFns[t.name] = ufFn{fn, i}
			if s == SBool {
				t = bHolds(t)
			}
			out = append(out, e.thaw(t))
		}
		setRes(out)
		return true
	}
	if g := e.insteadName[fn.String()]; g != nil {
		fn = g
	} else if e.isOpaque(fn) {
		if !P.inRep[fn.Pkg] || len(fn.Blocks) == 0 {
			setRes(e.external(f, st, fn.String(), fn.Signature, args, in))
		} else {
			setRes(e.externalNamed(f, st, "call", fn.String(), fn.Signature, args, in, nil))
		}
		return true
	}
	if g := e.instead[fn]; g != nil {
		fn = g
	}
	vals, out := e.call(fn, args, binds, st.clone())
	if out == nil {
		return false
	}
	st.mem, st.fwd = out.mem, out.fwd
	setRes(vals)
	return true
}

func (e *Eval) builtin(f *Frame, st *State, name string, args []Val, c *ssa.CallCommon, in ssa.Instruction) Val {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if name == "len" {
				return x.n
			}
		case *MapV:
			return mkMapLen(e.load(st, x.Loc))
		case *Term:
			if _, ok := under(c.Args[0].Type()).(*types.Map); ok {
				return mkMapLen(x)
			}
			if name == "len" {
				return mkLen(x)
			}
		}
		return mkFnN(name, true, e.toTerm(st, args[0]))
	case "append":
		T := c.Args[0].Type()
		s := e.asSlice(st, args[0], T)
		var items *Term
		if len(args) < 2 {
			return s
		}
		if isString(c.Args[1].Type()) {
			items = mkFn("bytes", SSeq, false, e.toTerm(st, args[1]))
		} else {
			items = e.toTerm(st, args[1])
		}
		n2 := mkLen(items)
		base := e.sliceTerm(st, s)
		l := st.resolve(s.Loc)
		content := e.load(st, l)
		room := tSub(mkLen(content), tAdd(s.lo, s.n))
		if rc, ok := isConstInt(tSub(room, n2)); ok && rc >= 0 && room != tZero {
			// the elements behind the slice are overwritten in place
			nc := mkCat(mkSub(content, tZero, tAdd(s.lo, s.n)), items, mkSub(content, tAdd(s.lo, s.n, n2), mkLen(content)))
			if l.obj.ext {
				e.event(&Event{kind: "extstore", fn: f.fn, instr: in, name: l.String(), vals: []Val{&Ptr{l}}, args: []*Term{nc}})
			}
			e.storeTerm(st, l, nc)
			return &SliceV{s.Loc, s.lo, tAdd(s.n, n2)}
		}
		if room != tZero && l.obj.ext {
			e.event(&Event{kind: "extappend", fn: f.fn, instr: in, name: l.String(), vals: []Val{&Ptr{l}}, args: []*Term{room, n2}})
		}
		return e.freshSlice(st, "append", T, mkCat(base, items))
	case "copy":
		d := e.asSlice(st, args[0], c.Args[0].Type())
		var src *Term
		if isString(c.Args[1].Type()) {
			src = mkFn("bytes", SSeq, false, e.toTerm(st, args[1]))
		} else {
			src = e.toTerm(st, args[1])
		}
		m := mkLen(src)
		n := d.n
		l := st.resolve(d.Loc)
		content := e.load(st, l)
		var nc *Term
		into := func(src, n *Term) *Term {
			return mkCat(mkSub(content, tZero, d.lo), src, mkSub(content, tAdd(d.lo, n), mkLen(content)))
		}
		if n != m {
			dlt := tSub(n, m)
			if dc, ok := constOf(dlt); ok {
				if dc.Sign() < 0 {
					src = mkSub(src, tZero, n)
				} else {
					n = m
				}
			} else if provablyNonNeg(dlt) {
				n = m
			} else if provablyNonNeg(tNeg(dlt)) {
				src = mkSub(src, tZero, n)
			} else {
				nc = mkIte(bLt(n, m), into(mkSub(src, tZero, n), n), into(src, m))
				n = mkMin(n, m)
			}
		}
		if nc == nil {
			nc = into(src, n)
		}
		if l.obj.ext {
			e.event(&Event{kind: "extstore", fn: f.fn, instr: in, name: l.String(), vals: []Val{&Ptr{l}}, args: []*Term{nc}})
		}
		e.storeTerm(st, l, nc)
		return n
	case "delete":
		m := e.mapOf(st, args[0], c.Args[0].Type())
		k := e.toTerm(st, args[1])
		e.event(&Event{kind: "mapdelete", fn: f.fn, instr: in, args: []*Term{k, e.load(st, m.Loc)}, vals: []Val{m}})
		e.storeTerm(st, m.Loc, mkFn("mapdel", SOther, false, e.load(st, m.Loc), k))
		return nil
	case "panic":
		e.event(&Event{kind: "panic", fn: f.fn, instr: in})
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := e.toTerm(st, args[0])
		for _, a := range args[1:] {
			t := e.toTerm(st, a)
			if name == "min" {
				r = mkMin(r, t)
			} else {
				r = mkMax(r, t)
			}
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		if m, ok := args[0].(*MapV); ok {
			e.storeTerm(st, m.Loc, tMap0)
			return nil
		}
	case "recover":
		return tNil
	case "close":
		return nil
	}
	panic(undecided("builtin " + name))
}

func mkMin(a, b *Term) *Term { return mkIte(bLt(b, a), b, a) }
func mkMax(a, b *Term) *Term { return mkIte(bLt(a, b), b, a) }

func mkMapLen(m *Term) *Term {
	if m == tMap0 || m == tNil {
		return tZero
	}
	return mkLen(mkFn("mapkeys", SSeq, false, m))
}

// resultVals makes result values for an uninterpreted call.
func (e *Eval) resultVals(name string, sig *types.Signature, args []*Term, unique bool) []Val {
	var out []Val
	if unique {
		name = e.fresh(name)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		T := sig.Results().At(i).Type()
		s, n := sortOf(T)
		nm := name
		if sig.Results().Len() > 1 {
			nm = fmt.Sprintf("%s.%d", name, i)
		}
		t := mkFn("opq:"+nm, s, n, args...)
		if s == SBool {
			t = bHolds(t)
		}
		out = append(out, t)
	}
	return out
}

// external evaluates a function without a body here.
func (e *Eval) external(f *Frame, st *State, name string, sig *types.Signature, args []Val, in ssa.Instruction) []Val {
	T := func(i int) *Term { return e.toTerm(st, args[i]) }
	if m, ok := mathModels[name]; ok {
		ts := make([]*Term, len(args))
		for i := range args {
			ts[i] = T(i)
		}
		if r := m(ts); r != nil {
			return r
		}
	}
	if r, ok := e.library(f, st, name, sig, args, in); ok {
		return r
	}
	return e.externalNamed(f, st, "call", name, sig, args, in, nil)
}

var mathModels = map[string]func(a []*Term) []Val{
	"math.Sqrt":   func(a []*Term) []Val { return []Val{mkSqrt(a[0])} },
	"math.Abs":    func(a []*Term) []Val { return []Val{mkAbs(a[0])} },
	"math.Sin":    func(a []*Term) []Val { return []Val{mkTrig(false, a[0])} },
	"math.Cos":    func(a []*Term) []Val { return []Val{mkTrig(true, a[0])} },
	"math.Sincos": func(a []*Term) []Val { return []Val{mkTrig(false, a[0]), mkTrig(true, a[0])} },
	"math.Tan":    func(a []*Term) []Val { return []Val{tDiv(mkTrig(false, a[0]), mkTrig(true, a[0]))} },
	"math.Min":    func(a []*Term) []Val { return []Val{mkMin(a[0], a[1])} },
	"math.Max":    func(a []*Term) []Val { return []Val{mkMax(a[0], a[1])} },
	"math.Hypot":  func(a []*Term) []Val { return []Val{mkSqrt(tAdd(tMul(a[0], a[0]), tMul(a[1], a[1])))} },
	"math.FMA":    func(a []*Term) []Val { return []Val{tAdd(tMul(a[0], a[1]), a[2])} },
	"math.Pow": func(a []*Term) []Val {
		if k, ok := isConstInt(a[1]); ok && k >= -8 && k <= 8 {
			return []Val{tPow(a[0], int(k))}
		}
		if c, ok := constOf(a[1]); ok && c.RatString() == "1/2" {
			return []Val{mkSqrt(a[0])}
		}
		return nil
	},
	"math.Inf": func(a []*Term) []Val {
		if k, ok := isConstInt(a[0]); ok {
			if k >= 0 {
				return []Val{tInf}
			}
			return []Val{tNeg(tInf)}
		}
		return nil
	},
	"math.Nextafter": func(a []*Term) []Val {
		x, ok := constOf(a[0])
		y, ok2 := constOf(a[1])
		if ok && ok2 {
			fx, _ := x.Float64()
			fy, _ := y.Float64()
			return []Val{floatTerm(nextafter(fx, fy))}
		}
		return nil
	},
	"math.Floor": func(a []*Term) []Val { return []Val{mkFnN("floor", true, a[0])} },
	"math.Ceil":  func(a []*Term) []Val { return []Val{mkFnN("ceil", true, a[0])} },
	"math.Trunc": func(a []*Term) []Val { return []Val{mkTrunc(a[0])} },
	"math.Atan2": func(a []*Term) []Val { return []Val{mkFnN("atan2", false, a[0], a[1])} },
	"math.Acos":  func(a []*Term) []Val { return []Val{mkFnN("acos", false, a[0])} },
	"math.Asin":  func(a []*Term) []Val { return []Val{mkFnN("asin", false, a[0])} },
	"math.Atan":  func(a []*Term) []Val { return []Val{mkFnN("atan", false, a[0])} },
	"math.Mod":   func(a []*Term) []Val { return []Val{mkFnN("fmod", false, a[0], a[1])} },
	"math.IsNaN": func(a []*Term) []Val { return []Val{tFalse} },
	"math.IsInf": func(a []*Term) []Val {
		if s, ok := isConstInt(a[1]); ok && (a[0] == tInf || a[0] == tNeg(tInf)) {
			return []Val{bConst(s == 0 || (s > 0) == (a[0] == tInf))}
		}
		return []Val{bHolds(mkFn("isinf", SBool, false, a[0]))}
	},
	"math.Signbit": func(a []*Term) []Val { return []Val{bLt0(a[0])} },
}

var tInf = mkVar("∞", SNum, false)

// externalNamed: an uninterpreted call; everything reachable from the
// arguments may change.
func (e *Eval) externalNamed(f *Frame, st *State, kind, name string, sig *types.Signature, args []Val, in ssa.Instruction, fnTerm *Term) []Val {
	ev := &Event{kind: kind, fn: f.fn, instr: in, name: name, vals: args}
	for _, a := range args {
		ev.args = append(ev.args, e.toTerm(st, a))
	}
	if e.rec == 0 {
		ev.st = st.clone()
	}
	ev.res = fnTerm
	e.event(ev)
	res := e.resultVals(shortName(name), sig, ev.args, true)
	ev.vals = append(append([]Val{}, args...), res...)
	if readsOnly(name) {
		for _, a := range args {
			p, ok := a.(*Ptr)
			if !ok {
				continue
			}
			T := p.Loc.typ()
			if _, ok := under(T).(*types.Struct); !ok {
				continue
			}
			for _, f := range []string{"Accessors", "BufferViews", "Buffers"} {
				if i := fieldIndex(T, f); i >= 0 {
					l := Loc{p.Loc.obj, append(append([]Step{}, p.Loc.path...), Step{field: i})}
					e.storeTerm(st, l, mkFn(e.fresh("after:"+f), SSeq, false))
				}
			}
		}
		return res
	}
	seen := map[*Object]bool{}
	for _, a := range args {
		e.havocVal(st, a, seen)
	}
	return res
}

func shortName(n string) string {
	n = strings.ReplaceAll(n, "geGoMetry/", "")
	return n
}

// readsOnly: library calls that keep their data arguments, and of the document
// change only the buffers and accessors, which no rule reads.
func readsOnly(name string) bool {
	return strings.HasPrefix(name, "github.com/qmuntal/gltf/modeler.Write")
}

type ufFn struct {
	fn *ssa.Function
	i  int
}

var ufFns = map[string]ufFn{}
var ufMemo = map[*Term]*Term{}

// ufValue: the result a function has for constant texts
func init() { ufValue = ufValueOf }

var ufValue func(name string, args []*Term) *Term

func ufValueOf(name string, args []*Term) *Term {
	u, ok := ufFns[name]
	if !ok || len(args) == 0 {
		return nil
	}
	for _, a := range args {
		if a.op != OStrC {
			return nil
		}
	}
	key := mkFn(name, SOther, false, args...)
	if r, ok := ufMemo[key]; ok {
		return r
	}
	ufMemo[key] = nil
	e := newEval()
	var vs []Val
	for _, a := range args {
		vs = append(vs, a)
	}
	r := evalFn(e, u.fn, vs, newState())
	if r.err != "" || u.i >= len(r.res) {
		return nil
	}
	t := r.term(r.res[u.i])
	if t != tTrue && t != tFalse && t.op != OStrC {
		return nil
	}
	ufMemo[key] = t
	return t
}

// keptLen: length of the unknown contents an array has after a call
var keptLen = map[*Term]*Term{}

func (e *Eval) havocVal(st *State, v Val, seen map[*Object]bool) {
	switch x := v.(type) {
	case *Ptr:
		e.havocObj(st, x.obj, seen)
	case *SliceV:
		l := st.resolve(x.Loc)
		o := l.obj
		_, back := under(o.typ).(*types.Slice)
		back = back && len(l.path) == 0 && !seen[o]
		old := st.getOr(o)
		e.havocObj(st, o, seen)
		if nt := st.mem[o]; back && nt != nil && nt != old && nt.op == OVar {
			// the called function cannot change the extent of the array
			keptLen[nt] = mkLen(old)
		}
	case *MapV:
		e.havocObj(st, st.resolve(x.Loc).obj, seen)
	case *IfaceV:
		e.havocVal(st, x.val, seen)
	case *FuncV:
		for _, b := range x.bind {
			e.havocVal(st, b, seen)
		}
	case *Term:
		if x.sort == SNum && x.isInt {
			for _, p := range asPoly(x) {
				if len(p.m) == 1 {
					if o, ok := e.addr[p.m[0].a]; ok {
						e.havocObj(st, o, seen)
					}
				}
			}
		}
		anyTerm(x, func(y *Term) bool {
			if o, ok := e.addr[y]; ok {
				e.havocObj(st, o, seen)
			}
			return false
		})
	}
}
func (e *Eval) havocObj(st *State, o *Object, seen map[*Object]bool) {
	if seen[o] {
		return
	}
	seen[o] = true
	old := st.getOr(o)
	s, _ := sortOf(o.typ)
	if s == SOther {
		if _, ok := under(o.typ).(*types.Map); !ok {
			return
		}
	}
	n := o.name
	if o.tag != "" {
		n = o.tag
	}
	st.mem[o] = symOf(e.fresh("after:"+n), o.typ)
	anyTerm(old, func(y *Term) bool {
		if o2, ok := e.addr[y]; ok {
			e.havocObj(st, o2, seen)
		}
		return false
	})
}

// pure library functions: results depend on the arguments only
var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "math.", "math/bits.", "path.", "path/filepath.", "errors.", "cmp."}

func isPure(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var silent = map[string]bool{"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "log.Println": true, "log.Printf": true, "log.Print": true}

func (e *Eval) library(f *Frame, st *State, name string, sig *types.Signature, args []Val, in ssa.Instruction) ([]Val, bool) {
	T := func(i int) *Term { return e.toTerm(st, args[i]) }
	if silent[name] {
		r := e.resultVals(name, sig, nil, true)
		return r, true
	}
	switch name {
	case "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint":
		return nil, false
	case "fmt.Errorf", "errors.New":
		return []Val{mkFn("fresh:error", SOther, false, T(0))}, true
	case "fmt.Sprintf":
		if s := e.sprintf(st, args); s != nil {
			return []Val{s}, true
		}
		return []Val{mkFn("sprintf", SStr, false, T(0), T(1))}, true
	case "fmt.Sprint":
		return []Val{mkFn("sprint", SStr, false, T(0))}, true
	case "strconv.Itoa":
		return []Val{mkItoa(T(0))}, true
	case "strconv.FormatInt", "strconv.FormatUint":
		if k, ok := isConstInt(T(1)); ok && k == 10 {
			return []Val{mkItoa(T(0))}, true
		}
	case "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort":
		s := e.asSlice(st, args[0], sig.Params().At(0).Type())
		l := st.resolve(s.Loc)
		c := e.load(st, l)
		sorted := mkSorted("asc", mkSub(c, s.lo, tAdd(s.lo, s.n)))
		nc := mkCat(mkSub(c, tZero, s.lo), sorted, mkSub(c, tAdd(s.lo, s.n), mkLen(c)))
		e.event(&Event{kind: "sort", fn: f.fn, instr: in, name: l.String(), vals: []Val{&Ptr{l}}, args: []*Term{nc}})
		if l.obj.ext {
			e.event(&Event{kind: "extstore", fn: f.fn, instr: in, name: l.String(), vals: []Val{&Ptr{l}}, args: []*Term{nc}})
		}
		e.storeTerm(st, l, nc)
		return nil, true
	case "sort.Slice", "sort.SliceStable":
		iv, ok := args[0].(*IfaceV)
		if !ok {
			break
		}
		s := e.asSlice(st, iv.val, iv.typ)
		fv, ok := args[1].(*FuncV)
		if !ok {
			break
		}
		i, j := mkVar("σi", SNum, true), mkVar("σj", SNum, true)
		l := st.resolve(s.Loc)
		c := e.load(st, l)
		// comparator as a term over two symbolic positions
		e.rec++
		rs, _ := e.call(fv.fn, []Val{i, j}, fv.bind, st.clone())
		e.rec--
		less := e.toTerm(st, rs[0])
		body := mkSub(c, s.lo, tAdd(s.lo, s.n))
		less = abstractElems(less, body, iv.typ, i, j)
		sorted := mkFn("sortedby", SSeq, false, body, less)
		nc := mkCat(mkSub(c, tZero, s.lo), sorted, mkSub(c, tAdd(s.lo, s.n), mkLen(c)))
		e.event(&Event{kind: "sort", fn: f.fn, instr: in, name: l.String(), vals: []Val{&Ptr{l}}, args: []*Term{sorted, less, body}})
		if l.obj.ext {
			e.event(&Event{kind: "extstore", fn: f.fn, instr: in, name: l.String(), vals: []Val{&Ptr{l}}, args: []*Term{nc}})
		}
		e.storeTerm(st, l, nc)
		return nil, true
	case "sort.Sort", "sort.Stable":
		iv, ok := args[0].(*IfaceV)
		if !ok {
			break
		}
		lessM := f.fn.Prog.LookupMethod(iv.typ, nil, "Less")
		swapM := f.fn.Prog.LookupMethod(iv.typ, nil, "Swap")
		if lessM == nil || swapM == nil {
			break
		}
		i, j := mkVar("σi", SNum, true), mkVar("σj", SNum, true)
		e.rec++
		rs, _ := e.call(lessM, []Val{iv.val, i, j}, nil, st.clone())
		s2 := st.clone()
		_, s2 = e.call(swapM, []Val{iv.val, i, j}, nil, s2)
		e.rec--
		less := e.toTerm(st, rs[0])
		n := 0
		for _, o := range sortedObjs(s2.mem) {
			old, ok := st.mem[o]
			if !ok {
				old = o.init
			}
			if old == nil || old == s2.mem[o] {
				continue
			}
			for _, lf := range leaves(o) {
				ov, nv := e.load(st, lf), e.load(s2, lf)
				if ov == nv {
					continue
				}
				n++
				ab := abstractElems(less, ov, lf.typ(), i, j)
				nt := mkFn("sortedby", SSeq, false, ov, ab)
				e.event(&Event{kind: "sort", fn: f.fn, instr: in, name: lf.String(), vals: []Val{&Ptr{lf}}, args: []*Term{nt, ab, ov, nv}})
				if o.ext {
					e.event(&Event{kind: "extstore", fn: f.fn, instr: in, name: lf.String(), vals: []Val{&Ptr{lf}}, args: []*Term{nt}})
				}
				e.storeTerm(st, lf, nt)
			}
		}
		return nil, true
	case "strings.Contains", "strings.ContainsRune", "bytes.Contains":
		return []Val{bNot(bLt0(mkIndex(T(0), runeStr(T(1)))))}, true
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		return []Val{mkIndex(T(0), runeStr(T(1)))}, true
	case "strings.SplitN":
		if k, ok := isConstInt(T(2)); ok && k == 2 {
			s, sep := T(0), T(1)
			i := mkIndex(s, sep)
			two := mkCat(mkUnit(mkStrSub(s, tZero, i)), mkUnit(mkStrSub(s, tAdd(i, mkLen(sep)), mkLen(s))))
			return []Val{e.freshSlice(st, "split", sig.Results().At(0).Type(), mkIte(bLt0(i), mkUnit(s), two))}, true
		}
	case "strings.SplitAfterN":
		if k, ok := isConstInt(T(2)); ok && k == 2 {
			s, sep := T(0), T(1)
			i := mkIndex(s, sep)
			at := tAdd(i, mkLen(sep))
			two := mkCat(mkUnit(mkStrSub(s, tZero, at)), mkUnit(mkStrSub(s, at, mkLen(s))))
			return []Val{e.freshSlice(st, "split", sig.Results().At(0).Type(), mkIte(bLt0(i), mkUnit(s), two))}, true
		}
	case "strings.Split":
		if s, sep := T(0), T(1); sep.op == OStrC && sep.name != "" {
			i := mkIndex(s, sep)
			rest := mkStrSub(s, tAdd(i, mkLen(sep)), mkLen(s))
			j := mkIndex(rest, sep)
			more := mkFn("split", SSeq, false, mkStrSub(rest, tAdd(j, mkLen(sep)), mkLen(rest)), sep)
			two := mkCat(mkUnit(mkStrSub(s, tZero, i)), mkUnit(rest))
			all := mkCat(mkUnit(mkStrSub(s, tZero, i)), mkUnit(mkStrSub(rest, tZero, j)), more)
			return []Val{e.freshSlice(st, "split", sig.Results().At(0).Type(), mkIte(bLt0(i), mkUnit(s), mkIte(bLt0(j), two, all)))}, true
		}
	case "strings.Cut":
		s, sep := T(0), T(1)
		i := mkIndex(s, sep)
		has := bNot(bLt0(i))
		return []Val{mkIte(has, mkStrSub(s, tZero, i), s), mkIte(has, mkStrSub(s, tAdd(i, mkLen(sep)), mkLen(s)), mkStr("")), has}, true
	case "strings.TrimSpace":
		return []Val{mkTrim(T(0))}, true
	case "strings.TrimFunc":
		if fv, ok := args[1].(*FuncV); ok && fv.fn != nil && fv.fn.String() == "unicode.IsSpace" {
			return []Val{mkTrim(T(0))}, true
		}
	case "strings.TrimPrefix", "strings.TrimSuffix":
		if s, sep := T(0), T(1); sep.op == OStrC {
			k := int64(len(sep.name))
			var has, rest *Term
			if k == 0 {
				return []Val{s}, true
			}
			if name == "strings.TrimPrefix" {
				has, rest = tTrue, mkStrSub(s, numInt(k), mkLen(s))
				for i := int64(0); i < k; i++ {
					has = bAnd(has, bEq(mkByteAt(s, numInt(i)), numInt(int64(sep.name[i]))))
				}
			} else {
				has, rest = tTrue, mkStrSub(s, tZero, tSub(mkLen(s), numInt(k)))
				for i := int64(0); i < k; i++ {
					has = bAnd(has, bEq(mkByteAt(s, tAdd(tSub(mkLen(s), numInt(k)), numInt(i))), numInt(int64(sep.name[i]))))
				}
			}
			return []Val{mkIte(bAnd(bNot(bLt(mkLen(s), numInt(k))), has), rest, s)}, true
		}
	case "strings.HasPrefix", "strings.HasSuffix":
		if t, sep := T(0), T(1); t.op == OStrC && sep.op != OStrC && len(t.name) <= 4 {
			is := tFalse // one of the beginnings or ends of the text
			for k := 0; k <= len(t.name); k++ {
				part := t.name[:k]
				if name == "strings.HasSuffix" {
					part = t.name[len(t.name)-k:]
				}
				is = bOr(is, bEq(sep, mkStr(part)))
			}
			return []Val{is}, true
		}
		if t, sep := T(0), T(1); sep.op == OStrC && len(sep.name) <= 16 {
			k := int64(len(sep.name))
			at := tZero
			if name == "strings.HasSuffix" {
				at = tSub(mkLen(t), numInt(k))
			}
			has := bNot(bLt(mkLen(t), numInt(k)))
			for i := int64(0); i < k; i++ {
				has = bAnd(has, bEq(mkByteAt(t, tAdd(at, numInt(i))), numInt(int64(sep.name[i]))))
			}
			return []Val{has}, true
		}
	case "strings.Join":
		l, sep := T(0), T(1)
		if l.op == OCat || l.op == OUnit {
			parts := []*Term{l}
			if l.op == OCat {
				parts = l.args
			}
			var out []*Term
			ok := true
			for i, p := range parts {
				if p.op != OUnit {
					ok = false
					break
				}
				if i > 0 {
					out = append(out, sep)
				}
				out = append(out, p.args[0])
			}
			if ok {
				return []Val{mkSCat(out...)}, true
			}
		}
	case "unicode.IsSpace":
		return []Val{bHolds(mkFn("isspace", SBool, false, T(0)))}, true
	case "strings.Map":
		if fv, ok := args[0].(*FuncV); ok {
			r := mkVar("σr", SNum, true)
			e.rec++
			rs, _ := e.call(fv.fn, []Val{r}, fv.bind, st.clone())
			e.rec--
			if rs != nil {
				return []Val{mkFn("strmap", SStr, false, T(1), e.toTerm(st, rs[0]))}, true
			}
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil, true
	case "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteString":
		o := e.builder(st, args[0])
		p := T(1)
		if !strings.HasSuffix(name, "WriteString") {
			p = mkRunes2Str(mkUnit(p))
		}
		st.mem[o] = mkSCat(st.get(o), p)
		return e.resultVals(name, sig, nil, true), true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return []Val{st.get(e.builder(st, args[0]))}, true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return []Val{mkLen(st.get(e.builder(st, args[0])))}, true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st.mem[e.builder(st, args[0])] = mkStr("")
		return nil, true
	case "(*github.com/ungerik/go3d/float64/vec3.T).Scaled":
		v := e.load(st, e.locOf(args[0], sig.Recv().Type()))
		VT := sig.Results().At(0).Type()
		return []Val{mkTup(tname(VT), tMul2(getField(v, VT, 0), T(1)), tMul2(getField(v, VT, 1), T(1)), tMul2(getField(v, VT, 2), T(1)))}, true
	case "(*github.com/ungerik/go3d/float64/vec3.T).Scale", "(*github.com/ungerik/go3d/float64/vec3.T).Add", "(*github.com/ungerik/go3d/float64/vec3.T).Sub":
		l := e.locOf(args[0], sig.Recv().Type())
		VT := l.typ()
		v := e.load(st, l)
		var nv []*Term
		var w *Term
		if !strings.HasSuffix(name, "Scale") {
			w = e.load(st, e.locOf(args[1], sig.Params().At(0).Type()))
		}
		for i := 0; i < 3; i++ {
			c := getField(v, VT, i)
			switch {
			case strings.HasSuffix(name, "Scale"):
				c = tMul2(c, T(1))
			case strings.HasSuffix(name, "Add"):
				c = tAdd(c, getField(w, VT, i))
			default:
				c = tSub(c, getField(w, VT, i))
			}
			nv = append(nv, c)
		}
		e.storeVal(st, l, mkTup(tname(VT), nv...), f, in)
		return []Val{args[0]}, true
	case "github.com/ungerik/go3d/float64/vec3.Add", "github.com/ungerik/go3d/float64/vec3.Sub":
		a := e.load(st, e.locOf(args[0], sig.Params().At(0).Type()))
		b := e.load(st, e.locOf(args[1], sig.Params().At(1).Type()))
		VT := sig.Results().At(0).Type()
		var nv []*Term
		for i := 0; i < 3; i++ {
			if strings.HasSuffix(name, "Add") {
				nv = append(nv, tAdd(getField(a, VT, i), getField(b, VT, i)))
			} else {
				nv = append(nv, tSub(getField(a, VT, i), getField(b, VT, i)))
			}
		}
		return []Val{mkTup(tname(VT), nv...)}, true
	}
	if isPure(name) && sig.Results().Len() > 0 {
		ok := true
		for _, a := range args {
			switch a.(type) {
			case *Ptr, *FuncV:
				ok = false
			}
		}
		if ok {
			ts := make([]*Term, len(args))
			for i := range args {
				ts[i] = T(i)
			}
			r := e.resultVals(name, sig, ts, false)
			return r, true
		}
	}
	return nil, false
}

// trimming twice is trimming once
func mkTrim(t *Term) *Term {
	switch {
	case t.op == OStrC:
		return mkStr(strings.TrimSpace(t.name))
	case t.op == OIte:
		return mkIteAtom(t.args[0], mkTrim(t.args[1]), mkTrim(t.args[2]))
	case t.op == OFn && t.name == "opq:strings.TrimSpace":
		return t
	}
	return mkFn("opq:strings.TrimSpace", SStr, false, t)
}

func runeStr(t *Term) *Term {
	if t.sort == SNum {
		if k, ok := isConstInt(t); ok {
			return mkStr(string(rune(k)))
		}
		return mkRunes2Str(mkUnit(t))
	}
	return t
}
func mkIndex(s, sep *Term) *Term {
	if s.op == OStrC && sep.op == OStrC {
		return numInt(int64(strings.Index(s.name, sep.name)))
	}
	if s.op == OIte {
		return mkIteAtom(s.args[0], mkIndex(s.args[1], sep), mkIndex(s.args[2], sep))
	}
	return mkFnN("indexof", true, s, sep)
}

// builder returns the string cell of a strings.Builder / bytes.Buffer.
func (e *Eval) builder(st *State, v Val) *Object {
	l := e.locOf(v, types.NewPointer(types.NewStruct(nil, nil)))
	k := e.ptrTerm(l)
	o := e.extObj[k]
	if o == nil {
		o = e.newObj("builder", types.Typ[types.String])
		o.init = mkStr("")
		e.extObj[k] = o
	}
	if _, ok := st.mem[o]; !ok {
		st.mem[o] = mkStr("")
	}
	return o
}

func mkItoa(t *Term) *Term {
	if k, ok := isConstInt(t); ok {
		return mkStr(itoa(int(k)))
	}
	return mkFn("itoa", SStr, false, t)
}

// sorting a list of single elements does not depend on their order
func mkSorted(kind string, s *Term) *Term {
	if s.op == OCat {
		all := true
		for _, p := range s.args {
			if p.op != OUnit {
				all = false
			}
		}
		if all {
			ps := append([]*Term{}, s.args...)
			sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
			s = mkCat(ps...)
		}
	}
	return mkFn("sorted", SSeq, false, s)
}

// abstractElems replaces seq[σi], seq[σj] in t by element symbols so that the
// comparator no longer mentions positions.
func abstractElems(t, seq *Term, T types.Type, i, j *Term) *Term {
	el := elemOf(T)
	m := map[*Term]*Term{}
	a, b := selElem(seq, T, i), selElem(seq, T, j)
	s, n := sortOf(el)
	m[a] = mkVar("σa", s, n)
	m[b] = mkVar("σb", s, n)
	return subst(t, m)
}

func (e *Eval) sprintf(st *State, args []Val) *Term {
	ft := e.toTerm(st, args[0])
	if ft.op != OStrC {
		return nil
	}
	items := e.toTerm(st, args[1])
	var parts []*Term
	if items.op == OUnit {
		parts = []*Term{items}
	} else if items.op == OCat {
		parts = items.args
	}
	var out []*Term
	s := ft.name
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, mkStr(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return nil
		}
		if s[i] == '%' {
			out = append(out, mkStr("%"))
			continue
		}
		if k >= len(parts) || parts[k].op != OUnit {
			return nil
		}
		iv, ok := e.ifaces[parts[k].args[0]]
		k++
		if !ok {
			return nil
		}
		t := e.toTerm(st, iv.val)
		switch {
		case (s[i] == 'd' || s[i] == 'v') && isInteger(iv.typ):
			out = append(out, mkItoa(t))
		case (s[i] == 's' || s[i] == 'v') && isString(iv.typ):
			out = append(out, t)
		default:
			return nil
		}
	}
	return mkSCat(out...)
}
