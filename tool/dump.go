package main

// Symbolic entry: evaluate one function on symbolic arguments.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// symArg makes the symbolic value of a parameter. Pointers refer to objects of
// their own, slices to sequences of their own (no aliasing between parameters).
func (e *Eval) symArg(name string, T types.Type, st *State) Val {
	switch u := under(T).(type) {
	case *types.Pointer:
		o := e.newObj(name, u.Elem())
		o.ext = true
		o.init = symOf(name, u.Elem())
		return &Ptr{Loc{o, nil}}
	case *types.Slice:
		return e.asSlice(st, symOf(name, T), T)
	case *types.Map:
		return e.mapOf(st, symOf(name, T), T)
	}
	return symOf(name, T)
}

type Run struct {
	e      *Eval
	fn     *ssa.Function
	params []Val
	res    []Val
	st     *State
	st0    *State
	err    string
}

// evalFn evaluates fn on symbolic arguments (or the given ones).
func evalFn(e *Eval, fn *ssa.Function, args []Val, st *State) (r *Run) {
	if st == nil {
		st = newState()
	}
	r = &Run{e: e, fn: fn, st0: st}
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok {
				r.err = u.msg
				return
			}
			panic(x)
		}
	}()
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, e.symArg(p.Name(), p.Type(), st))
		}
	}
	r.params = args
	r.res, r.st = e.call(fn, args, nil, st.clone())
	return r
}

func (r *Run) term(v Val) *Term { return r.e.toTerm(r.st, v) }

// ret: i-th result as a term
func (r *Run) ret(i int) *Term { return r.term(r.res[i]) }

func dump(pkg, name string) {
	fn := P.fn(pkg, name)
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	e := newEval()
	e.open = os.Getenv("GEGOV_OPEN") != ""
	e.lazy = os.Getenv("GEGOV_LAZY") != ""
	lazySel = e.lazy
	for _, n := range strings.Fields(os.Getenv("GEGOV_OPAQUE")) {
		if f := P.fn(pkg, n); f != nil {
			e.opaque[f] = true
		}
	}
	r := evalFn(e, fn, nil, nil)
	if r.err != "" {
		fmt.Println("UNDECIDED:", r.err)
	} else {
		for i := range r.res {
			t := r.ret(i)
			fmt.Printf("result %d (%s): %s\n", i, t.sort, t)
		}
		if r.st != nil {
			for _, o := range sortedObjs(r.st.mem) {
				if o.ext && r.st.mem[o] != o.init {
					fmt.Printf("mem %s := %s\n", o.name, r.st.mem[o])
				}
			}
		}
	}
	for _, ev := range e.events {
		if ev.kind == "return" {
			continue
		}
		fmt.Printf("event %s %s at %s when %s\n", ev.kind, ev.name, ev.where(), clipN(ev.cond().String(), 300))
		for _, a := range ev.args {
			fmt.Printf("      arg %s\n", clipN(a.String(), 200))
		}
	}
	for _, l := range e.loopsRec {
		fmt.Printf("loop %d at %s trip=%v max=%v X=%v cont=%s\n", l.id, l.where(), l.trip, l.maxT, l.X, clipN(l.cont.String(), 200))
		for _, v := range l.raw {
			fmt.Printf("    raw %s: init %s ; step %s\n", v.sym, clipN(v.init.String(), 160), clipN(v.step.String(), 300))
		}
		for _, v := range l.vars {
			fmt.Printf("    %s: init %s ; step %s ; closed %v\n", v.sym, clipN(v.init.String(), 160), clipN(v.step.String(), 200), v.closed != nil)
		}
	}
}
