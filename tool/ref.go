package main

import (
	"golang.org/x/tools/go/ssa"
)

// Pair: a function of the repository and its specification function (from
// refs/) evaluated on the same symbolic arguments.
type Pair struct {
	cur, ref *Run
}

// pair evaluates both; opaque functions stay uninterpreted on both sides.
func (c *Chk) pair(pkg, name, refName string, opaque ...string) *Pair {
	return c.pairWith(pkg, name, refName, nil, opaque...)
}

func (c *Chk) pairWith(pkg, name, refName string, args func(*Eval, *State, *ssa.Function) []Val, opaque ...string) *Pair {
	cur := c.runWith(pkg, name, args, opaque...)
	if cur == nil {
		return nil
	}
	rf := P.fn(pkg, refName)
	label := "specification " + refName + " of " + pkg + "." + name
	if rf == nil {
		c.unknown(label, cur.where(), "the specification function does not type check against the package")
		return nil
	}
	if len(rf.Params) != len(cur.fn.Params) {
		c.unknown(label, cur.where(), "the signature differs from the specification's")
		return nil
	}
	var ref *Run
	c.try(label, cur.where(), func() {
		e := newEval()
		for f := range cur.e.opaque {
			e.opaque[f] = true
		}
		e.pureFn = cur.e.pureFn
		st := newState()
		var a []Val
		if args != nil {
			a = args(e, st, cur.fn)
		} else {
			for i, p := range cur.fn.Params {
				_ = i
				a = append(a, e.symArg(p.Name(), p.Type(), st))
			}
		}
		ref = evalFn(e, rf, a, st)
	})
	if ref == nil {
		return nil
	}
	if ref.err != "" {
		c.unknown(label, cur.where(), ref.err)
		return nil
	}
	return &Pair{cur, ref}
}

// results: every result has the specification's value graph
func (c *Chk) results(label string, p *Pair, ctx *Ctx) {
	if p == nil {
		return
	}
	w := p.cur.where()
	if len(p.cur.res) != len(p.ref.res) {
		c.unknown(label, w, "different number of results")
		return
	}
	for i := range p.cur.res {
		l := label
		if len(p.cur.res) > 1 {
			l += " (result " + itoa(i) + ")"
		}
		var got, want *Term
		c.try(l, w, func() { got, want = p.cur.ret(i), p.ref.ret(i) })
		if got != nil && want != nil {
			c.deep(l, w, ctx, got, want)
		}
	}
}

// posts: the objects pointer parameters refer to are left as specified
func (c *Chk) posts(label string, p *Pair, ctx *Ctx) {
	if p == nil {
		return
	}
	w := p.cur.where()
	for i, v := range p.cur.params {
		if _, ok := v.(*Ptr); !ok {
			continue
		}
		l := label + " (effect on " + p.cur.fn.Params[i].Name() + ")"
		var got, want *Term
		c.try(l, w, func() { got, want = p.cur.post(i), p.ref.post(i) })
		if got != nil && want != nil {
			c.deep(l, w, ctx, got, want)
		}
	}
}
