package main

// Range obligations: every index, slice and make that an evaluation met lies
// in range under the condition it is reached with. A violation needs a small
// length for which the position is definitely outside.

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// inRange: 0 <= idx and idx < n (idx <= n when incl)
func inRange(ctx *Ctx, idx, n *Term, incl bool, depth int) bool {
	if depth > 6 || ctx.bad {
		return ctx.bad
	}
	idx = ctx.simp(idx)
	if idx.op == OIte {
		a := mkAtomNode(idx.args[0])
		t, f := ctx.clone(), ctx.clone()
		t.assume(a, true)
		f.assume(a, false)
		return inRange(t, idx.args[1], n, incl, depth+1) && inRange(f, idx.args[2], n, incl, depth+1)
	}
	if idx.op == OFold {
		v := foldOf(idx)
		i, _ := strconv.Atoi(idx.name)
		if v == nil || i >= len(v.inits) || !inRange(ctx, v.inits[i], n, incl, depth+1) {
			return false
		}
		d := ctx.boundVar(v.k, v.n)
		d.assume(bLt(v.vars[i], tZero), false)
		if incl {
			d.assume(bLt(n, v.vars[i]), false)
		} else {
			d.assume(bLt(v.vars[i], n), true)
		}
		return inRange(d, v.steps[i], n, incl, depth+1)
	}
	if !ctx.implies(bNot(bLt(idx, tZero))) {
		return false
	}
	if incl {
		return ctx.implies(bNot(bLt(n, idx)))
	}
	return ctx.implies(bLt(idx, n))
}

// outside: for some small length of a sequence the condition holds and the
// position is outside
func outside(cond *Term, lens []*Term, test func(c *Ctx) bool) string {
	try := func(c *Ctx, txt string) string {
		if c.bad || c.simp(cond) != tTrue {
			return ""
		}
		if test(c) {
			return txt
		}
		return ""
	}
	if s := try(newCtx(), "always"); s != "" {
		return s
	}
	for _, l := range lens {
		for k := 0; k < 4; k++ {
			c := newCtx()
			c.assume(bEq0(tSub(l, numInt(int64(k)))), true)
			if s := try(c, "when "+l.String()+" is "+itoa(k)); s != "" {
				return s
			}
		}
	}
	return ""
}

// bounds judges every event of the evaluation; it returns the number of events.
func (c *Chk) bounds(label, where string, e *Eval, base *Ctx, lens []*Term, free ...func(*Term) bool) {
	n, und := 0, ""
	bad := map[string]bool{}
	for _, ev := range e.events {
		cond := ev.cond()
		if cond == tFalse {
			continue
		}
		ok := true
		var viol func(c *Ctx) bool
		c.try(label, ev.where(), func() {
			ctx := base.clone()
			ctx.assume(cond, true)
			switch ev.kind {
			case "index":
				i, l := ev.args[0], ev.args[1]
				ok = inRange(ctx, i, l, false, 0)
				viol = func(c *Ctx) bool {
					x, m := c.simp(i), c.simp(l)
					return isConstT(x) && isConstT(m) && (c.simp(bLt(x, tZero)) == tTrue || c.simp(bLt(x, m)) == tFalse)
				}
			case "slice":
				lo, hi, l := ev.args[0], ev.args[1], ev.args[2]
				ok = inRange(ctx, hi, l, true, 0) && inRange(ctx, lo, hi, true, 0)
				viol = func(c *Ctx) bool {
					a, b, m := c.simp(lo), c.simp(hi), c.simp(l)
					return isConstT(a) && isConstT(b) && (c.simp(bLt(a, tZero)) == tTrue || c.simp(bLt(b, a)) == tTrue) ||
						isConstT(b) && isConstT(m) && isString2(ev) && c.simp(bLt(m, b)) == tTrue
				}
			case "make":
				l := ev.args[0]
				ok = ctx.implies(bNot(bLt(l, tZero)))
				viol = func(c *Ctx) bool { return c.simp(bLt(l, tZero)) == tTrue }
			default:
				return
			}
			n++
			c.sites++
			if ok {
				return
			}
			if s := outside(cond, lens, viol); s != "" {
				k := ev.where() + s
				if !bad[k] {
					bad[k] = true
					c.fail(label, ev.where(), ev.kind+" out of range "+s)
				}
				return
			}
			if len(free) > 0 && ev.kind == "index" && free[0](ev.args[0]) {
				// an entry of the caller's data
				for _, above := range []bool{true, false} {
					d := base.clone()
					d.assume(cond, true)
					if above {
						d.assume(bLt(ev.args[0], ev.args[1]), false)
					} else {
						d.assume(bLt(ev.args[0], tZero), true)
					}
					if !d.bad && d.simp(cond) != tFalse && !bad[ev.where()] {
						bad[ev.where()] = true
						c.fail(label, ev.where(), "the index "+clip(ev.args[0].String())+" is not checked")
					}
				}
				if bad[ev.where()] {
					return
				}
			}
			und = ev.where() + ": " + ev.kind + " " + clip(ev.args[0].String()) + " of " + clip(ev.args[len(ev.args)-1].String())
		})
	}
	switch {
	case len(bad) > 0:
	case und != "":
		c.unknown(label, where, und)
	default:
		c.ok(label, where)
	}
}

func isConstT(t *Term) bool { _, ok := constOf(t); return ok }

func isString2(ev *Event) bool {
	x, ok := ev.instr.(*ssa.Slice)
	return ok && isString(x.X.Type())
}
