package main

// Confirming a difference: when the loops of a function and of its
// specification cannot be paired, their value graphs are placed at the first
// few iterations. A combination of conditions under which both leave their
// loops after these iterations with results that are written out completely
// and differ is a difference of the functions.

const maxUnroll = 3

type placed struct {
	cond *Term
	res  []*Term
}

// placements: the results after every combination of small iteration counts
func placements(r *Run) []placed {
	loops := sortedLoops(r.e)
	if len(loops) > 2 {
		return nil
	}
	for _, l := range loops {
		if l.parent != nil && len(loops) > 1 {
			return nil
		}
	}
	var out []placed
	counts := make([]int, len(loops))
	for {
		m := map[*Term]*Term{}
		cond := tTrue
		for i, l := range loops {
			own := map[*Term]*Term{}
			set := func(k int) map[*Term]*Term {
				x := map[*Term]*Term{l.K: numInt(int64(k))}
				for a, b := range m {
					x[a] = b
				}
				for a, b := range own {
					x[a] = b
				}
				return x
			}
			for _, v := range l.raw {
				own[baseSym(v.sym)] = subst(v.init, m)
			}
			for k := 0; k < counts[i]; k++ {
				x := set(k)
				cond = bAnd(cond, subst(l.cont, x))
				next := map[*Term]*Term{}
				for _, v := range l.raw {
					next[baseSym(v.sym)] = subst(v.step, x)
				}
				own = next
			}
			x := set(counts[i])
			cond = bAnd(cond, bNot(subst(l.cont, x)))
			m = x
		}
		p := placed{cond: cond}
		for i := range r.res {
			p.res = append(p.res, subst(r.ret(i), m))
		}
		if cond != tFalse {
			out = append(out, p)
		}
		i := 0
		for ; i < len(counts); i++ {
			if counts[i]++; counts[i] <= maxUnroll {
				break
			}
			counts[i] = 0
		}
		if i == len(counts) {
			return out
		}
	}
}

// writtenOut: nothing in the term stands for a value that two ways of writing
// could spell differently
func writtenOut(t *Term) bool {
	ok := true
	anyTerm(t, func(x *Term) bool {
		switch x.op {
		case OTup, OUnit, OCat, OSCat, OPoly, OStrC:
		case OFn:
			ok = ok && (x.name == "runes2str" || x.name == "rune" || x.name == "rune2str" || x.name == "nil" || x.name == "empty")
			if x.name == "rune" {
				_, c := constOf(x.args[1])
				ok = ok && c
			}
		case OVar:
			ok = ok && x.sort == SStr
		default:
			ok = ok && (x == tTrue || x == tFalse)
		}
		return !ok
	})
	return ok
}

// known: the texts whose characters and the facts the specification asks for
func knownParts(ps []placed) map[string]bool {
	known := map[string]bool{}
	for _, p := range ps {
		for _, t := range append([]*Term{p.cond}, p.res...) {
			anyTerm(t, func(x *Term) bool {
				if x.op == OFn {
					known[partKey(x)] = true
				}
				return false
			})
		}
	}
	return known
}

func partKey(x *Term) string {
	if len(x.args) == 2 {
		if _, c := constOf(x.args[1]); c {
			return x.name + "/" + itoa(x.args[0].id)
		}
	}
	return x.name + "#" + itoa(x.id)
}

// asked: the terms only ask for what the specification asks for, so that
// conditions cannot contradict each other unnoticed
func asked(ts []*Term, known map[string]bool) bool {
	ok := true
	for _, l := range ts {
		anyTerm(l, func(x *Term) bool {
			ok = ok && (x.op != OFn || x.name == "runes2str" || x.name == "rune2str" || x.name == "nil" || known[partKey(x)])
			return !ok
		})
	}
	return ok
}

// confirm: a difference within the first iterations, or ""
func (s *simulation) confirm() (why string) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(undecidedErr); !is {
				panic(x)
			}
			why = ""
		}
	}()
	if s.cur.st == nil || s.ref.st == nil || len(s.cur.res) != len(s.ref.res) || len(s.cur.res) == 0 {
		return ""
	}
	pa, pb := placements(s.cur), placements(s.ref)
	known := knownParts(pb)
	for _, b := range pb {
		for _, a := range pa {
			checkDeadline()
			if !asked(append([]*Term{a.cond}, a.res...), known) {
				continue
			}
			base := newCtx()
			if s.pre != nil {
				s.pre(base)
			}
			limit := 4000
			ts := append([]*Term{bAnd(a.cond, b.cond)}, append(append([]*Term{}, a.res...), b.res...)...)
			n := len(a.res)
			base.cases(ts, &limit, func(d *Ctx, t []*Term) bool {
				if t[0] != tTrue {
					return true
				}
				for i := 0; i < n; i++ {
					x, y := t[1+i], t[1+n+i]
					if !d.same(x, y) && writtenOut(x) && writtenOut(y) {
						why = "gives " + clip(x.String()) + " where " + clip(y.String()) + " is specified, when " + joinLits(d.lits)
						return false
					}
				}
				return true
			})
			if why != "" {
				return why
			}
		}
	}
	return ""
}
