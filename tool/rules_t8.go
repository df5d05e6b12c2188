package main

// T08: range and monotonicity of the pseudo-angle on the four rays families,
// and the provenance of every position of the bucket table.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T08", "on each quadrant the value graph of the pseudo-angle is piecewise affine in the direction's parameter: each piece stays in [0, 1) on its closed range and has the slope of the angle; the bucket is that angle times the table length, truncated; every position of the table is a bucket or the wrapped successor of one", checkT08)
}

// pieces splits a value into its affine pieces in u over [lo, hi].
type piece struct {
	lo, hi *big.Rat
	t      *Term
}

func affineIn(t, u *Term) (a, b *big.Rat, ok bool) {
	b0, ok0 := constOf(expandConst(subst(t, map[*Term]*Term{u: tZero})))
	b1, ok1 := constOf(expandConst(subst(t, map[*Term]*Term{u: tOne})))
	if !ok0 || !ok1 {
		return nil, nil, false
	}
	a = new(big.Rat).Sub(b1, b0)
	if t != tAdd(tScale(u, a), numRat(b0)) {
		return nil, nil, false
	}
	return a, b0, true
}

func piecesOf(t, u *Term, lo, hi *big.Rat, out []piece) ([]piece, bool) {
	if t.op != OIte {
		return append(out, piece{lo, hi, t}), true
	}
	at := t.args[0]
	if at.op != OLt0 && at.op != OEq0 {
		return nil, false
	}
	a, b, ok := affineIn(at.args[0], u)
	if !ok {
		return nil, false
	}
	if a.Sign() == 0 {
		if at.op == OLt0 && b.Sign() < 0 || at.op == OEq0 && b.Sign() == 0 {
			return piecesOf(t.args[1], u, lo, hi, out)
		}
		return piecesOf(t.args[2], u, lo, hi, out)
	}
	z := new(big.Rat).Quo(new(big.Rat).Neg(b), a)
	if at.op == OEq0 {
		// a single point
		if z.Cmp(lo) > 0 && z.Cmp(hi) < 0 {
			if out, ok = piecesOf(t.args[1], u, z, z, out); !ok {
				return nil, false
			}
		}
		return piecesOf(t.args[2], u, lo, hi, out)
	}
	if z.Cmp(lo) <= 0 {
		z = lo
	}
	if z.Cmp(hi) >= 0 {
		z = hi
	}
	below, above := t.args[1], t.args[2] // a u + b < 0 below z for a > 0
	if a.Sign() < 0 {
		below, above = above, below
	}
	if lo.Cmp(z) < 0 {
		if out, ok = piecesOf(below, u, lo, z, out); !ok {
			return nil, false
		}
	}
	if z.Cmp(hi) < 0 {
		return piecesOf(above, u, z, hi, out)
	}
	return out, true
}

func checkT08(c *Chk) {
	pk := "triangulate2"
	pa := P.fn(pk, "pseudoAngle")
	if pa == nil || len(pa.Params) != 2 {
		c.unknown("the pseudo-angle lies in [0, 1)", pk+".pseudoAngle", "no such function")
	} else {
		u := mkVar("u", SNum, false)
		v := tSub(tOne, u)
		neg := func(t *Term) *Term { return tScale(t, big.NewRat(-1, 1)) }
		ends := map[string]*big.Rat{}
		// directions (dx, dy) for 0 < u < 1 and the sense of the angle in u
		for _, q := range []struct {
			name   string
			dx, dy *Term
			sense  int
		}{
			{"right and above", u, v, -1},
			{"left and above", neg(u), v, 1},
			{"left and below", neg(u), neg(v), -1},
			{"right and below", u, neg(v), 1},
		} {
			l := "the pseudo-angle of a direction " + q.name + " lies in [0, 1) and grows with the angle"
			r := c.runWith(pk, "pseudoAngle", func(e *Eval, st *State, fn *ssa.Function) []Val { return []Val{q.dx, q.dy} })
			if r == nil {
				continue
			}
			c.try(l, r.where(), func() {
				ctx := newCtx()
				ctx.assume(bLt(tZero, u), true)
				ctx.assume(bLt(u, tOne), true)
				t := subst(r.ret(0), map[*Term]*Term{mkAbs(u): u, mkAbs(v): v})
				t = ctx.simp(t)
				ps, ok := piecesOf(t, u, new(big.Rat), big.NewRat(1, 1), nil)
				if !ok {
					c.unknown(l, r.where(), "not piecewise affine: "+clip(t.String()))
					return
				}
				one := big.NewRat(1, 1)
				for _, p := range ps {
					a, b, ok := affineIn(p.t, u)
					if !ok {
						c.unknown(l, r.where(), "not affine: "+clip(p.t.String()))
						return
					}
					for _, x := range []*big.Rat{p.lo, p.hi} {
						// the ends of the range are reached after rounding
						y := new(big.Rat).Add(new(big.Rat).Mul(a, x), b)
						if y.Sign() < 0 || y.Cmp(one) >= 0 {
							c.fail(l, r.where(), "the value reaches "+y.FloatString(6)+" where |dx|/(|dx|+|dy|) rounds to "+x.FloatString(6))
							return
						}
					}
					wide := new(big.Rat).Sub(p.hi, p.lo).Cmp(big.NewRat(1, 1000000)) > 0
					if wide && a.Sign() != q.sense {
						c.fail(l, r.where(), "does not grow with the angle: slope "+a.FloatString(6)+" in |dx|/(|dx|+|dy|)")
						return
					}
				}
				for i := 1; i < len(ps); i++ {
					a0, b0, _ := affineIn(ps[i-1].t, u)
					a1, b1, _ := affineIn(ps[i].t, u)
					y0 := new(big.Rat).Add(new(big.Rat).Mul(a0, ps[i].lo), b0)
					y1 := new(big.Rat).Add(new(big.Rat).Mul(a1, ps[i].lo), b1)
					d := new(big.Rat).Sub(y1, y0)
					if d.Sign() != 0 && d.Sign() != q.sense {
						c.fail(l, r.where(), "falls by a jump while the angle grows")
						return
					}
				}
				if len(ps) > 0 {
					a, b, _ := affineIn(ps[0].t, u)
					ends[q.name] = new(big.Rat).Add(new(big.Rat).Mul(a, ps[0].lo), b)
				}
				c.ok(l, r.where())
			})
		}
		// both quadrants of a half-plane meet in order at the vertical
		for _, h := range [][3]string{{"right and above", "left and above", "above"}, {"left and below", "right and below", "below"}} {
			l := "the pseudo-angle grows across the vertical " + h[2]
			x, y := ends[h[0]], ends[h[1]]
			if x == nil || y == nil {
				continue
			}
			if x.Cmp(y) > 0 {
				c.fail(l, fnPos(pa), x.FloatString(6)+" then "+y.FloatString(6))
			} else {
				c.ok(l, fnPos(pa))
			}
		}
	}
	key := P.fn(pk, "triangulator.hashKey")
	l := "the bucket is the pseudo-angle times the table length, truncated"
	r := c.run(pk, "triangulator.hashKey", "=pseudoAngle")
	if r != nil {
		c.try(l, r.where(), func() { c.bucket(l, r) })
	}
	c.tablePositions(key)
	l = "insertion uses the bucket of the edge's start point"
	if p := c.pair(pk, "triangulator.hashEdge", "gegovHashEdge", "=pseudoAngle"); p != nil {
		c.try(l, p.cur.where(), func() {
			got, want := fld(p.cur.post(0), p.cur.ptype(0), "hash"), fld(p.ref.post(0), p.ref.ptype(0), "hash")
			if r, why := deepEqual(nil, got, want); r == cmpEqual {
				c.ok(l, p.cur.where())
			} else if r == cmpDiffer {
				c.fail(l, p.cur.where(), why)
			} else {
				c.unknown(l, p.cur.where(), why)
			}
		})
	}
}

// bucket: trunc(p·n) with p the pseudo-angle and n the table length
func (c *Chk) bucket(l string, r *Run) {
	t := r.ret(0)
	n := mkLen(fld(r.pterm(0), r.ptype(0), "hash"))
	var ps, ws []*Term
	seen := map[*Term]bool{}
	anyTerm(t, func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.op == OFn && containsStr(x.name, "pseudoAngle") {
			ps = append(ps, x)
		}
		if x.op == OFn && (x.name == "trunc" || x.name == "floor" || x.name == "ceil" || x.name == "round") {
			ws = append(ws, x)
		}
		return false
	})
	if len(ps) != 1 || len(ws) != 1 {
		c.unknown(l, r.where(), clip(t.String()))
		return
	}
	p, w := ps[0], ws[0]
	in := w.args[0]
	// the argument over p in [0, 1): ends
	at := func(k int64) *Term { return expandConst(subst(in, map[*Term]*Term{p: numInt(k)})) }
	lo, hi := at(0), at(1)
	if tAdd(lo, tMul(p, tSub(hi, lo))) != in {
		c.unknown(l, r.where(), "not affine in the pseudo-angle: "+clip(in.String()))
		return
	}
	ctx := newCtx()
	ctx.assume(bLt(tZero, n), true)
	if lo == tZero && hi == n && (w.name == "trunc" || w.name == "floor") {
		// 0 <= trunc < n
		i := mkVar("bucket", SNum, true)
		ctx.assume(bLt(i, tZero), false)
		ctx.assume(bLt(i, n), true)
		got := ctx.simp(subst(t, map[*Term]*Term{w: i}))
		if got == i || ctx.implies(bLt(got, n)) && ctx.implies(bNot(bLt(got, tZero))) {
			c.ok(l, r.where())
			return
		}
		if k, ok := constOf(tSub(got, i)); ok {
			c.fail(l, r.where(), "the bucket is moved by "+k.RatString()+" and can be outside the table")
			return
		}
		c.unknown(l, r.where(), clip(t.String()))
		return
	}
	if t != w {
		c.unknown(l, r.where(), clip(t.String()))
		return
	}
	// definitely outside at an end of the range for some table length
	for k := int64(1); k <= 4; k++ {
		a, ok1 := constOf(expandConst(subst(lo, map[*Term]*Term{n: numInt(k)})))
		b, ok2 := constOf(expandConst(subst(hi, map[*Term]*Term{n: numInt(k)})))
		if !ok1 || !ok2 {
			break
		}
		top := b
		if a.Cmp(b) > 0 {
			a, top = b, a
		}
		kk := big.NewRat(k, 1)
		over := top.Cmp(kk) > 0
		if w.name == "ceil" || w.name == "round" {
			over = over || top.Cmp(kk) == 0
		}
		if over || a.Cmp(big.NewRat(-1, 1)) <= 0 {
			c.fail(l, r.where(), "for a table of "+kk.RatString()+" the bucket ranges over "+w.name+" of ["+a.RatString()+", "+top.RatString()+")")
			return
		}
	}
	c.unknown(l, r.where(), clip(t.String()))
}

// tablePositions: where the positions of the table come from
func (c *Chk) tablePositions(key *ssa.Function) {
	l := "every position of the table is a bucket or the wrapped successor of one"
	if key == nil {
		c.unknown(l, "triangulate2", "no function hashKey")
		return
	}
	isTable := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		st := fa.X.Type().Underlying().(*types.Pointer).Elem()
		s, ok := st.Underlying().(*types.Struct)
		return ok && s.Field(fa.Field).Name() == "hash" && types.Identical(st, key.Params[0].Type().Underlying().(*types.Pointer).Elem())
	}
	isLen := func(v ssa.Value) bool {
		cl, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := cl.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && isTable(cl.Call.Args[0])
	}
	sites, und, bad := 0, "", false
	for _, fn := range P.funcs {
		if fn.Pkg == nil || fn.Pkg != key.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || !isTable(ia.X) {
					continue
				}
				sites++
				seen := map[ssa.Value]bool{}
				var walk func(v ssa.Value, from, to *ssa.BasicBlock) string
				walk = func(v ssa.Value, from, to *ssa.BasicBlock) string {
					switch v := v.(type) {
					case *ssa.Phi:
						if seen[v] {
							return ""
						}
						seen[v] = true
						for i, e := range v.Edges {
							if s := walk(e, v.Block().Preds[i], v.Block()); s != "" {
								return s
							}
						}
						return ""
					case *ssa.Call:
						if v.Call.StaticCallee() == key {
							return ""
						}
					case *ssa.Const:
						if v.Value != nil && v.Value.Kind() == constant.Int && constant.Sign(v.Value) == 0 {
							return ""
						}
					case *ssa.BinOp:
						one, ok := v.Y.(*ssa.Const)
						if v.Op == token.ADD && ok && one.Value != nil && constant.Compare(one.Value, token.EQL, constant.MakeInt64(1)) {
							if s := walk(v.X, nil, nil); s != "" {
								return s
							}
							return wrapped(v, from, to, isLen)
						}
						if v.Op == token.REM && isLen(v.Y) {
							return ""
						}
					}
					return "?" + at(v.(ssa.Instruction))
				}
				s := func() (s string) {
					defer func() {
						if recover() != nil {
							s = "?" + at(ia)
						}
					}()
					return walk(ia.Index, nil, nil)
				}()
				switch {
				case s == "":
				case s[0] == '?':
					und = s[1:]
				default:
					bad = true
					c.fail(l, at(ia), s)
				}
			}
		}
	}
	c.sites += sites
	switch {
	case bad:
	case und != "" || sites == 0:
		c.unknown(l, fnPos(key), "position of unknown origin "+und)
	default:
		c.ok(l, fnPos(key))
	}
}

// wrapped: the value key+1 flows along the edge from -> to only where it is
// below the table length. "" holds, "?.." unknown, else what is wrong.
func wrapped(v *ssa.BinOp, from, to *ssa.BasicBlock, isLen func(ssa.Value) bool) string {
	if from == nil {
		return "?" + at(v)
	}
	// the branch deciding the edge, or the branch dominating it
	for b, child := from, to; b != nil; child, b = b, b.Idom() {
		if len(b.Instrs) == 0 {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, x, y := cmp.Op, cmp.X, cmp.Y
		if y == ssa.Value(v) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if x != ssa.Value(v) || !isLen(y) {
			if b == v.Block() {
				break
			}
			continue
		}
		onTrue := b.Succs[0] == child
		if b.Succs[0] == b.Succs[1] {
			return "?" + at(v)
		}
		if !onTrue && b.Succs[1] != child {
			return "?" + at(v)
		}
		if !onTrue {
			switch op {
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		switch op {
		case token.LSS, token.NEQ: // the successor of a position is at most the length
			return ""
		case token.LEQ:
			return "the successor " + at(v) + " is used although it can equal the table length"
		}
		return "the successor " + at(v) + " is used where it is not below the table length"
	}
	return "?" + at(v)
}
