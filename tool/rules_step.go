package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("L02", "the scan of an argument or list text is the recurrence of the specified splitter: depth, quoting, current piece and finished pieces agree in every step for every character class; rows of a matrix are split by the same function in order", checkL02)
}

// depthInv: the nesting depth is not negative when an iteration starts
func depthInv(ctx *Ctx, l *LoopInfo) {
	for _, v := range l.raw {
		if v.sym.sort == SNum && v.init == tZero {
			ctx.assume(bLt(v.sym, tZero), false)
		}
	}
}

func checkL02(c *Chk) {
	for _, x := range [][3]string{
		{"arguments are split at top-level commas", "getArguments", "gegovSplit"},
		{"lists are split at top-level commas", "getArray", "gegovArray"},
	} {
		if s := c.simulate(x[0], "step", x[1], x[2]); s != nil {
			s.inv = depthInv
			s.results(x[0])
		}
	}
	c.simulate("matrices are lists of lists", "step", "getMatrix", "gegovMatrix", "=getArray", "=getArguments").results("matrices are lists of lists")
}

func init() {
	register("L01", "the read loop is the specified recurrence: pending text, table and the continuation flag agree in every step for every read outcome; a line starts a definition exactly when a number sign and digits precede its first equals sign", checkL01)
}

func checkL01(c *Chk) {
	c.simulate("a definition starts with # and digits before =", "step", "startsDefinition", "gegovStarts", "=stripWhiteSpaces").results("a definition starts with # and digits before =")
	if s := c.simulate("every line ends up in one definition", "step", "Lexer.Lex", "gegovLex", "=startsDefinition", "=tokenize", "=stripWhiteSpaces"); s != nil {
		s.inv = readOutcomes
		s.results("every line ends up in one definition")
		s.calls("lines are read once", "(*bufio.Reader).ReadLine")
	}
}

// readOutcomes: io.EOF is an error
func readOutcomes(ctx *Ctx, l *LoopInfo) {
	ctx.assume(bEq(mkVar("global:EOF", SOther, false), tNil), false)
}

func init() {
	register("L03", "recording a definition, splitting it into type and arguments, removing white space and reading an argument have the specified value graphs", checkL03)
}

func checkL03(c *Chk) {
	for _, x := range [][]string{
		{"a definition is recorded under the text before =", "SymbolTable.add", "gegovAdd", "=tokenize", "=stripWhiteSpaces"},
		{"the type stands before the first parenthesis", "tokenize", "gegovTokenize", "=getArguments", "=stripWhiteSpaces"},
		{"white space is removed and nothing else", "stripWhiteSpaces", "gegovStrip"},
		{"an argument is read without the white space around it", "Parser.argument", "gegovArgument"},
	} {
		if s := c.simulate(x[0], "step", x[1], x[2], x[3:]...); s != nil {
			s.pre = func(ctx *Ctx) { ctx.assume(bLt(mkVar("index", SNum, true), tZero), false) }
			s.results(x[0])
			s.effects(x[0])
		}
	}
}

func init() {
	register("Q02", "the work loop is the specified recurrence of pending states and visited keys, the handler called with the front state's key exactly when it was not visited; Parse hands every definition of the table to the loop; handlers only append work and never handle anything themselves", checkQ02)
	register("Q03", "the value printed for a surface has the specified value graph over the argument positions", checkQ03)
	register("Q04", "the pending states a handler leaves have the specified handlers and keys", checkQ04)
}

// parserArgs: symbolic arguments; a handler called through a state appends
// pending work to the parser and changes nothing else of it (Q02 and Q04
// check this of every handler).
func parserArgs(e *Eval, st *State, fn *ssa.Function) []Val {
	var a []Val
	var ps []*Ptr
	for _, p := range fn.Params {
		v := e.symArg(p.Name(), p.Type(), st)
		a = append(a, v)
		if x, ok := v.(*Ptr); ok && parserField(p.Type(), "nextStates") >= 0 {
			ps = append(ps, x)
		}
	}
	e.onDyn = func(st *State, fn *Term, args []*Term) {
		for _, p := range ps {
			l := p.Loc.with(Step{field: parserField(types.NewPointer(p.obj.typ), "nextStates")})
			e.storeTerm(st, l, mkCat(e.load(st, l), mkFn("pushed", SSeq, false, append([]*Term{fn}, args...)...)))
		}
	}
	return a
}

func parserField(T types.Type, name string) int {
	p, ok := under(T).(*types.Pointer)
	if !ok {
		return -1
	}
	s, ok := under(p.Elem()).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func checkQ02(c *Chk) {
	appendOnly(c)
	l := "pending work is taken from the front, each key once"
	if s := c.simulateWith(l, "step", "Parser.runInferenceModel", "gegovRun", parserArgs); s != nil {
		s.results(l)
		s.effects(l)
		s.calls("a handler is called once for a key not visited", "dynamic")
	}
	l = "every definition is handed to the work loop"
	if s := c.simulate(l, "step", "Parse", "gegovParse", "Parser.runInferenceModel", "=Parser.bridge"); s != nil {
		s.results(l)
		s.calls(l, "(*geGoMetry/step.Parser).runInferenceModel")
	}
}

func checkQ03(c *Chk) {
	l := "attributes come from their positions"
	if s := c.simulate(l, "step", "Parser.bSplineSurfaceWithKnots", "gegovSurface", "bSplineSurfaceWithKnots.print", "=getMatrix", "=getArray"); s != nil {
		s.results(l)
		s.calls(l, "(geGoMetry/step.bSplineSurfaceWithKnots).print")
	}
}

func checkQ04(c *Chk) {
	for _, x := range [][2]string{
		{"productDefinitionShape", "gegovShape"},
		{"productDefinition", "gegovDefinition"},
		{"axis2Placement3D", "gegovPlacement"},
		{"advancedFace", "gegovFace"},
	} {
		l := x[0] + " follows its references"
		if s := c.simulate(l, "step", "Parser."+x[0], x[1]); s != nil {
			s.results(l)
			s.pending(l)
		}
	}
}

// pending: the states specified are among those added
func (s *simulation) pending(label string) {
	if !s.done {
		return
	}
	c, w := s.c, s.cur.where()
	p, ok := s.cur.params[0].(*Ptr)
	if !ok {
		return
	}
	i := parserField(types.NewPointer(p.obj.typ), "nextStates")
	if i < 0 {
		c.unknown(label, w, "no field nextStates")
		return
	}
	c.try(label+" (pending work)", w, func() {
		l := label + " (pending work)"
		T := p.obj.typ
		got := getField(s.cur.post(0), T, i)
		want := getField(subst(s.ref.post(0), s.m), T, i)
		parts := func(t *Term) []*Term {
			if t.op == OCat {
				return t.args
			}
			return []*Term{t}
		}
		const extra = "more is added than specified"
		bad, unsure := "", ""
		limit := 20000
		newCtx().cases([]*Term{got, want}, &limit, func(d *Ctx, t []*Term) bool {
			a, b := parts(t[0]), parts(t[1])
			used := map[int]bool{}
			for _, y := range b {
				found := false
				for k, x := range a {
					if !used[k] && d.same(x, y) {
						used[k], found = true, true
						break
					}
				}
				if !found {
					why := clip(y.String()) + " is not added when " + joinLits(d.lits)
					for k, x := range a {
						if !used[k] && x.op != OUnit && k > 0 || !s.definite(x, t[1]) {
							unsure = why
						}
					}
					if unsure == "" || unsure == extra {
						bad = why
						return false
					}
				}
			}
			if len(a) > len(b) && bad == "" {
				unsure = extra
			}
			return true
		})
		switch {
		case bad != "":
			c.fail(l, w, bad)
		case unsure != "":
			c.unknown(l, w, unsure)
		default:
			c.ok(l, w)
		}
	})
}

func init() {
	register("Q01", "the dispatch function's value graph, with the type name fixed to each entity name and to any other text, is the handler of that entity or the skip handler", checkQ01)
}

// handlers of the supported entities by their ISO 10303 names; the second list
// may also be skipped, as their data is read where it is referred to
var entityHandlers = [][2]string{
	{"VERTEX_LOOP", "vertexLoop"},
	{"AXIS2_PLACEMENT_3D", "axis2Placement3D"},
	{"FACE", "face"},
	{"B_SPLINE_SURFACE_WITH_KNOTS", "bSplineSurfaceWithKnots"},
	{"ADVANCED_FACE", "advancedFace"},
	{"CLOSED_SHELL", "closedShell"},
	{"DIRECTION", "direction"},
	{"PRODUCT_DEFINITION", "productDefinition"},
	{"PRODUCT_DEFINITION_CONTEXT", "productDefinitionContext"},
	{"PRODUCT_DEFINITION_FORMATION", "productDefinitionFormation"},
	{"PRODUCT_DEFINITION_SHAPE", "productDefinitionShape"},
	{"SPHERICAL_SURFACE", "sphericalSurface"},
	{"TOROIDAL_SURFACE", "toroidalSurface"},
}
var entitySkipped = [][2]string{
	{"CARTESIAN_POINT", "cartesianPoint"},
	{"VERTEX_POINT", "vertexPoint"},
}

func checkQ01(c *Chk) {
	l := "dispatch by entity name"
	r := c.run("step", "Parser.bridge")
	if r == nil {
		return
	}
	w := r.where()
	if len(r.res) != 1 || len(r.fn.Params) != 2 {
		c.unknown(l, w, "another signature")
		return
	}
	DT := r.fn.Params[1].Type()
	ti := fieldIndex(DT, "Type")
	if ti < 0 {
		c.unknown(l, w, "a definition has no Type")
		return
	}
	var got, typ *Term
	c.try(l, w, func() {
		got = r.ret(0)
		typ = getField(r.e.toTerm(r.st0, r.params[1]), DT, ti)
	})
	if got == nil {
		return
	}
	target := func(t *Term) string {
		if fv, ok := r.e.funcs[t]; ok {
			return strings.TrimSuffix(fv.fn.Name(), "$bound")
		}
		if isNilT(t) {
			return "nil"
		}
		return ""
	}
	under := func(ctx *Ctx) string { return target(ctx.simp(got)) }
	named := func(n string) string {
		ctx := newCtx()
		ctx.assume(bEq(typ, mkStr(n)), true)
		return under(ctx)
	}
	one := func(n string, may ...string) {
		l := n + " is handled by " + may[0]
		c.try(l, w, func() {
			ctx := newCtx()
			ctx.assume(bEq(typ, mkStr(n)), true)
			h := ""
			limit := 200
			if ctx.cases([]*Term{got}, &limit, func(d *Ctx, s []*Term) bool {
				h = target(s[0])
				for _, m := range may {
					if h == m {
						return true
					}
				}
				return false
			}) {
				c.ok(l, w)
				return
			}
			if h == "" || P.fn("step", "Parser."+may[0]) == nil {
				c.unknown(l, w, "the handler is not a constant function")
				return
			}
			c.fail(l, w, n+" is handed to "+h)
		})
	}
	known := map[string]bool{}
	for _, x := range entityHandlers {
		known[x[0]] = true
		one(x[0], x[1])
	}
	for _, x := range entitySkipped {
		known[x[0]] = true
		one(x[0], x[1], "skipUtility")
	}
	lits := map[string]bool{}
	anyTerm(got, func(t *Term) bool {
		if t.op == OStrC {
			lits[t.name] = true
		}
		return false
	})
	var names []string
	for n := range lits {
		names = append(names, n)
	}
	sort.Strings(names)
	taken := map[string]string{}
	for _, x := range entityHandlers {
		taken[x[1]] = x[0]
	}
	for _, n := range names {
		if known[n] {
			continue
		}
		l := "the name " + n
		c.try(l, w, func() {
			switch h := named(n); {
			case h == "skipUtility":
				c.ok(l, w)
			case taken[h] != "":
				c.fail(l, w, "the handler of "+taken[h]+" is given "+n)
			case h == "nil":
				c.fail(l, w, "no handler")
			case strings.EqualFold(strings.ReplaceAll(n, "_", ""), h):
				c.ok(l, w)
			default:
				c.unknown(l, w, "handled by "+h)
			}
		})
	}
	l = "any other name is skipped"
	c.try(l, w, func() {
		ctx := newCtx()
		for _, n := range names {
			ctx.assume(bEq(typ, mkStr(n)), false)
		}
		limit := 2000
		bad, vagueH := "", ""
		ctx.cases([]*Term{got}, &limit, func(d *Ctx, s []*Term) bool {
			switch h := target(s[0]); h {
			case "skipUtility":
			case "":
				vagueH = s[0].String()
			default:
				bad = h + " when " + joinLits(d.lits)
			}
			return bad == ""
		})
		switch {
		case bad != "":
			if q := vague(got); q != "" {
				c.unknown(l, w, bad)
			} else {
				c.fail(l, w, bad)
			}
		case vagueH != "":
			c.unknown(l, w, clip(vagueH))
		default:
			c.ok(l, w)
		}
	})
}

// handlersOf: the functions used as handlers: those bound into states or
// returned by the dispatch
func handlersOf() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range ownFuncs() {
		if fn.Pkg != P.pkgs["step"] || hasPfx(fn.Name(), "gegov") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				g, ok := mc.Fn.(*ssa.Function)
				if !ok || !strings.HasSuffix(g.Name(), "$bound") {
					continue
				}
				if m, ok := g.Object().(*types.Func); ok {
					if h := fn.Prog.FuncValue(m); h != nil && !seen[h] && P.inRep[h.Pkg] && len(h.Params) == 2 && isString(h.Params[1].Type()) {
						seen[h] = true
						out = append(out, h)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// appendOnly: a handler leaves the table and the visited keys alone, adds
// pending work behind what is pending, and handles nothing itself.
// extends: the list x starts with all of old. A list carried by a loop does
// when it starts that way and every pass only adds to it.
func extends(e *Eval, x, old *Term, depth int) bool {
	if x == old {
		return true
	}
	if depth > 8 {
		return false
	}
	switch x.op {
	case OCat:
		return extends(e, x.args[0], old, depth+1)
	case OIte:
		return extends(e, x.args[1], old, depth+1) && extends(e, x.args[2], old, depth+1)
	}
	for _, L := range e.loopsRec {
		for _, v := range L.vars {
			if v.sym == x && v.init != nil && v.step != nil {
				return extends(e, v.init, old, depth+1) && extends(e, v.step, x, depth+1)
			}
		}
	}
	return false
}

func appendOnly(c *Chk) {
	hs := handlersOf()
	isH := map[*ssa.Function]bool{}
	for _, h := range hs {
		isH[h] = true
	}
	for _, h := range hs {
		l := h.Name() + " only adds pending work"
		w := fnPos(h)
		for _, g := range reachable(h) {
			if g.Synthetic != "" || isH[g] && g != h {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().IsInvoke() {
						continue
					}
					if f := call.Common().StaticCallee(); f != nil && isH[f] {
						c.fail(l, relPos(g.Prog, in.Pos())+" in "+g.String(), f.Name()+" is called directly, whether the key was visited or not")
						return
					}
				}
			}
		}
		c.try(l, w, func() {
			e := newEval()
			e.open = true
			st := newState()
			args := parserArgs(e, st, h)
			r := evalFn(e, h, args, st)
			c.insts += e.steps
			c.fns[h.String()] = true
			if r.err != "" {
				c.unknown(l, w, r.err)
				return
			}
			p, ok := args[0].(*Ptr)
			if !ok {
				c.unknown(l, w, "the receiver is not a pointer")
				return
			}
			T := p.obj.typ
			before, after := e.load(st, p.Loc), e.load(r.st, p.Loc)
			PT := types.NewPointer(T)
			for _, n := range []string{"lexemes", "visited"} {
				i := parserField(PT, n)
				if i < 0 {
					c.unknown(l, w, "no field "+n)
					return
				}
				if x, y := getField(before, T, i), getField(after, T, i); x != y {
					if vague(y) != "" {
						c.unknown(l, w, n+" may change")
					} else {
						c.fail(l, w, n+" becomes "+clip(y.String()))
					}
					return
				}
			}
			i := parserField(PT, "nextStates")
			if i < 0 {
				c.unknown(l, w, "no field nextStates")
				return
			}
			old := getField(before, T, i)
			limit := 2000
			bad := ""
			sure := true
			newCtx().cases([]*Term{getField(after, T, i)}, &limit, func(d *Ctx, s []*Term) bool {
				x := s[0]
				if extends(e, x, old, 0) {
					return true
				}
				bad = clip(x.String()) + " when " + joinLits(d.lits)
				sure = vague(x) == "" || x.op == OCat && occurs(x, old)
				for _, L := range e.loopsRec {
					for _, v := range L.vars {
						sure = sure && (v.sym == nil || !occurs(x, v.sym))
					}
				}
				return false
			})
			switch {
			case bad == "":
				c.ok(l, w)
			case sure:
				c.fail(l, w, "the pending work becomes "+bad)
			default:
				c.unknown(l, w, "the pending work becomes "+bad)
			}
		})
	}
	if len(hs) == 0 {
		c.unknown("handlers only add pending work", "step", "no handlers found")
	}
}

func init() {
	register("L04", "every index and slice expression the reader and the handlers evaluate lies in range under the condition it is reached with, for every file content; nothing but an error of reading the file ends in a panic", checkL04)
}

func checkL04(c *Chk) {
	roots := []*ssa.Function{}
	for _, n := range []string{"Lexer.Lex", "Parse", "Parser.runInferenceModel", "Parser.bridge"} {
		if f := P.fn("step", n); f != nil {
			roots = append(roots, f)
		}
	}
	roots = append(roots, handlersOf()...)
	for _, f := range roots {
		crashes(c, "nothing is read out of range in "+f.Name(), f)
	}
	contentPanics(c, roots)
}

// crashes judges the index and slice expressions met when fn is evaluated.
func crashes(c *Chk, label string, fn *ssa.Function) {
	w := fnPos(fn)
	c.try(label, w, func() {
		e := newEval()
		e.open = true
		st := newState()
		r := evalFn(e, fn, parserArgs(e, st, fn), st)
		c.insts += e.steps
		for g := range e.analysed {
			c.fns[g.String()] = true
		}
		if r.err != "" {
			c.unknown(label, w, r.err)
			return
		}
		und, failed := "", map[string]bool{}
		for _, ev := range e.events {
			if ev.kind != "index" && ev.kind != "slice" {
				continue
			}
			cond := ev.cond()
			if cond == tFalse {
				continue
			}
			c.sites++
			ctx := newCtx()
			for _, l := range ev.loops {
				ctx.assume(bLt(l.K, tZero), false)
			}
			n := len(ev.args)
			lo, hi, ln := ev.args[0], ev.args[0], ev.args[n-1]
			if ev.kind == "slice" {
				hi = ev.args[1]
			}
			if provedInRange(ctx, ev.kind, cond, lo, hi, ln) || ev.fn != fn && safeAlone(ev.fn) {
				continue
			}
			why := ""
			for _, u := range unrolled(e) {
				if why = reachableOutside(bAnd(u.also, u.at(cond)), u.at(lo), u.at(hi), u.at(ln), ev.kind == "index"); why != "" {
					break
				}
			}
			if why != "" {
				if !failed[ev.where()] {
					failed[ev.where()] = true
					c.fail(label, ev.where(), ev.kind+" out of range "+why)
				}
				continue
			}
			und = ev.where() + ": " + ev.kind + " " + clip(lo.String()) + " of " + clip(ln.String())
		}
		switch {
		case len(failed) > 0:
		case und != "":
			c.unknown(label, w, und)
		default:
			c.ok(label, w)
		}
	})
}

func provedInRange(base *Ctx, kind string, cond, lo, hi, ln *Term) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(undecidedErr); !is {
				panic(x)
			}
			ok = false
		}
	}()
	ctx := base.clone()
	ctx.assume(cond, true)
	test := func(ctx *Ctx, lo, hi, ln *Term) bool {
		if kind == "index" {
			return inRange(ctx, lo, ln, false, 0)
		}
		return inRange(ctx, hi, ln, true, 0) && inRange(ctx, lo, hi, true, 0)
	}
	if test(ctx, lo, hi, ln) {
		return true
	}
	limit := 200
	return base.cases([]*Term{cond, lo, hi, ln}, &limit, func(d *Ctx, t []*Term) bool {
		if t[0] == tFalse {
			return true
		}
		d.assume(t[0], true)
		return d.bad || test(d, t[1], t[2], t[3])
	})
}

var safeMemo = map[*ssa.Function]bool{}

// safeAlone: whatever it is called with, a function of texts reads nothing out
// of range
func safeAlone(fn *ssa.Function) bool {
	if ok, seen := safeMemo[fn]; seen {
		return ok
	}
	safeMemo[fn] = false
	if len(fn.FreeVars) > 0 {
		return false
	}
	for _, p := range fn.Params {
		if _, basic := p.Type().Underlying().(*types.Basic); !basic {
			return false
		}
	}
	ok := true
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(undecidedErr); !is {
					panic(x)
				}
				ok = false
			}
		}()
		e := newEval()
		e.open = true
		st := newState()
		r := evalFn(e, fn, parserArgs(e, st, fn), st)
		if r.err != "" {
			ok = false
			return
		}
		for _, ev := range e.events {
			if ev.kind != "index" && ev.kind != "slice" {
				continue
			}
			cond := ev.cond()
			if cond == tFalse {
				continue
			}
			ctx := newCtx()
			for _, l := range ev.loops {
				ctx.assume(bLt(l.K, tZero), false)
			}
			n := len(ev.args)
			hi := ev.args[0]
			if ev.kind == "slice" {
				hi = ev.args[1]
			}
			ok = ok && provedInRange(ctx, ev.kind, cond, ev.args[0], hi, ev.args[n-1])
		}
	}()
	safeMemo[fn] = ok
	return ok
}

// fromInput: a text or list whose length the file content alone decides
func fromInput(t *Term) bool {
	bad := false
	anyTerm(t, func(x *Term) bool {
		switch x.op {
		case OVar:
			bad = bad || isXName(x.name) || hasPfx(x.name, "λ") || hasPfx(x.name, "after:") || hasPfx(x.name, "global:") && x.name != "global:EOF"
		case OFn:
			bad = bad || x.name == "runeoff" || x.name == "runelen" // tied to the length
			n := strings.TrimPrefix(x.name, "opq:")
			if n != x.name {
				ok := false
				for _, p := range []string{"(*bufio.Reader).ReadLine", "bufio.NewReader", "os.Open", "strings.TrimSpace", "strings.Trim", "strings.Fields"} {
					ok = ok || hasPfx(n, p)
				}
				bad = bad || !ok
			}
		case OFold:
			bad = true
		}
		return bad
	})
	return !bad
}

// outsideCase: a combination of the conditions under which the expression is
// reached and its position is outside
func outsideCase(ctx *Ctx, cond, lo, hi, ln *Term, index bool, path []string, limit *int) string {
	if *limit--; *limit < 0 || ctx.bad {
		return ""
	}
	cond = ctx.simp(cond)
	if cond == tFalse {
		return ""
	}
	lo, hi, ln = ctx.simp(lo), ctx.simp(hi), ctx.simp(ln)
	at := firstAtom(cond)
	if cond != tTrue && at == nil {
		return ""
	}
	if at == nil {
		at = firstAtom(lo, hi, ln)
	}
	if at == nil {
		below := bLt(ln, hi)
		if index {
			below = bNot(bLt(hi, ln))
		}
		for i, b := range []*Term{bLt(lo, tZero), bLt(hi, lo), below} {
			if b = ctx.simp(b); b == tTrue {
				return "when " + clip(strings.Join(path, " and "))
			}
			if i != 1 && b != tFalse {
				d := ctx.clone()
				d.assume(b, true)
				if !d.bad && d.simp(b) == tTrue {
					return "when " + clip(strings.Join(append(path, b.String()), " and "))
				}
			}
		}
		return ""
	}
	for _, v := range []bool{true, false} {
		d := ctx.clone()
		d.assumeAtom(at, v)
		t := at.String()
		if !v {
			t = "not " + t
		}
		if s := outsideCase(d, cond, lo, hi, ln, index, append(path[:len(path):len(path)], t), limit); s != "" {
			return s
		}
	}
	return ""
}

// unrolling puts the symbols of open loops at an early iteration
type unrolling struct {
	at   func(*Term) *Term
	also *Term // the iterations before it are completed
}

// unrolled: as it stands; with every loop at its first iteration; and with one
// loop at its second iteration, the others at the first.
func unrolled(e *Eval) []unrolling {
	out := []unrolling{{func(t *Term) *Term { return t }, tTrue}}
	if len(e.loopsRec) == 0 {
		return out
	}
	zero := map[*Term]*Term{}
	for _, l := range e.loopsRec {
		zero[l.K] = tZero
		for _, v := range l.vars {
			if v.sym != nil && v.init != nil {
				zero[baseSym(v.sym)] = v.init
			}
		}
	}
	resolve := func(m map[*Term]*Term) func(*Term) *Term {
		return func(t *Term) *Term {
			for i := 0; i < 8; i++ {
				u := subst(t, m)
				if u == t {
					break
				}
				t = u
			}
			return t
		}
	}
	first := resolve(zero)
	out = append(out, unrolling{first, tTrue})
	for _, l := range e.loopsRec {
		own := map[*Term]*Term{l.K: tZero}
		for _, v := range l.vars {
			if v.sym != nil && v.init != nil {
				own[baseSym(v.sym)] = v.init
			}
		}
		if len(own) == 1 {
			continue
		}
		m := map[*Term]*Term{}
		for k, v := range zero {
			m[k] = v
		}
		m[l.K] = tOne
		for _, v := range l.vars {
			if v.sym != nil && v.step != nil {
				m[baseSym(v.sym)] = earlier(subst(v.step, own))
			}
		}
		// symbols of l inside the steps are already placed
		out = append(out, unrolling{resolve(m), earlier(first(l.cont))})
	}
	return out
}

// earlier: what an iteration before the one looked at has read
func earlier(t *Term) *Term {
	m := map[*Term]*Term{}
	anyTerm(t, func(x *Term) bool {
		if x.op == OFn && hasPfx(x.name, "opq:(*bufio.Reader).Read") {
			m[x] = mkFn(x.name+"@", x.sort, x.isInt, x.args...)
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}

// reachableOutside looks for an input with which the expression is reached and
// its position is outside: small lengths, and texts without what is searched
// for.
func reachableOutside(cond, lo, hi, ln *Term, index bool) string {
	var cand []*Term // assumptions
	var txt []string
	add := func(b *Term, s string) {
		cand = append(cand, b)
		txt = append(txt, s)
	}
	seen := map[*Term]bool{}
	collect := func(t *Term) {
		anyTerm(t, func(x *Term) bool {
			if seen[x] || x.op != OFn {
				return false
			}
			seen[x] = true
			switch {
			case x.name == "len" && fromInput(x.args[0]):
				for k := 0; k < 4; k++ {
					add(bEq0(tSub(x, numInt(int64(k)))), x.String()+" is "+itoa(k))
				}
			case x.name == "indexof" && fromInput(x):
				add(bEq0(tAdd(x, tOne)), x.String()+" is -1")
				add(bEq0(x), x.String()+" is 0")
			case x.name == "maphas" && fromInput(x):
				add(bNot(bHolds(x)), "not "+x.String())
			}
			return false
		})
	}
	for _, t := range []*Term{lo, hi, ln, cond} {
		collect(t)
	}
	test := func(ids ...int) string {
		ctx := newCtx()
		s := "always"
		for i, k := range ids {
			ctx.assume(cand[k], true)
			if i == 0 {
				s = "when " + txt[k]
			} else {
				s += " and " + txt[k]
			}
		}
		if ctx.bad || ctx.simp(cond) != tTrue {
			return ""
		}
		a, b, n := ctx.simp(lo), ctx.simp(hi), ctx.simp(ln)
		out := ctx.simp(bLt(a, tZero)) == tTrue || ctx.simp(bLt(b, a)) == tTrue || ctx.simp(bLt(n, b)) == tTrue
		if index {
			out = out || ctx.simp(bLt(a, n)) == tFalse
		}
		if out {
			return clip(s)
		}
		return ""
	}
	if s := test(); s != "" {
		return s
	}
	if fromInput(cond) && fromInput(lo) && fromInput(hi) && fromInput(ln) {
		limit := 3000
		ctx := newCtx()
		for _, t := range []*Term{lo, hi, ln, cond} {
			anyTerm(t, func(x *Term) bool {
				if x.op == OFn && x.name == "indexof" && x.args[1].op == OStrC && x.args[1].name != "" {
					ctx.assume(bLt(x, mkLen(x.args[0])), true)
				}
				return false
			})
		}
		return outsideCase(ctx, cond, lo, hi, ln, index, nil, &limit)
	}
	if len(cand) > 60 {
		cand = cand[:60]
	}
	for i := range cand {
		if s := test(i); s != "" {
			return s
		}
	}
	for i := range cand {
		for j := 0; j < i; j++ {
			if s := test(i, j); s != "" {
				return s
			}
		}
	}
	return ""
}

// contentPanics: a panic of the reader carries an error of a file operation
func contentPanics(c *Chk, roots []*ssa.Function) {
	label := "no content ends in a panic"
	fns := reachable(roots...)
	var carries func(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) string
	callsOf := callers()
	// "" when the value is an error of a file operation, otherwise what it is
	carries = func(v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return "a value of type " + x.X.Type().String()
		case *ssa.ChangeInterface:
			return carries(x.X, fn, seen)
		case *ssa.TypeAssert:
			return carries(x.X, fn, seen)
		case *ssa.Const:
			return ""
		case *ssa.Phi:
			for _, e := range x.Edges {
				if s := carries(e, fn, seen); s != "" {
					return s
				}
			}
			return ""
		case *ssa.Extract:
			return carries(x.Tuple, fn, seen)
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				return "?"
			}
			if g.Pkg != nil && !P.inRep[g.Pkg] {
				switch g.Pkg.Pkg.Path() {
				case "os", "io", "bufio", "io/fs", "path/filepath":
					return ""
				case "strconv", "errors", "fmt", "regexp", "unicode/utf8", "time", "encoding/json":
					return "an error of " + g.String()
				}
				return "?"
			}
			s := ""
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok {
						for _, res := range ret.Results {
							if types.Identical(res.Type(), x.Type()) || types.Implements(res.Type(), errType()) {
								if t := carries(res, g, seen); t != "" {
									s = t
								}
							}
						}
					}
				}
			}
			return s
		case *ssa.Parameter:
			i := -1
			for k, p := range fn.Params {
				if p == x {
					i = k
				}
			}
			s := ""
			for _, g := range callsOf[fn] {
				in := false
				for _, h := range fns {
					in = in || h == g
				}
				if !in || hasPfx(g.Name(), "gegov") {
					continue
				}
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn && i >= 0 && i < len(call.Common().Args) {
							if t := carries(call.Common().Args[i], g, seen); t != "" {
								s = t + " at " + relPos(g.Prog, ins.Pos())
							}
						}
					}
				}
			}
			return s
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.Global); ok {
				return "?"
			}
		}
		return "?"
	}
	n := 0
	for _, fn := range fns {
		if fn.Synthetic != "" || hasPfx(fn.Name(), "gegov") || fn.Pkg != P.pkgs["step"] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Panic)
				if !ok {
					continue
				}
				n++
				c.sites++
				w := relPos(fn.Prog, p.Pos()) + " in " + fn.String()
				var s string
				if mi, ok := p.X.(*ssa.MakeInterface); ok {
					s = "a value of type " + mi.X.Type().String()
				} else {
					s = carries(p.X, fn, map[ssa.Value]bool{})
				}
				switch {
				case s == "" && panicsOnNil(fn, p):
					c.fail(label, w, "the panic is raised without an error")
				case s == "":
					c.ok(label, w)
				case s[0] == '?':
					c.unknown(label, w, "the origin of the value is not known")
				default:
					c.fail(label, w, "the panic carries "+s)
				}
			}
		}
	}
	if n == 0 {
		c.ok(label, "step")
	}
}

func errType() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

// panicsOnNil: the panic is raised even when the error it carries is nil
func panicsOnNil(fn *ssa.Function, p *ssa.Panic) (bad bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(undecidedErr); !is {
				panic(x)
			}
			bad = false
		}
	}()
	e := newEval()
	e.open = true
	st := newState()
	r := evalFn(e, fn, parserArgs(e, st, fn), st)
	if r.err != "" {
		return false
	}
	for _, ev := range e.events {
		if ev.kind != "panic" || ev.instr != ssa.Instruction(p) || len(ev.args) != 1 {
			continue
		}
		ctx := newCtx()
		ctx.assume(bEq(ev.args[0], tNil), true)
		if !ctx.bad && ctx.simp(ev.cond()) == tTrue {
			return true
		}
	}
	return false
}
