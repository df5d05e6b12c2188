package main

// Checks: each property is a set of obligations. An obligation is discharged
// (the rule holds on the value graph), violated (the graph positively differs)
// or undecided (the analysis could not summarise the construct).

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Label  string `json:"obligation"`
	Where  string `json:"where"`
	Rule   string `json:"rule,omitempty"`
	Status string `json:"status"`
	Detail string `json:"detail,omitempty"`
}

type Chk struct {
	id    string
	tier  string
	obls  []Obl
	fns   map[string]bool
	insts int
	sites int
	rule  string
}

type checkDef struct {
	id   string
	rule string
	run  func(*Chk)
}

var checks = map[string]checkDef{}

func register(id, rule string, run func(*Chk)) { checks[id] = checkDef{id, rule, run} }

func (c *Chk) add(label, where, status, detail string) {
	c.obls = append(c.obls, Obl{Label: label, Where: where, Status: status, Detail: clipN(detail, envInt("GEGOV_CLIP", 4000))})
}
func (c *Chk) ok(label, where string)              { c.add(label, where, "discharged", "") }
func (c *Chk) fail(label, where, detail string)    { c.add(label, where, "violated", detail) }
func (c *Chk) unknown(label, where, detail string) { c.add(label, where, "undecided", detail) }

func (c *Chk) undecided() int {
	n := 0
	for _, o := range c.obls {
		if o.Status == "undecided" {
			n++
		}
	}
	return n
}

var oblBudget = 25 * time.Second

// try runs one obligation, turning analysis limits into undecided.
func (c *Chk) try(label, where string, f func()) {
	deadline = time.Now().Add(oblBudget)
	defer func() {
		deadline = time.Time{}
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok {
				c.unknown(label, where, u.msg)
				return
			}
			if os.Getenv("GEGOV_PANIC") != "" {
				panic(x)
			}
			c.unknown(label, where, fmt.Sprint("analysis failed: ", x))
		}
	}()
	f()
}

// hold records the outcome of a decided rule.
func (c *Chk) hold(label, where string, ok bool, detail string) {
	if ok {
		c.ok(label, where)
	} else {
		c.fail(label, where, detail)
	}
}

// eq: got equals want in every consistent ordering of the compared quantities.
func (c *Chk) eq(label, where string, ctx *Ctx, got, want *Term) {
	c.try(label, where, func() {
		if ctx == nil {
			ctx = newCtx()
		}
		ok, why := ctx.equal(got, want)
		if ok {
			c.ok(label, where)
			return
		}
		if r := vague(got); r != "" {
			if w := definiteCase(ctx, got, want); w != "" {
				c.fail(label, where, w)
				return
			}
			c.unknown(label, where, "not comparable ("+r+"): "+why)
			return
		}
		if r := unlike(got, want); r != "" {
			c.unknown(label, where, "not comparable ("+r+"): "+why)
			return
		}
		c.fail(label, where, why)
	})
}

// definiteCase: a case in which nothing that was not interpreted plays a part
// and the two differ
func definiteCase(ctx *Ctx, got, want *Term) string {
	why := ""
	limit := 20000
	ctx.cases([]*Term{got, want}, &limit, func(d *Ctx, s []*Term) bool {
		if d.same(s[0], s[1]) || vague(s[0])+vague(s[1])+unlike(s[0], s[1]) != "" {
			return true
		}
		for _, l := range d.lits {
			for _, m := range []string{"opq:", "fold#", "after:", "unsolved", "κ", "φ"} {
				if strings.Contains(l, m) {
					return true
				}
			}
		}
		why = "when " + joinLits(d.lits) + ": " + clip(s[0].String()) + "  vs  " + clip(s[1].String())
		return false
	})
	return why
}

// unlike: the term contains a sum, comprehension or list operation of a kind
// the other has none of, which the comparison cannot see through.
func unlike(t, o *Term) string {
	kind := func(y *Term) string {
		switch {
		case y.op == OSum:
			return "sum"
		case y.op == OComp:
			return "comprehension"
		case y.op == OFn:
			switch y.name {
			case "strlt", "sorted", "bytes", "sortedby", "reversed", "mapset", "mapkeys", "strsub", "strmap", "sprintf", "sprint", "runes2str", "runes", "revpart", "pushed", "outofrange", "mapkey", "maphas", "mapget", "mapdel", "bytes2str":
				return y.name
			}
		}
		return ""
	}
	has := map[string]bool{"": true}
	anyTerm(o, func(y *Term) bool { has[kind(y)] = true; return false })
	r := ""
	anyTerm(t, func(y *Term) bool {
		if !has[kind(y)] {
			r = clipN(y.String(), 80)
			return true
		}
		return false
	})
	return r
}

// vague: the term contains parts the evaluator could not interpret, so that a
// difference does not show that the value is different.
func vague(t *Term) string {
	r := ""
	anyTerm(t, func(y *Term) bool {
		if y.op == OFn && (strings.HasPrefix(y.name, "opq:") || strings.HasPrefix(y.name, "unsolved")) || y.op == OFold || y.op == OVar && strings.HasPrefix(y.name, "after:") {
			r = clipN(y.String(), 80)
			return true
		}
		return false
	})
	return r
}

// open: an obligation of this label has been left open
func (c *Chk) open(label string) bool {
	for _, o := range c.obls {
		if o.Label == label && o.Status == "undecided" {
			return true
		}
	}
	return false
}

// run evaluates a function of the repository on symbolic arguments.
func (c *Chk) run(pkg, name string, opaque ...string) *Run {
	return c.runWith(pkg, name, nil, opaque...)
}
func (c *Chk) runWith(pkg, name string, args func(*Eval, *State, *ssa.Function) []Val, opaque ...string) *Run {
	fn := P.fn(pkg, name)
	label := "value graph of " + pkg + "." + name
	if fn == nil {
		c.unknown(label, pkg+"."+name, "no such function")
		return nil
	}
	e := newEval()
	for _, o := range opaque {
		pure := hasPfx(o, "=")
		o = strings.TrimPrefix(o, "=")
		i := strings.Index(o, ":")
		p, n := pkg, o
		if i >= 0 {
			p, n = o[:i], o[i+1:]
		}
		if f := P.fn(p, n); f != nil {
			if pure {
				if e.pureFn == nil {
					e.pureFn = map[*ssa.Function]bool{}
				}
				e.pureFn[f] = true
			} else {
				e.opaque[f] = true
			}
		}
	}
	var r *Run
	c.try(label, fnPos(fn), func() {
		st := newState()
		var a []Val
		if args != nil {
			a = args(e, st, fn)
		}
		r = evalFn(e, fn, a, st)
	})
	for f := range e.analysed {
		c.fns[f.String()] = true
	}
	c.insts += e.steps
	if r == nil {
		return nil
	}
	if r.err != "" {
		c.unknown(label, fnPos(fn), r.err)
		return nil
	}
	return r
}

func (r *Run) where() string { return fnPos(r.fn) + " in " + r.fn.String() }

// pterm: parameter i (the receiver first) on entry
func (r *Run) pterm(i int) *Term {
	if p, ok := r.params[i].(*Ptr); ok {
		return r.e.load(r.st0, p.Loc)
	}
	return r.e.toTerm(r.st0, r.params[i])
}
func (r *Run) ptype(i int) types.Type {
	T := r.fn.Params[i].Type()
	if p, ok := under(T).(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// post: the object parameter i points to, after the call
func (r *Run) post(i int) *Term { return r.e.load(r.st, r.params[i].(*Ptr).Loc) }

func fieldIndex(T types.Type, name string) int {
	s, ok := under(T).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fld: field of a struct term, by name
func fld(t *Term, T types.Type, name string) *Term {
	i := fieldIndex(T, name)
	if i < 0 {
		panic(undecided("no field " + name + " in " + T.String()))
	}
	return getField(t, T, i)
}
func fldT(T types.Type, name string) types.Type {
	i := fieldIndex(T, name)
	if i < 0 {
		panic(undecided("no field " + name + " in " + T.String()))
	}
	return fieldOf(T, i)
}

type V3 [3]*Term

func vecT() types.Type { return P.typ("r3", "Vector") }
func vec(t *Term) V3 {
	T := vecT()
	return V3{fld(t, T, "X"), fld(t, T, "Y"), fld(t, T, "Z")}
}
func (r *Run) vec(i int) V3    { return vec(r.pterm(i)) }
func (r *Run) retVec(i int) V3 { return vec(r.ret(i)) }
func (a V3) add(b V3) V3       { return V3{tAdd(a[0], b[0]), tAdd(a[1], b[1]), tAdd(a[2], b[2])} }
func (a V3) sub(b V3) V3       { return V3{tSub(a[0], b[0]), tSub(a[1], b[1]), tSub(a[2], b[2])} }
func (a V3) scale(f *Term) V3  { return V3{tMul(f, a[0]), tMul(f, a[1]), tMul(f, a[2])} }
func (a V3) dot(b V3) *Term    { return tAdd(tMul(a[0], b[0]), tMul(a[1], b[1]), tMul(a[2], b[2])) }
func (a V3) cross(b V3) V3 {
	return V3{tSub(tMul(a[1], b[2]), tMul(a[2], b[1])), tSub(tMul(a[2], b[0]), tMul(a[0], b[2])), tSub(tMul(a[0], b[1]), tMul(a[1], b[0]))}
}
func (a V3) norm2() *Term { return a.dot(a) }

var axes = [3]string{"X", "Y", "Z"}

// eqVec compares componentwise.
func (c *Chk) eqVec(label string, r *Run, got, want V3) {
	for i := range got {
		c.eq(label+" ."+axes[i], r.where(), nil, got[i], want[i])
	}
}

// pure: the evaluation has no effect outside the objects in allowed and raises
// no panic (panics are compared by the caller when allowPanic).
func (c *Chk) pure(r *Run, allowPanic bool, allowed ...int) {
	label := "no other effect of " + r.fn.RelString(nil)
	bad := ""
	where := r.where()
	own := map[*Object]bool{}
	for _, i := range allowed {
		if p, ok := r.params[i].(*Ptr); ok {
			own[p.obj] = true
		}
	}
	for _, ev := range r.e.events {
		switch ev.kind {
		case "extstore", "globalstore", "mapupdate", "mapdelete":
			if ev.vals != nil {
				if p, ok := ev.vals[0].(*Ptr); ok && own[p.obj] {
					continue
				}
			}
			if ev.kind == "extstore" && extOwned(r, ev, own) {
				continue
			}
			if ev.cond() == tFalse || ev.kind[0] == 'm' && !callersMap(r, ev) {
				continue
			}
			bad, where = ev.kind+" of "+ev.name, ev.where()
		case "go", "send":
			bad, where = ev.kind, ev.where()
		case "panic":
			if !allowPanic && ev.cond() != tFalse {
				bad, where = "panic when "+clip(ev.cond().String()), ev.where()
			}
		}
	}
	if bad == "" {
		c.ok(label, where)
	} else {
		c.fail(label, where, bad)
	}
}

// callersMap: the map written to came from outside the function
func callersMap(r *Run, ev *Event) bool {
	if ev.vals == nil {
		return true
	}
	m, ok := ev.vals[0].(*MapV)
	if !ok {
		return true
	}
	if !m.obj.ext {
		return m.obj.glob != nil
	}
	t := m.obj.init
	for t != nil && t.op == OFn && len(t.args) > 0 && (hasPfx(t.name, "field") || t.name == "sel" || hasPfx(t.name, "map")) {
		t = t.args[0]
	}
	if t == nil || t.op != OVar {
		return false
	}
	if hasPfx(t.name, "global:") {
		return true
	}
	for _, p := range r.fn.Params {
		if t.name == p.Name() {
			return true
		}
	}
	return false
}

func extOwned(r *Run, ev *Event, own map[*Object]bool) bool {
	for o := range own {
		if ev.name == o.name || strings.HasPrefix(ev.name, o.name+".") || strings.HasPrefix(ev.name, o.name+"[") {
			return true
		}
	}
	return false
}

// ---------- running a check ----------

type known struct{ prop, key, text string }

func knownFindings(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=<obligation label> :: text
		l = strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(l, " :: ", 2)
		k := known{}
		if len(parts) == 2 {
			k.text = parts[1]
		}
		f := strings.SplitN(parts[0], " key=", 2)
		k.prop = strings.TrimPrefix(f[0], "property=")
		if len(f) == 2 {
			k.key = f[1]
		}
		out = append(out, k)
	}
	return out
}

func runCheck(id, home string) int {
	def, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	c := &Chk{id: id, tier: tier, fns: map[string]bool{}, rule: def.rule}
	def.run(c)
	return c.report(home, seed, t0)
}

func (c *Chk) report(home string, seed int, t0 time.Time) int {
	kn := knownFindings(home)
	var viol, und []Obl
	knownHit := 0
	disch := 0
	for _, o := range c.obls {
		switch o.Status {
		case "discharged":
			disch++
		case "undecided":
			und = append(und, o)
		case "violated":
			listed := false
			for _, k := range kn {
				if k.prop == c.id && k.key == o.Label {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.text)
					listed = true
					knownHit++
				}
			}
			if !listed {
				viol = append(viol, o)
			}
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	samples := []Obl{}
	for i, o := range c.obls {
		if i < 12 || o.Status != "discharged" {
			samples = append(samples, o)
		}
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":  "Static analysis of the current source of /repo (go/packages, go/ssa); nothing is executed. Rule: " + c.rule,
			"obligations":  len(c.obls),
			"discharged":   disch,
			"undecided":    len(und),
			"known":        knownHit,
			"functions":    fns,
			"instructions": c.insts,
			"sites":        c.sites,
			"samples":      samples,
		},
		"assumptions": []string{
			"arithmetic is that of the real numbers: rounding, overflow and NaN are outside the rule",
			"the Go type checker, golang.org/x/tools/go/ssa and the library models in tool/models.go are right",
			"undecided obligations are not counted as verified; they raise no alarm",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(viol),
	}
	os.MkdirAll(filepath.Join(home, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(home, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d instructions\n", c.id, len(c.obls), disch, len(und), len(viol), len(fns), c.insts)
	for _, o := range und {
		fmt.Printf("  undecided: %s at %s: %s\n", o.Label, o.Where, clipN(o.Detail, 300))
	}
	if len(viol) == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(home, "replay"), 0o755)
	rp := filepath.Join(home, "replay", c.id+".txt")
	var sb strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&sb, "property %s violated\n  obligation: %s\n  at: %s\n  %s\n\n", c.id, o.Label, o.Where, o.Detail)
		fmt.Printf("  violated: %s at %s: %s\n", o.Label, o.Where, clipN(o.Detail, envInt("GEGOV_CLIP", 500)))
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}

// tryQuiet runs a search for a definite violation; running into a limit finds
// none.
func (c *Chk) tryQuiet(f func()) {
	deadline = time.Now().Add(oblBudget)
	defer func() {
		deadline = time.Time{}
		if x := recover(); x != nil {
			if _, ok := x.(undecidedErr); !ok && os.Getenv("GEGOV_PANIC") != "" {
				panic(x)
			}
		}
	}()
	f()
}
