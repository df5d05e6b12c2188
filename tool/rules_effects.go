package main

// X02, X03: effects. Package-level state, concurrency and hidden inputs; files,
// their paths, their closing and the errors of file operations.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X02", "no store outside initialisation lands in a package-level variable or in memory it refers to (points-to), no goroutine is started without being waited for, and no command line, environment, clock or random source is referred to", checkX02)
	register("X03", "file operations are reached only through the three operations and with their paths (call graph, backward slice of the path); typestate open-close on every path; every path on which a file operation's error is not nil ends in a panic or returns it", checkX03)
}

// ownFuncs: the functions of the repository outside its tests
func ownFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range P.funcs {
		if len(fn.Blocks) > 0 && !strings.HasSuffix(P.pkgFile(fn), "_test.go") {
			out = append(out, fn)
		}
	}
	for pkg := range P.inRep {
		if m := pkg.Func("init"); m != nil && len(m.Blocks) > 0 {
			out = append(out, m)
		}
	}
	seen := map[*ssa.Function]bool{}
	var u []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		u = append(u, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	for _, f := range out {
		add(f)
	}
	sort.SliceStable(u, func(i, j int) bool { return u[i].String() < u[j].String() })
	return u
}

// isInit: runs only while the program is initialised
func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

// ---------- X02 ----------

func hiddenSource(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	n := f.Name()
	switch f.Pkg.Pkg.Path() {
	case "os":
		switch n {
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "Hostname", "Getpid", "Getppid", "Getuid", "Getgid", "UserHomeDir", "UserCacheDir", "UserConfigDir":
			return "the process environment"
		case "Setenv", "Unsetenv", "Clearenv", "Chdir":
			return "the process state"
		}
	case "flag":
		return "the process command line"
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc":
			return "the clock"
		}
	case "math/rand", "math/rand/v2", "crypto/rand":
		return "a random source"
	case "hash/maphash":
		return "a random seed"
	case "os/user":
		return "the process environment"
	}
	return ""
}

// base: the allocation in the same function an address is derived from
func base(v ssa.Value) ssa.Value {
	for i := 0; i < 100; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
	return v
}

func freshBase(v ssa.Value, d int) bool {
	switch x := base(v).(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshBase(x.Call.Args[0], d+1)
		}
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		if d > 4 {
			return true
		}
		for _, e := range x.Edges {
			if !freshBase(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func writeBase(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.Store:
		return x.Addr
	case *ssa.MapUpdate:
		return x.Map
	case *ssa.Call:
		if len(x.Call.Args) > 0 {
			return x.Call.Args[0]
		}
	}
	return nil
}

// mutableLib: a library type whose methods change it
func mutableLib(T types.Type) bool {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "bytes", "math/rand", "container/list", "container/ring", "container/heap", "bufio":
		return true
	case "strings":
		return n.Obj().Name() == "Builder" || n.Obj().Name() == "Reader"
	}
	return false
}

func checkX02(c *Chk) {
	fns := ownFuncs()
	f := newFlow()
	l := "no package-level variable is modified after initialisation"
	where := "all packages"
	done := false
	c.try(l, where, func() {
		for _, fn := range fns {
			for i, p := range fn.Params {
				a := f.reg(p)
				for _, x := range leafPaths(p.Type()) {
					lf := newLeaf()
					f.paramLeaf(lf, i, x.typ)
					a[x.path] = lf
				}
			}
			f.reach(fn)
		}
		f.settle()
		done = true
	})
	if !done {
		return
	}
	rooted := map[*AObj]string{}
	var mark func(o *AObj, name string)
	mark = func(o *AObj, name string) {
		if _, ok := rooted[o]; ok {
			return
		}
		rooted[o] = name
		ks := make([]string, 0, len(o.cells))
		for k := range o.cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, p := range f.places(Abs{"": o.cells[k]}) {
				mark(p.o, name)
			}
		}
	}
	for _, o := range f.list {
		if o.glob != nil && P.inRep[o.glob.Pkg] {
			mark(o, o.glob.String())
		}
	}
	bad := 0
	report := func(in ssa.Instruction, what string) {
		bad++
		if bad <= 4 {
			c.fail(l, at(in), what)
		}
	}
	seen := map[ssa.Instruction]bool{}
	for _, w := range f.sortedWrites() {
		c.sites++
		name, ok := rooted[w.pl.o]
		if !ok || isInit(w.fn) || seen[w.instr] {
			continue
		}
		if w.pl.o.glob != nil && !P.inRep[w.pl.o.glob.Pkg] {
			continue
		}
		if w.pl.o.glob == nil {
			// memory a global refers to: building it in a fresh allocation of
			// the same function is part of making it
			if b := writeBase(w.instr); b != nil && freshBase(b, 0) {
				continue
			}
			if w.pl.o.param >= 0 {
				continue
			}
			if onlyInit(w.fn) {
				continue
			}
		} else if strings.HasSuffix(w.pl.o.glob.Name(), "init$guard") || onlyInit(w.fn) {
			continue
		}
		seen[w.instr] = true
		report(w.instr, w.how+" to "+name+" (or what it refers to)")
	}
	for _, fn := range fns {
		c.fns[fn.String()] = true
		for _, b := range fn.Blocks {
			c.insts += len(b.Instrs)
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || isInit(fn) {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && (g.Pkg == nil || P.inRep[g.Pkg]) {
					continue
				}
				if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				for _, a := range ci.Common().Args {
					if !mutableLib(a.Type()) {
						continue
					}
					for _, p := range f.places(f.get(a)) {
						if name, ok := rooted[p.o]; ok && !seen[in] {
							seen[in] = true
							report(in, name+" is handed to "+ci.Common().String())
						}
					}
				}
			}
		}
	}
	if bad == 0 {
		c.ok(l, where)
	}

	l2 := "no hidden input"
	n2 := 0
	l3 := "no goroutine is left behind"
	n3, u3 := 0, 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						if s := hiddenSource(g); s != "" {
							n2++
							if n2 <= 4 {
								c.fail(l2, at(in), "refers to "+g.String()+": "+s)
							}
						}
					case *ssa.Global:
						if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" {
							n2++
							c.fail(l2, at(in), "reads the process command line")
						}
						if g.Pkg != nil && g.Pkg.Pkg.Path() == "flag" || g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
							n2++
							c.fail(l2, at(in), "refers to "+g.String())
						}
					}
				}
				if _, ok := in.(*ssa.Go); ok {
					if waits(in) {
						u3++
						c.unknown(l3, at(in), "a goroutine is started and waited for")
					} else {
						n3++
						c.fail(l3, at(in), "a goroutine is started and not waited for")
					}
				}
			}
		}
	}
	if n2 == 0 {
		c.ok(l2, where)
	}
	if n3+u3 == 0 {
		c.ok(l3, where)
	}
}

func (f *Flow) settle() {
	for n := 0; ; n++ {
		f.changed = false
		for i := 0; i < len(f.order); i++ {
			f.function(f.order[i])
		}
		if !f.changed {
			return
		}
		if n > 60 {
			panic(undecided("flow does not settle"))
		}
		checkDeadline()
	}
}

// callers of the functions of the repository (static calls and mentions)
var callersOf map[*ssa.Function][]*ssa.Function

func callers() map[*ssa.Function][]*ssa.Function {
	if callersOf != nil {
		return callersOf
	}
	callersOf = map[*ssa.Function][]*ssa.Function{}
	for _, fn := range ownFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Pkg != nil && P.inRep[g.Pkg] {
						callersOf[g] = append(callersOf[g], fn)
					}
				}
			}
		}
	}
	return callersOf
}

// onlyInit: called by initialisation only
func onlyInit(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var w func(f *ssa.Function) bool
	w = func(f *ssa.Function) bool {
		if isInit(f) || seen[f] {
			return true
		}
		seen[f] = true
		for f.Parent() != nil {
			f = f.Parent()
		}
		cs := callers()[f]
		if len(cs) == 0 {
			return false
		}
		for _, g := range cs {
			if !w(g) {
				return false
			}
		}
		return true
	}
	return w(fn)
}

// waits: after the go statement the function waits on a group or a channel on
// every way out
func waits(g ssa.Instruction) bool {
	isWait := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case *ssa.Select:
			return x.Blocking
		case ssa.CallInstruction:
			f := x.Common().StaticCallee()
			return f != nil && f.String() == "(*sync.WaitGroup).Wait"
		}
		return false
	}
	for _, b := range g.Parent().Blocks {
		for _, in := range b.Instrs {
			if isWait(in) {
				return true
			}
		}
	}
	return false
}

// ---------- X03 ----------

type fileOp struct {
	call ssa.CallInstruction
	name string
	path int // argument that is the path, -1: none
	kind string
}

func fileEffect(f *ssa.Function) (path int, kind string, ok bool) {
	if f == nil || f.Pkg == nil || f.Signature.Recv() != nil {
		return
	}
	n := f.Name()
	switch p := f.Pkg.Pkg.Path(); {
	case p == "os" || p == "io/ioutil":
		switch n {
		case "Open", "ReadFile":
			return 0, "read", true
		case "Create", "WriteFile":
			return 0, "write", true
		case "OpenFile":
			return 0, "open", true
		case "Mkdir", "MkdirAll", "MkdirTemp", "TempDir", "TempFile", "CreateTemp", "Remove", "RemoveAll", "Rename", "Truncate", "Chmod", "Chown", "Chtimes", "Link", "Symlink", "ReadDir", "NewFile", "DirFS", "StartProcess", "Pipe", "Chdir", "Readlink":
			return 0, "other", true
		}
	case p == "github.com/qmuntal/gltf":
		switch n {
		case "Save", "SaveBinary":
			return 1, "write", true
		case "Open":
			return 0, "read", true
		}
	case p == "os/exec" || p == "net" || strings.HasPrefix(p, "net/") || p == "syscall" || p == "plugin":
		return -1, "other", true
	}
	return
}

type owner struct {
	fn   *ssa.Function
	kind string
	path string // field of the receiver, "param", or the literal
}

func checkX03(c *Chk) {
	owners := map[*ssa.Function]*owner{}
	for _, o := range []struct{ pkg, name, kind, path string }{
		{"step", "Lexer.Lex", "read", ".Filename"},
		{"step", "marshallToJSON", "write", "testfiles/out/test.json"},
		{"glTF", "Export", "write", "param"},
	} {
		fn := P.fn(o.pkg, o.name)
		if fn == nil {
			c.unknown("operations that use files", o.pkg+"."+o.name, "no such function")
			return
		}
		owners[fn] = &owner{fn, o.kind, o.path}
	}
	fns := ownFuncs()
	// which operations reach a function
	var reach func(f *ssa.Function, seen map[*ssa.Function]bool, out map[*ssa.Function]bool)
	reach = func(f *ssa.Function, seen, out map[*ssa.Function]bool) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if seen[f] {
			return
		}
		seen[f] = true
		if owners[f] != nil || len(callers()[f]) == 0 {
			out[f] = true
			return
		}
		for _, g := range callers()[f] {
			reach(g, seen, out)
		}
	}
	l := "file access is confined to the three operations and their paths"
	bad, vagueN := 0, 0
	fail := func(in ssa.Instruction, what string) {
		bad++
		if bad <= 4 {
			c.fail(l, at(in), what)
		}
	}
	for _, fn := range fns {
		c.fns[fn.String()] = true
		for _, b := range fn.Blocks {
			c.insts += len(b.Instrs)
			for _, in := range b.Instrs {
				var g *ssa.Function
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					g = ci.Common().StaticCallee()
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && h != g {
						if _, _, ok := fileEffect(h); ok {
							vagueN++
							c.unknown(l, at(in), h.String()+" used as a value")
						}
					}
				}
				pi, kind, ok := fileEffect(g)
				if !ok {
					// a field of the reader's description that holds the path
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "Filename" && isNamed(fa.X.Type(), "Lexer") {
							c.sites++
							for _, o := range origins(st.Val, fn) {
								if strings.HasPrefix(o, "!") {
									fail(in, "the path kept for reading is "+o[1:])
								} else if !strings.HasPrefix(o, "param") {
									vagueN++
									c.unknown(l, at(in), "the path kept for reading: "+o)
								}
							}
						}
					}
					continue
				}
				c.sites++
				out := map[*ssa.Function]bool{}
				reach(fn, map[*ssa.Function]bool{}, out)
				var roots []*ssa.Function
				for r := range out {
					roots = append(roots, r)
				}
				sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
				for _, r := range roots {
					o := owners[r]
					if o == nil {
						fail(in, g.String()+" is reached from "+r.String())
						continue
					}
					k := kind
					if k == "open" {
						k = o.kind
						if fl, ok := ci.Common().Args[1].(*ssa.Const); ok && fl.Value != nil {
							n, _ := constant.Int64Val(fl.Value)
							k = "read"
							if n&3 != 0 {
								k = "write"
							}
						}
					}
					if k != o.kind {
						fail(in, g.String()+" in "+r.String()+": this operation does not "+k+" files")
						continue
					}
					for _, s := range originsIn(ci.Common().Args[pi], fn, r, map[ssa.Value]bool{}) {
						switch {
						case o.path == ".Filename" && s == "field Filename":
						case o.path == "param" && strings.HasPrefix(s, "param ") && strings.HasSuffix(s, " of "+r.String()):
						case s == "!\""+o.path+"\"":
						case strings.HasPrefix(s, "!") || strings.HasPrefix(s, "param") && strings.HasSuffix(s, " of "+r.String()) || strings.HasPrefix(s, "field "):
							fail(in, "the path is "+strings.TrimPrefix(s, "!"))
						default:
							vagueN++
							c.unknown(l, at(in), "the path is "+s)
						}
					}
				}
			}
		}
	}
	if bad+vagueN == 0 {
		c.ok(l, "all packages")
	}
	c.closing(fns)
	c.errors(fns)
}

func fieldName(fa *ssa.FieldAddr) string {
	s, ok := under(under(fa.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
	if !ok {
		return ""
	}
	return s.Field(fa.Field).Name()
}

func isNamed(T types.Type, name string) bool {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := T.(*types.Named)
	return ok && n.Obj().Name() == name
}

func origins(v ssa.Value, fn *ssa.Function) []string {
	return originsIn(v, fn, fn, map[ssa.Value]bool{})
}

// originsIn: where a string comes from, up to the parameters of root. A result
// starting with ! is a positive statement that it is computed.
func originsIn(v ssa.Value, fn, root *ssa.Function, seen map[ssa.Value]bool) []string {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return []string{"?nil"}
		}
		return []string{"!" + x.Value.ExactString()}
	case *ssa.Parameter:
		if fn == root {
			return []string{"param " + x.Name() + " of " + fn.String()}
		}
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		var out []string
		for _, g := range ownFuncs() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn && idx < len(ci.Common().Args) {
						top := g
						for top.Parent() != nil {
							top = top.Parent()
						}
						if top == root || reaches(root, top) {
							out = append(out, originsIn(ci.Common().Args[idx], g, root, seen)...)
						}
					}
				}
			}
		}
		if len(out) == 0 {
			return []string{"?" + x.Name()}
		}
		return out
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, originsIn(e, fn, root, seen)...)
		}
		return out
	case *ssa.Field:
		s, _ := under(x.X.Type()).(*types.Struct)
		return []string{"field " + s.Field(x.Field).Name()}
	case *ssa.FreeVar:
		if fn.Parent() != nil {
			for i, fv := range fn.FreeVars {
				if fv != x {
					continue
				}
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							return originsIn(mc.Bindings[i], fn.Parent(), root, seen)
						}
					}
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if fn == root || true {
					if _, ok := base(a).(*ssa.Alloc); !ok {
						return []string{"field " + fieldName(a)}
					}
				}
			case *ssa.Alloc, *ssa.FreeVar:
				return originsIn(x.X, fn, root, seen)
			case *ssa.Global:
				return []string{"?" + a.String()}
			}
		}
	case *ssa.Alloc:
		var out []string
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				out = append(out, originsIn(st.Val, fn, root, seen)...)
			}
		}
		return out
	case *ssa.BinOp:
		return []string{"!" + "a concatenation"}
	case *ssa.Slice:
		return []string{"!" + "a part of a text"}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			if g.Pkg != nil && P.inRep[g.Pkg] {
				var out []string
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						out = append(out, originsIn(r.Results[0], g, root, seen)...)
					}
				}
				return out
			}
			if g.Pkg != nil {
				switch g.Pkg.Pkg.Path() {
				case "path/filepath", "path":
					if g.Name() == "Clean" || g.Name() == "FromSlash" || g.Name() == "ToSlash" {
						return []string{"?" + g.String()}
					}
					return []string{"!" + "a result of " + g.String()}
				case "strings", "fmt", "os":
					return []string{"!" + "a result of " + g.String()}
				}
			}
		}
	case *ssa.ChangeType:
		return originsIn(x.X, fn, root, seen)
	}
	return []string{"?" + v.Name()}
}

func reaches(from, to *ssa.Function) bool {
	for _, f := range reachable(from) {
		if f == to {
			return true
		}
	}
	return false
}

// ---------- closing ----------

func isFile(T types.Type) bool {
	return T.String() == "*os.File"
}

// opens: the result of fn at index i is a file the caller has to close
type opener struct{ idx int }

func (c *Chk) closing(fns []*ssa.Function) {
	l := "every opened file is closed on every path"
	// functions of the repository that hand out a file they opened
	handsOut := map[*ssa.Function]int{}
	for round := 0; round < 5; round++ {
		grew := false
		for _, fn := range fns {
			if _, ok := handsOut[fn]; ok {
				continue
			}
			for _, o := range openings(fn, handsOut) {
				if i, ok := returned(o.file, fn); ok {
					handsOut[fn] = i
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	bad, n := 0, 0
	for _, fn := range fns {
		for _, o := range openings(fn, handsOut) {
			n++
			c.sites++
			if o.file == nil {
				bad++
				c.fail(l, at(o.call), "the file is not kept")
				continue
			}
			w := &closeWalk{fn: fn, file: aliases(o.file), err: aliasSet{}}
			if o.err != nil {
				w.err = aliases(o.err)
			}
			if w.file.escapes {
				c.unknown(l, at(o.call), "the file is stored")
				bad++
				continue
			}
			if why := w.from(o.call); why != "" {
				bad++
				c.fail(l, at(o.call), why)
			}
		}
	}
	if bad == 0 {
		c.ok(l, itoa(n)+" openings")
	}
}

type opening struct {
	call      ssa.Instruction
	file, err ssa.Value
}

func openings(fn *ssa.Function, handsOut map[*ssa.Function]int) []opening {
	var out []opening
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil {
				continue
			}
			idx := -1
			if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" || g.Pkg != nil && g.Pkg.Pkg.Path() == "io/ioutil" {
				rs := g.Signature.Results()
				if rs.Len() == 2 && isFile(rs.At(0).Type()) {
					idx = 0
				}
			} else if i, ok := handsOut[g]; ok {
				idx = i
			}
			if idx < 0 {
				continue
			}
			o := opening{call: in}
			if g.Signature.Results().Len() == 1 {
				o.file = call
			} else {
				for _, r := range *call.Referrers() {
					if e, ok := r.(*ssa.Extract); ok {
						if e.Index == idx {
							o.file = e
						} else if isErr(e.Type()) {
							o.err = e
						}
					}
				}
			}
			out = append(out, o)
		}
	}
	return out
}

func isErr(T types.Type) bool { return T.String() == "error" }

type aliasSet struct {
	vals    map[ssa.Value]bool
	escapes bool
}

// aliases: the registers and local variables that hold v
func aliases(v ssa.Value) aliasSet {
	s := aliasSet{vals: map[ssa.Value]bool{v: true}}
	work := []ssa.Value{v}
	add := func(x ssa.Value) {
		if !s.vals[x] {
			s.vals[x] = true
			work = append(work, x)
		}
	}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x.Referrers() == nil {
			continue
		}
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Phi:
				add(y)
			case *ssa.MakeInterface:
				add(y)
			case *ssa.ChangeInterface:
				add(y)
			case *ssa.ChangeType:
				add(y)
			case *ssa.TypeAssert:
				add(y)
			case *ssa.UnOp:
				if y.Op == token.MUL {
					if _, ok := x.(*ssa.Alloc); ok {
						add(y)
					}
					if _, ok := x.(*ssa.FreeVar); ok {
						add(y)
					}
				}
			case *ssa.Store:
				if y.Val == x {
					if a, ok := y.Addr.(*ssa.Alloc); ok {
						add(a)
					} else {
						s.escapes = true
					}
				}
			case *ssa.MapUpdate, *ssa.Send:
				s.escapes = true
			}
		}
	}
	return s
}

func returned(v ssa.Value, fn *ssa.Function) (int, bool) {
	if v == nil {
		return 0, false
	}
	s := aliases(v)
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for i, x := range r.Results {
				if s.vals[x] {
					return i, true
				}
			}
		}
	}
	return 0, false
}

type closeWalk struct {
	fn        *ssa.Function
	file, err aliasSet
	seen      map[*ssa.BasicBlock]bool
	depth     int
}

func (w *closeWalk) from(in ssa.Instruction) string {
	w.seen = map[*ssa.BasicBlock]bool{}
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return w.block(b, i+1)
		}
	}
	return ""
}

// closes: the instruction closes the file, now or when the function ends
func (w *closeWalk) closes(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == "Close" && w.file.vals[cc.Value]
	}
	if g := cc.StaticCallee(); g != nil {
		if g.String() == "(*os.File).Close" {
			return w.file.vals[cc.Args[0]]
		}
		if (g.Pkg == nil || P.inRep[g.Pkg]) && len(g.Blocks) > 0 && w.depth < 4 {
			for i, a := range cc.Args {
				if w.file.vals[a] && i < len(g.Params) && closesAll(g, g.Params[i], w.depth+1) {
					return true
				}
			}
		}
	}
	v := cc.Value
	if mc, ok := v.(*ssa.MakeClosure); ok {
		g := mc.Fn.(*ssa.Function)
		for i, bnd := range mc.Bindings {
			if w.file.vals[bnd] && closesAll(g, g.FreeVars[i], w.depth+1) {
				return true
			}
		}
	}
	return false
}

// closesAll: every way through g closes the file held by v
func closesAll(g *ssa.Function, v ssa.Value, d int) bool {
	w := &closeWalk{fn: g, file: aliases(v), err: aliasSet{}, depth: d, seen: map[*ssa.BasicBlock]bool{}}
	return w.block(g.Blocks[0], 0) == ""
}

func (w *closeWalk) block(b *ssa.BasicBlock, i int) string {
	if i == 0 {
		if w.seen[b] {
			return ""
		}
		w.seen[b] = true
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if w.closes(in) {
			return ""
		}
		switch x := in.(type) {
		case *ssa.Return:
			for _, r := range x.Results {
				if w.file.vals[r] {
					return ""
				}
			}
			return "not closed before the return at " + at(in)
		case *ssa.Panic:
			return "not closed before the panic at " + at(in)
		case ssa.CallInstruction:
			if g := x.Common().StaticCallee(); g != nil && g.Pkg != nil && P.inRep[g.Pkg] {
				mine := false
				for _, a := range x.Common().Args {
					if w.err.vals[a] {
						mine = true
					}
				}
				if _, isDefer := in.(*ssa.Defer); !mine && !isDefer && raisesErr(g) {
					return "not closed when " + g.Name() + " panics at " + at(in)
				}
			}
		case *ssa.If:
			if side := nilTest(x.Cond, w.err.vals); side >= 0 {
				// the side on which there is no error
				return w.block(b.Succs[1-side], 0)
			}
		}
	}
	for _, s := range b.Succs {
		if why := w.block(s, 0); why != "" {
			return why
		}
	}
	return ""
}

// raisesErr: panics with an error it is handed
func raisesErr(g *ssa.Function) bool {
	for i, p := range g.Params {
		if isErr(p.Type()) && errOutcome(g, g.Params[i], 0) == "raised" {
			return true
		}
	}
	return false
}

// nilTest: the successor taken when the error in the set is not nil; -1: not a
// test of it
func nilTest(cond ssa.Value, set map[ssa.Value]bool) int {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		if s := nilTest(u.X, set); s >= 0 {
			return 1 - s
		}
		return -1
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	x, y := bo.X, bo.Y
	if k, ok := x.(*ssa.Const); ok && k.IsNil() {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || !k.IsNil() || !set[x] {
		return -1
	}
	switch bo.Op {
	case token.NEQ:
		return 0
	case token.EQL:
		return 1
	}
	return -1
}

// ---------- errors ----------

func errPkg(p string) bool {
	return p == "os" || p == "io" || p == "io/ioutil" || p == "bufio" || strings.HasPrefix(p, "encoding/") || p == "github.com/qmuntal/gltf" || strings.HasPrefix(p, "compress/") || p == "path/filepath"
}

// failing: a call that returns the error of a file, encoding or export
// operation
func failing(ci ssa.CallInstruction, own map[*ssa.Function]bool) (name string, ok bool) {
	cc := ci.Common()
	rs := cc.Signature().Results()
	if rs.Len() == 0 || !isErr(rs.At(rs.Len()-1).Type()) {
		return "", false
	}
	if cc.IsInvoke() {
		p := cc.Method.Pkg()
		return cc.Method.Name(), p != nil && errPkg(p.Path())
	}
	g := cc.StaticCallee()
	if g == nil || g.Pkg == nil {
		return "", false
	}
	if P.inRep[g.Pkg] {
		return g.String(), own[g]
	}
	if g.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(g.Name(), "Fprint") {
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok && isFile(mi.X.Type()) {
			if u, ok := mi.X.(*ssa.UnOp); ok {
				if _, ok := u.X.(*ssa.Global); ok {
					return "", false
				}
			}
			return g.String(), true
		}
		return "", false
	}
	if recv := g.Signature.Recv(); recv != nil && recv.Type().String() == "*bufio.Writer" && g.Name() != "Flush" {
		return "", false // kept until Flush
	}
	return g.String(), errPkg(g.Pkg.Pkg.Path())
}

func (c *Chk) errors(fns []*ssa.Function) {
	l := "no error of a file operation is dropped"
	own := map[*ssa.Function]bool{}
	for round := 0; round < 5; round++ {
		grew := false
		for _, fn := range fns {
			rs := fn.Signature.Results()
			if own[fn] || rs.Len() == 0 || !isErr(rs.At(rs.Len()-1).Type()) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if _, ok := failing(ci, own); ok && !own[fn] {
							own[fn] = true
							grew = true
						}
					}
				}
			}
		}
		if !grew {
			break
		}
	}
	bad, n := 0, 0
	fail := func(in ssa.Instruction, what string) {
		bad++
		if bad <= 4 {
			c.fail(l, at(in), what)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g != nil && g.String() == "bufio.NewScanner" || g != nil && g.String() == "bufio.NewWriter" || g != nil && g.String() == "bufio.NewWriterSize" {
					need := "Err"
					if strings.HasPrefix(g.Name(), "NewWriter") {
						need = "Flush"
					}
					if s := aliases(in.(ssa.Value)); !s.escapes && !calledOn(s, need) && !handedOn(s) {
						fail(in, "the result of "+g.String()+" is never asked for its error with "+need)
					}
					n++
					continue
				}
				name, ok := failing(ci, own)
				if !ok {
					continue
				}
				n++
				c.sites++
				call, isCall := in.(*ssa.Call)
				if !isCall {
					if strings.HasSuffix(name, "Close") && (readOnly(ci.Common(), fn) || failed(in)) {
						continue
					}
					fail(in, "the error of "+name+" is dropped by "+strings.SplitN(in.String(), " ", 2)[0])
					continue
				}
				var e ssa.Value
				if call.Call.Signature().Results().Len() == 1 {
					e = call
				} else {
					for _, r := range *call.Referrers() {
						if x, ok := r.(*ssa.Extract); ok && isErr(x.Type()) {
							e = x
						}
					}
				}
				if e == nil || len(*e.Referrers()) == 0 {
					if strings.HasSuffix(name, "Close") && (readOnly(ci.Common(), fn) || failed(in)) {
						continue
					}
					fail(in, "the error of "+name+" is not looked at")
					continue
				}
				w := &errWalk{src: call, reading: isReading(name)}
				out, where := w.start(call, e)
				switch out {
				case "dropped":
					if strings.HasSuffix(name, "Close") && (readOnly(ci.Common(), fn) || failed(in)) {
						continue
					}
					fail(in, "the error of "+name+" is lost on the path to "+where)
				case "unclear":
					bad++
					c.unknown(l, at(in), "the error of "+name+": "+where)
				}
			}
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok {
					if bi, ok := ci.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						if why := swallows(ci); why != "" {
							fail(in, why)
						} else {
							bad++
							c.unknown(l, at(in), "a panic is recovered")
						}
					}
				}
			}
		}
	}
	if bad == 0 {
		c.ok(l, itoa(n)+" calls")
	}
}

func isReading(name string) bool {
	n := name[strings.LastIndex(name, ".")+1:]
	for _, p := range []string{"Read", "Decode", "Next", "Peek", "Discard", "Copy", "Token"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func calledOn(s aliasSet, method string) bool {
	for v := range s.vals {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if ci, ok := r.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Name() == method && len(ci.Common().Args) > 0 && ci.Common().Args[0] == v {
					return true
				}
			}
		}
	}
	return false
}

// handedOn: given to a function of the repository or returned
func handedOn(s aliasSet) bool {
	for v := range s.vals {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Return, *ssa.MakeClosure:
				return true
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g == nil || g.Pkg == nil || P.inRep[g.Pkg] {
					return true
				}
			}
		}
	}
	return false
}

// readOnly: the file being closed was opened for reading only
func readOnly(cc *ssa.CallCommon, fn *ssa.Function) bool {
	v := cc.Value
	if !cc.IsInvoke() {
		if len(cc.Args) == 0 {
			return false
		}
		v = cc.Args[0]
	}
	var r func(v ssa.Value, fn *ssa.Function, d int) bool
	r = func(v ssa.Value, fn *ssa.Function, d int) bool {
		if d > 10 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			g := call.Call.StaticCallee()
			if g == nil {
				return false
			}
			if g.String() == "os.Open" {
				return true
			}
			if g.String() == "os.OpenFile" {
				if fl, ok := call.Call.Args[1].(*ssa.Const); ok && fl.Value != nil {
					n, _ := constant.Int64Val(fl.Value)
					return n&3 == 0
				}
			}
			if P.inRep[g.Pkg] {
				for _, b := range g.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(rt.Results) {
						if k, ok := rt.Results[x.Index].(*ssa.Const); ok && k.IsNil() {
							continue
						}
						if !r(rt.Results[x.Index], g, d+1) {
							return false
						}
					}
				}
				return true
			}
			return false
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && P.inRep[g.Pkg] {
				for _, b := range g.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 && !r(rt.Results[0], g, d+1) {
						return false
					}
				}
				return true
			}
		case *ssa.UnOp:
			return r(x.X, fn, d+1)
		case *ssa.MakeInterface:
			return r(x.X, fn, d+1)
		case *ssa.Alloc:
			ok := false
			for _, y := range *x.Referrers() {
				if st, is := y.(*ssa.Store); is && st.Addr == x {
					if !r(st.Val, fn, d+1) {
						return false
					}
					ok = true
				}
			}
			return ok
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !r(e, fn, d+1) {
					return false
				}
			}
			return true
		case *ssa.FreeVar:
			for i, fv := range fn.FreeVars {
				if fv != x {
					continue
				}
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							return r(mc.Bindings[i], fn.Parent(), d+1)
						}
					}
				}
			}
		case *ssa.Parameter:
			idx := -1
			for i, p := range fn.Params {
				if p == x {
					idx = i
				}
			}
			n := 0
			for _, g := range ownFuncs() {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn && idx < len(ci.Common().Args) {
							n++
							if !r(ci.Common().Args[idx], g, d+1) {
								return false
							}
						}
					}
				}
			}
			return n > 0
		}
		return false
	}
	return r(v, fn, 0)
}

// failed: the instruction runs only when another error is being reported
func failed(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond := x.Cond
		if u, ok := cond.(*ssa.UnOp); ok {
			cond = u.X
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok || !isErr(bo.X.Type()) {
			continue
		}
		side := nilTest(x.Cond, map[ssa.Value]bool{bo.X: true, bo.Y: true})
		if side >= 0 && b.Succs[side] != b.Succs[1-side] && len(b.Succs[side].Preds) == 1 && b.Succs[side].Dominates(in.Block()) {
			return true
		}
	}
	return false
}

// errWalk follows the paths on which an error is not nil.
type errWalk struct {
	src     ssa.Instruction
	reading bool
	depth   int
	seen    map[string]bool
	steps   int
	mayPass bool // returning it has been seen
}

func (w *errWalk) start(at ssa.Instruction, e ssa.Value) (string, string) {
	w.seen = map[string]bool{}
	b := at.Block()
	for i, x := range b.Instrs {
		if x == at {
			return w.block(b, nil, i+1, map[ssa.Value]bool{e: true})
		}
	}
	return "unclear", "?"
}

// errOutcome: what becomes of the error v handed to g: raised, passed (part of
// a result), dropped
func errOutcome(g *ssa.Function, v ssa.Value, d int) string {
	if d > 4 || len(g.Blocks) == 0 {
		return "unclear"
	}
	w := &errWalk{depth: d, seen: map[string]bool{}}
	out, _ := w.block(g.Blocks[0], nil, 0, map[ssa.Value]bool{v: true})
	if out == "ok" && w.mayPass {
		return "passed"
	}
	if out == "ok" {
		return "raised"
	}
	return out
}

func setKey(b *ssa.BasicBlock, s map[ssa.Value]bool) string {
	var k []string
	for v := range s {
		k = append(k, v.Name())
	}
	sort.Strings(k)
	return itoa(b.Index) + ":" + strings.Join(k, ",")
}

func (w *errWalk) block(b, from *ssa.BasicBlock, i int, set map[ssa.Value]bool) (string, string) {
	w.steps++
	if w.steps > 3000 {
		return "unclear", "too many paths"
	}
	s := map[ssa.Value]bool{}
	for v := range set {
		s[v] = true
	}
	if from != nil {
		for j, p := range b.Preds {
			if p != from {
				continue
			}
			upd := map[ssa.Value]bool{}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				upd[ph] = set[ph.Edges[j]]
			}
			for v, in := range upd {
				if in {
					s[v] = true
				} else {
					delete(s, v)
				}
			}
			break
		}
		k := setKey(b, s)
		if w.seen[k] {
			return "ok", ""
		}
		w.seen[k] = true
	}
	unclear := ""
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == w.src {
			return "dropped", "the next " + in.String() + " at " + at(in)
		}
		uses := false
		for _, op := range in.Operands(nil) {
			if *op != nil && s[*op] {
				uses = true
			}
		}
		switch x := in.(type) {
		case *ssa.Panic:
			return "ok", ""
		case *ssa.Return:
			rs := x.Parent().Signature.Results()
			for j, r := range x.Results {
				if s[r] {
					w.mayPass = true
					return "ok", ""
				}
				if isErr(rs.At(j).Type()) {
					if k, ok := r.(*ssa.Const); ok && k.IsNil() {
						continue
					}
					if call, ok := r.(*ssa.Call); ok {
						if g := call.Call.StaticCallee(); g != nil && (g.String() == "errors.New" || g.String() == "fmt.Errorf") {
							w.mayPass = true
							return "ok", ""
						}
					}
					return "unclear", "another error may be returned at " + at(in)
				}
			}
			return "dropped", "the return at " + at(in)
		case *ssa.Store:
			if s[x.Val] {
				switch a := base(x.Addr).(type) {
				case *ssa.Alloc:
					s[a] = true
				case *ssa.FreeVar:
					s[a] = true
					unclear = "the error is kept in a variable of the surrounding function"
				default:
					return "unclear", "the error is stored at " + at(in)
				}
			} else if a, ok := x.Addr.(*ssa.Alloc); ok {
				delete(s, a)
			}
		case *ssa.UnOp:
			if s[x.X] {
				s[x] = true
			} else {
				delete(s, x)
			}
		case *ssa.If:
			if side := nilTest(x.Cond, s); side >= 0 {
				return w.then(b, b.Succs[side], s, unclear)
			}
			if side := eofTest(x.Cond, s); side >= 0 && w.reading {
				return w.then(b, b.Succs[1-side], s, unclear)
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			if !uses {
				if call, ok := in.(*ssa.Call); ok {
					if g := call.Call.StaticCallee(); g != nil && exits(g) {
						return "ok", ""
					}
				}
				break
			}
			cc := in.(ssa.CallInstruction).Common()
			g := cc.StaticCallee()
			v, isVal := in.(ssa.Value)
			if g != nil && g.Pkg != nil && P.inRep[g.Pkg] || g != nil && g.Parent() != nil {
				res := "dropped"
				for j, a := range cc.Args {
					if s[a] && j < len(g.Params) {
						if o := errOutcome(g, g.Params[j], w.depth+1); o != "dropped" {
							res = o
						}
					}
				}
				switch res {
				case "raised":
					return "ok", ""
				case "passed":
					if isVal {
						s[v] = true
					}
				case "unclear":
					return "unclear", "handed to " + g.Name()
				}
				break
			}
			if g != nil && exits(g) {
				return "ok", ""
			}
			if isVal && (isErr(v.Type()) || v.Type().String() == "string") {
				s[v] = true
			}
			if g != nil && strings.HasPrefix(g.String(), "errors.") && isVal {
				s[v] = false
				delete(s, v)
			}
			if _, ok := cc.Value.(*ssa.MakeClosure); ok && s[cc.Value] {
				return "unclear", "handed to a closure"
			}
		case *ssa.MakeClosure:
			if uses {
				unclear = "the error's variable is shared with a closure"
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.TypeAssert, *ssa.Slice, *ssa.Extract, *ssa.IndexAddr:
			if uses {
				s[in.(ssa.Value)] = true
			}
		case *ssa.Send, *ssa.MapUpdate:
			if uses {
				return "unclear", "the error is sent or stored at " + at(in)
			}
		}
	}
	out := "ok"
	where := ""
	for _, n := range b.Succs {
		o, wh := w.then(b, n, s, unclear)
		if o == "dropped" {
			return o, wh
		}
		if o == "unclear" {
			out, where = o, wh
		}
	}
	return out, where
}

func (w *errWalk) then(b, n *ssa.BasicBlock, s map[ssa.Value]bool, unclear string) (string, string) {
	o, wh := w.block(n, b, 0, s)
	if o == "dropped" && unclear != "" {
		return "unclear", unclear
	}
	return o, wh
}

// exits: a library function that does not return
func exits(g *ssa.Function) bool {
	switch g.String() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return false
}

// eofTest: the successor taken when the error is io.EOF
func eofTest(cond ssa.Value, set map[ssa.Value]bool) int {
	isEOF := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.String() == "io.EOF"
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if s := eofTest(x.X, set); s >= 0 {
				return 1 - s
			}
		}
	case *ssa.BinOp:
		if set[x.X] && isEOF(x.Y) || set[x.Y] && isEOF(x.X) {
			if x.Op == token.EQL {
				return 0
			}
			if x.Op == token.NEQ {
				return 1
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.String() == "errors.Is" && set[x.Call.Args[0]] && isEOF(x.Call.Args[1]) {
			return 0
		}
	}
	return -1
}

// swallows: a recovered value that nothing uses
func swallows(rc *ssa.Call) string {
	fn := rc.Parent()
	used := false
	for _, r := range *rc.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp, *ssa.DebugRef:
		case *ssa.Phi:
			used = true
		default:
			_ = x
			used = true
		}
	}
	if used {
		return ""
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Panic, *ssa.Store:
				return ""
			}
		}
	}
	return "a panic is recovered and dropped"
}
