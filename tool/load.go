package main

// Loading: the current source of both modules of /repo is type checked and
// translated to SSA on every run. Test files are not part of the analysis.

import (
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	repo  string
	fset  *token.FileSet
	progs []*ssa.Program
	pkgs  map[string]*ssa.Package // by short name: r3, predicates, ...
	src   map[string]*packages.Package
	funcs []*ssa.Function // all source functions of the repository (incl. methods, closures)
	inRep map[*ssa.Package]bool
}

var P *Program

func loadModule(repo, dir string, scratch string) ([]*packages.Package, error) {
	mod := filepath.Join(scratch, strings.ReplaceAll(dir, "/", "_")+".mod")
	b, err := os.ReadFile(filepath.Join(repo, dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(mod, b, 0o644); err != nil {
		return nil, err
	}
	if b, err := os.ReadFile(filepath.Join(repo, dir, "go.sum")); err == nil {
		os.WriteFile(strings.TrimSuffix(mod, ".mod")+".sum", b, 0o644)
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+mod, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: filepath.Join(repo, dir),
		Env: env,
	}
	overlay := refOverlay(repo, dir)
	for {
		cfg.Overlay = overlay
		pk, err := packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		dropped := false
		bad := map[string][]int{}
		var first error
		for _, p := range pk {
			for _, e := range p.Errors {
				if first == nil {
					first = fmt.Errorf("%s: %v", p.PkgPath, e)
				}
				for f := range overlay {
					if strings.HasPrefix(e.Pos, f+":") {
						line, _ := strconv.Atoi(strings.Split(e.Pos[len(f)+1:], ":")[0])
						bad[f] = append(bad[f], line)
						droppedRefs = append(droppedRefs, filepath.Base(f)+": "+e.Msg)
						dropped = true
					}
				}
			}
		}
		if first == nil {
			return pk, nil
		}
		for f, lines := range bad {
			if b := withoutDecls(overlay[f], lines); b != nil {
				overlay[f] = b
			} else {
				delete(overlay, f)
			}
		}
		if !dropped {
			if len(overlay) == 0 {
				return nil, first
			}
			overlay = nil
		}
	}
}

// The specification functions of /verif/tool/refs are type checked together
// with the package they specify, under a file name of their own; one that no
// longer compiles against the package is dropped (its obligations are then
// undecided).
//
//go:embed refs
var refFS embed.FS

const refPrefix = "zz_gegov_ref_"

var droppedRefs []string

// withoutDecls: the file without the declarations on the given lines and the
// imports nothing else uses, nil when that removes nothing. Lines stay where
// they were.
func withoutDecls(src []byte, lines []int) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "", src, 0)
	if err != nil {
		return nil
	}
	out := append([]byte{}, src...)
	blank := func(n ast.Node) {
		for i := fs.Position(n.Pos()).Offset; i < fs.Position(n.End()).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	gone := map[ast.Decl]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		for _, l := range lines {
			if fs.Position(d.Pos()).Line <= l && l <= fs.Position(d.End()).Line && !gone[d] {
				gone[d] = true
				blank(d)
			}
		}
	}
	if len(gone) == 0 {
		return nil
	}
	used := map[string]bool{}
	for _, d := range f.Decls {
		if gone[d] {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok {
					used[x.Name] = true
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			left := 0
			for _, s := range g.Specs {
				im := s.(*ast.ImportSpec)
				name := ""
				if im.Name != nil {
					name = im.Name.Name
				} else if p, err := strconv.Unquote(im.Path.Value); err == nil {
					name = p[strings.LastIndex(p, "/")+1:]
				}
				if used[name] {
					left++
				} else {
					blank(s)
				}
			}
			if left == 0 {
				blank(g)
			}
		}
	}
	return out
}

func refOverlay(repo, dir string) map[string][]byte {
	out := map[string][]byte{}
	es, _ := refFS.ReadDir("refs")
	for _, d := range es {
		if !d.IsDir() || (d.Name() == "nurbs") != (dir == "nurbs") {
			continue
		}
		fs, _ := refFS.ReadDir("refs/" + d.Name())
		target := filepath.Join(repo, d.Name())
		if _, err := os.Stat(target); err != nil {
			continue
		}
		for _, f := range fs {
			b, _ := refFS.ReadFile("refs/" + d.Name() + "/" + f.Name())
			out[filepath.Join(target, refPrefix+strings.TrimSuffix(f.Name(), ".txt"))] = b
		}
	}
	return out
}

func isRef(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if !f.Pos().IsValid() {
		return false
	}
	return strings.HasPrefix(filepath.Base(f.Prog.Fset.Position(f.Pos()).Filename), refPrefix)
}

func load(repo string) (*Program, error) {
	scratch, err := os.MkdirTemp("", "gegov")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	p := &Program{repo: repo, pkgs: map[string]*ssa.Package{}, src: map[string]*packages.Package{}, inRep: map[*ssa.Package]bool{}}
	for i, dir := range []string{".", "nurbs"} {
		pk, err := loadModule(repo, dir, scratch)
		if err != nil {
			return nil, err
		}
		prog, ssaPk := ssautil.Packages(pk, ssa.InstantiateGenerics)
		if i == 0 {
			p.fset = prog.Fset
		}
		p.progs = append(p.progs, prog)
		for j, s := range ssaPk {
			if s == nil {
				continue
			}
			s.Build()
			name := filepath.Base(pk[j].PkgPath)
			p.pkgs[name] = s
			p.src[name] = pk[j]
			p.inRep[s] = true
		}
		for f := range ssautil.AllFunctions(prog) {
			if f.Pkg != nil && p.inRep[f.Pkg] && f.Synthetic == "" && len(f.Blocks) > 0 {
				p.funcs = append(p.funcs, f)
			}
		}
	}
	// ssautil.AllFunctions only reaches what is reachable; add every member
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	var all []*ssa.Function
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || isRef(f) {
			return
		}
		seen[f] = true
		all = append(all, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range p.funcs {
		add(f)
	}
	for _, s := range p.pkgs {
		for _, m := range s.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" {
					add(m)
				}
			case *ssa.Type:
				for _, f := range methodsOf(m) {
					add(f)
				}
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return posLess(all[i], all[j]) })
	p.funcs = all
	return p, nil
}

func posLess(a, b *ssa.Function) bool {
	pa, pb := a.Prog.Fset.Position(a.Pos()), b.Prog.Fset.Position(b.Pos())
	if pa.Filename != pb.Filename {
		return pa.Filename < pb.Filename
	}
	if pa.Line != pb.Line {
		return pa.Line < pb.Line
	}
	return a.String() < b.String()
}

// relPos: file:line of a construct relative to the repository.
func relPos(prog *ssa.Program, pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := prog.Fset.Position(pos)
	r, err := filepath.Rel(P.repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}
func fnPos(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return relPos(f.Prog, f.Pos())
}
