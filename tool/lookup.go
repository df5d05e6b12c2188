package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func methodsOf(t *ssa.Type) []*ssa.Function {
	var out []*ssa.Function
	n, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if f := t.Package().Prog.FuncValue(n.Method(i)); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// fn finds a package-level function or method ("Type.Method") by short package name.
func (p *Program) fn(pkg, name string) *ssa.Function {
	s := p.pkgs[pkg]
	if s == nil {
		return nil
	}
	for i := 0; i < len(name); i++ {
		if name[i] == '.' {
			t := s.Type(name[:i])
			if t == nil {
				return nil
			}
			for _, f := range methodsOf(t) {
				if f.Name() == name[i+1:] {
					return f
				}
			}
			return nil
		}
	}
	return s.Func(name)
}

func (p *Program) typ(pkg, name string) types.Type {
	s := p.pkgs[pkg]
	if s == nil || s.Type(name) == nil {
		return nil
	}
	return s.Type(name).Type()
}

// globalTerm: the initial value of a package variable
func (p *Program) globalTerm(pkg, name string) *Term {
	s := p.pkgs[pkg]
	if s == nil {
		return mkVar("no such global", SNum, false)
	}
	g := s.Var(name)
	if g == nil {
		return tInf
	}
	if t := globalInit(g); t != nil {
		return t
	}
	return tInf
}
