package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Local variables that are captured by closures live in memory; when neither
// the variable's address nor a store escapes its function, loads see the
// stores that reach them.

// plainVar: only loaded and stored as a whole, and only loaded by closures
func plainVar(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(a) || x.Val == ssa.Value(a) {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b != ssa.Value(a) {
					continue
				}
				for _, fr := range *g.FreeVars[i].Referrers() {
					switch y := fr.(type) {
					case *ssa.UnOp:
						if y.Op != token.MUL {
							return false
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// reaching: the stores to a that may be the last one before in
func reaching(a *ssa.Alloc, in ssa.Instruction) []*ssa.Store {
	var out []*ssa.Store
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, from int)
	back = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			if s, ok := b.Instrs[i].(*ssa.Store); ok && s.Addr == ssa.Value(a) {
				out = append(out, s)
				return
			}
			if b.Instrs[i] == ssa.Instruction(a) {
				return
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				back(p, len(p.Instrs)-1)
			}
		}
	}
	back(in.Block(), indexIn(in)-1)
	return out
}

// later: the stores to a that may run after in
func later(a *ssa.Alloc, in ssa.Instruction) []*ssa.Store {
	var out []*ssa.Store
	seen := map[*ssa.BasicBlock]bool{}
	var fwd func(b *ssa.BasicBlock, from int)
	fwd = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			if s, ok := b.Instrs[i].(*ssa.Store); ok && s.Addr == ssa.Value(a) {
				out = append(out, s)
			}
		}
		for _, p := range b.Succs {
			if !seen[p] {
				seen[p] = true
				fwd(p, 0)
			}
		}
	}
	fwd(in.Block(), indexIn(in)+1)
	return out
}

// varLoad: the stores a load of a plain local variable may see
func (f *Flow) varLoad(x *ssa.UnOp) ([]*ssa.Store, bool) {
	switch a := x.X.(type) {
	case *ssa.Alloc:
		if plainVar(a) {
			return reaching(a, x), true
		}
	case *ssa.FreeVar:
		g := a.Parent()
		n := -1
		for i, fv := range g.FreeVars {
			if fv == a {
				n = i
			}
		}
		var out []*ssa.Store
		found := false
		if g.Parent() == nil || n < 0 {
			return nil, false
		}
		for _, b := range g.Parent().Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MakeClosure)
				if !ok || m.Fn != ssa.Value(g) {
					continue
				}
				al, ok := m.Bindings[n].(*ssa.Alloc)
				if !ok || !plainVar(al) {
					return nil, false
				}
				found = true
				out = append(out, reaching(al, m)...)
				out = append(out, later(al, m)...)
			}
		}
		return out, found
	}
	return nil, false
}
