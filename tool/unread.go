package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Fields nobody reads: a field of an unexported bookkeeping type (one that no
// function takes or returns and no other type contains) that is only ever
// written carries no information.
type fieldKey struct {
	t *types.Named
	i int
}

var unreadFields map[fieldKey]bool

func unread(T types.Type, i int) bool {
	n, ok := T.(*types.Named)
	if !ok || P == nil {
		return false
	}
	if unreadFields == nil {
		unreadFields = findUnread()
	}
	return unreadFields[fieldKey{n, i}]
}

func findUnread() map[fieldKey]bool {
	out := map[fieldKey]bool{}
	cand := map[*types.Named]bool{}
	for _, p := range P.pkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				n, ok := t.Type().(*types.Named)
				if ok && !n.Obj().Exported() && n.NumMethods() == 0 {
					if _, ok := n.Underlying().(*types.Struct); ok {
						cand[n] = true
					}
				}
			}
		}
	}
	seen := map[types.Type]bool{}
	var drop func(T types.Type)
	drop = func(T types.Type) {
		if T == nil || seen[T] {
			return
		}
		seen[T] = true
		if n, ok := T.(*types.Named); ok {
			delete(cand, n)
		}
		switch u := T.Underlying().(type) {
		case *types.Pointer:
			drop(u.Elem())
		case *types.Slice:
			drop(u.Elem())
		case *types.Array:
			drop(u.Elem())
		case *types.Map:
			drop(u.Key())
			drop(u.Elem())
		case *types.Chan:
			drop(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				drop(u.Field(i).Type())
			}
		case *types.Signature:
			for i := 0; i < u.Params().Len(); i++ {
				drop(u.Params().At(i).Type())
			}
			for i := 0; i < u.Results().Len(); i++ {
				drop(u.Results().At(i).Type())
			}
		}
	}
	read := map[fieldKey]bool{}
	nm := func(T types.Type) *types.Named {
		if p, ok := T.Underlying().(*types.Pointer); ok {
			T = p.Elem()
		}
		n, _ := T.(*types.Named)
		return n
	}
	fns := []*ssa.Function{}
	for _, p := range P.pkgs {
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil {
				return
			}
			fns = append(fns, f)
			for _, a := range f.AnonFuncs {
				walk(a)
			}
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				walk(m)
			case *ssa.Global:
				drop(m.Type())
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok && !cand[n] {
					drop(n)
				}
				for _, f := range methodsOf(m) {
					walk(f)
				}
			}
		}
	}
	// a candidate inside another candidate stays unless that one is dropped
	for _, f := range fns {
		if !isRef(f) {
			drop(f.Signature)
			if f.Signature.Recv() != nil {
				drop(f.Signature.Recv().Type())
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Field:
					if n := nm(x.X.Type()); n != nil {
						read[fieldKey{n, x.Field}] = true
					}
				case *ssa.FieldAddr:
					n := nm(x.X.Type())
					if n == nil {
						break
					}
					for _, r := range *x.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) && s.Val != ssa.Value(x) {
							continue
						}
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						read[fieldKey{n, x.Field}] = true
					}
				case *ssa.MakeInterface:
					drop(x.X.Type())
				case *ssa.BinOp:
					if _, ok := x.X.Type().Underlying().(*types.Struct); ok {
						drop(x.X.Type())
					}
				case *ssa.Convert:
					drop(x.X.Type())
				case *ssa.ChangeType:
					drop(x.X.Type())
				case *ssa.MapUpdate:
					if m, ok := x.Map.Type().Underlying().(*types.Map); ok {
						drop(m.Key())
					}
				}
			}
		}
	}
	for n := range cand {
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			k := fieldKey{n, i}
			if !read[k] {
				out[k] = true
			}
		}
	}
	return out
}
