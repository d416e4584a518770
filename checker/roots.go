package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// roots lists where the analysis starts: what can be called from outside the repository (exported functions and
// methods, methods that implement interfaces of other packages, command bodies, start-up code), then every function
// that is not reached from those.
func (p *Program) roots() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 && p.inRepo[f] && fnPkg(f) != protoPkg {
			seen[f] = true
			out = append(out, f)
		}
	}
	called := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						called[g] = true
					}
				}
				// command bodies
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeName(derefT(fa.X.Type())) == "github.com/spf13/cobra.Command" {
						switch v := st.Val.(type) {
						case *ssa.Function:
							add(v)
						case *ssa.MakeClosure:
							add(v.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
	}
	for _, f := range p.fns {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		o, ok := f.Object().(*types.Func)
		if !ok {
			continue
		}
		if o.Exported() || !called[f] {
			add(f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}
