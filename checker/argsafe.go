package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// argSafe reports that no callee of a call writes through, keeps or returns its i-th argument, so
// the variable it points to is unchanged by the call. Greatest fixpoint over the call graph.
func (p *Prog) argSafe(f *ssa.Function, i int) bool {
	if p.safe == nil {
		p.safe = map[string]bool{}
	}
	k := fmt.Sprintf("%p/%d", f, i)
	if v, ok := p.safe[k]; ok {
		return v
	}
	p.safe[k] = true // assume, for recursion
	ok := p.argSafe1(f, i)
	if !ok {
		// what was concluded under the assumption is open again
		for x, v := range p.safe {
			if v {
				delete(p.safe, x)
			}
		}
	}
	p.safe[k] = ok
	return ok
}

func (p *Prog) argSafe1(f *ssa.Function, i int) bool {
	if len(f.Blocks) == 0 {
		return !mutatesArgs[fnName(f)]
	}
	if i >= len(f.Params) {
		return false
	}
	return p.valSafe(f.Params[i], map[ssa.Value]bool{})
}

func (p *Prog) valSafe(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.If, *ssa.BinOp, *ssa.Field, *ssa.Index, *ssa.Lookup:
			// reading through the pointer
		case *ssa.FieldAddr:
			if !p.valSafe(x, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if !p.valSafe(x, seen) {
				return false
			}
		case *ssa.Phi:
			if !p.valSafe(x, seen) {
				return false
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && (i >= len(g.FreeVars) || !p.valSafe(g.FreeVars[i], seen)) {
					return false
				}
			}
		case *ssa.Store:
			if x.Addr == v || x.Val == v {
				// a captured parameter is first copied to a cell
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v && p.cellSafe(a, seen) {
					continue
				}
				return false
			}
		case ssa.CallInstruction:
			cc := x.Common()
			fs, unknown := p.Callees(cc)
			if cc.Value == v && !cc.IsInvoke() {
				return false
			}
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				continue
			}
			if unknown {
				return false
			}
			if _, isGo := x.(*ssa.Go); isGo {
				return false
			}
			off := 0
			if cc.IsInvoke() {
				off = 1
				if cc.Value == v {
					return false
				}
			}
			for j, a := range cc.Args {
				if a != v {
					continue
				}
				for _, g := range fs {
					if !p.argSafe(g, j+off) {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// cellSafe: the variable a only holds the pointer for reading.
func (p *Prog) cellSafe(a *ssa.Alloc, seen map[ssa.Value]bool) bool {
	refs := a.Referrers()
	if refs == nil {
		return true
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val == a {
				return false
			}
		case *ssa.UnOp:
			if !p.valSafe(x, seen) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
