package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effects is the set of location classes a function may write in memory that exists before the call.
// "ALL" means unknown.
type effects map[string]bool

func (e effects) addAll(o effects) bool {
	ch := false
	for k := range o {
		if !e[k] {
			e[k] = true
			ch = true
		}
	}
	return ch
}
func (e effects) list() []string {
	var s []string
	for k := range e {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == RepoPath {
			return ""
		}
		return strings.TrimPrefix(p.Path(), RepoPath+"/")
	})
}

func structOf(t types.Type) (*types.Struct, string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st, typeName(t)
}

func fieldClass(x types.Type, i int) (string, *types.Var) {
	st, n := structOf(x)
	if st == nil {
		return "?", nil
	}
	return n + "." + st.Field(i).Name(), st.Field(i)
}

// addrClass names the class of the location an address value points to.
func addrClass(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		c, _ := fieldClass(v.X.Type(), v.Field)
		return "F:" + c
	case *ssa.IndexAddr:
		t := v.X.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		switch t := t.(type) {
		case *types.Slice:
			return "E:" + typeName(t.Elem())
		case *types.Array:
			return "E:" + typeName(t.Elem())
		}
		return "E:?"
	case *ssa.Global:
		return "G:" + v.String()
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		return "C:" + typeName(p.Elem())
	}
	return "C:?"
}

// rootOf follows an address or reference back to the object it is part of.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		default:
			return v
		}
	}
}

func freshRoot(v ssa.Value, seen map[ssa.Value]bool) bool {
	v = rootOf(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshRoot(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshRoot(x.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		// a local variable holding a fresh slice
		if a, ok := x.X.(*ssa.Alloc); ok && a.Referrers() != nil {
			ok := true
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == a && !freshRoot(r.Val, seen) {
						ok = false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					ok = false
				}
			}
			return ok
		}
	}
	return false
}

// mutatesArgs lists library functions that write through an argument, with the class of what they write.
var mutatesArgs = map[string]bool{
	"sort.Ints": true, "sort.Strings": true, "sort.Float64s": true, "sort.Sort": true, "sort.Slice": true, "sort.Stable": true, "sort.SliceStable": true,
	"encoding/json.Unmarshal": true, "slices.Sort": true, "slices.Reverse": true, "slices.SortFunc": true,
}

func isRepo(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && (p.Pkg.Path() == RepoPath || strings.HasPrefix(p.Pkg.Path(), RepoPath+"/"))
}

func fnInRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return isRepo(f.Pkg)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() == RepoPath || strings.HasPrefix(o.Pkg().Path(), RepoPath+"/")
	}
	return false
}

// calleeName is the resolved name of a call's target: "strings.ToLower", "(*bufio.Reader).Peek", "Feature.Split" for interface calls.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "func value"
}

func fnName(f *ssa.Function) string {
	if f.Signature.Recv() != nil {
		return "(" + typeName(f.Signature.Recv().Type()) + ")." + f.Name()
	}
	if f.Pkg != nil && f.Parent() == nil {
		if f.Pkg.Pkg.Path() == RepoPath {
			return f.Name()
		}
		return strings.TrimPrefix(f.Pkg.Pkg.Path(), RepoPath+"/") + "." + f.Name()
	}
	return f.Name()
}

// Impls lists the repository's implementations of an interface method (class hierarchy analysis).
func (p *Prog) Impls(iface types.Type, m *types.Func) []*ssa.Function {
	if p.chaM == nil {
		p.chaM = map[string][]*ssa.Function{}
	}
	k := typeName(iface) + "." + m.Name()
	if r, ok := p.chaM[k]; ok {
		return r
	}
	it, ok := iface.Underlying().(*types.Interface)
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	if ok {
		for _, sp := range p.SPkgs {
			for _, mem := range sp.Members {
				tt, ok := mem.(*ssa.Type)
				if !ok || types.IsInterface(tt.Type()) {
					continue
				}
				for _, t := range []types.Type{tt.Type(), types.NewPointer(tt.Type())} {
					if types.Implements(t, it) {
						sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
						if sel == nil {
							continue
						}
						if f := p.SSA.MethodValue(sel); f != nil && !seen[f] {
							seen[f] = true
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	p.chaM[k] = out
	return out
}

// addressTaken lists the functions and closures whose signature matches a dynamic call.
func (p *Prog) addressTaken(sig *types.Signature) []*ssa.Function {
	if p.addrT == nil {
		p.addrT = map[string][]*ssa.Function{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops [12]*ssa.Value
					for _, op := range in.Operands(ops[:0]) {
						if op == nil || *op == nil {
							continue
						}
						fn, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == fn && !c.Common().IsInvoke() {
							// still taken if also an argument; rare
							isArg := false
							for _, a := range c.Common().Args {
								if a == fn {
									isArg = true
								}
							}
							if !isArg {
								continue
							}
						}
						k := sigKey(fn.Signature)
						p.addrT[k] = append(p.addrT[k], fn)
					}
				}
			}
		}
	}
	return p.addrT[sigKey(sig)]
}

func sigKey(s *types.Signature) string {
	// parameter names do not matter
	k := fmt.Sprint(s.Variadic(), "(")
	for i := 0; i < s.Params().Len(); i++ {
		k += typeName(s.Params().At(i).Type()) + ","
	}
	k += ")("
	for i := 0; i < s.Results().Len(); i++ {
		k += typeName(s.Results().At(i).Type()) + ","
	}
	return k + ")"
}

// Callees resolves a call to the functions it may reach in the repository; unknown is set when it may reach others.
func (p *Prog) Callees(c *ssa.CallCommon) (fs []*ssa.Function, unknown bool) {
	if c.IsInvoke() {
		return p.Impls(c.Value.Type(), c.Method), false
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}, false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	sig := c.Signature()
	return p.addressTaken(sig), false
}

// Effects computes, by fixpoint over the call graph, what each function may write.
func (p *Prog) Effects(f *ssa.Function) effects {
	if len(p.eff) == 0 {
		p.computeEffects()
	}
	if e, ok := p.eff[f]; ok {
		return e
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 { // wrappers (promoted methods)
		e := effects{}
		p.eff[f] = e
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fs, _ := p.Callees(c.Common())
					for _, g := range fs {
						e.addAll(p.Effects(g))
					}
				}
			}
		}
		return e
	}
	return effects{}
}

func (p *Prog) computeEffects() {
	type edge struct{ calls []*ssa.CallCommon }
	calls := map[*ssa.Function][]*ssa.CallCommon{}
	for _, f := range p.Funcs {
		e := effects{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !freshRoot(in.Addr, map[ssa.Value]bool{}) {
						e[addrClass(in.Addr)] = true
						// storing a whole struct writes its fields
						if pt, ok := in.Addr.Type().Underlying().(*types.Pointer); ok {
							if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
								for i := 0; i < st.NumFields(); i++ {
									e["F:"+typeName(pt.Elem())+"."+st.Field(i).Name()] = true
								}
							}
						}
					}
				case *ssa.MapUpdate:
					if !freshRoot(in.Map, map[ssa.Value]bool{}) {
						e["M:"+typeName(in.Map.Type())] = true
					}
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy":
							if !freshRoot(c.Args[0], map[ssa.Value]bool{}) {
								if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
									e["E:"+typeName(s.Elem())] = true
								}
							}
						case "append":
							if !freshRoot(c.Args[0], map[ssa.Value]bool{}) {
								if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
									e["A:"+typeName(s.Elem())] = true
								}
							}
						case "delete", "clear":
							if !freshRoot(c.Args[0], map[ssa.Value]bool{}) {
								e["M:"+typeName(c.Args[0].Type())] = true
							}
						}
						continue
					}
					if f2 := c.StaticCallee(); f2 != nil && mutatesArgs[fnName(f2)] {
						for _, a := range c.Args {
							if !freshRoot(a, map[ssa.Value]bool{}) {
								if s, ok := rootOf(a).Type().Underlying().(*types.Slice); ok {
									e["E:"+typeName(s.Elem())] = true
								}
							}
						}
					}
					calls[f] = append(calls[f], c)
				}
			}
		}
		p.eff[f] = e
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			for _, c := range calls[f] {
				fs, unk := p.Callees(c)
				if unk && !p.eff[f]["ALL"] {
					p.eff[f]["ALL"] = true
					ch = true
				}
				for _, g := range fs {
					if e, ok := p.eff[g]; ok {
						if p.eff[f].addAll(e) {
							ch = true
						}
					} else if len(g.Blocks) > 0 && g.Synthetic != "" {
						// wrapper: one level
						for _, b := range g.Blocks {
							for _, in := range b.Instrs {
								if c2, ok := in.(ssa.CallInstruction); ok {
									gs, _ := p.Callees(c2.Common())
									for _, h := range gs {
										if e, ok := p.eff[h]; ok && p.eff[f].addAll(e) {
											ch = true
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
}
