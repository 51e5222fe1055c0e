package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C14", Min: 150, Run: rulePure,
		What: "from the whole-program write summaries (every location a function and its callees may write, in terms of its parameters and package variables): no method of a feature or target other than the stated mutators, no grower, walker, voter, sampler, error tally, encoder or writer writes anything reachable from a feature, target, matrix, label table, splitter, coded split or package variable it is given (a grower may write its tree, a vote its box); scoring and predicting do not write their case lists either; nothing reachable from the data is stored into the scratch allocations or other outputs where a later step would write it; the contrast target of the allocations is a fresh copy; a boosting step writes only its target's weights (gradient boosting: also its residuals)"})
}

func isNamed(t types.Type, names ...string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}

// dataLike says whether a value of the type is training data or gives access to it.
func (p *Prog) dataLike(t types.Type) bool {
	if isNamed(t, "FeatureMatrix", "CatMap", "Splitter", "DenseNumFeature", "DenseCatFeature", "Tree", "Forest", "Node") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return p.dataLike(u.Elem())
	case *types.Map:
		return p.dataLike(u.Elem())
	case *types.Array:
		return p.dataLike(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return true // a coded split
		}
		return isNamed(t, "Feature", "NumFeature", "CatFeature", "Target", "BoostingTarget", "TargetWithIntercept", "NumTarget", "CatTarget")
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Slice); ok {
			return p.dataLike(u.Elem().Underlying())
		}
	}
	if it := p.iface("Target"); it != nil {
		return types.Implements(t, it) || types.Implements(types.NewPointer(t), it)
	}
	return false
}

func (p *Prog) iface(name string) *types.Interface {
	o := p.Pkgs[RepoPath].Scope().Lookup(name)
	if o == nil {
		return nil
	}
	it, _ := o.Type().Underlying().(*types.Interface)
	return it
}

// mutators of a feature or target, by what they may write.
var mutators = map[string]bool{"Append": true, "PutStr": true, "Put": true, "Puti": true, "PutMissing": true, "ImputeMissing": true,
	"Shuffle": true, "ShuffleCases": true, "CatToNum": true, "SetCosts": true, "CopyInTo": true, "Boost": true, "Update": true}

// caseLists are the operations that may reorder the case lists they are given.
var caseLists = map[string]bool{"Split": true, "SplitPoints": true, "BestSplit": true, "BestCatSplit": true, "BestCatSplitIter": true, "BestCatSplitIterBig": true,
	"BestCatSplitBig": true, "BestBinSplit": true, "BestNumSplit": true, "FilterMissing": true, "ShuffleCases": true, "BestSplitter": true, "Grow": true, "GrowJungle": true, "VoteCases": true, "Vote": true,
	"Recurse": true, "CodedRecurse": true, "Partition": true, "GetLeaves": true}

func rulePure(c *Check) {
	m := c.P.ModRef()
	feat := c.P.iface("Feature")
	targ := c.P.iface("Target")
	if feat == nil || targ == nil {
		c.badAt("anchor/Feature", "-", "the Feature and Target interfaces are gone")
		return
	}
	isList := func(t types.Type) bool {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), types.Typ[types.Int])
	}
	done := map[*ssa.Function]bool{}
	judge := func(f *ssa.Function, allow func(l loc, p *ssa.Parameter) bool) {
		if f == nil || done[f] {
			return
		}
		done[f] = true
		s := m.sum[f]
		if s == nil {
			return
		}
		name := f.Name()
		c.fns[FuncName(f)] = true
		c.ob(FuncName(f), "everything it may write is an output, scratch space or a case list")
		prot := func(q *ssa.Parameter) bool { return c.P.dataLike(q.Type()) }
		seen := map[string]bool{}
		for k := range s.mods {
			c.ob(FuncName(f), "write judged")
			key := k.l.String()
			if seen[key] {
				continue
			}
			switch r := k.l.root.(type) {
			case *ssa.Global:
				seen[key] = true
				c.bad("C14/"+FuncName(f)+":global:"+r.Name(), instrPos(k.site), "%s writes the package variable %s (in %s)", FuncName(f), r.Name(), FuncName(k.site.Parent()))
			case *ssa.Parameter:
				if allow != nil && allow(k.l, r) {
					continue
				}
				if prot(r) {
					seen[key] = true
					c.bad("C14/"+FuncName(f)+":writes:"+key, instrPos(k.site), "%s changes %s, which it was only given to read (the write is in %s)", FuncName(f), key, FuncName(k.site.Parent()))
				} else if isList(r.Type()) && !caseLists[name] && !c.counterParam(f, r) {
					seen[key] = true
					c.bad("C14/"+FuncName(f)+":list:"+key, instrPos(k.site), "%s changes the case list %s it was only given to read (the write is in %s)", FuncName(f), key, FuncName(k.site.Parent()))
				}
			case *ssa.FreeVar:
				seen[key] = true
				c.bad("C14/"+FuncName(f)+":captured:"+key, instrPos(k.site), "%s changes the captured variable %s", FuncName(f), key)
			}
		}
		// references to the data left where a later step writes
		for l, set := range s.con {
			q, ok := l.root.(*ssa.Parameter)
			if !ok || prot(q) {
				continue
			}
			for v := range set {
				w, ok := v.root.(*ssa.Parameter)
				if !ok || !prot(w) || w == q || strings.Count(v.path, "*") == 0 {
					continue
				}
				if allow != nil && allow(v, w) {
					continue
				}
				c.bad("C14/"+FuncName(f)+":alias:"+l.String()+":"+v.String(), f.Pos(), "%s leaves a reference to %s in %s, where it would be overwritten as scratch space", FuncName(f), v.String(), l.String())
			}
		}
	}

	// every method of a feature or target
	for _, f := range c.P.Funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil || !c.P.core(f) {
			continue
		}
		rt := f.Signature.Recv().Type()
		if !types.Implements(rt, targ) && !types.Implements(types.NewPointer(rt), targ) {
			continue
		}
		if !f.Object().Exported() {
			continue
		}
		switch n := f.Name(); {
		case n == "CopyInTo":
			judge(f, func(l loc, p *ssa.Parameter) bool { return p == f.Params[1] })
		case n == "ShuffleCases" || n == "Shuffle":
			judge(f, func(l loc, p *ssa.Parameter) bool { return p == f.Params[0] })
		case n == "Boost":
			c.boost(m, f)
		case mutators[n]:
		default:
			judge(f, nil)
		}
	}
	recv := func(f *ssa.Function) func(loc, *ssa.Parameter) bool {
		return func(l loc, p *ssa.Parameter) bool { return p == f.Params[0] }
	}
	for _, n := range []string{"Grow", "GrowJungle"} {
		if f := c.method("Tree", n); f != nil {
			judge(f, recv(f))
		}
	}
	if f := c.method("Node", "CodedRecurse"); f != nil {
		judge(f, recv(f))
	}
	for _, n := range []string{"Tree.Vote", "Tree.VoteCases", "Tree.Partition", "Tree.GetLeaves", "Node.Recurse", "Node.Climb", "Node.Depth", "Splitter.Split",
		"FeatureMatrix.BestSplitter", "FeatureMatrix.WriteCases", "FeatureMatrix.EncodeToNum", "FeatureMatrix.OneHot",
		"ForestWriter.WriteForest", "ForestWriter.WriteTree", "ForestWriter.WriteTreeHeader", "ForestWriter.WriteForestHeader", "ForestWriter.WriteNodeAndChildren", "ForestWriter.WriteNode",
		"WriteLibSvm", "WriteLibSvmCases", "WriteArffCases", "BuildScikitTree", "SampleFirstN", "SampleWithReplacment", "NewBestSplitAllocs", "NewBalancedSampler", "NewSecondaryBalancedSampler"} {
		f := c.P.lookup(n)
		if f == nil {
			continue
		}
		judge(f, nil)
	}
	// constructors of targets, samplers and boxes, methods of boxes and samplers
	for _, f := range c.P.Funcs {
		if !c.P.core(f) || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if f.Signature.Recv() == nil {
			if strings.HasPrefix(f.Name(), "New") {
				res := f.Signature.Results()
				grad := res.Len() > 0 && isNamed(res.At(0).Type(), "GradBoostTarget", "GradBoostClassTarget")
				judge(f, func(l loc, p *ssa.Parameter) bool {
					// a target may add the class it is told about to the labels; gradient boosting replaces its own target by residuals
					return grad || strings.HasSuffix(f.Name(), "Target") && strings.Contains(l.path, ".CatMap*")
				})
			}
			continue
		}
		for _, in := range []string{"VoteTallyer", "CatTallyer", "NumTallyer", "Bagger"} {
			it := c.P.iface(in)
			rt := f.Signature.Recv().Type()
			if it != nil && it.NumMethods() > 0 && (types.Implements(rt, it)) {
				judge(f, recv(f))
			}
		}
	}
	c.contrast(m)
}

// counterParam: the counter or output argument of an operation, by its role in the interface.
func (c *Check) counterParam(f *ssa.Function, p *ssa.Parameter) bool {
	switch f.Name() {
	case "Impurity", "Span", "CountPerCat", "GiniWithoutAlocate", "Sample":
		return p != f.Params[0] && (f.Name() == "Sample" || len(f.Params) > 2 && p == f.Params[2])
	case "SampleFirstN":
		return true
	}
	return false
}

// boost: a boosting step changes only what is the target's own.
func (c *Check) boost(m *modref, f *ssa.Function) {
	s := m.sum[f]
	if s == nil {
		return
	}
	c.fns[FuncName(f)] = true
	grad := false
	st, _ := structOf(f.Params[0].Type())
	weights := false
	if st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Weights" {
				weights = true
			}
		}
	}
	grad = !weights
	seen := map[string]bool{}
	for k := range s.mods {
		c.ob(FuncName(f), "write of a boosting step judged")
		key := k.l.String()
		if seen[key] {
			continue
		}
		r, ok := k.l.root.(*ssa.Parameter)
		if ok && r == f.Params[0] && (grad || strings.HasPrefix(k.l.path, ".Weights")) {
			continue
		}
		seen[key] = true
		c.bad("C14/"+FuncName(f)+":writes:"+key, instrPos(k.site), "the boosting step %s changes %s, which is not its target's own state", FuncName(f), key)
	}
}

// contrast: the allocations' contrast target is written freely, so it must be a copy.
func (c *Check) contrast(m *modref) {
	n := 0
	for _, f := range m.list {
		s := m.sum[f]
		for l, set := range s.con {
			if !strings.HasSuffix(l.path, ".ContrastTarget") {
				continue
			}
			for v := range set {
				n++
				c.ob(FuncName(f), "the contrast target is a copy")
				if _, ok := v.root.(*obj); !ok {
					c.bad("C14/"+FuncName(f)+":contrast:"+v.String(), f.Pos(), "%s makes %s the contrast target, which the split search shuffles", FuncName(f), v.String())
				}
			}
		}
	}
	if n == 0 {
		c.badAt("anchor/ContrastTarget", "-", "no contrast target is set anywhere")
	}
}

func (p *Prog) core(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == RepoPath }

func (p *Prog) lookup(n string) *ssa.Function {
	if i := strings.Index(n, "."); i > 0 {
		return p.Method(n[:i], n[i+1:])
	}
	return p.Fn("", n)
}
