package main

import (
	"golang.org/x/tools/go/ssa"
)

// events selects the events of a path.
func (p *Path) calls(name string) (out []*Event) {
	for _, ev := range p.Events {
		if ev.Kind == "call" && nameIs(ev.Name, name) {
			out = append(out, ev)
		}
	}
	return
}

func nameIs(full, name string) bool {
	if full == name {
		return true
	}
	n := len(full) - len(name)
	return n > 0 && full[n:] == name && (full[n-1] == '.' || full[n-1] == '/')
}

// final is the value of obj.Field at the end of the path when the path wrote it.
func (p *Path) final(obj *Term, fieldName string) (v *Term, wrote bool) {
	for _, ev := range p.Events {
		if ev.Kind == "store" {
			if o := addrField(ev.Addr, fieldName); o != nil && sameLoc(o, obj) {
				v, wrote = ev.Val, true
			}
		}
	}
	return
}

// at returns what memory cell a holds just before an event, from the path's own writes.
func (p *Path) at(a *Term, before *Event) *Term {
	var v *Term
	for _, ev := range p.Events {
		if ev == before {
			break
		}
		if ev.Kind == "store" && ev.Addr == a {
			v = ev.Val
		}
	}
	return v
}

// deref gives the value a pointer argument points to at the call.
func (p *Path) deref(ev *Event, arg *Term) *Term {
	if arg == nil {
		return nil
	}
	if arg.Op == "alloc" || arg.Op == "fieldaddr" || arg.Op == "indexaddr" {
		if v := p.at(arg, ev); v != nil {
			return v
		}
	}
	return mk("load", "", arg)
}

// closureAt prepares the analysis of a function value passed at a call: captured variables that are
// written only once hold what they held at the call.
func (c *Check) closureAt(p *Path, ev *Event, t *Term) (*ssa.Function, Options) {
	if t == nil || (t.Op != "closure" && t.Op != "func") {
		return nil, Options{}
	}
	f, _ := t.V.(*ssa.Function)
	if f == nil {
		return nil, Options{}
	}
	opt := Options{FreeVars: map[string]*Term{}, Mem: map[*Term]*Term{}}
	for i, fv := range f.FreeVars {
		if i >= len(t.Args) {
			break
		}
		b := t.Args[i]
		opt.FreeVars[fv.Name()] = b
		if v := p.at(b, ev); v != nil && !writesVar(f, fv) {
			opt.Mem[b] = v
		}
	}
	return f, opt
}

// writesVar: the closure (or one inside it) assigns the captured variable.
func writesVar(f *ssa.Function, fv ssa.Value) bool {
	refs := fv.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == fv && writesVar(g, g.FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

var treeOpaque = opaque("Splitter.Split", "FeatureMatrix.BestSplitter", "RunningMean.Add", "RunningMean.WeightedAdd", "Node.Recurse", "Node.CodedRecurse", "SparseCounter.Add")

func isLoadField(t *Term, obj *Term, name string) bool {
	o := field(t, name)
	return o != nil && sameLoc(o, obj)
}

func knows(gs []*Term, g *Term) bool {
	for _, x := range gs {
		if x == g || strip(x) == strip(g) {
			return true
		}
	}
	return false
}

// node child addresses by part
var parts = []struct {
	field string
	nth   string
}{{"Node.Left", "0"}, {"Node.Right", "1"}, {"Node.Missing", "2"}}

// recurse decides that the walks over a tree hand each part of the cases to its child.
func (c *Check) recurse() {
	// Node.Recurse
	f := c.method("Node", "Recurse")
	e := c.run(f, "tree", Options{Opaque: treeOpaque})
	e.each(func(cu *Cut, p *Path) {
		if p.End == "panic" {
			return
		}
		key := "recurse/Node.Recurse"
		n, r, fm, cases, depth := e.param(0), e.param(1), e.param(2), e.param(3), e.param(4)
		if p.End != "return" || cu != e.Entry {
			c.bad(key, f.Pos(), "undecided: Node.Recurse has a loop")
			return
		}
		pos := f.Pos()
		// the visit comes first
		var visits, rec, split []*Event
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.Val == r:
				visits = append(visits, ev)
			case nameIs(ev.Name, "Recurse"):
				rec = append(rec, ev)
			case nameIs(ev.Name, "Split"):
				split = append(split, ev)
			}
		}
		if len(visits) != 1 || len(visits[0].Args) != 3 || visits[0].Args[0] != n || visits[0].Args[1] != cases || visits[0].Args[2] != depth {
			c.bad(key, pos, "Node.Recurse must visit the node exactly once with its cases and depth")
			return
		}
		c.ob("Node.Recurse", "the node is visited once with its cases and depth")
		for _, ev := range append(append([]*Event{}, rec...), split...) {
			if ev.Idx < visits[0].Idx {
				c.bad(key, instrPos(ev.In), "Node.Recurse splits the cases before visiting the node")
			}
		}
		all := p.All()
		coded, splitter := 0, 0
		for _, g := range all {
			gg, neg := g, false
			if g.Op == "not" {
				gg, neg = g.Args[0], true
			}
			if gg.Op == "isnil" {
				if isLoadField(gg.Args[0], n, "Node.CodedSplit") {
					coded = 1 - 2*b2i(!neg)
				}
				if isLoadField(gg.Args[0], n, "Node.Splitter") {
					splitter = 1 - 2*b2i(!neg)
				}
			}
		}
		if len(split) == 0 {
			if coded != -1 || splitter != -1 {
				c.bad(key, pos, "Node.Recurse stops at a node that has a splitter")
			}
			if len(rec) != 0 {
				c.bad(key, pos, "Node.Recurse goes on below a node without a splitter")
			}
			c.ob("Node.Recurse", "stops at a node without splitter")
			return
		}
		if len(split) != 1 {
			c.bad(key, pos, "Node.Recurse splits the cases of a node more than once")
			return
		}
		s := split[0]
		ok := false
		if s.Fn == nil && len(s.Args) == 3 { // Feature.Split(feature, coded, cases)
			o, i := elemField(s.Args[0], "FeatureMatrix.Data")
			ok = o == fm && isLoadField(i, n, "Node.Featurei") && isLoadField(unwrapped(s.Args[1]), n, "Node.CodedSplit") && s.Args[2] == cases && coded == 1
		} else if len(s.Args) == 3 {
			ok = isLoadField(s.Args[0], n, "Node.Splitter") && s.Args[1] == fm && s.Args[2] == cases && splitter == 1 && coded == -1
		}
		if !ok {
			c.bad(key, instrPos(s.In), "Node.Recurse must split the node's cases by the node's coded split on its own feature or, without one, by its splitter")
		}
		c.ob("Node.Recurse", "splits the node's own cases by the node's own splitter")
		done := map[string]int{}
		for _, ev := range rec {
			hit := ""
			for _, pt := range parts {
				if isLoadField(ev.Args[0], n, pt.field) && ev.Args[3] == mkExtract(s.Res, pt.nth) && ev.Args[1] == r && ev.Args[2] == fm && ev.Args[4] == addI(depth, 1) {
					hit = pt.field
				}
			}
			if hit == "" {
				c.bad(key, instrPos(ev.In), "Node.Recurse hands %v to child %v: each part must go to its own child one level deeper", ev.Args[3], ev.Args[0])
			}
			done[hit]++
			c.ob("Node.Recurse", "part handed to its child: "+hit)
		}
		for _, pt := range parts {
			if done[pt.field] > 1 {
				c.bad(key, pos, "Node.Recurse visits %s twice", pt.field)
			}
			if done[pt.field] == 0 {
				if pt.field != "Node.Missing" {
					c.bad(key, pos, "Node.Recurse drops the cases of %s", pt.field)
					continue
				}
				// only when there is no missing branch or nothing to send there
				m := mkExtract(s.Res, "2")
				okm := p.holds(eq0(lenT(m))) || p.holds(ge0(negT(lenT(m))))
				for _, g := range all {
					if g.Op == "isnil" && isLoadField(g.Args[0], n, "Node.Missing") {
						okm = true
					}
				}
				if !okm {
					c.bad(key, pos, "Node.Recurse drops missing cases although the node has a missing branch")
				}
				c.ob("Node.Recurse", "missing cases dropped only without a missing branch")
			}
		}
	})
	// Node.CodedRecurse
	f = c.method("Node", "CodedRecurse")
	e = c.run(f, "tree", Options{Opaque: treeOpaque})
	e.each(func(cu *Cut, p *Path) {
		if p.End == "panic" {
			return
		}
		key := "recurse/Node.CodedRecurse"
		n, r, fm, cases, depth, nc := e.param(0), e.param(1), e.param(2), e.param(3), e.param(4), e.param(5)
		pos := f.Pos()
		if p.End != "return" || cu != e.Entry {
			c.bad(key, pos, "undecided: Node.CodedRecurse has a loop")
			return
		}
		var visits, rec, split []*Event
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case ev.Val == r:
				visits = append(visits, ev)
			case nameIs(ev.Name, "CodedRecurse"):
				rec = append(rec, ev)
			case nameIs(ev.Name, "SplitPoints"):
				split = append(split, ev)
			}
		}
		if len(visits) != 1 || len(visits[0].Args) != 4 || visits[0].Args[0] != n || visits[0].Args[1] != cases || visits[0].Args[2] != depth || visits[0].Args[3] != nc {
			c.bad(key, pos, "Node.CodedRecurse must visit the node exactly once with its cases and depth")
			return
		}
		c.ob("Node.CodedRecurse", "the node is visited once with its cases and depth")
		v := visits[0].Res
		if len(split) == 0 {
			if !p.holds(isnil(mkExtract(v, "1"))) || len(rec) > 0 {
				c.bad(key, pos, "Node.CodedRecurse must go on below a node exactly when the visit returns a split")
			}
			c.ob("Node.CodedRecurse", "stops when the visit returns no split")
			return
		}
		s := split[0]
		if len(split) != 1 || len(s.Args) != 3 {
			c.bad(key, pos, "Node.CodedRecurse splits the cases of a node more than once")
			return
		}
		o, i := elemField(s.Args[0], "FeatureMatrix.Data")
		if !(o == fm && i == mkExtract(v, "0") && unwrapped(s.Args[1]) == mkExtract(v, "1") && s.Args[2] == cases) {
			c.bad(key, instrPos(s.In), "Node.CodedRecurse must split the node's cases by the split and feature the visit returned")
		}
		c.ob("Node.CodedRecurse", "splits the node's own cases by the returned split")
		li, ri := mkExtract(s.Res, "0"), mkExtract(s.Res, "1")
		done := map[string]int{}
		for _, ev := range rec {
			cs := p.deref(ev, ev.Args[3])
			hit := ""
			if cs != nil && cs.Op == "slice" && sameLoc(cs.Args[0], mk("load", "", cases)) {
				whole := lenT(cs.Args[0])
				lo, hi := bound(cs.Args[1], intT(0)), bound(cs.Args[2], whole)
				switch {
				case isLoadField(ev.Args[0], n, "Node.Left") && lo == intT(0) && hi == li:
					hit = "Node.Left"
				case isLoadField(ev.Args[0], n, "Node.Right") && lo == ri && hi == whole:
					hit = "Node.Right"
				case isLoadField(ev.Args[0], n, "Node.Missing") && lo == li && hi == ri:
					hit = "Node.Missing"
				}
			}
			if hit == "" || ev.Args[1] != r || ev.Args[2] != fm || ev.Args[4] != addI(depth, 1) || ev.Args[5] != mkExtract(v, "2") {
				c.bad(key, instrPos(ev.In), "Node.CodedRecurse hands %v to child %v: each part must go to its own child one level deeper", cs, ev.Args[0])
			}
			done[hit]++
			c.ob("Node.CodedRecurse", "part handed to its child: "+hit)
		}
		for _, pt := range parts {
			if done[pt.field] > 1 {
				c.bad(key, pos, "Node.CodedRecurse visits %s twice", pt.field)
			}
			if done[pt.field] == 0 {
				if pt.field != "Node.Missing" {
					c.bad(key, pos, "Node.CodedRecurse drops the cases of %s", pt.field)
					continue
				}
				okm := p.holds(eq0(subT(li, ri)))
				for _, g := range p.All() {
					if g.Op == "isnil" && isLoadField(g.Args[0], n, "Node.Missing") {
						okm = true
					}
				}
				if !okm {
					c.bad(key, pos, "Node.CodedRecurse drops missing cases although the node has a missing branch")
				}
				if w, wrote := p.final(n, "Node.Missing"); !wrote || w.Op != "nil" {
					ok := false
					for _, g := range p.All() {
						if g.Op == "isnil" && isLoadField(g.Args[0], n, "Node.Missing") {
							ok = true
						}
					}
					if !ok {
						c.bad(key, pos, "Node.CodedRecurse keeps a missing branch that no training case reached, which would have neither prediction nor splitter")
					}
				}
				c.ob("Node.CodedRecurse", "missing branch only with cases that reached it")
			}
		}
	})
}

func mkExtract(t *Term, n string) *Term {
	if t.Op == "tuple" {
		i := int(n[0] - '0')
		if i < len(t.Args) {
			return t.Args[i]
		}
	}
	return mk("extract", n, t)
}

// growers visits the per-node step of each tree grower: its analysis, the node, its cases and its depth.
type growStep struct {
	name  string
	e     *Exec
	n     *Term                          // the node being grown (nil: read from the path)
	cases func(ev *Event, p *Path) *Term // its cases at an event
	depth *Term
	max   *Term
	leaf  *Term
	tgt   *Term
	fm    *Term
	outer *Exec
}

func (c *Check) growClosure() *growStep {
	f := c.method("Tree", "Grow")
	e := c.run(f, "tree", Options{Opaque: treeOpaque})
	if e == nil {
		return nil
	}
	var g *growStep
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.calls("CodedRecurse") {
			if len(ev.Args) != 6 {
				continue
			}
			cf, opt := c.closureAt(p, ev, ev.Args[1])
			if cf == nil {
				continue
			}
			if root := field(ev.Args[0], "Tree.Root"); root != e.param(0) || ev.Args[2] != e.param(1) || !isZero(ev.Args[4]) || p.deref(ev, ev.Args[3]) != e.param(3) {
				c.bad("grow/Tree.Grow", instrPos(ev.In), "Tree.Grow must start at the root with all training cases at depth 0")
			}
			c.ob("Tree.Grow", "starts at the root with all the training cases at depth 0")
			opt.Opaque = treeOpaque
			ce := c.run(cf, "grow", opt)
			if ce == nil {
				continue
			}
			ic := ce.param(1)
			g = &growStep{name: "Tree.Grow", e: ce, n: ce.param(0), cases: func(ev *Event, p *Path) *Term { return mk("load", "", ic) },
				depth: ce.param(2), max: e.param(8), leaf: e.param(7), tgt: e.param(2), fm: e.param(1), outer: e}
		}
	})
	if g == nil {
		c.bad("grow/Tree.Grow", f.Pos(), "undecided: Tree.Grow does not grow through CodedRecurse")
	}
	return g
}

func (c *Check) growJungle() *Exec {
	f := c.method("Tree", "GrowJungle")
	return c.run(f, "tree", Options{Opaque: treeOpaque})
}

// splitStored decides that a grown node records the split its cases are divided by, and that a
// leaf has a prediction and nothing else.
func (c *Check) splitStored(name string, e *Exec, p *Path, fm, tgt *Term, node func(p *Path) *Term, cases func(ev *Event) *Term) {
	key := "grow/" + name
	bs := p.calls("BestSplitter")
	var split, fi *Term
	if len(bs) > 1 {
		c.bad(key, instrPos(bs[1].In), "%s searches for the split of a node twice", name)
		return
	}
	n := node(p)
	if n == nil {
		c.bad(key, e.Root.Pos(), "undecided: %s writes no node", name)
		return
	}
	pos := e.Root.Pos()
	if len(bs) == 1 {
		split, fi = mkExtract(bs[0].Res, "1"), mkExtract(bs[0].Res, "0")
		pos = instrPos(bs[0].In)
		if cs := p.deref(bs[0], bs[0].Args[2]); !sameLoc(cs, cases(bs[0])) {
			c.bad(key, pos, "%s searches for a split of other cases than the node's", name)
		}
		if bs[0].Args[0] != fm || bs[0].Args[1] != tgt {
			c.bad(key, pos, "%s searches for a split with another matrix or target", name)
		}
		c.ob(name, "split searched over the node's own cases")
	}
	get := func(f string) *Term { v, _ := p.final(n, "Node."+f); return v }
	if split != nil && p.holds(notT(isnil(split))) {
		sp := get("Splitter")
		ok := false
		if sp != nil {
			if a := isCall(sp, "DecodeSplit"); a != nil {
				o, i := elemField(a[0], "FeatureMatrix.Data")
				ok = o == fm && i == fi && unwrapped(a[1]) == split
			}
		}
		if get("CodedSplit") == nil || unwrapped(get("CodedSplit")) != split || get("Featurei") != fi || !ok {
			c.bad(key, pos, "%s must record in the node the split found, its feature and its decoded form", name)
		}
		c.ob(name, "node records split, feature and decoded splitter of the same search")
		return
	}
	if split != nil && !p.holds(isnil(split)) {
		c.bad(key, pos, "undecided: %s does not test whether a split was found", name)
		return
	}
	for _, f := range []string{"CodedSplit", "Splitter", "Left", "Right", "Missing"} {
		if v := get(f); v == nil || v.Op != "nil" {
			c.bad(key, pos, "%s leaves %s of an earlier tree in a leaf", name, f)
		}
	}
	ok := false
	if a := isCall(get("Pred"), "FindPredicted"); a != nil && a[0] == tgt {
		var ev *Event
		for _, x := range p.calls("FindPredicted") {
			ev = x
		}
		ok = ev != nil && sameLoc(a[1], cases(ev))
	}
	if !ok {
		c.bad(key, pos, "%s must predict in a leaf from the leaf's own cases", name)
	}
	c.ob(name, "leaf holds only the prediction of its own cases")
}

// jungleNode reads, on a path of GrowJungle, the entry of the node list being extended.
func jungleNode(p *Path) (n, start, end *Term) {
	for _, ev := range p.Events {
		if ev.Kind == "store" {
			for _, f := range []string{"Node.CodedSplit"} {
				if o := addrField(ev.Addr, f); o != nil {
					n = o
				}
			}
		}
	}
	if n == nil {
		return
	}
	ent := field(n, ".n")
	if ent == nil {
		return nil, nil, nil
	}
	return n, ent, ent
}

func (c *Check) growth() {
	if g := c.growClosure(); g != nil {
		ic := g.e.param(1)
		g.e.each(func(cu *Cut, p *Path) {
			if p.End != "return" {
				return
			}
			c.splitStored("Tree.Grow", g.e, p, g.fm, g.tgt, func(*Path) *Term { return g.n }, func(*Event) *Term { return mk("load", "", ic) })
			bs := p.calls("BestSplitter")
			var split, fi *Term
			if len(bs) == 1 {
				split, fi = mkExtract(bs[0].Res, "1"), mkExtract(bs[0].Res, "0")
			}
			if split != nil && p.holds(notT(isnil(split))) {
				if len(p.Ret) != 3 || unwrapped(p.Ret[1]) != split || p.Ret[0] != fi {
					c.bad("grow/Tree.Grow", instrPos(p.RetIn), "Tree.Grow must divide the cases by the split it records")
				}
			} else if len(p.Ret) != 3 || !(p.Ret[1].Op == "nil" || p.holds(isnil(p.Ret[1]))) {
				c.bad("grow/Tree.Grow", instrPos(p.RetIn), "Tree.Grow goes on below a leaf")
			}
			c.ob("Tree.Grow", "the returned split is the recorded one")
		})
	}
	e := c.growJungle()
	if e == nil {
		return
	}
	cases := e.param(3)
	done := 0
	e.each(func(cu *Cut, p *Path) {
		n, ent, _ := jungleNode(p)
		if n == nil {
			return
		}
		key := "grow/Tree.GrowJungle"
		done++
		fld := func(t *Term, name string) bool { o := field(t, name); return o == ent }
		var s0, e0 *Term
		cs := func(ev *Event) *Term {
			// cases[ent.start:ent.end]
			var t *Term
			for _, x := range p.Events {
				for _, a := range append(append([]*Term{}, x.Args...), x.Val) {
					if a != nil {
						a.walk(func(y *Term) bool {
							if y.Op == "slice" && y.Args[0] == cases && fld(y.Args[1], ".start") && fld(y.Args[2], ".end") {
								t, s0, e0 = y, y.Args[1], y.Args[2]
							}
							return true
						})
					}
				}
			}
			return t
		}
		c.splitStored("Tree.GrowJungle", e, p, e.param(1), e.param(2), func(*Path) *Term { return n }, cs)
		cs(nil)
		sp := p.calls("SplitPoints")
		bs := p.calls("BestSplitter")
		if len(bs) == 0 || !p.holds(notT(isnil(mkExtract(bs[0].Res, "1")))) {
			if len(sp) > 0 {
				c.bad(key, instrPos(sp[0].In), "GrowJungle divides the cases of a leaf")
			}
			for _, ev := range p.Events {
				if ev.Kind == "append" && ev.Args[0].Op == "struct" {
					c.bad(key, instrPos(ev.In), "GrowJungle goes on below a leaf")
				}
			}
			return
		}
		if len(sp) != 1 {
			c.bad(key, e.Root.Pos(), "GrowJungle must divide the cases of an inner node once")
			return
		}
		s := sp[0]
		o, i := elemField(s.Args[0], "FeatureMatrix.Data")
		if !(o == e.param(1) && i == mkExtract(bs[0].Res, "0") && unwrapped(s.Args[1]) == mkExtract(bs[0].Res, "1")) || s0 == nil || p.deref(s, s.Args[2]) == nil || !sameLoc(p.deref(s, s.Args[2]), mk("slice", "", cases, s0, e0)) {
			c.bad(key, instrPos(s.In), "GrowJungle must divide the node's own cases by the split found")
			return
		}
		li, ri := mkExtract(s.Res, "0"), mkExtract(s.Res, "1")
		got := map[string]int{}
		for _, ev := range p.Events {
			if ev.Kind != "append" {
				continue
			}
			for _, st := range ev.Args {
				if st.Op != "struct" || len(st.Args) < 3 {
					continue
				}
				child, lo, hi := st.Args[0], st.Args[1], st.Args[2]
				hit := ""
				for _, q := range []struct {
					f      string
					lo, hi *Term
				}{{"Node.Left", s0, addT(s0, li)}, {"Node.Right", addT(s0, ri), e0}, {"Node.Missing", addT(s0, li), addT(s0, ri)}} {
					if v, _ := p.final(n, q.f); v == child && lo == q.lo && hi == q.hi {
						hit = q.f
					}
				}
				if hit == "" {
					c.bad(key, instrPos(ev.In), "GrowJungle queues child %v with cases [%v,%v), which is not its part", child, lo, hi)
				}
				got[hit]++
				c.ob("Tree.GrowJungle", "part queued for its child: "+hit)
			}
		}
		for _, pt := range parts {
			v, wrote := p.final(n, pt.field)
			live := wrote && v.Op != "nil"
			if pt.field != "Node.Missing" && (!live || got[pt.field] != 1) {
				c.bad(key, instrPos(s.In), "GrowJungle drops or repeats the cases of %s", pt.field)
			}
			if pt.field == "Node.Missing" {
				if (!wrote) || (live && got[pt.field] != 1) || (!live && got[pt.field] != 0) {
					c.bad(key, instrPos(s.In), "GrowJungle drops or repeats the missing cases")
				}
				sm := e.param(9)
				if !live && !p.holds(eq0(subT(li, ri))) && !p.holds(notT(sm)) {
					c.bad(key, instrPos(s.In), "GrowJungle drops missing cases although a missing branch was asked for")
				}
				if live && !p.holds(notT(eq0(subT(li, ri)))) {
					c.bad(key, instrPos(s.In), "GrowJungle keeps a missing branch that no training case reached")
				}
			}
		}
		c.ob("Tree.GrowJungle", "each part queued once")
	})
	if done == 0 {
		c.bad("grow/Tree.GrowJungle", e.Root.Pos(), "undecided: GrowJungle extends no node")
	}
}
