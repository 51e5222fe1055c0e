package main

// ---- C09, C10: the growers and FeatureMatrix.BestSplitter ------------------------------------------------

// limits decides that a tree's node is divided only above the maximum depth, and that the limits given
// reach every search for a split.
func (c *Check) limits() {
	check := func(name string, e *Exec, depth, max, leaf *Term) {
		key := "limits/" + name
		n := 0
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.calls("BestSplitter") {
				n++
				pos := instrPos(ev.In)
				c.ob(name, "no node at the maximum depth is divided")
				if depth == nil {
					c.bad(key+"/depth", pos, "undecided: %s keeps no depth", name)
				} else if fs := p.before(ev); !e.proves(fs, addI(subT(max, depth), -1), 3) && !e.proves(fs, negT(max), 3) {
					c.bad(key+"/depth", pos, "%s can divide a node that is already at the maximum depth", name)
				}
				c.ob(name, "the minimum leaf size given is searched with")
				if ev.Args[6] != leaf {
					c.bad(key+"/leaf", pos, "%s searches for splits with another minimum leaf size than it was given", name)
				}
			}
		})
		if n == 0 {
			c.bad(key, e.Root.Pos(), "undecided: %s searches for no split", name)
		}
	}
	if g := c.growClosure(); g != nil {
		check("Tree.Grow", g.e, g.depth, g.max, g.leaf)
	}
	if e := c.growJungle(); e != nil {
		check("Tree.GrowJungle", e, c.jungleLevel(e, "limits/Tree.GrowJungle"), e.param(8), e.param(7))
	}

	// the features are searched with it
	f := c.method("FeatureMatrix", "BestSplitter")
	if e := c.run(f, "adopt", Options{Opaque: opaque("Target.Impurity")}); e != nil {
		n := 0
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.calls("BestSplit") {
				if len(ev.Args) != 7 {
					continue
				}
				n++
				c.ob("FeatureMatrix.BestSplitter", "every feature is searched with the leaf size given")
				if ev.Args[4] != e.param(6) {
					c.bad("limits/BestSplitter", instrPos(ev.In), "BestSplitter searches a feature with another minimum leaf size than it was given")
				}
			}
		})
		if n == 0 {
			c.bad("limits/BestSplitter", f.Pos(), "undecided: BestSplitter searches no feature")
		}
	}

	// and the callers of the growers pass on what they were asked for
	if f := c.fn("", "GrowRandomForest"); f != nil {
		if e := c.run(f, "limits", Options{Opaque: opaque("Tree.Grow", "Tree.GrowJungle")}); e != nil {
			n := 0
			e.each(func(cu *Cut, p *Path) {
				for _, ev := range p.grows() {
					n++
					c.ob("GrowRandomForest", "the limits given are grown with")
					if ev.Args[7] != e.param(6) || ev.Args[8] != e.param(7) {
						c.bad("limits/GrowRandomForest", instrPos(ev.In), "GrowRandomForest grows with another leaf size or depth than it was given")
					}
				}
			})
			if n == 0 {
				c.bad("limits/GrowRandomForest", f.Pos(), "undecided: GrowRandomForest grows no tree")
			}
		}
	}
	c.commandLimits()
}

// commandLimits: growforest grows with -maxDepth and with -leafSize where it is given.
func (c *Check) commandLimits() {
	e := c.command("growforest")
	if e == nil {
		return
	}
	key := "limits/growforest"
	leaf, depth := e.flag("leafSize"), e.flag("maxDepth")
	if leaf == nil || depth == nil {
		c.bad(key, e.Root.Pos(), "undecided: growforest has no -leafSize or -maxDepth")
		return
	}
	asked := func(t *Term) bool {
		a := isCall(t, "ParseAsIntOrFractionOfTotal")
		return len(a) == 2 && isLoadOf(a[0], leaf)
	}
	// size follows a value back to -leafSize, or to one that is taken because -leafSize gives none
	var size func(t *Term, p *Path, seen map[*Term]bool) bool
	size = func(t *Term, p *Path, seen map[*Term]bool) bool {
		if asked(t) {
			return true
		}
		if seen[t] {
			return true
		}
		if t.Op == "sym" && e.phiCut(t) != nil {
			seen[t] = true
			hit, ok := false, true
			e.each(func(cu *Cut, q *Path) {
				if v, has := q.Phi[t]; has {
					hit = true
					ok = ok && size(v, q, seen)
				}
			})
			return hit && ok
		}
		if t.Op == "load" && t.Args[0].Op == "alloc" {
			seen[t] = true
			hit, ok := false, true
			e.each(func(cu *Cut, q *Path) {
				for _, ev := range q.Events {
					if ev.Kind == "store" && ev.Addr == t.Args[0] {
						hit = true
						ok = ok && size(ev.Val, q, seen)
					}
				}
			})
			return hit && ok
		}
		for _, g := range p.All() {
			none := false
			g.walk(func(x *Term) bool {
				none = none || asked(x) && p.holds(ge0(negT(x)))
				return !none
			})
			if none {
				return true
			}
		}
		return false
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && (ev.Addr == leaf || ev.Addr == depth) {
				c.bad(key, instrPos(ev.In), "growforest changes the -leafSize or -maxDepth it was given")
			}
		}
		for _, ev := range p.grows() {
			n++
			c.ob("growforest.main", "the limits given on the command line are grown with")
			if !size(ev.Args[7], p, map[*Term]bool{}) {
				c.bad(key+"/leaf", instrPos(ev.In), "growforest can grow with another leaf size than the -leafSize given")
			}
			if !isLoadOf(ev.Args[8], depth) {
				vs := e.values(ev.Args[8])
				if len(vs) != 1 || !isLoadOf(vs[0], depth) {
					c.bad(key+"/depth", instrPos(ev.In), "growforest grows with another depth than -maxDepth")
				}
			}
		}
	})
	if n == 0 {
		c.bad(key, e.Root.Pos(), "undecided: growforest grows no tree")
	}
}

// adopts decides that FeatureMatrix.BestSplitter replaces its best feature, split and score together, and
// exactly when the split just found is worth more.
func (c *Check) adopts() {
	f := c.method("FeatureMatrix", "BestSplitter")
	e := c.run(f, "adopt", Options{Opaque: opaque("Target.Impurity")})
	if e == nil {
		return
	}
	key := "adopt/BestSplitter"
	fm, target, cases, oob := e.param(0), e.param(1), e.param(2), e.param(5)
	vet, evaloob := e.param(8), e.param(9)
	contrast := func(t *Term) bool {
		t = unwrapped(t)
		return field(t, "BestSplitAllocs.ContrastTarget") == e.param(11)
	}
	// a search of a feature of the matrix
	searched := func(ev *Event) bool {
		if ev.Kind != "call" || !nameIs(ev.Name, "BestSplit") || len(ev.Args) != 7 {
			return false
		}
		arr, _ := elem(ev.Args[0])
		return arr != nil && dataOf(arr, fm)
	}
	// where a result is kept
	best := map[*Term]*Term{} // best score by best split
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || len(p.Ret) != 4 {
			return
		}
		c.ob("FeatureMatrix.BestSplitter", "the score returned belongs to the split returned")
		s, v := unwrapped(p.Ret[1]), p.Ret[2]
		if s.Op == "nil" || p.holds(isnil(p.Ret[1])) {
			return
		}
		if s.Op != "sym" || v.Op != "sym" || e.phiCut(s) == nil {
			c.bad(key, instrPos(p.RetIn), "undecided: what BestSplitter returns")
			return
		}
		best[e.plain(s)] = e.plain(v)
	})
	if len(best) == 0 {
		c.bad(key, f.Pos(), "undecided: BestSplitter returns no split")
	}
	for s, v := range best {
		k := e.phiCut(s)
		if k == nil || e.phiCut(v) != k {
			c.bad(key, f.Pos(), "undecided: BestSplitter does not keep its best split and its score together")
			continue
		}
		enter, _ := e.into(k)
		for _, p := range enter {
			c.ob("FeatureMatrix.BestSplitter", "the search starts with no split")
			if x := p.next(s); x.Op != "nil" {
				c.bad(key, k.B.Instrs[0].Pos(), "BestSplitter starts with a split before it has searched")
			}
			if x, ok := p.next(v).rat(); !ok || x.Sign() < 0 || !noSplit(p.next(v)) {
				c.bad(key, k.B.Instrs[0].Pos(), "BestSplitter starts with a best score that real splits may not reach, or that no split is worth")
			}
			if !p.holds(notT(vet)) {
				copied := false
				for _, ev := range p.Events {
					copied = copied || ev.Kind == "call" && nameIs(ev.Name, "CopyInTo") && len(ev.Args) == 2 && unwrapped(ev.Args[0]) == target && contrast(ev.Args[1])
				}
				c.ob("FeatureMatrix.BestSplitter", "vetting uses a copy of the target")
				if !copied {
					c.bad(key+"/vet", k.B.Instrs[0].Pos(), "BestSplitter can vet splits against something else than a copy of the target")
				}
			}
		}
		seen := 0
		for cu := range e.members(k) {
			for _, p := range cu.Paths {
				facts := ordered(p.All())
				if contradictory(facts) {
					continue
				}
				holds := func(g *Term) bool { return decide(facts, g) == 1 }
				var ev *Event
				for _, x := range p.Events {
					if searched(x) && x.Args[1] == target {
						if ev != nil {
							c.bad(key, instrPos(x.In), "BestSplitter searches two features before it compares their scores")
						}
						ev = x
					}
				}
				pos := k.B.Instrs[0].Pos()
				if ev == nil {
					if x, has := p.Phi[s]; has && x != s || p.To == k && p.next(v) != v {
						c.bad(key, pos, "BestSplitter changes its best split without having searched a feature")
					}
					continue
				}
				pos = instrPos(ev.In)
				seen++
				c.ob("FeatureMatrix.BestSplitter", "the best split is replaced exactly when the new one is worth more")
				if p.To != k {
					c.bad(key, pos, "undecided: BestSplitter compares a split's score in another turn than it searched it")
					continue
				}
				if ev.Args[2] != cases {
					c.bad(key, pos, "BestSplitter searches over other cases than it was given")
				}
				if a := isCall(ev.Args[3], "Impurity"); len(a) < 2 || a[0] != target || a[1] != cases {
					c.bad(key, pos, "BestSplitter searches with another impurity before the split than that of its cases")
				}
				split := mkExtract(ev.Res, "0")
				stages := []*Term{mkExtract(ev.Res, "1")}
				how := func(t *Term) (yes, no bool) { return holds(t), holds(notT(t)) }
				// what it is worth out of bag
				for _, x := range p.Events {
					if x.Kind != "call" || x.Idx < ev.Idx || !nameIs(x.Name, "SplitImpurity") || len(x.Args) != 5 || x.Args[0] != target {
						continue
					}
					ok := true
					for i := 0; i < 3; i++ {
						w := p.at(x.Args[1+i], x)
						part := w != nil && w.Op == "extract" && w.S == string(rune('0'+i))
						if part {
							a := isCall(w.Args[0], "Split")
							part = len(a) == 3 && a[0] == ev.Args[0] && a[1] == split && isLoadOf(a[2], oob)
						}
						if !part {
							ok = false
						}
					}
					if !ok {
						c.bad(key+"/oob", instrPos(x.In), "BestSplitter evaluates a split on something else than the out of bag cases divided by it")
						continue
					}
					for _, y := range p.Events {
						if y.Kind == "call" && nameIs(y.Name, "Impurity") && len(y.Args) >= 2 && y.Args[0] == target && y.Args[1] == oob {
							stages = append(stages, subT(y.Res, x.Res))
						}
					}
				}
				last := stages[len(stages)-1]
				out := len(stages) > 1
				vetted := false
				for _, x := range p.Events {
					if !searchedAgain(x) || x.Args[0] != ev.Args[0] || x.Idx < ev.Idx || !contrast(x.Args[1]) {
						continue
					}
					vetted = true
					want := cases
					if out {
						want = oob
					}
					mixed := false
					for _, y := range p.Events {
						mixed = mixed || y.Kind == "call" && nameIs(y.Name, "ShuffleCases") && y.Idx < x.Idx && y.Idx > ev.Idx && contrast(y.Args[0]) && y.Args[1] == want
					}
					if x.Args[2] != want || !mixed {
						c.bad(key+"/vet", instrPos(x.In), "BestSplitter vets a split on other cases than it evaluates, or without permuting the copy of the target over them")
					}
					last = subT(last, mkExtract(x.Res, "1"))
					stages = append(stages, last)
				}
				ns, nv := unwrapped(p.next(s)), p.next(v)
				switch {
				case ns == s && nv == v:
					less := false
					for _, x := range stages {
						less = less || holds(notT(ltT(v, x, x.T)))
					}
					if !less {
						c.bad(key+"/dropped", pos, "BestSplitter can drop a split that is worth more than the best one")
					}
				case ns == split && nv == last:
					if !holds(ltT(v, last, last.T)) {
						c.bad(key+"/worse", pos, "BestSplitter can replace the best split with one that is not worth more")
					}
					if yes, no := how(evaloob); yes && !out || no && out || !yes && !no {
						c.bad(key+"/oob", pos, "BestSplitter evaluates splits out of bag when it was not asked to, or does not when it was")
					}
					if yes, no := how(vet); yes && !vetted || no && vetted || !yes && !no {
						c.bad(key+"/vet", pos, "BestSplitter vets splits when it was not asked to, or does not when it was")
					}
				default:
					c.bad(key+"/mixed", pos, "BestSplitter can keep a split with a score that is not its own")
				}
			}
		}
		if seen == 0 {
			c.bad(key, f.Pos(), "undecided: BestSplitter searches no feature in its loop")
		}
	}
}

func searchedAgain(ev *Event) bool {
	return ev.Kind == "call" && nameIs(ev.Name, "BestSplit") && len(ev.Args) == 7
}
