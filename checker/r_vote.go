package main

import "golang.org/x/tools/go/ssa"

// phiCut finds the loop whose variable t is.
func (e *Exec) phiCut(t *Term) *Cut {
	if e.phiOf == nil {
		e.phiOf = map[*Term]*Cut{}
		for _, d := range e.Cuts {
			for _, p := range d.Paths {
				for s := range p.Phi {
					if k := e.phiOf[s]; p.To != nil && (k == nil || p.To.ID < k.ID) {
						e.phiOf[s] = p.To
					}
				}
			}
		}
	}
	return e.phiOf[t]
}

// lengths collects the lengths a loop is bounded by.
func (e *Exec) lengths(k *Cut, is func(*Term) bool) (out []*Term) {
	seen := map[*Term]bool{}
	m := e.members(k)
	for d := range m {
		for _, p := range d.Paths {
			for _, g := range p.Guards {
				g.walk(func(x *Term) bool {
					if !seen[x] && is(x) {
						seen[x] = true
						out = append(out, x)
					}
					return true
				})
			}
		}
	}
	return
}

// iota decides that t holds 0..n-1, each exactly once, for an n accepted by is.
func (e *Exec) iota(t *Term, is func(*Term) bool) string {
	if t == nil {
		return "no list"
	}
	if t.Op == "sym" {
		k := e.phiCut(t)
		if k == nil {
			return "the list of cases is " + t.String()
		}
		enter, back := e.into(k)
		var idx *Term
		for _, p := range back {
			n := p.next(t)
			if n.Op != "append" || len(n.Args) != 2 || n.Args[0] != t {
				return "an iteration does not append exactly one case"
			}
			if idx != nil && idx != n.Args[1] {
				return "different cases are appended on different paths"
			}
			idx = n.Args[1]
		}
		for _, p := range enter {
			if !isZero(lenOf(p.next(t))) {
				return "the list of cases does not start empty"
			}
		}
		return e.countsAny(k, idx, is)
	}
	// a list of full length whose elements are assigned
	if t.Op != "makeslice" {
		return "the list of cases is " + t.String()
	}
	for _, k := range e.loopCuts() {
		_, back := e.into(k)
		var idx *Term
		ok := len(back) > 0
		for _, p := range back {
			n := 0
			for _, ev := range p.Events {
				if ev.Kind == "store" {
					if a, i := addrElem(ev.Addr); a == t {
						n++
						if ev.Val != i {
							ok = false
						}
						idx = i
					}
				}
			}
			if n != 1 {
				ok = false
			}
		}
		if ok && is(lenOf(t)) {
			return e.counts(k, idx, lenOf(t))
		}
	}
	return "the list of cases is not filled"
}

func lenOf(t *Term) *Term { return lenT(t) }

func (e *Exec) countsAny(k *Cut, idx *Term, is func(*Term) bool) string {
	if idx == nil {
		return "no loop"
	}
	msg := "the loop is not bounded by the number of cases"
	ns := e.lengths(k, is)
	if len(ns) == 0 && k != nil {
		enter, _ := e.into(k)
		for _, q := range enter {
			q.next(idx).walk(func(x *Term) bool {
				if is(x) {
					ns = append(ns, x)
				}
				return true
			})
		}
	}
	for _, n := range ns {
		if msg = e.counts(k, idx, n); msg == "" {
			return ""
		}
	}
	return msg
}

// caseCount recognises the number of cases of a matrix.
func caseCount(fm *Term) func(*Term) bool {
	return func(t *Term) bool {
		if a := isCall(t, "Length"); a != nil {
			if o, _ := elemField(a[0], "FeatureMatrix.Data"); o == fm {
				return true
			}
		}
		return t.Op == "len" && field(t.Args[0], "FeatureMatrix.CaseLabels") == fm
	}
}

// walkFrom decides that a routine starts a walk of the whole tree and returns its visitor.
func (c *Check) walkFrom(name string, e *Exec, cases func(*Term) string) (out []walkSite) {
	key := "vote/" + name
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.calls("Recurse") {
			if field(ev.Args[0], "Tree.Root") != e.param(0) || ev.Args[2] != e.param(1) {
				c.bad(key, instrPos(ev.In), "%s must walk its own tree over the feature matrix given", name)
			}
			if msg := cases(ev.Args[3]); msg != "" {
				c.bad(key, instrPos(ev.In), "%s must present every case once: %s", name, msg)
			}
			c.ob(name, "the walk starts at the root with every case once")
			f, opt := c.closureAt(p, ev, ev.Args[1])
			if f == nil {
				c.bad(key, instrPos(ev.In), "undecided: the visitor of %s is not a function literal", name)
				continue
			}
			out = append(out, walkSite{p, ev, f, opt})
		}
		if p.End == "return" && cu == e.Entry && len(p.calls("Recurse")) == 0 {
			c.bad(key, instrPos(p.RetIn), "%s returns without walking the tree", name)
		}
	})
	if len(out) == 0 {
		c.bad(key, e.Root.Pos(), "%s does not walk the tree", name)
	}
	return
}

type walkSite struct {
	p   *Path
	ev  *Event
	f   *ssa.Function
	opt Options
}

func terminal(p *Path, ng []*Term, n *Term) (is, not bool) {
	l, r := 0, 0
	for _, g := range ng {
		gg, v := g, 1
		if g.Op == "not" {
			gg, v = g.Args[0], -1
		}
		if gg.Op == "isnil" {
			if field(gg.Args[0], "Node.Left") == n {
				l = v
			}
			if field(gg.Args[0], "Node.Right") == n {
				r = v
			}
		}
	}
	return l == 1 && r == 1, l == -1 || r == -1
}

// voteCases: VoteCases casts the votes of exactly the cases it is given.
func (c *Check) voteCases() {
	f := c.method("Tree", "VoteCases")
	e := c.run(f, "vote", Options{Opaque: treeOpaque})
	if e != nil {
		cs := e.param(3)
		for _, w := range c.walkFrom("Tree.VoteCases", e, func(t *Term) string {
			if t == cs {
				return ""
			}
			return "it walks " + t.String()
		}) {
			c.voteVisitor("Tree.VoteCases", e, w)
		}
	}
}

func (c *Check) votes() {
	c.voteCases()
	f := c.method("Tree", "Vote")
	e := c.run(f, "vote", Options{Opaque: treeOpaque})
	if e != nil {
		for _, w := range c.walkFrom("Tree.Vote", e, func(t *Term) string { return e.iota(t, caseCount(e.param(1))) }) {
			c.voteVisitor("Tree.Vote", e, w)
		}
	}
	c.leafLists()
}

func (c *Check) voteVisitor(name string, e *Exec, w walkSite) {
	key := "vote/" + name
	t := e.param(0)
	tw := mk("load", "", fieldAddrN(t, "Tree.Weight", nil, nil))
	var weight *Term // what every case votes with
	neg := 0
	for _, g := range w.p.All() {
		ge, below := mk("le", "", intT(0), tw), mk("lt", "", tw, intT(0))
		if g == ge || g == notT(below) {
			neg = -1
		}
		if g == notT(ge) || g == below {
			neg = 1
		}
	}
	ve := c.run(w.f, "!", w.opt)
	if ve == nil {
		return
	}
	n, cases := ve.param(0), ve.param(1)
	votes := 0
	ve.each(func(cu *Cut, p *Path) {
		var vs []*Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "Vote") {
				vs = append(vs, ev)
			}
		}
		if len(vs) == 0 {
			if cu == ve.Entry && p.End == "return" {
				_, not := terminal(p, p.All(), n)
				if !not && !p.holds(eq0(lenT(cases))) {
					c.bad(key, instrPos(p.RetIn), "%s: a case at a terminal node casts no vote", name)
				}
				c.ob(name, "only inner nodes cast no vote")
			}
			return
		}
		for _, ev := range vs {
			if is, _ := terminal(p, p.before(ev), n); !is {
				c.bad(key, instrPos(ev.In), "%s: a vote is cast at a node that is not terminal", name)
			}
			if weight != nil && weight != ev.Args[3] {
				c.bad(key, instrPos(ev.In), "%s: votes with different weights", name)
			}
			weight = ev.Args[3]
			a, idx := elem(ev.Args[1])
			if a != cases {
				c.bad(key, instrPos(ev.In), "%s: the vote is for %v, which is not a case of the node", name, ev.Args[1])
				continue
			}
			if ev.Args[0] != e.param(2) || field(ev.Args[2], "Node.Pred") != n {
				c.bad(key, instrPos(ev.In), "%s: the vote must be the node's prediction, cast in the ballot box given", name)
			}
			if !cu.Loop {
				c.bad(key, instrPos(ev.In), "%s: a vote is cast outside the loop over the node's cases", name)
				continue
			}
			if msg := ve.counts(cu, idx, lenT(cases)); msg != "" {
				c.bad(key, instrPos(ev.In), "%s: not every case of the node votes: %s", name, msg)
			}
			if len(vs) != 1 {
				c.bad(key, instrPos(ev.In), "%s: a case votes more than once", name)
			}
			c.ob(name, "every case of a terminal node votes once with the node's prediction")
			votes++
		}
	})
	ve.each(func(cu *Cut, p *Path) {
		// every iteration of a voting loop votes
		if cu.Loop && p.To == cu && len(p.calls("Vote")) == 0 {
			c.bad(key, blockPos(cu.B), "%s: a case of a terminal node may cast no vote", name)
		}
	})
	if votes == 0 {
		c.bad(key, w.f.Pos(), "%s casts no votes", name)
		return
	}
	ok := false
	switch neg {
	case 1:
		ok = weight == konst1()
	case -1:
		ok = weight == tw
	}
	if !ok {
		c.bad(key, w.f.Pos(), "%s: votes must carry the tree's weight, or one when it has none (negative); here %v", name, weight)
	}
	c.ob(name, "votes carry the tree's weight")
}

func konst1() *Term { return intT(1) }

// leafLists decides that GetLeaves and Partition list each terminal node once with its cases.
func (c *Check) leafLists() {
	for _, name := range []string{"GetLeaves", "Partition"} {
		f := c.method("Tree", name)
		e := c.run(f, "vote", Options{Opaque: treeOpaque})
		if e == nil {
			continue
		}
		key := "vote/Tree." + name
		for _, w := range c.walkFrom("Tree."+name, e, func(t *Term) string { return e.iota(t, caseCount(e.param(1))) }) {
			opt := w.opt
			opt.Opaque = treeOpaque
			ve := c.run(w.f, "!", opt)
			if ve == nil {
				continue
			}
			n, cases := ve.param(0), ve.param(1)
			want := 1
			if name == "Partition" {
				want = 2
			}
			cells := map[*Term]bool{}
			ve.each(func(cu *Cut, p *Path) {
				got := 0
				for _, ev := range p.Events {
					if ev.Kind != "store" || ev.Val.Op != "append" {
						continue
					}
					if is, _ := terminal(p, p.before(ev), n); !is {
						c.bad(key, instrPos(ev.In), "Tree.%s lists a node that is not terminal", name)
					}
					v := ev.Val
					o := v.Args[0]
					ok := len(v.Args) == 2 && o.Op == "load" && o.Args[0] == ev.Addr
					if ok {
						x := v.Args[1]
						switch name {
						case "GetLeaves":
							ok = x.Op == "struct" && len(x.Args) == 2 && x.Args[0] == cases && field(x.Args[1], "Node.Pred") == n
						default:
							ok = x == cases || field(x, "Node.Pred") == n
						}
					}
					if !ok || cu != ve.Entry {
						c.bad(key, instrPos(ev.In), "Tree.%s must list a terminal node's own cases and prediction", name)
					}
					cells[ev.Addr] = true
					got++
				}
				if cu != ve.Entry {
					return
				}
				_, not := terminal(p, p.All(), n)
				if !not && got != want || not && got != 0 {
					c.bad(key, w.f.Pos(), "Tree.%s lists a terminal node %d times", name, got)
				}
				c.ob("Tree."+name, "each terminal node listed once with its cases and prediction")
			})
			// what is returned
			r := w.p.Ret
			if w.p.End == "return" {
				for _, x := range r {
					ok := x.Op == "load" && cells[x.Args[0]] || cells[x]
					if !ok {
						c.bad(key, instrPos(w.p.RetIn), "Tree.%s returns something else than the list it made", name)
					}
				}
			}
		}
	}
}

func init() {
	register(&Rule{ID: "C15", Min: 20,
		What: "every walk that applies a tree starts at its root with every case once; at a node without children a loop over exactly the node's cases casts one vote each with the node's prediction and the tree's weight (1 when negative), elsewhere none",
		Run: func(c *Check) {
			c.votes()
			c.recurse()
		}})
}
