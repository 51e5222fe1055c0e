package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- sums and maxima made by a loop -------------------------------------------------------------

// summed is a variable that a loop adds to once per turn.
type summed struct {
	s     *Term
	k     *Cut
	init  []*Term
	turns []addTurn
}

type addTurn struct {
	p *Path // the path back to the head of the loop
	v *Term // what the turn adds
}

// sum recognises a loop variable whose every turn adds something that does not depend on what it was.
func (e *Exec) sum(s *Term) *summed {
	k := e.phiCut(s)
	if k == nil || !k.Loop {
		return nil
	}
	enter, back := e.into(k)
	out := &summed{s: s, k: k}
	for _, p := range enter {
		out.init = append(out.init, p.next(s))
	}
	for _, p := range back {
		v := subT(e.plain(p.next(s)), s)
		if v.has(s) {
			return nil
		}
		out.turns = append(out.turns, addTurn{p, v})
	}
	if len(out.init) == 0 || len(out.turns) == 0 {
		return nil
	}
	return out
}

// startsAtZero: the variable is zero when the loop is entered.
func (s *summed) startsAtZero() bool {
	for _, v := range s.init {
		if !isZero(v) {
			return false
		}
	}
	return true
}

// overList: the turns of the loop at k go through all of a list, each element once, and x is the element
// of the turn. The list is given by the arrays that stand for it.
func (e *Exec) overList(k *Cut, x *Term, list func(arr *Term) bool) string {
	arr, idx := elem(x)
	if arr == nil {
		return x.String() + " is no element of a list"
	}
	if !list(arr) {
		return x.String() + " is an element of another list"
	}
	return e.countsAny(k, idx, func(n *Term) bool {
		if n.Op == "len" && list(n.Args[0]) {
			return true
		}
		return n == lenT(arr)
	})
}

// loopOfIndex is the loop that gives an index its value.
func (e *Exec) loopOfIndex(idx *Term) (k *Cut) {
	idx.walk(func(t *Term) bool {
		if t.Op == "sym" && k == nil {
			if d := e.phiCut(t); d != nil && d.Loop {
				k = d
			}
		}
		return k == nil
	})
	return
}

// settleCells replaces what is read from a variable that is only ever given one value by that value.
func (e *Exec) settleCells(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.Op == "load" && x.Args[0].Op == "alloc" {
			if vs := e.puts(x.Args[0]); len(vs) > 0 {
				for _, v := range vs[1:] {
					if strip(v) != strip(vs[0]) {
						return nil
					}
				}
				return e.settleCells(vs[0])
			}
		}
		return nil
	})
}

// argmax decides that s is the first place of the greatest element of a list, or the zero place when no
// element is positive.
func (e *Exec) argmax(s *Term, list func(arr *Term) bool, length func(*Term) bool) string {
	k := e.phiCut(s)
	if k == nil || !k.Loop {
		return "it is not found by a loop"
	}
	enter, back := e.into(k)
	for m := range k.symbols(e) {
		if m == s {
			continue
		}
		ok := len(back) > 0 && len(enter) > 0
		for _, p := range enter {
			ok = ok && isZero(p.next(s)) && isZero(p.next(m))
		}
		var idx *Term
		for _, p := range back {
			ns, nm := e.plain(p.next(s)), e.plain(p.next(m))
			if ns == s && nm == m {
				continue
			}
			arr, i := elem(nm)
			if arr == nil || !list(arr) || !decideEq(i, ns) {
				ok = false
				continue
			}
			idx = i
			ok = ok && p.holds(ge0(addI(subT(nm, m), -1)))
		}
		if !ok || idx == nil {
			continue
		}
		for _, p := range back {
			if e.plain(p.next(s)) != s {
				continue
			}
			kept := false
			for _, g := range p.All() {
				g.walk(func(x *Term) bool {
					if arr, i := elem(x); arr != nil && list(arr) && decideEq(i, idx) {
						kept = kept || p.holds(ge0(subT(m, x)))
					}
					return true
				})
			}
			ok = ok && kept
		}
		if !ok {
			continue
		}
		return e.countsAny(k, idx, func(n *Term) bool { return length(n) || n.Op == "len" && list(n.Args[0]) })
	}
	if idx := e.argmaxByPlace(s, enter, back, list); idx != nil {
		return e.countsAny(k, idx, func(n *Term) bool { return length(n) || n.Op == "len" && list(n.Args[0]) })
	}
	return "it is not the first greatest of the counts"
}

// argmaxByPlace is the same when only the place of the greatest is kept and its element looked up; with no
// positive element, the elements being counts, they are all equal and the first is kept.
func (e *Exec) argmaxByPlace(s *Term, enter, back []*Path, list func(arr *Term) bool) (idx *Term) {
	for _, p := range enter {
		if !isZero(p.next(s)) {
			return nil
		}
	}
	for _, p := range back {
		if ns := e.plain(p.next(s)); ns != s {
			if idx != nil && !decideEq(ns, idx) {
				return nil
			}
			idx = ns
		}
	}
	if idx == nil || len(enter) == 0 {
		return nil
	}
	for _, p := range back {
		ok, moved := false, e.plain(p.next(s)) != s
		elems(p, idx, list, func(x, i *Term) {
			if h := atPlace(x, i, s); moved {
				ok = ok || p.holds(ge0(addI(subT(x, h), -1)))
			} else {
				ok = ok || p.holds(ge0(subT(h, x)))
			}
		})
		if !ok {
			return nil
		}
	}
	return idx
}

// elems calls f with every element of the list at the place idx that the path decides something about.
func elems(p *Path, idx *Term, list func(arr *Term) bool, f func(x, i *Term)) {
	for _, g := range p.All() {
		g.walk(func(x *Term) bool {
			if arr, i := elem(x); arr != nil && list(arr) && decideEq(i, idx) {
				f(x, i)
			}
			return true
		})
	}
}

// atPlace is the element of the same list at the place s.
func atPlace(x, i, s *Term) *Term {
	return rewrite(x, func(t *Term) *Term {
		if t == i {
			return s
		}
		return nil
	})
}

// ---- C26: boosting --------------------------------------------------------------------------------

// boosts are the targets that can be boosted, with the functions that make them.
var boosts = []struct{ typ, maker string }{
	{"AdaBoostTarget", "NewAdaBoostTarget"},
	{"AdaCostTarget", "NewAdaCostTarget"},
	{"NumAdaBoostTarget", "NewNumAdaBoostTarget"},
	{"GradBoostTarget", "NewGradBoostTarget"},
	{"GradBoostClassTarget", "NewGradBoostClassTarget"},
}

// boostTypes: what can be boosted is recognised as such.
func (c *Check) boostTypes() {
	pkg := c.P.Pkgs[RepoPath]
	iface := func(name string) *types.Interface {
		if o := pkg.Scope().Lookup(name); o != nil {
			if i, ok := o.Type().Underlying().(*types.Interface); ok {
				return i
			}
		}
		c.bad("boost/"+name, 0, "undecided: the interface %s is gone", name)
		return nil
	}
	bt, it := iface("BoostingTarget"), iface("TargetWithIntercept")
	if bt == nil || it == nil {
		return
	}
	implements := func(name string, t types.Type, i *types.Interface, in string) {
		o := pkg.Scope().Lookup(name)
		c.ob(name, "is a "+in)
		if !types.Implements(t, i) {
			c.bad("boost/"+name, o.Pos(), "%v is not a %s, so that it is never boosted", t, in)
		}
	}
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		pt := types.NewPointer(tn.Type())
		ms := types.NewMethodSet(pt)
		if ms.Lookup(pkg, "Boost") != nil {
			implements(n, pt, bt, "BoostingTarget")
		}
		if ms.Lookup(pkg, "Intercept") != nil {
			implements(n, pt, it, "TargetWithIntercept")
		}
	}
	for _, b := range boosts {
		f := c.fn("", b.maker)
		if f == nil {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 1 {
			c.bad("boost/"+b.maker, f.Pos(), "undecided: %s does not return one target", b.maker)
			continue
		}
		implements(b.typ, rs.At(0).Type(), bt, "BoostingTarget")
		if strings.HasPrefix(b.typ, "Grad") {
			implements(b.typ, rs.At(0).Type(), it, "TargetWithIntercept")
		}
	}
}

const (
	bGrown = 1 << iota
	bBoosted
	bWeighted
	bOff
	bOn
	bInf
)

// boostTurns: after every tree grown the target is boosted once with that tree's partition, and the tree
// gets the weight that comes back before it is used.
func (c *Check) boostTurns(name string, e *Exec, off func(gs []*Term, target *Term, in map[*Cut]bool) (off, on bool), same func(boosted, grown *Term, ev *Event) string) {
	key := "boost/" + name
	loops := map[*Cut]*Event{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			k := e.loopOf(ev)
			if k == nil {
				c.bad(key, instrPos(ev.In), "undecided: a tree is grown outside of any loop")
				return
			}
			if o := loops[k]; o != nil && o.Args[2] != ev.Args[2] {
				c.bad(key, instrPos(ev.In), "undecided: trees are grown for different targets in one loop")
			}
			loops[k] = ev
		}
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "Boost") && e.loopOf(ev) == nil {
				c.bad(key, instrPos(ev.In), "the target is boosted without a tree being grown")
			}
		}
	})
	if len(loops) == 0 {
		c.bad(key, e.Root.Pos(), "undecided: %s grows no tree", name)
	}
	for k, grow := range loops {
		m := e.members(k)
		vars := map[*Term]bool{}
		e.each(func(cu *Cut, p *Path) {
			if m[cu] {
				for _, ev := range p.grows() {
					vars[ev.Args[0]] = true
				}
			}
		})
		tree := func(t *Term) bool {
			for v := range vars {
				if sameLoc(t, v) || sameLoc(e.settled(t), v) || sameLoc(e.plain(t), v) {
					return true
				}
			}
			return false
		}
		said := map[string]bool{}
		say := func(ev *Event, format string, a ...interface{}) {
			if !said[format] {
				said[format] = true
				pos := k.B.Instrs[0].Pos()
				if ev != nil {
					pos = instrPos(ev.In)
				}
				c.bad(key, pos, format, a...)
			}
		}
		// boosted outside of the turns of this loop
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				if ev.Kind == "call" && nameIs(ev.Name, "Boost") {
					in := false
					for d := range loops {
						in = in || e.members(d)[cu]
					}
					if !in {
						say(ev, "the target is boosted outside of the loop that grows trees")
					}
				}
			}
		})
		n := 0
		t := &turns{e: e, k: k}
		t.step = func(p *Path, gs []*Term, ph int, env map[*Term]*Term) (int, bool) {
			dead := false
			know := func(gs []*Term) {
				no, yes := off(gs, grow.Args[2], m)
				if no && ph&bOn != 0 || yes && ph&bOff != 0 {
					dead = true // cannot be
				}
				if no {
					ph |= bOff
				}
				if yes {
					ph |= bOn
				}
				for _, g := range gs {
					if g.Op != "not" && g.contains(func(t *Term) bool {
						return t.Op == "inf" || t.Op == "call" && strings.HasSuffix(t.S, ".IsInf")
					}) && g.contains(func(t *Term) bool { return isCall(t, "Boost") != nil }) {
						ph |= bInf
					}
				}
			}
			know(p.From.In.facts)
			know(gs)
			if dead {
				return ph, true
			}
			for _, ev := range p.Events {
				for _, g := range p.grows() {
					if g == ev {
						ph |= bGrown
						ph &^= bBoosted | bWeighted
					}
				}
				switch {
				case ev.Kind == "call" && nameIs(ev.Name, "Boost"):
					c.ob(name, "a boost")
					n++
					if ph&bBoosted != 0 {
						say(ev, "the target can be boosted twice for one tree")
					}
					if ph&bGrown == 0 {
						say(ev, "the target can be boosted before the tree is grown")
					}
					ph |= bBoosted
					if msg := same(ev.Args[0], grow.Args[2], ev); msg != "" {
						say(ev, "%s", msg)
					}
					ls, ps := e.settled(ev.Args[1]), e.settled(ev.Args[2])
					var a []*Term
					if ls.Op == "extract" && ps.Op == "extract" && ls.Args[0] == ps.Args[0] && ls.S == "0" && ps.S == "1" {
						a = isCall(ls.Args[0], "Partition")
					}
					switch {
					case len(a) != 2:
						say(ev, "undecided: the target is boosted with %v and %v, which is not a partition", ls, ps)
					case !tree(a[0]):
						say(ev, "the target is boosted with the partition of another tree, %v", a[0])
					case !sameLoc(a[1], grow.Args[1]):
						say(ev, "the target is boosted with a partition of other data than the tree was grown on")
					}
				case ev.Kind == "call" && nameIs(ev.Name, "Partition") && len(ev.Args) == 2 && tree(ev.Args[0]) && ph&bGrown == 0:
					say(ev, "the tree is partitioned before it is grown")
				case ev.Kind == "store" && addrField(ev.Addr, "Tree.Weight") != nil:
					c.ob(name, "a weight")
					if !tree(addrField(ev.Addr, "Tree.Weight")) {
						say(ev, "the weight is given to another tree")
					}
					v := ev.Val
					for i := 0; i < 4 && v.Op == "sym"; i++ {
						if w := e.plain(v); w != v {
							v = w
						} else if w := e.boostResult(v); w != nil {
							v = w
						}
					}
					if v.Op == "load" && v.Args[0].Op == "alloc" {
						if vs := e.puts(v.Args[0]); len(vs) == 1 {
							v = vs[0]
						} else if h := p.holding(v.Args[0]); h != nil {
							v = h
						}
					}
					if isCall(v, "Boost") == nil || ph&bBoosted == 0 {
						say(ev, "a tree's weight is %v and not what boosting with it returned", v)
					}
					ph |= bWeighted
				case ev.Kind == "call" && (nameIs(ev.Name, "VoteCases") || nameIs(ev.Name, "Vote") || nameIs(ev.Name, "WriteTree")):
					used := false
					for _, x := range ev.Args {
						used = used || tree(x)
					}
					if used && ph&bGrown != 0 && ph&(bWeighted|bOff|bInf) == 0 {
						say(ev, "the tree is used before boosting gave it its weight")
					}
				}
			}
			if p.End == "panic" || p.End == "exit" {
				return ph, true
			}
			if (p.To == nil || p.To == k || !m[p.To]) && ph&bGrown != 0 && ph&bOff == 0 {
				switch {
				case ph&bBoosted == 0:
					say(nil, "a turn can pass without the target being boosted")
				case ph&(bWeighted|bInf) == 0:
					say(nil, "a tree can be left without the weight boosting gave it")
				}
			}
			return ph, false
		}
		t.from(0)
		if n == 0 {
			c.bad(key, k.B.Instrs[0].Pos(), "the target is never boosted")
		}
	}
	// a tree's weight is set nowhere else
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && addrField(ev.Addr, "Tree.Weight") != nil {
				in := false
				for k := range loops {
					in = in || e.members(k)[cu]
				}
				if !in {
					c.bad(key, instrPos(ev.In), "a tree's weight is set outside of the loop that grows trees")
				}
			}
		}
	})
}

// boostResult is the result of the one call of Boost a variable can hold.
func (e *Exec) boostResult(s *Term) *Term {
	var one *Term
	for _, v := range e.values(s) {
		if isCall(v, "Boost") != nil {
			if one != nil && one != v {
				return nil
			}
			one = v
		}
	}
	return one
}

// boosting: growforest's loop.
func (c *Check) boosting() {
	e := c.command("growforest")
	if e == nil {
		return
	}
	ada, grad := e.flag("adaboost"), e.flag("gbt")
	if ada == nil || grad == nil {
		c.bad("boost/growforest", e.Root.Pos(), "undecided: no -adaboost or -gbt")
		return
	}
	// the conditions exclude both kinds of boosting
	neither := func(gs []*Term) bool {
		a, g := false, false
		for _, x := range gs {
			if x.Op == "not" && isLoadOf(x.Args[0], ada) {
				a = true
			}
			for _, l := range loadsOf([]*Term{x}, grad) {
				if decide([]*Term{x}, eqT(l, intT(0), l.T)) == 1 {
					g = true
				}
			}
		}
		return a && g
	}
	memo := map[*Term]bool{}
	var excludes func(x *Term) bool // x is false only when neither is asked for
	excludes = func(x *Term) bool {
		if v, ok := memo[x]; ok {
			return v
		}
		memo[x] = true
		ok := false
		switch {
		case x.Op == "load" && x.Args[0].Op == "alloc":
			ok = len(e.puts(x.Args[0])) > 0
			for _, v := range e.puts(x.Args[0]) {
				ok = ok && excludes(v)
			}
		case x.Op == "sym":
			e.each(func(cu *Cut, p *Path) {
				v, is := p.Phi[x]
				if !is || v == x {
					return
				}
				ok = true
				if v.isTrue() {
					return
				}
				gs := append(p.All(), notT(v))
				if !neither(gs) && !(v.Op != "load" && v.Op != "sym") && !excludes(v) || (v.Op != "load" && v.Op != "sym") && !neither(gs) {
					ok = false
					memo[x] = false
				}
			})
			if !memo[x] {
				ok = false
			}
		}
		memo[x] = ok
		return ok
	}
	flags := map[*Term]bool{}
	off := func(gs []*Term, target *Term, in map[*Cut]bool) (off, on bool) {
		off = neither(gs)
		for _, g := range gs {
			x := g
			if g.Op == "not" {
				x = g.Args[0]
			}
			if x.Op != "sym" && x.Op != "load" || !excludes(x) {
				continue
			}
			if x.Op == "load" {
				if x = x.Args[0]; e.writtenIn(in, x) {
					off = off || g.Op == "not"
					continue
				}
			}
			if g.Op == "not" {
				off = true
			} else if flags[x] = true; len(flags) == 1 {
				on = true
			}
		}
		return
	}
	done := map[[2]*Term]string{}
	same := func(b, g *Term, ev *Event) string {
		k := [2]*Term{b, g}
		if m, ok := done[k]; ok {
			return m
		}
		done[k] = e.sameTarget(b, g)
		return done[k]
	}
	c.boostTurns("growforest.main", e, off, same)
	// the intercept
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !nameIs(ev.Name, "WriteForestHeader") {
				continue
			}
			c.ob("growforest.main", "the intercept written")
			v := ev.Args[3]
			a := isCall(v, "Intercept")
			switch {
			case a != nil:
				n++
				var grown *Term
				e.each(func(cu *Cut, q *Path) {
					for _, g := range q.grows() {
						grown = g.Args[2]
					}
				})
				if grown == nil || !sameLoc(a[0], grown) && e.sameTarget(a[0], grown) != "" {
					c.bad("boost/growforest.main", instrPos(ev.In), "the intercept written is that of another target")
				}
			case !isZero(v):
				c.bad("boost/growforest.main", instrPos(ev.In), "the intercept written is %v", v)
			default:
				no := false
				for _, g := range p.before(ev) {
					no = no || g.Op == "not" && g.Args[0].Op == "istype" && strings.HasSuffix(g.Args[0].S, "TargetWithIntercept")
				}
				if !no {
					c.bad("boost/growforest.main", instrPos(ev.In), "the intercept can be left out")
				}
			}
		}
	})
	if n == 0 {
		c.bad("boost/growforest.main", e.Root.Pos(), "growforest never writes an intercept")
	}
}

// sameTarget: the target boosted is the one trees are grown for.
func (e *Exec) sameTarget(b, g *Term) string {
	if sameLoc(b, g) {
		return ""
	}
	if b.Op != "load" || b.Args[0].Op != "alloc" || g.Op != "load" || g.Args[0].Op != "alloc" {
		return "the target boosted is " + b.String() + " and not the one the tree is grown for"
	}
	x, y := b.Args[0], g.Args[0]
	msg, n := "", 0
	stores := func(p *Path, from int) bool {
		for _, ev := range p.Events[from:] {
			if ev.Kind == "store" && ev.Addr == x {
				return true
			}
		}
		return false
	}
	e.each(func(cu *Cut, p *Path) {
		for i, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr != y {
				continue
			}
			v := unwrapped(ev.Val)
			if v.Op == "alloc" && v.T != nil && types.NewMethodSet(v.T).Lookup(nil, "Boost") == nil && !isLoadOf(v, x) {
				continue // not something that is boosted
			}
			n++
			now := isLoadOf(v, x)
			if !now {
				for j := i - 1; j >= 0 && !now; j-- {
					if o := p.Events[j]; o.Kind == "store" && o.Addr == x {
						now = unwrapped(o.Val) == v
						break
					}
				}
			}
			if !now {
				msg = "the target boosted is not the one trees are grown for, which can be " + v.String()
			}
			if stores(p, i+1) || p.To != nil && e.reachesFrom(p.To, nil, func(q *Path) bool { return stores(q, 0) }) != nil {
				msg = "the target boosted can be changed after the one trees are grown for is set"
			}
		}
	})
	if n == 0 {
		msg = "the target boosted is not the one trees are grown for"
	}
	return msg
}

// forestBoost: GrowRandomForest's loop.
func (c *Check) forestBoost() {
	f := c.fn("", "GrowRandomForest")
	if f == nil {
		return
	}
	e := c.run(f, "boost", Options{Opaque: func(g *ssa.Function) bool {
		return g.Pkg != nil && g.Pkg.Pkg.Path() == RepoPath && (g.Object() == nil || g.Object().Exported())
	}})
	if e == nil {
		return
	}
	off := func(gs []*Term, target *Term, in map[*Cut]bool) (off, on bool) {
		for _, g := range gs {
			x := g
			if g.Op == "not" {
				x = g.Args[0]
			}
			if x.Op == "istype" && strings.HasSuffix(x.S, "BoostingTarget") && sameLoc(x.Args[0], target) {
				off = off || g.Op == "not"
				on = on || g.Op != "not"
			}
		}
		return
	}
	c.boostTurns("GrowRandomForest", e, off, func(b, g *Term, ev *Event) string {
		if !sameLoc(b, g) {
			return "the target boosted is not the one trees are grown for"
		}
		return ""
	})
	target := e.param(1)
	// the intercept
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" {
			return
		}
		c.ob("GrowRandomForest", "the intercept kept")
		set := func(q *Path) bool {
			for _, ev := range q.Events {
				if ev.Kind == "store" && addrField(ev.Addr, "Forest.Intercept") != nil && isCall(ev.Val, "Intercept") != nil && isCall(ev.Val, "Intercept")[0] == target {
					return true
				}
			}
			for _, g := range q.All() {
				if g.Op == "not" && g.Args[0].Op == "istype" && strings.HasSuffix(g.Args[0].S, "TargetWithIntercept") && g.Args[0].Args[0] == target {
					return true
				}
			}
			return false
		}
		if e.reaches(set, func(q *Path) bool { return q == p }) != nil {
			c.bad("boost/GrowRandomForest", instrPos(p.RetIn), "a forest can be returned without its target's intercept")
		}
	})
}

// leaf recognises a leaf's cases, given by address or by value, and the place of the leaf in the list.
func (e *Exec) leaf(t, leaves *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "alloc" {
		vs := e.puts(t)
		if len(vs) != 1 {
			return nil
		}
		t = vs[0]
	} else if t.Op == "indexaddr" {
		if isLoadOf(t.Args[0], leaves) {
			return t.Args[1]
		}
		return nil
	}
	t = strip(e.settleCells(t))
	if arr, i := elem(t); arr != nil && isLoadOf(arr, leaves) {
		return i
	}
	return nil
}

// leafCase recognises a case of a leaf and gives the places of the leaf and of the case in it.
func (e *Exec) leafCase(t, leaves *Term) (i, j *Term) {
	t = strip(e.settleCells(t))
	arr, j := elem(t)
	if arr == nil {
		return nil, nil
	}
	a, i := elem(arr)
	if a == nil || !isLoadOf(a, leaves) {
		return nil, nil
	}
	return i, j
}

// leafLoops: the update of a leaf's case happens for every leaf and every case of it, once. hit says that a
// path does it, skip that the path may leave it out.
func (c *Check) leafLoops(key, name string, e *Exec, ev *Event, i, j, leaves *Term, hit func(*Path) int, skip func(*Path) bool) *Cut {
	ki, kj := e.loopOfIndex(i), e.loopOfIndex(j)
	if ki == nil || kj == nil || !ki.inLoop(kj) {
		c.bad(key, instrPos(ev.In), "undecided: %s does not go through the leaves and their cases", name)
		return nil
	}
	if msg := e.countsAny(ki, i, func(n *Term) bool { return n.Op == "len" && isLoadOf(n.Args[0], leaves) }); msg != "" {
		c.bad(key, instrPos(ev.In), "%s does not go through every leaf: %s", name, msg)
	}
	if msg := e.countsAny(kj, j, func(n *Term) bool {
		return n.Op == "len" && e.leaf(n.Args[0], leaves) == i
	}); msg != "" {
		c.bad(key, instrPos(ev.In), "%s does not go through every case of a leaf: %s", name, msg)
	}
	if !e.everyTurn(kj, func(p *Path) bool { return hit(p) > 0 || skip(p) }) {
		c.bad(key, instrPos(ev.In), "%s can leave out a case", name)
	}
	if !e.oncePerTurn(kj, hit) {
		c.bad(key, instrPos(ev.In), "%s can treat a case twice", name)
	}
	if !e.everyTurn(ki, func(p *Path) bool { return p.To == kj }) {
		c.bad(key, instrPos(ev.In), "%s can leave out a leaf", name)
	}
	if !e.oncePerTurn(ki, func(p *Path) int {
		if p.To == kj && !e.members(kj)[p.From] {
			return 1
		}
		return 0
	}) {
		c.bad(key, instrPos(ev.In), "%s can treat a leaf twice", name)
	}
	return ki
}

// isMissingCase: the conditions say that the case has no target value.
func missingCase(gs []*Term, e *Exec, cs *Term, want bool) bool {
	for _, g := range gs {
		neg := g.Op == "not"
		if neg {
			g = g.Args[0]
		}
		if a := isCall(g, "IsMissing"); a != nil && len(a) == 2 && neg != want && strip(e.settleCells(a[1])) == strip(e.settleCells(cs)) {
			return true
		}
	}
	return false
}

// adaptive: AdaBoost, AdaCost and its numeric relative.
func (c *Check) adaptive(typ string) {
	f := c.method(typ, "Boost")
	if f == nil {
		return
	}
	name, key := typ+".Boost", "boost/"+typ
	e := c.run(f, "boost", Options{Opaque: opaque(typ+".Impurity", typ+".CountPerCat", typ+".Modei", typ+".Mode")})
	if e == nil {
		return
	}
	num := strings.HasPrefix(typ, "Num")
	t, leaves := e.param(0), e.param(1)
	weightOf := func(a *Term) *Term { // the index of an element of the weights
		arr, i := addrElem(a)
		if arr == nil {
			return nil
		}
		if o := field(arr, typ+".Weights"); o == nil || strip(o) != t {
			return nil
		}
		return i
	}
	// the error of the partition
	var err *Term
	c.ob(name, "the error is the sum of the leaves' impurities")
	e.each(func(cu *Cut, p *Path) {
		for s := range p.Phi {
			sm := e.sum(s)
			if sm == nil || err == s {
				continue
			}
			ok := false
			for _, tn := range sm.turns {
				ok = ok || isCall(tn.v, "Impurity") != nil
			}
			if !ok {
				continue
			}
			if err != nil {
				c.bad(key, f.Pos(), "undecided: two sums of impurities")
			}
			err = s
			if !sm.startsAtZero() {
				c.bad(key, f.Pos(), "the error does not start at 0")
			}
			for _, tn := range sm.turns {
				a := isCall(tn.v, "Impurity")
				if len(a) != 3 || a[0] != t {
					c.bad(key, f.Pos(), "the error is increased by %v and not by the impurity of a leaf", tn.v)
					continue
				}
				i := e.leaf(a[1], leaves)
				if i == nil {
					c.bad(key, f.Pos(), "undecided: the impurity of %v is added to the error", a[1])
					continue
				}
				if msg := e.countsAny(sm.k, i, func(n *Term) bool { return n.Op == "len" && isLoadOf(n.Args[0], leaves) }); msg != "" {
					c.bad(key, f.Pos(), "the error does not include every leaf: %s", msg)
				}
			}
		}
	})
	if err == nil {
		c.bad(key, f.Pos(), "undecided: %s does not add up the impurities of the leaves", name)
		return
	}
	half := divT(intT(1), intT(2))
	// the weight: log((1-err)/err)/2, or log(NormFactor/err)
	isWeight := func(w *Term) bool {
		w = strip(w)
		ok := false
		w.walk(func(x *Term) bool {
			a := isCall(x, "math.Log")
			if a == nil || ok {
				return !ok
			}
			if num {
				if q := mulT(a[0], err); divT(w, x) == intT(1) && field(q, typ+".NormFactor") == t {
					ok = true
				}
			} else if divT(w, x) == half && a[0] == divT(subT(intT(1), err), err) {
				ok = true
			}
			return !ok
		})
		return ok
	}
	// no weight: the error is too great
	great := func(gs []*Term) int {
		for _, g := range gs {
			for _, x := range []*Term{leT(half, err, err.T), ltT(half, err, err.T)} {
				if !num {
					if g == x {
						return 1
					} else if g == notT(x) {
						return 0
					}
				}
			}
			if num && g.has(err) {
				h, neg := g, false
				if h.Op == "not" {
					h, neg = h.Args[0], true
				}
				var nf *Term
				h.walk(func(x *Term) bool {
					if field(x, typ+".NormFactor") == t {
						nf = x
					}
					return true
				})
				if nf != nil && (h == ltT(nf, err, err.T) || h == leT(nf, err, err.T)) {
					if neg {
						return 0
					}
					return 1
				}
			}
		}
		return -1
	}
	infinite := func(gs []*Term, want bool) bool {
		for _, g := range gs {
			neg := g.Op == "not"
			if neg {
				g = g.Args[0]
			}
			if a := isCall(g, "math.IsInf"); a != nil && neg != want && isWeight(a[0]) {
				return true
			}
		}
		return false
	}
	// the changes of the weights
	type change struct {
		p  *Path
		ev *Event
		r  *Term // new over old
	}
	var updates, divisions []change
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && addrField(ev.Addr, typ+".Weights") != nil {
				c.bad(key, instrPos(ev.In), "undecided: the weights are replaced")
			}
			if ev.Kind != "store" || weightOf(ev.Addr) == nil {
				continue
			}
			var r *Term
			ev.Val.walk(func(x *Term) bool {
				if x.Op == "load" && strip(x).Args[0] == strip(ev.Addr) {
					r = divT(strip(ev.Val), strip(x))
				}
				return true
			})
			if r == nil {
				c.bad(key, instrPos(ev.In), "a case's weight becomes %v, which does not depend on what it was", ev.Val)
				continue
			}
			ch := change{p, ev, r}
			if inv := invT(r); inv.Op == "sym" {
				divisions = append(divisions, ch)
			} else {
				updates = append(updates, ch)
			}
		}
	})
	if len(updates) == 0 || len(divisions) == 0 {
		c.bad(key, f.Pos(), "%s does not change the weights or does not make them sum to one", name)
		return
	}
	isUpdate := func(q *Path) (n int) {
		for _, u := range updates {
			for _, ev := range q.Events {
				if ev == u.ev {
					n++
				}
			}
		}
		return
	}
	var ku, ks, kd *Cut
	for _, u := range updates {
		pos := instrPos(u.ev.In)
		c.ob(name, "a case's weight is changed by the factor for it")
		cs := weightOf(u.ev.Addr)
		i, j := e.leafCase(cs, leaves)
		if i == nil {
			c.bad(key, pos, "undecided: the weight of %v is changed", cs)
			continue
		}
		if !missingCase(u.p.before(u.ev), e, cs, false) {
			c.bad(key, pos, "the weight of a case without a target value can be changed")
		}
		if great(u.p.before(u.ev)) != 0 || !infinite(u.p.before(u.ev), false) {
			c.bad(key, pos, "the weights can be changed by a tree that is given no weight or an infinite one")
		}
		ki := c.leafLoops(key, name, e, u.ev, i, j, leaves, isUpdate, func(q *Path) bool { return missingCase(q.All(), e, cs, true) })
		if ki == nil {
			continue
		}
		if ku != nil && ku != ki {
			c.bad(key, pos, "the weights are changed in two passes")
		}
		ku = ki
		if e.members(e.phiCut(err))[u.p.From] {
			c.bad(key, pos, "the weights are changed before the error is known")
		}
		// the factor
		var ex *Term
		u.r.walk(func(x *Term) bool {
			if isCall(x, "math.Exp") != nil && ex == nil {
				ex = x
			}
			return ex == nil
		})
		if ex == nil {
			c.bad(key, pos, "the weight of a case is changed by the factor %v", u.r)
			continue
		}
		a := isCall(ex, "math.Exp")[0]
		cost := divT(u.r, ex)
		var cat *Term
		u.p.walkTerms(func(x *Term) {
			if g := isCall(x, "Geti"); len(g) == 2 && strip(e.settleCells(g[1])) == strip(e.settleCells(cs)) {
				cat = x
			}
		})
		if typ == "AdaCostTarget" {
			arr, k := elem(cost)
			if arr == nil || field(arr, typ+".Costs") != t || cat == nil || k != strip(cat) {
				c.bad(key, pos, "the weight of a case is multiplied by %v and not by the cost of its category", cost)
			}
		} else if !isOne(cost) {
			c.bad(key, pos, "the weight of a case is multiplied by %v", cost)
		}
		if num {
			// exp(w*(norm-err)), norm the distance from the mean of the leaf
			var nm *Term
			a.walk(func(x *Term) bool {
				if g := isCall(x, "Norm"); len(g) == 3 && strip(e.settleCells(g[1])) == strip(e.settleCells(cs)) {
					if m := isCall(g[2], "Predicted"); len(m) == 2 && e.leaf(m[1], leaves) == i {
						nm = x
					}
				}
				return true
			})
			if nm == nil || !isWeight(divT(a, subT(nm, err))) && !e.weightTimes(a, nm, err, isWeight) {
				c.bad(key, pos, "the factor is exp(%v)", a)
			}
			continue
		}
		if cat == nil {
			c.bad(key, pos, "undecided: the category of the case is not asked for")
			continue
		}
		// the majority of the leaf
		major, decided := false, false
		for _, g := range u.p.before(u.ev) {
			neg := g.Op == "not"
			if neg {
				g = g.Args[0]
			}
			if g.Op != "eq0" || !g.has(cat) {
				continue
			}
			g.walk(func(x *Term) bool {
				if decided || !(x.Op == "sym" || isCall(x, "Modei") != nil) || g != eq0(subT(x, cat)) {
					return true
				}
				if msg := c.majority(e, x, i, leaves); msg != "" {
					c.bad(key, pos, "%v is not the leaf's majority category: %s", x, msg)
				}
				decided, major = true, !neg
				return true
			})
		}
		switch {
		case !decided:
			c.bad(key, pos, "undecided: the case is not compared with the majority of its leaf")
		case major && !isWeight(negT(a)):
			c.bad(key, pos, "a case of the leaf's majority has its weight changed by exp(%v)", a)
		case !major && !isWeight(a):
			c.bad(key, pos, "a case that is not of the leaf's majority has its weight changed by exp(%v)", a)
		}
	}
	isWeights := func(arr *Term) bool { return field(arr, typ+".Weights") == t }
	for _, d := range divisions {
		pos := instrPos(d.ev.In)
		c.ob(name, "the weights are made to sum to one")
		i := weightOf(d.ev.Addr)
		kd = e.loopOfIndex(i)
		if kd == nil {
			c.bad(key, pos, "undecided: not every weight is divided")
			continue
		}
		if msg := e.countsAny(kd, i, func(n *Term) bool { return n.Op == "len" && isWeights(n.Args[0]) }); msg != "" {
			c.bad(key, pos, "not every weight is divided by the sum: %s", msg)
		}
		here := func(q *Path) (n int) {
			for _, ev := range q.Events {
				if ev == d.ev {
					n++
				}
			}
			return
		}
		if !e.everyTurn(kd, func(q *Path) bool { return here(q) > 0 }) {
			c.bad(key, pos, "a weight can be left undivided")
		}
		s := invT(d.r)
		sm := e.sum(s)
		if sm == nil || !sm.startsAtZero() {
			c.bad(key, pos, "the weights are divided by %v and not by their sum", s)
			continue
		}
		ks = sm.k
		for _, tn := range sm.turns {
			arr, _ := elem(tn.v)
			if arr == nil || !isWeights(arr) {
				c.bad(key, pos, "the weights are divided by a sum of %v", tn.v)
			} else if msg := e.overList(sm.k, tn.v, isWeights); msg != "" {
				c.bad(key, pos, "the weights are divided by a sum that leaves some out: %s", msg)
			}
		}
		if ku != nil && e.reachesFrom(ks, nil, func(q *Path) bool { return isUpdate(q) > 0 }) != nil {
			c.bad(key, pos, "the weights are added up before all are changed")
		}
		if e.members(kd)[ks] || e.members(ks)[kd] {
			c.bad(key, pos, "the weights are divided while they are added up")
		}
	}
	if len(divisions) > 1 {
		c.bad(key, instrPos(divisions[1].ev.In), "undecided: the weights are divided more than once")
	}
	if ku == nil || ks == nil || kd == nil {
		return
	}
	// what is returned
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || len(p.Ret) != 1 {
			return
		}
		c.ob(name, "the weight returned")
		v := strip(p.Ret[0])
		none := num && p.holds(ge0(negT(lenT(firstLoad(p, leaves)))))
		switch {
		case none || great(p.All()) == 1:
			if !isZero(v) {
				c.bad(key, instrPos(p.RetIn), "a tree whose error is too great is given the weight %v", v)
			}
		case !isWeight(v):
			c.bad(key, instrPos(p.RetIn), "a tree is given the weight %v", v)
		case infinite(p.All(), true):
		default:
			for _, k := range []*Cut{ku, ks, kd} {
				if e.reaches(func(q *Path) bool { return q.To == k }, func(q *Path) bool { return q == p }) != nil {
					c.bad(key, instrPos(p.RetIn), "a tree can be given a weight without the cases' weights being changed and made to sum to one")
				}
			}
		}
	})
}

// weightTimes: a is w*(nm-err) for a weight w.
func (e *Exec) weightTimes(a, nm, err *Term, isWeight func(*Term) bool) bool {
	ok := false
	a.walk(func(x *Term) bool {
		if isCall(x, "math.Log") != nil && isWeight(x) && isZero(subT(strip(a), mulT(strip(x), subT(strip(nm), err)))) {
			ok = true
		}
		return !ok
	})
	return ok
}

// firstLoad is a read of what a points to, in the conditions of a path.
func firstLoad(p *Path, a *Term) *Term {
	for _, l := range loadsOf(p.All(), a) {
		return l
	}
	return mk("load", "", a)
}

func (p *Path) walkTerms(f func(*Term)) {
	for _, g := range p.All() {
		g.walk(func(x *Term) bool { f(x); return true })
	}
	for _, ev := range p.Events {
		if ev.Val != nil {
			ev.Val.walk(func(x *Term) bool { f(x); return true })
		}
	}
}

// majority: x is the most frequent category of leaf i.
func (c *Check) majority(e *Exec, x, i, leaves *Term) string {
	if a := isCall(x, "Modei"); a != nil {
		if len(a) == 2 && e.leaf(a[1], leaves) == i {
			return ""
		}
		return "it is that of other cases"
	}
	k := e.phiCut(x)
	if k == nil {
		return "it is not found by a loop"
	}
	// the counts are those of the leaf
	var counter *Term
	enter, _ := e.into(k)
	for _, p := range enter {
		var last *Event
		for _, ev := range p.calls("CountPerCat") {
			last = ev
		}
		if last == nil {
			return "the cases of the leaf are not counted for it"
		}
		if len(last.Args) != 3 || e.leaf(last.Args[1], leaves) != i {
			return "other cases are counted"
		}
		if counter != nil && counter != last.Args[2] {
			return "undecided: two counters"
		}
		counter = last.Args[2]
	}
	if counter == nil {
		return "nothing is counted"
	}
	array := func(arr *Term) bool {
		if isLoadOf(arr, counter) {
			return true
		}
		for _, v := range e.puts(counter) {
			if v == arr {
				return true
			}
		}
		return false
	}
	written := ""
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if arr, _ := addrElem(ev.Addr); arr != nil && array(arr) {
					written = "the counts are changed"
				}
			}
		}
	})
	if written != "" {
		return written
	}
	return e.argmax(x, array, func(n *Term) bool {
		for _, v := range e.puts(counter) {
			if n == lenT(v) {
				return true
			}
		}
		return isCall(n, "NCats") != nil
	})
}

// gradient: every leaf's prediction is taken off the residuals of its cases.
func (c *Check) gradient(typ string) {
	f := c.method(typ, "Boost")
	if f == nil {
		return
	}
	name, key := typ+".Boost", "boost/"+typ
	if f.Object() == nil || f.Signature.Recv() == nil || !strings.HasSuffix(types.TypeString(f.Signature.Recv().Type(), nil), "."+typ) {
		c.bad(key, f.Pos(), "%s has no Boost of its own", typ)
		return
	}
	class := strings.Contains(typ, "Class")
	e := c.run(f, "boost", Options{Opaque: opaque("Expit")})
	if e == nil {
		return
	}
	t, leaves, preds := e.param(0), e.param(1), e.param(2)
	isRate := func(x *Term) bool {
		return field(x, typ+".LearnRate") == t
	}
	put := func(ev *Event) bool { return ev.Kind == "call" && nameIs(ev.Name, "Put") && len(ev.Args) == 3 }
	// which values a feature holds
	which := func(x *Term) string {
		x = strip(x)
		switch {
		case field(x, "GradBoostClassTarget.Pred") == t:
			return "prediction"
		case field(x, "GradBoostClassTarget.Actual") == t:
			return "actual"
		case field(x, "GradBoostTarget.NumFeature") != nil:
			o := field(x, "GradBoostTarget.NumFeature")
			if o == t || field(o, "GradBoostClassTarget.GradBoostTarget") == t {
				return "residual"
			}
		case x == t:
			return "residual"
		}
		return ""
	}
	kinds := []string{"residual"}
	if class {
		kinds = append(kinds, "prediction")
	}
	n := map[string]int{}
	e.each(func(cu *Cut, p *Path) {
		held := map[string]*Term{}
		get := map[*Term]*Term{}
		var cs0 *Term
		var becomes *Term // the prediction put on this path
		for _, ev := range p.Events {
			if put(ev) && which(ev.Args[0]) == "prediction" {
				becomes = ev.Args[2]
			}
		}
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "Get") && len(ev.Args) == 2 && cs0 != nil && decideEq(ev.Args[1], cs0) {
				if v := held[which(ev.Args[0])]; v != nil {
					get[ev.Res] = v
				}
			}
			if !put(ev) {
				continue
			}
			pos := instrPos(ev.In)
			kind := which(ev.Args[0])
			ok := false
			for _, k := range kinds {
				ok = ok || k == kind
			}
			if !ok {
				c.bad(key, pos, "%s changes %v", name, ev.Args[0])
				continue
			}
			n[kind]++
			c.ob(name, "the "+kind+" of a case")
			cs := ev.Args[1]
			cs0 = cs
			i, j := e.leafCase(cs, leaves)
			if i == nil {
				c.bad(key, pos, "undecided: the %s of %v is changed", kind, cs)
				continue
			}
			if !missingCase(p.before(ev), e, cs, false) {
				c.bad(key, pos, "the %s of a case without a target value can be changed", kind)
			}
			c.leafLoops(key, name, e, ev, i, j, leaves, func(q *Path) (n int) {
				for _, w := range q.Events {
					if put(w) && which(w.Args[0]) == kind {
						n++
					}
				}
				return
			}, func(q *Path) bool { return missingCase(q.All(), e, cs, true) })
			v := rewrite(ev.Args[2], func(x *Term) *Term { return get[x] })
			held[kind] = v
			// the step: learning rate times the leaf's prediction
			step := func(x *Term) bool {
				var rate, pred *Term
				x.walk(func(y *Term) bool {
					if isRate(y) {
						rate = y
					}
					if y.Op == "extract" && y.S == "0" {
						if a := isCall(y.Args[0], "strconv.ParseFloat"); len(a) == 2 {
							if arr, k := elem(strip(a[0])); arr != nil && isLoadOf(arr, preds) && decideEq(k, i) {
								pred = y
							}
						}
					}
					return true
				})
				return rate != nil && pred != nil && isZero(subT(x, mulT(rate, pred)))
			}
			own := func(want string) *Term { // the value the case had
				var g *Term
				v.walk(func(y *Term) bool {
					if a := isCall(y, "Get"); len(a) == 2 && which(a[0]) == want && strip(e.settleCells(a[1])) == strip(e.settleCells(cs)) {
						g = y
					}
					return true
				})
				return g
			}
			switch {
			case !class:
				if g := own("residual"); g == nil || !step(subT(g, v)) {
					c.bad(key, pos, "the residual of a case becomes %v", v)
				}
			case kind == "prediction":
				if g := own("prediction"); g == nil || !step(subT(v, g)) {
					c.bad(key, pos, "the prediction of a case becomes %v", v)
				}
			default:
				g := own("actual")
				good := false
				if g != nil {
					if a := isCall(subT(g, v), "Expit"); len(a) == 1 {
						good = a[0] == becomes
					}
				}
				if !good {
					c.bad(key, pos, "the residual of a case becomes %v", v)
				}
			}
		}
		if p.End == "return" && len(p.Ret) == 1 && !isRate(strip(p.Ret[0])) {
			c.bad(key, instrPos(p.RetIn), "the weight of a tree is %v and not the learning rate", p.Ret[0])
		}
	})
	for _, k := range kinds {
		if n[k] == 0 {
			c.bad(key, f.Pos(), "%s never changes the %s", name, k)
		}
	}
	if class {
		c.logistic()
	}
}

// logistic: Expit is the logistic function.
func (c *Check) logistic() {
	f := c.fn("", "Expit")
	if f == nil {
		return
	}
	e := c.run(f, "logistic", Options{})
	if e == nil {
		return
	}
	x := e.param(0)
	half := divT(intT(1), intT(2))
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" {
			return
		}
		c.ob("Expit", "is the logistic function")
		v := p.Ret[0]
		ok := false
		v.walk(func(y *Term) bool {
			if a := isCall(y, "math.Tanh"); a != nil {
				ok = ok || a[0] == mulT(half, x) && isZero(subT(v, addT(half, mulT(half, y))))
			}
			if a := isCall(y, "math.Exp"); a != nil {
				ok = ok || a[0] == negT(x) && v == invT(addI(y, 1)) || a[0] == x && v == divT(y, addI(y, 1))
			}
			return true
		})
		if !ok {
			c.bad("boost/Expit", instrPos(p.RetIn), "Expit is %v", v)
		}
	})
}

func init() {
	register(&Rule{
		ID:   "C26",
		What: "every type with a Boost method implements BoostingTarget (type-checked); growforest and GrowRandomForest: all runs of a turn of the loop that grows trees boost the same target once with the partition of the tree just grown and store the result as its weight; the weight formulas and updates of the five boosting targets compared in normal form, with their sums, maxima and loops",
		Min:  30,
		Run: func(c *Check) {
			c.boostTypes()
			c.boosting()
			c.forestBoost()
			for _, t := range []string{"AdaBoostTarget", "AdaCostTarget", "NumAdaBoostTarget"} {
				c.adaptive(t)
			}
			for _, t := range []string{"GradBoostTarget", "GradBoostClassTarget"} {
				c.gradient(t)
			}
		},
	})
}
