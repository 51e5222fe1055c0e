package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C32: the number of trees asked for, each recorded once ---------------------------------------

// atMost: from some point on the variable a never exceeds the variable b, and both stay what they are
// when the cut is reached.
func (e *Exec) atMost(a, b *Term, at *Cut) bool {
	type st struct {
		d  *Cut
		ok bool
	}
	seen := map[st]bool{}
	holds := true
	hit := false
	var walk func(d *Cut, ok bool)
	walk = func(d *Cut, ok bool) {
		if d == at {
			hit = true
			holds = holds && ok
			return
		}
		if seen[st{d, ok}] {
			return
		}
		seen[st{d, ok}] = true
		for _, p := range d.Paths {
			if p.To == nil {
				continue
			}
			now := ok
			last := -1
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "store" && ev.Addr == a:
					now = false
					if isLoadOf(ev.Val, b) {
						now = true
					} else {
						for _, l := range loadsOf(append(p.before(ev), ev.Val), b) {
							now = now || p.holdsBefore(ev, ge0(subT(l, ev.Val)))
						}
					}
					last = ev.NG
				case ev.Kind == "store" && ev.Addr == b:
					now, last = false, ev.NG
				case ev.Kind == "call":
					for _, x := range ev.Args {
						if x == a || x == b {
							now, last = false, ev.NG
						}
					}
					if nameIs(ev.Name, "flag.Parse") || strings.HasSuffix(ev.Name, "flag.Parse") {
						now, last = false, ev.NG
					}
				}
			}
			if last < 0 {
				last = 0
			}
			if !now {
				gs := p.Guards[min(last, len(p.Guards)):]
				for _, x := range loadsOf(gs, a) {
					for _, y := range loadsOf(gs, b) {
						now = now || decide(gs, ge0(subT(y, x))) == 1
					}
				}
			}
			walk(p.To, now)
		}
	}
	walk(e.Entry, false)
	return hit && holds
}

func loadsOf(ts []*Term, a *Term) (out []*Term) {
	for _, t := range ts {
		t.walk(func(x *Term) bool {
			if isLoadOf(x, a) {
				out = append(out, x)
			}
			return true
		})
	}
	return
}

// recordKind is one of the places a grown tree is put.
type recordKind struct {
	name string
	is   func(p *Path, ev *Event) *Term // the tree recorded, nil when the event is no such record
	off  func(gs []*Term) bool          // the conditions say that this kind is not asked for
	last func(gs []*Term) bool          // the conditions say that this is the last forest; nil when every forest counts
}

func (c *Check) treeCount() {
	e := c.command("growforest")
	if e == nil {
		return
	}
	key := "count/growforest"
	byLoop := map[*Cut][]*Path{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			k := e.loopOf(ev)
			byLoop[k] = append(byLoop[k], p)
		}
	})
	if len(byLoop) == 0 {
		c.bad(key, e.Root.Pos(), "undecided: growforest grows no tree")
		return
	}
	trees, cores := e.flag("nTrees"), e.flag("nCores")
	if trees == nil || cores == nil {
		c.bad(key, e.Root.Pos(), "undecided: no -nTrees or -nCores")
		return
	}
	var launch *Cut // the loop that starts the workers
	var workers []*Cut
	for k := range byLoop {
		if k == nil {
			c.bad(key, e.Root.Pos(), "undecided: a tree is grown outside of any loop")
			return
		}
		workers = append(workers, k)
	}
	for _, k := range workers {
		o := e.outer(k)
		if o == nil || launch != nil && launch != o {
			c.bad(key, k.B.Instrs[0].Pos(), "undecided: the loops that grow trees are not started in one loop over the cores")
			return
		}
		launch = o
	}
	// the counter of trees begun
	counters := map[*Term]bool{}
	for _, k := range workers {
		m := e.members(k)
		e.each(func(cu *Cut, p *Path) {
			if !m[cu] {
				return
			}
			for _, ev := range p.Events {
				if ev.Kind != "store" || ev.Addr.Op != "alloc" {
					continue
				}
				for _, l := range loadsOf([]*Term{ev.Val}, ev.Addr) {
					if decideEq(ev.Val, addI(l, 1)) && len(loadsOf(p.before(ev), trees)) > 0 {
						for _, g := range p.before(ev) {
							if g.contains(func(t *Term) bool { return t == l }) && g.contains(func(t *Term) bool { return isLoadOf(t, trees) }) {
								counters[ev.Addr] = true
							}
						}
					}
				}
			}
		})
	}
	if len(counters) != 1 {
		c.bad(key, launch.B.Instrs[0].Pos(), "undecided: %d variables count the trees begun", len(counters))
		return
	}
	var counter *Term
	for a := range counters {
		counter = a
	}
	// it starts at the number of workers, of which there are never more than trees
	c.ob("growforest.main", "as many trees are begun as there are workers, and no more than asked for")
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr != counter {
				continue
			}
			in := false
			for _, k := range workers {
				in = in || e.members(k)[cu]
			}
			if in {
				continue
			}
			n++
			if !isLoadOf(ev.Val, cores) {
				c.bad(key, instrPos(ev.In), "the count of trees begun starts at %v and not at the number of workers", ev.Val)
			}
		}
	})
	if n == 0 {
		c.bad(key, launch.B.Instrs[0].Pos(), "undecided: the count of trees begun is never set")
	}
	enter, _ := e.into(launch)
	for _, q := range enter {
		set := false
		for _, ev := range q.Events {
			set = set || ev.Kind == "store" && ev.Addr == counter
		}
		if !set {
			c.bad(key, launch.B.Instrs[0].Pos(), "undecided: the count of trees begun is not set before the workers are started")
		}
	}
	if !e.atMost(cores, trees, launch) {
		c.bad(key, launch.B.Instrs[0].Pos(), "more workers can be started than trees are asked for")
	}
	// the number of workers started
	c.ob("growforest.main", "one worker for every core")
	var idx *Term
	for s := range launch.symbols(e) {
		if e.trips(launch, s, func(t *Term) bool { return isLoadOf(t, cores) }) {
			idx = s
		}
	}
	if idx == nil {
		c.bad(key, launch.B.Instrs[0].Pos(), "the workers are not started in a loop that runs once for every core")
	}
	isWorker := func(q *Path) bool {
		for _, k := range workers {
			if q.To == k && !e.members(k)[q.From] {
				return true
			}
		}
		return false
	}
	if !e.everyTurn(launch, isWorker) {
		c.bad(key, launch.B.Instrs[0].Pos(), "a core can be left without a worker")
	}
	if !e.oncePerTurn(launch, func(q *Path) int {
		if isWorker(q) {
			return 1
		}
		return 0
	}) {
		c.bad(key, launch.B.Instrs[0].Pos(), "a core can get more than one worker")
	}
	for _, k := range workers {
		c.workerTurns(e, k, counter, trees, key)
	}
}

// trips: the loop at k has n turns, for an n accepted by is, counted by idx.
func (e *Exec) trips(k *Cut, idx *Term, is func(*Term) bool) bool {
	ns := e.lengths(k, is)
	enter, _ := e.into(k)
	for _, q := range enter {
		q.next(idx).walk(func(x *Term) bool {
			if is(x) {
				ns = append(ns, x)
			}
			return true
		})
	}
	for _, n := range ns {
		for _, q := range enter {
			v := q.next(idx)
			if a, ok := v.intc(); ok && e.countsIn(k, idx, intT(a), addI(n, a)) == "" {
				return true
			}
			if d, ok := subT(v, n).intc(); ok && e.countsIn(k, idx, intT(d+1), addI(n, d+1)) == "" {
				return true
			}
		}
	}
	return false
}

// outer is the loop around loop k.
func (e *Exec) outer(k *Cut) *Cut {
	var best *Cut
	for _, d := range e.loopCuts() {
		if d != k && d.inLoop(k) && !(d.Ctx == k.Ctx && d.B == k.B) && (best == nil || best.inLoop(d)) {
			best = d
		}
	}
	return best
}

// symbols are the variables a cut introduces.
func (k *Cut) symbols(e *Exec) map[*Term]bool {
	out := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		if p.To == k {
			for s := range p.Phi {
				out[s] = true
			}
		}
	})
	return out
}

// turnState is what has happened so far in a turn of the loop that grows trees.
const (
	tGrown = 1 << iota
	tCounted
	tLess // the count is below the number of trees
	tFull // the count has reached the number of trees
	tDone // it was seen to have reached it
	tLocked
	tWritten
	tWrittenOff
	tKept
	tKeptOff
	tScikit
	tScikitOff
	tLast // it is the last forest
	tInf  // boosting reached an infinite weight
)

func (c *Check) workerTurns(e *Exec, k *Cut, counter, trees *Term, key string) {
	m := e.members(k)
	pos := k.B.Instrs[0].Pos()
	c.ob("growforest.main", "turns of the loop that grows trees")
	var grown *Term
	for cu := range m {
		for _, p := range cu.Paths {
			for _, ev := range p.grows() {
				if grown != nil && grown != ev.Args[0] {
					c.bad(key, instrPos(ev.In), "undecided: different trees are grown in one turn")
				}
				grown = ev.Args[0]
			}
		}
	}
	if grown == nil {
		return
	}
	// everything the tree variable can be
	vars := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if vars[t] {
			return
		}
		vars[t] = true
		switch {
		case t.Op == "sym":
			for _, v := range e.phis(t) {
				rec(v)
			}
		case t.Op == "load" && t.Args[0].Op == "alloc":
			for _, v := range e.puts(t.Args[0]) {
				rec(v)
			}
		}
	}
	rec(grown)
	made := map[*Term]bool{} // trees made within the loop
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "NewTree") && vars[ev.Res] {
				c.ob("growforest.main", "a tree made")
				named := false
				for _, w := range p.Events {
					named = named || w.Kind == "store" && addrField(w.Addr, "Tree.Target") == ev.Res && isLoadOf(w.Val, e.flag("target"))
				}
				if !named {
					c.bad(key, instrPos(ev.In), "a tree does not name its target")
				}
				if m[cu] {
					made[ev.Res] = true
				}
			}
		}
	})
	for v := range vars {
		if v.Op != "sym" && !(v.Op == "load" && v.Args[0].Op == "alloc") && isCall(v, "NewTree") == nil {
			c.bad(key, pos, "undecided: the tree grown can be %v", v)
			return
		}
	}
	kinds := c.records(e)
	// the same tree object is only recorded where the loop's tree is meant
	isGrown := func(t *Term) bool { return t == grown || t.Op == "sym" && e.settled(t) == grown }
	// which forest is the last: the loop variable that is compared with the number of forests
	bad := map[string]bool{}
	say := func(format string, a ...interface{}) {
		if !bad[format] {
			bad[format] = true
			c.bad(key, pos, format, a...)
		}
	}
	one := map[string]int{"write": tWritten, "keep": tKept, "scikit": tScikit}
	offBit := map[string]int{"write": tWrittenOff, "keep": tKeptOff, "scikit": tScikitOff}
	turned := 0
	t := &turns{e: e, k: k, track: func(s *Term) bool { return vars[s] }}
	shared := false
	for x := k.Ctx; x != nil; x = x.parent {
		if _, ok := x.site.(*ssa.Go); ok {
			shared = true
		}
	}
	t.step = func(p *Path, gs []*Term, ph int, env map[*Term]*Term) (int, bool) {
		// what the conditions say
		know := func(gs []*Term) bool {
			for _, kd := range kinds {
				if kd.off(gs) {
					ph |= offBit[kd.name]
				}
				if kd.last != nil && kd.last(gs) {
					ph |= tLast
				}
			}
			for _, g := range gs {
				if g.Op != "not" && g.contains(func(t *Term) bool {
					return t.Op == "inf" || t.Op == "call" && strings.HasSuffix(t.S, ".IsInf")
				}) {
					ph |= tInf
				}
			}
			less, full := c.countSeen(gs, counter, trees)
			if less && ph&tFull != 0 || full && ph&tLess != 0 {
				return false // cannot be
			}
			if less {
				ph |= tLess
			}
			if full {
				ph |= tFull
				if ph&tCounted == 0 {
					ph |= tDone
				}
			}
			return true
		}
		for _, kd := range kinds {
			if kd.last != nil && kd.last(p.From.In.facts) {
				ph |= tLast
			}
		}
		ng := 0
		forget := func() {
			if shared && ph&tLocked == 0 {
				ph &^= tLess | tFull
			}
		}
		for _, ev := range p.Events {
			if !know(gs[ng:ev.NG]) {
				return ph, true
			}
			ng = ev.NG
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "Mutex).Lock") {
				ph &^= tLess | tFull
				ph |= tLocked
			}
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "Mutex).Unlock") {
				ph &^= tLocked
			}
			for _, g := range p.grows() {
				if g != ev {
					continue
				}
				if ph&tGrown != 0 {
					say("a tree can be grown twice in a turn")
				}
				ph |= tGrown
			}
			for _, kd := range kinds {
				t := kd.is(p, ev)
				if t == nil {
					continue
				}
				c.ob("growforest.main", "a tree is recorded: "+kd.name)
				if !isGrown(t) {
					say("what is recorded (%s) is not the tree just grown but %v", kd.name, t)
				}
				if kd.last != nil && ph&tLast == 0 {
					say("a tree of another forest than the last can be recorded (%s)", kd.name)
				}
				if ph&tGrown == 0 {
					say("a tree can be recorded before it is grown (%s)", kd.name)
				}
				if ph&one[kd.name] != 0 {
					say("a tree can be recorded twice (%s)", kd.name)
				}
				ph |= one[kd.name]
			}
			if ev.Kind == "store" && ev.Addr == counter {
				switch {
				case ph&tCounted != 0:
					say("a tree can be counted twice in a turn")
				case ph&tLess == 0:
					say("more trees can be begun than are asked for")
				case shared && ph&tLocked == 0 || !c.countsOn(ev, counter):
					say("undecided: the count of trees begun is not raised by one in the section that compared it")
				}
				ph |= tCounted
				ph &^= tLess | tFull
			}
			forget()
		}
		if !know(gs[ng:]) {
			return ph, true
		}
		forget()
		stop := false
		switch {
		case p.To == k:
			turned++
			if ph&tGrown == 0 {
				say("a turn can pass without a tree being grown")
			}
			if ph&tCounted == 0 {
				say("a turn can begin another tree without counting it")
			}
		case p.To == nil && (p.End == "panic" || p.End == "exit"):
			return ph, true
		case p.To == nil || !m[p.To]:
			stop = true
			if ph&tInf != 0 && ph&(tWritten|tKept|tScikit) == 0 {
				return ph, true
			}
			if ph&tGrown == 0 || ph&tCounted != 0 || ph&tDone == 0 {
				say("a worker can stop before all trees are begun")
			}
		}
		if p.To == k || stop {
			for _, kd := range kinds {
				if ph&one[kd.name] == 0 && ph&offBit[kd.name] == 0 {
					say("a grown tree can be left out (%s)", kd.name)
				}
			}
		}
		if p.To == k && ph&tKept != 0 {
			// the tree grown in the next turn
			next := grown
			if v, ok := p.Phi[grown]; ok {
				next = v
			} else if grown.Op == "load" {
				if v := p.holding(grown.Args[0]); v != nil {
					next = v
				}
			}
			if v, ok := env[next]; ok {
				next = v
			}
			if !made[next] {
				say("a tree that is kept can be grown again")
			}
		}
		return ph, stop
	}
	t.from(0)
	if turned == 0 {
		c.bad(key, pos, "undecided: no turn of the loop that grows trees was seen")
	}
	for _, kd := range kinds {
		seen := false
		for cu := range m {
			for _, p := range cu.Paths {
				for _, ev := range p.Events {
					seen = seen || kd.is(p, ev) != nil
				}
			}
		}
		if !seen {
			c.bad(key, pos, "no tree is ever recorded (%s)", kd.name)
		}
	}
}

// countSeen: the conditions of the path say that the count is below, or has reached, the number of trees.
func (c *Check) countSeen(gs []*Term, counter, trees *Term) (less, full bool) {
	for _, x := range loadsOf(gs, counter) {
		for _, y := range loadsOf(gs, trees) {
			less = less || decide(gs, ge0(addI(subT(y, x), -1))) == 1
			full = full || decide(gs, ge0(subT(x, y))) == 1
		}
	}
	return
}

// countsOn: the store raises the count by one.
func (c *Check) countsOn(ev *Event, counter *Term) bool {
	for _, l := range loadsOf([]*Term{ev.Val}, counter) {
		if decideEq(ev.Val, addI(l, 1)) {
			return true
		}
	}
	return false
}

// records are the places a grown tree goes to.
func (c *Check) records(e *Exec) []recordKind {
	// the forest at hand is known not to be the last
	forests := e.forestVars()
	memo := map[*Term]bool{}
	differs := func(g *Term, not bool) bool {
		for f, n := range forests {
			for _, x := range e.loadsLike([]*Term{g}, f) {
				for _, y := range loadsOf([]*Term{g}, n) {
					if r := decide([]*Term{g}, eq0(addI(subT(x, y), 1))); r == 0 && not || r == 1 && !not {
						return true
					}
				}
			}
		}
		return false
	}
	memo2 := map[*Term]bool{}
	some := func(gs []*Term, memo map[*Term]bool, not bool) bool {
		for _, g := range gs {
			if _, ok := memo[g]; !ok {
				memo[g] = differs(g, not)
			}
			if memo[g] {
				return true
			}
		}
		return false
	}
	notLast := func(gs []*Term) bool { return some(gs, memo, true) }
	last := func(gs []*Term) bool { return some(gs, memo2, false) }
	off := func(gs []*Term, is func(t *Term) bool) bool {
		for _, g := range gs {
			if (g.Op == "isnil" || g.Op == "not") && is(g.Args[0]) {
				return true
			}
		}
		return false
	}
	ofType := func(s string) func(t *Term) bool {
		return func(t *Term) bool { return t.T != nil && strings.HasSuffix(types.TypeString(t.T, nil), s) }
	}
	test := e.flag("selftest")
	sci := e.flag("scikitforest")
	return []recordKind{
		{"write", func(p *Path, ev *Event) *Term {
			if ev.Kind == "call" && nameIs(ev.Name, "WriteTree") && len(ev.Args) > 1 {
				return ev.Args[1]
			}
			return nil
		}, func(gs []*Term) bool { return off(gs, ofType("ForestWriter")) || notLast(gs) }, last},
		{"keep", func(p *Path, ev *Event) *Term {
			if ev.Kind == "append" && ev.Val.Op == "append" && ev.Val.T != nil && strings.HasSuffix(types.TypeString(ev.Val.T, nil), "[]*"+RepoPath+".Tree") && len(ev.Args) == 1 {
				return ev.Args[0]
			}
			return nil
		}, func(gs []*Term) bool {
			return off(gs, func(t *Term) bool { return isLoadOf(t, test) }) || notLast(gs)
		}, last},
		{"scikit", func(p *Path, ev *Event) *Term {
			if ev.Kind == "call" && nameIs(ev.Name, "BuildScikitTree") && len(ev.Args) > 1 {
				return field(ev.Args[1], "Tree.Root")
			}
			return nil
		}, func(gs []*Term) bool {
			for _, l := range loadsOf(gs, sci) {
				if decide(gs, ge0(negT(lenT(l)))) == 1 {
					return true
				}
			}
			return false
		}, nil},
	}
}

// forestVars finds the loops over the forests: the variable that counts them and the one that bounds it.
func (e *Exec) forestVars() map[*Term]*Term {
	out := map[*Term]*Term{}
	grow := map[*Cut]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			for k := e.loopOf(ev); k != nil; k = e.outer(k) {
				grow[k] = true
			}
		}
	})
	for k := range grow {
		m := e.members(k)
		for _, p := range k.Paths {
			if p.To == nil || !m[p.To] {
				continue
			}
			for _, g := range p.Guards {
				var ls []*Term
				g.walk(func(t *Term) bool {
					if t.Op == "load" {
						ls = append(ls, t)
					}
					return true
				})
				for _, x := range ls {
					for _, y := range ls {
						if x != y && decide([]*Term{g}, ge0(addI(subT(y, x), -1))) == 1 && y.Args[0].Op == "alloc" {
							out[x.Args[0]] = y.Args[0]
						}
					}
				}
			}
		}
	}
	return out
}

// loadsLike lists the reads of a variable, also through copies of its address.
func (e *Exec) loadsLike(ts []*Term, a *Term) (out []*Term) {
	a = e.copyOf(a)
	for _, t := range ts {
		t.walk(func(x *Term) bool {
			if x.Op == "load" && e.copyOf(x.Args[0]) == a {
				out = append(out, x)
			}
			return true
		})
	}
	return
}

func init() {
	register(&Rule{ID: "C32", Min: 10,
		What: "growforest: the variable that counts the trees begun starts at the number of workers, which never exceeds -nTrees, and one worker is started per core; every run of a turn of a worker's loop grows exactly one tree and either raises the count by one from a value seen below -nTrees, or stops having seen the count reach it (or boosting an infinite weight); the tree grown is written, kept and converted exactly once unless that was not asked for or it is not the last forest; a tree that was kept is replaced by a new one before the next is grown; every tree made names the target",
		Run:  func(c *Check) { c.treeCount() }})
}
