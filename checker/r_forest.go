package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- C30: only trees not trained on a case vote on it out of bag ---------------------------------

// oobUse is a use of the list of out of bag cases.
type oobUse struct {
	p    *Path
	ev   *Event
	list *Term
	on   *Term // the flag that makes the use happen, nil for a vote
}

// loopOf is the innermost loop an event happens in.
func (e *Exec) loopOf(ev *Event) *Cut {
	var best *Cut
	for _, k := range e.loopCuts() {
		x, b := ev.Ctx, ev.In.Block()
		for x != nil && x != k.Ctx && x.site != nil {
			b, x = x.site.Block(), x.parent
		}
		if x == k.Ctx && k.blocks[b] && (best == nil || best.inLoop(k)) {
			best = k
		}
	}
	return best
}

// truths splits the conditions known before an event into variables known to be on and off.
func truths(gs []*Term) (on, off map[*Term]bool) {
	on, off = map[*Term]bool{}, map[*Term]bool{}
	for _, g := range gs {
		m := on
		if g.Op == "not" {
			m, g = off, g.Args[0]
		}
		if g.Op == "load" {
			m[g.Args[0]] = true
		} else if g.Op == "sym" {
			m[g] = true
		}
	}
	return
}

func (c *Check) outOfBag() {
	b := c.bags()
	if b == nil {
		return
	}
	e := b.e
	key := "oob/growforest"
	byLoop := map[*Cut][]oobUse{}
	votes := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			k := e.loopOf(ev)
			byLoop[k] = append(byLoop[k], oobUse{p, ev, ev.Args[5], ev.Args[12]})
		}
		for _, ev := range p.calls("VoteCases") {
			votes++
			k := e.loopOf(ev)
			byLoop[k] = append(byLoop[k], oobUse{p, ev, ev.Args[3], nil})
		}
	})
	if votes == 0 {
		c.bad(key, e.Root.Pos(), "undecided: no tree votes on the cases it was not trained on")
		return
	}
	for k, uses := range byLoop {
		if k == nil {
			c.bad(key, instrPos(uses[0].ev.In), "undecided: a tree is grown or votes outside of any loop")
			continue
		}
		c.oobLoop(b, k, uses, key)
	}
}

// oobLoop decides one copy of the loop that grows trees.
func (c *Check) oobLoop(b *bag, k *Cut, uses []oobUse, key string) {
	e := b.e
	var cases, trees []*Term
	var growers []*Path
	for _, u := range uses {
		if u.on != nil {
			cases = append(cases, u.ev.Args[3])
			trees = append(trees, u.ev.Args[0])
			growers = append(growers, u.p)
		}
	}
	m := e.members(k)

	// the training cases and what changes them
	isCases := map[*Term]bool{}
	cells := map[*Term]bool{}
	change := map[*Event]bool{}
	for _, t := range cases {
		g := e.gather(t)
		for v := range g.values {
			isCases[v] = true
		}
		for a := range g.cells {
			cells[a] = true
		}
		for _, s := range g.appends {
			change[s.ev] = true
		}
		for _, ev := range g.calls {
			change[ev] = true
		}
	}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			if cells[ev.Addr] {
				change[ev] = true
			}
			if a, _ := addrElem(ev.Addr); a != nil && isCases[a] {
				change[ev] = true
			}
		}
	})
	caseList := func(t *Term) bool { return isCases[t] || t.Op == "load" && cells[t.Args[0]] }

	done := map[*Term]*oobList{}
	for _, u := range uses {
		c.ob("growforest.main", "out of bag cases given to "+nameOf(u.ev))
		l := done[u.list]
		if l == nil {
			l = c.oobList(b, k, u, caseList, key)
			done[u.list] = l
		}
		if l == nil {
			continue
		}
		// every run to the use builds the list anew from the training cases as they are
		on, off := truths(u.p.before(u.ev))
		if u.on != nil {
			for _, v := range []*Term{u.on} {
				if v.Op == "load" {
					on[v.Args[0]] = true
				} else {
					on[v] = true
				}
			}
		}
		for a := range on {
			if e.writtenIn(m, a) {
				delete(on, a)
			}
		}
		for a := range off {
			if e.writtenIn(m, a) {
				delete(off, a)
			}
		}
		if w := e.stale(k, u, l, change, on, off); w != "" {
			c.bad(key, instrPos(u.ev.In), "%s can be given cases the tree was trained on: %s", nameOf(u.ev), w)
		}
	}
	// the tree that votes is the one just grown, and it votes once
	for _, u := range uses {
		if u.on != nil {
			continue
		}
		c.ob("growforest.main", "the tree that votes was just grown, and votes once")
		same := false
		for _, t := range trees {
			same = same || u.ev.Args[0] == t
		}
		if !same {
			c.bad(key, instrPos(u.ev.In), "the tree that votes is not the tree that was grown on the other cases")
		}
		early := false
		for _, q := range growers {
			if q == u.p {
				for _, g := range q.grows() {
					early = early || before(q, u.ev, g)
				}
			}
		}
		isGrow := func(q *Path) bool { return len(q.grows()) > 0 }
		if early || !isGrow(u.p) && e.reachesFrom(k, isGrow, func(q *Path) bool { return q == u.p }) != nil {
			c.bad(key, instrPos(u.ev.In), "a tree can vote before it is grown")
		}
	}
	if !e.oncePerTurn(k, func(p *Path) int { return len(p.calls("VoteCases")) }) {
		c.bad(key, instrPos(uses[0].ev.In), "a tree can vote more than once")
	}
	if !e.oncePerTurn(k, func(p *Path) int { return len(p.grows()) }) {
		c.bad(key, instrPos(uses[0].ev.In), "a tree can be grown twice before it votes")
	}
}

func before(p *Path, a, b *Event) bool {
	for _, ev := range p.Events {
		if ev == a {
			return true
		}
		if ev == b {
			return false
		}
	}
	return false
}

// writtenIn: a variable changes in a loop.
func (e *Exec) writtenIn(m map[*Cut]bool, a *Term) bool {
	hit := false
	if a.Op == "sym" {
		return m[e.phiCut(a)]
	}
	e.each(func(cu *Cut, p *Path) {
		if !m[cu] {
			return
		}
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == a {
				hit = true
			}
			if ev.Kind == "call" {
				for _, x := range ev.Args {
					hit = hit || x == a
				}
			}
		}
	})
	return hit
}

// oobList is how the list of the cases that are not in the bag is built.
type oobList struct {
	mark, fill, clear *Cut // loops
}

func (c *Check) oobList(b *bag, k *Cut, u oobUse, caseList func(*Term) bool, key string) *oobList {
	e := b.e
	m := e.members(k)
	l := &oobList{}
	ncases := func(t *Term) bool {
		t = e.settled(t)
		if t.Op == "len" {
			if l := e.settled(t.Args[0]); l.Op == "makeslice" {
				t = e.settled(lenT(l))
			}
		}
		a := isCall(t, "Length")
		if a == nil {
			return false
		}
		arr, _ := elem(a[0])
		return b.target(a[0]) || arr != nil && dataOf(arr, b.fm)
	}
	g := e.gather(u.list)
	for _, o := range g.other {
		c.bad(key, instrPos(u.ev.In), "undecided: the out of bag cases can be %v", o)
		return nil
	}
	if len(g.appends) == 0 || len(g.calls) > 0 {
		c.bad(key, instrPos(u.ev.In), "undecided: the out of bag cases are not collected one by one")
		return nil
	}
	// marked: the condition that says a case is in the bag, as (marks, case, negated)
	var marks *Term
	marked := func(t *Term) (*Term, *Term) {
		if a, i := elem(t); a != nil {
			return e.settled(a), i
		}
		if t.Op == "lookup" || t.Op == "haskey" {
			return e.settled(t.Args[0]), t.Args[1]
		}
		return nil, nil
	}
	for _, s := range g.appends {
		c.ob("growforest.main", "a case added to the out of bag cases is not a training case")
		if s.all || len(s.elems) != 1 {
			c.bad(key, instrPos(s.ev.In), "undecided: several cases are added to the out of bag cases at once")
			return nil
		}
		i := s.elems[0]
		ok := false
		for _, f := range s.p.before(s.ev) {
			if f.Op != "not" {
				continue
			}
			if a, j := marked(f.Args[0]); a != nil && decideEq(i, j) && (a.Op == "makeslice" || a.Op == "makemap") {
				if marks != nil && marks != a {
					continue
				}
				marks, ok = a, true
			}
		}
		if !ok {

			c.bad(key, instrPos(s.ev.In), "case %v is taken to be out of bag without being known not to be a training case", i)
			return nil
		}
		f := e.phiCut(anySym(i))
		if f == nil || l.fill != nil && l.fill != f {
			c.bad(key, instrPos(s.ev.In), "undecided: the out of bag cases are not collected in one loop over the cases")
			return nil
		}
		l.fill = f
		if !m[f] || f == k {
			c.bad(key, instrPos(s.ev.In), "the out of bag cases are not collected for every tree")
			return nil
		}
		if w := e.countsAny(f, i, ncases); w != "" {
			c.bad(key, instrPos(s.ev.In), "not every case is considered as out of bag case: %s", w)
		}
		added := func(q *Path) int {
			n := 0
			for _, ev := range q.Events {
				if ev.Kind == "append" && g.values[ev.Val] {
					n++
				}
			}
			return n
		}
		inBag := func(q *Path) bool {
			for _, f := range q.All() {
				if a, j := marked(f); a == marks && decideEq(i, j) {
					return true
				}
			}
			return false
		}
		if !e.everyTurn(f, func(q *Path) bool { return added(q) > 0 || inBag(q) }) {
			c.bad(key, instrPos(s.ev.In), "a case that was not trained on can be left out of the out of bag cases")
		}
		if !e.oncePerTurn(f, added) {
			c.bad(key, instrPos(s.ev.In), "a case can be listed twice as out of bag case")
		}
		enter, _ := e.into(f)
		for _, q := range enter {
			for sym, v := range q.Phi {
				if g.values[sym] && !emptyList(v) {
					c.bad(key, instrPos(s.ev.In), "out of bag cases of another tree can still be in the list")
				}
			}
			if s.ev.Addr.Op == "load" && g.cells[s.ev.Addr.Args[0]] {
				if v := q.holding(s.ev.Addr.Args[0]); v == nil || !emptyList(v) {
					c.bad(key, instrPos(s.ev.In), "out of bag cases of another tree can still be in the list")
				}
			}
		}
	}
	// nothing but the fill loop adds to the list, and nothing else sets marks than the mark loop
	if marks.Op == "makeslice" && !ncases(lenT(marks)) {
		c.bad(key, instrPos(u.ev.In), "undecided: %v marks are kept for the training cases", lenT(marks))
		return nil
	}
	sets := func(ev *Event) (i *Term, v *Term) {
		switch {
		case ev.Kind == "store":
			if a, j := addrElem(ev.Addr); a != nil && e.settled(a) == marks {
				return j, ev.Val
			}
		case ev.Kind == "mapupdate" && e.settled(ev.Addr) == marks:
			return ev.Args[0], ev.Val
		}
		return nil, nil
	}
	isTrue := func(v *Term) bool { return v != nil && v.isTrue() }
	bad := false
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			i, v := sets(ev)
			if i == nil {
				if ev.Kind == "call" {
					for _, x := range ev.Args {
						if x != nil && e.settled(x) == marks {
							bad = true
							c.bad(key, instrPos(ev.In), "undecided: %s may change which cases are in the bag", ev.Name)
						}
					}
				}
				continue
			}
			c.ob("growforest.main", "training cases are marked as in the bag")
			j := e.phiCut(anySym(i))
			if j == nil || !j.Loop || !m[j] || j == k {
				bad = true
				c.bad(key, instrPos(ev.In), "undecided: cases are marked as in the bag outside of a loop over the training cases")
				continue
			}
			switch arr, idx := elem(i); {
			case isTrue(v):
				if arr == nil || !caseList(arr) {
					bad = true
					c.bad(key, instrPos(ev.In), "the cases marked as in the bag are not the training cases")
					continue
				}
				here := func(q *Path) bool {
					for _, w := range q.Events {
						if x, y := sets(w); x != nil && strip(x) == strip(i) && isTrue(y) {
							return true
						}
					}
					return false
				}
				if w := e.countsAny(j, idx, func(t *Term) bool { return t.Op == "len" && caseList(t.Args[0]) }); w != "" || !e.everyTurn(j, here) {
					bad = true
					c.bad(key, instrPos(ev.In), "not every training case is marked as in the bag: %s", w)
				}
				l.mark = j
			case isTrue(notT(v)):
				// wiping the marks of the tree before
				here := func(q *Path) bool {
					for _, w := range q.Events {
						if x, y := sets(w); x != nil && x == i && isTrue(notT(y)) {
							return true
						}
					}
					return false
				}
				if w := e.countsAny(j, i, ncases); w != "" || !e.everyTurn(j, here) {
					bad = true
					c.bad(key, instrPos(ev.In), "not all marks of the tree before are wiped: %s", w)
				}
				l.clear = j
			default:
				bad = true
				c.bad(key, instrPos(ev.In), "a training case can be marked as not in the bag")
			}
		}
	})
	if bad {
		return nil
	}
	if l.mark == nil {
		c.bad(key, instrPos(u.ev.In), "no training case is marked as in the bag")
		return nil
	}
	if own := e.owner["v:"+marks.Ver]; l.clear == nil && (own == nil || !m[own]) {
		c.bad(key, instrPos(u.ev.In), "the marks of the trees grown before are still there")
		return nil
	}
	return l
}

// stale looks for a run of a turn of loop k that gets to the use with a list that does not belong to
// the training cases as they are then.
func (e *Exec) stale(k *Cut, u oobUse, l *oobList, change map[*Event]bool, on, off map[*Term]bool) string {
	// phases: 0 nothing done, 1 marks wiped, 2 marked, 3 list complete
	start := 0
	if l.clear == nil {
		start = 1
	}
	in := map[*Cut]map[*Cut]bool{}
	for _, c := range []*Cut{l.clear, l.mark, l.fill} {
		if c != nil {
			in[c] = e.members(c)
		}
	}
	leaves := func(p *Path, c *Cut) bool { return c != nil && in[c][p.From] && !in[c][p.To] }
	w := "no run gets there"
	t := &turns{e: e, k: k, on: on, off: off}
	t.step = func(p *Path, gs []*Term, ph int, env map[*Term]*Term) (int, bool) {
		if leaves(p, l.clear) {
			ph = 1
		}
		if leaves(p, l.mark) && ph >= 1 {
			ph = 2
		}
		if leaves(p, l.fill) && ph >= 2 {
			ph = 3
		}
		for _, ev := range p.Events {
			switch {
			case ev == u.ev && ph != 3:
				w = "the list may not have been built from the cases this tree is trained on"
			case ev == u.ev && w == "no run gets there":
				w = ""
			}
			if change[ev] {
				ph = start
			}
		}
		return ph, false
	}
	t.from(start)
	return w
}

// turns follows the runs of one turn of loop k on which the variables in on are true and those in off
// are false, with a phase that each path advances.
type turns struct {
	e       *Exec
	k       *Cut
	on, off map[*Term]bool
	// step advances the phase over a path whose conditions are gs; true ends the run
	step func(p *Path, gs []*Term, ph int, env map[*Term]*Term) (int, bool)
	// track says that a symbol's value along the run is of interest
	track func(sym *Term) bool
}

func (t *turns) from(start int) {
	type st struct {
		d   *Cut
		ph  int
		env string
	}
	seen := map[st]bool{}
	// what is known of a condition: 1 true, -1 false
	val := func(t0 *Term, env map[*Term]*Term) int {
		neg := 1
		t1 := t0
		for i := 0; i < 8; i++ {
			if t1.Op == "not" {
				neg, t1 = -neg, t1.Args[0]
				continue
			}
			if v, ok := env[t1]; ok && v != t1 {
				t1 = v
				continue
			}
			break
		}
		x := t1
		if t1.Op == "load" {
			x = t1.Args[0]
		}
		switch {
		case t.on[x]:
			return neg
		case t.off[x]:
			return -neg
		case t1.isTrue():
			return neg
		case t1.isFalse():
			return -neg
		}
		return 0
	}
	isBool := func(s *Term) bool {
		if s.T == nil {
			return false
		}
		b, ok := s.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	}
	m := t.e.members(t.k)
	// conditions on variables that do not change in the loop, whenever they are read
	fixed := map[*Term]bool{}
	norms := map[*Term]*Term{}
	norm := func(g *Term) *Term {
		if v, ok := norms[g]; ok {
			return v
		}
		v := rewrite(g, func(x *Term) *Term {
			if x.Op != "load" || x.Args[0].Op != "alloc" && x.Args[0].Op != "sym" {
				return nil
			}
			w, ok := fixed[x.Args[0]]
			if !ok {
				w = !t.e.writtenIn(m, x.Args[0])
				fixed[x.Args[0]] = w
			}
			if w {
				return strip(x)
			}
			return nil
		})
		norms[g] = v
		return v
	}
	var base []*Term
	for _, g := range t.k.In.facts {
		base = append(base, norm(g))
	}
	// conditions decided once in a turn, outside inner loops, that decide others later in it
	inner := map[*Cut]bool{}
	for d := range m {
		if d != t.k && d.Loop {
			for x := range t.e.members(d) {
				inner[x] = true
			}
		}
	}
	byLoad := map[*Term]map[*Cut][]*Term{}
	loads := func(g *Term, f func(x *Term)) {
		g.walk(func(x *Term) bool {
			if x.Op == "load" {
				f(x)
			}
			return true
		})
	}
	for d := range m {
		for _, p := range d.Paths {
			for _, g := range p.Guards {
				loads(g, func(x *Term) {
					if byLoad[x] == nil {
						byLoad[x] = map[*Cut][]*Term{}
					}
					byLoad[x][d] = append(byLoad[x][d], g)
				})
			}
		}
	}
	type decided struct {
		d *Cut
		g *Term
	}
	carries := map[decided]bool{}
	carried := func(d *Cut, g *Term) bool {
		k := decided{d, g}
		if v, ok := carries[k]; ok {
			return v
		}
		carries[k] = false
		if inner[d] {
			return false
		}
		loads(g, func(x *Term) {
			for d2, hs := range byLoad[x] {
				for _, h := range hs {
					if d2 != d && !carries[k] && decide([]*Term{g}, h) >= 0 {
						carries[k] = true
					}
				}
			}
		})
		return carries[k]
	}
	var walk func(d *Cut, ph int, env map[*Term]*Term, before []*Term)
	walk = func(d *Cut, ph int, env map[*Term]*Term, before []*Term) {
		var ids []string
		for _, g := range before {
			ids = append(ids, fmt.Sprint(g.ID))
		}
		for s, v := range env {
			ids = append(ids, fmt.Sprint(s.ID, ":", v.ID))
		}
		sort.Strings(ids)
		s := st{d, ph, strings.Join(ids, " ")}
		if seen[s] {
			return
		}
		seen[s] = true
		for _, p := range d.Paths {
			dead := false
			var gs []*Term
			for _, g := range p.Guards {
				h := g
				if v, ok := env[h]; ok {
					h = v
				} else if h.Op == "not" {
					if v, ok := env[h.Args[0]]; ok {
						h = notT(v)
					}
				}
				dead = dead || val(h, env) == -1 || decide(base, norm(h)) == 0 || len(before) > 0 && decide(before, h) == 0
				gs = append(gs, h)
			}
			for _, g := range p.From.In.facts {
				dead = dead || val(g, env) == -1
			}
			if dead {
				continue
			}
			n, stop := t.step(p, gs, ph, env)
			if stop || p.To == nil || p.To == t.k || !m[p.To] {
				continue
			}
			next := map[*Term]*Term{}
			for s, v := range env {
				if _, ok := p.Phi[s]; !ok {
					next[s] = v
				}
			}
			for sym, v := range p.Phi {
				if !isBool(sym) && (t.track == nil || !t.track(sym)) {
					continue
				}
				if x, ok := env[v]; ok {
					v = x
				}
				if v == sym {
					continue
				}
				if isBool(sym) {
					if r := val(v, env); r == 1 {
						v = boolT(true)
					} else if r == -1 {
						v = boolT(false)
					} else if r := decide(append(append([]*Term(nil), p.From.In.facts...), gs...), v); r == 1 {
						v = boolT(true)
					} else if r == 0 {
						v = boolT(false)
					}
				}
				next[sym] = v
			}
			known := before
			for _, g := range p.Guards {
				if carried(d, g) {
					known = append(known[:len(known):len(known)], g)
				}
			}
			walk(p.To, n, next, known)
		}
	}
	walk(t.k, start, map[*Term]*Term{}, nil)
}

// settled is the one value a variable carried around loops can have, or the variable itself.
func (e *Exec) settled(t *Term) *Term {
	if t.Op == "sym" {
		if vs := e.values(t); len(vs) == 1 {
			return vs[0]
		}
	}
	return t
}

func init() {
	register(&Rule{ID: "C30", Min: 10,
		What: "growforest: every list of out of bag cases handed to VoteCases (and to Grow with -evaloob) is built in the turn of the loop that grows the tree, by a loop over all cases that adds a case exactly when its mark is not set, where the marks are fresh (or wiped) and set for every element of the list the tree is trained on; no run of the turn changes the training cases after the marks are set or reaches the use without the list being built; the tree that votes is the tree grown in that turn and it votes at most once",
		Run:  func(c *Check) { c.outOfBag(); c.voteCases() }})
}
