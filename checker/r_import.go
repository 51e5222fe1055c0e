package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

// ---- C34: importance and minimal depth --------------------------------------------------------------

// meanAdd: the event adds a value to a running total; gives the total and the value.
func meanAdd(ev *Event) (rm, v *Term) {
	if ev.Kind != "call" {
		return nil, nil
	}
	switch {
	case strings.HasSuffix(ev.Name, "RunningMean).Add") && len(ev.Args) == 2:
		return ev.Args[0], ev.Args[1]
	case strings.HasSuffix(ev.Name, "RunningMean).WeightedAdd") && len(ev.Args) == 3:
		if isOne(ev.Args[2]) {
			return ev.Args[0], ev.Args[1]
		}
		return ev.Args[0], nil
	}
	return nil, nil
}

func isMeans(t types.Type) bool {
	return t != nil && strings.HasSuffix(types.TypeString(t, nil), "*[]*"+RepoPath+".RunningMean")
}

// credit: on every path of the step that grows a node the split accepted is credited once.
func (c *Check) credit(name string, e *Exec, imp, used *Term, depth func(*Path, *Event, *Term) bool) {
	key := "importance/" + name
	if imp == nil || used == nil {
		c.bad(key, e.Root.Pos(), "undecided: %s has no importance totals or depths", name)
		return
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		if p.End == "panic" || p.End == "exit" {
			return
		}
		var adds, deps []*Event
		for _, ev := range p.Events {
			if rm, _ := meanAdd(ev); rm != nil {
				adds = append(adds, ev)
			}
			if ev.Kind == "store" {
				if arr, _ := addrElem(ev.Addr); arr != nil && isLoadOf(arr, used) {
					deps = append(deps, ev)
				}
			}
		}
		bs := p.calls("BestSplitter")
		if len(bs) == 0 {
			for _, ev := range append(adds, deps...) {
				c.bad(key, instrPos(ev.In), "a feature is credited although no split was looked for")
			}
			return
		}
		pos := instrPos(bs[0].In)
		c.ob(name, "a split looked for is credited when it is made")
		fi, split, dec := mkExtract(bs[0].Res, "0"), mkExtract(bs[0].Res, "1"), mkExtract(bs[0].Res, "2")
		if len(bs) > 1 {
			c.bad(key, instrPos(bs[1].In), "undecided: two splits are looked for at one node")
			return
		}
		switch {
		case p.holds(isnil(split)):
			for _, ev := range append(adds, deps...) {
				c.bad(key, instrPos(ev.In), "a feature is credited although no split was found")
			}
			return
		case !p.holds(notT(isnil(split))):
			c.bad(key, pos, "undecided: whether a split was found is not tested")
			return
		}
		n++
		if len(adds) == 0 && !p.holds(isnil(imp)) {
			c.bad(key, pos, "a split is made without being credited to its feature")
		}
		if len(adds) > 1 {
			c.bad(key, instrPos(adds[1].In), "a split can be credited twice")
		}
		for _, ev := range adds {
			rm, v := meanAdd(ev)
			arr, i := elem(rm)
			if arr == nil || !isLoadOf(arr, imp) || i != fi {
				c.bad(key, instrPos(ev.In), "the split is credited to %v and not to the feature split on", rm)
			}
			if v != dec {
				c.bad(key, instrPos(ev.In), "the split is credited with %v and not with its decrease in impurity", v)
			}
		}
		// the least depth
		var old *Term
		for _, g := range p.All() {
			g.walk(func(t *Term) bool {
				if arr, i := elem(t); arr != nil && i == fi && isLoadOf(arr, used) {
					old = t
				}
				return true
			})
		}
		if len(deps) > 1 {
			c.bad(key, instrPos(deps[1].In), "undecided: the depth of a split is recorded twice")
		}
		for _, ev := range deps {
			_, i := addrElem(ev.Addr)
			if i != fi {
				c.bad(key, instrPos(ev.In), "the depth is recorded for another feature than the one split on")
			}
			if !depth(p, ev, ev.Val) {
				c.bad(key, instrPos(ev.In), "%v is recorded as the depth of the split", ev.Val)
			}
			ok := false
			for _, o := range elemLoads(p.before(ev), used, fi) {
				ok = ok || p.holdsBefore(ev, ge0(addI(negT(o), -1))) || p.holdsBefore(ev, ge0(subT(o, ev.Val)))
			}
			if !ok {
				c.bad(key, instrPos(ev.In), "the least depth of a feature can be overwritten by a greater one")
			}
		}
		if len(deps) == 0 && !p.holds(isnil(used)) {
			ok := old != nil && p.holds(ge0(old))
			if ok {
				// depth >= old for the depth this step knows
				ok = false
				for _, g := range p.All() {
					if g.Op == "ge0" || g.Op == "not" || g.Op == "eq0" {
						g.walk(func(t *Term) bool {
							if depth(p, nil, t) && p.holds(ge0(subT(t, old))) {
								ok = true
							}
							return true
						})
					}
				}
			}
			if !ok {
				c.bad(key, pos, "a split can be made without its depth being recorded")
			}
		}
	})
	if n == 0 {
		c.bad(key, e.Root.Pos(), "undecided: %s makes no split", name)
	}
}

// elemLoads lists the reads of element i of the list that used points to.
func elemLoads(ts []*Term, used, i *Term) (out []*Term) {
	for _, t := range ts {
		t.walk(func(x *Term) bool {
			if arr, j := elem(x); arr != nil && j == i && isLoadOf(arr, used) {
				out = append(out, x)
			}
			return true
		})
	}
	return
}

// jungleLevel gives the variable that counts the levels of the jungle, when every node is handled in
// the turn of its own level.
func (c *Check) jungleLevel(e *Exec, key string) *Term {
	var level *Term
	e.each(func(cu *Cut, p *Path) {
		_, ent, _ := jungleNode(p)
		if ent == nil || len(p.calls("BestSplitter")) == 0 || level != nil {
			return
		}
		arr, i := elem(ent)
		if arr == nil && ent.Op == "indexaddr" {
			arr, i = ent.Args[0], ent.Args[1]
		}
		if arr == nil {
			return
		}
		k := e.phiCut(i)
		if k == nil {
			return
		}
		for o := e.outer(k); o != nil; o = e.outer(o) {
			enter, back := e.into(o)
			var first, lvl, list *Term
			for s := range o.symbols(e) {
				// the first node of the level
				ok := len(back) > 0
				for _, q := range enter {
					ok = ok && isZero(q.next(s))
				}
				if !ok {
					continue
				}
				one, start := true, true
				for _, q := range back {
					v := e.plain(q.next(s))
					one = one && decideEq(v, addI(s, 1))
					if v.Op == "len" && v.Args[0].Op == "sym" && e.phiCut(v.Args[0]) == o {
						list = v
					} else {
						start = false
					}
				}
				if one {
					lvl = s
				}
				if start && list != nil {
					first = s
				}
			}
			if first == nil || lvl == nil {
				continue
			}
			if e.countsIn(k, i, first, list) != "" {
				continue
			}
			// one node at the start
			for _, q := range enter {
				if v := q.next(list.Args[0]); v == nil || !isOneElem(v) {
					return
				}
			}
			level = lvl
		}
	})
	if level == nil {
		c.bad(key, e.Root.Pos(), "undecided: the nodes of a level are not handled in one turn that counts the levels")
	}
	return level
}

func isOneElem(t *Term) bool {
	if n, ok := lenT(t).intc(); ok {
		return n == 1
	}
	if t.Op == "slice" && t.Args[0].Op == "alloc" && t.Args[0].T != nil {
		if pt, ok := t.Args[0].T.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return at.Len() == 1 && t.Args[1].Op == "none" && t.Args[2].Op == "none"
			}
		}
	}
	return false
}

// freshMeans: NewRunningMeans gives as many totals as asked for, none of them shared.
func (c *Check) freshMeans() {
	c.freshOnes("importance/NewRunningMeans", "NewRunningMeans", "RunningMean", "total", "features")
}

// freshOnes: a function makes as many objects of a type as its parameter says, none of them shared.
func (c *Check) freshOnes(key, name, typ, what, owners string) {
	f := c.fn("", name)
	if f == nil {
		return
	}
	e := c.run(f, "means", Options{})
	if e == nil {
		return
	}
	if len(f.Params) != 1 {
		c.bad(key, f.Pos(), "undecided: %s has other parameters", name)
		return
	}
	n := e.param(0)
	is := func(t *Term) bool { return t == n }
	made := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			var v, i *Term
			switch ev.Kind {
			case "append":
				if len(ev.Args) != 1 {
					continue
				}
				v = ev.Args[0]
			case "store":
				var arr *Term
				if arr, i = addrElem(ev.Addr); arr == nil || arr.Op == "alloc" {
					continue
				}
				v = ev.Val
			default:
				continue
			}
			if v.T == nil || !strings.HasSuffix(types.TypeString(v.T, nil), "."+typ) {
				continue
			}
			made++
			c.ob(name, "every "+what+" is a new one")
			k := e.loopOf(ev)
			own := e.allocIn[v]
			if v.Op != "alloc" || k == nil || own == nil || !e.members(k)[own] {
				c.bad(key, instrPos(ev.In), "two %s can share a %s", owners, what)
				continue
			}
			ok := false
			for s := range k.symbols(e) {
				if e.trips(k, s, is) && (i == nil || e.countsAny(k, i, func(t *Term) bool { return t == n || t.Op == "len" && lenT(t.Args[0]) == n }) == "") {
					ok = true
				}
			}
			here := func(q *Path) int {
				m := 0
				for _, w := range q.Events {
					if w.In == ev.In {
						m++
					}
				}
				return m
			}
			if !ok || !e.everyTurn(k, func(q *Path) bool { return here(q) > 0 }) || !e.oncePerTurn(k, here) {
				c.bad(key, instrPos(ev.In), "there is not one %s for each of the %s", what, owners)
			}
		}
		if p.End == "return" && len(p.Ret) == 1 {
			if p.Ret[0].Op == "nil" {
				c.bad(key, instrPos(p.RetIn), "no %ss are returned", what)
			}
		}
	})
	if made == 0 {
		c.bad(key, f.Pos(), "undecided: no %ss are made", what)
	}
}

// boxed: the term is what the pointer d points to, read through d or a copy of it.
func (e *Exec) boxed(t, d *Term) bool {
	if t == nil || t.Op != "load" {
		return false
	}
	return t.Args[0] == d || e.copyOf(t.Args[0]) == e.copyOf(d)
}

const (
	iGrown = 1 << iota
	iAdded
	iOff
)

// depths: after every tree the least depth of each feature it used is added to the feature's mean, and
// the record is cleared.
func (c *Check) depths(e *Exec) {
	key := "importance/growforest"
	type grower struct {
		k  *Cut
		ev *Event
		p  *Path
	}
	var gs []grower
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			gs = append(gs, grower{e.loopOf(ev), ev, p})
		}
	})
	loops := map[*Cut]*Event{}
	for _, g := range gs {
		if g.k == nil {
			c.bad(key, instrPos(g.ev.In), "undecided: a tree is grown outside of any loop")
			return
		}
		if o := loops[g.k]; o != nil && (!decideEq(o.Args[14], g.ev.Args[14]) && strip(o.Args[14]) != strip(g.ev.Args[14]) || o.Args[15] != g.ev.Args[15]) {
			c.bad(key, instrPos(g.ev.In), "different totals or depths are handed to Grow in one loop")
			return
		}
		loops[g.k] = g.ev
	}
	if len(loops) == 0 {
		c.bad(key, e.Root.Pos(), "undecided: growforest grows no tree")
	}
	for k, ev := range loops {
		c.depthsOf(e, k, ev, key)
	}
}

func (c *Check) depthsOf(e *Exec, k *Cut, grow *Event, key string) {
	pos := instrPos(grow.In)
	m := e.members(k)
	d := grow.Args[15]
	if t := grow.Args[14]; t.Op != "load" || t.Args[0].Op != "alloc" {
		c.bad(key, pos, "undecided: the importance totals handed to Grow are %v", t)
		return
	}
	imp := grow.Args[14].Args[0]
	// the record of the depths
	var box *Term
	for _, v := range e.values(d) {
		switch {
		case v.Op == "nil":
		case v.Op == "alloc" && (box == nil || box == v):
			box = v
		default:
			c.bad(key, pos, "undecided: the depths handed to Grow can be %v", v)
			return
		}
	}
	if box == nil {
		c.bad(key, pos, "Grow is given no record for the depths")
		return
	}
	rec := func(t *Term) bool {
		return t != nil && (e.boxed(t, d) || isLoadOf(t, box) || t.Op == "makeslice" && e.puts(box)[0] == t)
	}
	arrays := e.puts(box)
	if len(arrays) != 1 || arrays[0].Op != "makeslice" {
		c.bad(key, pos, "undecided: the record of the depths can be %v", arrays)
		return
	}
	array := arrays[0]
	nfeat := func(t *Term) bool {
		if t.Op != "len" {
			return t == lenT(array)
		}
		return rec(t.Args[0]) || t.Args[0].Op == "load" && field(t.Args[0], "FeatureMatrix.Data") != nil
	}
	negative := func(t *Term) bool { v, ok := t.intc(); return ok && v < 0 }
	own := e.owner["v:"+array.Ver]
	perTree := own != nil && m[own]
	// the loop that adds
	var add *Cut
	var means *Term
	sums := map[*Event]bool{}
	for cu := range m {
		for _, p := range cu.Paths {
			for _, ev := range p.Events {
				rm, v := meanAdd(ev)
				if rm == nil {
					continue
				}
				c.ob("growforest.main", "the depth of a feature is added to its own mean")
				arr, i := elem(rm)
				if arr == nil || arr.Op != "load" || arr.Args[0].Op != "load" {
					c.bad(key, instrPos(ev.In), "undecided: something is added to %v", rm)
					return
				}
				if i == nil || v == nil {
					c.bad(key, instrPos(ev.In), "undecided: what is added is %v", v)
					return
				}
				if x, j := elem(v); x == nil || !rec(x) || !decideEq(i, j) {
					c.bad(key, instrPos(ev.In), "what is added to the mean of feature %v is %v and not its least depth", i, v)
					return
				}
				f := e.phiCut(anySym(i))
				if f == nil || f == k || !m[f] || add != nil && add != f || means != nil && means != arr.Args[0].Args[0] {
					c.bad(key, instrPos(ev.In), "undecided: the depths are not added in one loop over the features")
					return
				}
				add, means = f, arr.Args[0].Args[0]
				sums[ev] = true
				if means == imp {
					c.bad(key, instrPos(ev.In), "depths are added to the importance totals")
				}
				if !p.holdsBefore(ev, ge0(v)) {
					c.bad(key, instrPos(ev.In), "a depth can be added for a feature the tree did not use")
				}
				if w := e.countsAny(f, i, nfeat); w != "" {
					c.bad(key, instrPos(ev.In), "not every feature's depth is looked at: %s", w)
				}
				cleared := false
				for _, w := range p.Events {
					if w.Kind == "store" {
						if x, j := addrElem(w.Addr); x != nil && rec(x) && decideEq(i, j) && negative(w.Val) && before(p, ev, w) {
							cleared = true
						}
					}
				}
				if !cleared && !perTree {
					c.bad(key, instrPos(ev.In), "the depth of a tree is still there for the next")
				}
				if !e.everyTurn(f, func(q *Path) bool {
					for _, w := range q.Events {
						if sums[w] || w.In == ev.In {
							return true
						}
					}
					for _, g := range q.All() {
						hit := false
						g.walk(func(t *Term) bool {
							if x, j := elem(t); x != nil && rec(x) && decideEq(i, j) && q.holds(ge0(addI(negT(t), -1))) {
								hit = true
							}
							return true
						})
						if hit {
							return true
						}
					}
					return false
				}) {
					c.bad(key, instrPos(ev.In), "the depth of a feature the tree used can be left out")
				}
				if !e.oncePerTurn(f, func(q *Path) int {
					n := 0
					for _, w := range q.Events {
						if rm, _ := meanAdd(w); rm != nil {
							n++
						}
					}
					return n
				}) {
					c.bad(key, instrPos(ev.In), "a depth can be added twice")
				}
			}
		}
	}
	if add == nil {
		c.bad(key, pos, "the depths of a tree are never added to the means")
		return
	}
	// nothing else writes the record; it starts out with no feature used
	var fill *Cut
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			arr, i := addrElem(ev.Addr)
			if arr == nil || !(rec(arr) || e.settled(arr) == array) {
				continue
			}
			c.ob("growforest.main", "the record of the depths is only cleared")
			if !negative(ev.Val) {
				c.bad(key, instrPos(ev.In), "%v is stored as the depth of an unused feature", ev.Val)
				continue
			}
			f := e.phiCut(anySym(i))
			if f == nil || f == add {
				continue
			}
			here := func(q *Path) bool {
				for _, w := range q.Events {
					if w.In == ev.In {
						return true
					}
				}
				return false
			}
			if e.countsAny(f, i, func(t *Term) bool {
				return nfeat(t) || t.Op == "len" && e.settled(t.Args[0]) == array
			}) == "" && e.everyTurn(f, here) {
				fill = f
			}
		}
	})
	if fill == nil {
		c.bad(key, pos, "the record of the depths does not start out with no feature used")
		return
	}
	fm := e.members(fill)
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == box && p.To != nil {
				if q := e.reachesFrom(p.To, func(q *Path) bool { return fm[q.From] && !fm[q.To] }, func(q *Path) bool {
					for _, g := range q.grows() {
						if g.In == grow.In || e.loopOf(g) == k {
							return true
						}
					}
					return false
				}); q != nil {
					c.bad(key, instrPos(ev.In), "a tree can be grown before the record of the depths is filled")
				}
			}
		}
	})
	// once per tree, after it is grown
	am := e.members(add)
	said := map[string]bool{}
	say := func(s string) {
		if !said[s] {
			said[s] = true
			c.bad(key, pos, "%s", s)
		}
	}
	turned := 0
	t := &turns{e: e, k: k}
	t.step = func(p *Path, gs []*Term, ph int, env map[*Term]*Term) (int, bool) {
		for _, g := range gs {
			if g.Op == "isnil" && isLoadOf(g.Args[0], means) {
				ph |= iOff
			}
		}
		if len(p.grows()) > 0 {
			ph |= iGrown
		}
		if p.To == add && !am[p.From] {
			if ph&iAdded != 0 {
				say("the depths of a tree can be added twice")
			}
			if ph&iGrown == 0 {
				say("the depths are added before the tree is grown")
			}
			ph |= iAdded
		}
		end := p.To == k || p.To == nil || !m[p.To]
		if end && !(p.To == nil && p.End != "return") {
			turned++
			if ph&iGrown != 0 && ph&(iAdded|iOff) == 0 {
				say("the depths of a tree can be left out")
			}
		}
		return ph, end
	}
	t.from(0)
	if turned == 0 {
		c.bad(key, pos, "undecided: no turn of the loop that grows trees was seen")
	}
	c.reported(e, imp, means, key)
}

// reported: the importance file gives each feature its own totals.
func (c *Check) reported(e *Exec, imp, means *Term, key string) {
	trees := e.flag("nTrees")
	total := func(t *Term) (cell, i *Term) { // of the result of Read
		a := isCall(t, "Read")
		if a == nil {
			return nil, nil
		}
		arr, i := elem(a[0])
		if arr == nil || arr.Op != "load" || arr.Args[0].Op != "load" {
			return nil, nil
		}
		return arr.Args[0].Args[0], i
	}
	data := func(t *Term) bool { return field(t, "FeatureMatrix.Data") != nil }
	lines, tests, recorded := 0, 0, 0
	var allTests []*Event
	// the number of features was read before the contrasts were added
	var contrast []*Event
	var all []*Event
	e.each(func(cu *Cut, p *Path) { all = append(all, p.calls("ContrastAll")...) })
	for _, x := range all {
		last := true
		for _, y := range all {
			last = last && (x.In == y.In || !follows(x.In, x.Ctx, y.In, y.Ctx))
		}
		if last {
			contrast = append(contrast, x)
		}
	}
	late := func(l *Term) bool {
		for in, ctx := range e.reads[l.Args[0]] {
			ok := true
			for _, ev := range contrast {
				ok = ok && !follows(ev.In, ev.Ctx, in, ctx)
			}
			if ok {
				return false
			}
		}
		return true
	}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "Ttest") && len(ev.Args) == 2 {
				c.ob("growforest.main", "a feature is compared with its own contrast")
				a, i := addrElem(ev.Args[0])
				b, j := addrElem(ev.Args[1])
				allTests = append(allTests, ev)
				tests++
				if a == nil || a != b {
					c.bad(key, instrPos(ev.In), "the importances of different records are compared")
					continue
				}
				off := subT(j, i)
				if off.Op != "len" || !data(off.Args[0]) || late(off) {
					c.bad(key, instrPos(ev.In), "a feature's importance is not compared with that of its own contrast")
				}
			}
			if ev.Kind == "store" {
				// recording the totals of a forest
				var r *Term
				if ev.Val != nil {
					ev.Val.walk(func(t *Term) bool {
						if cell, _ := total(t); cell == imp {
							r = t
						}
						return true
					})
				}
				if r == nil {
					continue
				}
				arr, f := addrElem(ev.Addr)
				var i *Term
				if arr != nil {
					arr, i = elem(arr)
				}
				if arr == nil {
					continue
				}
				recorded++
				c.ob("growforest.main", "a forest's importance is recorded for its feature")
				_, ri := total(r)
				if !decideEq(i, ri) {
					c.bad(key, instrPos(ev.In), "the importance of one feature is recorded for another")
				}
				if !c.perTree(p, ev.Val, r, trees) {
					c.bad(key, instrPos(ev.In), "%v is recorded and not the total importance over the number of trees", ev.Val)
				}
				if !c.forestNow(e, f) {
					c.bad(key, instrPos(ev.In), "the importance is recorded for %v and not for the forest just grown", f)
				}
				k := e.loopOf(ev)
				if k == nil || e.countsAny(k, i, func(t *Term) bool {
					return t.Op == "len" && (data(t.Args[0]) && (len(contrast) == 0 || late(t)) || e.elemsOf(t.Args[0], imp))
				}) != "" || !e.everyTurn(k, func(q *Path) bool { return q == p }) {
					c.bad(key, instrPos(ev.In), "the importance of some feature or contrast can be left out")
					continue
				}
				// the next forest starts anew
				km := e.members(k)
				for _, q := range e.leaving(k) {
					if q.To == nil {
						continue
					}
					anew := func(q *Path) bool {
						for _, w := range q.Events {
							if w.Kind == "store" && w.Addr == imp && isCall(w.Val, "NewRunningMeans") != nil {
								return true
							}
						}
						return false
					}
					if !anew(q) && e.reachesFrom(q.To, anew, func(q *Path) bool { return len(q.grows()) > 0 && !anew(q) }) != nil {
						c.bad(key, instrPos(ev.In), "the importance of one forest is still there for the next")
					}
				}
				_ = km
			}
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "fmt.Fprint") {
				c.reportLine(e, p, ev, total, imp, means, trees, &lines, key)
			}
		}
	})
	if lines == 0 {
		c.bad(key, e.Root.Pos(), "undecided: the importance totals are never reported")
	}
	if tests == 0 || recorded == 0 {
		c.bad(key, e.Root.Pos(), "undecided: the importances of features and contrasts are never recorded and compared")
	}
}

// elemsOf: t is the list the variable points to.
func (e *Exec) elemsOf(t, cell *Term) bool {
	return t.Op == "load" && isLoadOf(t.Args[0], cell)
}

// perTree: v is mean times count over the number of trees.
func (c *Check) perTree(p *Path, v, r, trees *Term) bool {
	mean, count := mkExtract(r, "0"), mkExtract(r, "1")
	for _, n := range loadsOf([]*Term{v}, trees) {
		if v == divT(mulT(mean, count), n) {
			return true
		}
	}
	return false
}

// forestNow: the term is the number of the forest at hand.
func (c *Check) forestNow(e *Exec, f *Term) bool {
	for v := range e.forestVars() {
		if v.Op != "alloc" && f.Op == "load" && e.copyOf(f.Args[0]) == e.copyOf(v) || isLoadOf(f, v) || f == v {
			return true
		}
		if f.Op == "load" && e.copyOf(f.Args[0]) == e.copyOf(v) {
			return true
		}
	}
	return false
}

func (c *Check) reportLine(e *Exec, p *Path, ev *Event, total func(*Term) (*Term, *Term), imp, means, trees *Term, lines *int, key string) {
	var args []*Term
	for _, a := range ev.Args {
		if a.Op == "list" {
			args = append(args, a.Args...)
		}
	}
	var r, d *Term
	for _, a := range args {
		a.walk(func(t *Term) bool {
			switch cell, _ := total(t); {
			case cell == nil:
			case cell == imp:
				r = t
			case cell == means:
				d = t
			}
			return true
		})
	}
	if r == nil && d == nil {
		return
	}
	*lines++
	c.ob("growforest.main", "a line of the importance file")
	if r == nil || d == nil {
		c.bad(key, instrPos(ev.In), "undecided: a line has no importance or no depth")
		return
	}
	_, i := total(r)
	_, j := total(d)
	if !decideEq(i, j) {
		c.bad(key, instrPos(ev.In), "the importance of one feature and the depth of another are reported together")
	}
	mean, count, depth, used := mkExtract(r, "0"), mkExtract(r, "1"), mkExtract(d, "0"), mkExtract(d, "1")
	var got []*Term
	named := false
	for _, a := range args {
		a = unwrapped(a)
		if x := isCall(a, "GetName"); x != nil {
			arr, n := elem(x[0])
			if arr == nil || field(arr, "FeatureMatrix.Data") == nil || !decideEq(n, i) {
				c.bad(key, instrPos(ev.In), "the importance of one feature is reported under the name of another")
			}
			named = true
			continue
		}
		if _, ok := a.str(); ok {
			continue
		}
		got = append(got, a)
	}
	if !named {
		c.bad(key, instrPos(ev.In), "a line of the importance file names no feature")
	}
	ok := len(got) == 6 && got[0] == mean && got[1] == count && c.perTree(p, got[2], r, trees) && got[3] == divT(mulT(mean, count), used) && got[4] == used && got[5] == depth
	if !ok {
		c.bad(key, instrPos(ev.In), "a line of the importance file must give mean, count, total per tree, total per tree that used the feature, number of such trees and mean least depth, and not %v", got)
	}
	k := e.loopOf(ev)
	if k == nil || e.countsAny(k, i, func(t *Term) bool {
		return t.Op == "len" && (e.elemsOf(t.Args[0], imp) || e.elemsOf(t.Args[0], means) || field(t.Args[0], "FeatureMatrix.Data") != nil)
	}) != "" || !e.everyTurn(k, func(q *Path) bool {
		for _, o := range q.Events {
			if o.In == ev.In && o.Kind == ev.Kind {
				return true
			}
		}
		return false
	}) {
		c.bad(key, instrPos(ev.In), "a feature can be missing from the importance file")
	}
}

func (c *Check) importance() {
	if g := c.growClosure(); g != nil {
		imp, used := g.outer.param(14), g.outer.param(15)
		c.credit("Tree.Grow", g.e, imp, used, func(p *Path, ev *Event, t *Term) bool { return t == g.depth })
	}
	if e := c.growJungle(); e != nil {
		if level := c.jungleLevel(e, "importance/Tree.GrowJungle"); level != nil {
			c.credit("Tree.GrowJungle", e, e.param(14), e.param(15), func(p *Path, ev *Event, t *Term) bool { return e.plain(t) == level })
		}
	}
	c.freshMeans()
	if e := c.command("growforest"); e != nil {
		c.depths(e)
	}
	c.forestCredit()
}

func init() {
	register(&Rule{ID: "C34", Min: 10,
		What: "on every path of the step that grows a node (Tree.Grow's visitor, Tree.GrowJungle) on which the split found is used exactly one RunningMean.Add is made, of the returned decrease, to the importance entry of the returned feature (none only when there are no totals), the depth of the node is stored for that feature only when the old entry is unset or not smaller, and left alone only when it is not greater; paths without a split credit nothing; the jungle's depth counts the turns of the loop over levels; NewRunningMeans makes one new total per element; growforest hands totals and depths to Grow, adds in one loop over all features, once per tree and after it is grown, exactly the depths known to be set to the mean of the same feature, and the record is cleared and starts out unset; the importance file and the ACE records give every feature its own totals, and features are compared with their own contrasts",
		Run:  func(c *Check) { c.importance() }})
}

// follows: b can be executed after a in a run of the function they were reached from.
func follows(a ssa.Instruction, ca *Ctx, b ssa.Instruction, cb *Ctx) bool {
	var up func(in ssa.Instruction, c *Ctx) (out []ssa.Instruction)
	up = func(in ssa.Instruction, c *Ctx) (out []ssa.Instruction) {
		for {
			out = append([]ssa.Instruction{in}, out...)
			if c == nil || c.site == nil {
				return
			}
			in, c = c.site, c.parent
		}
	}
	as, bs := up(a, ca), up(b, cb)
	for i := 0; i < len(as) && i < len(bs); i++ {
		x, y := as[i], bs[i]
		if x == y {
			continue
		}
		if x.Parent() != y.Parent() {
			return true
		}
		if x.Block() == y.Block() {
			for _, in := range x.Block().Instrs {
				if in == x {
					return true
				}
				if in == y {
					break
				}
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock) bool
		walk = func(b *ssa.BasicBlock) bool {
			for _, s := range b.Succs {
				if s == y.Block() {
					return true
				}
				if !seen[s] {
					seen[s] = true
					if walk(s) {
						return true
					}
				}
			}
			return false
		}
		return walk(x.Block())
	}
	return true
}

// forestCredit: the library's forest grower credits the totals it is given.
func (c *Check) forestCredit() {
	f := c.fn("", "GrowRandomForest")
	if f == nil {
		return
	}
	e := c.run(f, "cases", Options{Opaque: opaque("Tree.Grow", "Tree.GrowJungle")})
	if e == nil {
		return
	}
	imp := e.param(len(f.Params) - 1)
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			n++
			c.ob("GrowRandomForest", "trees credit the totals given")
			if len(ev.Args) < 15 || ev.Args[14] != imp {
				c.bad("importance/GrowRandomForest", instrPos(ev.In), "a tree does not credit the importance totals given")
			}
		}
	})
	if n == 0 {
		c.bad("importance/GrowRandomForest", f.Pos(), "undecided: no tree is grown")
	}
}
