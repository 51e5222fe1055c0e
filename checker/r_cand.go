package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C24: the target and excluded features are never predictors --------------------------------

// dataOf matches fm.Data, columns an element of it.
func dataOf(t, fm *Term) bool { o := field(t, "FeatureMatrix.Data"); return o != nil && o == fm }

type candidates struct {
	c      *Check
	e      *Exec
	fm     *Term
	target func(t *Term) bool // the index of the target
	list   *gathered
	excl   map[*Term]bool // variables and arrays of the exclusion list
	made   *Term          // the array it starts as
}

// isExcl: an expression for the exclusion list.
func (x *candidates) isExcl(arr *Term) bool {
	if arr == nil {
		return false
	}
	if x.excl[arr] {
		return true
	}
	return arr.Op == "load" && x.excl[arr.Args[0]]
}

// excluded: what is known about entry i of the exclusion list: 1 set, 0 clear, -1 unknown.
func (x *candidates) excluded(facts []*Term, i *Term) int {
	for _, g := range facts {
		t, v := g, 1
		if g.Op == "not" {
			t, v = g.Args[0], 0
		}
		if a, j := elem(t); x.isExcl(a) && (j == i || decide(facts, eq0(subT(i, j))) == 1) {
			return v
		}
	}
	return -1
}

func (c *Check) candidateSets() {
	e := c.command("growforest")
	if e == nil {
		return
	}
	pos := e.Root.Pos()
	tf := e.flag("target")
	if tf == nil {
		c.bad("candidates/flag", pos, "undecided: growforest has no -target flag")
		return
	}
	n := 0
	seen := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			n++
			fm, list := ev.Args[1], ev.Args[4]
			if seen[list] {
				c.ob("growforest.main", "candidates of a call that grows a tree")
				continue
			}
			seen[list] = true
			x := &candidates{c: c, e: e, fm: fm, excl: map[*Term]bool{}}
			x.target = func(t *Term) bool {
				return t != nil && t.Op == "lookup" && field(t.Args[0], "FeatureMatrix.Map") == fm && isLoadOf(t.Args[1], tf)
			}
			x.list = e.gather(list)
			c.ob("growforest.main", "candidates of a call that grows a tree")
			x.check(p, ev)
		}
	})
	if n == 0 {
		c.bad("candidates/none", pos, "undecided: growforest calls neither Grow nor GrowJungle")
	}
}

// targetIndex finds the term for the target's index used on a path.
func (x *candidates) targetIndex() (out []*Term) {
	seen := map[*Term]bool{}
	x.e.each(func(cu *Cut, p *Path) {
		for _, g := range p.All() {
			g.walk(func(y *Term) bool {
				if !seen[y] && x.target(y) {
					seen[y] = true
					out = append(out, y)
				}
				return true
			})
		}
	})
	return
}

func (x *candidates) check(gp *Path, gev *Event) {
	c, e := x.c, x.e
	key := "candidates/growforest"
	at := instrPos(gev.In)
	if len(x.list.other) > 0 || len(x.list.calls) > 0 {
		c.bad(key, at, "undecided: the candidates passed to %s can be %v", gev.Name, x.list.other)
		return
	}
	if len(x.list.appends) == 0 {
		c.bad(key, at, "the candidates passed to %s are never filled", gev.Name)
		return
	}
	tis := x.targetIndex()
	isTarget := func(facts []*Term, i *Term) int {
		for _, t := range tis {
			if r := decide(facts, eq0(subT(i, t))); r >= 0 {
				return r
			}
		}
		return -1
	}
	// the exclusion list is the boolean array the appends depend on
	for _, s := range x.list.appends {
		for _, el := range s.elems {
			for _, g := range s.p.before(s.ev) {
				if g.Op != "not" {
					continue
				}
				if a, j := elem(g.Args[0]); a != nil && j == el {
					if a.Op == "load" && a.Args[0].Op == "alloc" {
						x.excl[a.Args[0]] = true
					} else {
						x.excl[a] = true
					}
				}
			}
		}
	}
	if len(x.excl) == 0 {
		c.bad(key, instrPos(x.list.appends[0].ev.In), "features are offered as candidates without a look at the excluded ones")
		return
	}
	// every append adds one index that is neither the target nor excluded
	for _, s := range x.list.appends {
		c.ob("growforest.main", "each candidate is neither the target nor excluded")
		if len(s.elems) != 1 || s.all {
			c.bad(key, instrPos(s.ev.In), "more than one candidate is added at a time")
			continue
		}
		facts := s.p.before(s.ev)
		if isTarget(facts, s.elems[0]) != 0 {
			c.bad(key, instrPos(s.ev.In), "candidate %v can be the target", s.elems[0])
		}
		if x.excluded(facts, s.elems[0]) != 0 {
			c.bad(key, instrPos(s.ev.In), "candidate %v can be an excluded feature", s.elems[0])
		}
	}
	// and every other feature is added, once
	isLen := func(t *Term) bool { return t.Op == "len" && dataOf(t.Args[0], x.fm) }
	full := false
	why := "no loop adds them"
	for _, s := range x.list.appends {
		if len(s.elems) != 1 {
			continue
		}
		for _, k := range e.loopCuts() {
			if !e.members(k)[s.p.From] {
				continue
			}
			idx := s.elems[0]
			now := k.In.ver["F:FeatureMatrix.Data"]
			if w := e.countsAny(k, idx, func(t *Term) bool {
				// the exclusion list has an entry for every feature, see exclusions
				return isLen(t) && t.Args[0].Ver == now || t.Op == "len" && x.isExcl(t.Args[0])
			}); w != "" {
				why = w
				continue
			}
			added := func(q *Path) int {
				n := 0
				for _, ev := range q.Events {
					if ev.Kind == "append" && x.list.values[ev.Val] {
						n++
					}
				}
				return n
			}
			if !e.oncePerTurn(k, added) {
				c.bad(key, instrPos(s.ev.In), "a feature can be added to the candidates twice")
			}
			if !e.everyTurn(k, func(q *Path) bool {
				return added(q) > 0 || isTarget(q.All(), idx) == 1 || x.excluded(q.All(), idx) == 1
			}) {
				why = "a feature that is neither the target nor excluded can be left out"
				continue
			}
			full = true
		}
	}
	c.ob("growforest.main", "every feature that is not excluded is a candidate")
	if !full {
		c.bad(key, at, "not all features of the matrix are considered: %s", why)
	}
	x.exclusions(tis)
}

// exclusions decides what ends up in the exclusion list.
func (x *candidates) exclusions(tis []*Term) {
	c, e := x.c, x.e
	key := "candidates/exclusion"
	// the arrays kept in the variable
	var inits []*Term
	grow := map[*Event]*Path{}
	var kept []*Term
	for a := range x.excl {
		kept = append(kept, a)
	}
	for _, a := range kept {
		if a.Op != "alloc" {
			if a.Op != "makeslice" {
				c.bad(key, e.Root.Pos(), "undecided: the excluded features are kept in %v", a)
				return
			}
			inits = append(inits, a)
			continue
		}
		g := e.gather(mk("load", "", a))
		for _, o := range g.other {
			if o.Op == "makeslice" {
				inits = append(inits, o)
				x.excl[o] = true
				continue
			}
			c.bad(key, e.Root.Pos(), "undecided: the list of excluded features can be %v", o)
		}
		for _, s := range g.appends {
			grow[s.ev] = s.p
			x.excl[s.ev.Val] = true
		}
		if g.empty > 0 || len(g.calls) > 0 {
			c.bad(key, e.Root.Pos(), "undecided: the list of excluded features is made elsewhere")
		}
	}
	if len(inits) != 1 || !(lenT(inits[0]).Op == "len" && dataOf(lenT(inits[0]).Args[0], x.fm)) {
		c.bad(key, e.Root.Pos(), "undecided: the list of excluded features does not start with one entry per feature of the matrix")
		return
	}
	x.made = inits[0]
	nAll := lenT(x.made)
	ace := e.flag("ace")
	asked := func(facts []*Term) bool {
		for _, g := range facts {
			ok := false
			g.walk(func(y *Term) bool {
				if isLoadOf(y, ace) && decide(facts, ge0(addI(y, -1))) == 1 {
					ok = true
				}
				return true
			})
			if ok {
				return true
			}
		}
		return false
	}
	// why a feature may be excluded on a path
	block, include, black := e.flag("blockRE"), e.flag("includeRE"), e.flag("blacklist")
	match := func(facts []*Term, flag, i *Term) int {
		for _, g := range facts {
			t, v := g, 1
			if g.Op == "not" {
				t, v = g.Args[0], 0
			}
			a := isCall(t, "MatchString")
			if a == nil || len(a) != 2 || !a[0].contains(func(y *Term) bool { return isLoadOf(y, flag) }) {
				continue
			}
			if n := isCall(a[1], "GetName"); n != nil {
				if arr, j := elem(n[0]); arr != nil && dataOf(arr, x.fm) && (j == i || decide(facts, eq0(subT(i, j))) == 1) {
					return v
				}
			}
		}
		return -1
	}
	// i is the index of the feature a line of the blacklist names
	named := func(i *Term) bool {
		if i == nil || i.Op != "lookup" || field(i.Args[0], "FeatureMatrix.Map") != x.fm {
			return false
		}
		return x.listed(i.Args[1], black)
	}
	sets := map[*Path][]*Event{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			arr, i := addrElem(ev.Addr)
			if !x.isExcl(arr) {
				continue
			}
			facts := p.before(ev)
			c.ob("growforest.main", "a change to the exclusion list")
			if !ev.Val.isTrue() {
				// may clear
				known := x.excluded(facts, i)
				if known != 0 {
					c.bad(key, instrPos(ev.In), "an excluded feature can be let in again")
				}
			}
			if !ev.Val.isFalse() {
				sets[p] = append(sets[p], ev)
				if !(named(i) || match(facts, block, i) == 1 || match(facts, include, i) == 0 || asked(facts)) {
					c.bad(key, instrPos(ev.In), "feature %v is excluded although nothing asks for it", i)
				}
			}
		}
	})
	set := func(p *Path, i *Term) bool {
		if x.excluded(p.All(), i) == 1 {
			return true
		}
		for _, ev := range sets[p] {
			if _, j := addrElem(ev.Addr); j == i && ev.Val.isTrue() {
				return true
			}
		}
		return false
	}
	target := func(p *Path, i *Term) bool {
		for _, t := range tis {
			if p.holds(eq0(subT(i, t))) {
				return true
			}
		}
		return false
	}
	goal := func(p *Path) bool { return len(p.grows()) > 0 }
	must := func(flag *Term, what string, k *Cut) {
		c.ob("growforest.main", what)
		if flag == nil {
			c.bad(key, e.Root.Pos(), "undecided: %s: the flag is gone", what)
			return
		}
		if k == nil {
			c.bad(key, e.Root.Pos(), "%s: no loop does it for every one", what)
			return
		}
		if q := e.reaches(func(p *Path) bool { return p.To == k || p.flagEmpty(flag) }, goal); q != nil {
			c.bad(key, blockPos(k.B), "%s: trees can be grown without it although it was asked for", what)
		}
	}
	isLen := func(t *Term) bool { return t.Op == "len" && dataOf(t.Args[0], x.fm) }
	for _, r := range []struct {
		flag  *Term
		v     int
		wrong int
		what  string
	}{{block, 1, 0, "features matching -blockRE are excluded"}, {include, 0, 1, "features not matching -includeRE are excluded"}} {
		var loop *Cut
		for _, k := range e.loopCuts() {
			for _, idx := range x.matched(k, r.flag) {
				if e.countsAny(k, idx, isLen) != "" {
					continue
				}
				if e.everyTurn(k, func(q *Path) bool {
					return set(q, idx) || target(q, idx) || match(q.All(), r.flag, idx) == r.wrong
				}) {
					loop = k
				}
			}
		}
		must(r.flag, r.what, loop)
	}
	// the file
	var file *Cut
	for _, k := range e.loopCuts() {
		m := e.members(k)
		var read *Term
		for d := range m {
			for _, p := range d.Paths {
				for _, ev := range p.calls("Read") {
					if x.listed(mk("load", "", indexAddr(mk("extract", "0", ev.Res), intT(0), nil)), black) {
						read = ev.Res
					}
				}
			}
		}
		if read == nil {
			continue
		}
		ok := e.everyTurn(k, func(q *Path) bool {
			for _, ev := range sets[q] {
				if _, j := addrElem(ev.Addr); named(j) && ev.Val.isTrue() {
					return true
				}
			}
			for _, g := range q.All() {
				if a, j := elem(g); x.isExcl(a) && named(j) {
					return true
				}
				if g.Op == "not" && g.Args[0].Op == "haskey" && field(g.Args[0].Args[0], "FeatureMatrix.Map") == x.fm && x.listed(g.Args[0].Args[1], black) {
					return true
				}
			}
			return false
		})
		for _, q := range e.leaving(k) {
			if q.End == "exit" || q.End == "panic" {
				continue
			}
			eof := false
			for _, g := range q.All() {
				if g.Op != "not" && g.contains(func(y *Term) bool { return y.Op == "extract" && y.S == "1" && y.Args[0] == read }) && g.contains(func(y *Term) bool { return y.Op == "global" && strings.HasSuffix(y.S, "io.EOF") }) {
					eof = true
				}
			}
			if !eof {
				ok = false
			}
		}
		if ok {
			file = k
		}
	}
	must(black, "the features listed in -blacklist are excluded", file)
	x.contrasts(tis, nAll, grow, sets)
}

// listed: the text is the first field of a line read from the file named by the flag.
func (x *candidates) listed(t, flag *Term) bool {
	a, i := elem(t)
	if a == nil || !isZero(i) || a.Op != "extract" || a.S != "0" {
		return false
	}
	r := isCall(a.Args[0], "Read")
	return r != nil && r[0].contains(func(y *Term) bool { return isLoadOf(y, flag) })
}

// matched lists the indexes of the features whose names are matched with a flag's expression in loop k.
func (x *candidates) matched(k *Cut, flag *Term) (out []*Term) {
	seen := map[*Term]bool{}
	for d := range x.e.members(k) {
		for _, p := range d.Paths {
			for _, ev := range p.calls("MatchString") {
				if len(ev.Args) != 2 || !ev.Args[0].contains(func(y *Term) bool { return isLoadOf(y, flag) }) {
					continue
				}
				if n := isCall(ev.Args[1], "GetName"); n != nil {
					if arr, j := elem(n[0]); dataOf(arr, x.fm) && !seen[j] {
						seen[j] = true
						out = append(out, j)
					}
				}
			}
		}
	}
	return
}

// contrasts: shuffled copies added once exclusions are known are excluded like their originals, the
// target's too.
func (x *candidates) contrasts(tis []*Term, n *Term, grow map[*Event]*Path, sets map[*Path][]*Event) {
	c, e := x.c, x.e
	key := "candidates/contrasts"
	var made *Path
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Val == x.made {
				made = p
			}
		}
	})
	goal := func(p *Path) bool { return len(p.grows()) > 0 }
	type site struct {
		p  *Path
		ev *Event
	}
	var adds []site
	adders := map[string]bool{"ContrastAll": true, "AddContrasts": true}
	start := e.Entry
	if made != nil && made.To != nil {
		start = made.To
	}
	e.reachesFrom(start, nil, func(p *Path) bool {
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Fn != nil && len(ev.Args) > 0 && ev.Args[0] == x.fm && (adders[ev.Fn.Name()] || c.P.Effects(ev.Fn)["F:FeatureMatrix.Data"]) {
				adds = append(adds, site{p, ev})
			}
		}
		return false
	})
	for _, s := range adds {
		c.ob("growforest.main", "contrasts added after the exclusions: "+s.ev.Fn.Name())
		if s.ev.Fn.Name() != "ContrastAll" {
			c.bad(key, instrPos(s.ev.In), "undecided: %s adds features once the exclusions are known", s.ev.Fn.Name())
			continue
		}
		// a loop that appends entry i for each i in turn
		var loop *Cut
		whole := map[*Event]bool{}
		for ev := range grow {
			// the list appended to itself
			if len(ev.Args) == 1 && ev.Val.Op == "appendall" && ev.Args[0] == ev.Addr && x.isExcl(ev.Addr) {
				whole[ev] = true
			}
		}
		for _, k := range e.loopCuts() {
			m := e.members(k)
			for ev, p := range grow {
				if !m[p.From] || len(ev.Args) != 1 {
					continue
				}
				a, i := elem(ev.Args[0])
				if !x.isExcl(a) || e.counts(k, i, n) != "" || !e.ascends(k, i) {
					continue
				}
				has := func(q *Path) int {
					n := 0
					for _, w := range q.Events {
						if w.Kind == "append" && x.isExcl(w.Addr) {
							n++
						}
					}
					return n
				}
				if e.everyTurn(k, func(q *Path) bool { return has(q) == 1 }) && e.oncePerTurn(k, has) {
					loop = k
				}
			}
		}
		own := map[*Event]bool{}
		for _, evs := range sets {
			for _, ev := range evs {
				_, j := addrElem(ev.Addr)
				for _, t := range tis {
					if ev.Val.isTrue() && decideEq(j, addT(t, n)) {
						own[ev] = true
					}
				}
			}
		}
		doubled := func(p *Path) bool { return p.To == loop && loop != nil || p.does(whole) }
		if loop == nil && len(whole) == 0 {
			c.bad(key, instrPos(s.ev.In), "the contrasts of excluded features are not excluded with them")
		} else if s.p.To != nil && !doubled(s.p) && e.reachesFrom(s.p.To, doubled, goal) != nil {
			c.bad(key, instrPos(s.ev.In), "trees can be grown with contrasts whose exclusion was not decided")
		}
		if len(own) == 0 {
			c.bad(key, instrPos(s.ev.In), "the shuffled copy of the target is not excluded")
		} else if done := func(p *Path) bool { return p.does(own) }; s.p.To != nil && !done(s.p) && e.reachesFrom(s.p.To, done, goal) != nil {
			c.bad(key, instrPos(s.ev.In), "trees can be grown with the shuffled copy of the target as a candidate")
		}
	}
	if len(adds) > 0 {
		c.contrastAll()
	}
}

func decideEq(a, b *Term) bool { return a == b || isZero(subT(a, b)) }

// contrastAll: the contrast of feature i is put at i plus the number of features.
func (c *Check) contrastAll() {
	f := c.method("FeatureMatrix", "ContrastAll")
	e := c.run(f, "contrasts", Options{Opaque: func(g *ssa.Function) bool { return g.Name() == "ShuffledCopy" }})
	if e == nil {
		return
	}
	fm := e.param(0)
	key := "candidates/ContrastAll"
	c.ob("FeatureMatrix.ContrastAll", "appends the contrast of each feature in order")
	isData := func(t *Term) bool { return dataOf(t, fm) }
	n := 0
	for _, k := range e.loopCuts() {
		m := e.members(k)
		for d := range m {
			for _, p := range d.Paths {
				for _, ev := range p.Events {
					if ev.Kind != "append" || !isData(ev.Addr) {
						continue
					}
					n++
					ok := false
					if len(ev.Args) == 1 {
						if a := isCall(ev.Args[0], "ShuffledCopy"); a != nil {
							if arr, i := elem(a[0]); isData(arr) {
								ok = e.countsAny(k, i, func(t *Term) bool { return t.Op == "len" && isData(t.Args[0]) && t.Args[0].Ver == e.dataVer(fm) }) == "" && e.ascends(k, i)
							}
						}
					}
					has := func(q *Path) int {
						n := 0
						for _, w := range q.Events {
							if w.Kind == "append" && isData(w.Addr) {
								n++
							}
						}
						return n
					}
					if !ok || !e.oncePerTurn(k, has) || !e.everyTurn(k, func(q *Path) bool { return has(q) == 1 }) {
						c.bad(key, instrPos(ev.In), "ContrastAll must append one contrast of each feature, in the order of the features")
					}
				}
			}
		}
	}
	if n == 0 {
		c.bad(key, f.Pos(), "ContrastAll adds nothing")
	}
}

// dataVer is the version of fm.Data on entry.
func (e *Exec) dataVer(fm *Term) string {
	v := ""
	if e.Entry != nil {
		v = e.Entry.In.ver["F:FeatureMatrix.Data"]
	}
	return v
}

// ---- the search picks among its candidates ------------------------------------------------------

func (c *Check) picks() {
	f := c.method("FeatureMatrix", "BestSplitter")
	e := c.run(f, "picks", Options{Opaque: opaque("Target.Impurity")})
	if e == nil {
		return
	}
	fm, cands := e.param(0), e.param(3)
	key := "candidates/BestSplitter"
	isList := func(t *Term) bool { return t != nil && t.Op == "load" && t.Args[0] == cands }
	// in: the value is an element of the candidates
	var in func(t *Term, seen map[*Term]bool) bool
	in = func(t *Term, seen map[*Term]bool) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if a, _ := elem(t); a != nil {
			return isList(a)
		}
		if t.Op == "sym" {
			hit, ok := false, true
			e.each(func(cu *Cut, p *Path) {
				if v, has := p.Phi[t]; has {
					hit = true
					if !in(v, seen) {
						ok = false
					}
				}
			})
			return hit && ok
		}
		return false
	}
	searched := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			// every feature touched is a candidate
			for _, a := range append(append([]*Term{}, ev.Args...), ev.Val, ev.Res) {
				if a == nil {
					continue
				}
				a.walk(func(y *Term) bool {
					if arr, i := elem(y); arr != nil && dataOf(arr, fm) {
						searched++
						if !in(i, map[*Term]bool{}) {
							c.bad(key, instrPos(ev.In), "BestSplitter looks at feature %v, which is not one of the candidates", i)
						}
					}
					return true
				})
			}
		}
		if p.End != "return" || len(p.Ret) < 2 {
			return
		}
		c.ob("FeatureMatrix.BestSplitter", "the feature returned is a candidate")
		if p.Ret[1].Op == "nil" || p.holds(isnil(p.Ret[1])) {
			return
		}
		// the feature and the split are found together
		if !e.pairs(p, p.Ret[0], p.Ret[1], fm, func(i *Term) bool { return in(i, map[*Term]bool{}) }) {
			c.bad(key, instrPos(p.RetIn), "BestSplitter can return a feature that is not the candidate its split was found on")
		}
	})
	if searched == 0 {
		c.bad(key, f.Pos(), "undecided: BestSplitter looks at no feature")
	}
	c.ob("FeatureMatrix.BestSplitter", "only candidates are looked at")
	// and leaves the candidates a rearrangement of what they were
	c.rearranges(e, "FeatureMatrix.BestSplitter", func(arr *Term) string {
		if isList(arr) {
			return "candidates"
		}
		return ""
	}, []string{"candidates"}, func(ev *Event) bool {
		a, _ := addrElem(ev.Addr)
		return !isList(a)
	})
}

// pairs: fi and split always change together, to a candidate and the split found on its feature.
func (e *Exec) pairs(p *Path, fi, split, fm *Term, in func(i *Term) bool) bool {
	type pr struct{ a, b *Term }
	seen := map[pr]bool{}
	ok := true
	var rec func(fi, split *Term)
	rec = func(fi, split *Term) {
		if !ok || seen[pr{fi, split}] {
			return
		}
		seen[pr{fi, split}] = true
		split = unwrapped(split)
		if split.Op == "nil" {
			return
		}
		if split.Op == "extract" && split.S == "0" {
			if a := isCall(split.Args[0], "BestSplit"); a != nil {
				arr, i := elem(a[0])
				if arr != nil && dataOf(arr, fm) && i == fi && in(fi) {
					return
				}
			}
			ok = false
			return
		}
		if split.Op != "sym" {
			ok = false
			return
		}
		hit := false
		e.each(func(cu *Cut, q *Path) {
			s, h1 := q.Phi[split]
			if !h1 {
				return
			}
			hit = true
			f := fi
			if v, h := q.Phi[fi]; h {
				f = v
			}
			rec(f, s)
		})
		if !hit {
			ok = false
		}
	}
	rec(fi, split)
	return ok
}

// passedOn: the growers search among the candidates they were given.
func (c *Check) passedOn() {
	check := func(name string, e *Exec, fm *Term, cell func(p *Path, ev *Event, t *Term) bool) {
		n := 0
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.calls("BestSplitter") {
				n++
				c.ob(name, "searches among the candidates given")
				if ev.Args[0] != fm || !cell(p, ev, ev.Args[3]) {
					c.bad("candidates/"+name, instrPos(ev.In), "%s searches among other candidates than those it was given", name)
				}
			}
		})
		if n == 0 {
			c.bad("candidates/"+name, e.Root.Pos(), "undecided: %s searches for no split", name)
		}
	}
	if g := c.growClosure(); g != nil {
		want := g.outer.param(4)
		check("Tree.Grow", g.e, g.fm, func(p *Path, ev *Event, t *Term) bool { return p.held(ev, t) == want })
	}
	if e := c.growJungle(); e != nil {
		want := e.param(4)
		check("Tree.GrowJungle", e, e.param(1), func(p *Path, ev *Event, t *Term) bool { return p.held(ev, t) == want })
	}
	f := c.fn("", "GrowRandomForest")
	if f == nil {
		return
	}
	e := c.run(f, "candidates", Options{Opaque: opaque("Tree.Grow", "Tree.GrowJungle")})
	if e == nil {
		return
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			n++
			c.ob("GrowRandomForest", "grows with the candidates given")
			if ev.Args[1] != e.param(0) || ev.Args[4] != e.param(2) {
				c.bad("candidates/GrowRandomForest", instrPos(ev.In), "GrowRandomForest grows with other candidates than those it was given")
			}
		}
	})
	if n == 0 {
		c.bad("candidates/GrowRandomForest", f.Pos(), "undecided: GrowRandomForest grows no tree")
	}
}

// held is what the variable at address t holds before an event.
func (p *Path) held(ev *Event, t *Term) *Term {
	if v := p.at(t, ev); v != nil {
		return v
	}
	return p.From.In.base[t]
}

var _ = token.NoPos

func init() {
	register(&Rule{ID: "C24", Min: 20,
		What: "in growforest every value the candidate list can have at a call of Grow or GrowJungle is followed back through loops and variables: it starts empty, each append adds one index proved different from the target's and clear in the exclusion list, the loop runs over all features and skips none other; the exclusion list has one entry per feature, is never cleared, is set for each line of the blacklist, each match of -blockRE and each non-match of -includeRE on every run that asks for them, and is extended entry by entry for contrasts with the target's own set; FeatureMatrix.BestSplitter touches and returns only elements of its candidate list and only rearranges it; the growers pass their candidates on",
		Run: func(c *Check) {
			c.candidateSets()
			c.picks()
			c.passedOn()
		}})
}
