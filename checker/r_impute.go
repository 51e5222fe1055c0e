package main

import (
	"golang.org/x/tools/go/ssa"
)

// ---- C38: imputing -------------------------------------------------------------------------------

// allOf decides that a list, or the list kept in a variable, holds 0..n-1, each once.
func (e *Exec) allOf(t *Term, is func(*Term) bool) string {
	if t.Op == "alloc" {
		t = mk("load", "", t)
	}
	t = e.plain(t)
	if t.Op != "load" || t.Args[0].Op != "alloc" {
		return e.iota(t, is)
	}
	cell := t.Args[0]
	g := e.gather(t)
	if len(g.appends) == 0 {
		for _, v := range g.other {
			if msg := e.iota(v, is); msg != "" {
				return msg
			}
		}
		if len(g.other) == 0 || g.empty > 0 {
			for v := range g.values {
				if v.Op == "makeslice" && e.iota(v, is) == "" {
					return ""
				}
			}
			return "the list of cases is never filled"
		}
		return ""
	}
	if len(g.other) > 0 {
		return "the list of cases may be " + g.other[0].String()
	}
	var loop *Cut
	var idx *Term
	sites := map[*Event]bool{}
	for _, a := range g.appends {
		if a.all || len(a.elems) != 1 {
			return "the list of cases is added to by more than one case at a time"
		}
		if idx != nil && idx != a.elems[0] {
			return "different cases are appended on different paths"
		}
		idx = a.elems[0]
		sites[a.ev] = true
	}
	loop = e.loopOfIndex(idx)
	if loop == nil {
		return "the cases are not listed by a loop"
	}
	if !e.everyTurn(loop, func(p *Path) bool { return p.does(sites) }) {
		return "a turn of the loop that lists the cases lists none"
	}
	if !e.oncePerTurn(loop, func(p *Path) (n int) {
		for _, ev := range p.Events {
			if sites[ev] {
				n++
			}
		}
		return
	}) {
		return "a case may be listed twice"
	}
	m := e.members(loop)
	for _, cu := range e.Cuts {
		for _, p := range cu.Paths {
			inside := m[cu] && p.To != nil && m[p.To]
			for _, ev := range p.Events {
				if sites[ev] && !inside {
					return "a case is listed outside the loop"
				}
				if ev.Kind == "store" && ev.Addr == cell && emptyList(ev.Val) && inside {
					return "the list of cases is emptied while it is filled"
				}
			}
		}
	}
	return e.countsAny(loop, idx, is)
}

// caseList: n is the length of one of a feature's per case lists.
func caseList(n, f *Term) bool {
	if n.Op != "len" {
		return false
	}
	for _, name := range []string{".Missing", ".NumData", ".CatData"} {
		if o := field(n.Args[0], name); o != nil && sameLoc(o, f) {
			return true
		}
	}
	return false
}

// imputes decides ImputeMissing of one kind of feature.
func (c *Check) imputes(typ, data, typical string) {
	f := c.method(typ, "ImputeMissing")
	if f == nil {
		return
	}
	key := "impute/" + typ
	e := c.run(f, "!", Options{Opaque: opaque(typ + "." + typical)})
	if e == nil {
		return
	}
	self := e.param(0)
	bad := func(ev *Event, s string, a ...interface{}) {
		if ev != nil && ev.In != nil {
			c.bad(key, ev.In.Pos(), s, a...)
			return
		}
		c.bad(key, f.Pos(), s, a...)
	}
	// the stores
	type put struct {
		cu *Cut
		p  *Path
		ev *Event
		i  *Term
	}
	var fills, clears []put
	isVal := func(a *Term) *Term { return ownElem(a, self, "."+data) }
	isFlag := func(a *Term) *Term { return ownElem(a, self, ".Missing") }
	calls := map[*Event]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			switch ev.Kind {
			case "call":
				if nameIs(ev.Name, typical) {
					calls[ev] = true
					c.ob(key, "the "+typical+" is taken over every case of the feature")
					if len(ev.Args) < 2 || !sameLoc(ev.Args[0], self) {
						bad(ev, "the %s is taken of another feature", typical)
					} else if msg := e.allOf(ev.Args[1], func(n *Term) bool { return caseList(n, self) }); msg != "" {
						bad(ev, "the %s is not taken over every case of the feature: %s", typical, msg)
					}
				}
			case "store":
				if i := isVal(ev.Addr); i != nil {
					fills = append(fills, put{cu, p, ev, i})
				} else if i := isFlag(ev.Addr); i != nil {
					clears = append(clears, put{cu, p, ev, i})
				}
			case "copy", "mapupdate":
				if !isLocal(ev.Addr) {
					bad(ev, "something besides the missing values is changed")
				}
			}
		}
	})
	if len(calls) == 0 {
		bad(nil, "the %s of the feature is not taken", typical)
		return
	}
	if len(fills) == 0 || len(clears) == 0 {
		bad(nil, "no missing value is filled")
		return
	}
	loops := func(ps []put, what string) *Cut {
		var k *Cut
		for _, w := range ps {
			l := e.loopOfIndex(w.i)
			if l == nil || k != nil && l != k {
				bad(w.ev, "%s outside the one loop over the cases", what)
				return nil
			}
			k = l
			if msg := e.countsAny(k, w.i, func(n *Term) bool { return caseList(n, self) }); msg != "" {
				bad(w.ev, "%s in a loop that does not go through all cases: %s", what, msg)
				return nil
			}
		}
		return k
	}
	kf := loops(fills, "a value is filled")
	kc := loops(clears, "a mark is cleared")
	if kf == nil || kc == nil {
		return
	}
	marked := func(p *Path, upto *Event, i *Term) int {
		facts := p.All()
		if upto != nil {
			facts = p.before(upto)
		}
		r := -1
		for _, g := range facts {
			g.walk(func(x *Term) bool {
				if a, j := elem(x); a != nil && decideEq(j, i) {
					if o := field(a, ".Missing"); o != nil && sameLoc(o, self) {
						if decide(facts, x) == 1 {
							r = 1
						} else if decide(facts, notT(x)) == 1 {
							r = 0
						}
					}
				}
				return true
			})
		}
		return r
	}
	// a known value stays
	for _, w := range fills {
		c.ob(key, "only a missing value is replaced, by the "+typical)
		if !decideEq(w.i, fills[0].i) {
			bad(w.ev, "values of different cases are filled in one turn")
		}
		if marked(w.p, w.ev, w.i) != 1 {
			bad(w.ev, "a value is replaced that is not known to be missing")
		}
		v := e.plain(w.ev.Val)
		ok := false
		for cl := range calls {
			ok = ok || cl.Res != nil && e.plain(cl.Res) == v
		}
		if !ok {
			bad(w.ev, "a missing value is replaced by %s, not by the %s of the feature", v, typical)
		}
	}
	// every missing value is filled and unmarked
	filled := func(ps []put) func(p *Path) bool {
		return func(p *Path) bool {
			for _, w := range ps {
				if w.p == p {
					return true
				}
			}
			return marked(p, nil, ps[0].i) == 0
		}
	}
	c.ob(key, "every missing value is replaced")
	if !e.everyTurn(kf, filled(fills)) {
		bad(fills[0].ev, "a missing value may be left as it is")
	}
	c.ob(key, "every mark is cleared")
	if !e.everyTurn(kc, filled(clears)) {
		bad(clears[0].ev, "a filled value may stay marked as missing")
	}
	for _, w := range clears {
		if !w.ev.Val.isFalse() {
			bad(w.ev, "a filled value is marked with %s", w.ev.Val)
		}
		// in the turn of the fill the mark is read before it is cleared
		if kf == kc {
			for _, x := range fills {
				if x.p == w.p && !decideEq(w.i, x.i) {
					bad(w.ev, "the mark of another case is cleared")
				}
			}
		}
	}
	// both loops are gone through on every way out, and the marks are read before they are gone
	through := func(k *Cut) func(p *Path) bool {
		return func(p *Path) bool { return p.To == k || p.From == k }
	}
	ends := func(p *Path) bool { return p.To == nil && p.End != "panic" }
	for _, k := range []*Cut{kf, kc} {
		if q := e.reaches(func(p *Path) bool { return through(k)(p) || p.nothingMissing(self) }, ends); q != nil {
			bad(nil, "the loop over the cases may be passed over")
		}
	}
	if kf != kc && e.reachesFrom(kc, nil, func(p *Path) bool { return p.To == kf }) != nil {
		bad(clears[0].ev, "the marks are cleared before the values are filled")
	}
	for _, k := range []*Cut{kf, kc} {
		if e.reachesFrom(k, nil, func(p *Path) bool { return p.does(calls) }) != nil {
			bad(nil, "the %s is taken while the values are being replaced", typical)
		}
	}
	early := false
	e.each(func(cu *Cut, p *Path) {
		for i, ev := range p.Events {
			if ev.Kind == "store" && (isVal(ev.Addr) != nil || isFlag(ev.Addr) != nil) {
				for _, w := range p.Events[i:] {
					early = early || calls[w]
				}
			}
		}
	})
	if early {
		bad(nil, "the %s is taken after a value was replaced", typical)
	}
}

// nothingMissing: the path knows that the feature has no missing values.
func (p *Path) nothingMissing(self *Term) bool {
	hit := false
	for _, g := range p.All() {
		g.walk(func(x *Term) bool {
			if o := field(x, ".HasMissing"); o != nil && sameLoc(o, self) && p.holds(notT(x)) {
				hit = true
			}
			return true
		})
	}
	return hit
}

// without: the path knows that the feature at an index has no missing values.
func (p *Path) without(idx *Term) bool {
	hit := false
	for _, g := range p.All() {
		g.walk(func(x *Term) bool {
			if a := isCall(x, "MissingVals"); len(a) == 1 {
				if _, i := elem(unwrapped(a[0])); i != nil && decideEq(i, idx) && p.holds(notT(x)) {
					hit = true
				}
			}
			return true
		})
	}
	return hit
}

// ownElem: the address is that of an element of one of f's own lists; its index.
func ownElem(a, f *Term, name string) *Term {
	arr, i := addrElem(a)
	if arr == nil {
		return nil
	}
	if o := field(arr, name); o != nil && sameLoc(o, f) {
		return i
	}
	return nil
}

// imputesAll decides FeatureMatrix.ImputeMissing.
func (c *Check) imputesAll() {
	f := c.method("FeatureMatrix", "ImputeMissing")
	if f == nil {
		return
	}
	e := c.run(f, "!", Options{Opaque: func(g *ssa.Function) bool { return g.Name() == "ImputeMissing" && g != f }})
	if e == nil {
		return
	}
	key := "impute/FeatureMatrix"
	fm := e.param(0)
	sites := map[*Event]bool{}
	var idx *Term
	var any *Event
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "ImputeMissing") && len(ev.Args) > 0 {
				sites[ev] = true
				any = ev
				arr, i := elem(unwrapped(e.plain(ev.Args[0])))
				if arr == nil || field(arr, ".Data") == nil || !sameLoc(field(arr, ".Data"), fm) {
					c.bad(key, ev.In.Pos(), "what is imputed is not one of the matrix's features")
					continue
				}
				if idx != nil && !decideEq(idx, i) {
					c.bad(key, ev.In.Pos(), "different features are imputed in one turn")
				}
				idx = i
			}
		}
	})
	c.ob(key, "every feature of the matrix is imputed")
	if any == nil || idx == nil {
		c.bad(key, f.Pos(), "no feature is imputed")
		return
	}
	k := e.loopOfIndex(idx)
	if k == nil {
		c.bad(key, any.In.Pos(), "the features are not gone through by a loop")
		return
	}
	if msg := e.countsAny(k, idx, func(n *Term) bool {
		if n.Op != "len" {
			return false
		}
		o := field(n.Args[0], ".Data")
		return o != nil && sameLoc(o, fm)
	}); msg != "" {
		c.bad(key, any.In.Pos(), "not every feature is imputed: %s", msg)
	}
	if !e.everyTurn(k, func(p *Path) bool { return p.does(sites) || p.without(idx) }) {
		c.bad(key, any.In.Pos(), "a feature may be passed over")
	}
	if q := e.reaches(func(p *Path) bool { return p.To == k || p.From == k }, func(p *Path) bool { return p.To == nil && p.End != "panic" }); q != nil {
		c.bad(key, f.Pos(), "the loop over the features may be passed over")
	}
}

// imputesOnAsking decides when a command imputes: with its flag always and before anything is done with
// the data, without it never.
func (c *Check) imputesOnAsking(pkg string, uses func(ev *Event) bool, what string) {
	e := c.command(pkg)
	if e == nil {
		return
	}
	key := "impute/" + pkg
	at := e.Entry.B.Parent().Pos()
	flag := e.flag("impute")
	if flag == nil {
		c.bad(key, at, "there is no flag called impute")
		return
	}
	imp := func(p *Path) bool {
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "(*FeatureMatrix).ImputeMissing") {
				return true
			}
		}
		return false
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !nameIs(ev.Name, "ImputeMissing") {
				continue
			}
			if !nameIs(ev.Name, "(*FeatureMatrix).ImputeMissing") {
				c.bad(key, ev.In.Pos(), "a part of the data is imputed by itself")
				continue
			}
			n++
			c.ob(key, "the data are imputed exactly when asked for, before "+what)
			asked := false
			for _, g := range p.before(ev) {
				g.walk(func(x *Term) bool {
					asked = asked || isLoadOf(x, flag) && p.holdsBefore(ev, x)
					return true
				})
			}
			if !asked {
				c.bad(key, ev.In.Pos(), "the data are imputed without having been asked for")
			}
			if r := unread(ev.Args[0]); r == nil {
				c.bad(key, ev.In.Pos(), "what is imputed, %s, is not the matrix that was read", ev.Args[0])
			}
		}
	})
	if n == 0 {
		c.bad(key, at, "the data are never imputed")
		return
	}
	used := func(p *Path) bool {
		for _, ev := range p.Events {
			if uses(ev) {
				return true
			}
		}
		return false
	}
	if q := e.reaches(func(p *Path) bool { return imp(p) || p.flagOff(flag) }, used); q != nil {
		c.bad(key, at, "%s may happen without the imputing that was asked for", what)
	}
	e.each(func(cu *Cut, p *Path) {
		if !imp(p) {
			return
		}
		done := false
		for _, ev := range p.Events {
			done = done || uses(ev)
			if done && ev.Kind == "call" && nameIs(ev.Name, "(*FeatureMatrix).ImputeMissing") {
				c.bad(key, ev.In.Pos(), "the data are imputed after %s", what)
			}
		}
	})
	for _, cu := range e.Cuts {
		for _, p := range cu.Paths {
			if !used(p) || p.To == nil {
				continue
			}
			if q := e.reachesFrom(p.To, nil, imp); q != nil {
				c.bad(key, at, "the data may be imputed after %s", what)
				return
			}
		}
	}
}

// shuffles decides what growforest shuffles and which contrasts it adds before it grows trees.
func (c *Check) shuffles() {
	e := c.command("growforest")
	if e == nil {
		return
	}
	key := "shuffle/growforest"
	at := e.Entry.B.Parent().Pos()
	permute, re := e.flag("permute"), e.flag("shuffleRE")
	ncon, all, ace := e.flag("nContrasts"), e.flag("contrastall"), e.flag("ace")
	train, target := e.flag("train"), e.flag("target")
	for _, f := range []*Term{permute, re, ncon, all, ace, train, target} {
		if f == nil {
			c.bad(key, at, "one of the flags train, target, permute, shuffleRE, nContrasts, contrastall and ace is gone")
			return
		}
	}
	var fm *Term
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			for _, f := range []*Term{permute, re, ncon, all, ace, train, target, e.flag("impute")} {
				if ev.Kind == "store" && ev.Addr == f {
					c.bad(key, ev.In.Pos(), "what was asked for is changed to %s", ev.Val)
				}
			}
			if ev.Kind == "call" && len(ev.Args) == 1 && nameIs(ev.Name, "LoadAFM") && isLoadOf(ev.Args[0], train) && ev.Res != nil {
				fm = mk("extract", "0", ev.Res)
			}
		}
	})
	if fm == nil {
		c.bad(key, at, "the training data are not loaded from -train")
		return
	}
	isTarget := func(i *Term) bool {
		return i.Op == "lookup" && field(i.Args[0], "FeatureMatrix.Map") == fm && isLoadOf(i.Args[1], target)
	}
	matched := func(facts []*Term, i *Term) int {
		for _, g := range facts {
			t, v := g, 1
			if g.Op == "not" {
				t, v = g.Args[0], 0
			}
			a := isCall(t, "MatchString")
			if a == nil || len(a) != 2 || !a[0].contains(func(y *Term) bool { return isLoadOf(y, re) }) {
				continue
			}
			if n := isCall(a[1], "GetName"); n != nil {
				if arr, j := elem(n[0]); arr != nil && dataOf(arr, fm) && decideEq(i, j) {
					return v
				}
			}
		}
		return -1
	}
	isT := func(facts []*Term, i *Term) int {
		r := -1
		for _, g := range facts {
			g.walk(func(y *Term) bool {
				if isTarget(y) {
					if decide(facts, eq0(subT(i, y))) == 1 {
						r = 1
					} else if decide(facts, notT(eq0(subT(i, y)))) == 1 {
						r = 0
					}
				}
				return true
			})
		}
		return r
	}
	known := func(facts []*Term, flag *Term, is func(x *Term) *Term) bool {
		hit := false
		for _, g := range facts {
			g.walk(func(x *Term) bool {
				if isLoadOf(x, flag) && !hit && decide(facts, is(x)) == 1 {
					hit = true
				}
				return true
			})
		}
		return hit
	}
	yes := func(x *Term) *Term { return x }
	some := func(x *Term) *Term { return ge0(addI(x, -1)) }
	none := func(x *Term) *Term { return ge0(negT(x)) }
	grows := func(p *Path) bool { return len(p.grows()) > 0 }
	permuted, listed, conts, alls := map[*Event]bool{}, map[*Event]bool{}, map[*Event]bool{}, map[*Event]bool{}
	var idx *Term
	var first *Event
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || ev.In == nil {
				continue
			}
			facts := p.before(ev)
			switch {
			case nameIs(ev.Name, "ShuffleCases") || nameIs(ev.Name, "ShuffledCopy"):
				c.bad(key, ev.In.Pos(), "%s is called on the training data", ev.Name)
			case nameIs(ev.Name, "Shuffle") && len(ev.Args) > 0:
				arr, i := elem(unwrapped(ev.Args[0]))
				if arr == nil || !dataOf(arr, fm) {
					c.bad(key, ev.In.Pos(), "what is shuffled, %s, is no feature of the training data", ev.Args[0])
					continue
				}
				if isTarget(i) {
					permuted[ev] = true
					c.ob(key, "the target is shuffled only on -permute")
					if !known(facts, permute, yes) {
						c.bad(key, ev.In.Pos(), "the target is shuffled without -permute")
					}
					continue
				}
				if k := e.loopOfIndex(i); k != nil && matched(facts, i) == -1 && known(facts, ace, some) {
					// the contrasts of ACE, between forests
					c.ob(key, "between forests only contrasts are shuffled")
					enter, _ := e.into(k)
					for _, q := range enter {
						lo := q.next(i)
						if lo == nil || lo.Op != "len" || !dataOf(lo.Args[0], fm) {
							c.bad(key, ev.In.Pos(), "features that are no contrasts are shuffled between forests")
						}
					}
					continue
				}
				listed[ev] = true
				c.ob(key, "only features named by -shuffleRE are shuffled")
				if matched(facts, i) != 1 {
					c.bad(key, ev.In.Pos(), "a feature is shuffled whose name does not match -shuffleRE")
				}
				if isT(facts, i) != 0 {
					c.bad(key, ev.In.Pos(), "-shuffleRE may shuffle the target")
				}
				if idx != nil && !decideEq(idx, i) {
					c.bad(key, ev.In.Pos(), "different features are shuffled in one turn")
				}
				idx, first = i, ev
			case nameIs(ev.Name, "(*FeatureMatrix).AddContrasts"):
				conts[ev] = true
				c.ob(key, "as many contrasts are added as asked for")
				if len(ev.Args) != 2 || !sameLoc(ev.Args[0], fm) || !isLoadOf(ev.Args[1], ncon) {
					c.bad(key, ev.In.Pos(), "not -nContrasts contrasts are added to the training data")
				}
			case nameIs(ev.Name, "(*FeatureMatrix).ContrastAll"):
				alls[ev] = true
				c.ob(key, "every feature gets a contrast only when asked for")
				if !known(facts, all, yes) && !known(facts, ace, some) {
					c.bad(key, ev.In.Pos(), "every feature gets a contrast without -contrastall or -ace")
				}
			}
		}
	})
	// what was asked for is done before a tree is grown
	need := func(did map[*Event]bool, off func(p *Path) bool, use func(ev *Event) bool, what string) {
		c.ob(key, what+" when asked for")
		if len(did) == 0 {
			c.bad(key, at, "never: %s", what)
			return
		}
		uses := func(p *Path) bool {
			for _, ev := range p.Events {
				if use(ev) {
					return true
				}
			}
			return false
		}
		if q := e.reaches(func(p *Path) bool { return p.does(did) || off(p) }, uses); q != nil {
			c.bad(key, at, "trees may be grown without: %s", what)
		}
		for _, cu := range e.Cuts {
			for _, p := range cu.Paths {
				n := 0
				for _, ev := range p.Events {
					if did[ev] && n > 0 {
						c.bad(key, ev.In.Pos(), "too late or twice: %s", what)
					}
					if did[ev] || use(ev) {
						n++
					}
				}
				if n > 0 && p.To != nil && e.reachesFrom(p.To, nil, func(q *Path) bool { return q.does(did) }) != nil {
					c.bad(key, at, "too late or more than once: %s", what)
					return
				}
			}
		}
	}
	growing := func(ev *Event) bool {
		return ev.Kind == "call" && len(ev.Args) > 5 && (nameIs(ev.Name, "Grow") || nameIs(ev.Name, "GrowJungle"))
	}
	need(permuted, func(p *Path) bool { return p.flagOff(permute) }, func(ev *Event) bool {
		return growing(ev) || ev.Kind == "call" && nameIs(ev.Name, "Copy")
	}, "the target is shuffled")
	need(conts, func(p *Path) bool { return known(p.All(), ncon, none) }, growing, "contrasts are added")
	asked := map[*Event]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if alls[ev] && known(p.before(ev), all, yes) {
				asked[ev] = true
			}
		}
	})
	need(asked, func(p *Path) bool { return p.flagOff(all) }, growing, "every feature gets a contrast")
	c.ob(key, "every feature named by -shuffleRE is shuffled")
	if idx == nil {
		c.bad(key, at, "no feature is shuffled for -shuffleRE")
		return
	}
	k := e.loopOfIndex(idx)
	if k == nil {
		c.bad(key, first.In.Pos(), "the features are not gone through by a loop")
		return
	}
	now := k.In.ver["F:FeatureMatrix.Data"]
	if w := e.countsAny(k, idx, func(n *Term) bool { return n.Op == "len" && dataOf(n.Args[0], fm) && n.Args[0].Ver == now }); w != "" {
		c.bad(key, first.In.Pos(), "not every feature is looked at for -shuffleRE: %s", w)
	}
	if !e.everyTurn(k, func(q *Path) bool {
		return q.does(listed) || isT(q.All(), idx) == 1 || matched(q.All(), idx) == 0
	}) {
		c.bad(key, first.In.Pos(), "a feature that matches -shuffleRE may be passed over")
	}
	if e.reaches(func(p *Path) bool { return p.To == k || p.flagEmpty(re) }, grows) != nil {
		c.bad(key, first.In.Pos(), "trees may be grown without shuffling what -shuffleRE names")
	}
}

// unread: the matrix is what a loader returned.
func unread(t *Term) *Term {
	for _, n := range []string{"LoadAFM", "ParseAFM", "ParseARFF", "ParseLibSVM"} {
		hit := false
		t.walk(func(x *Term) bool {
			if len(isCall(x, n)) > 0 {
				hit = true
			}
			return !hit
		})
		if hit {
			return t
		}
	}
	return nil
}

func init() {
	register(&Rule{ID: "C38", What: "in ImputeMissing of both kinds of feature one loop over all cases stores the Mean / Modei of the whole list of cases, taken before anything is stored, exactly where the case's Missing is set, and clears that mark; FeatureMatrix.ImputeMissing calls it on every element of Data; in growforest and nfold the call is made on exactly the paths with -impute and before the data are used", Min: 8,
		Assume: []string{"that Mean and Modei are the mean and the commonest category of the known values is C23's"},
		Run: func(c *Check) {
			c.imputes("DenseNumFeature", "NumData", "Mean")
			c.imputes("DenseCatFeature", "CatData", "Modei")
			c.imputesAll()
			c.imputesOnAsking("growforest", func(ev *Event) bool {
				return ev.Kind == "call" && (nameIs(ev.Name, "Grow") || nameIs(ev.Name, "GrowJungle") || nameIs(ev.Name, "Copy"))
			}, "the data are copied or trees grown")
			c.imputesOnAsking("utils/nfold", func(ev *Event) bool {
				return ev.Kind == "call" && (nameIs(ev.Name, "WriteCases") || nameIs(ev.Name, "WriteArffCases") || nameIs(ev.Name, "WriteLibSvmCases") || nameIs(ev.Name, "EncodeToNum") || nameIs(ev.Name, "OneHot"))
			}, "the data are encoded or written")
			c.shuffles()
		}})
}
