package main

import (
	"go/types"
	"strings"
)

// ---- C11: a split's impurity is the average over its branches --------------------------------------------

// split is one analysis of a target's SplitImpurity or UpdateSImpFromAllocs.
type split struct {
	c       *Check
	e       *Exec
	typ, fn string
	key     string
	self    *Term
	l, r, m *Term
	allocs  *Term
	moved   *Term // nil in SplitImpurity
	counts  bool  // Impurity counts the cases on the counter it is given
	used    bool  // the score was computed from counts or sums, not by SplitImpurity itself
}

func (x *split) counterOf(t *Term) string {
	for _, n := range []string{"LCounter", "RCounter", "Counter"} {
		if field(strip(t), "."+n) == x.allocs {
			return n
		}
	}
	return ""
}

// mover: a path moves all counts with MoveCountsRtoL.
func (x *split) mover(ev *Event) bool {
	a := ev.Args
	return x.moved != nil && ev.Kind == "call" && nameIs(ev.Name, "MoveCountsRtoL") && len(a) == 3 && a[1] == x.allocs && a[2] == x.moved
}

// consumer: what reads the counts.
func consumer(ev *Event) bool {
	return ev.Kind == "call" && (nameIs(ev.Name, "ImpFromCounts") || nameIs(ev.Name, "HDist"))
}

// shifts decides that, before any count is read, every moved case is counted once more on the left and
// once less on the right. It returns whether anything moves counts at all.
func (x *split) shifts() (some, loops bool) {
	e := x.e
	n := map[string]int{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			arr, _ := addrElem(strip(ev.Addr))
			if arr == nil || arr.Op != "load" {
				continue
			}
			ctr := x.counterOf(arr.Args[0])
			if ctr == "" {
				continue
			}
			some, loops = true, true
			d := int64(1)
			if ctr == "RCounter" {
				d = -1
			}
			k := e.loopOf(ev)
			if ctr == "Counter" || k == nil || x.moved == nil {
				x.c.bad(x.key+"/moves", instrPos(ev.In), "%s.%s changes the %s outside a loop over the cases that move", x.typ, x.fn, ctr)
				continue
			}
			n[ctr]++
			if msg := e.countsOne(k, ev, x.moved, d); msg != "" {
				x.c.bad(x.key+"/moves", instrPos(ev.In), "%s.%s does not move each case once from right to left in the %s: %s", x.typ, x.fn, ctr, msg)
			}
			done := func(p *Path) bool { return p.To != k && e.members(k)[p.From] && (p.To == nil || !e.members(k)[p.To]) }
			early := func(p *Path) bool {
				if done(p) {
					return false
				}
				if p.End == "return" {
					return true
				}
				for _, ev := range p.Events {
					if consumer(ev) {
						return true
					}
				}
				return false
			}
			if p := e.reaches(done, early); p != nil {
				x.c.bad(x.key+"/moves", instrPosOf(p), "%s.%s can read the counts before they are moved", x.typ, x.fn)
			}
		}
		for _, ev := range p.Events {
			if x.mover(ev) {
				some = true
			}
		}
	})
	if loops {
		if n["LCounter"] != 1 || n["RCounter"] != 1 {
			x.c.bad(x.key+"/moves", e.Root.Pos(), "%s.%s does not move the counts of both sides once", x.typ, x.fn)
		}
		x.c.ob(x.typ+"."+x.fn, "each moved case is counted once more on the left and once less on the right")
	}
	return
}

func nonEmpty(facts []*Term, m *Term) int {
	if decide(facts, isnil(m)) == 1 {
		return 0
	}
	n := mk("len", "", mk("load", "", m))
	some := decide(facts, ge0(addI(n, -1)))
	if some == 0 {
		return 0
	}
	if some == 1 || decide(facts, notT(eq0(n))) == 1 {
		return 1
	}
	return -1
}

func (x *split) n(b *Term) *Term  { return mk("len", "", mk("load", "", b)) }
func (x *split) i(b *Term) *Term  { return mk("imp", "", b) }
func (x *split) s1(b *Term) *Term { return mk("s1", "", b) }
func (x *split) s2(b *Term) *Term { return mk("s2", "", b) }

func (x *split) branch(t *Term) *Term {
	for _, b := range []*Term{x.l, x.r, x.m} {
		if t == b {
			return b
		}
	}
	return nil
}

// judge compares what a path returns, and leaves behind, with the definition.
func (x *split) judge(p *Path, loops, chained bool) string {
	facts := p.All()
	name := map[*Term]*Term{}
	state := map[string]*Term{}
	moved := loops
	if x.moved != nil {
		// what the call before this one left
		state["LCounter"], state["RCounter"], state["Counter"] = mk("before", "l"), mk("before", "r"), x.m
		if loops {
			state["LCounter"], state["RCounter"] = x.l, x.r
		}
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" || ev.Res == nil {
			continue
		}
		a := ev.Args
		own := len(a) > 0 && a[0] == x.self
		inner := len(a) > 0 && field(strip(a[0]), x.typ+".CatFeature") == x.self
		switch {
		case x.mover(ev):
			if moved {
				return "the counts are moved twice"
			}
			moved, x.used = true, true
			state["LCounter"], state["RCounter"] = x.l, x.r
		case nameIs(ev.Name, "MoveCountsRtoL"):
			return "other counts than those of the cases that move are moved"
		case nameIs(ev.Name, "CountPerCat") && len(a) == 3:
			if ctr := x.counterOf(a[2]); ctr != "" {
				state[ctr] = x.branch(a[1])
			}
		case (nameIs(ev.Name, "Impurity") || nameIs(ev.Name, "GiniWithoutAlocate")) && own && len(a) == 3:
			ctr := x.counterOf(a[2])
			b := x.branch(a[1])
			if x.counts {
				if ctr == "" {
					return "the impurity of a branch is computed on no counter of its own"
				}
				state[ctr] = b
			}
			if b != nil {
				name[ev.Res] = x.i(b)
			}
		case nameIs(ev.Name, "ImpFromCounts") && own && len(a) >= 2:
			x.used = true
			b := state[x.counterOf(a[len(a)-1])]
			if b == nil || x.branch(b) == nil {
				return "the impurity of a branch is computed from counts that are not those of the branch"
			}
			if len(a) == 3 && a[1] != b && strip(a[1]) != x.n(b) {
				return "the impurity of a branch is computed for other cases than those counted"
			}
			name[ev.Res] = x.i(b)
		case nameIs(ev.Name, "HDist") && own && len(a) == 3:
			x.used = true
			if state[x.counterOf(a[1])] == x.l && state[x.counterOf(a[2])] == x.r {
				name[ev.Res] = mk("hdist", "")
			}
		case nameIs(ev.Name, "SumAndSumSquares") && own && len(a) == 2:
			name[mk("extract", "0", ev.Res)], name[mk("extract", "1", ev.Res)] = x.s1(a[1]), x.s2(a[1])
			name[strip(mk("extract", "0", ev.Res))], name[strip(mk("extract", "1", ev.Res))] = x.s1(a[1]), x.s2(a[1])
		case nameIs(ev.Name, "Sum") && own && len(a) == 2:
			name[ev.Res] = x.s1(a[1])
		case nameIs(ev.Name, "SplitImpurity") && (own || inner) && len(a) == 5:
			if a[1] != x.l || a[2] != x.r || a[3] != x.m || a[4] != x.allocs {
				return "SplitImpurity is called for other branches"
			}
			if own {
				name[ev.Res] = mk("whole", "")
			} else {
				name[ev.Res] = mk("inner", "")
			}
		}
	}
	read := func(t *Term) *Term {
		return rewrite(t, func(y *Term) *Term {
			if v := name[y]; v != nil {
				return v
			}
			s := strip(y)
			if v := name[s]; v != nil {
				return v
			}
			if field(s, ".Lsum") == x.allocs || field(s, ".Rsum") == x.allocs || field(s, ".Lsum_sqr") == x.allocs || field(s, ".Rsum_sqr") == x.allocs || field(s, ".Msum") == x.allocs || field(s, ".Msum_sqr") == x.allocs {
				return mk("kept", lastName(s.Args[0].S))
			}
			if s != y && s.Op == "len" {
				return s
			}
			return nil
		})
	}
	got := strip(read(p.Ret[0]))
	if x.moved != nil && got == mk("whole", "") {
		return ""
	}
	// the sums of the branches: those the cases have now, or what was kept and what moves
	s1 := map[*Term]*Term{x.l: x.s1(x.l), x.r: x.s1(x.r), x.m: x.s1(x.m)}
	s2 := map[*Term]*Term{x.l: x.s2(x.l), x.r: x.s2(x.r), x.m: x.s2(x.m)}
	if x.moved != nil {
		kept := func(n string) *Term { return mk("kept", n) }
		s1[x.l], s2[x.l] = addT(kept("Lsum"), x.s1(x.moved)), addT(kept("Lsum_sqr"), x.s2(x.moved))
		s1[x.r], s2[x.r] = subT(kept("Rsum"), x.s1(x.moved)), subT(kept("Rsum_sqr"), x.s2(x.moved))
		s1[x.m], s2[x.m] = kept("Msum"), kept("Msum_sqr")
	}
	m := nonEmpty(facts, x.m)
	sumsOf := func(b *Term, side string, sqr bool) string {
		v, ok := p.final(x.allocs, "."+side)
		if !ok || strip(read(v)) != s1[b] {
			return "the sum of the values of a branch is not kept in " + side
		}
		if !sqr {
			return ""
		}
		if v, ok = p.final(x.allocs, "."+side+"_sqr"); !ok || strip(read(v)) != s2[b] {
			return "the sum of the squares of a branch is not kept in " + side + "_sqr"
		}
		return ""
	}
	imp := x.i
	switch x.typ {
	case "GradBoostTarget":
		x.used = true
		d := subT(divT(s1[x.l], x.n(x.l)), divT(s1[x.r], x.n(x.r)))
		want := divT(mulT(mulT(mulT(d, d), x.n(x.l)), x.n(x.r)), addT(x.n(x.l), x.n(x.r)))
		if got != want {
			return "the score returned is not Friedman's for the sums of the two sides but " + got.String()
		}
		for b, side := range map[*Term]string{x.l: "Lsum", x.r: "Rsum"} {
			if msg := sumsOf(b, side, false); msg != "" {
				return msg
			}
		}
		return ""
	case "HDistanceTarget":
		if got != mk("hdist", "") {
			return "the distance returned is not that of the counts of the two sides"
		}
	case "DenseNumFeature":
		x.used = true
		for b, side := range map[*Term]string{x.l: "Lsum", x.r: "Rsum"} {
			if msg := sumsOf(b, side, true); msg != "" {
				return msg
			}
		}
		if m == 1 && x.moved == nil {
			if msg := sumsOf(x.m, "Msum", true); msg != "" {
				return msg
			}
		}
		imp = func(b *Term) *Term { return subT(s2[b], divT(mulT(s1[b], s1[b]), x.n(b))) }
		fallthrough
	default:
		if got == mk("inner", "") && alphaOff(facts, x.self) {
			// without a density, the impurity is that of the wrapped target
			return ""
		}
		if m < 0 {
			return "undecided: whether the third branch holds cases"
		}
		branches := []*Term{x.l, x.r}
		if m == 1 {
			branches = append(branches, x.m)
		}
		total, sum := intT(0), intT(0)
		for _, b := range branches {
			total = addT(total, x.n(b))
			sum = addT(sum, mulT(x.n(b), imp(b)))
		}
		want := divT(sum, total)
		if got != want {
			return "the impurity returned is not the average of the branches' weighted by their numbers of cases, but " + got.String()
		}
	}
	if x.moved == nil && x.counts && chained {
		if state["LCounter"] != x.l || state["RCounter"] != x.r || m == 1 && state["Counter"] != x.m {
			return "the counters do not hold the counts of the branches afterwards, from which UpdateSImpFromAllocs goes on"
		}
	}
	return ""
}

// alphaOff: the density plays no part.
func alphaOff(facts []*Term, self *Term) (off bool) {
	for _, f := range facts {
		f.walk(func(y *Term) bool {
			if field(y, "TransTarget.Alpha") == self {
				off = off || decide(facts, eqT(y, intT(0), types.Typ[types.Float64])) == 1
			}
			return true
		})
	}
	return
}

// averages checks every target that has an impurity of its own.
func (c *Check) averages() {
	pkg := c.P.Pkgs[RepoPath]
	counting := map[string]bool{"TransTarget": true, "HDistanceTarget": true}
	for _, m := range measures() {
		if m.fn == "Impurity" && m.fill {
			counting[m.typ] = true
		}
	}
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		has := map[string]bool{}
		for i := 0; i < nt.NumMethods(); i++ {
			has[nt.Method(i).Name()] = true
		}
		three := []string{"Impurity", "SplitImpurity", "UpdateSImpFromAllocs"}
		k := 0
		for _, f := range three {
			if has[f] {
				k++
			}
		}
		if k == 0 {
			continue
		}
		c.ob(n, "has Impurity, SplitImpurity and UpdateSImpFromAllocs of its own")
		if k != 3 {
			for _, f := range three {
				if !has[f] {
					c.bad("average/"+n+"/"+f, tn.Pos(), "%s has an impurity of its own and no %s of its own, so that it is scored by that of the feature it wraps", n, f)
				}
			}
			continue
		}
		chained := c.average(n, "UpdateSImpFromAllocs", counting[n], false)
		c.average(n, "SplitImpurity", counting[n], chained)
	}
	// the counts themselves
	f := c.method("DenseCatFeature", "MoveCountsRtoL")
	if f != nil {
		if x := c.splitOf("DenseCatFeature", "MoveCountsRtoL", false); x != nil {
			if some, _ := x.shifts(); !some {
				c.bad(x.key, f.Pos(), "DenseCatFeature.MoveCountsRtoL does not move the counts")
			}
		}
	}
	c.apart()
	for _, s := range c.searches() {
		s.chain()
	}
}

// apart: the three counters of new allocations count on arrays of their own, one entry per category.
func (c *Check) apart() {
	f := c.fn("", "NewBestSplitAllocs")
	if f == nil {
		return
	}
	e := c.run(f, "average", Options{Opaque: opaque("*.NCats", "*.Copy")})
	if e == nil {
		return
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || len(p.Ret) != 1 {
			return
		}
		n++
		seen := map[*Term]string{}
		for _, name := range []string{"LCounter", "RCounter", "Counter"} {
			c.ob("NewBestSplitAllocs", name+" has an array of its own")
			cell, _ := p.final(p.Ret[0], "."+name)
			var arr *Term
			if cell != nil {
				for _, ev := range p.Events {
					if ev.Kind == "store" && ev.Addr == cell {
						arr = ev.Val
					}
				}
			}
			switch {
			case arr == nil || arr.Op != "makeslice":
				c.bad("average/NewBestSplitAllocs/"+name, f.Pos(), "undecided: the %s of new allocations is not made there", name)
			case seen[arr] != "" || seen[cell] != "":
				c.bad("average/NewBestSplitAllocs/"+name, f.Pos(), "%s counts on the array of %s", name, seen[arr]+seen[cell])
			case len(isCall(strip(arr.Args[0]), "NCats")) != 1 || unwrapped(strip(arr.Args[0]).Args[0]) != e.param(1):
				c.bad("average/NewBestSplitAllocs/"+name, f.Pos(), "%s does not have one entry for every category of the target", name)
			default:
				seen[arr], seen[cell] = name, name
			}
		}
	})
	if n == 0 {
		c.bad("average/NewBestSplitAllocs", f.Pos(), "undecided: NewBestSplitAllocs returns nothing")
	}
}

func (c *Check) splitOf(typ, fn string, counts bool) *split {
	f := c.method(typ, fn)
	if f == nil {
		return nil
	}
	key := "average/" + typ + "." + fn
	e := c.run(f, "average", Options{Opaque: opaque("*.Impurity", "*.GiniWithoutAlocate", "*.CountPerCat", "*.ImpFromCounts", "*.SumAndSumSquares", "*.Sum", "*.HDist", "*.SplitImpurity", "*.MoveCountsRtoL", "*.NCats", "*.Geti")})
	if e == nil {
		return nil
	}
	x := &split{c: c, e: e, typ: typ, fn: fn, key: key, counts: counts, self: e.param(0)}
	switch {
	case fn == "MoveCountsRtoL" && len(f.Params) == 3:
		x.allocs, x.moved = e.param(1), e.param(2)
	case fn == "SplitImpurity" && len(f.Params) == 5:
		x.l, x.r, x.m, x.allocs = e.param(1), e.param(2), e.param(3), e.param(4)
	case fn == "UpdateSImpFromAllocs" && len(f.Params) == 6:
		x.l, x.r, x.m, x.allocs, x.moved = e.param(1), e.param(2), e.param(3), e.param(4), e.param(5)
	default:
		c.bad(key, f.Pos(), "undecided: %s.%s has other parameters", typ, fn)
		return nil
	}
	return x
}

// average checks one method; it tells whether it goes on from what an earlier call left.
func (c *Check) average(typ, fn string, counts, chained bool) bool {
	x := c.splitOf(typ, fn, counts)
	if x == nil {
		return false
	}
	_, loops := x.shifts()
	n := 0
	x.e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || len(p.Ret) != 1 {
			return
		}
		n++
		c.ob(typ+"."+fn, "the impurity returned is that of the branches given")
		if msg := x.judge(p, loops, chained); msg != "" {
			c.bad(x.key, instrPos(p.RetIn), "%s.%s: %s", typ, fn, msg)
		}
	})
	if n == 0 {
		c.bad(x.key, x.e.Root.Pos(), "undecided: %s.%s returns nothing", typ, fn)
	}
	return x.used
}

// chain: a search that updates the impurity hands on exactly the cases that changed sides since the last
// split it scored.
func (s *search) chain() {
	c, e := s.c, s.e
	as := s.attempts()
	var ups []attempt
	for _, a := range as {
		if strings.HasSuffix(a.ev.Name, ".UpdateSImpFromAllocs") {
			ups = append(ups, a)
		}
	}
	for _, u := range ups {
		key := s.key + "/update/" + fnOf(u.ev.In)
		c.ob(s.typ+".BestSplit", "the cases handed on as moved are those that changed sides since the last split scored")
		if msg := s.chained(u, as); msg != "" {
			c.bad(key, instrPos(u.ev.In), "%s: %s", fnOf(u.ev.In), msg)
		}
	}
	_ = e
}

func (s *search) chained(u attempt, as []attempt) string {
	e := s.e
	k := e.loopOf(u.ev)
	if k == nil || len(e.members(k)) != 1 {
		return "undecided: an impurity is updated outside a simple loop"
	}
	side := func(a attempt, i int) (base, lo, hi *Term) {
		if i >= len(a.ev.Args) {
			return
		}
		t := a.p.deref(a.ev, a.ev.Args[i])
		if t == nil || t.Op != "slice" {
			return
		}
		lo, hi = e.plain(t.Args[1]), e.plain(t.Args[2])
		if t.Args[1].Op == "none" {
			lo = intT(0)
		}
		if t.Args[2].Op == "none" {
			hi = strip(lenT(t.Args[0]))
		}
		return strip(t.Args[0]), lo, hi
	}
	at := map[*Path]attempt{}
	for _, a := range as {
		if a.p.From != k {
			if e.loopOf(a.ev) == k {
				return "undecided: a split is scored on another way through the loop"
			}
			continue
		}
		if _, twice := at[a.p]; twice {
			return "undecided: a turn scores two splits"
		}
		at[a.p] = a
		if a.ev.Args[0] != u.ev.Args[0] || a.ev.Args[3] != u.ev.Args[3] || a.ev.Args[4] != u.ev.Args[4] {
			return "the splits of a loop are scored for different targets or branches"
		}
		b, lo, hi := side(a, 1)
		rb, rlo, rhi := side(a, 2)
		if b == nil || b != rb || !isZero(lo) || hi != rlo || rhi != strip(lenT(b)) {
			return "undecided: the sides scored are not the two parts of one list"
		}
	}
	base, from, to := side(u, 5)
	lb, _, end := side(u, 1)
	if base == nil || base != lb || to != end {
		return "the cases handed on as moved are not the last of those on the left"
	}
	// what changes only with a split scored
	kept := map[*Term]bool{}
	for v := range k.symbols(e) {
		kept[v] = true
		for _, p := range k.Paths {
			if _, ok := at[p]; !ok && p.To == k && e.plain(p.next(v)) != v {
				kept[v] = false
			}
		}
	}
	enter, _ := e.into(k)
	for _, q := range enter {
		sub := func(t *Term) *Term {
			return rewrite(t, func(y *Term) *Term {
				if y.Op == "sym" && kept[y] {
					return q.next(y)
				}
				return nil
			})
		}
		facts := append([]*Term(nil), q.All()...)
		for _, g := range u.p.before(u.ev) {
			facts = append(facts, sub(g))
		}
		if !contradictory(facts) {
			return "an impurity can be updated before any split was scored"
		}
	}
	after := func(p *Path) *Term {
		return e.plain(rewrite(from, func(y *Term) *Term {
			if y.Op == "sym" && e.phiCut(y) == k {
				return p.next(y)
			}
			return nil
		}))
	}
	for _, p := range k.Paths {
		if p.To != k {
			continue
		}
		a, scored := at[p]
		if !scored {
			if after(p) != from {
				return "the cases that moved are taken from a place that changes without a split being scored"
			}
			continue
		}
		b, _, hi := side(a, 1)
		if b != base {
			return "the splits of a loop are of different lists"
		}
		if after(p) != hi {
			return "the cases handed on as moved do not begin where the left side of the last split scored ended"
		}
		for _, ev := range p.Events {
			if ev != a.ev && ev.Kind == "call" && strings.HasPrefix(ev.Name, "Target.") && len(ev.Args) > 1 {
				for _, arg := range ev.Args[1:] {
					if arg == s.allocs || field(strip(arg), ".LCounter") != nil || field(strip(arg), ".RCounter") != nil {
						return "the counts are changed between two splits"
					}
				}
			}
		}
	}
	return ""
}

func init() {
	register(&Rule{ID: "C11", What: "the impurity of a split is the average over its branches, whether computed anew or from what moved: path summaries of every target's SplitImpurity and UpdateSImpFromAllocs as normal forms over the reals, and the chain of cases the numeric search hands on", Min: 60,
		Assume: []string{"arithmetic is exact: rounding and overflow are not modelled"}, Run: (*Check).averages})
}
