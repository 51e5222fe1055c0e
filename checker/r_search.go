package main

import (
	"go/types"
	"math/big"
	"strings"
)

// ---- C09, C10, C13: what the search for a feature's best split scores, keeps and returns -------------

// search is one analysis of a feature's BestSplit with everything but the target and the sort inlined.
type search struct {
	c       *Check
	e       *Exec
	key     string
	typ     string
	missing bool // the run in which the feature has missing values
	f, target, cases, parent, leaf,
	random, allocs *Term
	list    *Term // the cell of the cases whose value is present
	absent  *Term // the cell of the cases whose value is missing
	parts   *Cut  // the loop that fills both
	pairs   map[[3]*Term]string
	claimed map[*Event]bool // scored splits whose score is compared with the best one
}

// attempt is a split handed to the target.
type attempt struct {
	p  *Path
	ev *Event
}

func isScore(ev *Event) bool {
	return ev.Kind == "call" && (ev.Name == "Target.SplitImpurity" || ev.Name == "Target.UpdateSImpFromAllocs")
}

func (s *search) attempts() (out []attempt) {
	s.e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if isScore(ev) {
				out = append(out, attempt{p, ev})
			}
		}
	})
	return
}

// searches analyses BestSplit of both kinds of features, with and without missing values.
func (c *Check) searches() (out []*search) {
	for _, typ := range []string{"DenseNumFeature", "DenseCatFeature"} {
		f := c.method(typ, "BestSplit")
		if f == nil {
			continue
		}
		key := "search/" + typ + ".BestSplit"
		opt := Options{Opaque: opaque("sortby.SortBy")}
		e := c.run(f, "search", opt)
		if e == nil {
			continue
		}
		if len(f.Params) != 7 {
			c.bad(key, f.Pos(), "undecided: %s.BestSplit has other parameters", typ)
			continue
		}
		var has *Term
		e.each(func(cu *Cut, p *Path) {
			for _, g := range p.All() {
				g.walk(func(x *Term) bool {
					if o := field(x, typ+".HasMissing"); o != nil && o == e.param(0) {
						has = x.Args[0]
					}
					return true
				})
			}
		})
		if has == nil {
			c.bad(key, f.Pos(), "undecided: %s.BestSplit does not ask whether the feature has missing values", typ)
			continue
		}
		for _, missing := range []bool{false, true} {
			tag, o := "search/present", opt
			if missing {
				tag = "search/missing"
			}
			o.Mem = map[*Term]*Term{has: boolT(missing)}
			e := c.run(f, tag, o)
			if e == nil {
				continue
			}
			s := &search{c: c, e: e, key: key, typ: typ, missing: missing, pairs: map[[3]*Term]string{}, claimed: map[*Event]bool{},
				f: e.param(0), target: e.param(1), cases: e.param(2), parent: e.param(3), leaf: e.param(4), random: e.param(5), allocs: e.param(6)}
			s.list = s.cases
			if missing && !s.sortsOut() {
				c.bad(key+"/missing", f.Pos(), "undecided: %s.BestSplit does not put each case in one of two lists by whether its value is missing", typ)
				continue
			}
			out = append(out, s)
		}
	}
	return
}

// ---- worlds: loop constants replaced by what they were when the loop was entered ----------------------

type world struct{ facts, ts []*Term }

// still: a loop variable that no turn changes, or a variable merged before a loop.
func (e *Exec) still(x *Term) *Cut {
	if x.Op != "sym" {
		return nil
	}
	k := e.phiCut(x)
	if k == nil {
		return nil
	}
	_, back := e.into(k)
	for _, p := range back {
		v := p.next(x)
		if v != x && e.plain(v) != x {
			return nil
		}
	}
	return k
}

// worlds replaces in facts and terms what loops leave alone by what it was before, for every way in.
func (e *Exec) worlds(facts, ts []*Term) []world {
	return e.worldsBut(facts, ts, nil)
}

func (e *Exec) worldsBut(facts, ts []*Term, but func(*Term) bool) []world {
	plain := func(l []*Term) (out []*Term) {
		for _, t := range l {
			out = append(out, e.plain(t))
		}
		return
	}
	todo := []world{{plain(facts), plain(ts)}}
	var done []world
	for n := 0; len(todo) > 0; n++ {
		if n > 4000 {
			return nil
		}
		w := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		var at *Cut
		for _, t := range append(append([]*Term(nil), w.ts...), w.facts...) {
			t.walk(func(x *Term) bool {
				if at == nil && x.Op == "sym" && (but == nil || !but(x)) {
					at = e.still(x)
				}
				return at == nil
			})
		}
		if at == nil {
			done = append(done, w)
			continue
		}
		enter, _ := e.into(at)
		for _, q := range enter {
			sub := func(l []*Term) (out []*Term) {
				for _, t := range l {
					out = append(out, e.plain(rewrite(t, func(x *Term) *Term {
						if x.Op == "sym" && e.phiCut(x) == at && e.still(x) == at {
							return q.next(x)
						}
						return nil
					})))
				}
				return
			}
			nw := world{append(sub(w.facts), plain(q.All())...), sub(w.ts)}
			if !contradictory(nw.facts) {
				todo = append(todo, nw)
			}
		}
	}
	return done
}

func contradictory(facts []*Term) bool {
	for i, f := range facts {
		if f.isFalse() || decide(facts[:i], f) == 0 {
			return true
		}
	}
	return false
}

// ---- linear inequalities ---------------------------------------------------------------------------------

// linear lists what facts say to be at least zero.
func linear(facts []*Term) (out []*Term) {
	for _, f := range facts {
		if f.Op == "ge0" {
			out = append(out, f.Args[0])
		}
		if f.Op == "eq0" {
			out = append(out, f.Args[0], negT(f.Args[0]))
		}
	}
	return
}

// draws adds what is known of random numbers and of lengths.
func draws(facts []*Term, t *Term) []*Term {
	out := append([]*Term(nil), facts...)
	t.walk(func(x *Term) bool {
		if a := isCall(x, "(*math/rand.Rand).Intn"); a != nil && len(a) == 2 {
			out = append(out, ge0(x), ge0(addI(subT(a[1], x), -1)))
		}
		if x.Op == "len" {
			out = append(out, ge0(x))
		}
		return true
	})
	return out
}

// proves decides goal >= 0 from facts, and from what loops keep true of their variables.
func (e *Exec) proves(facts []*Term, goal *Term, depth int) bool {
	goal = e.plain(goal)
	if r, ok := goal.rat(); ok {
		return r.Sign() >= 0
	}
	if depth < 0 {
		return false
	}
	facts = draws(facts, goal)
	if decide(facts, ge0(goal)) == 1 {
		return true
	}
	ls := linear(facts)
	for _, f := range ls {
		if r, ok := subT(goal, f).rat(); ok && r.Sign() >= 0 {
			return true
		}
	}
	if e.kept(goal, depth-1) {
		return true
	}
	for _, f := range ls {
		if shares(f, goal) && e.proves(facts, subT(goal, f), depth-2) {
			return true
		}
	}
	return false
}

func shares(a, b *Term) bool {
	return a.contains(func(x *Term) bool { return x.Op == "sym" && b.has(x) })
}

// kept: what is at least zero whenever a loop is entered and never falls in a turn of it.
func (e *Exec) kept(goal *Term, depth int) bool {
	seen := map[*Cut]bool{}
	ok := false
	goal.walk(func(x *Term) bool {
		if x.Op != "sym" || ok {
			return !ok
		}
		k := e.phiCut(x)
		if k == nil || seen[k] {
			return true
		}
		seen[k] = true
		enter, back := e.into(k)
		step := func(p *Path) *Term {
			return e.plain(rewrite(goal, func(y *Term) *Term {
				if y.Op == "sym" && e.phiCut(y) == k {
					return p.next(y)
				}
				return nil
			}))
		}
		for _, p := range back {
			r, is := subT(step(p), goal).rat()
			if !is || r.Sign() < 0 {
				return true
			}
		}
		for _, q := range enter {
			if !e.proves(q.All(), step(q), depth) {
				return true
			}
		}
		ok = len(enter) > 0
		return !ok
	})
	return ok
}

// ---- lists divided in two -----------------------------------------------------------------------------------

// divides decides that the loop at d goes through a list once and puts every element in exactly one of two
// lists, which it finds empty, by a condition. cond tells what a path knows of it for an element.
func (s *search) divides(d *Cut, l, r, src *Term, cond func(p *Path, x *Term) int) string {
	e := s.e
	enter, back := e.into(d)
	if len(enter) == 0 || len(back) == 0 {
		return "it is not made in a loop"
	}
	if e.members(d) != nil && len(e.members(d)) != 1 {
		return "the loop that makes it has loops inside"
	}
	for _, p := range back {
		var x, to *Term
		n := 0
		if l.Op == "sym" {
			for _, side := range []*Term{l, r} {
				v := p.next(side)
				if v == side {
					continue
				}
				n++
				to = side
				if v.Op == "append" && len(v.Args) == 2 && v.Args[0] == side {
					x = v.Args[1]
				}
			}
		}
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr != l && ev.Addr != r {
				continue
			}
			n++
			to = ev.Addr
			if v := ev.Val; v.Op == "append" && len(v.Args) == 2 && isLoadOf(v.Args[0], ev.Addr) {
				x = v.Args[1]
			}
		}
		if n != 1 || x == nil {
			return "a turn does not add exactly one element to one of the two sides"
		}
		if problem := e.overList(d, x, func(arr *Term) bool { return s.isList(arr, src) }); problem != "" {
			return "not every case is looked at once: " + problem
		}
		switch v := cond(p, x); {
		case v < 0:
			return "what decides the side of a case is unknown"
		case (v == 1) != (to == l):
			return "a case is put on the wrong side"
		}
	}
	lb, rb := s.backing(l), s.backing(r)
	if l.Op != "sym" {
		lb, rb = s.backing(mk("load", "", l)), s.backing(mk("load", "", r))
	}
	for cell := range lb {
		if rb[cell] {
			return "both sides are kept in the same list"
		}
	}
	if lb[src] || rb[src] {
		return "a side is kept in the list that is divided"
	}
	for _, q := range enter {
		for _, cell := range []*Term{l, r} {
			v := q.at(cell, nil)
			if cell.Op == "sym" {
				v = q.next(cell)
			}
			if v == nil || !emptyList(v) {
				return "a side does not start empty"
			}
		}
	}
	return ""
}

// holds decides a condition under what a path knows.
func (s *search) holds(p *Path, g *Term) bool {
	var facts []*Term
	for _, f := range p.All() {
		facts = append(facts, s.e.plain(f))
	}
	return decide(ordered(facts), s.e.plain(g)) == 1
}

// ordered adds what the facts say when no number is NaN.
func ordered(facts []*Term) []*Term {
	out := append([]*Term(nil), facts...)
	for _, f := range facts {
		if f.Op != "not" {
			continue
		}
		switch g := f.Args[0]; g.Op {
		case "lt":
			out = append(out, mk("le", "", g.Args[1], g.Args[0]))
		case "le":
			out = append(out, mk("lt", "", g.Args[1], g.Args[0]))
		}
	}
	return out
}

// isList: a reads the list of the cell.
func (s *search) isList(arr, cell *Term) bool {
	arr = s.e.plain(arr)
	return arr.Op == "load" && s.e.plain(arr.Args[0]) == cell
}

// backing lists the cells whose list a list may share its storage with.
func (s *search) backing(t *Term) map[*Term]bool {
	e := s.e
	out, seen := map[*Term]bool{}, map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		t = e.plain(t)
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "append", "slice":
			rec(t.Args[0])
		case "sym":
			for _, v := range e.phis(t) {
				rec(v)
			}
		case "load":
			cell := e.plain(t.Args[0])
			out[cell] = true
			for _, v := range e.puts(cell) {
				rec(v)
			}
		}
	}
	rec(t)
	return out
}

// scribbles: the event may write to the elements of the list a cell holds, or to the cell.
func (s *search) scribbles(ev *Event, cell *Term) bool {
	switch ev.Kind {
	case "append":
		return s.backing(ev.Addr)[cell]
	case "store":
		if s.e.plain(ev.Addr) == cell {
			return true
		}
		if ev.Addr.Op == "indexaddr" {
			return s.backing(ev.Addr.Args[0])[cell]
		}
	}
	return false
}

// spoiled: some run from the end of the loop that fills the list of a cell writes to the list before an event.
func (s *search) spoiled(cell *Term, at *Event) bool {
	type st struct {
		k     *Cut
		dirty bool
	}
	seen := map[st]bool{}
	hit := false
	var walk func(k *Cut, dirty bool)
	walk = func(k *Cut, dirty bool) {
		if hit || seen[st{k, dirty}] {
			return
		}
		seen[st{k, dirty}] = true
		for _, p := range k.Paths {
			if k == s.parts && p.To == k {
				continue
			}
			d := dirty
			for _, ev := range p.Events {
				if ev == at {
					hit = hit || d
					break
				}
				d = d || s.scribbles(ev, cell)
			}
			if p.To != nil && p.To != s.parts {
				walk(p.To, d)
			}
		}
	}
	walk(s.parts, false)
	return hit
}

// sortsOut finds the loop that parts the cases by whether their value is missing.
func (s *search) sortsOut() bool {
	e := s.e
	for _, d := range e.loopCuts() {
		var yes, no *Term
		ok := true
		_, back := e.into(d)
		cond := func(p *Path, x *Term) int {
			out := -1
			for _, g := range p.Guards {
				pos := g
				if g.Op == "not" {
					pos = g.Args[0]
				}
				if arr, i := elem(pos); arr != nil && field(arr, s.typ+".Missing") == s.f && strip(i) == strip(x) {
					if g == pos {
						out = 1
					} else {
						out = 0
					}
				}
			}
			return out
		}
		for _, p := range back {
			for _, ev := range p.Events {
				if ev.Kind != "append" || len(ev.Args) != 1 || ev.Addr.Op != "load" {
					continue
				}
				cell := ev.Addr.Args[0]
				switch cond(p, ev.Args[0]) {
				case 1:
					ok = ok && (yes == nil || yes == cell)
					yes = cell
				case 0:
					ok = ok && (no == nil || no == cell)
					no = cell
				}
			}
		}
		if ok && yes != nil && no != nil && yes != no && s.divides(d, yes, no, s.cases, cond) == "" {
			s.list, s.absent, s.parts = no, yes, d
			return true
		}
	}
	return false
}

// ---- C09: leaf size -----------------------------------------------------------------------------------------

// sizes lists terms for the length of the list a pointer refers to at an event.
func (s *search) sizes(a attempt, ptr *Term) (out []*Term) {
	if v := a.p.at(ptr, a.ev); v != nil {
		return []*Term{lenT(v)}
	}
	for _, l := range loadsOf(a.p.Guards, ptr) {
		out = append(out, lenT(l))
	}
	return
}

func (s *search) leafSizes() {
	c := s.c
	as := s.attempts()
	if len(as) == 0 {
		c.bad(s.key+"/leaf", s.e.Root.Pos(), "undecided: %s.BestSplit scores no split", s.typ)
	}
	for _, a := range as {
		for i, side := range []string{"left", "right"} {
			c.ob(s.typ+".BestSplit", "a scored split leaves at least leafSize cases on the "+side)
			ok := false
			ns := s.sizes(a, a.ev.Args[1+i])
			for _, n := range ns {
				ok = ok || s.e.proves(a.p.before(a.ev), subT(n, s.leaf), 5)
			}
			if !ok {
				c.bad(s.key+"/leaf/"+fnOf(a.ev.In)+"/"+side, instrPos(a.ev.In), "%s can score a split that leaves fewer than leafSize cases on the %s", fnOf(a.ev.In), side)
			}
		}
	}
}

// ---- C10: pairs of best split and best score ---------------------------------------------------------------

// noSplit: a score that FeatureMatrix.BestSplitter does not take for a split.
func noSplit(t *Term) bool {
	r, ok := t.rat()
	if !ok {
		return false
	}
	lim, _ := new(big.Rat).SetString("0.00000010000001")
	return r.Cmp(lim) < 0
}

// score is what a scored split is worth at the end of a path: the impurity it takes away, or the target's
// own figure when the impurity before is negative.
func (s *search) score(a attempt) *Term {
	for _, g := range ordered(a.p.All()) {
		if q := negative(g); q != nil && s.isParent(q, a) {
			return a.ev.Res
		}
		if g.Op == "le" && isZero(g.Args[0]) && s.isParent(g.Args[1], a) {
			return subT(g.Args[1], a.ev.Res)
		}
	}
	return nil
}

// negative matches q < 0.
func negative(g *Term) *Term {
	if g.Op == "lt" && len(g.Args) == 2 && isZero(g.Args[1]) {
		return g.Args[0]
	}
	return nil
}

// isParent: q is the impurity of the cases that are searched.
func (s *search) isParent(q *Term, a attempt) bool {
	ws := s.e.worlds(a.p.before(a.ev), []*Term{q})
	for _, w := range ws {
		v := w.ts[0]
		if !s.missing {
			if v != s.parent {
				return false
			}
			continue
		}
		x := isCall(v, "Target.Impurity")
		if x == nil || len(x) < 2 || x[0] != s.target || x[1] != s.list || !s.fresh(v, s.list) {
			return false
		}
	}
	return len(ws) > 0
}

// content is what a split variable holds at the end of a path: its own value, or that of the big number it
// was set to last. changed tells whether the path touched it.
func (s *search) content(p *Path, b *Term) (v *Term, src *Term, at *Event, changed bool) {
	e := s.e
	v = b
	if k := e.phiCut(b); k != nil && p.To == k {
		v = e.plain(p.next(b))
	}
	if v != b {
		if a := isCall(v, "(*math/big.Int).Set"); a != nil && len(a) == 2 {
			for _, ev := range p.Events {
				if ev.Res == v {
					return v, e.plain(a[1]), ev, true
				}
			}
		}
		return v, nil, nil, true
	}
	for _, ev := range p.Events {
		if mutates(ev, b, e) {
			src, at, changed = nil, ev, true
			if ev.Name == "(*math/big.Int).Set" {
				src = e.plain(ev.Args[1])
			}
		}
	}
	return
}

func isBig(t types.Type) bool { return t != nil && strings.HasSuffix(t.String(), "math/big.Int") }

// mutates: the event changes the big number b.
func mutates(ev *Event, b *Term, e *Exec) bool {
	if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "(*math/big.Int).") || len(ev.Args) == 0 {
		return false
	}
	switch strings.TrimPrefix(ev.Name, "(*math/big.Int).") {
	case "Bit", "Cmp", "CmpAbs", "Sign", "BitLen", "String", "Int64", "Uint64", "IsInt64", "Bits", "Bytes", "Text", "TrailingZeroBits":
		return false
	}
	return e.plain(ev.Args[0]) == b
}

// apart: two big numbers are different objects.
func (s *search) apart(a, b *Term) bool {
	ws := s.e.worlds(nil, []*Term{a, b})
	for _, w := range ws {
		for _, t := range w.ts {
			if isCall(t, "math/big.NewInt") == nil && t.Op != "alloc" {
				return false
			}
		}
		if w.ts[0] == w.ts[1] {
			return false
		}
	}
	return len(ws) > 0
}

// pair decides that at the head of the loop at k the variables b and sc are a split and its score, the
// greatest of those scored so far, unless sc is still what it was at the start.
func (s *search) pair(k *Cut, sc, b *Term) string {
	id := [3]*Term{intT(int64(k.ID)), sc, b}
	if v, ok := s.pairs[id]; ok {
		return v
	}
	s.pairs[id] = ""
	problem := s.pairAt(k, sc, b)
	s.pairs[id] = problem
	return problem
}

func (s *search) pairAt(k *Cut, sc, b *Term) string {
	e := s.e
	enter, back := e.into(k)
	if !k.Loop || len(back) == 0 {
		return "the best score is not kept by a loop"
	}
	m := e.members(k)
	for _, q := range enter {
		v := e.plain(q.next(sc))
		if noSplit(v) {
			continue
		}
		if e.phiCut(v) != nil && e.phiCut(v) != k {
			continue // judged where the pair is taken over
		}
		return "the search starts with the score " + v.String()
	}
	inner := map[*Term]*Cut{}
	for _, p := range back {
		ns := e.plain(p.next(sc))
		nb, src, at, changed := s.content(p, b)
		if ns == sc {
			if changed {
				return "the best split changes but its score does not"
			}
			continue
		}
		if !s.holds(p, ltT(sc, ns, types.Typ[types.Float64])) {
			return "a split replaces the best one without a greater score"
		}
		if !changed {
			return "a better score is kept without its split"
		}
		ok, why := false, "the score kept is not that of the split kept"
		for _, ev := range p.Events {
			if !isScore(ev) {
				continue
			}
			a := attempt{p, ev}
			if x := s.score(a); x != nil && e.plain(x) == ns {
				s.claimed[ev] = true
				if why = s.describes(a, b, nb, src, at); why == "" {
					ok = true
				}
			}
		}
		if d := e.phiCut(ns); !ok && d != nil && m[d] && d != k {
			// the best of an inner search
			ib := nb
			if isBigT(b) {
				ib = src
			}
			if ib == nil {
				return "the split of a better score is not kept with it"
			}
			for _, q := range p.Events {
				if isBigT(b) && mutates(q, ib, e) && q.Idx < at.Idx {
					return "the split of a better score is changed before it is kept"
				}
			}
			if isBigT(b) && nb == b && !s.apart(ib, b) {
				return "the best split is the same number as the one that is tried"
			}
			en, _ := e.into(d)
			for _, q := range en {
				if v := e.plain(q.next(ns)); v != sc && !noSplit(v) {
					return "an inner search starts with the score " + v.String()
				}
			}
			inner[ns] = d
			why = s.pair(d, ns, ib)
			ok = why == ""
		}
		if !ok {
			return why
		}
	}
	// nothing better is passed over
	for d := range m {
		for _, p := range d.Paths {
			if p.End == "panic" || p.End == "exit" {
				continue
			}
			adopts := p.To == k && e.plain(p.next(sc)) != sc
			for _, ev := range p.Events {
				if !isScore(ev) {
					continue
				}
				x := s.score(attempt{p, ev})
				if x == nil {
					return "undecided: the worth of a scored split is unknown"
				}
				hasInner := false
				for _, c := range inner {
					hasInner = hasInner || e.members(c)[p.From]
				}
				if hasInner {
					continue // compared with the inner search's best
				}
				if p.To != k {
					return "a scored split is not compared with the best one"
				}
				s.claimed[ev] = true
				if !adopts && !s.holds(p, notT(ltT(sc, e.plain(x), types.Typ[types.Float64]))) && !s.holds(p, notT(ltT(sc, x, types.Typ[types.Float64]))) {
					return "a scored split is dropped though its score may be greater"
				}
			}
			for is, c := range inner {
				cm := e.members(c)
				if cm[d] && (p.To == nil || !cm[p.To]) && !adopts && !s.holds(p, notT(ltT(sc, is, types.Typ[types.Float64]))) {
					return "the best split of an inner search is dropped though its score may be greater"
				}
			}
		}
	}
	return ""
}

func isBigT(b *Term) bool { return isBig(derefType(b.T)) }

func derefType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// describes decides that the split kept is the one the target scored. For a big number at is the event that
// sets it and src the number it is set to.
func (s *search) describes(a attempt, b, nb, src *Term, at *Event) string {
	e := s.e
	want := nb
	if b != nil && isBigT(b) {
		if src == nil {
			return "the split kept is not a copy of the one scored"
		}
		if nb == b && !s.apart(src, b) {
			return "the split kept is the same number as the one that is tried"
		}
		want = src
	}
	p, ev := a.p, a.ev
	l, r := ev.Args[1], ev.Args[2]
	if lv, rv := p.at(l, ev), p.at(r, ev); lv != nil && rv != nil {
		if lv.Op != "sym" || rv.Op != "sym" || lv == rv || e.phiCut(lv) != p.From || e.phiCut(rv) != p.From {
			return s.sliced(a, e.plain(lv), e.plain(rv), want)
		}
		l, r = lv, rv
	} else if l.Op != "alloc" && l.Op != "load" && l.Op != "fieldaddr" || l == r {
		return "undecided: the sides scored are unknown"
	}
	for _, x := range p.Events {
		if x == ev || l.Op == "sym" {
			break
		}
		if x.Kind == "store" && (x.Addr == l || x.Addr == r) {
			return "a side is changed before it is scored"
		}
	}
	d := p.From
	if !d.Loop {
		return "undecided: the sides scored are not made in a loop"
	}
	var by *Term
	same := true
	cond := func(q *Path, x *Term) int {
		n, pos := s.bitOf(q, x)
		if n == nil {
			return -1
		}
		if by != nil && by != n {
			same = false
		}
		by = n
		if pos {
			return 1
		}
		return 0
	}
	if problem := s.divides(d, l, r, s.list, cond); problem != "" {
		return "the sides scored are not those of a split: " + problem
	}
	if by == nil || !same {
		return "the sides scored are not those of one split"
	}
	if by != want {
		return "the split kept is " + want.String() + " and the one scored is " + by.String()
	}
	if isBigT(want) {
		// unchanged while the cases are sent to the sides and until it is copied
		for m := range e.members(d) {
			for _, q := range m.Paths {
				if q.To != nil && e.members(d)[q.To] {
					for _, x := range q.Events {
						if mutates(x, want, e) {
							return "the split changes while cases are sent to the sides"
						}
					}
				}
			}
		}
		for _, x := range p.Events {
			if x == at {
				break
			}
			if mutates(x, want, e) {
				return "the split scored is changed before it is kept"
			}
		}
	}
	return ""
}

// bitOf finds the test of the bit of a case's category: the number tested and how the test came out.
func (s *search) bitOf(p *Path, x *Term) (n *Term, pos bool) {
	for _, g := range p.Guards {
		t, yes := g, true
		if g.Op == "not" {
			t, yes = g.Args[0], false
		}
		if t.Op != "bit" || len(t.Args) != 2 {
			continue
		}
		if arr, i := elem(t.Args[1]); arr != nil && field(arr, s.typ+".CatData") == s.f && strip(i) == strip(x) {
			return s.e.plain(t.Args[0]), yes
		}
	}
	return nil, false
}

// sliced decides the same for sides that are slices of one list.
func (s *search) sliced(a attempt, l, r, want *Term) string {
	e := s.e
	if l.Op != "slice" || r.Op != "slice" {
		return "undecided: the sides scored are unknown"
	}
	lo := l.Args[1]
	if lo.Op != "none" && !isZero(lo) {
		return "the left side does not start at the first case"
	}
	if hi := r.Args[2]; hi.Op != "none" && strip(hi) != strip(lenT(r.Args[0])) {
		return "the right side does not end at the last case"
	}
	if l.Args[0] != r.Args[0] && strip(l.Args[0]) != strip(r.Args[0]) || !s.isList(l.Args[0], s.list) {
		return "the sides scored are not parts of the cases that are searched"
	}
	end, start := l.Args[2], e.plain(r.Args[1])
	if end.Op == "none" {
		end = lenT(l.Args[0])
	}
	end = e.plain(end)
	if v := s.sorted(a); v != nil {
		return s.threshold(a, v, end, start, want)
	}
	return s.inPlace(a, l.Args[0], end, start, want)
}

// sorted returns the values of the cases when they have been sorted together.
func (s *search) sorted(a attempt) (vals *Term) {
	s.e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Fn != nil && ev.Fn.Name() == "SortBy" && len(ev.Args) == 2 {
				v := p.at(ev.Args[0], ev)
				if v == nil {
					v = p.From.In.base[ev.Args[0]]
				}
				if v == nil || s.isList(v, s.list) {
					vals = ev.Args[1]
				}
			}
		}
	})
	return
}

// threshold: the left side is the first end cases in order of value; what is kept lies between the last
// value of the left side and the first of the right one.
func (s *search) threshold(a attempt, valCell, end, start, want *Term) string {
	e, p := s.e, a.p
	if end != start {
		return "the sides scored overlap or leave cases out"
	}
	F := types.Typ[types.Float64]
	at := func(t *Term) *Term { // index of a value read from the sorted values
		arr, i := elem(t)
		if arr == nil || !isLoadOf(arr, valCell) {
			return nil
		}
		return e.plain(i)
	}
	var below, above []*Term
	for _, g := range p.All() {
		g.walk(func(x *Term) bool {
			switch i := at(x); i {
			case nil:
			case addI(end, -1):
				below = append(below, x)
			case end:
				above = append(above, x)
			}
			return true
		})
	}
	wi := at(want)
	if wi == addI(end, -1) {
		below = append(below, want)
	}
	lower, upper := wi == addI(end, -1), false
	for _, b := range below {
		lower = lower || s.holds(p, leT(b, want, F))
	}
	for _, v := range above {
		upper = upper || s.holds(p, ltT(want, v, F))
	}
	if !lower {
		return "the threshold kept may be below a value of the left side"
	}
	if !upper && wi == addI(end, -1) {
		upper = s.gap(a, at, end)
	}
	if !upper {
		return "the threshold kept may not be below the values of the right side"
	}
	return ""
}

// gap: the first value of the right side is greater than the last of the left one.
func (s *search) gap(a attempt, at func(*Term) *Term, end *Term) bool {
	e, p := s.e, a.p
	for _, g := range p.All() {
		x, y, cut := beyond(g) // y > x + cut
		if x == nil || at(y) != end {
			continue
		}
		if r, ok := cut.rat(); !ok || r.Sign() < 0 {
			continue
		}
		xi := at(x)
		if xi == nil {
			continue
		}
		if xi == addI(end, -1) {
			return true
		}
		// the last value looked at: those after it are within the cut of it
		k := e.phiCut(xi)
		if k == nil || !k.Loop {
			continue
		}
		ok := true
		enter, back := e.into(k)
		for _, q := range enter {
			ok = ok && q.next(xi) == addI(q.next(end), -1)
		}
		for _, q := range back {
			nx, ni := e.plain(q.next(xi)), e.plain(q.next(end))
			if nx == addI(ni, -1) {
				continue
			}
			within := false
			if nx == xi {
				for _, h := range q.All() {
					u, w, cc := close(h) // w <= u + cc
					if u != nil && at(u) == nx && at(w) == addI(ni, -1) && cc == cut {
						within = true
					}
				}
			}
			ok = ok && within
		}
		if ok {
			return true
		}
	}
	return false
}

// beyond matches y > x + cut for a constant cut; close matches y <= x + cut.
func beyond(g *Term) (x, y, cut *Term) {
	if g.Op == "not" && g.Args[0].Op == "le" {
		return sumCut(g.Args[0].Args[1], g.Args[0].Args[0])
	}
	if g.Op == "lt" {
		return sumCut(g.Args[0], g.Args[1])
	}
	return nil, nil, nil
}

func close(g *Term) (x, y, cut *Term) {
	if g.Op == "le" {
		return sumCut(g.Args[1], g.Args[0])
	}
	if g.Op == "not" && g.Args[0].Op == "lt" {
		return sumCut(g.Args[0].Args[0], g.Args[0].Args[1])
	}
	return nil, nil, nil
}

// sumCut: s is x + cut; what is compared with it may have the constant instead.
func sumCut(sum, y *Term) (x, yy, cut *Term) {
	k := intT(0)
	atom := func(t *Term, sign int64) *Term {
		p := asPoly(t)
		var out *Term
		for _, m := range p.M {
			switch {
			case len(m.F) == 0:
				k = addT(k, scaleT(intT(sign), m.C))
			case len(m.F) == 1 && m.F[0].E == 1 && m.C.Cmp(big.NewRat(1, 1)) == 0 && out == nil:
				out = m.F[0].T
			default:
				return nil
			}
		}
		return out
	}
	x = atom(sum, 1)
	yy = atom(y, -1)
	if x == nil || yy == nil {
		return nil, nil, nil
	}
	return x, yy, k
}

// inPlace decides that a loop has moved the cases so that the first end of them are those whose category's
// bit is set, and those from start on the others.
func (s *search) inPlace(a attempt, list, end, start, want *Term) string {
	e, p := s.e, a.p
	d := p.From
	enter, back := e.into(d)
	if !d.Loop || len(back) == 0 || len(e.members(d)) != 1 {
		return "undecided: the sides scored are not made by one loop"
	}
	if e.phiCut(start) != d {
		return "the right side does not start where the loop stopped"
	}
	var by, idx, cache *Term
	for _, q := range back {
		n, i, cv, pos := s.sideOf(q, list)
		if n == nil {
			return "what decides the side of a case is unknown"
		}
		if by != nil && (by != n || idx != i || cv != cache) {
			return "the sides scored are not those of one split"
		}
		by, idx, cache = n, i, cv
		step := func(t *Term) *Term {
			return subT(e.plain(rewrite(t, func(x *Term) *Term {
				if x.Op == "sym" && e.phiCut(x) == d {
					return q.next(x)
				}
				return nil
			})), t)
		}
		moved := func(t *Term, n int64) bool { v, ok := step(t).intc(); return ok && v == n }
		swaps, other := s.swapped(q, list, cache, idx, addI(start, -1))
		if pos {
			if !moved(end, 1) || !moved(idx, 1) || !moved(start, 0) || swaps != 0 || other {
				return "a case of the left side is not kept there"
			}
		} else {
			need := 2
			if cache != nil {
				need = 4
			}
			if !moved(end, 0) || !moved(idx, 0) || !moved(start, -1) || swaps != need || other {
				return "a case of the right side is not moved there"
			}
		}
	}
	for _, q := range enter {
		first := func(t *Term) *Term {
			return e.plain(rewrite(t, func(x *Term) *Term {
				if x.Op == "sym" && e.phiCut(x) == d {
					return q.next(x)
				}
				return nil
			}))
		}
		if !isZero(first(end)) || !isZero(first(idx)) || strip(first(start)) != strip(lenT(list)) {
			return "the loop that makes the sides does not start with all cases"
		}
	}
	if !s.holds(p, ge0(subT(idx, start))) {
		return "the loop that makes the sides may stop early"
	}
	if cache != nil {
		if problem := s.cached(cache, list, d); problem != "" {
			return problem
		}
	}
	if by == want {
		return ""
	}
	// of two categories either may be sent left
	x, ok := by.intc()
	y, ok2 := want.intc()
	if ok && ok2 && x+y == 3 && x > 0 && y > 0 && s.two(p) {
		return ""
	}
	return "the split kept is " + want.String() + " and the one scored is " + by.String()
}

// two: the feature has exactly two categories.
func (s *search) two(p *Path) bool {
	for _, w := range s.e.worlds(p.All(), nil) {
		ok := false
		for _, g := range w.facts {
			g.walk(func(x *Term) bool {
				if x.Op == "len" && strings.HasSuffix(lastField(x.Args[0]), ".Back") {
					ok = ok || decide(w.facts, eq0(addI(x, -2))) == 1
				}
				return true
			})
		}
		if !ok {
			return false
		}
	}
	return true
}

func lastField(t *Term) string {
	if t.Op == "load" && t.Args[0].Op == "fieldaddr" {
		return t.Args[0].S
	}
	return ""
}

// sideOf finds the test that decides the side of the case at an index of the list: the split tested, the
// index, the array of cached bits if one is used, and how the test came out.
func (s *search) sideOf(p *Path, list *Term) (n, idx, cache *Term, pos bool) {
	cat := func(t *Term) *Term { // CatData[list[i]] -> i
		arr, x := elem(t)
		if arr == nil || field(arr, s.typ+".CatData") != s.f {
			return nil
		}
		l, i := elem(x)
		if l == nil || strip(s.e.plain(l)) != strip(list) {
			return nil
		}
		return s.e.plain(i)
	}
	for _, g := range p.Guards {
		t, yes := g, true
		if g.Op == "not" {
			t, yes = g.Args[0], false
		}
		if t.Op == "bit" && len(t.Args) == 2 {
			if i := cat(t.Args[1]); i != nil {
				return s.e.plain(t.Args[0]), i, nil, yes
			}
		}
		if t.Op != "eq0" {
			continue
		}
		if x := t.Args[0]; x.Op == "and" && len(x.Args) == 2 {
			for j := 0; j < 2; j++ {
				arr, i := elem(x.Args[j])
				if arr != nil && s.fill(arr) != nil {
					return s.e.plain(x.Args[1-j]), s.e.plain(i), arr, !yes
				}
			}
		}
		// a category compared with a constant
		for _, m := range asPoly(t.Args[0]).M {
			if len(m.F) != 1 || m.F[0].E != 1 {
				continue
			}
			if i := cat(m.F[0].T); i != nil {
				v := divT(subT(t.Args[0], scaleT(m.F[0].T, m.C)), scaleT(intT(-1), m.C))
				if k, ok := v.intc(); ok && k >= 0 && k < 31 {
					return intT(1 << uint(k)), i, nil, yes
				}
			}
		}
	}
	return
}

// fill finds the loop that stores the bit of every case's category in an array.
func (s *search) fill(arr *Term) (k *Cut) {
	for _, d := range s.e.loopCuts() {
		_, back := s.e.into(d)
		for _, p := range back {
			for _, ev := range p.Events {
				if ev.Kind != "store" || p.From != d {
					continue
				}
				a, _ := addrElem(ev.Addr)
				if a != nil && strip(a) == strip(arr) && ev.Val.Op == "shl" && isOne(ev.Val.Args[0]) {
					k = d
				}
			}
		}
	}
	return
}

// cached decides that an array holds the bits of the categories of the cases of a list when the loop at d
// is entered, and that nothing but exchanges in d changes it.
func (s *search) cached(arr, list *Term, d *Cut) string {
	e := s.e
	k := s.fill(arr)
	_, back := e.into(k)
	for _, p := range back {
		n := 0
		for _, ev := range p.Events {
			a, i := (*Term)(nil), (*Term)(nil)
			if ev.Kind == "store" {
				a, i = addrElem(ev.Addr)
			}
			if a == nil || strip(a) != strip(arr) {
				continue
			}
			n++
			v := ev.Val
			if v.Op != "shl" || !isOne(v.Args[0]) {
				return "the bits of the categories are not stored"
			}
			ca, x := elem(v.Args[1])
			if ca == nil || field(ca, s.typ+".CatData") != s.f {
				return "the bits stored are not those of the categories"
			}
			l, j := elem(x)
			if l == nil || strip(e.plain(l)) != strip(list) || j != i {
				return "the bits stored are not those of the cases at the same places"
			}
			if problem := e.overList(k, x, func(t *Term) bool { return strip(e.plain(t)) == strip(list) }); problem != "" {
				return "the bits of some categories are not stored: " + problem
			}
		}
		if n != 1 {
			return "the bits of some categories are not stored"
		}
	}
	problem := ""
	e.each(func(cu *Cut, p *Path) {
		if cu == d || cu == k && p.To == k {
			return
		}
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if a, _ := addrElem(ev.Addr); a != nil && (strip(a) == strip(arr) || strip(e.plain(a)) == strip(list)) && (p.From == k || e.inSearch(p, k)) {
					problem = "the cases or the bits of their categories are moved elsewhere"
				}
			}
		}
	})
	return problem
}

// inSearch: the path belongs to the same call as the loop at k.
func (e *Exec) inSearch(p *Path, k *Cut) bool { return p.From.Ctx == k.Ctx }

// swapped counts the stores of a path that exchange the places i and j of the list (and of the cache) and
// tells whether there are others into them.
func (s *search) swapped(p *Path, list, cache, i, j *Term) (n int, other bool) {
	for _, ev := range p.Events {
		if ev.Kind != "store" {
			continue
		}
		arr, x := addrElem(ev.Addr)
		if arr == nil {
			continue
		}
		is := strip(s.e.plain(arr)) == strip(list)
		isC := cache != nil && strip(arr) == strip(cache)
		if !is && !isC {
			continue
		}
		x = s.e.plain(x)
		va, vx := elem(ev.Val)
		if va == nil || strip(s.e.plain(va)) != strip(s.e.plain(arr)) || !(x == i && s.e.plain(vx) == j || x == j && s.e.plain(vx) == i) {
			other = true
			continue
		}
		n++
	}
	return
}

// ---- C10, C13: what BestSplit returns -------------------------------------------------------------------------

// returned decides (corrected unset) that the score returned is made from that of the split returned, and
// (corrected set) that it is made from it as the missing cases require.
func (s *search) returned(corrected bool) {
	c, e := s.c, s.e
	n := 0
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || len(p.Ret) != 3 {
			return
		}
		n++
		c.ob(s.typ+".BestSplit", "the score returned belongs to the split returned")
		imp := e.plain(p.Ret[1])
		b := p.Ret[0]
		if b.Op == "iface" {
			b = b.Args[0]
		}
		b = e.plain(b)
		if noSplit(imp) {
			return
		}
		// which score it is made from
		var cands []*Term
		var from []attempt
		for _, ev := range p.Events {
			if isScore(ev) {
				if x := s.score(attempt{p, ev}); x != nil {
					cands, from = append(cands, e.plain(x)), append(from, attempt{p, ev})
				}
			}
		}
		imp.walk(func(x *Term) bool {
			if k := e.phiCut(x); x.Op == "sym" && k != nil && k.Loop && e.still(x) == nil {
				cands, from = append(cands, x), append(from, attempt{})
			}
			return true
		})
		why := "the score returned is not that of a split"
		for i, sc := range cands {
			w := ""
			if corrected || !s.missing {
				w = s.adjusted(p, imp, sc)
			} else {
				for _, x := range e.worlds(p.All(), []*Term{imp}) {
					made := x.ts[0].has(sc)
					if a := from[i]; a.p != nil {
						made = made || x.ts[0].has(e.plain(a.ev.Res))
					}
					if !made {
						w = why
					}
				}
			}
			if w != "" {
				if why == "the score returned is not that of a split" {
					why = w
				}
				continue
			}
			if corrected {
				return
			}
			if a := from[i]; a.p != nil {
				s.claimed[a.ev] = true
				why = s.describes(a, nil, b, nil, nil)
			} else {
				why = s.pair(e.phiCut(sc), sc, b)
				if why == "" && isBigT(b) {
					for _, ev := range p.Events {
						if mutates(ev, b, e) {
							why = "the best split is changed before it is returned"
						}
					}
				}
			}
			if why == "" {
				return
			}
		}
		c.bad(s.key+"/returned/"+fnOf(p.RetIn)+"/"+ctxName(p), instrPos(p.RetIn), "%s.BestSplit: %s", s.typ, why)
	})
	if n == 0 {
		c.bad(s.key+"/returned", e.Root.Pos(), "undecided: %s.BestSplit does not return", s.typ)
	}
	if corrected {
		return
	}
	for _, a := range s.attempts() {
		c.ob(s.typ+".BestSplit", "the score of a split is compared with the best one")
		if !s.claimed[a.ev] {
			c.bad(s.key+"/dropped/"+fnOf(a.ev.In), instrPos(a.ev.In), "%s scores a split and does not compare its score with the best one", fnOf(a.ev.In))
		}
	}
}

func ctxName(p *Path) string {
	if p.From != nil && p.From.Ctx != nil && p.From.Ctx.fn != nil {
		return p.From.Ctx.fn.Name()
	}
	return ""
}

// adjusted decides that a score is returned as it is when no case's value is missing or when there is no
// split, and otherwise with the missing cases as a branch of their own.
func (s *search) adjusted(p *Path, imp, sc *Term) string {
	e := s.e
	if !s.missing {
		if imp == sc {
			return ""
		}
		return "the score returned is not that of the split returned"
	}
	ws := e.worlds(p.All(), []*Term{imp})
	if len(ws) == 0 {
		return "undecided: the score returned"
	}
	F := types.Typ[types.Float64]
	for _, w := range ws {
		got := w.ts[0]
		scw := sc
		var nm *Term
		total := lenT(mk("load", "", s.cases))
		norm := func(t *Term) *Term {
			return rewrite(strip(t), func(x *Term) *Term {
				if x.Op == "len" && x.Args[0].Op == "load" && x.Args[0].Args[0] == s.list {
					return subT(total, mk("len", "", mk("load", "", s.absent)))
				}
				return nil
			})
		}
		some := false
		var mi, pi *Term
		for _, g := range append(append([]*Term(nil), w.facts...), got) {
			g.walk(func(x *Term) bool {
				if x.Op == "len" && x.Args[0].Op == "load" && x.Args[0].Args[0] == s.absent {
					nm = x
					some = some || decide(w.facts, ge0(addI(x, -1))) == 1
				}
				if a := isCall(x, "Target.Impurity"); len(a) >= 2 && a[0] == s.target {
					if a[1] == s.absent && s.fresh(x, s.absent) {
						mi = x
					}
					if a[1] == s.list && s.fresh(x, s.list) {
						pi = x
					}
				}
				return true
			})
		}
		none := nm != nil && decide(w.facts, ge0(negT(nm))) == 1
		lim := lowLimit(w.facts, sc)
		fs := ordered(w.facts)
		noneFound := decide(fs, notT(ltT(lim, sc, F))) == 1
		found := decide(fs, ltT(lim, sc, F)) == 1
		switch {
		case norm(got) == norm(scw):
			if !none && !noneFound {
				return "the score of a split is returned without its missing cases"
			}
		case some && found && mi != nil && pi != nil && nm != nil:
			m := mk("len", "", mk("load", "", s.absent))
			want := addT(s.parent, divT(subT(mulT(subT(total, m), subT(scw, pi)), mulT(m, mi)), total))
			if norm(got) != norm(want) {
				return "the score of a split with missing cases is not the impurity before less that of its three branches"
			}
		default:
			return "the score of a split is changed though no value is missing or no split was found"
		}
	}
	return ""
}

// fresh: a result was computed while the list of a cell was as it was filled.
func (s *search) fresh(x, cell *Term) bool {
	ok := true
	s.e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Res == x {
				ok = ok && !s.spoiled(cell, ev)
			}
		}
	})
	return ok
}

// lowLimit finds the constant a score is compared with to see whether there is a split.
func lowLimit(facts []*Term, sc *Term) *Term {
	for _, g := range facts {
		t := g
		if t.Op == "not" {
			t = t.Args[0]
		}
		if t.Op == "lt" && t.Args[1] == sc && noSplit(t.Args[0]) {
			if r, ok := t.Args[0].rat(); ok && r.Sign() > 0 {
				return t.Args[0]
			}
		}
	}
	r, _ := new(big.Rat).SetString("0.0000001")
	return scaleT(intT(1), r)
}

func init() {
	register(&Rule{ID: "C09", Min: 8,
		What: "BestSplit of both kinds of features is analysed with everything but the target and the sort inlined, with and without missing values: before every split handed to the target the conditions on the path, the invariants of the loops around it and what is known of random draws imply, by linear arithmetic, that the left and the right list hold at least leafSize cases each; in both tree growers every call of BestSplitter lies under conditions implying depth < maxDepth or maxDepth <= 0 for the node's own depth; BestSplitter, the growers, GrowRandomForest and growforest pass the leaf size (growforest: -leafSize wherever it parses to more than 0) and the maximum depth on unchanged",
		Run: func(c *Check) {
			for _, s := range c.searches() {
				s.leafSizes()
			}
			c.limits()
		}})
	register(&Rule{ID: "C10", Min: 8,
		What: "in both kinds of BestSplit, wherever the best score changes the best split changes with it and the other way round, the new score is proved greater on the path, it is the score of the two lists just handed to the target, those lists are exactly the cases whose category's bit is set and clear in the number kept (one turn per case, one list each; for partitions in place, the two-pointer loop with its cache of bits; for big numbers, a copy of the number tried) or the first i and the other cases in the order of the sort with a threshold at or above value i-1 and below value i; every scored split is compared; the score returned is made from the best one and the split returned is its partner. In FeatureMatrix.BestSplitter feature, split and score are replaced together, exactly under the condition that the score is greater, where the score is that of the search over the node's cases with their impurity, or with evaloob the out of bag impurity less that of the out of bag cases divided by the split, less the score of a search against a copy of the target permuted over the same cases when vetting",
		Run: func(c *Check) {
			for _, s := range c.searches() {
				s.returned(false)
			}
			c.adopts()
		}})
	register(&Rule{ID: "C13", Min: 4,
		What: "in both kinds of BestSplit analysed with missing values: the cases are divided, one turn per case, into those whose value is missing and the others; on every return, the score is that of the best split unchanged only where no case's value is missing or no split was found, and otherwise the formula parent + (n*(score - impurity of the others) - m*impurity of the missing)/(n+m), compared as polynomials; without missing values it is the score itself",
		Run: func(c *Check) {
			for _, s := range c.searches() {
				s.returned(true)
			}
		}})
}
