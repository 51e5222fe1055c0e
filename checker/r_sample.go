package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C29: samplers draw what they promise -----------------------------------------------------------

func isInts(t types.Type, depth int) bool {
	for t != nil && depth > 0 {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		t, depth = s.Elem(), depth-1
	}
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// uniform: t is a number drawn from [0,n).
func uniform(t, n *Term) bool {
	if t.Op != "call" || !strings.HasSuffix(t.S, "rand.Intn") && !strings.HasSuffix(t.S, "Rand).Intn") || len(t.Args) == 0 {
		return false
	}
	a := t.Args[len(t.Args)-1]
	return a == n || decideEq(a, n)
}

// drawnIn: the number is drawn anew in every turn of the loop.
func (e *Exec) drawnIn(k *Cut, t *Term) bool {
	m := e.members(k)
	in, out := false, false
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Res == t {
				if m[cu] {
					in = true
				} else {
					out = true
				}
			}
		}
	})
	return in && !out
}

// exactly: the loop around the appends to a list has n turns and adds one element in each.
func (e *Exec) exactly(g *gathered, is func(*Term) bool) (*Cut, string) {
	if len(g.appends) == 0 {
		return nil, "nothing is drawn"
	}
	var k *Cut
	for _, a := range g.appends {
		if a.all || len(a.elems) != 1 {
			return nil, "not one is drawn at a time"
		}
		l := e.loopOf(a.ev)
		if l == nil || k != nil && l != k {
			return nil, "undecided: the draws are not in one loop"
		}
		k = l
	}
	hits := func(p *Path) int {
		n := 0
		for _, ev := range p.Events {
			if ev.Kind == "append" && g.values[ev.Val] {
				n++
			}
		}
		return n
	}
	if !e.everyTurn(k, func(p *Path) bool { return hits(p) > 0 }) {
		return k, "a draw can be left out"
	}
	if !e.oncePerTurn(k, hits) {
		return k, "there can be more than one draw at a time"
	}
	for s := range k.symbols(e) {
		if s.T != nil && isInt(s.T) && e.trips(k, s, is) {
			return k, ""
		}
	}
	return k, "the number of draws is another one"
}

// sampleFrom decides a Sample method: n draws, each a case of a class.
func (c *Check) sampleFrom(typ string, class func(e *Exec, k *Cut, p *Path, ev *Event, classes *Term) string) {
	f := c.method(typ, "Sample")
	if f == nil {
		return
	}
	e := c.run(f, "draws", Options{})
	if e == nil {
		return
	}
	key := "sample/" + typ
	out, n := e.param(1), e.param(2)
	bad := func(why string) {
		c.bad(key, f.Pos(), "%s.Sample does not draw n cases evenly from its classes: %s", typ, why)
	}
	// the list is emptied before anything is drawn
	emptied := true
	for _, p := range e.Entry.Paths {
		ok := p.End == "panic"
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == out && emptyList(ev.Val) {
				ok = true
			}
		}
		emptied = emptied && ok
	}
	stores := 0
	g := e.gather(nil)
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == out && !emptyList(ev.Val) {
				stores++
				g.from(ev.Val)
			}
		}
	})
	if stores == 0 {
		bad("undecided: nothing is drawn")
		return
	}
	c.ob(typ+".Sample", "n draws")
	for _, o := range g.other {
		if !isLoadOf(o, out) || !emptied {
			bad("what was in the list before is kept")
			return
		}
	}
	k, why := e.exactly(g, func(t *Term) bool { return t == n })
	if why != "" {
		bad(why)
		return
	}
	for _, a := range g.appends {
		c.ob(typ+".Sample", "a draw")
		list, r := elem(a.elems[0])
		if list == nil || !uniform(r, lenT(list)) || !e.drawnIn(k, r) {
			bad("the case is not drawn evenly from its class")
			return
		}
		classes, q := elem(list)
		if classes == nil || !uniform(q, lenT(classes)) || !e.drawnIn(k, q) {
			bad("the class is not drawn evenly from the classes")
			return
		}
		if why := class(e, k, a.p, a.ev, classes); why != "" {
			bad(why)
			return
		}
	}
	// no way around the loop, and what is drawn is kept
	if e.reaches(func(p *Path) bool { return p.To == k }, func(p *Path) bool {
		return p.End == "return" && decide(p.All(), ge0(negT(n))) != 1
	}) != nil {
		bad("the draws can be left out")
	}
	e.each(func(cu *Cut, p *Path) {
		kept := false
		for _, ev := range p.Events {
			kept = kept || ev.Kind == "store" && ev.Addr == out && g.values[ev.Val]
		}
		if !kept && p.From != e.Entry && (p.End == "return" && !inPlace(g, out) || inPlace(g, out) && len(appendsOn(p, g)) > 0) {
			bad("a draw is not kept")
		}
	})
}

// inPlace: the list is kept in the variable all along.
func inPlace(g *gathered, out *Term) bool {
	for _, o := range g.other {
		if isLoadOf(o, out) {
			return true
		}
	}
	return false
}

func appendsOn(p *Path, g *gathered) (out []*Event) {
	for _, ev := range p.Events {
		if ev.Kind == "append" && g.values[ev.Val] {
			out = append(out, ev)
		}
	}
	return
}

// proportional: category b of this path was drawn with the chance of its share in the counts, in the loop
// the path leaves. late tells of a path that is taken only when the shares do not add up to the total.
func (e *Exec) proportional(k *Cut, p *Path, self, b *Term) (why string, late bool) {
	K := p.From
	if K == k || !e.members(k)[K] {
		return "undecided: the category is not drawn in a loop over the shares", false
	}
	share := func(t *Term) *Term {
		a, i := elem(t)
		if a != nil && field(a, ".Counts") == self {
			return i
		}
		return nil
	}
	var j, cnt *Term
	for _, q := range K.Paths {
		for _, g := range q.Guards {
			g.walk(func(t *Term) bool {
				if i := share(t); i != nil {
					if cnt != nil && cnt != t {
						why = "undecided: more than one share is looked at"
					}
					j, cnt = i, t
				}
				return true
			})
		}
	}
	if cnt == nil {
		return "the category does not depend on the shares", false
	}
	counts, _ := elem(cnt)
	facts := p.All()
	// what is left of the draw when the share is looked at
	var rest *Term
	for _, f := range facts {
		if f.Op == "ge0" && f.has(cnt) {
			if r := subT(addI(cnt, -1), f.Args[0]); !r.has(cnt) {
				rest = r
			}
		}
	}
	if rest == nil {
		if decide(facts, ge0(subT(j, addI(lenT(counts), -1)))) == 1 {
			return "", true
		}
		return "a category is taken before its share is reached", false
	}
	if b != j && !decideEq(b, j) {
		return "another category than the one drawn is taken", false
	}
	enter, _ := e.into(K)
	for _, q := range enter {
		t := q.next(rest)
		if t.Op != "call" || field(t.Args[len(t.Args)-1], ".Total") != self || !uniform(t, t.Args[len(t.Args)-1]) || !e.drawnIn(k, t) {
			return "no case is drawn from all of them", false
		}
		if !isZero(q.next(j)) {
			return "the categories are not gone through from the first", false
		}
	}
	for _, q := range K.Paths {
		if q.To != K {
			continue
		}
		switch {
		case !isZero(subT(q.next(rest), subT(rest, cnt))):
			why = "the shares are not taken off one after the other"
		case decide(q.All(), ge0(subT(rest, cnt))) != 1:
			why = "a category can be passed over"
		case !isOne(subT(q.next(j), j)):
			why = "the categories are not gone through one after the other"
		}
	}
	return why, false
}

func (c *Check) samplers() {
	c.sampleFrom("BalancedSampler", func(e *Exec, k *Cut, p *Path, ev *Event, classes *Term) string {
		if field(classes, ".Cases") != e.param(0) {
			return "the classes are others than its own"
		}
		return ""
	})
	drawn := false
	c.sampleFrom("SecondaryBalancedSampler", func(e *Exec, k *Cut, p *Path, ev *Event, classes *Term) string {
		all, b := elem(classes)
		if field(all, ".Samplers") != e.param(0) {
			return "the classes are others than its own"
		}
		why, late := e.proportional(k, p, e.param(0), b)
		drawn = drawn || why == "" && !late
		return why
	})
	if f := c.method("SecondaryBalancedSampler", "Sample"); f != nil && !drawn {
		c.bad("sample/SecondaryBalancedSampler", f.Pos(), "SecondaryBalancedSampler.Sample never draws a category by its share")
	}
	c.classesOf("NewBalancedSampler", 1)
	c.classesOf("NewSecondaryBalancedSampler", 2)
	c.withReplacement()
	c.bagSize()
}

// classesOf decides a constructor: every known case is put once into the class of its code, and classes
// without cases are dropped.
func (c *Check) classesOf(name string, depth int) {
	f := c.fn("", name)
	if f == nil {
		return
	}
	e := c.run(f, "classes", Options{Opaque: func(g *ssa.Function) bool { return g.Name() == "NCats" }})
	if e == nil {
		return
	}
	key := "sample/" + name
	bad := func(why string) {
		c.bad(key, f.Pos(), "%s does not make one class of each category's cases: %s", name, why)
	}
	feats := []*Term{e.param(0)} // from the innermost list outwards
	if depth == 2 {
		feats = append(feats, e.param(1))
	}
	isCode := func(t, f, i *Term) bool {
		if a := isCall(t, "Geti"); a != nil && len(a) == 2 {
			return a[0] == f && (a[1] == i || decideEq(a[1], i))
		}
		a, j := elem(t)
		return a != nil && field(a, ".CatData") == f && (j == i || decideEq(j, i))
	}
	isMissing := func(g, i *Term) bool {
		for _, f := range feats {
			if a := isCall(g, "IsMissing"); a != nil && len(a) == 2 && a[0] == f && decideEq(a[1], i) {
				return true
			}
			if a, j := elem(g); a != nil && field(a, ".Missing") == f && decideEq(j, i) {
				return true
			}
		}
		return false
	}
	isLen := func(t *Term) bool {
		for _, f := range feats {
			if a := isCall(t, "Length"); a != nil && a[0] == f {
				return true
			}
			if t.Op == "len" && (field(t.Args[0], ".Missing") == f || field(t.Args[0], ".CatData") == f) {
				return true
			}
		}
		return false
	}
	type put struct {
		p    *Path
		ev   *Event
		list *Term // the outermost list of classes
	}
	var puts []put
	isPut := map[*Event]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "append" && ev.Val.T != nil && isInts(ev.Val.T, 1) {
				puts = append(puts, put{p, ev, nil})
				isPut[ev] = true
			}
		}
	})
	if len(puts) == 0 {
		bad("undecided: no case is put into a class")
		return
	}
	hits := func(p *Path) int {
		n := 0
		for _, ev := range p.Events {
			if isPut[ev] {
				n++
			}
		}
		return n
	}
	var top *Term
	var K *Cut
	for _, u := range puts {
		c.ob(name, "a case is put into its class")
		if len(u.ev.Args) != 1 || u.ev.Val.Op == "appendall" {
			bad("undecided: more than one case is put at a time")
			return
		}
		i := u.ev.Args[0]
		list := u.ev.Addr
		for d := 0; d < depth; d++ {
			arr, code := elem(list)
			if arr == nil || !isCode(code, feats[d], i) {
				bad("a case is put into another class than its own")
				return
			}
			list = arr
		}
		stored := false
		for _, ev := range u.p.Events {
			if ev.Kind == "store" && ev.Val == u.ev.Val && ev.Addr.Op == "indexaddr" && ev.Addr == u.ev.Addr.Args[0] {
				stored = true
			}
		}
		if !stored {
			bad("a class is not kept")
			return
		}
		top = list
		k := e.loopOf(u.ev)
		if k == nil || K != nil && k != K {
			bad("undecided: where cases are put into classes")
			return
		}
		K = k
		if why := e.countsAny(k, i, isLen); why != "" {
			bad("not every case is considered: " + why)
			return
		}
		if !e.everyTurn(k, func(p *Path) bool {
			if hits(p) > 0 {
				return true
			}
			for _, g := range p.All() {
				if isMissing(g, i) {
					return true
				}
			}
			return false
		}) {
			bad("a case with a label can be left out")
			return
		}
	}
	if !e.oncePerTurn(K, hits) {
		bad("a case can be put twice")
	}
	c.ob(name, "classes without cases are dropped")
	// one class for each category
	for d, f := range feats {
		is := func(t *Term) bool {
			if a := isCall(t, "NCats"); a != nil && (a[0] == f || field(a[0], ".CatMap") == f) {
				return true
			}
			return t.Op == "len" && field(t.Args[0], ".Back") != nil && field(field(t.Args[0], ".Back"), ".CatMap") == f
		}
		ok := false
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "append" && ev.Val.T != nil && isInts(ev.Val.T, d+2) && len(ev.Args) == 1 && ev.Val.Op != "appendall" && emptyList(ev.Args[0]):
					k := e.loopOf(ev)
					if k == nil {
						continue
					}
					for s := range k.symbols(e) {
						if s.T != nil && isInt(s.T) && e.trips(k, s, is) && e.everyTurn(k, func(q *Path) bool {
							for _, o := range q.Events {
								if o == ev || o.In == ev.In {
									return true
								}
							}
							return false
						}) {
							ok = true
						}
					}
				}
				see := func(t *Term) {
					if t != nil && t.Op == "makeslice" && t.T != nil && isInts(t.T, d+2) && is(lenT(t)) {
						ok = true
					}
				}
				see(ev.Val)
				for _, a := range ev.Args {
					see(a)
				}
			}
		})
		if !ok {
			bad("there is not one class for each category")
		}
	}
	// filtering
	dropped := false
	var filters []*Event
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "append" || ev.Val.T == nil || !isInts(ev.Val.T, 2) || len(ev.Args) != 1 || ev.Val.Op == "appendall" {
				continue
			}
			x := ev.Args[0]
			arr, _ := elem(x)
			if arr == nil {
				continue
			}
			from := arr
			if depth == 2 {
				from, _ = elem(arr)
			}
			if from != top {
				continue
			}
			k := e.loopOf(ev)
			if k == nil {
				continue
			}
			has := func(q *Path) bool {
				for _, o := range q.Events {
					if o.In == ev.In && o.Kind == "append" {
						return true
					}
				}
				return false
			}
			g := e.gather(ev.Val)
			full := eq0(lenT(x))
			switch {
			case len(g.other) > 0 || g.empty == 0:
				bad("undecided: what the list of classes begins with")
			case decide(p.before(ev), full) != 0:
				bad("a class without cases is kept")
			case !e.everyTurn(k, func(q *Path) bool { return has(q) || decide(q.All(), full) == 1 }):
				bad("a class that has cases is dropped")
			case e.overList(k, x, func(a *Term) bool { return a == arr }) != "":
				bad("not every class is looked at")
			default:
				filters = append(filters, ev)
			}
			// the filtered list takes the place of the classes
			e.each(func(cu *Cut, q *Path) {
				for _, st := range q.Events {
					if st.Kind != "store" || st.Val.T == nil || !isInts(st.Val.T, 2) || !g.values[st.Val] {
						continue
					}
					switch {
					case depth == 1 && (addrField(st.Addr, ".Cases") != nil && fresh(rootTerm(st.Addr))):
						dropped = true
					case depth == 2:
						a2, j2 := addrElem(st.Addr)
						a1, j1 := elem(arr)
						if a2 == nil || a2 != a1 || !(j1 == j2 || decideEq(j1, j2)) {
							continue
						}
						kk := e.loopOf(st)
						if kk != nil && e.overList(kk, arr, func(a *Term) bool { return a == a1 }) == "" && e.everyTurn(kk, func(r *Path) bool {
							for _, o := range r.Events {
								if o.Kind == "store" && o.In == st.In {
									return true
								}
							}
							return false
						}) {
							dropped = true
						}
					}
				}
			})
		}
	})
	if !dropped || len(filters) == 0 {
		bad("classes without cases are kept, and there is nothing to draw from them")
		return
	}
	for _, ev := range filters {
		k := e.loopOf(ev)
		if e.reachesFrom(k, nil, func(p *Path) bool { return hits(p) > 0 }) != nil {
			bad("a case is put into a class after the classes were filtered")
		}
	}
	if e.reaches(func(p *Path) bool { return p.To == e.loopOf(filters[0]) }, func(p *Path) bool {
		if p.End != "return" {
			return false
		}
		return depth == 1 || decide(p.All(), eq0(lenT(top))) != 1 && !vacuous(p, top)
	}) != nil {
		bad("the filter can be left out")
	}
	if depth == 2 {
		c.shares(e, key, bad, puts[0].p, K, hits, feats[1], puts[0].ev.Args[0], isCode)
	}
}

// vacuous: the path leaves a loop over the list.
func vacuous(p *Path, list *Term) bool {
	for _, g := range p.Guards {
		if g.Op == "ge0" && g.has(lenT(list)) {
			return true
		}
	}
	return false
}

// shares: the counts and the total count what was put into the classes.
func (c *Check) shares(e *Exec, key string, bad func(string), p *Path, K *Cut, hits func(*Path) int, by, i *Term, isCode func(t, f, i *Term) bool) {
	c.ob("NewSecondaryBalancedSampler", "counts the cases of its categories")
	total, counts := 0, 0
	made := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && addrField(ev.Addr, ".Counts") != nil && ev.Val.Op == "makeslice" {
				made[ev.Val] = true
			}
		}
	})
	isCounts := func(a *Term) bool { return made[a] || field(a, ".Counts") != nil }
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			if o := addrField(ev.Addr, ".Total"); o != nil {
				switch {
				case isZero(ev.Val) && !e.members(K)[cu]:
				case plusOne(ev.Val, ev.Addr) && hits(p) == 1:
					total++
				default:
					bad("the total is another number")
				}
			}
			if a, b := addrElem(ev.Addr); a != nil && isCounts(a) {
				if !isCode(b, by, i) || hits(p) != 1 || !plusOne(ev.Val, ev.Addr) {
					bad("a category's share is not the number of its cases")
				}
				counts++
			}
		}
		if hits(p) > 0 {
			n, m := 0, 0
			for _, ev := range p.Events {
				if ev.Kind == "store" {
					if addrField(ev.Addr, ".Total") != nil {
						n++
					}
					if a, _ := addrElem(ev.Addr); a != nil && isCounts(a) {
						m++
					}
				}
			}
			if n != 1 || m != 1 {
				bad("a case is not counted")
			}
		}
	})
	if total == 0 || counts == 0 {
		bad("undecided: how the shares are counted")
	}
}

// plusOne: the value is one more than what the cell holds.
func plusOne(v, addr *Term) bool {
	ok := false
	v.walk(func(t *Term) bool {
		if t.Op == "load" && t.Args[0] == addr && isOne(subT(v, t)) {
			ok = true
		}
		return true
	})
	return ok
}

// withReplacement: nSamples numbers below totalCases.
func (c *Check) withReplacement() {
	f := c.fn("", "SampleWithReplacment")
	if f == nil {
		return
	}
	e := c.run(f, "draws", Options{})
	if e == nil {
		return
	}
	bad := func(why string) {
		c.bad("sample/SampleWithReplacment", f.Pos(), "SampleWithReplacment does not draw nSamples numbers below totalCases: %s", why)
	}
	n, total := e.param(0), e.param(1)
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || len(p.Ret) != 1 {
			return
		}
		c.ob("SampleWithReplacment", "n draws")
		g := e.gather(p.Ret[0])
		k, why := e.exactly(g, func(t *Term) bool { return t == n })
		if why == "" && (len(g.other) > 0 || g.empty == 0) {
			why = "the list does not start empty"
		}
		if why != "" {
			bad(why)
			return
		}
		for _, a := range g.appends {
			if !uniform(a.elems[0], total) || !e.drawnIn(k, a.elems[0]) {
				bad("something else is drawn")
			}
		}
	})
}

// tallies: variable x of loop k starts at 0 and grows in each turn by the number of hits.
func (e *Exec) tallies(k *Cut, x *Term, hits func(*Path) int) bool {
	enter, _ := e.into(k)
	for _, q := range enter {
		if !isZero(q.next(x)) {
			return false
		}
	}
	m := e.members(k)
	ok := true
	steps := 0
	var walk func(d *Cut, env map[*Term]*Term, n int, depth int)
	walk = func(d *Cut, env map[*Term]*Term, n int, depth int) {
		if steps++; steps > 5000 || depth > 40 {
			ok = false
		}
		for _, p := range d.Paths {
			if !ok || p.To == nil || !m[p.To] {
				continue
			}
			to := map[*Term]*Term{}
			for s, v := range p.Phi {
				to[s] = rewrite(v, func(y *Term) *Term { return env[y] })
			}
			h := n + hits(p)
			if p.To == k {
				v := to[x]
				if v == nil || !isZero(subT(v, addI(x, int64(h)))) {
					ok = false
				}
				continue
			}
			walk(p.To, to, h, depth+1)
		}
	}
	walk(k, map[*Term]*Term{}, 0, 0)
	return ok
}

// bagSize: growforest draws -nSamples cases for each tree.
func (c *Check) bagSize() {
	b := c.bags()
	if b == nil {
		return
	}
	e := b.e
	key := "sample/growforest"
	bad := func(why string) {
		c.bad(key, e.Root.Pos(), "growforest does not draw -nSamples cases for each tree: %s", why)
	}
	flag := e.flag("nSamples")
	memo := map[*Term]bool{}
	isN := func(t *Term) bool {
		if t.Op != "load" && t.Op != "sym" && t.Op != "call" {
			return false
		}
		if v, ok := memo[t]; ok {
			return v
		}
		vs := e.values(t)
		var call *Term
		for _, v := range vs {
			if a := isCall(v, "ParseAsIntOrFractionOfTotal"); a != nil && isLoadOf(a[0], flag) {
				call = v
			}
		}
		ok := call != nil
		if ok {
			e.each(func(cu *Cut, p *Path) {
				for _, ev := range p.Events {
					if ev.Kind == "store" && t.Op == "load" && ev.Addr == t.Args[0] && ev.Val != call && decide(p.before(ev), ge0(negT(call))) != 1 {
						ok = false
					}
				}
				if v, phi := p.Phi[t]; phi && v != t && v != call && decide(p.All(), ge0(negT(call))) != 1 {
					ok = false
				}
			})
		}
		memo[t] = ok
		return ok
	}
	g := e.gather(nil)
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			g.from(ev.Args[3])
		}
	})
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Name, "Bagger.Sample"), strings.HasSuffix(ev.Name, "Sampler).Sample"):
				c.ob("growforest.main", "a sampler is asked for the samples")
				if !isN(ev.Args[2]) {
					bad("a sampler is asked for another number")
				}
			case strings.HasSuffix(ev.Name, "SampleFirstN") && g.cells[ev.Args[0]]:
				c.ob("growforest.main", "a number of cases is selected")
				if !isN(ev.Args[2]) {
					bad("another number of cases is selected")
				}
			}
		}
	})
	draws := 0
	seen := map[*Cut]bool{}
	for _, a := range g.appends {
		draw := false
		for _, x := range a.elems {
			for _, v := range e.values(x) {
				draw = draw || v.contains(func(t *Term) bool { return t.Op == "call" && strings.Contains(t.S, "rand") })
			}
		}
		if !draw {
			continue
		}
		k := e.loopOf(a.ev)
		if k == nil || a.all || len(a.elems) != 1 {
			bad("undecided: how the cases are drawn")
			continue
		}
		draws++
		c.ob("growforest.main", "draws as many cases as asked for")
		isLen := func(t *Term) bool {
			return t.Op == "len" && (g.values[t.Args[0]] || t.Args[0].Op == "load" && g.cells[t.Args[0].Args[0]])
		}
		hits := func(p *Path) int { return len(appendsOn(p, g)) }
		var n, l *Term
		for _, f := range a.p.before(a.ev) {
			f.walk(func(t *Term) bool {
				if isLen(t) {
					l = t
				}
				if isN(t) {
					n = t
				}
				return true
			})
		}
		if n != nil && (l == nil || decide(a.p.before(a.ev), ge0(addI(subT(n, l), -1))) != 1) {
			// a variable that counts the draws
			for x := range k.symbols(e) {
				if x.T != nil && isInt(x.T) && decide(a.p.before(a.ev), ge0(addI(subT(n, x), -1))) == 1 && e.tallies(k, x, hits) {
					l = x
				}
			}
		}
		if n == nil || l == nil || decide(a.p.before(a.ev), ge0(addI(subT(n, l), -1))) != 1 {
			// a counted loop
			if _, why := e.exactly(&gathered{e: e, appends: []appendSite{a}, values: map[*Term]bool{a.ev.Val: true}}, isN); why != "" {
				bad("it is not known that more are wanted when a case is drawn")
				continue
			}
		} else {
			if !e.oncePerTurn(k, hits) {
				bad("more than one case can be drawn at a time")
			}
			m := e.members(k)
			for d := range m {
				for _, q := range d.Paths {
					if q.To != nil && m[q.To] || q.End == "panic" || q.End == "exit" {
						continue
					}
					if decide(q.All(), ge0(subT(l, n))) != 1 {
						bad("it stops before as many cases are drawn as asked for")
					}
				}
			}
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		m := e.members(k)
		empties := func(p *Path) bool {
			for _, ev := range p.Events {
				if ev.Kind == "store" && g.cells[ev.Addr] && emptyList(ev.Val) {
					return true
				}
			}
			for s, v := range p.Phi {
				if g.values[s] && emptyList(v) {
					return true
				}
			}
			return false
		}
		enter, _ := e.into(k)
		for _, q := range enter {
			if e.reachesFrom(k, func(p *Path) bool { return empties(p) || p == q && empties(q) }, func(p *Path) bool { return p == q && !empties(q) && !m[p.From] }) != nil {
				bad("cases drawn for another tree stay in the list")
			}
		}
	}
	if draws == 0 {
		bad("undecided: it draws no cases")
	}
}

func init() {
	register(&Rule{ID: "C29", Min: 10,
		What: "the lists Sample builds are followed back to the appends that fill them: the list is emptied first, the loop around the appends has n turns, counted, with exactly one append in each; the element appended is one of the sampler's class lists at an index drawn by rand.Intn of that list's length in the same turn, the class an element of the list of classes at an index drawn by rand.Intn of its length; the secondary sampler's category is the one whose share, taken off one after the other from a draw below Total, is reached; the constructors append every case known not to be missing to the list at its code (and at its second code), once, in a loop over all cases, count it in Counts and Total, make a list for each category, and then keep exactly the lists that are not empty; growforest's own draws go on until the list, emptied before, holds nSamples cases",
		Run:  func(c *Check) { c.samplers() }})
}
