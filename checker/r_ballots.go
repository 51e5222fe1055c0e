package main

import (
	"go/types"
)

// ---- C33: ballots tally what was voted --------------------------------------------------------------------

// ballot is a function through which something is voted or added to a mean.
type ballot struct {
	typ, fn string
	field   string // "Mean" or "Sum"
	boxed   bool   // the mean is that of the case, the first parameter
	parsed  bool   // the value is read from a text
	val     int    // the parameter that is, or holds, the value
	weight  int    // the parameter that is the weight, 0 for one
}

func ballots() []ballot {
	return []ballot{
		{"RunningMean", "WeightedAdd", "Mean", false, false, 1, 2},
		{"RunningMean", "Add", "Mean", false, false, 1, 0},
		{"NumBallotBox", "Vote", "Mean", true, true, 2, 3},
		{"SumBallotBox", "Vote", "Sum", true, true, 2, 3},
	}
}

// ofCase: t is the ballot of a case in the box the function belongs to.
func (e *Exec) ofCase(t, i *Term) bool {
	arr, idx := elem(strip(t))
	return arr != nil && idx == i && (field(arr, ".box") == e.param(0) || field(arr, ".Box") == e.param(0))
}

func (c *Check) voting(b ballot) {
	f := c.method(b.typ, b.fn)
	if f == nil {
		return
	}
	name := b.typ + "." + b.fn
	key := "ballot/" + name
	e := c.run(f, "ballot", Options{})
	if e == nil || len(f.Params) <= b.val || len(f.Params) <= b.weight {
		c.bad(key, f.Pos(), "undecided: %s has other parameters", name)
		return
	}
	v, w := e.param(b.val), intT(1)
	if b.weight > 0 {
		w = e.param(b.weight)
	}
	mine := func(o *Term) bool {
		if b.boxed {
			return e.ofCase(o, e.param(1))
		}
		return o == e.param(0)
	}
	votes := 0
	e.each(func(cu *Cut, p *Path) {
		if p.To != nil {
			c.bad(key, instrPosOf(p), "undecided: %s has a loop", name)
			return
		}
		if p.End != "return" {
			return
		}
		var obj *Term
		vals := map[string]*Term{}
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr.Op != "fieldaddr" {
				continue
			}
			if !mine(ev.Addr.Args[0]) {
				c.bad(key+"/other", instrPos(ev.In), "%s writes %s, which is not part of the ballot voted on", name, ev.Addr)
				continue
			}
			obj = ev.Addr.Args[0]
			vals[lastName(ev.Addr.S)] = strip(ev.Val)
		}
		val := v
		readable := true
		if b.parsed {
			val, readable = nil, false
			for _, g := range p.All() {
				g.walk(func(t *Term) bool {
					if t.Op == "extract" && t.S == "1" && t.Args[0].Op == "call" && t.Args[0].S == "strconv.ParseFloat" && t.Args[0].Args[0] == v && decideEq(t.Args[0].Args[1], intT(64)) {
						readable = readable || p.holds(isnil(t))
						if x := parsedBy(e, t.Args[0]); x != nil {
							val = x
						}
					}
					return true
				})
			}
		}
		nan := func(t *Term) bool {
			for _, g := range p.All() {
				if g.Op == "call" && g.S == "math.IsNaN" && strip(g.Args[0]) == t {
					return true
				}
			}
			return false
		}
		noNaN := func(t *Term) bool {
			if t.Op == "const" || isOne(t) {
				return true
			}
			for _, g := range p.All() {
				if g.Op == "not" && g.Args[0].Op == "call" && g.Args[0].S == "math.IsNaN" && strip(g.Args[0].Args[0]) == t {
					return true
				}
			}
			return false
		}
		weightless := eqT(w, intT(0), types.Typ[types.Float64])
		if obj == nil {
			c.ob(name, "what does not count changes nothing")
			if readable && !(val != nil && nan(val)) && !nan(w) && !p.holds(weightless) {
				c.bad(key+"/lost", instrPos(p.RetIn), "%s returns without counting a vote that is a number and has a weight", name)
			}
			return
		}
		votes++
		c.ob(name, "the vote enters with its weight")
		if !readable || val == nil {
			c.bad(key+"/unread", instrPos(p.RetIn), "%s counts a vote that was not read", name)
			return
		}
		old := func(n string) *Term { return loadField(p, obj, n) }
		want := map[string]*Term{}
		switch b.field {
		case "Sum":
			want["Sum"] = addT(old("Sum"), mulT(val, w))
		case "Mean":
			n := old("Count")
			want["Count"] = addT(n, w)
			want["Mean"] = divT(addT(mulT(old("Mean"), n), mulT(w, val)), addT(n, w))
			if !noNaN(val) || !noNaN(w) {
				c.bad(key+"/nan", instrPos(p.RetIn), "%s adds what is not a number to the mean", name)
			}
			if decide(p.All(), weightless) != 0 && decide(p.All(), eqT(addT(n, w), intT(0), types.Typ[types.Float64])) != 0 {
				c.bad(key+"/weightless", instrPos(p.RetIn), "%s divides by a count that may still be zero when a vote has no weight", name)
			}
		}
		for n, x := range want {
			if !sameReal(vals[n], x) {
				got := "what it was"
				if vals[n] != nil {
					got = vals[n].String()
				}
				c.bad(key+"/"+n, instrPos(p.RetIn), "%s leaves %s in %s and not %s", name, got, n, x)
			}
		}
		for n := range vals {
			if want[n] == nil {
				c.bad(key+"/"+n, instrPos(p.RetIn), "%s also changes %s", name, n)
			}
		}
	})
	if votes == 0 {
		c.bad(key, f.Pos(), "%s never counts a vote", name)
	}
}

// parsedBy is the number that a call of ParseFloat returns.
func parsedBy(e *Exec, call *Term) (out *Term) {
	e.each(func(cu *Cut, p *Path) {
		see := func(t *Term) {
			t.walk(func(x *Term) bool {
				if x.Op == "extract" && x.S == "0" && x.Args[0] == call {
					out = x
				}
				return true
			})
		}
		for _, ev := range p.Events {
			if ev.Val != nil {
				see(ev.Val)
			}
		}
		for _, g := range p.All() {
			see(g)
		}
	})
	return
}

// loadField is what a field holds before a path writes it.
func loadField(p *Path, obj *Term, name string) (out *Term) {
	see := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Args[0] == obj && lastName(x.Args[0].S) == name {
				out = x
			}
			return true
		})
	}
	for _, ev := range p.Events {
		if ev.Val != nil {
			see(ev.Val)
		}
	}
	for _, g := range p.All() {
		see(g)
	}
	if out == nil {
		out = mk("unread", name)
	}
	return
}

// catVote: a vote adds its weight to the votes of its category on the ballot of its case, and nothing else.
func (c *Check) catVote() {
	f := c.method("CatBallotBox", "Vote")
	if f == nil {
		return
	}
	const name, key = "CatBallotBox.Vote", "ballot/CatBallotBox.Vote"
	e := c.run(f, "ballot", Options{Opaque: opaque("*.CatToNum")})
	if e == nil || len(f.Params) != 4 {
		c.bad(key, f.Pos(), "undecided: %s has other parameters", name)
		return
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		if p.To != nil {
			c.bad(key, instrPosOf(p), "undecided: %s has a loop", name)
			return
		}
		if p.End != "return" {
			return
		}
		n++
		c.ob(name, "the vote enters with its weight")
		var last *Event
		for _, ev := range p.Events {
			switch ev.Kind {
			case "mapupdate":
				if o := field(strip(ev.Addr), ".Map"); o == nil || !e.ofCase(o, e.param(1)) {
					c.bad(key+"/other", instrPos(ev.In), "%s writes %s, which is not the ballot of the case", name, ev.Addr)
					continue
				}
				if k := isCall(strip(ev.Args[0]), "CatToNum"); len(k) != 2 || k[1] != e.param(2) {
					c.bad(key+"/category", instrPos(ev.In), "%s counts a vote for %s", name, ev.Args[0])
					continue
				}
				last = ev
			case "store":
				if ev.Addr.Op == "fieldaddr" || ev.Addr.Op == "indexaddr" {
					c.bad(key+"/other", instrPos(ev.In), "%s writes %s, which is not the ballot of the case", name, ev.Addr)
				}
			}
		}
		if last == nil {
			if !p.holds(eqT(e.param(3), intT(0), types.Typ[types.Float64])) {
				c.bad(key+"/lost", instrPos(p.RetIn), "%s returns without counting a vote", name)
			}
			return
		}
		val := strip(last.Val)
		more := subT(val, e.param(3))
		old := isZero(more) && p.holds(notT(mk("haskey", "", last.Addr, last.Args[0])))
		old = old || more.Op == "lookup" && strip(more.Args[0]) == strip(last.Addr) && more.Args[1] == last.Args[0]
		if !old {
			c.bad(key+"/weight", instrPos(last.In), "%s leaves %s for the category voted for, which is not what it had and the weight", name, val)
		}
	})
	if n == 0 {
		c.bad(key, f.Pos(), "%s never returns", name)
	}
}

// catTally: the category with the greatest positive weight, the first label among several.
func (c *Check) catTally() {
	f := c.method("CatBallotBox", "Tally")
	if f == nil {
		return
	}
	const name, key = "CatBallotBox.Tally", "ballot/CatBallotBox.Tally"
	e := c.run(f, "ballot", Options{})
	if e == nil || len(f.Params) != 2 {
		c.bad(key, f.Pos(), "undecided: %s has other parameters", name)
		return
	}
	label := func(t *Term) *Term { // the category a label is the label of
		arr, i := elem(strip(t))
		if arr == nil || !hasField(arr, ".Back", e.param(0)) {
			return nil
		}
		return i
	}
	found := func(p *Path, s, g *Term) (string, *Cut) {
		k := e.phiCut(s)
		if k == nil || !k.Loop || e.phiCut(g) != k {
			return "it is not found by a loop", nil
		}
		enter, back := e.into(k)
		for _, q := range enter {
			if !isZero(q.next(g)) {
				return "the greatest weight does not start at zero", k
			}
		}
		if len(enter) == 0 || len(back) == 0 {
			return "undecided: the loop has no turns", k
		}
		for _, q := range back {
			var it *Term
			for _, x := range q.All() {
				if x.Op == "extract" && x.S == "0" && isMapNext(x.Args[0]) {
					it = x.Args[0]
				}
			}
			if it == nil {
				return "a turn is not one over the votes", k
			}
			m := strip(it.Args[0].Args[0])
			if o := field(m, ".Map"); o == nil || !e.ofCase(o, e.param(1)) {
				return "it goes through the votes of something else", k
			}
			ns, ng := q.next(s), q.next(g)
			part := func(t *Term, n string) bool {
				t = strip(t)
				return t.Op == "extract" && t.S == n && t.Args[0] == it
			}
			first, same, positive, more := 2, 2, 2, 2
			see := func(v *int, held bool) {
				*v = 0
				if held {
					*v = 1
				}
			}
			for _, x := range q.All() {
				held := true
				if x.Op == "not" {
					x, held = x.Args[0], false
				}
				if x.Op != "lt" && x.Op != "eq" && x.Op != "le" || len(x.Args) != 2 {
					continue
				}
				a, b := x.Args[0], x.Args[1]
				switch {
				case x.Op == "lt" && a == g && part(b, "2"):
					see(&more, held)
				case x.Op == "lt" && part(a, "2") && b == g:
					if held {
						more, same = 0, 0
					}
				case x.Op == "le" && part(a, "2") && b == g:
					see(&more, !held)
				case x.Op == "eq" && (a == g && part(b, "2") || b == g && part(a, "2")):
					see(&same, held)
				case x.Op == "lt" && isZero(a) && (b == g || part(b, "2")):
					see(&positive, held)
				case x.Op == "le" && isZero(b) && (a == g || part(a, "2")):
					see(&positive, !held)
				case x.Op == "lt" && label(a) != nil && label(b) != nil:
					switch {
					case part(label(a), "1") && label(b) == s:
						see(&first, held)
					case part(label(b), "1") && label(a) == s:
						// the old label comes first; labels of different categories differ
						see(&first, !held)
					}
				}
			}
			if same == 1 {
				more = 0
			}
			switch {
			case part(ns, "1") && part(ng, "2"):
				if more != 1 && !(same == 1 && positive != 0 && first == 1) {
					return "a category is preferred that has neither more votes nor as many and an earlier label", k
				}
			case ns == s && ng == g:
				if !(more == 0 && (same == 0 || positive == 0 || first == 0)) {
					return "a category is passed over that has more votes, or as many and an earlier label", k
				}
			default:
				return "a turn takes neither the category it is for nor the one found before", k
			}
		}
		return "", k
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || len(p.Ret) != 1 {
			return
		}
		n++
		c.ob(name, "the category with the greatest weight, or NA")
		ret := strip(p.Ret[0])
		positive := func() (g *Term, held bool) {
			for _, x := range p.All() {
				held := true
				if x.Op == "not" {
					x, held = x.Args[0], false
				}
				if x.Op == "lt" && isZero(x.Args[0]) && e.phiCut(x.Args[1]) != nil {
					return x.Args[1], held
				}
				if x.Op == "le" && isZero(x.Args[1]) && e.phiCut(x.Args[0]) != nil {
					return x.Args[0], !held
				}
			}
			return nil, false
		}
		g, held := positive()
		if g == nil {
			c.bad(key, instrPos(p.RetIn), "undecided: %s returns %s without asking whether any category has votes", name, ret)
			return
		}
		if s, ok := ret.str(); ok {
			if held || s != "NA" {
				c.bad(key+"/none", instrPos(p.RetIn), "%s returns %q, which stands for no votes, where there are some", name, s)
			}
			return
		}
		i := label(ret)
		if i == nil || !held {
			c.bad(key, instrPos(p.RetIn), "%s returns %s, which is not the label of a category that was voted for", name, ret)
			return
		}
		if msg, _ := found(p, i, g); msg != "" {
			c.bad(key+"/most", instrPos(p.RetIn), "%s does not return the category with the most votes: %s", name, msg)
		}
	})
	if n == 0 {
		c.bad(key, f.Pos(), "%s never returns", name)
	}
}

// hasField: t is a field of an object, or of one embedded in it.
func hasField(t *Term, name string, o *Term) bool {
	f := field(t, name)
	for f != nil && f != o {
		if f.Op != "load" || f.Args[0].Op != "fieldaddr" {
			return false
		}
		f = f.Args[0].Args[0]
	}
	return f == o
}

// tallies: what is read from the ballots is what was voted.
func (c *Check) tallies() {
	read := func(typ, fn, what string, want func(e *Exec, p *Path, at func(string) *Term) []*Term) {
		f := c.method(typ, fn)
		if f == nil {
			return
		}
		name := typ + "." + fn
		key := "ballot/" + name
		e := c.run(f, "ballot", Options{})
		if e == nil {
			return
		}
		n := 0
		e.each(func(cu *Cut, p *Path) {
			if p.To != nil {
				c.bad(key, instrPosOf(p), "undecided: %s has a loop", name)
			}
			if p.End != "return" {
				return
			}
			n++
			c.ob(name, what)
			at := func(field string) (out *Term) {
				see := func(t *Term) {
					t.walk(func(x *Term) bool {
						if x.Op == "load" && x.Args[0].Op == "fieldaddr" && lastName(x.Args[0].S) == field {
							if o := x.Args[0].Args[0]; len(f.Params) == 1 && o == e.param(0) || len(f.Params) == 2 && e.ofCase(o, e.param(1)) {
								out = x
							}
						}
						return true
					})
				}
				for _, g := range p.All() {
					see(g)
				}
				for _, r := range p.Ret {
					see(r)
				}
				return
			}
			for i, w := range want(e, p, at) {
				if i >= len(p.Ret) {
					c.bad(key, instrPos(p.RetIn), "undecided: %s returns fewer values", name)
					return
				}
				got := strip(p.Ret[i])
				if y := shown(got); y != nil {
					got = mk("shown", "", y)
				}
				if w == nil || got != w {
					c.bad(key, instrPos(p.RetIn), "%s returns %s, which is not %s", name, got, what)
				}
			}
		})
		if n == 0 {
			c.bad(key, f.Pos(), "%s never returns", name)
		}
	}
	show := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return mk("shown", "", t)
	}
	read("RunningMean", "Read", "the mean and the count", func(e *Exec, p *Path, at func(string) *Term) []*Term {
		return []*Term{at("Mean"), at("Count")}
	})
	read("NumBallotBox", "TallyNum", "the mean of the votes of the case", func(e *Exec, p *Path, at func(string) *Term) []*Term {
		return []*Term{at("Mean")}
	})
	read("NumBallotBox", "Tally", "the mean of the votes of the case, or NA without any", func(e *Exec, p *Path, at func(string) *Term) []*Term {
		n := at("Count")
		if n == nil {
			return []*Term{nil}
		}
		some := decide(p.All(), mk("lt", "", intT(0), n))
		if decide(p.All(), mk("le", "", n, intT(0))) == 1 || decide(p.All(), eqT(n, intT(0), types.Typ[types.Float64])) == 1 {
			some = 0
		} else if decide(p.All(), mk("le", "", n, intT(0))) == 0 || decide(p.All(), eqT(n, intT(0), types.Typ[types.Float64])) == 0 {
			some = 1
		}
		switch some {
		case 1:
			return []*Term{show(at("Mean"))}
		case 0:
			return []*Term{strT("NA")}
		}
		return []*Term{nil}
	})
	read("SumBallotBox", "TallyNum", "the sum of the votes of the case", func(e *Exec, p *Path, at func(string) *Term) []*Term {
		return []*Term{at("Sum")}
	})
	read("SumBallotBox", "Tally", "the sum of the votes of the case", func(e *Exec, p *Path, at func(string) *Term) []*Term {
		return []*Term{show(at("Sum"))}
	})
}

// boxes: a new ballot box has an empty ballot of its own for every case.
func (c *Check) boxes() {
	for _, b := range [][2]string{{"NewNumBallotBox", "RunningMean"}, {"NewSumBallotBox", "SumBallot"}, {"NewCatBallotBox", "CatBallot"}} {
		key := "ballot/" + b[0]
		c.freshOnes(key, b[0], b[1], "ballot", "cases")
		f := c.fn("", b[0])
		if f == nil {
			continue
		}
		e := c.run(f, "means", Options{})
		if e == nil {
			continue
		}
		c.ob(b[0], "ballots start out empty")
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				switch {
				case ev.Kind == "store" && ev.Addr.Op == "fieldaddr" && !isZero(strip(ev.Val)) && (fieldIs(ev.Addr.S, ".Mean") || fieldIs(ev.Addr.S, ".Count") || fieldIs(ev.Addr.S, ".Sum")), ev.Kind == "mapupdate":
					c.bad(key+"/empty", instrPos(ev.In), "%s makes a ballot that holds something before anything is voted", b[0])
				case ev.Kind == "store" && ev.Addr.Op == "fieldaddr" && isMap(ev.Val) && e.loopOf(ev) != nil:
					if own := e.allocIn[ev.Val]; ev.Val.Op != "makemap" || own == nil || !e.members(e.loopOf(ev))[own] {
						c.bad(key+"/own", instrPos(ev.In), "two cases can share their votes")
					}
				}
			}
		})
	}
}

func isMap(t *Term) bool {
	if t.T == nil {
		return t.Op == "makemap"
	}
	_, ok := t.T.Underlying().(*types.Map)
	return ok
}

// errors are the errors that are reported for the tallies.
func (c *Check) errors() {
	num := types.Typ[types.Float64]
	counted := map[string]condition{"counted": func(m *meas) [][]*Term {
		n := m.w("Count", m.i)
		return [][]*Term{
			{notT(mk("missing", "", m.i))},
			{mk("lt", "", intT(0), n), notT(mk("le", "", n, intT(0))), notT(eqT(n, intT(0), num))},
		}
	}}
	known := map[string]condition{
		"known": func(m *meas) [][]*Term { return [][]*Term{{notT(mk("missing", "", m.i))}} },
		"right": func(m *meas) [][]*Term {
			return [][]*Term{{notT(mk("missing", "", m.i))}, labelled(mk("w", "Back", mk("cat", "", m.i)), mk("tally", "", m.i))}
		},
	}
	x := func(m *meas) *Term { return mk("x", "", m.i) }
	sq := func(t *Term) *Term { return mulT(t, t) }
	for _, s := range []*measure{
		{typ: "NumBallotBox", fn: "TallySquaredError", feature: 1, conds: counted, what: "the mean squared distance of the tally from the value, over the cases that have both",
			want: one(func(m *meas) *Term {
				return divT(m.sigma("all", "counted+", sq(subT(x(m), m.w("Mean", m.i)))), m.sigma("all", "counted+", intT(1)))
			})},
		{typ: "NumBallotBox", fn: "TallyError", feature: 1, conds: known, opaque: []string{"NumBallotBox.TallySquaredError"}, what: "the squared error divided by the variance of the values that are known",
			want: one(func(m *meas) *Term {
				n := m.sigma("all", "known+", intT(1))
				mean := divT(m.sigma("all", "known+", x(m)), n)
				variance := divT(m.sigma("all", "known+", sq(subT(x(m), mean))), n)
				return divT(mk("inner", "TallySquaredError"), variance)
			})},
		{typ: "NumBallotBox", fn: "TallyR2Score", feature: 1, opaque: []string{"NumBallotBox.TallyError"}, what: "one minus the error",
			want: one(func(m *meas) *Term { return subT(intT(1), mk("inner", "TallyError")) })},
		{typ: "CatBallotBox", fn: "TallyError", feature: 1, conds: known, opaque: []string{"CatBallotBox.Tally"}, what: "the share of the known cases of a category that are tallied wrong, averaged over the categories",
			want: one(func(m *meas) *Term {
				right, all := mk("count", "allright+", m.i), mk("count", "allknown+", m.i)
				return subT(intT(1), divT(m.sigma("cats", "", divT(right, all)), mk("ncats", "")))
			})},
	} {
		c.measure(s)
	}
}

func (c *Check) tallied() {
	for _, b := range ballots() {
		c.voting(b)
	}
	c.catVote()
	c.catTally()
	c.tallies()
	c.boxes()
	c.errors()
}

func init() {
	register(&Rule{ID: "C33", What: "every vote enters the ballot of its case, and no other, with its weight; what is tallied is the weighted mean, the weighted sum, or the label of the greatest weight found by a loop over all votes; the errors are path summaries with their loops closed to sums and counts, compared with the definitions; a new box has an empty ballot of its own for every case", Min: 14,
		Assume: []string{"arithmetic is exact: rounding and overflow are not modelled"}, Run: (*Check).tallied})
}
