package main

import (
	"go/types"
	"strings"
)

// ---- C35: what is reported for a case is that case's own ---------------------------------------------------

// reporting is what a program reports, and about what.
type reporting struct {
	c   *Check
	e   *Exec
	key string
	cmd string
}

func (x *reporting) bad(ev *Event, f string, a ...interface{}) {
	pos := x.e.Root.Pos()
	if ev != nil {
		pos = instrPos(ev.In)
	}
	x.c.bad(x.key, pos, f, a...)
}

// loaded: the matrix read from the file a flag names.
func loadedFrom(t, flag *Term) bool {
	if t == nil || t.Op != "extract" || t.S != "0" {
		return false
	}
	a := isCall(t.Args[0], "LoadAFM")
	return len(a) == 1 && isLoadOf(strip(a[0]), flag)
}

// dataElem: the feature of a matrix, and its index.
func dataElem(t *Term) (m, i *Term) {
	arr, i := elem(unwrapped(t))
	if arr == nil {
		return nil, nil
	}
	return field(arr, "FeatureMatrix.Data"), i
}

// fileOf: the writer is the file created under the name a flag gives.
func (x *reporting) fileOf(w, flag *Term) bool {
	seen := map[*Term]bool{}
	var is func(t *Term) bool
	is = func(t *Term) bool {
		t = unwrapped(t)
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "extract" && t.S == "0" {
			if a := isCall(t.Args[0], "Create"); len(a) == 1 && isLoadOf(strip(a[0]), flag) {
				return true
			}
		}
		if a := isCall(t, "NewWriter"); len(a) > 0 {
			return is(a[0])
		}
		if a := isCall(t, "NewWriterSize"); len(a) > 0 {
			return is(a[0])
		}
		if t.Op == "sym" {
			for _, v := range x.e.phiIn(t) {
				if is(v) {
					return true
				}
			}
		}
		return false
	}
	return is(w)
}

// alternatives are the conditions of a path with the flags it carries from before replaced by what they
// were set to, one set for every way they were set.
func (e *Exec) alternatives(gs []*Term) [][]*Term {
	out := [][]*Term{}
	var expand func(gs []*Term, depth int)
	expand = func(gs []*Term, depth int) {
		for n, g := range gs {
			s, neg := g, false
			if s.Op == "not" {
				s, neg = s.Args[0], true
			}
			if s.Op != "sym" || depth > 6 {
				continue
			}
			k := e.phiCut(s)
			if k == nil {
				continue
			}
			enter, back := e.into(k)
			if !k.Loop {
				enter, back = nil, nil
				e.each(func(cu *Cut, p *Path) {
					if p.To == k {
						enter = append(enter, p)
					}
				})
			}
			fixed := len(enter) > 0
			for _, p := range back {
				fixed = fixed && p.next(s) == s
			}
			if !fixed {
				continue
			}
			for _, q := range enter {
				v := q.next(s)
				if neg {
					v = notT(v)
				}
				rest := append(append(append([]*Term{}, gs[:n]...), gs[n+1:]...), q.All()...)
				if v.isFalse() {
					continue
				}
				if !v.isTrue() {
					rest = append(rest, v)
				}
				expand(rest, depth+1)
			}
			return
		}
		for _, g := range gs {
			if decide(gs, notT(g)) == 1 {
				return
			}
		}
		out = append(out, gs)
	}
	expand(append([]*Term{}, gs...), 0)
	return out
}

// flagOn: among the conditions a flag is known to be on (1) or off (0).
func flagOn(gs []*Term, flag *Term) int {
	for _, g := range gs {
		s := strip(g)
		if isLoadOf(s, flag) {
			return 1
		}
		if s.Op == "not" && isLoadOf(s.Args[0], flag) {
			return 0
		}
	}
	return -1
}

// votedOnce: the loop of the vote lets every tree vote once.
func (x *reporting) votedOnce(ev *Event, trees func(t *Term) bool) *Cut {
	e := x.e
	k := e.loopOf(ev)
	arr, i := elem(ev.Args[0])
	if k == nil || arr == nil || !trees(arr) || !e.overAll(k, i, trees) {
		x.bad(ev, "not every tree votes")
		return nil
	}
	hit := func(p *Path) int {
		n := 0
		for _, v := range p.Events {
			if v.Kind == "call" && isTreeVote(v) {
				n++
			}
		}
		return n
	}
	if !e.everyTurn(k, func(p *Path) bool { return hit(p) > 0 }) {
		x.bad(ev, "a tree can be left without a vote")
	}
	if !e.oncePerTurn(k, hit) || e.outer(k) != nil {
		x.bad(ev, "a tree can vote more than once")
	}
	return k
}

func isTreeVote(ev *Event) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, "Tree).Vote") && len(ev.Args) == 3
}

// newBox is the kind of a new ballot box and the number of cases it is for.
func newBox(t *Term) (kind string, n *Term) {
	t = unwrapped(t)
	for _, k := range []string{"Sum", "Num", "Cat"} {
		if a := isCall(t, "New"+k+"BallotBox"); len(a) == 1 {
			return k, a[0]
		}
	}
	return "", nil
}

// casesOf: the number is that of the cases of a matrix.
func casesOf(n, m *Term) bool {
	if n.Op == "len" {
		return field(n.Args[0], "FeatureMatrix.CaseLabels") == m
	}
	if a := isCall(n, "Length"); len(a) == 1 {
		d, _ := dataElem(a[0])
		if d == nil {
			if b := isCall(unwrapped(a[0]), "Copy"); len(b) == 1 {
				d, _ = dataElem(b[0])
			}
		}
		return d != nil && d == m
	}
	return false
}

// fields takes a line apart at its tabs.
func tabbed(ps []piece) (out [][]piece, ended bool) {
	cur := []piece{}
	for _, p := range ps {
		if p.val != nil {
			cur = append(cur, p)
			continue
		}
		parts := strings.Split(p.lit, "\t")
		for n, s := range parts {
			if n > 0 {
				out = append(out, cur)
				cur = []piece{}
			}
			if n == len(parts)-1 && strings.HasSuffix(s, "\n") {
				ended = p == ps[len(ps)-1]
				s = strings.TrimSuffix(s, "\n")
			}
			if s != "" {
				cur = append(cur, piece{lit: s})
			}
		}
	}
	out = append(out, cur)
	return
}

// caseLines: the file a flag names has one line per case, each judged by judge.
func (x *reporting) caseLines(flag *Term, what string, cases func(n *Term) bool, judge func(p *Path, i *Term, fields [][]piece) string) *Cut {
	e := x.e
	if flag == nil {
		x.bad(nil, "undecided: there is no flag for the file of %s", what)
		return nil
	}
	isW := func(w *Term) bool { return x.fileOf(w, flag) }
	writes := func(p *Path) *Event {
		for _, ev := range p.Events {
			if ev.Kind == "call" && len(ev.Args) > 1 && isW(ev.Args[0]) && !strings.HasSuffix(ev.Name, ".Close") {
				return ev
			}
		}
		return nil
	}
	var k *Cut
	var first *Event
	e.each(func(cu *Cut, p *Path) {
		ev := writes(p)
		if ev == nil {
			return
		}
		l := e.loopOf(ev)
		if l == nil || k != nil && l != k {
			x.bad(ev, "undecided: the %s are not written by one loop over the cases", what)
			return
		}
		k, first = l, ev
	})
	if k == nil {
		x.bad(nil, "undecided: no %s are written", what)
		return nil
	}
	x.c.ob(x.cmd, "the lines of "+what)
	var idx *Term
	for s := range k.symbols(e) {
		for _, o := range []int64{0, 1} {
			if e.countsAny(k, addI(s, o), cases) == "" {
				idx = addI(s, o)
			}
		}
	}
	if idx == nil {
		x.bad(first, "the %s are not those of all cases", what)
		return nil
	}
	back, plain := e.turns(k)
	if !plain {
		x.bad(first, "undecided: a line of the %s is written in steps", what)
		return k
	}
	for _, p := range back {
		ps, n, why := p.written(isW)
		if n == 0 {
			x.bad(first, "a case can be left out of the %s", what)
			return k
		}
		fs, ended := tabbed(ps)
		if why == "" && !ended {
			why = "it does not end with the line"
		}
		if why == "" {
			why = judge(p, idx, fs)
		}
		if why != "" {
			x.bad(writes(p), "a line of the %s: %s", what, why)
			return k
		}
	}
	for _, p := range e.leaving(k) {
		if ev := writes(p); ev != nil && p.End != "exit" && p.End != "panic" {
			x.bad(ev, "something else is written to the %s", what)
		}
	}
	if e.reaches(func(p *Path) bool { return p.To == k || p.flagEmpty(flag) }, func(p *Path) bool { return p.End == "return" && p.To == nil && !p.flagEmpty(flag) }) != nil {
		x.bad(first, "the %s can be left out although they are asked for", what)
	}
	return k
}

// turns are the ways through one turn of a loop, each as one path in the terms of the loop's head. Inner
// loops are not followed.
func (e *Exec) turns(k *Cut) (out []*Path, ok bool) {
	m := e.members(k)
	ok = true
	var walk func(d *Cut, pre *Path, sub map[*Term]*Term, depth int)
	walk = func(d *Cut, pre *Path, sub map[*Term]*Term, depth int) {
		if depth > 12 || len(out) > 4000 || d != k && d.Loop {
			ok = false
			return
		}
		in := func(t *Term) *Term {
			if t == nil {
				return nil
			}
			return rewrite(t, func(x *Term) *Term { return sub[x] })
		}
		for _, p := range d.Paths {
			if p.To == nil || !m[p.To] {
				continue
			}
			q := &Path{From: k, To: p.To, End: p.End, Back: p.Back, Phi: map[*Term]*Term{}, Guards: append([]*Term{}, pre.Guards...), Events: append([]*Event{}, pre.Events...)}
			if d != k {
				for _, g := range d.In.facts {
					q.Guards = append(q.Guards, in(g))
				}
			}
			for _, g := range p.Guards {
				q.Guards = append(q.Guards, in(g))
			}
			for _, ev := range p.Events {
				w := *ev
				w.Addr, w.Val, w.Res = in(ev.Addr), in(ev.Val), in(ev.Res)
				w.Args = nil
				for _, a := range ev.Args {
					w.Args = append(w.Args, in(a))
				}
				q.Events = append(q.Events, &w)
			}
			for s, v := range p.Phi {
				q.Phi[s] = in(v)
			}
			if p.To == k {
				out = append(out, q)
				continue
			}
			walk(p.To, q, q.Phi, depth+1)
		}
	}
	walk(k, &Path{}, map[*Term]*Term{}, 0)
	return
}

// one is the only value of a field.
func one1(f []piece) *Term {
	if len(f) != 1 {
		return nil
	}
	return unwrapped(f[0].val)
}

// labelOf: the name of case i of a matrix.
func labelOf(t, m, i *Term) bool {
	arr, j := elem(t)
	return arr != nil && field(arr, "FeatureMatrix.CaseLabels") == m && decideEq(i, j)
}

func (c *Check) applied() {
	e := c.command("applyforest")
	if e == nil {
		return
	}
	x := &reporting{c: c, e: e, key: "report/applyforest", cmd: "applyforest.main"}
	flags := map[string]*Term{}
	for _, n := range []string{"fm", "rfpred", "preds", "votes", "mean", "sum", "expit", "mode"} {
		if flags[n] = e.flag(n); flags[n] == nil {
			x.bad(nil, "undecided: there is no flag -%s", n)
			return
		}
	}
	var votes []*Event
	loops := map[*Cut]bool{}
	var data, forest, box *Term
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && (nameIs(ev.Name, "VoteCases") || nameIs(ev.Name, "Vote") && !isTreeVote(ev)) {
				x.bad(ev, "undecided: a vote that is not a tree's on the whole matrix")
			}
			if ev.Kind == "call" && isTreeVote(ev) {
				votes = append(votes, ev)
			}
		}
	})
	if len(votes) == 0 {
		x.bad(nil, "undecided: no tree votes")
		return
	}
	for _, ev := range votes {
		c.ob("applyforest.main", "every tree votes")
		data, box = ev.Args[1], unwrapped(ev.Args[2])
		if !loadedFrom(data, flags["fm"]) {
			x.bad(ev, "the trees vote on %v and not on the matrix given", data)
			return
		}
		k := x.votedOnce(ev, func(t *Term) bool {
			f := field(t, "Forest.Trees")
			if f != nil && f.Op == "extract" && f.S == "0" && isCall(f.Args[0], "ReadForest") != nil {
				forest = f
				return true
			}
			return false
		})
		if k == nil {
			return
		}
		loops[k] = true
	}
	if forest == nil || len(loops) != 1 {
		x.bad(votes[0], "undecided: the trees of the forest vote in several loops")
		return
	}
	open := isCall(forest.Args[0], "ReadForest")
	if r := isCall(open[0], "NewForestReader"); len(r) != 1 || !func() bool {
		f := unwrapped(r[0])
		if f.Op != "extract" || f.S != "0" {
			return false
		}
		a := isCall(f.Args[0], "Open")
		return len(a) == 1 && isLoadOf(strip(a[0]), flags["rfpred"])
	}() {
		x.bad(votes[0], "the trees that vote are not those of the forest given")
	}
	var vote *Cut
	for k := range loops {
		vote = k
	}

	// the kind of the votes
	numeric := func(gs []*Term) int {
		for _, g := range gs {
			s, v := strip(g), 1
			if s.Op == "not" {
				s, v = s.Args[0], 0
			}
			if a := isCall(s, "HasPrefix"); len(a) == 2 && field(a[0], "Forest.Target") == forest {
				if l, ok := a[1].str(); ok && l == "N" {
					return v
				}
			}
		}
		return -1
	}
	checkBox := func(b *Term, gs []*Term, ev *Event) {
		kind, n := newBox(b)
		if kind == "" {
			x.bad(ev, "undecided: the votes are cast into %v", b)
			return
		}
		c.ob("applyforest.main", "the kind of the ballot box")
		if !casesOf(n, data) {
			x.bad(ev, "the ballot box is for %v cases and not for those of the matrix", n)
		}
		on := func(f string) int { return flagOn(gs, flags[f]) }
		ok := false
		switch kind {
		case "Sum":
			ok = on("sum") == 1
		case "Num":
			ok = on("sum") == 0 && on("mode") == 0 && (on("mean") == 1 || numeric(gs) == 1)
		case "Cat":
			ok = on("sum") == 0 && (on("mode") == 1 || on("mean") == 0 && numeric(gs) == 0)
		}
		if !ok {
			x.bad(ev, "the votes are tallied as New%sBallotBox does when it is not decided that they are to be", kind)
		}
	}
	if box.Op == "sym" {
		k := e.phiCut(box)
		n := 0
		e.each(func(cu *Cut, p *Path) {
			if p.To == k && p.Phi[box] != nil && unwrapped(p.Phi[box]) != box {
				n++
				v := unwrapped(p.Phi[box])
				if kind, _ := newBox(v); kind != "" && e.members(k)[e.callCut(v)] {
					x.bad(votes[0], "trees vote into different ballot boxes")
				}
				for _, gs := range e.alternatives(p.All()) {
					checkBox(v, gs, votes[0])
				}
			}
		})
		if n == 0 || k == nil || k.Loop && k != vote {
			x.bad(votes[0], "undecided: where the ballot box comes from")
		}
	} else {
		checkBox(box, vote.In.facts, votes[0])
		if e.members(vote)[e.callCut(box)] {
			x.bad(votes[0], "trees vote into different ballot boxes")
		}
	}
	isBox := func(t *Term) bool {
		t = unwrapped(t)
		for t != nil && strings.HasPrefix(t.Op, "typeassert") {
			t = unwrapped(t.Args[0])
		}
		return t == box || e.copyOf(t) == box
	}

	// predictions
	target := func(m *Term) bool {
		return m.Op == "lookup" && field(m.Args[0], "FeatureMatrix.Map") == data && field(m.Args[1], "Forest.Target") == forest
	}
	prediction := func(t, i *Term, gs []*Term) string {
		isIcpt := func(t *Term) bool { return field(t, "Forest.Intercept") == forest }
		sum, zero := flagOn(gs, flags["sum"]), -1
		for _, g := range gs {
			s, v := strip(g), 1
			if s.Op == "not" {
				s, v = s.Args[0], 0
			}
			if s.Op == "eq" && len(s.Args) == 2 && (isIcpt(s.Args[0]) && isZero(s.Args[1]) || isIcpt(s.Args[1]) && isZero(s.Args[0])) {
				zero = v
			}
			if s.Op == "eq0" && isIcpt(s.Args[0]) {
				zero = v
			}
		}
		shifted := 0
		switch {
		case sum == 1, zero == 0:
			shifted = 1
		case sum == 0 && zero == 1:
		default:
			return "it is not decided whether the prediction is to be shifted by the intercept"
		}
		if shifted == 0 {
			if a := isCall(t, "Tally"); len(a) == 2 && isBox(a[0]) && decideEq(a[1], i) {
				return ""
			}
			return "the prediction is " + t.String() + " and not what was tallied for the case"
		}
		switch ex := isCall(t, "Expit"); flagOn(gs, flags["expit"]) {
		case 1:
			if len(ex) != 1 {
				return "the prediction is not transformed although -expit asks for it"
			}
			t = ex[0]
		case 0:
			if ex != nil {
				return "the prediction is transformed although -expit does not ask for it"
			}
		default:
			return "it is not decided whether the prediction is to be transformed"
		}
		var tally, icpt *Term
		t.walk(func(y *Term) bool {
			if isIcpt(y) {
				icpt = y
			}
			if a := isCall(y, "TallyNum"); len(a) == 2 && isBox(a[0]) && decideEq(a[1], i) {
				tally = y
			}
			return true
		})
		if tally == nil || icpt == nil || t != addT(tally, icpt) {
			return "the prediction is " + t.String() + " and not what was tallied for the case plus the intercept"
		}
		return ""
	}
	k := x.caseLines(flags["preds"], "predictions", func(n *Term) bool { return casesOf(n, data) }, func(p *Path, i *Term, fs [][]piece) string {
		if len(fs) != 3 {
			return "it does not have the label, the prediction and the actual value"
		}
		if l := one1(fs[0]); l == nil || !labelOf(l, data, i) {
			return "it begins with the label of another case"
		}
		alts := e.alternatives(p.All())
		if len(alts) == 0 {
			return ""
		}
		for _, gs := range alts {
			t := one1(fs[1])
			if t == nil {
				return "it has no prediction"
			}
			if why := prediction(t, i, gs); why != "" {
				return why
			}
			has := -1
			for _, g := range gs {
				s, v := strip(g), 1
				if s.Op == "not" {
					s, v = s.Args[0], 0
				}
				if s.Op == "haskey" && field(s.Args[0], "FeatureMatrix.Map") == data && field(s.Args[1], "Forest.Target") == forest {
					has = v
				}
			}
			switch a := one1(fs[2]); {
			case has == 0 && len(fs[2]) == 1 && fs[2][0].val == nil && fs[2][0].lit == "NA":
			case has == 1 && a != nil:
				g := isCall(a, "GetStr")
				if len(g) != 2 || !decideEq(g[1], i) {
					return "the actual value is not that of the case"
				}
				if m, n := dataElem(g[0]); m != data || !target(n) {
					return "the actual value is not that of the forest's target"
				}
			default:
				return "it is not decided what the actual value is"
			}
		}
		return ""
	})
	if k != nil && e.reaches(func(p *Path) bool { return p.To == vote }, func(p *Path) bool { return p.To == k }) != nil {
		x.bad(nil, "predictions can be reported before the trees vote")
	}
	x.totals(flags["votes"], data, isBox, vote)
}

// callCut is the loop a call is made in.
func (e *Exec) callCut(t *Term) *Cut {
	t = unwrapped(t)
	var out *Cut
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Res == t {
				out = e.loopOf(ev)
			}
		}
	})
	return out
}

// totals: the file of votes has a row for every case with its label and the votes for every category, in
// the order of the header.
func (x *reporting) totals(flag, data *Term, isBox func(*Term) bool, vote *Cut) {
	e := x.e
	isW := func(w *Term) bool { return x.fileOf(w, flag) }
	back := func(t *Term) bool { // the list of categories of the ballot box
		m := field(t, "CatMap.Back")
		if m == nil {
			return false
		}
		if f := field(m, "CatBallotBox.CatMap"); f != nil {
			m = f
		}
		return isBox(m)
	}
	boxes := func(t *Term) bool {
		f := field(t, "CatBallotBox.Box")
		return f != nil && isBox(f)
	}
	var head, row, cell *Cut
	var rowAt *Term
	var labelled []*Term
	bad := func(ev *Event, f string, a ...interface{}) { x.bad(ev, f, a...) }
	n := 0
	e.each(func(cu *Cut, p *Path) {
		if p.End == "exit" || p.End == "panic" {
			return
		}
		ps, m, why := p.written(isW)
		if m == 0 {
			return
		}
		var ev *Event
		for _, w := range p.Events {
			if w.Kind == "call" && len(w.Args) > 1 && isW(w.Args[0]) {
				ev = w
			}
		}
		if why != "" {
			bad(ev, "the totals of votes: %s", why)
			return
		}
		n++
		k := e.loopOf(ev)
		var vals []*Term
		for _, q := range ps {
			if q.val != nil {
				vals = append(vals, unwrapped(q.val))
			}
		}
		for _, v := range vals {
			switch {
			case v.Op == "lookup" && field(v.Args[0], "CatBallot.Map") != nil:
				x.c.ob(x.cmd, "a total of votes")
				arr, i := elem(field(v.Args[0], "CatBallot.Map"))
				cell = k
				row = e.outer(k)
				rowAt = i
				if arr == nil || !boxes(arr) {
					bad(ev, "undecided: a total of votes that is not of a case")
					return
				}
				if !e.overAll(k, v.Args[1], back) {
					bad(ev, "a case does not have one total for every category")
				}
				if row == nil || e.countsAny(row, i, func(n *Term) bool { return casesOf(n, data) || n.Op == "len" && boxes(n.Args[0]) }) != "" {
					bad(ev, "the totals are not those of all cases")
				}
				if len(ps) != 2 || ps[0].lit != "\t" || ps[1].val == nil {
					bad(ev, "a total is not in a column of its own")
				}
			default:
				arr, i := elem(v)
				switch {
				case arr != nil && back(arr):
					head = k
					if !e.overAll(k, i, back) {
						bad(ev, "the header does not name every category")
					}
					if len(ps) != 2 || ps[0].lit != "\t" || ps[1].val == nil {
						bad(ev, "a category of the header is not in a column of its own")
					}
				case arr != nil && field(arr, "FeatureMatrix.CaseLabels") == data:
					x.c.ob(x.cmd, "the label of a row of votes")
					if last := ps[len(ps)-1]; unwrapped(last.val) != v {
						bad(ev, "the label of a case is not at the start of its row")
					}
					labelled = append(labelled, i)
					if k == nil || e.countsAny(k, i, func(n *Term) bool { return casesOf(n, data) || n.Op == "len" && boxes(n.Args[0]) }) != "" {
						bad(ev, "a row of votes does not begin with the label of its case")
					}
				default:
					bad(ev, "undecided: %v is written among the votes", v)
				}
			}
		}
	})
	if n == 0 || head == nil || cell == nil || row == nil {
		x.bad(nil, "undecided: the totals of votes are not written by loops over the cases and categories")
		return
	}
	for _, i := range labelled {
		if !decideEq(i, rowAt) {
			x.bad(nil, "a row of votes begins with the label of another case")
		}
	}
	every := func(k *Cut, what string) {
		w := func(p *Path) bool { _, m, _ := p.written(isW); return m > 0 }
		if !e.everyTurn(k, w) {
			x.bad(nil, "%s can be left out of the votes", what)
		}
	}
	every(head, "a category")
	every(cell, "a total")
	// what comes before and after: ".", the end of a line, the label, the end of a line
	around := func(k *Cut, isEnter bool, what string, ok func(ps []piece) bool) {
		var ps []*Path
		if isEnter {
			ps, _ = e.into(k)
		} else {
			ps = e.leaving(k)
		}
		for _, p := range ps {
			if p.End == "exit" || p.End == "panic" {
				continue
			}
			if w, _, _ := p.written(isW); !ok(w) {
				x.bad(nil, "the votes have no %s", what)
			}
		}
	}
	around(head, false, "end of the header", func(ps []piece) bool { return len(ps) > 0 && strings.HasPrefix(ps[0].lit, "\n") })
	around(cell, true, "label at the start of a row", func(ps []piece) bool {
		return len(ps) > 0 && ps[len(ps)-1].val != nil && func() bool {
			arr, _ := elem(unwrapped(ps[len(ps)-1].val))
			return arr != nil && field(arr, "FeatureMatrix.CaseLabels") == data
		}()
	})
	around(cell, false, "end of a row", func(ps []piece) bool { return len(ps) == 1 && ps[0].lit == "\n" })
	if e.reaches(func(p *Path) bool { return p.To == row || p.flagEmpty(flag) }, func(p *Path) bool { return p.End == "return" && p.To == nil && !p.flagEmpty(flag) }) != nil {
		x.bad(nil, "the votes can be left out although they are asked for")
	}
	if e.reaches(func(p *Path) bool { return p.To == vote }, func(p *Path) bool { return p.To == row }) != nil {
		x.bad(nil, "the votes can be reported before the trees vote")
	}
}

// grownReports: growforest's out-of-bag predictions and its test.
func (c *Check) grownReports() {
	e := c.command("growforest")
	if e == nil {
		return
	}
	x := &reporting{c: c, e: e, key: "report/growforest", cmd: "growforest.main"}
	train, target, testfm, oobpreds := e.flag("train"), e.flag("target"), e.flag("test"), e.flag("oobpreds")
	if train == nil || target == nil || testfm == nil || oobpreds == nil {
		x.bad(nil, "undecided: the flags for the data, the target, the test and the out-of-bag predictions")
		return
	}
	var data, oobBox *Term
	var votes []*Event
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			if nameIs(ev.Name, "VoteCases") && len(ev.Args) == 4 {
				data = ev.Args[1]
				if b := strip(ev.Args[2]); b.Op == "load" {
					oobBox = b.Args[0]
				} else {
					oobBox = b
				}
			}
			if isTreeVote(ev) {
				votes = append(votes, ev)
			}
		}
	})
	if data == nil || !loadedFrom(data, train) {
		x.bad(nil, "undecided: no out-of-bag votes on the training data")
		return
	}
	ofTarget := func(t, m *Term) bool {
		d, i := dataElem(t)
		return d != nil && d == m && i.Op == "lookup" && field(i.Args[0], "FeatureMatrix.Map") == m && isLoadOf(strip(i.Args[1]), target)
	}
	actual := func(t *Term) bool { // the target as it was read
		a := isCall(unwrapped(t), "Copy")
		return len(a) == 1 && ofTarget(a[0], data)
	}
	x.caseLines(oobpreds, "out-of-bag predictions", func(n *Term) bool { return casesOf(n, data) }, func(p *Path, i *Term, fs [][]piece) string {
		if len(fs) != 3 {
			return "it does not have the label, the prediction and the actual value"
		}
		if l := one1(fs[0]); l == nil || !labelOf(l, data, i) {
			return "it begins with the label of another case"
		}
		if a := isCall(one1(fs[1]), "Tally"); len(a) != 2 || !isLoadOf(strip(a[0]), oobBox) && strip(a[0]) != oobBox || !decideEq(a[1], i) {
			return "the prediction is not what was tallied for the case"
		}
		if a := isCall(one1(fs[2]), "GetStr"); len(a) != 2 || !actual(a[0]) || !decideEq(a[1], i) {
			return "the actual value is not the one the case had before boosting"
		}
		return ""
	})

	if len(votes) == 0 {
		x.bad(nil, "undecided: no tree votes in the test")
		return
	}
	for _, ev := range votes {
		c.ob("growforest.main", "every tree votes in the test")
		d, b := ev.Args[1], unwrapped(ev.Args[2])
		k := x.votedOnce(ev, func(t *Term) bool { return t.T != nil && isTreeList(t.T) })
		if k == nil {
			return
		}
		// the target the votes are compared with
		var t *Term
		var at *Event
		e.each(func(cu *Cut, p *Path) {
			for _, w := range p.calls("TallyError") {
				if len(w.Args) == 2 && unwrapped(w.Args[0]) == b {
					t, at = unwrapped(w.Args[1]), w
				}
			}
		})
		if t == nil {
			x.bad(ev, "undecided: no error is told for the test")
			return
		}
		c.ob("growforest.main", "the error of the test")
		if e.reaches(func(p *Path) bool { return p.To == k }, func(p *Path) bool { return len(p.calls("TallyError")) > 0 && hasEvent(p, at) }) != nil {
			x.bad(at, "the error is tallied before the trees vote")
		}
		pair := func(dv, tv *Term, gs []*Term) {
			switch {
			case loadedFrom(dv, train) && dv == data:
				if !actual(tv) {
					x.bad(at, "the votes on the training data are compared with %v and not with its target as it was read", tv)
				}
				if !emptyFlag(gs, testfm) {
					x.bad(at, "the forest can be tested on the training data although there is testing data")
				}
			case loadedFrom(dv, testfm):
				a := isCall(unwrapped(tv), "Copy")
				if !ofTarget(tv, dv) && !(len(a) == 1 && ofTarget(a[0], dv)) {
					x.bad(at, "the votes on the testing data are compared with %v and not with its target", tv)
				}
			default:
				x.bad(at, "undecided: the trees vote on %v", dv)
			}
		}
		if d.Op == "sym" {
			n := 0
			e.each(func(cu *Cut, p *Path) {
				if v := p.Phi[d]; v != nil && v != d {
					n++
					tv := t
					if p.Phi[t] != nil {
						tv = p.Phi[t]
					}
					pair(v, unwrapped(tv), p.All())
				}
			})
			if n == 0 {
				x.bad(at, "undecided: what the trees vote on")
			}
		} else {
			pair(d, t, k.In.facts)
		}
		kindOf := func(v *Term, gs []*Term) {
			c.ob("growforest.main", "the kind of the ballot box")
			kind, n := newBox(v)
			if kind == "" {
				x.bad(ev, "undecided: the votes are cast into %v", v)
				return
			}
			if !casesOf(n, d) {
				x.bad(ev, "the ballot box is for %v cases and not for those the trees vote on", n)
			}
			num := -1
			for _, g := range gs {
				g.walk(func(y *Term) bool {
					if a := isCall(y, "NCats"); len(a) == 1 && (actual(a[0]) || unwrapped(a[0]) == t) {
						switch decide(gs, eq0(y)) {
						case 1:
							num = 1
						case 0:
							num = 0
						}
					}
					return true
				})
			}
			if !(kind == "Num" && num == 1 || kind == "Cat" && num == 0) {
				x.bad(ev, "the votes are tallied as New%sBallotBox does when it is not decided that the target is of that kind", kind)
			}
		}
		if b.Op == "sym" {
			e.each(func(cu *Cut, p *Path) {
				if v := p.Phi[b]; v != nil && unwrapped(v) != b {
					kindOf(v, p.All())
					if kc := e.phiCut(b); e.members(k)[e.callCut(v)] || kc == nil || kc.Loop && kc != k {
						x.bad(ev, "trees vote into different ballot boxes")
					}
				}
			})
		} else {
			kindOf(b, k.In.facts)
		}
	}
}

func hasEvent(p *Path, ev *Event) bool {
	for _, w := range p.Events {
		if w.In == ev.In {
			return true
		}
	}
	return false
}

func emptyFlag(gs []*Term, flag *Term) bool {
	hit := false
	for _, g := range gs {
		g.walk(func(x *Term) bool {
			if isLoadOf(strip(x), flag) && decide(gs, ge0(negT(lenT(x)))) == 1 {
				hit = true
			}
			return true
		})
	}
	return hit
}

func isTreeList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return strings.HasSuffix(types.TypeString(s.Elem(), nil), ".Tree")
}

func init() {
	register(&Rule{ID: "C35", What: "in applyforest and growforest the loop that lets trees vote visits every tree once, with one ballot box of the kind decided on the path, made for the cases of the matrix voted on; each turn of the loop over the cases writes one line whose fields are the label, the tally (plus intercept, through Expit) and the target's value of one and the same index, on every path; the loops over cases and categories write every total in the header's order; the test compares the votes with the target of the matrix voted on", Min: 8,
		Run: func(c *Check) {
			c.applied()
			c.grownReports()
		}})
}
