package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C36: leaf co-occurrence counts -------------------------------------------------------------------------

func exportedRoot(g *ssa.Function) bool {
	o := g.Object()
	return o != nil && o.Pkg() != nil && o.Pkg().Path() == RepoPath && o.Exported()
}

// counterAdds: SparseCounter.Add raises one count by the value given.
func (c *Check) counterAdds() {
	f := c.method("SparseCounter", "Add")
	e := c.run(f, "leafcount", Options{})
	if e == nil {
		return
	}
	key := "count/SparseCounter.Add"
	sc, i, j, val := e.param(0), e.param(1), e.param(2), e.param(3)
	e.each(func(cu *Cut, p *Path) {
		if cu != e.Entry || p.End != "return" {
			if p.To != nil {
				c.bad(key, f.Pos(), "undecided: SparseCounter.Add loops")
			}
			return
		}
		c.ob("SparseCounter.Add", "one count is raised")
		fresh := func(t *Term) bool { return t.Op == "makemap" }
		var m, row, was, now *Term
		wasSet := false
		m = mk("load", "", fieldAddrN(sc, "SparseCounter.Map", nil, nil))
		var last *Event
		made := map[*Term]bool{}
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "store" && addrField(ev.Addr, "SparseCounter.Map") == sc:
				if !fresh(ev.Val) || !p.holdsBefore(ev, mk("isnil", "", m)) {
					c.bad(key, instrPos(ev.In), "Add throws away the counts there are")
				}
				m = ev.Val
				made[m] = true
			case ev.Kind == "mapupdate" && ev.Addr == m:
				here := mk("lookup", "", m, i)
				if len(ev.Args) != 1 || ev.Args[0] != i || !fresh(ev.Val) {
					c.bad(key, instrPos(ev.In), "Add gives a row of counts another value")
					return
				}
				if !made[m] && !p.holdsBefore(ev, mk("isnil", "", here)) && !p.holdsBefore(ev, notT(mk("haskey", "", m, i))) {
					// a row of a new map is not there whatever the conditions say
					c.bad(key, instrPos(ev.In), "Add throws away a row of counts there is")
				}
				row = ev.Val
				made[row] = true
				wasSet = false
			case ev.Kind == "mapupdate":
				if row == nil {
					row = mk("lookup", "", m, i)
				}
				if ev.Addr != row || len(ev.Args) != 1 || ev.Args[0] != j {
					c.bad(key, instrPos(ev.In), "Add changes another count than the one at its place")
					return
				}
				if !wasSet {
					was, wasSet = mk("lookup", "", row, j), true
				}
				now, last = ev.Val, ev
			case ev.Kind == "store" && !isLocal(ev.Addr):
				c.bad(key, instrPos(ev.In), "undecided: Add writes %v", ev.Addr)
			}
		}
		if now == nil {
			if decide(p.All(), eq0(val)) != 1 {
				c.bad(key, instrPos(p.RetIn), "Add can leave the count as it is")
			}
			return
		}
		// what was there before: nothing, or the count
		none := made[row] || made[m] || p.holds(notT(mk("haskey", "", row, j)))
		got := now
		if none {
			got = rewrite(now, func(t *Term) *Term {
				if t == was {
					return intT(0)
				}
				return nil
			})
		}
		want := addT(was, val)
		if none {
			want = val
		}
		if got != want {
			c.bad(key, instrPos(last.In), "Add makes the count %v and not what it was plus the value", got)
		}
	})
}

func isLocal(a *Term) bool {
	for a != nil && (a.Op == "fieldaddr" || a.Op == "indexaddr") {
		a = a.Args[0]
	}
	return a != nil && a.Op == "alloc"
}

// keysOf: the list is made of all keys of a map, each once.
func (e *Exec) keysOf(list, m *Term) string {
	g := e.gather(list)
	if len(g.other) > 0 || len(g.appends) == 0 {
		return "what it holds is not known"
	}
	isKey := func(t *Term) bool {
		return t.Op == "extract" && t.S == "1" && t.Args[0].Op == "next" && t.Args[0].Args[0].Op == "range" && t.Args[0].Args[0].Args[0] == m
	}
	var loop *Cut
	for _, s := range g.appends {
		if s.all || len(s.elems) != 1 || !isKey(s.elems[0]) {
			return "it holds something else"
		}
		k := e.loopOf(s.ev)
		if k == nil || loop != nil && k != loop {
			return "it is not filled by one loop"
		}
		loop = k
	}
	hit := func(p *Path) int {
		n := 0
		for _, ev := range p.Events {
			if ev.Kind == "append" && g.values[ev.Val] {
				n++
			}
		}
		return n
	}
	if !e.everyTurn(loop, func(p *Path) bool { return hit(p) > 0 }) {
		return "some can be left out"
	}
	if !e.oncePerTurn(loop, hit) {
		return "some can be there twice"
	}
	for _, p := range e.leaving(loop) {
		if p.End == "exit" || p.End == "panic" {
			continue
		}
		done := false
		for _, gd := range p.Guards {
			done = done || gd.Op == "not" && gd.Args[0].Op == "extract" && gd.Args[0].S == "0" && gd.Args[0].Args[0].Op == "next"
		}
		if !done {
			return "the loop can end early"
		}
	}
	return ""
}

// counterWrites: WriteTsv writes every count once.
func (c *Check) counterWrites() {
	f := c.method("SparseCounter", "WriteTsv")
	e := c.run(f, "leafcount", Options{})
	if e == nil {
		return
	}
	key := "count/SparseCounter.WriteTsv"
	sc, w := e.param(0), e.param(1)
	m := mk("load", "", fieldAddrN(sc, "SparseCounter.Map", nil, nil))
	isW := func(t *Term) bool {
		t = unwrapped(t)
		if a := isCall(t, "NewWriter"); len(a) > 0 {
			t = unwrapped(a[0])
		}
		return t == w
	}
	writes := func(p *Path) *Event {
		for _, ev := range p.Events {
			if ev.Kind == "call" && len(ev.Args) > 1 && isW(ev.Args[0]) {
				return ev
			}
		}
		return nil
	}
	isRows := func(l *Term) bool { return e.keysOf(l, m) == "" }
	var inner *Cut
	e.each(func(cu *Cut, p *Path) {
		ev := writes(p)
		if ev == nil {
			return
		}
		c.ob("SparseCounter.WriteTsv", "a count is written")
		k := e.loopOf(ev)
		if k == nil || inner != nil && k != inner {
			c.bad(key, instrPos(ev.In), "undecided: the counts are not written by one loop")
			return
		}
		inner = k
		ps, n, why := p.written(isW)
		fs, ended := tabbed(ps)
		if why != "" || n == 0 || !ended || len(fs) != 3 {
			c.bad(key, instrPos(ev.In), "a line does not hold a row, a column and a count %s", why)
			return
		}
		r, col, v := one1(fs[0]), one1(fs[1]), one1(fs[2])
		at := mk("lookup", "", m, r)
		rows, ri := elem(r)
		cols, ci := elem(col)
		if r == nil || col == nil || v == nil || rows == nil || cols == nil || !isRows(rows) || e.keysOf(cols, at) != "" {
			c.bad(key, instrPos(ev.In), "a line does not begin with one of the rows and one of its columns")
			return
		}
		if v != mk("lookup", "", at, col) {
			c.bad(key, instrPos(ev.In), "a line ends with %v and not with the count at its row and column", v)
		}
		if msg := e.countsAny(k, ci, func(n *Term) bool { return n == lenT(cols) }); msg != "" {
			c.bad(key, instrPos(ev.In), "not every column of a row is written: %s", msg)
		}
		o := e.outer(k)
		if o == nil || e.countsAny(o, ri, func(n *Term) bool { return n == lenT(rows) }) != "" {
			c.bad(key, instrPos(ev.In), "not every row is written")
			return
		}
		if e.outer(o) != nil {
			c.bad(key, instrPos(ev.In), "a row can be written more than once")
		}
		if !e.everyTurn(o, func(p *Path) bool { return p.To == k }) {
			c.bad(key, instrPos(ev.In), "a row can be left out")
		}
		if !e.everyTurn(k, func(p *Path) bool { return writes(p) != nil || decide(p.All(), eq0(v)) == 1 }) {
			c.bad(key, instrPos(ev.In), "a count can be left out")
		}
		if !e.oncePerTurn(k, func(p *Path) int {
			if writes(p) != nil {
				return 1
			}
			return 0
		}) {
			c.bad(key, instrPos(ev.In), "a count can be written twice")
		}
		if e.reaches(func(p *Path) bool { return p.To == o || p.holds(eqZ(lenT(m))) }, func(p *Path) bool { return p.End == "return" && !p.holds(eqZ(lenT(m))) }) != nil {
			c.bad(key, instrPos(ev.In), "the counts can be left out")
		}
		e.each(func(_ *Cut, q *Path) {
			for _, s := range q.Events {
				if s.Kind == "store" {
					if a, _ := addrElem(s.Addr); a == rows || a == cols {
						c.bad(key, instrPos(s.In), "undecided: the rows or columns are changed")
					}
				}
				if s.Kind == "mapupdate" {
					c.bad(key, instrPos(s.In), "writing the counts changes them")
				}
			}
		})
	})
	if inner == nil {
		c.bad(key, f.Pos(), "undecided: no counts are written")
	}
}

// branchCounts: GetLeaves counts every case at every node that splits.
func (c *Check) branchCounts() {
	f := c.method("Tree", "GetLeaves")
	e := c.run(f, "vote", Options{Opaque: treeOpaque})
	if e == nil {
		return
	}
	key := "count/Tree.GetLeaves"
	fm, counter := e.param(1), e.param(2)
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "SparseCounter).Add") {
				c.bad(key, instrPos(ev.In), "undecided: something is counted that is not at a node")
			}
		}
		for _, ev := range p.calls("Recurse") {
			g, opt := c.closureAt(p, ev, ev.Args[1])
			if g == nil {
				continue
			}
			for _, b := range opt.FreeVars {
				if b.Op != "alloc" {
					continue
				}
				// what the variable was given before the walk
				vs := e.puts(b)
				if len(vs) == 1 && opt.Mem[b] == nil && (vs[0] == fm || vs[0] == counter) {
					opt.Mem[b] = vs[0]
				}
			}
			n++
			opt.Opaque = exportedRoot
			ve := c.run(g, "!", opt)
			if ve == nil {
				continue
			}
			c.branchVisit(key, ve, fm, counter)
		}
	})
	if n == 0 {
		c.bad(key, f.Pos(), "undecided: GetLeaves does not walk the tree")
	}
}

func (c *Check) branchVisit(key string, e *Exec, fm, counter *Term) {
	node, cases := e.param(0), e.param(1)
	split := mk("load", "", fieldAddrN(node, "Node.Splitter", nil, nil))
	var k *Cut
	adds := func(p *Path) int {
		n := 0
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "SparseCounter).Add") {
				n++
			}
		}
		return n
	}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "SparseCounter).Add") {
				continue
			}
			c.ob("Tree.GetLeaves", "a case is counted at a node")
			l := e.loopOf(ev)
			if l == nil || k != nil && l != k {
				c.bad(key, instrPos(ev.In), "undecided: the cases of a node are not counted by one loop")
				continue
			}
			k = l
			arr, i := elem(ev.Args[1])
			col := ev.Args[2]
			one, isOne := ev.Args[3].intc()
			switch {
			case ev.Args[0] != counter:
				c.bad(key, instrPos(ev.In), "the cases are counted in another counter than the one given")
			case arr != cases || !e.overAll(l, i, func(t *Term) bool { return t == cases }):
				c.bad(key, instrPos(ev.In), "not every case of the node is counted")
			case col.Op != "lookup" || field(col.Args[0], "FeatureMatrix.Map") != fm || field(field(col.Args[1], "Splitter.Feature"), "Node.Splitter") != node:
				c.bad(key, instrPos(ev.In), "the cases are counted under %v and not under the feature they are split by", col)
			case !isOne || one != 1:
				c.bad(key, instrPos(ev.In), "a case counts %v", ev.Args[3])
			}
		}
	})
	if k == nil {
		c.bad(key, e.Root.Pos(), "undecided: no case is counted")
		return
	}
	if !e.everyTurn(k, func(p *Path) bool { return adds(p) > 0 }) {
		c.bad(key, blockPos(k.B), "a case can be left out of the counts")
	}
	if !e.oncePerTurn(k, adds) || e.outer(k) != nil {
		c.bad(key, blockPos(k.B), "a case can be counted twice at a node")
	}
	none := func(p *Path) bool {
		return p.holds(mk("isnil", "", counter)) || p.holds(mk("isnil", "", split)) || p.holds(eqZ(lenT(cases)))
	}
	if e.reaches(func(p *Path) bool { return p.To == k || none(p) }, func(p *Path) bool { return p.End == "return" && p.To == nil && !none(p) }) != nil {
		c.bad(key, blockPos(k.B), "a node that splits can be left out of the counts")
	}
}

// ---- the leafcount command ----

type leafCounter struct {
	c    *Check
	e    *Exec // main
	key  string
	mem  map[*Term]*Term
	flag map[string]*Term

	failed bool
}

func (x *leafCounter) bad(e *Exec, ev *Event, f string, a ...interface{}) {
	pos := e.Root.Pos()
	if ev != nil {
		pos = instrPos(ev.In)
	}
	x.failed = true
	x.c.bad(x.key, pos, f, a...)
}

func (x *leafCounter) settle(t *Term) *Term { return x.e.settleCells(t) }

// part analyses a function main starts or hands over, in main's variables.
func (x *leafCounter) part(t *Term) *Exec {
	if t == nil || t.Op != "closure" && t.Op != "func" {
		return nil
	}
	f, _ := t.V.(*ssa.Function)
	if f == nil {
		return nil
	}
	opt := Options{FreeVars: map[string]*Term{}, Mem: map[*Term]*Term{}, NoDefer: true, Opaque: exportedRoot}
	for i, fv := range f.FreeVars {
		if i < len(t.Args) {
			opt.FreeVars[fv.Name()] = t.Args[i]
			if v := x.mem[t.Args[i]]; v != nil && !writesVar(f, fv) {
				opt.Mem[t.Args[i]] = v
			}
		}
	}
	return x.c.run(f, "!", opt)
}

func (c *Check) leafcounts() {
	f := c.fn("leafcount", "main")
	e := c.run(f, "leafcount", Options{Opaque: exportedRoot, NoDefer: true})
	if e == nil {
		return
	}
	x := &leafCounter{c: c, e: e, key: "count/leafcount", mem: map[*Term]*Term{}, flag: map[string]*Term{}}
	for _, n := range []string{"fm", "rfpred", "leaves", "branches", "splits"} {
		if x.flag[n] = e.flag(n); x.flag[n] == nil {
			x.bad(e, nil, "undecided: there is no flag -%s", n)
			return
		}
	}
	// the variables that have their only value before anything is started
	var starts []*Event
	cells := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "go" {
				starts = append(starts, ev)
			}
			if ev.Kind == "store" && ev.Addr.Op == "alloc" {
				cells[ev.Addr] = true
			}
		}
	})
	for a := range cells {
		vs := map[*Term]bool{}
		for _, v := range e.puts(a) {
			vs[v] = true
		}
		if len(vs) != 1 {
			continue
		}
		sets := func(p *Path) bool {
			for _, ev := range p.Events {
				if ev.Kind == "store" && ev.Addr == a {
					return true
				}
			}
			return false
		}
		if e.reaches(sets, func(p *Path) bool {
			for _, ev := range p.Events {
				if ev.Kind == "go" && !sets(p) {
					return true
				}
			}
			return false
		}) == nil {
			for v := range vs {
				x.mem[a] = v
			}
		}
	}
	if len(starts) == 0 {
		x.bad(e, nil, "undecided: no workers are started")
		return
	}
	parts := []*Exec{e}
	seen := map[*Term]bool{}
	for _, ev := range starts {
		if seen[ev.Val] {
			continue
		}
		seen[ev.Val] = true
		g := x.part(ev.Val)
		if g == nil {
			x.bad(e, ev, "undecided: what is started")
			return
		}
		parts = append(parts, g)
	}
	x.feeds(parts)
	if x.failed {
		return
	}
	workers := 0
	var counts, branches, splits *Term
	for _, g := range parts {
		does := false
		g.each(func(cu *Cut, p *Path) { does = does || len(p.calls("ReadForest")) > 0 })
		if !does {
			continue
		}
		workers++
		counts, branches, splits = x.works(g)
	}
	if x.failed {
		return
	}
	if workers != 1 {
		x.bad(e, nil, "undecided: forests are read in %d places", workers)
		return
	}
	x.results(counts, branches, splits)
}

// feeds: every file named is handed to a worker once.
func (x *leafCounter) feeds(parts []*Exec) {
	n := 0
	for _, e := range parts {
		files := func(t *Term) bool {
			a := isCall(x.settle(t), "Split")
			if len(a) != 2 || !isLoadOf(strip(a[0]), x.flag["rfpred"]) {
				return false
			}
			s, ok := a[1].str()
			return ok && s == ","
		}
		sends := func(p *Path) int {
			n := 0
			for _, ev := range p.Events {
				if ev.Kind == "send" && strings.Contains(typeName(ev.Addr.T), "string") {
					n++
				}
			}
			return n
		}
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				if ev.Kind != "send" {
					continue
				}
				arr, i := elem(ev.Val)
				if arr == nil || !files(arr) {
					if sends(p) > 0 {
						x.bad(e, ev, "something else than a file named is handed to a worker")
					}
					continue
				}
				n++
				x.c.ob("leafcount.main", "the files are handed to the workers")
				k := e.loopOf(ev)
				if k == nil || !e.overAll(k, i, files) {
					x.bad(e, ev, "not every file is handed to a worker")
					continue
				}
				hit := func(q *Path) int {
					n := 0
					for _, v := range q.Events {
						if v.Kind == "send" && v.Addr == ev.Addr {
							n++
						}
					}
					return n
				}
				if !e.everyTurn(k, func(q *Path) bool { return hit(q) > 0 }) {
					x.bad(e, ev, "a file can be left out")
				}
				if !e.oncePerTurn(k, hit) || e.outer(k) != nil {
					x.bad(e, ev, "a file can be handed out twice")
				}
				if e.reaches(func(q *Path) bool { return q.To == k }, func(q *Path) bool { return q.End == "return" }) != nil {
					x.bad(e, ev, "the files can be left out")
				}
			}
		})
	}
	if n == 0 {
		x.bad(x.e, nil, "undecided: how the files get to the workers")
	}
}

// works: what a worker does with every file.
func (x *leafCounter) works(e *Exec) (counts, branches, splits *Term) {
	c := x.c
	var reads, leaves, climbs, adds []*Event
	paths := map[*Event]*Path{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			paths[ev] = p
			switch {
			case nameIs(ev.Name, "ReadForest"):
				reads = append(reads, ev)
			case nameIs(ev.Name, "GetLeaves"):
				leaves = append(leaves, ev)
			case nameIs(ev.Name, "Climb"):
				climbs = append(climbs, ev)
			case strings.HasSuffix(ev.Name, "SparseCounter).Add"):
				adds = append(adds, ev)
			}
		}
	})
	if len(leaves) == 0 || len(adds) == 0 || len(climbs) == 0 {
		x.bad(e, nil, "undecided: how the trees of a forest are counted")
		return
	}
	times := func(name string) func(p *Path) int {
		return func(p *Path) int {
			n := 0
			for _, ev := range p.Events {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, name) {
					n++
				}
			}
			return n
		}
	}
	// the forest is the one in the file received
	forest := reads[0].Res
	for _, ev := range reads {
		ok := ev.Res == forest
		if r := isCall(ev.Args[0], "NewForestReader"); ok && len(r) == 1 {
			u := unwrapped(r[0])
			if b := isCall(u, "NewReader"); len(b) > 0 {
				u = unwrapped(b[0])
			}
			a := []*Term(nil)
			if u.Op == "extract" && u.S == "0" {
				a = isCall(u.Args[0], "Open")
			}
			ok = len(a) == 1 && strip(a[0]).contains(func(y *Term) bool { return y.Op == "recv" })
		} else {
			ok = false
		}
		if !ok {
			x.bad(e, ev, "the forest is not read from the file received")
			return
		}
	}
	ofForest := func(t *Term) bool {
		f := field(t, "Forest.Trees")
		return f != nil && f.Op == "extract" && f.S == "0" && f.Args[0] == forest
	}
	isTree := func(t *Term) bool { arr, _ := elem(t); return arr != nil && ofForest(arr) }
	c.ob("leafcount.main", "the trees of every forest")

	// every tree once
	var k *Cut
	var listed *Term
	for _, ev := range leaves {
		l := e.loopOf(ev)
		_, i := elem(ev.Args[0])
		if l == nil || k != nil && l != k || !isTree(ev.Args[0]) || !e.overAll(l, i, ofForest) {
			x.bad(e, ev, "not every tree of the forest is counted")
			return
		}
		k, listed = l, ev.Res
		if !loadedFrom(x.settle(ev.Args[1]), x.flag["fm"]) {
			x.bad(e, ev, "the leaves are those of the cases of another matrix than the one given")
		}
		branches = ev.Args[2]
	}
	if !e.everyTurn(k, func(p *Path) bool { return times(").GetLeaves")(p) > 0 }) {
		x.bad(e, leaves[0], "a tree can be left out of the counts")
	}
	if !e.oncePerTurn(k, times(").GetLeaves")) {
		x.bad(e, leaves[0], "a tree can be counted twice")
	}
	K := e.outer(k)
	if K != nil {
		if e.outer(K) != nil {
			x.bad(e, leaves[0], "undecided: the trees are counted within several loops")
		}
		if !e.everyTurn(K, func(p *Path) bool { return p.To == k }) {
			x.bad(e, leaves[0], "a forest can be left out of the counts")
		}
		if !e.oncePerTurn(K, func(p *Path) int {
			if p.To == k && !e.members(k)[p.From] {
				return 1
			}
			return 0
		}) {
			x.bad(e, leaves[0], "a forest can be counted twice")
		}
	} else {
		x.bad(e, leaves[0], "undecided: a worker counts one forest only")
	}

	// every pair of cases of every leaf
	ofLeaves := func(t *Term) bool { return t == listed }
	copies := map[*Term]bool{}
	casesOfLeaf := func(t *Term, at **Term) bool {
		t = e.unjoined(t)
		l, i := elem(field(t, "Leaf.Cases"))
		if l == nil {
			// the leaf's cases may be read from the element in place
			if t.Op == "load" && t.Args[0].Op == "fieldaddr" && strings.HasSuffix(t.Args[0].S, "Leaf.Cases") {
				o := t.Args[0].Args[0]
				l, i = addrElem(o)
				if vs := e.puts(o); o.Op == "alloc" && len(vs) > 0 {
					// a copy of the leaf made at the start of its turn
					for _, v := range vs {
						if v != vs[0] {
							return false
						}
					}
					l, i = elem(vs[0])
					copies[o] = true
				}
			}
		}
		if l != listed {
			return false
		}
		*at = i
		return true
	}
	for _, ev := range adds {
		c.ob("leafcount.main", "every pair of cases of a leaf")
		if counts != nil && counts != x.settle(ev.Args[0]) {
			x.bad(e, ev, "undecided: the pairs are counted in several counters")
		}
		counts = x.settle(ev.Args[0])
		if v, ok := ev.Args[3].intc(); !ok || v != 1 {
			x.bad(e, ev, "a pair of cases counts %v", ev.Args[3])
		}
		a, i := elem(e.unjoined(ev.Args[1]))
		b, j := elem(e.unjoined(ev.Args[2]))
		var la, lb *Term
		if a == nil || b == nil || !casesOfLeaf(a, &la) || !casesOfLeaf(b, &lb) || la != lb {
			x.bad(e, ev, "what is counted is %v, %v and not a pair of cases of one leaf", ev.Args[1], ev.Args[2])
			continue
		}
		k2 := e.loopOf(ev)
		k1 := e.outer(k2)
		if k1 == nil || e.outer(k1) == nil || e.outer(e.outer(k1)) != k {
			x.bad(e, ev, "the pairs of cases are not counted once for every leaf of every tree")
			continue
		}
		k0 := e.outer(k1)
		if msg := e.countsAny(k0, la, func(n *Term) bool { return n.Op == "len" && ofLeaves(n.Args[0]) }); msg != "" {
			x.bad(e, ev, "not every leaf is counted: %s", msg)
		}
		both := false
		for n := 0; n < 2; n++ {
			all := func(t *Term) bool {
				var at *Term
				t = e.unjoined(t)
				return t.Op == "len" && casesOfLeaf(t.Args[0], &at) && at == la
			}
			both = both || e.countsAny(k1, i, all) == "" && e.countsAny(k2, j, all) == ""
			i, j = j, i
		}
		if !both {
			x.bad(e, ev, "not every pair of cases of a leaf is counted")
		}
		for o := range copies {
			enter, _ := e.into(k1)
			for _, p := range enter {
				if p.From != k1 && p.at(o, nil) == nil {
					x.bad(e, ev, "undecided: which leaf's cases are counted")
				}
			}
		}
		if !e.everyTurn(k, func(p *Path) bool { return p.To == k0 }) || !e.everyTurn(k0, func(p *Path) bool { return p.To == k1 }) || !e.everyTurn(k1, func(p *Path) bool { return p.To == k2 }) || !e.everyTurn(k2, func(p *Path) bool { return times("SparseCounter).Add")(p) > 0 }) {
			x.bad(e, ev, "a pair of cases can be left out")
		}
		for _, l := range []struct{ in, of *Cut }{{k0, k}, {k1, k0}, {k2, k1}} {
			if !e.oncePerTurn(l.of, func(p *Path) int {
				if p.To == l.in && !e.members(l.in)[p.From] {
					return 1
				}
				return 0
			}) {
				x.bad(e, ev, "a pair of cases can be counted again")
			}
		}
		if !e.oncePerTurn(k2, times("SparseCounter).Add")) {
			x.bad(e, ev, "a pair of cases can be counted twice")
		}
	}

	// every split
	unasked := func(p *Path) bool { return p.flagEmpty(x.flag["splits"]) }
	for _, ev := range climbs {
		l := e.loopOf(ev)
		root := field(ev.Args[0], "Tree.Root")
		if l != k || root == nil || !isTree(root) {
			x.bad(e, ev, "the splits recorded are not those of every tree")
			continue
		}
		if _, i := elem(root); e.countsAny(k, i, func(n *Term) bool { return n.Op == "len" && ofForest(n.Args[0]) }) != "" {
			x.bad(e, ev, "the splits recorded are not those of every tree")
		}
		g := x.part(ev.Args[1])
		if g == nil {
			x.bad(e, ev, "undecided: what is recorded of a node")
			continue
		}
		splits = x.records(g)
	}
	if !e.everyTurn(k, func(p *Path) bool { return times(").Climb")(p) > 0 || unasked(p) }) {
		x.bad(e, climbs[0], "a tree can be left out of the splits")
	}
	if !e.oncePerTurn(k, times(").Climb")) {
		x.bad(e, climbs[0], "a tree's splits can be recorded twice")
	}
	return
}

// unjoined replaces copies of values by the values.
func (e *Exec) unjoined(t *Term) *Term {
	for n := 0; n < 6; n++ {
		v := e.plain(t)
		if v == t {
			break
		}
		t = v
	}
	return t
}

// records: a node that splits adds its split under its feature.
func (x *leafCounter) records(e *Exec) (splits *Term) {
	c := x.c
	n := e.param(0)
	sp := mk("load", "", fieldAddrN(n, "Node.Splitter", nil, nil))
	feature := mk("load", "", fieldAddrN(sp, "Splitter.Feature", nil, nil))
	val := mk("load", "", fieldAddrN(sp, "Splitter.Value", nil, nil))
	left := mk("load", "", fieldAddrN(sp, "Splitter.Left", nil, nil))
	num := mk("load", "", fieldAddrN(sp, "Splitter.Numerical", nil, nil))
	isText := func(t *Term, gs []*Term) string {
		if a := isCall(t, "Join"); len(a) == 2 {
			if s, ok := a[1].str(); !ok || s != "," {
				return "the labels of a split are not separated by commas"
			}
			if decide(gs, num) != 0 {
				return "the labels are recorded of a split that may be numerical"
			}
			if why := e.keysOf(a[0], left); why != "" {
				return "the labels recorded are not all of those going left: " + why
			}
			return ""
		}
		ps, why := pieces(t)
		if why != "" {
			return why
		}
		if len(ps) != 1 || unwrapped(ps[0].val) != val {
			return "what is recorded is " + t.String() + " and not the split"
		}
		if decide(gs, num) != 1 {
			return "the threshold is recorded of a split that may not be numerical"
		}
		return ""
	}
	var merged func(t *Term, gs []*Term, depth int) string
	merged = func(t *Term, gs []*Term, depth int) string {
		if t == nil || t.Op != "sym" || depth > 4 {
			return isText(t, gs)
		}
		hit, why := false, ""
		e.each(func(cu *Cut, p *Path) {
			if v := p.Phi[t]; v != nil && v != t && why == "" {
				hit = true
				why = merged(v, p.All(), depth+1)
			}
		})
		if !hit {
			return isText(t, gs)
		}
		return why
	}
	var last []*Event
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "mapupdate" {
				continue
			}
			m := x.settle(ev.Addr)
			if splits == nil {
				splits = m
			}
			if m != splits || len(ev.Args) != 1 || ev.Args[0] != feature {
				x.bad(e, ev, "a split is recorded under %v and not under its feature", ev.Args[0])
				continue
			}
			old := mk("lookup", "", ev.Addr, feature)
			isOld := func(t *Term) bool {
				return t.Op == "lookup" && len(t.Args) == 2 && t.Args[0] == ev.Addr && t.Args[1] == feature || emptyList(t) && (p.holdsBefore(ev, notT(mk("haskey", "", ev.Addr, feature))) || p.holdsBefore(ev, mk("isnil", "", old)))
			}
			if emptyList(ev.Val) && isOld(ev.Val) {
				continue // made before it is added to
			}
			c.ob("leafcount.main", "a split is recorded")
			if ev.Val.Op != "append" || len(ev.Val.Args) != 2 || !isOld(ev.Val.Args[0]) {
				x.bad(e, ev, "recording a split makes the feature's splits %v", ev.Val)
				continue
			}
			if why := merged(ev.Val.Args[1], p.before(ev), 0); why != "" {
				x.bad(e, ev, "%s", why)
			}
			last = append(last, ev)
		}
	})
	if len(last) == 0 {
		x.bad(e, nil, "undecided: no split is recorded")
		return
	}
	recorded := func(p *Path) bool {
		for _, ev := range last {
			if hasEvent(p, ev) {
				return true
			}
		}
		return false
	}
	none := func(p *Path) bool { return p.holds(mk("isnil", "", sp)) }
	if e.reaches(func(p *Path) bool { return recorded(p) || none(p) }, func(p *Path) bool { return p.End == "return" && p.To == nil && !recorded(p) && !none(p) }) != nil {
		x.bad(e, last[0], "a split can be left out")
	}
	e.each(func(cu *Cut, p *Path) {
		if p.To != nil && recorded(p) && e.reachesFrom(p.To, nil, recorded) != nil {
			x.bad(e, last[0], "a split can be recorded twice")
		}
		k := 0
		for _, ev := range p.Events {
			for _, l := range last {
				if ev == l {
					k++
				}
			}
		}
		if k > 1 {
			x.bad(e, last[0], "a split can be recorded twice")
		}
	})
	return
}

// results: what is written to each file.
func (x *leafCounter) results(counts, branches, splits *Term) {
	e, c := x.e, x.c
	r := &reporting{c: c, e: e, key: x.key, cmd: "leafcount.main"}
	check := func(flag string, optional bool, is func(ev *Event) bool, what string) {
		c.ob("leafcount.main", "the "+what)
		hit := func(p *Path) int {
			n := 0
			for _, ev := range p.Events {
				if ev.Kind == "call" && is(ev) {
					n++
				}
			}
			return n
		}
		none := func(p *Path) bool { return optional && p.flagEmpty(x.flag[flag]) }
		if e.reaches(func(p *Path) bool { return hit(p) > 0 || none(p) }, func(p *Path) bool { return p.End == "return" && hit(p) == 0 && !none(p) }) != nil {
			x.bad(e, nil, "the %s can be left out of the file given for them", what)
		}
	}
	out := func(w *Term, flag string) bool {
		return r.fileOf(w, x.flag[flag])
	}
	wantB := x.settle(branches)
	if counts == nil || branches == nil || splits == nil || !isNewCounter(counts) || !isNewCounter(wantB) || counts == wantB || splits.Op != "makemap" {
		x.bad(e, nil, "undecided: what the trees are counted in")
		return
	}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.calls("WriteTsv") {
			v := x.settle(ev.Args[0])
			if !(v == counts && out(ev.Args[1], "leaves")) && !(v == wantB && out(ev.Args[1], "branches")) {
				x.bad(e, ev, "the counts in %v are written to another file than the one given for them", v)
			}
		}
	})
	tsv := func(of *Term, flag string) func(ev *Event) bool {
		return func(ev *Event) bool {
			return nameIs(ev.Name, "WriteTsv") && x.settle(ev.Args[0]) == of && out(ev.Args[1], flag)
		}
	}
	check("leaves", false, tsv(counts, "leaves"), "counts of pairs of cases")
	check("branches", true, tsv(wantB, "branches"), "counts of cases and features")
	check("splits", true, func(ev *Event) bool {
		if !nameIs(ev.Name, "Encode") && !strings.HasSuffix(ev.Name, ").Encode") || len(ev.Args) != 2 {
			return false
		}
		a := isCall(ev.Args[0], "NewEncoder")
		return len(a) == 1 && out(a[0], "splits") && x.settle(unwrapped(ev.Args[1])) == splits
	}, "splits")
	// the counter of the branches is there when they are asked for
	made := func(p *Path) bool {
		for _, ev := range p.Events {
			if ev.Kind == "store" && x.settle(mk("load", "", ev.Addr)) == wantB && ev.Val == wantB {
				return true
			}
		}
		return false
	}
	if e.reaches(func(p *Path) bool { return made(p) || p.flagEmpty(x.flag["branches"]) }, func(p *Path) bool {
		if made(p) || p.flagEmpty(x.flag["branches"]) {
			return false
		}
		for _, ev := range p.Events {
			if ev.Kind == "go" {
				return true
			}
		}
		return false
	}) != nil {
		x.bad(e, nil, "the cases can be left uncounted at the nodes although their counts are asked for")
	}
}

func isNewCounter(t *Term) bool {
	return t != nil && t.Op == "alloc" && strings.HasSuffix(typeName(t.T), "SparseCounter")
}

func init() {
	register(&Rule{ID: "C36", What: "SparseCounter.Add stores under its own row and column what was there (nothing for a row or column not there) plus the value, and makes maps only where there are none; WriteTsv's loops go through all keys of the map and of each row and write the row, the column and the count there; GetLeaves' visitor adds 1 for every case of every node that has a splitter; leafcount hands every file named to a worker once, whose loops call GetLeaves once per tree and Add 1 once for every pair of indices of every leaf's cases, record one text per node with a splitter, and main writes each collection to the file of its flag", Min: 12,
		Run: func(c *Check) {
			c.counterAdds()
			c.counterWrites()
			c.branchCounts()
			c.leafcounts()
		}})
}
