package main

import (
	"go/token"
	"go/types"
	"strings"
)

// ---- C31: nfold's training and testing matrices share no case ----------------------------------------

type folder struct {
	c     *Check
	e     *Exec
	key   string
	folds *Term // the variable of the flag
	list  *Term // the list of folds
	data  *Term // the matrix written
}

// foldWrite is one matrix written for a fold.
type foldWrite struct {
	p                   *Path
	ev                  *Event
	format              string
	data, list, w, name *Term
	test                bool
	i                   *Term
}

func (c *Check) nfold() *folder {
	e := c.command("utils/nfold")
	if e == nil {
		return nil
	}
	x := &folder{c: c, e: e, key: "nfold", folds: e.flag("folds")}
	if x.folds == nil {
		c.bad(x.key, e.Root.Pos(), "undecided: nfold has no -folds flag")
		return nil
	}
	return x
}

func (x *folder) isFolds(t *Term) bool { return isLoadOf(t, x.folds) }

func (x *folder) bad(pos token.Pos, format string, a ...interface{}) {
	x.c.bad(x.key, pos, format, a...)
}

// writeOf recognises the writing of a matrix.
func (x *folder) writeOf(p *Path, ev *Event) *foldWrite {
	if ev.Kind != "call" {
		return nil
	}
	w := &foldWrite{p: p, ev: ev}
	switch {
	case nameIs(ev.Name, "WriteArffCases") && len(ev.Args) == 4:
		w.format, w.data, w.list, w.w = "arff", ev.Args[0], ev.Args[1], ev.Args[3]
	case nameIs(ev.Name, "WriteLibSvmCases") && len(ev.Args) == 4:
		w.format, w.data, w.list, w.w = "libsvm", ev.Args[0], ev.Args[1], ev.Args[3]
	case nameIs(ev.Name, "WriteCases") && len(ev.Args) == 3:
		w.format, w.data, w.w, w.list = "afm", ev.Args[0], ev.Args[1], ev.Args[2]
	default:
		return nil
	}
	f := unwrapped(w.w)
	if f.Op == "extract" {
		f = f.Args[0]
	}
	if f.Op == "call" && strings.HasSuffix(f.S, "os.Create") && len(f.Args) == 1 {
		w.name = f.Args[0]
	}
	if w.name == nil {
		return w
	}
	train, test := x.e.flag("train"), x.e.flag("test")
	n := 0
	w.name.walk(func(t *Term) bool {
		if t.Op == "call" && strings.HasSuffix(t.S, "fmt.Sprintf") && len(t.Args) == 2 && t.Args[1].Op == "list" && len(t.Args[1].Args) == 1 {
			if isLoadOf(t.Args[0], train) || isLoadOf(t.Args[0], test) {
				n++
				w.test = isLoadOf(t.Args[0], test)
				w.i = unwrapped(t.Args[1].Args[0])
			}
		}
		return true
	})
	if n != 1 {
		w.name, w.i = nil, nil
	}
	return w
}

func (x *folder) matrices() {
	e, c := x.e, x.c
	var writes []*foldWrite
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if w := x.writeOf(p, ev); w != nil {
				writes = append(writes, w)
			}
		}
	})
	if len(writes) == 0 {
		x.bad(e.Root.Pos(), "undecided: nfold writes no matrix")
		return
	}
	var K *Cut
	var trains []*foldWrite
	seen := map[string]bool{}
	for _, w := range writes {
		c.ob("nfold", w.format)
		if w.name == nil {
			x.bad(instrPos(w.ev.In), "the matrix is not written to the file named by -train or -test for the fold")
			return
		}
		k := e.loopOf(w.ev)
		if k == nil || K != nil && k != K {
			x.bad(instrPos(w.ev.In), "undecided: the matrices are not written in one loop over the folds")
			return
		}
		K = k
		if !e.trips(k, w.i, x.isFolds) {
			x.bad(instrPos(w.ev.In), "not every fold is written, or one under another number")
			return
		}
		if w.test {
			a, i := elem(w.list)
			if a == nil || !decideEq(i, w.i) {
				x.bad(instrPos(w.ev.In), "the testing matrix does not hold the cases of its fold")
				return
			}
			if x.list != nil && x.list != a {
				x.bad(instrPos(w.ev.In), "the testing matrices are taken from different lists of folds")
				return
			}
			x.list = a
		} else {
			trains = append(trains, w)
		}
		d := w.data
		seen[w.format] = true
		if x.data != nil && x.data != d {
			x.bad(instrPos(w.ev.In), "not the same data is written in every format")
			return
		}
		x.data = d
	}
	for _, f := range []string{"arff", "libsvm", "afm"} {
		if !seen[f] {
			x.bad(e.Root.Pos(), "nfold never writes %s matrices", f)
			return
		}
	}
	if x.list == nil || x.data == nil {
		x.bad(e.Root.Pos(), "undecided: nfold writes no testing matrix")
		return
	}
	for _, w := range trains {
		x.training(w, K)
	}
	x.formats(K, writes)
}

// training: the training cases are those of every other fold.
func (x *folder) training(w *foldWrite, K *Cut) {
	e := x.e
	g := e.gather(w.list)
	m := e.members(K)
	if len(g.appends) == 0 {
		x.bad(instrPos(w.ev.In), "undecided: the training cases are %v", w.list)
		return
	}
	for _, o := range g.other {
		x.bad(instrPos(w.ev.In), "the training cases can be %v", o)
		return
	}
	var L *Cut
	var j *Term
	for _, a := range g.appends {
		if !m[a.p.From] {
			x.bad(instrPos(a.ev.In), "the training cases are put together before the loop over the folds")
			return
		}
		k := e.loopOf(a.ev)
		if k == nil || k == K {
			x.bad(instrPos(a.ev.In), "undecided: the training cases are not put together in a loop over the folds")
			return
		}
		var from, n *Term
		if a.all && len(a.elems) == 1 {
			from, n = elem(a.elems[0])
		} else if !a.all && len(a.elems) == 1 {
			// one after the other
			l, i := elem(a.elems[0])
			from, n = elem(l)
			if from != nil {
				if !e.overAll(k, i, func(t *Term) bool { return t == l }) || !e.everyTurn(k, func(p *Path) bool { return len(appendsOn(p, g)) == 1 }) || !e.oncePerTurn(k, func(p *Path) int { return len(appendsOn(p, g)) }) {
					x.bad(instrPos(a.ev.In), "not every case of a fold is trained on, each once")
					return
				}
				k = e.outer(k)
			}
		}
		if from == nil || from != x.list || k == nil || k == K {
			x.bad(instrPos(a.ev.In), "the training cases are not those of the folds")
			return
		}
		if L != nil && (L != k || n != j) {
			x.bad(instrPos(a.ev.In), "undecided: the training cases are put together in more than one loop")
			return
		}
		L, j = k, n
		if !x.differ(a.p.before(a.ev), a.p, n, w.i) {
			x.bad(instrPos(a.ev.In), "a fold can be tested on cases it is trained on")
			return
		}
	}
	if !e.trips(L, j, x.isFolds) && !e.overAll(L, j, func(t *Term) bool { return t == x.list }) {
		x.bad(instrPos(w.ev.In), "not every other fold is trained on")
		return
	}
	hit := func(p *Path) int {
		n := 0
		for _, ev := range appendsOn(p, g) {
			if ev.Val.Op == "appendall" {
				n++
			}
		}
		// into the loop that adds them one after the other
		if p.To != nil && p.From != p.To {
			for _, a := range g.appends {
				if !a.all && p.To == e.loopOf(a.ev) && !e.members(p.To)[p.From] {
					n++
				}
			}
		}
		return n
	}
	if !e.everyTurn(L, func(p *Path) bool { return hit(p) > 0 || x.same(p.All(), j, w.i) }) {
		x.bad(instrPos(w.ev.In), "another fold can be left out of the training cases")
		return
	}
	if !e.oncePerTurn(L, hit) {
		x.bad(instrPos(w.ev.In), "a fold can be trained on twice")
		return
	}
	// emptied before, in the same turn
	enter, _ := e.into(L)
	for _, q := range enter {
		ok := false
		for s := range L.symbols(e) {
			if g.values[s] && emptyList(q.next(s)) {
				ok = true
			}
		}
		for a := range g.cells {
			if v := q.holding(a); v != nil && emptyList(v) {
				ok = true
			}
		}
		if !ok || !m[q.From] {
			x.bad(instrPos(w.ev.In), "the training cases of one fold are kept for the next")
			return
		}
	}
	// all of them are there when the matrix is written
	if e.reachesFrom(K, func(p *Path) bool { return p.To == L || !m[p.From] }, func(p *Path) bool {
		for _, ev := range p.Events {
			if o := x.writeOf(p, ev); o != nil && !o.test && p.From != L {
				return true
			}
		}
		return false
	}) != nil {
		x.bad(instrPos(w.ev.In), "the training matrix can be written before the cases are put together")
	}
}

// overAll: the loop at k lets i run over the indexes of a list.
func (e *Exec) overAll(k *Cut, i *Term, list func(*Term) bool) bool {
	return e.countsAny(k, i, func(n *Term) bool { return n.Op == "len" && list(n.Args[0]) }) == ""
}

// differ: the conditions imply a ≠ b.
func (x *folder) differ(facts []*Term, p *Path, a, b *Term) bool {
	return decide(facts, eq0(subT(a, b))) == 0 || decide(facts, ge0(addI(subT(a, b), -1))) == 1 || decide(facts, ge0(addI(subT(b, a), -1))) == 1
}

// same: the conditions imply a = b.
func (x *folder) same(facts []*Term, a, b *Term) bool {
	return decide(facts, eq0(subT(a, b))) == 1 || decide(facts, ge0(subT(a, b))) == 1 && decide(facts, ge0(subT(b, a))) == 1
}

// formats: both matrices are written in every format asked for.
func (x *folder) formats(K *Cut, writes []*foldWrite) {
	e := x.e
	arff, svm, all := e.flag("writearff"), e.flag("writelibsvm"), e.flag("writeall")
	if arff == nil || svm == nil || all == nil {
		x.bad(e.Root.Pos(), "undecided: the flags that select a format")
		return
	}
	m := e.members(K)
	for _, format := range []string{"arff", "libsvm", "afm"} {
		for _, test := range []bool{true, false} {
			hit := func(p *Path) int {
				n := 0
				for _, ev := range p.Events {
					if w := x.writeOf(p, ev); w != nil && w.format == format && w.test == test {
						n++
					}
				}
				return n
			}
			unasked := func(p *Path) bool {
				switch format {
				case "arff":
					return p.flagOff(arff) && p.flagOff(all)
				case "libsvm":
					return p.flagOff(svm) && p.flagOff(all)
				}
				return p.flagOff(all) && (x.flagOn(p, arff) || x.flagOn(p, svm))
			}
			if !e.everyTurn(K, func(p *Path) bool { return hit(p) > 0 || unasked(p) }) {
				x.bad(e.Root.Pos(), "a fold's %s matrix can be left out", format)
			}
			if !e.oncePerTurn(K, hit) {
				x.bad(e.Root.Pos(), "a fold's %s matrix can be written twice", format)
			}
		}
	}
	for _, w := range writes {
		p := w.p
		if !x.flagOn(p, all) && !(w.format == "arff" && x.flagOn(p, arff)) && !(w.format == "libsvm" && x.flagOn(p, svm)) && !(w.format == "afm" && p.flagOff(arff) && p.flagOff(svm)) {
			x.bad(instrPos(w.ev.In), "a fold's %s matrix is written without being asked for", w.format)
		}
	}
	names := map[*Term]string{}
	for _, w := range writes {
		what := w.format
		if w.test {
			what += " testing"
		}
		if o, ok := names[w.name]; ok && o != what {
			x.bad(instrPos(w.ev.In), "two matrices are written to the same file")
		}
		names[w.name] = what
	}
	// nothing but the end of the program keeps folds from being written
	for _, p := range e.leaving(K) {
		if p.End == "panic" || p.End == "exit" {
			continue
		}
		if p.From != K && m[p.From] {
			x.bad(e.Root.Pos(), "nfold can stop before the last fold")
		}
	}
	if e.reaches(func(p *Path) bool { return p.To == K || p.End == "exit" || p.End == "panic" }, func(p *Path) bool { return p.End == "return" && p.From != K }) != nil {
		x.bad(e.Root.Pos(), "nfold can end without writing the folds")
	}
}

// flagOn: on the path a boolean flag is known to be on.
func (x *folder) flagOn(p *Path, a *Term) bool {
	for _, g := range p.All() {
		if isLoadOf(g, a) {
			return true
		}
	}
	return false
}

// separate: the folds are separate stretches of shuffled cases.
func (x *folder) separate() {
	e, c := x.e, x.c
	if x.list == nil || x.data == nil {
		return
	}
	// one empty list per fold to start with
	x.empty()
	type fill struct {
		p    *Path
		ev   *Event
		g    *gathered
		j    *Term
		loop *Cut
		pool *Term
	}
	var fills []*fill
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			if a, j := addrElem(ev.Addr); a == x.list {
				fills = append(fills, &fill{p: p, ev: ev, j: j})
			}
		}
	})
	if len(fills) == 0 {
		x.bad(e.Root.Pos(), "undecided: no fold gets cases")
		return
	}
	pools := map[*Term]*fill{}
	for _, f := range fills {
		c.ob("nfold", "a fold gets cases")
		f.g = e.gather(f.ev.Val)
		for _, o := range f.g.other {
			a, j := elem(o)
			if a != x.list || !decideEq(j, f.j) {
				x.bad(instrPos(f.ev.In), "a fold can become %v", o)
				return
			}
		}
		if f.g.empty > 0 || len(f.g.calls) > 0 || len(f.g.appends) == 0 {
			x.bad(instrPos(f.ev.In), "cases of a fold are dropped again")
			return
		}
		for _, a := range f.g.appends {
			var pool, lo, hi *Term
			k := e.loopOf(a.ev)
			if a.all && len(a.elems) == 1 && a.elems[0].Op == "slice" {
				s := a.elems[0]
				pool, lo, hi = s.Args[0], s.Args[1], s.Args[2]
				if lo.Op == "none" {
					lo = intT(0)
				}
				if hi.Op == "none" {
					hi = lenT(pool)
				}
			} else if !a.all && len(a.elems) == 1 {
				var n *Term
				pool, n = elem(a.elems[0])
				if pool == nil || k == nil {
					x.bad(instrPos(a.ev.In), "undecided: a fold gets %v", a.elems[0])
					return
				}
				// from a start to an end
				enter, _ := e.into(k)
				for _, q := range enter {
					lo = q.next(n)
				}
				size := x.size(pool)
				for _, s := range size {
					if e.countsIn(k, n, lo, addT(lo, s)) == "" {
						hi = addT(lo, s)
					}
				}
				if hi == nil {
					x.bad(instrPos(a.ev.In), "a fold does not get its share of the cases, one after the other")
					return
				}
				if !e.everyTurn(k, func(p *Path) bool { return len(appendsOn(p, f.g)) == 1 }) || !e.oncePerTurn(k, func(p *Path) int { return len(appendsOn(p, f.g)) }) {
					x.bad(instrPos(a.ev.In), "a case of the fold's share can be left out or come twice")
					return
				}
				k = e.outer(k)
			}
			if pool == nil || k == nil {
				x.bad(instrPos(a.ev.In), "undecided: a fold gets %v", a.elems)
				return
			}
			ok := false
			for _, s := range x.size(pool) {
				if isZero(subT(lo, mulT(s, f.j))) && isZero(subT(hi, addT(lo, s))) {
					ok = true
				}
			}
			if !ok {
				x.bad(instrPos(a.ev.In), "the folds do not get separate shares of the cases of equal size")
				return
			}
			if !e.trips(k, f.j, x.isFolds) && !e.overAll(k, f.j, func(t *Term) bool { return t == x.list }) {
				x.bad(instrPos(a.ev.In), "not every fold gets its share once")
				return
			}
			if o := pools[pool]; o != nil && o.loop != k {
				x.bad(instrPos(a.ev.In), "cases are given to folds twice")
				return
			}
			f.loop, f.pool = k, pool
			pools[pool] = f
		}
	}
	// the pools
	var all, classes *fill
	for pool, f := range pools {
		if why := x.allCases(pool); why == "" {
			if all != nil {
				x.bad(instrPos(f.ev.In), "cases are given to folds twice")
				return
			}
			all = f
			c.ob("nfold", "unstratified")
		} else if l, i := elem(pool); l != nil {
			s := field(l, ".Cases")
			a := isCall(s, "NewBalancedSampler")
			if a == nil || !x.isTarget(a[0]) {
				x.bad(instrPos(f.ev.In), "the classes are not those of the target")
				return
			}
			if classes != nil {
				x.bad(instrPos(f.ev.In), "cases are given to folds twice")
				return
			}
			classes = f
			c.ob("nfold", "stratified")
			o := e.outer(f.loop)
			if o == nil || !e.overAll(o, i, func(t *Term) bool { return t == l }) {
				x.bad(instrPos(f.ev.In), "not every class is shared out")
				return
			}
			if !e.everyTurn(o, func(p *Path) bool { return p.To == f.loop }) {
				x.bad(instrPos(f.ev.In), "a class can be passed over")
				return
			}
		} else {
			x.bad(instrPos(f.ev.In), "the cases shared out are not all of them: %s", why)
			return
		}
		x.shuffled(f.loop, f.pool, instrPos(f.ev.In))
	}
	if all == nil || classes == nil {
		x.bad(e.Root.Pos(), "undecided: cases are shared out in another way than all at once or class by class")
		return
	}
	x.strata(all.loop, classes.loop, e.outer(classes.loop))
}

// allCases: the list holds every case once.
func (x *folder) allCases(pool *Term) string {
	e := x.e
	if pool.Op != "load" || pool.Args[0].Op != "alloc" {
		return e.iota(pool, x.isCases)
	}
	g := e.gather(pool)
	if len(g.other) > 0 || len(g.appends) == 0 {
		return "what is in " + pool.String() + " is not known"
	}
	for _, a := range g.appends {
		k := e.loopOf(a.ev)
		if a.all || len(a.elems) != 1 || k == nil || len(g.appends) != 1 {
			return "undecided: how they are listed"
		}
		if why := e.countsAny(k, a.elems[0], x.isCases); why != "" {
			return why
		}
		n := func(p *Path) int { return len(appendsOn(p, g)) }
		if !e.everyTurn(k, func(p *Path) bool { return n(p) > 0 }) || !e.oncePerTurn(k, n) {
			return "a case can be left out or come twice"
		}
	}
	return ""
}

// isCases: the number of cases of the matrix.
func (x *folder) isCases(t *Term) bool {
	if t.Op == "len" {
		return x.isData(field(t.Args[0], "FeatureMatrix.CaseLabels"))
	}
	return caseCount(x.data)(t)
}

func (x *folder) isData(t *Term) bool {
	return t != nil && (t == x.data || x.e.plain(t) == x.e.plain(x.data))
}

// isTarget: the target feature of the matrix.
func (x *folder) isTarget(t *Term) bool {
	target := x.e.flag("target")
	for _, v := range x.e.values(t) {
		for v.Op == "typeassert" || v.Op == "iface" || v.Op == "extract" {
			v = v.Args[0]
		}
		for _, w := range x.e.values(v) {
			if w.Op == "nil" {
				continue
			}
			a, i := elem(w)
			if a == nil || !x.isData(field(a, "FeatureMatrix.Data")) {
				return false
			}
			if i.Op == "extract" {
				i = i.Args[0]
			}
			if i.Op != "lookup" || len(i.Args) < 2 || !x.isData(field(i.Args[0], "FeatureMatrix.Map")) || !isLoadOf(i.Args[1], target) {
				return false
			}
		}
	}
	return true
}

// size gives the terms for the share of a fold in a pool.
func (x *folder) size(pool *Term) (out []*Term) {
	e := x.e
	seen := map[*Term]bool{}
	is := func(t *Term, data *Term) bool {
		if t.Op != "idiv" || !x.isFolds(t.Args[1]) {
			return false
		}
		n := t.Args[0]
		if lengthOf(n, pool) {
			return true
		}
		return x.allCases(pool) == "" && n.Op == "len" && field(n.Args[0], "FeatureMatrix.CaseLabels") == data
	}
	e.each(func(cu *Cut, p *Path) {
		see := func(t *Term) bool {
			if seen[t] {
				return true
			}
			seen[t] = true
			if is(t, x.data) {
				out = append(out, t)
			}
			if t.Op == "sym" && t.T != nil && isInt(t.T) {
				if k := e.phiCut(t); k != nil {
					enter, back := e.into(k)
					ok := len(enter) > 0
					for _, q := range enter {
						ok = ok && is(q.next(t), q.next(x.data))
					}
					for _, q := range back {
						ok = ok && q.next(t) == t
					}
					if ok {
						out = append(out, t)
					}
				}
			}
			return true
		}
		for _, g := range p.All() {
			g.walk(see)
		}
		for _, v := range p.Phi {
			v.walk(see)
		}
		for _, ev := range p.Events {
			for _, a := range ev.Args {
				a.walk(see)
			}
		}
	})
	return
}

// empty: the list of folds starts as one empty list per fold.
func (x *folder) empty() {
	e := x.e
	l := x.list
	if l.Op == "makeslice" && x.isFolds(lenT(l)) {
		return // nil lists
	}
	g := e.gather(l)
	var k *Cut
	ok := len(g.other) == 0 && len(g.appends) > 0
	for _, a := range g.appends {
		k = e.loopOf(a.ev)
		ok = ok && !a.all && len(a.elems) == 1 && emptyList(a.elems[0]) && k != nil
		if ok {
			if a.elems[0].Op == "slice" {
				ok = false // may share its memory
			}
			if !e.everyTurn(k, func(p *Path) bool { return len(appendsOn(p, g)) == 1 }) || !e.oncePerTurn(k, func(p *Path) int { return len(appendsOn(p, g)) }) {
				ok = false
			}
			counted := false
			for s := range k.symbols(e) {
				if s.T != nil && isInt(s.T) && e.trips(k, s, x.isFolds) {
					counted = true
				}
			}
			ok = ok && counted
		}
	}
	if !ok {
		x.bad(e.Root.Pos(), "the folds do not start as one empty list each: %v", l)
	}
}

// shuffled: all cases of the pool are put in random order before they are shared out.
func (x *folder) shuffled(loop *Cut, pool *Term, pos token.Pos) {
	e := x.e
	hit := func(p *Path) bool {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !nameIs(ev.Name, "SampleFirstN") || len(ev.Args) != 4 {
				continue
			}
			a := ev.Args[0]
			same := a.Op == "alloc" && (isLoadOf(pool, a) || oneOf(e.values(mk("load", "", a)), pool))
			if l, i := addrElem(a); l != nil {
				pl, pi := elem(pool)
				same = same || pl != nil && l == pl && decideEq(i, pi)
			}
			if same && lengthOf(ev.Args[2], pool) && isZero(ev.Args[3]) {
				return true
			}
		}
		return false
	}
	from := e.outer(loop)
	if from == nil {
		from = e.Entry
	}
	if e.reachesFrom(from, hit, func(p *Path) bool { return p.To == loop && p.From != loop && !e.members(loop)[p.From] && !hit(p) }) != nil {
		x.bad(pos, "the cases are not put in random order before they are shared out")
	}
}

// lengthOf: n is the length of the list, which putting it in another order does not change.
func lengthOf(n, list *Term) bool {
	return n == lenT(list) || n.Op == "len" && strip(n.Args[0]) == strip(list)
}

func oneOf(ts []*Term, t *Term) bool {
	for _, o := range ts {
		if o == t {
			return true
		}
	}
	return false
}

// strata: by class with a categorical target unless asked not to.
func (x *folder) strata(all, one, classes *Cut) {
	e := x.e
	flag := e.flag("unstratified")
	if classes == nil || flag == nil {
		x.bad(e.Root.Pos(), "undecided: when cases are shared out class by class")
		return
	}
	x.c.ob("nfold", "strata")
	// either of the two, never both
	both := func(a, b *Cut) bool {
		return e.reachesFrom(a, nil, func(p *Path) bool { return p.To == b }) != nil
	}
	if both(all, classes) || both(classes, all) {
		x.bad(e.Root.Pos(), "cases can be shared out twice")
	}
	K := map[*Cut]bool{all: true, classes: true}
	if e.reaches(func(p *Path) bool { return K[p.To] }, func(p *Path) bool {
		for _, ev := range p.Events {
			if x.writeOf(p, ev) != nil {
				return true
			}
		}
		return false
	}) != nil {
		x.bad(e.Root.Pos(), "the matrices can be written before the cases are shared out")
	}
	// why
	e.each(func(cu *Cut, p *Path) {
		leads := func(d, k *Cut) bool {
			return d != nil && (d == k || e.reachesFrom(d, func(q *Path) bool { return q.To != k && (q.To == all || q.To == classes) }, func(q *Path) bool { return q.To == k }) != nil)
		}
		la, lc := leads(p.To, all), leads(p.To, classes)
		if la == lc || !leads(p.From, all) || !leads(p.From, classes) {
			return
		}
		if la {
			why := x.flagOn(p, flag)
			for _, g := range p.All() {
				n, off := g, false
				if n.Op == "not" {
					n, off = n.Args[0], true
				}
				switch {
				case n.Op == "haskey" && off && x.isData(field(n.Args[0], "FeatureMatrix.Map")):
					why = true
				case n.Op == "istype" && strings.Contains(n.S, "DenseNumFeature") && !off, n.Op == "istype" && strings.Contains(n.S, "DenseCatFeature") && off:
					why = true
				}
			}
			if !why {
				x.bad(instrPosOf(p), "folds are not stratified with a categorical target")
			}
		} else if !p.flagOff(flag) {
			x.bad(instrPosOf(p), "-unstratified is ignored")
		}
	})
}

func instrPosOf(p *Path) token.Pos {
	if p.From != nil && len(p.From.B.Instrs) > 0 {
		return p.From.B.Instrs[0].Pos()
	}
	return token.NoPos
}

// encodings: the matrix written is the loaded one with the changes asked for.
func (x *folder) encodings() {
	e := x.e
	d := x.data
	if d == nil {
		return
	}
	onehot, num, impute := e.flag("onehot"), e.flag("num"), e.flag("impute")
	if onehot == nil || num == nil || impute == nil {
		x.bad(e.Root.Pos(), "undecided: the flags for the encodings")
		return
	}
	d = e.plain(d)
	k := e.phiCut(d)
	if d.Op != "sym" || k == nil {
		x.bad(e.Root.Pos(), "undecided: the matrix written is %v", d)
		return
	}
	enter, back := e.into(k)
	for _, q := range back {
		if q.next(d) != d {
			x.bad(instrPosOf(q), "the matrix is changed while it is shared out")
			return
		}
	}
	check := func(q *Path, f *Term, done bool, what string) {
		if done && !x.flagOn(q, f) || !done && !q.flagOff(f) {
			x.bad(instrPosOf(q), "the matrix is %s, whether it is asked for or not", what)
		}
	}
	for _, q := range enter {
		x.c.ob("nfold", "the matrix written")
		v := q.next(d)
		var isNum, isHot, imputed bool
		if a := isCall(v, "EncodeToNum"); a != nil {
			isNum, v = true, a[0]
		}
		if a := isCall(v, "OneHot"); a != nil {
			isHot, v = true, a[0]
		}
		if v.Op != "extract" || isCall(v.Args[0], "LoadAFM") == nil {
			x.bad(instrPosOf(q), "the matrix written is not the one loaded: %v", v)
			return
		}
		n := 0
		for _, ev := range q.Events {
			if ev.Kind != "call" {
				continue
			}
			if nameIs(ev.Name, "ImputeMissing") {
				n++
				if len(ev.Args) == 0 || ev.Args[0] != v {
					x.bad(instrPos(ev.In), "missing values are imputed in another matrix")
					return
				}
				imputed = true
			}
			if (nameIs(ev.Name, "EncodeToNum") || nameIs(ev.Name, "OneHot")) && n == 0 && !q.flagOff(impute) {
				for _, o := range q.Events {
					if o.Kind == "call" && nameIs(o.Name, "ImputeMissing") {
						x.bad(instrPos(ev.In), "features are encoded before missing values are imputed")
						return
					}
				}
			}
		}
		check(q, num, isNum, "encoded as numbers")
		check(q, onehot, isHot, "one hot encoded")
		check(q, impute, imputed, "imputed")
	}
}

// features: exactly the features on the blacklist and those with too many categories are left out.
func (x *folder) features() {
	e := x.e
	most, target := e.flag("maxcats"), e.flag("target")
	// the matrix's features are replaced by those kept
	var list, fm, index *Term
	var at *Event
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			if o := addrField(ev.Addr, "FeatureMatrix.Data"); o != nil {
				if list != nil && list != ev.Val {
					x.bad(instrPos(ev.In), "undecided: the features are replaced twice")
				}
				list, fm, at = ev.Val, o, ev
			}
			if addrField(ev.Addr, "FeatureMatrix.Map") != nil {
				index = ev.Val
			}
		}
	})
	if list == nil || index == nil || most == nil || target == nil {
		x.bad(e.Root.Pos(), "undecided: no features are left out")
		return
	}
	if fm.Op != "extract" || isCall(fm.Args[0], "LoadAFM") == nil {
		x.bad(instrPos(at.In), "the features of another matrix than the one loaded are chosen")
		return
	}
	x.c.ob("nfold", "features kept")
	g := e.gather(list)
	if len(g.other) > 0 || len(g.calls) > 0 || len(g.appends) == 0 {
		x.bad(instrPos(at.In), "undecided: the features kept are %v", list)
		return
	}
	isFeatures := func(l *Term) bool { return field(l, "FeatureMatrix.Data") == fm }
	var k *Cut
	var i, black *Term
	for _, a := range g.appends {
		l := e.loopOf(a.ev)
		if a.all || len(a.elems) != 1 || l == nil || k != nil && l != k {
			x.bad(instrPos(a.ev.In), "undecided: how the features kept are gathered")
			return
		}
		k = l
		arr, j := elem(a.elems[0])
		if arr == nil || !isFeatures(arr) || !e.overAll(k, j, isFeatures) {
			x.bad(instrPos(a.ev.In), "not every feature is looked at, once")
			return
		}
		i = j
	}
	// why a feature is left out
	listed := func(facts []*Term) int {
		for _, f := range facts {
			v := 1
			if f.Op == "not" {
				f, v = f.Args[0], 0
			}
			if l, j := elem(f); l != nil && decideEq(j, i) && (black == nil || black == l) && f.T != nil && basicIsBool(f.T) {
				black = l
				return v
			}
		}
		return -1
	}
	cats := func(facts []*Term) int {
		var n, m *Term
		for _, f := range facts {
			f.walk(func(t *Term) bool {
				if a := isCall(t, "NCats"); a != nil {
					if l, j := elem(a[0]); l != nil && isFeatures(l) && decideEq(j, i) {
						n = t
					}
				}
				if isLoadOf(t, most) {
					m = t
				}
				return true
			})
		}
		if m != nil && decide(facts, eq0(addI(m, 1))) == 1 {
			return 1
		}
		if n == nil || m == nil {
			return -1
		}
		if decide(facts, ge0(subT(m, n))) == 1 {
			return 1
		}
		if decide(facts, ge0(addI(subT(n, m), -1))) == 1 && decide(facts, eq0(addI(m, 1))) == 0 {
			return 0
		}
		return -1
	}
	for _, a := range g.appends {
		facts := a.p.before(a.ev)
		if listed(facts) != 0 {
			x.bad(instrPos(a.ev.In), "a feature on the blacklist can be kept")
			return
		}
		if cats(facts) != 1 {
			x.bad(instrPos(a.ev.In), "a feature with more categories than -maxcats can be kept")
			return
		}
		named := false
		for _, ev := range a.p.Events {
			if ev.Kind == "mapupdate" && ev.Addr == index && len(ev.Args) == 1 {
				n := isCall(ev.Args[0], "GetName")
				named = named || n != nil && n[0] == a.elems[0] && decideEq(ev.Val, lenT(a.ev.Addr))
			}
		}
		if !named {
			x.bad(instrPos(a.ev.In), "a feature kept is not found under its name")
			return
		}
	}
	if !e.everyTurn(k, func(p *Path) bool {
		return len(appendsOn(p, g)) > 0 || listed(p.All()) == 1 || cats(p.All()) == 0
	}) {
		x.bad(instrPos(at.In), "a feature can be left out that should be kept")
		return
	}
	if !e.oncePerTurn(k, func(p *Path) int { return len(appendsOn(p, g)) }) {
		x.bad(instrPos(at.In), "a feature can be kept twice")
		return
	}
	// the blacklist
	if black == nil || black.Op != "makeslice" || !(lenT(black).Op == "len" && isFeatures(lenT(black).Args[0])) {
		x.bad(instrPos(at.In), "undecided: the blacklist is kept in %v", black)
		return
	}
	marks := 0
	e.each(func(cu *Cut, p *Path) {
		var id *Term
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "csv.Reader).Read") {
				id = ev.Res
			}
		}
		isID := func(t *Term) bool {
			l, j := elem(t)
			return l != nil && isZero(j) && l.Op == "extract" && id != nil && l.Args[0] == id
		}
		marked := false
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			if l, j := addrElem(ev.Addr); l == black {
				marks++
				x.c.ob("nfold", "blacklisted")
				if j.Op == "extract" {
					j = j.Args[0]
				}
				if !ev.Val.isTrue() || j.Op != "lookup" || field(j.Args[0], "FeatureMatrix.Map") != fm || !isID(j.Args[1]) {
					x.bad(instrPos(ev.In), "another feature than the one listed is put on the blacklist")
					return
				}
				if !isTargetText(p.before(ev), isID, target, false) {
					x.bad(instrPos(ev.In), "the target can be put on the blacklist")
					return
				}
				marked = true
			}
		}
		if id == nil || p.To == nil {
			return
		}
		facts := p.All()
		if !e.inBlacklist(p) {
			end := false
			for _, f := range facts {
				if f.Op == "eq" && f.has(id) && f.contains(func(t *Term) bool {
					return t.Op == "load" && t.Args[0].Op == "global" && strings.HasSuffix(t.Args[0].S, "io.EOF") || t.Op == "global" && strings.HasSuffix(t.S, "io.EOF")
				}) {
					end = true
				}
			}
			if !end {
				x.bad(instrPosOf(p), "the blacklist is not read to its end")
			}
			return
		}
		ok := marked || isTargetText(facts, isID, target, true)
		for _, f := range facts {
			if f.Op == "not" && f.Args[0].Op == "haskey" && isID(f.Args[0].Args[1]) {
				ok = true
			}
			if l, j := elem(f); l == black && j.has(id) {
				ok = true
			}
		}
		if !ok {
			x.bad(instrPosOf(p), "a feature listed can be left off the blacklist")
		}
	})
	if marks == 0 {
		x.bad(instrPos(at.In), "the blacklist is never filled")
	}
}

// inBlacklist: the path goes round the loop it is in.
func (e *Exec) inBlacklist(p *Path) bool { return p.To != nil && e.members(p.To)[p.From] }

// isTargetText: the text is known to be (not to be) the name of the target.
func isTargetText(facts []*Term, isID func(*Term) bool, target *Term, want bool) bool {
	for _, f := range facts {
		v := true
		if f.Op == "not" {
			f, v = f.Args[0], false
		}
		if len(f.Args) == 2 && (f.Op == "eq" || f.Op == "==") && v == want {
			if isID(f.Args[0]) && isLoadOf(f.Args[1], target) || isID(f.Args[1]) && isLoadOf(f.Args[0], target) {
				return true
			}
		}
	}
	return false
}

func basicIsBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (c *Check) folds() {
	x := c.nfold()
	if x == nil {
		return
	}
	x.matrices()
	x.separate()
	x.encodings()
	x.features()
}

func init() {
	register(&Rule{ID: "C31", Min: 20,
		What: "the writes of matrices are traced to the file name, the list of cases and the matrix: the testing list is an element of the list of folds at the index of the loop over the folds, the training list is emptied in the turn and gets every other element, once; each store into a fold appends the elements k of a pool with k counting from s*j to s*j+s, s the pool length divided by folds, in a loop over all folds; the pools are a list of 0..n-1 or every class list of NewBalancedSampler of the target, shuffled in full by SampleFirstN on every way in; the two ways of sharing exclude each other and are chosen by the flag and the kind of target; on every way to the folds the matrix is the loaded one through exactly the encodings whose flag is known to be on",
		Run:  func(c *Check) { c.folds() }})
}
