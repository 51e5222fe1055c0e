package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C25: cases without a target value never train -----------------------------------------------

// bag is the analysis of growforest's main around the calls that grow trees.
type bag struct {
	c     *Check
	e     *Exec
	fm    *Term
	tf    *Term // the -target flag
	isTgt map[*Term]int
	done  map[*ssa.Function]bool
	lists map[*Term]bool
}

func (c *Check) bags() *bag {
	e := c.command("growforest")
	if e == nil {
		return nil
	}
	b := &bag{c: c, e: e, tf: e.flag("target"), isTgt: map[*Term]int{}, done: map[*ssa.Function]bool{}, lists: map[*Term]bool{}}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			if b.fm == nil {
				b.fm = ev.Args[1]
			} else if b.fm != ev.Args[1] {
				c.bad("bag/matrix", instrPos(ev.In), "undecided: trees are grown on more than one matrix")
			}
		}
	})
	if b.fm == nil || b.tf == nil {
		c.bad("bag/none", e.Root.Pos(), "undecided: growforest calls neither Grow nor GrowJungle, or has no -target")
		return nil
	}
	return b
}

// target: x is the target's column or something wrapped around it that has the same missing cases.
func (b *bag) target(x *Term) bool {
	if x == nil {
		return false
	}
	x = unwrapped(x)
	for x.Op == "iface" || x.Op == "typeassert" {
		x = x.Args[0]
	}
	if v, ok := b.isTgt[x]; ok {
		return v == 1
	}
	b.isTgt[x] = 1 // assumed for the cycles
	ok := b.target1(x)
	if !ok {
		b.isTgt[x] = 0
	}
	return ok
}

func (b *bag) target1(x *Term) bool {
	e := b.e
	if a, i := elem(x); a != nil && dataOf(a, b.fm) && i.Op == "lookup" && field(i.Args[0], "FeatureMatrix.Map") == b.fm && isLoadOf(i.Args[1], b.tf) {
		return true
	}
	all := func(vs []*Term) bool {
		for _, v := range vs {
			if !b.target(v) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch x.Op {
	case "load":
		if x.Args[0].Op == "alloc" {
			return all(e.puts(x.Args[0]))
		}
	case "sym":
		return all(e.phis(x))
	case "alloc":
		// &Wrapper{feature, ...}: the embedded feature is the target
		st, _ := deref(x.T).Underlying().(*types.Struct)
		if st == nil {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				vs := e.storedField(x, st.Field(i).Name())
				return all(vs)
			}
		}
	case "call":
		f, _ := x.V.(*ssa.Function)
		if f == nil {
			f = e.calleeOf(x)
		}
		if a := x.Args; f != nil && len(a) > 0 && b.target(a[0]) {
			if f.Name() == "Copy" {
				return true
			}
			return strings.HasPrefix(f.Name(), "New") && f.Pkg != nil && f.Pkg.Pkg.Path() == RepoPath
		}
	}
	return false
}

// known: the case is known to have a target value before the event.
func (b *bag) known(p *Path, ev *Event, i *Term) bool {
	for _, g := range p.before(ev) {
		if g.Op != "not" {
			continue
		}
		if a := isCall(g.Args[0], "IsMissing"); a != nil && len(a) == 2 && b.target(a[0]) {
			if a[1] == i || decideEq(a[1], i) {
				return true
			}
		}
	}
	if l, _ := elem(i); l != nil {
		return b.knownList(l)
	}
	return false
}

// knownList: all elements of the list are cases with a target value.
func (b *bag) knownList(l *Term) bool {
	if v, ok := b.lists[l]; ok {
		return v
	}
	b.lists[l] = true // assumed for the cycles
	g := b.e.gather(l)
	ok := len(g.other) == 0 && len(g.calls) == 0 && len(g.appends) > 0
	for _, s := range g.appends {
		ok = ok && !s.all
		for _, i := range s.elems {
			ok = ok && b.known(s.p, s.ev, i)
		}
	}
	b.lists[l] = ok
	return ok
}

// puts lists what is ever stored in a variable.
func (e *Exec) puts(a *Term) (out []*Term) {
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == a {
				out = append(out, ev.Val)
			}
		}
	})
	return
}

// storedField lists what is ever stored in a field of an object.
func (e *Exec) storedField(o *Term, name string) (out []*Term) {
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr.Op != "fieldaddr" || ev.Addr.Args[0] != o {
				continue
			}
			if strings.HasSuffix(ev.Addr.S, "."+name) {
				out = append(out, ev.Val)
			}
		}
	})
	return
}

// phis lists the values a loop-carried symbol stands for.
func (e *Exec) phis(s *Term) (out []*Term) {
	seen := map[*Term]bool{s: true}
	e.each(func(cu *Cut, p *Path) {
		if v, ok := p.Phi[s]; ok && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	})
	return
}

// calleeOf finds the function of an opaque call term.
func (e *Exec) calleeOf(t *Term) (f *ssa.Function) {
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Res == t && ev.Fn != nil {
				f = ev.Fn
			}
		}
	})
	return
}

func (c *Check) knownTargets() {
	b := c.bags()
	if b == nil {
		return
	}
	e := b.e
	key := "bag/growforest"
	seen := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			c.ob("growforest.main", "training cases of a call that grows a tree")
			if seen[ev.Args[3]] {
				continue
			}
			seen[ev.Args[3]] = true
			b.check(p, ev, key)
		}
	})
}

func (b *bag) check(p *Path, ev *Event, key string) {
	c, e := b.c, b.e
	g := e.gather(ev.Args[3])
	for _, o := range g.other {
		c.bad(key, instrPos(ev.In), "undecided: the training cases passed to %s can be %v", ev.Name, o)
	}
	for _, s := range g.appends {
		c.ob("growforest.main", "a case added to the training cases has a target value")
		if s.all {
			c.bad(key, instrPos(s.ev.In), "undecided: a whole list is added to the training cases")
			continue
		}
		for _, i := range s.elems {
			if !b.known(s.p, s.ev, i) {
				c.bad(key, instrPos(s.ev.In), "case %v can be trained on although its target value is missing", i)
			}
		}
	}
	n := len(g.appends)
	for _, cl := range g.calls {
		c.ob("growforest.main", "training cases drawn by "+cl.Name)
		switch {
		case nameIs(cl.Name, "SampleFirstN"):
			// deck and samples are the same list
			if len(cl.Args) != 4 || cl.Args[0] != cl.Args[1] {
				c.bad(key, instrPos(cl.In), "SampleFirstN draws from other cases than those selected")
			}
		case nameIs(cl.Name, "Sample") && len(cl.Args) == 3:
			n++
			vs := e.values(cl.Args[0])
			if len(vs) == 0 {
				c.bad(key, instrPos(cl.In), "undecided: the sampler used is not known")
			}
			for _, v := range vs {
				v = unwrapped(v)
				f := e.calleeOf(v)
				if v.Op == "nil" {
					continue // no sampler: the call would panic
				}
				if v.Op != "call" || f == nil || len(v.Args) == 0 || !b.target(v.Args[0]) {
					c.bad(key, instrPos(cl.In), "cases are drawn by a sampler that is not made for the target: %v", v)
					continue
				}
				b.sampler(f)
			}
		default:
			c.bad(key, instrPos(cl.In), "undecided: %s may change the training cases", cl.Name)
		}
	}
	if n == 0 {
		c.bad(key, instrPos(ev.In), "no cases are ever selected for training")
	}
	b.everyKnown(g, key)
}

// values lists what a variable's value can be, through variables and loops.
func (e *Exec) values(t *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "sym" && len(e.phis(t)) > 0:
			for _, v := range e.phis(t) {
				rec(v)
			}
		case t.Op == "load" && t.Args[0].Op == "alloc":
			for _, v := range e.puts(t.Args[0]) {
				rec(v)
			}
		default:
			out = append(out, t)
		}
	}
	rec(t)
	return
}

// everyKnown: a loop that adds the cases one after the other leaves out none with a known target.
func (b *bag) everyKnown(g *gathered, key string) {
	c, e := b.c, b.e
	isLen := func(t *Term) bool {
		a := isCall(t, "Length")
		if a == nil {
			return false
		}
		arr, _ := elem(a[0])
		return b.target(a[0]) || arr != nil && dataOf(arr, b.fm)
	}
	for _, s := range g.appends {
		if len(s.elems) != 1 {
			continue
		}
		draw := false
		for _, v := range e.values(s.elems[0]) {
			draw = draw || v.contains(func(t *Term) bool { return t.Op == "call" && strings.Contains(t.S, "rand") })
		}
		if draw {
			continue
		}
		i := s.elems[0]
		k := e.phiCut(anySym(i))
		c.ob("growforest.main", "without bagging every case with a target value trains once")
		if k == nil {
			c.bad(key, instrPos(s.ev.In), "undecided: case %v is not selected in a loop over the cases", i)
			continue
		}
		if w := e.countsAny(k, i, isLen); w != "" {
			c.bad(key, instrPos(s.ev.In), "not every case is considered for training: %s", w)
			continue
		}
		added := func(q *Path) int {
			n := 0
			for _, ev := range q.Events {
				if ev.Kind == "append" && g.values[ev.Val] {
					n++
				}
			}
			return n
		}
		missing := func(q *Path) bool {
			for _, f := range q.All() {
				if a := isCall(f, "IsMissing"); a != nil && len(a) == 2 && b.target(a[0]) && (a[1] == i || decideEq(a[1], i)) {
					return true
				}
			}
			return false
		}
		if !e.everyTurn(k, func(q *Path) bool { return added(q) > 0 || missing(q) }) {
			c.bad(key, instrPos(s.ev.In), "a case with a target value can be left out")
		}
		if !e.oncePerTurn(k, added) {
			c.bad(key, instrPos(s.ev.In), "a case can be selected twice")
		}
		// the list starts empty
		enter, _ := e.into(k)
		for _, q := range enter {
			for sym, v := range q.Phi {
				if !g.values[sym] {
					continue
				}
				if !emptyList(v) {
					c.bad(key, instrPos(s.ev.In), "cases selected for another tree can still be in the list")
				}
			}
			if s.ev.Addr.Op == "load" && g.cells[s.ev.Addr.Args[0]] {
				if v := q.holding(s.ev.Addr.Args[0]); v == nil || !emptyList(v) {
					c.bad(key, instrPos(s.ev.In), "cases selected for another tree can still be in the list")
				}
			}
		}
	}
}

// holding is what a variable holds at the end of a path, nil when that is not known.
func (p *Path) holding(a *Term) *Term {
	v := p.From.In.base[a]
	for _, ev := range p.Events {
		if ev.Kind == "store" && ev.Addr == a {
			v = ev.Val
		}
		if ev.Kind == "call" {
			for _, x := range ev.Args {
				if x == a {
					v = nil
				}
			}
		}
	}
	return v
}

// emptyList: the list has no elements.
func emptyList(t *Term) bool {
	switch t.Op {
	case "nil":
		return true
	case "makeslice":
		return isZero(lenT(t))
	case "slice":
		if t.Args[2].Op != "none" {
			return isZero(t.Args[2])
		}
		return t.Args[0].Op == "alloc" && isZero(lenT(t.Args[0]))
	}
	return false
}

// sampler: a constructor of a sampler and the sampler's draws.
func (b *bag) sampler(f *ssa.Function) {
	c := b.c
	key := "bag/" + f.Name()
	if b.done[f] {
		return
	}
	b.done[f] = true
	e := c.run(f, "sampler", Options{})
	if e == nil {
		return
	}
	tgt := e.param(0)
	ints := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		bt, ok := s.Elem().Underlying().(*types.Basic)
		return ok && bt.Kind() == types.Int
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			switch ev.Kind {
			case "append":
				if ev.Val.T == nil || !ints(ev.Val.T) {
					continue
				}
				c.ob(f.Name(), "a case put into a class has a target value")
				n++
				ok := ev.Val.Op != "appendall"
				for _, i := range ev.Args {
					known := false
					for _, g := range p.before(ev) {
						if g.Op != "not" {
							continue
						}
						if a := isCall(g.Args[0], "IsMissing"); a != nil && len(a) == 2 && a[0] == tgt && decideEq(a[1], i) {
							known = true
						}
						if a, j := elem(g.Args[0]); a != nil && decideEq(j, i) {
							if o := field(a, "DenseCatFeature.Missing"); o == tgt {
								known = true
							}
						}
					}
					ok = ok && known
				}
				if !ok {
					c.bad(key, instrPos(ev.In), "%s puts cases into a class that may have no target value", f.Name())
				}
			}
			// class lists start empty and hold nothing but what is appended
			if ev.Kind == "store" || ev.Kind == "append" {
				vals := []*Term{ev.Val}
				if ev.Kind == "append" {
					vals = ev.Args
				}
				for _, v := range vals {
					if v == nil || v.T == nil || !ints(v.T) {
						continue
					}
					if _, isArr := addrElem(orNil(ev.Addr)); ev.Kind == "store" && isArr == nil {
						continue // not a class list
					}
					g := e.gather(v)
					for _, o := range g.other {
						if a, _ := elem(o); a == nil {
							c.bad(key, instrPos(ev.In), "undecided: a class of %s starts as %v", f.Name(), o)
						}
					}
				}
			}
		}
	})
	if n == 0 {
		c.bad(key, f.Pos(), "undecided: %s puts no cases into its classes", f.Name())
	}
	// the draws
	rt := f.Signature.Results().At(0).Type()
	m := c.P.lookup(typeName(deref(rt)) + ".Sample")
	if m == nil {
		c.bad(key, f.Pos(), "undecided: the sampler has no Sample method")
		return
	}
	d := c.run(m, "draws", Options{})
	if d == nil {
		return
	}
	recv, out := d.param(0), d.param(1)
	own := func(t *Term) bool {
		a, _ := elem(t)
		for a != nil {
			if strings.HasPrefix(a.Op, "load") && a.Args[0].Op == "fieldaddr" && a.Args[0].Args[0] == recv {
				return true
			}
			a, _ = elem(a)
		}
		return false
	}
	drawn := 0
	d.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr != out {
				if ev.Kind == "store" && rootTerm(ev.Addr) != nil && !fresh(rootTerm(ev.Addr)) {
					if a, _ := addrElem(ev.Addr); a != nil && !own(ev.Val) {
						c.bad(key, instrPos(ev.In), "Sample puts something else than one of its cases into the sample")
					}
				}
				continue
			}
			g := d.gather(ev.Val)
			for _, s := range g.appends {
				for _, v := range s.elems {
					drawn++
					if s.all || !own(v) {
						c.bad(key, instrPos(s.ev.In), "Sample draws something that is not one of its cases: %v", v)
					}
				}
			}
			for _, o := range g.other {
				if !isLoadOf(o, out) {
					c.bad(key, instrPos(ev.In), "undecided: the sample can be %v", o)
				}
			}
		}
		if p.End == "return" {
			return
		}
	})
	c.ob(m.String(), "draws only the cases of its classes")
	if drawn == 0 {
		c.bad(key, m.Pos(), "undecided: Sample draws nothing")
	}
	// what was in the list before is dropped
	first := false
	if d.Entry != nil {
		first = true
		for _, p := range d.Entry.Paths {
			ok := false
			for _, ev := range p.Events {
				if ev.Kind == "store" && ev.Addr == out && emptyList(ev.Val) {
					ok = true
				}
			}
			if !ok && p.End != "panic" {
				first = false
			}
		}
	}
	if !first {
		c.bad(key, m.Pos(), "Sample keeps what was in the list before")
	}
}

func orNil(t *Term) *Term {
	if t == nil {
		return mk("nil", "")
	}
	return t
}

// forestCases: GrowRandomForest trains on draws from the cases with a known target.
func (c *Check) forestCases() {
	f := c.fn("", "GrowRandomForest")
	if f == nil {
		return
	}
	e := c.run(f, "cases", Options{Opaque: opaque("Tree.Grow", "Tree.GrowJungle")})
	if e == nil {
		return
	}
	key := "bag/GrowRandomForest"
	tgt := e.param(1)
	isTgt := func(t *Term) bool {
		for t.Op == "iface" || t.Op == "typeassert" {
			t = t.Args[0]
		}
		return t == tgt
	}
	// known lists: filled with cases whose target is known
	knownList := map[*Term]string{}
	var known func(l *Term) string
	known = func(l *Term) string {
		if w, ok := knownList[l]; ok {
			return w
		}
		knownList[l] = ""
		w := ""
		g := e.gather(l)
		for _, o := range g.other {
			w = "can be " + o.String()
		}
		for _, s := range g.appends {
			for _, i := range s.elems {
				ok := false
				for _, q := range s.p.before(s.ev) {
					if q.Op == "not" {
						if a := isCall(q.Args[0], "IsMissing"); a != nil && len(a) == 2 && isTgt(a[0]) && decideEq(a[1], i) {
							ok = true
						}
					}
				}
				if arr, _ := elem(i); arr != nil && !s.all {
					if known(arr) == "" {
						ok = true
					}
				}
				if !ok {
					w = "can hold a case without a target value"
				}
			}
		}
		if len(g.appends) == 0 || len(g.calls) > 0 {
			w = "is not filled"
		}
		knownList[l] = w
		return w
	}
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			n++
			c.ob("GrowRandomForest", "the training cases of a tree have target values")
			cases := ev.Args[3]
			if known(cases) == "" {
				continue
			}
			// or every element of the list is replaced by a known case
			ok := false
			replaced := map[*Cut]bool{}
			for _, k := range e.loopCuts() {
				var idx *Term
				puts := func(q *Path) bool {
					hit := false
					for _, w := range q.Events {
						if w.Kind != "store" {
							continue
						}
						if a, i := addrElem(w.Addr); a == cases {
							if src, _ := elem(w.Val); src != nil && known(src) == "" {
								hit = true
								idx = i
							}
						}
					}
					return hit
				}
				if !e.everyTurn(k, puts) || idx == nil {
					continue
				}
				if e.countsAny(k, idx, func(t *Term) bool { return t == lenT(cases) }) != "" {
					continue
				}
				if e.reaches(func(q *Path) bool { return q.To == k }, func(q *Path) bool { return q == p }) == nil {
					ok = true
					replaced[k] = true
				}
			}
			// and nothing else is stored there afterwards
			e.each(func(cu *Cut, q *Path) {
				for _, w := range q.Events {
					if w.Kind != "store" {
						continue
					}
					a, _ := addrElem(w.Addr)
					if a != cases {
						continue
					}
					if src, _ := elem(w.Val); src != nil && known(src) == "" {
						continue
					}
					if q == p || q.To != nil && e.reachesFrom(q.To, func(r *Path) bool { return r.To != nil && replaced[r.To] }, func(r *Path) bool { return r == p }) != nil {
						ok = false
					}
				}
			})
			if !ok {
				c.bad(key, instrPos(ev.In), "GrowRandomForest can train on cases without a target value: the list %s", known(cases))
			}
		}
	})
	if n == 0 {
		c.bad(key, f.Pos(), "undecided: GrowRandomForest grows no tree")
	}
}

// residuals: gradient boosting leaves cases without a target value alone.
func (c *Check) residuals() {
	n := 0
	for _, name := range []string{"NewGradBoostTarget", "NewGradBoostClassTarget", "GradBoostTarget.Update", "GradBoostClassTarget.Update"} {
		f := c.P.lookup(name)
		if f == nil {
			c.bad("bag/"+name, 0, "undecided: %s is gone", name)
			continue
		}
		e := c.run(f, "residuals", Options{Opaque: func(g *ssa.Function) bool {
			switch g.Name() {
			case "Put", "Get", "IsMissing", "Copy", "EncodeToNum", "GetStr":
				return true
			}
			return false
		}})
		if e == nil {
			continue
		}
		params := func(t *Term) map[*Term]bool {
			out := map[*Term]bool{}
			t.walk(func(x *Term) bool {
				for i := range f.Params {
					if x == e.param(i) {
						out[x] = true
					}
				}
				return true
			})
			return out
		}
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				if ev.Kind != "call" || len(ev.Args) < 2 || !(nameIs(ev.Name, "Put") || nameIs(ev.Name, "Get")) {
					continue
				}
				n++
				c.ob(name, nameOf(ev)+" only for cases with a target value")
				mine := params(ev.Args[0])
				ok := false
				for _, g := range p.before(ev) {
					if g.Op != "not" {
						continue
					}
					if a := isCall(g.Args[0], "IsMissing"); a != nil && len(a) == 2 && decideEq(a[1], ev.Args[1]) {
						for q := range params(a[0]) {
							ok = ok || mine[q]
						}
						ok = ok || a[0] == ev.Args[0]
					}
				}
				if !ok {
					c.bad("bag/"+name, instrPos(ev.In), "%s uses or changes the value of case %v, which may have no target value", name, ev.Args[1])
				}
			}
		})
	}
	if n == 0 {
		c.bad("bag/residuals", 0, "undecided: gradient boosting touches no case")
	}
}

func nameOf(ev *Event) string {
	n := ev.Name
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func init() {
	register(&Rule{ID: "C25", Min: 25,
		What: "in growforest everything the list of training cases can hold at a call of Grow or GrowJungle is followed back through variables, loops and samplers: each case added is known not to be missing in the target's column (or what is wrapped around it) or comes from a list of such cases; lists filled case by case start empty, visit every case and leave out only missing ones; the samplers' constructors put a case into a class only when its target is known and Sample draws only from its classes into an emptied list; GrowRandomForest replaces every drawn index by a case of such a list; the gradient boosting targets read and change values only of cases known not to be missing",
		Run:  func(c *Check) { c.knownTargets(); c.forestCases(); c.residuals() }})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
