package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- C06: rearrangements -----------------------------------------------------

// rearranged follows the element stores of a path for every way its indexes can coincide and
// says for each array which element ends up where. key names the tracked array of an element address
// ("" for others). It returns per index coincidence class the final maps, or what is wrong.
func (e *Exec) rearranged(p *Path, key func(arr *Term) string) (final []map[string][]int, problem string, at ssa.Instruction) {
	var stores []*Event
	for _, ev := range p.Events {
		if ev.Kind == "store" {
			if a, _ := addrElem(ev.Addr); a != nil && key(a) != "" {
				stores = append(stores, ev)
			}
		}
		if ev.Kind == "call" {
			stores = append(stores, ev)
		}
		if ev.Kind == "copy" && key(ev.Addr) != "" {
			return nil, "copies over part of the array", ev.In
		}
	}
	var idx []*Term
	num := map[*Term]int{}
	add := func(i *Term) {
		if _, ok := num[i]; !ok {
			num[i] = len(idx)
			idx = append(idx, i)
		}
	}
	var last ssa.Instruction
	for _, ev := range stores {
		if ev.Kind == "call" {
			continue
		}
		last = ev.In
		_, i := addrElem(ev.Addr)
		add(i)
		if a, j := elem(ev.Val); a != nil && key(a) != "" {
			add(j)
		}
	}
	if len(idx) == 0 {
		return nil, "", nil
	}
	if len(idx) > 7 {
		return nil, "undecided: moves more elements at a time than are followed", last
	}
	facts := p.All()
	rel := func(i, j int) int { // 1 same, 0 different, -1 either
		d := subT(idx[i], idx[j])
		if k, ok := d.intc(); ok {
			if k == 0 {
				return 1
			}
			return 0
		}
		switch decide(facts, eq0(d)) {
		case 1:
			return 1
		case 0:
			return 0
		}
		for _, g := range []*Term{ge0(addI(d, -1)), ge0(addI(negT(d), -1))} {
			if decide(facts, g) == 1 {
				return 0
			}
		}
		return -1
	}
	rels := map[[2]int]int{}
	for i := range idx {
		for j := 0; j < i; j++ {
			rels[[2]int{i, j}] = rel(i, j)
		}
	}
	cls := make([]int, len(idx))
	var rec func(i, n int) bool
	simulate := func() bool {
		cur := map[string]map[int]int{}
		get := func(k string) map[int]int {
			if cur[k] == nil {
				m := map[int]int{}
				for _, c := range cls {
					m[c] = c
				}
				cur[k] = m
			}
			return cur[k]
		}
		type snap struct {
			k string
			m map[int]int
		}
		snaps := map[string]snap{}
		start := map[string]bool{}
		finish := func() bool {
			res := map[string][]int{}
			for k, m := range cur {
				seen := map[int]bool{}
				var f []int
				for c := 0; c < len(m); c++ {
					if seen[m[c]] {
						problem, at = "loses one element and keeps another twice", last
						return false
					}
					seen[m[c]] = true
					f = append(f, m[c])
				}
				res[k] = f
			}
			final = append(final, res)
			return true
		}
		for _, ev := range stores {
			if ev.Kind == "call" {
				// what the callee does to the arrays is judged on its own; from here on its result counts
				if len(cur) > 0 && !finish() {
					return false
				}
				cur, snaps, start = map[string]map[int]int{}, map[string]snap{}, map[string]bool{ev.Uniq: true}
				continue
			}
			a, i := addrElem(ev.Addr)
			k := key(a)
			m := get(k)
			tok := -1
			if va, vi := elem(ev.Val); va != nil && key(va) == k {
				c := cls[num[vi]]
				if s, ok := snaps[ev.Val.Ver]; ok && s.k == k {
					tok = s.m[c]
				} else if start[ev.Val.Ver] || ev.Val.Ver == p.From.In.ver[classOf(ev.Val.Args[0])] {
					tok = c
				}
			}
			if tok < 0 {
				for x, v := range p.From.In.base {
					if va, vi := addrElem(x); va != nil && key(va) == k && v == ev.Val {
						if n, ok := num[vi]; ok {
							tok = cls[n]
						}
					}
				}
			}
			if tok < 0 {
				problem, at = fmt.Sprintf("stores %v, which is not an element being moved", ev.Val), ev.In
				return false
			}
			m[cls[num[i]]] = tok
			cp := map[int]int{}
			for x, y := range m {
				cp[x] = y
			}
			snaps[ev.Uniq] = snap{k, cp}
		}
		return finish()
	}
	rec = func(i, n int) bool {
		if i == len(idx) {
			return simulate()
		}
		for c := 0; c <= n; c++ {
			ok := true
			for j := 0; j < i; j++ {
				r := rels[[2]int{i, j}]
				if cls[j] == c && r == 0 || cls[j] != c && r == 1 {
					ok = false
				}
			}
			if !ok {
				continue
			}
			cls[i] = c
			m := n
			if c == n {
				m++
			}
			if !rec(i+1, m) {
				return false
			}
		}
		return true
	}
	rec(0, 0)
	return
}

// rearranges decides that every path of e only rearranges the named arrays, and the arrays of a group alike.
// allowed accepts other stores to memory the caller can see.
func (c *Check) rearranges(e *Exec, name string, key func(arr *Term) string, group []string, allowed func(ev *Event) bool) int {
	n := 0
	k := "rearrange/" + name
	e.each(func(cu *Cut, p *Path) {
		fin, problem, at := e.rearranged(p, key)
		if problem != "" {
			c.bad(k, instrPos(at), "%s %s", name, problem)
			return
		}
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			a, _ := addrElem(ev.Addr)
			if a != nil && key(a) != "" {
				n++
				c.ob(name, "elements are only exchanged")
				continue
			}
			if r := rootTerm(ev.Addr); r.isAlloc() || allowed != nil && allowed(ev) {
				continue
			}
			c.bad(k, instrPos(ev.In), "%s also changes %v", name, ev.Addr)
		}
		for _, f := range fin {
			var ref []int
			has := false
			for _, g := range group {
				m, ok := f[g]
				if !ok {
					continue
				}
				if !has {
					ref, has = m, true
				}
			}
			if !has {
				continue
			}
			for _, g := range group {
				m := f[g]
				same := true
				for i := range ref {
					v := i
					if i < len(m) {
						v = m[i]
					}
					if v != ref[i] {
						same = false
					}
				}
				if !same {
					var last ssa.Instruction
					for _, ev := range p.Events {
						if ev.Kind == "store" {
							last = ev.In
						}
					}
					c.bad(k, instrPos(last), "%s moves the elements of %v differently", name, group)
				}
			}
		}
	})
	return n
}

func sliceOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func basicKind(t types.Type) types.BasicKind {
	if t == nil {
		return types.Invalid
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func (c *Check) reorderings() {
	// the sort: every function given both arrays
	both := map[*ssa.Function][2]int{}
	var fs []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "sortby" || f.Parent() != nil {
			continue
		}
		ci, vi := -1, -1
		for i, pr := range f.Params {
			switch basicKind(sliceOf(pr.Type())) {
			case types.Int:
				ci = i
			case types.Float64:
				vi = i
			}
		}
		if ci >= 0 && vi >= 0 {
			both[f] = [2]int{ci, vi}
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	moved := 0
	for _, f := range fs {
		e := c.run(f, "perm", Options{Opaque: func(g *ssa.Function) bool { _, ok := both[g]; return ok }})
		if e == nil {
			continue
		}
		ps := both[f]
		pa := [2]*Term{e.param(ps[0]), e.param(ps[1])}
		key := func(arr *Term) string {
			for i, n := range []string{"cases", "values"} {
				if r := rootTerm(arr); arr == pa[i] || r == pa[i] {
					return n
				}
				if arr != nil && arr.Op == "load" && arr.Args[0] == pa[i] {
					return n
				}
			}
			return ""
		}
		name := "sortby." + f.Name()
		moved += c.rearranges(e, name, key, []string{"cases", "values"}, nil)
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				if ev.Kind != "call" || ev.Fn == nil {
					continue
				}
				if q, ok := both[ev.Fn]; ok {
					c.ob(name, "cases and values are sorted together")
					if len(ev.Args) <= q[0] || len(ev.Args) <= q[1] || ev.Args[q[0]] != pa[0] || ev.Args[q[1]] != pa[1] {
						c.bad("rearrange/"+name, instrPos(ev.In), "%s sorts other arrays than the ones it was given", name)
					}
				}
			}
		})
	}
	if moved == 0 {
		c.badAt("rearrange/sortby", "-", "the sort moves nothing")
	}
	by := func(recv *Term, fields map[string]string) func(*Term) string {
		return func(arr *Term) string {
			for f, n := range fields {
				if o := field(arr, f); o != nil && (o == recv || unwrapped(o) == recv) {
					return n
				}
			}
			return ""
		}
	}
	// sort.Interface of the sorter
	if f := c.method("SortableFeature", "Swap"); f != nil {
		if e := c.run(f, "perm", Options{}); e != nil {
			fields := map[string]string{"SortableFeature.Cases": "cases", "SortableFeature.Vals": "values"}
			if c.rearranges(e, "SortableFeature.Swap", by(e.param(0), fields), []string{"cases", "values"}, nil) != 4 {
				c.bad("rearrange/SortableFeature.Swap", f.Pos(), "SortableFeature.Swap does not exchange one pair of cases and values")
			}
			for _, ev := range e.Entry.Paths[0].Events {
				if ev.Kind == "store" {
					if _, i := addrElem(ev.Addr); i != e.param(1) && i != e.param(2) {
						c.bad("rearrange/SortableFeature.Swap", instrPos(ev.In), "SortableFeature.Swap exchanges other elements than it is asked to")
					}
				}
			}
		}
	}
	// the sorter sorts its cases by its values
	if f := c.method("SortableFeature", "Sort"); f != nil {
		if e := c.run(f, "perm", Options{Opaque: opaque("sortby.SortBy")}); e != nil {
			recv := e.param(0)
			e.each(func(cu *Cut, p *Path) {
				n := 0
				for _, ev := range p.Events {
					switch ev.Kind {
					case "call":
						if ev.Fn != nil && ev.Fn.Name() == "SortBy" {
							n++
							c.ob("SortableFeature.Sort", "cases are sorted by their values")
							if addrField(ev.Args[0], "SortableFeature.Cases") != recv || addrField(ev.Args[1], "SortableFeature.Vals") != recv {
								c.bad("rearrange/SortableFeature.Sort", instrPos(ev.In), "SortableFeature.Sort sorts other arrays than its cases and values")
							}
						}
					case "store":
						if !rootTerm(ev.Addr).isAlloc() {
							c.bad("rearrange/SortableFeature.Sort", instrPos(ev.In), "SortableFeature.Sort changes %v", ev.Addr)
						}
					}
				}
				if p.End == "return" && n != 1 {
					c.bad("rearrange/SortableFeature.Sort", f.Pos(), "SortableFeature.Sort can return without sorting")
				}
			})
		}
	}
	c.loads()
	// shuffles
	for _, typ := range []string{"DenseNumFeature", "DenseCatFeature"} {
		data := map[string]string{"DenseNumFeature": "NumData", "DenseCatFeature": "CatData"}[typ]
		for _, m := range []string{"Shuffle", "ShuffleCases"} {
			f := c.method(typ, m)
			if f == nil {
				continue
			}
			e := c.run(f, "perm", Options{})
			if e == nil {
				continue
			}
			name := typ + "." + m
			key := by(e.param(0), map[string]string{typ + "." + data: "values", typ + ".Missing": "missing markers"})
			if c.rearranges(e, name, key, []string{"values", "missing markers"}, nil) == 0 {
				c.bad("rearrange/"+name, f.Pos(), "%s moves nothing", name)
			}
			if m == "ShuffleCases" {
				cases := e.param(1)
				e.each(func(cu *Cut, p *Path) {
					for _, ev := range p.Events {
						if ev.Kind != "store" {
							continue
						}
						a, i := addrElem(ev.Addr)
						if a == nil || key(a) == "" {
							continue
						}
						c.ob(name, "only cases given are shuffled")
						if l, _ := elem(i); l == nil || l.Op != "load" || l.Args[0] != cases {
							c.bad("rearrange/"+name, instrPos(ev.In), "%s moves the case %v, which is not one of the cases given", name, i)
						}
					}
				})
			}
		}
	}
	// draws
	deck := func(f *ssa.Function, pi int, name string, op Options, allowed func(e *Exec) func(*Event) bool) {
		if f == nil {
			return
		}
		e := c.run(f, "perm", op)
		if e == nil {
			return
		}
		d := e.param(pi)
		key := func(arr *Term) string {
			if arr != nil && arr.Op == "load" && arr.Args[0] == d {
				return "list"
			}
			return ""
		}
		if c.rearranges(e, name, key, nil, allowed(e)) == 0 {
			c.bad("rearrange/"+name, f.Pos(), "%s moves nothing", name)
		}
	}
	deck(c.fn("", "SampleFirstN"), 0, "SampleFirstN", Options{}, func(e *Exec) func(*Event) bool {
		return func(ev *Event) bool { return ev.Addr == e.param(1) }
	})
	deck(c.method("FeatureMatrix", "BestSplitter"), 3, "FeatureMatrix.BestSplitter", Options{Opaque: opaque("*.BestSplit", "*.Split", "*.SplitImpurity", "*.Impurity", "*.ShuffleCases", "*.CopyInTo")}, func(e *Exec) func(*Event) bool {
		return func(ev *Event) bool { return e.scratch(ev) }
	})
	for _, m := range []string{"BestCatSplit", "BestBinSplit"} {
		deck(c.method("DenseCatFeature", m), 2, "DenseCatFeature."+m, Options{}, func(e *Exec) func(*Event) bool {
			return func(ev *Event) bool { return e.scratch(ev) }
		})
	}
}

// scratch: the store goes to the reusable allocations of a split search.
func (e *Exec) scratch(ev *Event) bool {
	r := rootTerm(ev.Addr)
	for r.Op == "load" {
		r = rootTerm(r.Args[0])
	}
	for i, pr := range e.Root.Params {
		if e.param(i) == r {
			if p, ok := pr.Type().Underlying().(*types.Pointer); ok && typeName(p.Elem()) == "BestSplitAllocs" {
				return true
			}
		}
	}
	return false
}

// loads: the sorter gets the cases and the value of each.
func (c *Check) loads() {
	f := c.method("SortableFeature", "Load")
	if f == nil {
		return
	}
	e := c.run(f, "perm", Options{})
	if e == nil {
		return
	}
	recv, vals, cases := e.param(0), e.param(1), e.param(2)
	key := "rearrange/SortableFeature.Load"
	list := func(t *Term) bool { return t != nil && t.Op == "load" && t.Args[0] == cases }
	set := func(p *Path) bool {
		for _, ev := range p.Events {
			if ev.Kind == "store" && addrField(ev.Addr, "SortableFeature.Cases") == recv {
				return true
			}
		}
		return false
	}
	filled := false
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" || rootTerm(ev.Addr).isAlloc() {
				continue
			}
			c.ob("SortableFeature.Load", "the sorter gets the cases and their values")
			if addrField(ev.Addr, "SortableFeature.Cases") == recv {
				if !list(ev.Val) {
					c.bad(key, instrPos(ev.In), "SortableFeature.Load sorts %v, not the cases given", ev.Val)
				}
				continue
			}
			a, i := addrElem(ev.Addr)
			va, vi := elem(ev.Val)
			ca, ci := elem(vi)
			if a == nil || field(a, "SortableFeature.Vals") != recv || va == nil || va.Op != "load" || va.Args[0] != vals || ci != i || !(list(ca) || field(ca, "SortableFeature.Cases") == recv) {
				c.bad(key, instrPos(ev.In), "SortableFeature.Load stores %v at %v, not the value of the case there", ev.Val, ev.Addr)
				continue
			}
			for _, k := range e.loopCuts() {
				if e.members(k)[p.From] && e.countsAny(k, i, func(t *Term) bool {
					return t.Op == "len" && (list(t.Args[0]) || field(t.Args[0], "SortableFeature.Cases") == recv)
				}) == "" && e.everyTurn(k, func(q *Path) bool {
					for _, w := range q.Events {
						if w.Kind == "store" {
							if a, j := addrElem(w.Addr); a != nil && field(a, "SortableFeature.Vals") == recv && j == i {
								return true
							}
						}
					}
					return false
				}) {
					filled = true
				}
			}
		}
		if p.End == "return" && !set(p) && e.without(p, set) {
			c.bad(key, instrPos(p.RetIn), "SortableFeature.Load can return without taking the cases given")
		}
	})
	if !filled {
		c.bad(key, f.Pos(), "SortableFeature.Load does not load the value of every case")
	}
}

func init() {
	register(&Rule{ID: "C06", Min: 40,
		What: "on every loop path of every function of the sort, of the shuffles and of the in-place draws, the element stores are followed for every way their indexes can coincide: the array's elements end up permuted, and arrays that belong together by the same permutation",
		Run:  func(c *Check) { c.reorderings() }})
}
