package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C27: results do not depend on the order maps are iterated in ------------------------------------

func mapRange(in ssa.Instruction) bool {
	r, ok := in.(*ssa.Range)
	if !ok {
		return false
	}
	_, ok = r.X.Type().Underlying().(*types.Map)
	return ok
}

func rangesMaps(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mapRange(in) {
				return true
			}
		}
	}
	return false
}

func isMapNext(t *Term) bool {
	if t.Op != "next" || len(t.Args) != 1 || t.Args[0].Op != "range" {
		return false
	}
	ty := t.Args[0].T
	if ty == nil {
		return false
	}
	_, ok := ty.Underlying().(*types.Map)
	return ok
}

// entryOf tells which iteration a term takes a key (1) or a value (2) from.
func entryOf(t *Term) (it *Term, part string) {
	if t.Op == "extract" && isMapNext(t.Args[0]) {
		return t.Args[0], t.S
	}
	return nil, ""
}

// fromEntry: the term depends on what the iteration has come to.
func fromEntry(t, it *Term) bool {
	return t != nil && t.contains(func(x *Term) bool { return x == it })
}

type mapLoop struct {
	c   *Check
	e   *Exec
	k   *Cut
	it  *Term
	pos token.Pos

	problems []mapProblem
	filled   []filledList
	cells    map[*Term]*Term // variables kept in memory, and what is read from them at the start of a turn
}

type filledList struct{ list, n *Term }

// counter: every turn adds one to it, so no two write in one place.
func (m *mapLoop) counter(i *Term) bool {
	if i.Op != "sym" || m.e.phiCut(i) != m.k {
		return false
	}
	_, back := m.e.into(m.k)
	for _, p := range back {
		if m.next(p, i) != addI(i, 1) {
			return false
		}
	}
	return true
}

// cell: the variable, kept in memory because a closure uses it, is one the loop carries along.
func (m *mapLoop) cell(a *Term, mem map[*Cut]bool) bool {
	if m.cells[a] != nil {
		return true
	}
	var head *Term
	ok := true
	see := func(t *Term) {
		if t != nil {
			t.walk(func(x *Term) bool {
				if isLoadOf(x, a) {
					ok = ok && (head == nil || head == x)
					head = x
				}
				return ok
			})
		}
	}
	for cu := range mem {
		ok = ok && cu == m.k
		for _, p := range cu.Paths {
			for _, ev := range p.Events {
				see(ev.Val)
				for _, x := range ev.Args {
					see(x)
				}
			}
			for _, g := range p.Guards {
				see(g)
			}
		}
	}
	if !ok || head == nil {
		return false
	}
	if m.cells == nil {
		m.cells = map[*Term]*Term{}
	}
	m.cells[a] = head
	return true
}

// next: what the path leaves in a variable.
func (m *mapLoop) next(p *Path, s *Term) *Term {
	if s.Op == "load" {
		v := s
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == s.Args[0] {
				v = ev.Val
			}
		}
		return v
	}
	return p.next(s)
}

func (c *Check) mapOrder() {
	within := map[*ssa.Function]bool{}
	n := 0
	for _, f := range c.P.Funcs {
		if rangesMaps(f) {
			n++
			for g := f; g != nil; g = g.Parent() {
				within[g] = true
			}
		}
	}
	if n == 0 {
		c.ob("CloudForest", "no code iterates over a map")
	}
	callers := c.P.callersOf()
	judged := map[*ssa.Function]bool{}
	var judge func(f *ssa.Function)
	judge = func(f *ssa.Function) {
		if judged[f] {
			return
		}
		judged[f] = true
		problems := c.mapLoops(f, within)
		if len(problems) == 0 {
			return
		}
		// a helper is judged in the places it serves
		switch {
		case f.Parent() != nil:
			judge(f.Parent())
		case !token.IsExported(f.Name()) && len(callers[f]) > 0:
			for _, g := range callers[f] {
				judge(g)
			}
		default:
			for _, p := range problems {
				c.bad("maporder/"+f.String(), p.pos, "%s", p.text)
			}
		}
	}
	for _, f := range c.P.Funcs {
		if rangesMaps(f) {
			judge(f)
		}
	}
}

func onCatMap(g *ssa.Function) bool {
	r := g.Signature.Recv()
	return r != nil && strings.HasSuffix(r.Type().String(), ".CatMap")
}

type mapProblem struct {
	pos  token.Pos
	text string
}

// mapLoops judges the iterations over maps in a function and the helpers it calls.
func (c *Check) mapLoops(f *ssa.Function, within map[*ssa.Function]bool) (problems []mapProblem) {
	e, err := c.P.Run(f, Options{GoInline: true, Opaque: func(g *ssa.Function) bool {
		return g.Parent() == nil && token.IsExported(g.Name()) && !within[g] && !onCatMap(g) || g.Pkg != nil && g.Pkg.Pkg.Name() == "sortby"
	}})
	if err != nil {
		return []mapProblem{{f.Pos(), "undecided: " + err.Error()}}
	}
	c.fns[FuncName(f)] = true
	seen := map[*Term]bool{}
	for _, k := range e.loopCuts() {
		for _, p := range k.Paths {
			for _, g := range p.Guards {
				if it, part := entryOf(g); part == "0" && !seen[it] {
					seen[it] = true
					m := &mapLoop{c: c, e: e, k: k, it: it, pos: k.B.Instrs[0].Pos()}
					m.judge()
					problems = append(problems, m.problems...)
				}
			}
		}
	}
	// iterations that are no loop
	e.each(func(cu *Cut, p *Path) {
		for _, g := range p.All() {
			if g.Op == "not" {
				g = g.Args[0]
			}
			if it, part := entryOf(g); part == "0" && !seen[it] {
				seen[it] = true
				problems = append(problems, mapProblem{f.Pos(), f.String() + " takes an entry of a map that depends on the order of iteration"})
			}
		}
	})
	if len(seen) == 0 {
		problems = append(problems, mapProblem{f.Pos(), "undecided: the iteration over a map in " + f.String() + " is not found"})
	}
	return
}

func (m *mapLoop) bad(format string, a ...interface{}) {
	m.problems = append(m.problems, mapProblem{m.pos, fmt.Sprintf(format, a...)})
}

func (m *mapLoop) judge() {
	c, e, k := m.c, m.e, m.k
	c.ob(m.e.Root.String(), "an iteration over a map")
	mem := e.members(k)
	enter, back := e.into(k)
	if len(enter) == 0 {
		return
	}
	var leave []*Path // paths that leave the loop
	for cu := range mem {
		for _, p := range cu.Paths {
			done := cu == k && p.holds(notT(mkExtract(m.it, "0")))
			if p.To == nil || !mem[p.To] {
				leave = append(leave, p)
				if !done && p.End != "exit" && p.End != "panic" {
					m.early(p)
				}
			}
			if !done {
				m.effects(p, k, mem)
			}
		}
	}
	// what the loop carries along
	for _, l := range m.filled {
		for _, p := range leave {
			if !m.orderedFirst(p, l.list) {
				m.bad("%s fills a list in an order that depends on the iteration over a map", e.Root.String())
				return
			}
		}
	}
	syms := map[*Term]bool{}
	for s := range k.symbols(e) {
		syms[s] = true
	}
	for _, s := range m.cells {
		syms[s] = true
	}
	for s := range syms {
		changed := false
		for _, p := range back {
			changed = changed || e.plain(m.next(p, s)) != s
		}
		if changed {
			c.ob(m.e.Root.String(), "what an iteration over a map gathers does not depend on its order")
			m.carried(s, syms, enter, back, leave, len(mem) > 1)
		}
	}
}

// early: leaving before the last entry must not tell which entry was met.
func (m *mapLoop) early(p *Path) {
	for _, r := range p.Ret {
		if fromEntry(r, m.it) {
			m.bad("%s returns an entry of a map that depends on the order of iteration", m.e.Root.String())
			return
		}
		for s := range m.k.symbols(m.e) {
			if r.has(s) && !m.same(s) {
				m.bad("%s stops an iteration over a map early with a result that depends on its order", m.e.Root.String())
				return
			}
		}
	}
	for _, v := range p.Phi {
		if fromEntry(v, m.it) {
			m.bad("%s stops an iteration over a map at an entry that depends on its order", m.e.Root.String())
			return
		}
	}
}

// same: no turn changes the symbol.
func (m *mapLoop) same(s *Term) bool {
	_, back := m.e.into(m.k)
	for _, p := range back {
		if m.e.plain(m.next(p, s)) != s {
			return false
		}
	}
	return true
}

// effects: what a turn writes goes to a place of its own or is the same for all.
func (m *mapLoop) effects(p *Path, k *Cut, mem map[*Cut]bool) {
	mentions := func(t *Term) bool {
		return fromEntry(t, m.it) || m.gathered(t, mem)
	}
	isKey := func(t *Term) bool {
		it, part := entryOf(t)
		return it == m.it && part == "1"
	}
	for _, ev := range p.Events {
		switch ev.Kind {
		case "mapupdate":
			m.c.ob(m.e.Root.String(), "a write inside an iteration over a map")
			own := len(ev.Args) > 0 && isKey(ev.Args[0]) && !m.gathered(ev.Val, mem)
			if !own && (mentions(ev.Addr) || mentions(ev.Val) || len(ev.Args) > 0 && mentions(ev.Args[0]) && mentions(ev.Val)) {
				m.bad("%s writes to a map in an order that depends on the iteration over another", m.e.Root.String())
			}
		case "store":
			base := ev.Addr
			for (base.Op == "indexaddr" || base.Op == "fieldaddr") && len(base.Args) > 0 {
				base = base.Args[0]
			}
			if base.Op == "alloc" && m.local(base, mem) {
				continue
			}
			if ev.Addr.Op == "alloc" && m.cell(ev.Addr, mem) {
				continue
			}
			m.c.ob(m.e.Root.String(), "a write inside an iteration over a map")
			arr, i := addrElem(ev.Addr)
			if arr != nil && m.counter(i) && !m.gathered(ev.Val, mem) && !mentions(arr) {
				m.filled = append(m.filled, filledList{arr, i})
				continue
			}
			if i != nil && isKey(i) && !m.gathered(ev.Val, mem) {
				continue
			}
			if mentions(ev.Val) {
				m.bad("%s writes in an order that depends on the iteration over a map", m.e.Root.String())
			}
		case "call":
			name := ev.Name
			if pureCalls(name) || strings.HasPrefix(name, "(*sync.") || name == "len" {
				continue
			}
			m.c.ob(m.e.Root.String(), "a call inside an iteration over a map")
			if f := ev.Fn; f != nil && fnInRepo(f) && len(m.c.P.Effects(f)) == 0 && !writesOut(f, map[*ssa.Function]bool{}) {
				continue
			}
			m.bad("%s calls %s in an order that depends on the iteration over a map", m.e.Root.String(), name)
		case "send", "go", "defer", "recv", "copy":
			m.bad("%s does a %s in an order that depends on the iteration over a map", m.e.Root.String(), ev.Kind)
		}
	}
}

// gathered: the term depends on what earlier turns, or inner loops, came to.
func (m *mapLoop) gathered(t *Term, mem map[*Cut]bool) bool {
	hit := false
	t.walk(func(x *Term) bool {
		if x.Op == "sym" {
			if d := m.e.phiCut(x); d != nil && mem[d] && !(d == m.k && m.same(x)) {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

// local: the variable is made anew in every turn, by being written before it is read.
func (m *mapLoop) local(a *Term, mem map[*Cut]bool) bool {
	ok := true
	m.e.each(func(cu *Cut, p *Path) {
		if mem[cu] {
			return
		}
		for _, ev := range p.Events {
			if ev.Addr == a || ev.Addr != nil && ev.Addr.has(a) || ev.Val != nil && ev.Val.has(a) {
				ok = false
			}
			for _, x := range ev.Args {
				ok = ok && !x.has(a)
			}
		}
		for _, r := range p.Ret {
			ok = ok && !r.has(a)
		}
	})
	return ok
}

// writesOut: the function, or one it calls, has effects outside of memory.
func writesOut(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil {
				if _, b := ci.Common().Value.(*ssa.Builtin); b {
					continue
				}
				return true
			}
			if fnInRepo(g) {
				if writesOut(g, seen) {
					return true
				}
			} else if !pureCalls(calleeName(ci.Common())) {
				return true
			}
		}
	}
	return false
}

// carried: a variable that turns of the loop change.
func (m *mapLoop) carried(s *Term, syms map[*Term]bool, enter, back, leave []*Path, nested bool) {
	name := m.e.Root.String()
	if nested {
		m.bad("undecided: %s gathers something in a loop inside an iteration over a map", name)
		return
	}
	if m.list(s, back, leave) || m.constant(s, back) || m.counts(s, syms, back) || m.greatest(s, syms, enter, back) {
		return
	}
	m.bad("%s gathers something that depends on the order it iterates over a map in", name)
}

// list: elements are gathered in a list that is put in order before anything else is done with it.
func (m *mapLoop) list(s *Term, back, leave []*Path) bool {
	for _, p := range back {
		v := m.next(p, s)
		if v != s && (v.Op != "append" || v.Args[0] != s) {
			return false
		}
		for _, x := range v.Args[min(1, len(v.Args)):] {
			if x.has(s) {
				return false
			}
		}
	}
	for _, p := range leave {
		if !m.orderedFirst(p, s) {
			return false
		}
	}
	return true
}

// orderedFirst: leaving the loop the list is put in order before anything else is done with it.
func (m *mapLoop) orderedFirst(p *Path, v *Term) bool {
	for _, ev := range p.Events {
		uses := false
		for _, x := range append(append([]*Term{}, ev.Args...), ev.Addr, ev.Val) {
			uses = uses || x != nil && has(x, v)
		}
		if !uses || ev.Kind == "load" || ev.Kind == "enter" || ev.Kind == "leave" {
			continue
		}
		for _, g := range p.Guards[:ev.NG] {
			if has(g, v) {
				return false
			}
		}
		return ev.Kind == "call" && m.sorts(p, ev, v)
	}
	for _, g := range p.Guards {
		if has(g, v) {
			return false
		}
	}
	for _, r := range p.Ret {
		if has(r, v) {
			return false
		}
	}
	for _, x := range p.Phi {
		if has(x, v) {
			return false
		}
	}
	// used after the next cut without having been put in order
	return p.To == nil || m.e.reachesFrom(p.To, nil, func(q *Path) bool { return uses(q, v) }) == nil
}

func uses(q *Path, v *Term) bool {
	hit := false
	see := func(t *Term) { hit = hit || t != nil && has(t, v) }
	for _, g := range q.Guards {
		see(g)
	}
	for _, ev := range q.Events {
		if ev.Kind == "enter" || ev.Kind == "leave" {
			continue
		}
		see(ev.Addr)
		see(ev.Val)
		for _, a := range ev.Args {
			see(a)
		}
	}
	for _, x := range q.Phi {
		see(x)
	}
	for _, r := range q.Ret {
		see(r)
	}
	return hit
}

// has: the term uses more than the length of the list v.
func has(t, v *Term) bool {
	return stripLen(t, v).contains(func(x *Term) bool {
		return x == v || v.Op == "load" && x.Op == "load" && x.Args[0] == v.Args[0]
	})
}

// stripLen forgets the lengths of v.
func stripLen(t, v *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.Op == "len" && (x.Args[0] == v || v.Op == "load" && isLoadOf(x.Args[0], v.Args[0])) {
			return intT(0)
		}
		return nil
	})
}

// sorts: the call puts the list in an order that depends on its elements only.
func (m *mapLoop) sorts(p *Path, ev *Event, v *Term) bool {
	if len(ev.Args) == 0 {
		return false
	}
	is := func(t *Term) bool {
		for t != nil && (t.Op == "iface" || t.Op == "conv") && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return t == v
	}
	if !is(ev.Args[0]) {
		return false
	}
	switch ev.Name {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true
	case "sort.Sort", "sort.Stable":
		n := ""
		if ci, ok := ev.In.(ssa.CallInstruction); ok {
			if mi, ok := ci.Common().Args[0].(*ssa.MakeInterface); ok {
				n = mi.X.Type().String()
			}
		}
		return n == "sort.StringSlice" || n == "sort.IntSlice" || n == "sort.Float64Slice"
	case "sort.Slice", "sort.SliceStable":
		f, opt := m.c.closureAt(p, ev, ev.Args[1])
		if f == nil {
			return false
		}
		e := m.c.run(f, "!", opt)
		if e == nil {
			return false
		}
		ok, n := true, 0
		e.each(func(cu *Cut, q *Path) {
			if q.End != "return" || len(q.Ret) != 1 {
				ok = false
				return
			}
			n++
			r := q.Ret[0]
			side := func(t *Term) int {
				if arr, i := elem(t); arr != nil && has(arr, v) {
					switch i {
					case e.param(0):
						return 0
					case e.param(1):
						return 1
					}
				}
				return -1
			}
			switch {
			case (r.Op == "lt" || r.Op == "strlt") && len(r.Args) == 2 && side(r.Args[0])+side(r.Args[1]) == 1 && side(r.Args[0]) >= 0 && side(r.Args[1]) >= 0:
			case r.Op == "ge0":
				var x [2]*Term
				r.walk(func(t *Term) bool {
					if i := side(t); i >= 0 {
						x[i] = t
						return false
					}
					return true
				})
				ok = ok && x[0] != nil && x[1] != nil && (r == ge0(addI(subT(x[0], x[1]), -1)) || r == ge0(addI(subT(x[1], x[0]), -1)))
			default:
				ok = false
			}
		})
		return ok && n == 1
	}
	return false
}

// constant: every turn that changes it makes it the same.
func (m *mapLoop) constant(s *Term, back []*Path) bool {
	var to *Term
	for _, p := range back {
		v := m.e.plain(m.next(p, s))
		if v == s {
			// whether it changes must not depend on what was gathered before
			continue
		}
		if to != nil && v != to || fromEntry(v, m.it) || v.contains(m.moves) {
			return false
		}
		to = v
	}
	for _, p := range back {
		for _, g := range p.Guards {
			if g.contains(func(x *Term) bool { return x != s && m.moves(x) }) {
				return false
			}
		}
	}
	return to != nil
}

// counts: whole numbers are added up.
func (m *mapLoop) counts(s *Term, syms map[*Term]bool, back []*Path) bool {
	if s.T == nil {
		return false
	}
	b, ok := s.T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	moving := func(t *Term) bool {
		return t.contains(m.moves)
	}
	for _, p := range back {
		if moving(subT(m.next(p, s), s)) {
			return false
		}
		for _, g := range p.Guards {
			if moving(g) {
				return false
			}
		}
	}
	return true
}

// greatest: an entry is kept that no order of the entries changes: the one with the greatest (or least)
// value, and of those with that value the one whose key comes first (or last).
func (m *mapLoop) greatest(s *Term, syms map[*Term]bool, enter, back []*Path) bool {
	// the variables that are replaced together with s
	type held struct{ x, to *Term }
	var val *held
	var keys []held
	flags := map[*Term]*Term{}
	moving := func(t *Term) bool {
		return t.contains(m.moves)
	}
	for x := range syms {
		if m.same(x) {
			continue
		}
		if to := m.flag(x, enter, back); to != nil {
			flags[x] = to
			continue
		}
		guarded := false
		for _, p := range back {
			for _, g := range p.Guards {
				guarded = guarded || g.has(x)
			}
		}
		if x != s && !guarded && (m.constant(x, back) || m.counts(x, syms, back)) {
			continue
		}
		var to *Term
		for _, p := range back {
			v := m.e.plain(m.next(p, x))
			if v == x {
				continue
			}
			if to != nil && to != v || !fromEntry(v, m.it) || moving(v) {
				return false
			}
			to = v
		}
		switch {
		case to.contains(func(y *Term) bool { it, part := entryOf(y); return it == m.it && part == "2" }):
			if val != nil {
				return false
			}
			val = &held{x, to}
		default:
			keys = append(keys, held{x, to})
		}
	}
	// a key, or the label of one, tells which entry it was
	tells := func(t *Term) bool {
		if it, part := entryOf(t); it == m.it && part == "1" {
			return true
		}
		arr, i := elem(t)
		if arr == nil || field(arr, "CatMap.Back") == nil {
			return false
		}
		it, part := entryOf(i)
		return it == m.it && part == "1"
	}
	if val == nil && len(keys) == 0 {
		return false
	}
	var xv, v *Term
	if val != nil {
		xv, v = val.x, val.to
	}
	try := func(xk, k *Term) bool {
		for sign := 0; sign < 4; sign++ {
			if m.fold(xk, xv, k, v, flags, enter, back, sign&1 == 0, sign&2 == 0) {
				return true
			}
		}
		return false
	}
	if len(keys) == 0 {
		return try(nil, nil)
	}
	for _, d := range keys {
		if (len(keys) == 1 || tells(d.to)) && try(d.x, d.to) {
			// the others change with it
			ok := true
			for _, p := range back {
				for _, o := range keys {
					ok = ok && (m.e.plain(m.next(p, o.x)) == o.x) == (m.e.plain(m.next(p, d.x)) == d.x)
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// fold: entries are ordered by value (up: greater is better) and then by key (first: less is better).
func (m *mapLoop) fold(key, val, k, v *Term, flags map[*Term]*Term, enter, back []*Path, up, first bool) bool {
	beats := func(p *Path, a, b *Term) int { return m.order(p, a, b) }
	var takes []*Path
	for _, p := range back {
		if val != nil && m.e.plain(m.next(p, val)) != val || key != nil && m.e.plain(m.next(p, key)) != key {
			takes = append(takes, p)
		}
	}
	for _, p := range takes {
		for f, to := range flags {
			if m.e.plain(m.next(p, f)) != to && decide(p.All(), boolIs(f, to == boolT(true))) != 1 {
				return false
			}
		}
	}
	for _, p := range back {
		taken := false
		if val != nil {
			taken = m.e.plain(m.next(p, val)) != val
		}
		if key != nil {
			t := m.e.plain(m.next(p, key)) != key
			if val != nil && t != taken {
				return false
			}
			taken = t
		}
		// how the new entry compares
		cv := 2 // unknown
		if val == nil {
			cv = 0
		} else {
			cv = beats(p, v, val)
			if !up {
				cv = flip(cv)
			}
		}
		ck := 2
		if key == nil {
			ck = 0 // entries of the same value are the same
		} else {
			ck = beats(p, k, key)
			if first {
				ck = flip(ck)
			}
		}
		if !taken {
			for f := range flags {
				if m.e.plain(m.next(p, f)) != f {
					return false
				}
			}
			if m.filtered(p, takes) {
				continue
			}
		}
		if taken {
			none := false
			for f, to := range flags {
				none = none || decide(p.All(), boolIs(f, to == boolT(true))) == 0
			}
			if none {
				continue
			}
			if cv == 1 || cv == 0 && key != nil && ck == 1 {
				continue
			}
			return false
		}
		if cv == -1 || cv == 0 && (key == nil || ck == -1 || ck == 0 || ck == 3) || cv == 3 && (key == nil) {
			continue
		}
		// nothing was better than the start, and the entry is not either
		none := false
		if val != nil && cv == 0 {
			for _, q := range enter {
				init := m.next(q, val)
				if _, ok := init.rat(); ok && m.order(p, val, init) == 3 && up {
					none = true
				} else {
					none = false
					break
				}
			}
		}
		if !none {
			return false
		}
	}
	return true
}

// flag: x starts as one truth value and is only ever made the other.
func (m *mapLoop) flag(x *Term, enter, back []*Path) (to *Term) {
	if x.T == nil {
		return nil
	}
	if b, ok := x.T.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return nil
	}
	for _, p := range back {
		v := m.e.plain(m.next(p, x))
		if v == x {
			continue
		}
		if v != boolT(true) && v != boolT(false) || to != nil && v != to {
			return nil
		}
		to = v
	}
	for _, p := range enter {
		if v := m.next(p, x); v == to || v != boolT(true) && v != boolT(false) {
			return nil
		}
	}
	return
}

// moves: the variable is one the turns change.
func (m *mapLoop) moves(x *Term) bool {
	if x.Op == "sym" {
		return m.e.phiCut(x) == m.k && !m.same(x)
	}
	return x.Op == "load" && m.cells[x.Args[0]] != nil
}

func boolIs(x *Term, v bool) *Term {
	if v {
		return x
	}
	return notT(x)
}

// filtered: the entry itself, whatever was gathered, is none that could be taken.
func (m *mapLoop) filtered(p *Path, takes []*Path) bool {
	for _, g := range p.Guards {
		if g.contains(m.moves) {
			continue
		}
		all := len(takes) > 0
		for _, q := range takes {
			all = all && decide(q.All(), g) == 0
		}
		if all {
			return true
		}
	}
	return false
}

func flip(c int) int {
	if c == 1 || c == -1 {
		return -c
	}
	if c == 3 || c == 4 {
		return 7 - c
	}
	return c
}

// order compares two terms, or the labels two numbers stand for: 1 greater, -1 less, 0 equal, 3 not
// greater, 4 not less, 2 unknown.
func (m *mapLoop) order(p *Path, a, b *Term) int {
	facts := ordered(p.All())
	try := func(a, b *Term) int {
		var lt, gt, eq bool
		var nlt, ngt bool
		t := a.T
		if t == nil {
			t = b.T
		}
		for _, f := range facts {
			g, yes := f, true
			if f.Op == "not" {
				g, yes = f.Args[0], false
			}
			if (g.Op == "lt" || g.Op == "strlt" || g.Op == "le" || g.Op == "eq") && len(g.Args) == 2 {
				x, y := g.Args[0], g.Args[1]
				ab, ba := x == a && y == b, x == b && y == a
				if !ab && !ba {
					continue
				}
				switch g.Op {
				case "eq":
					if yes {
						eq = true
					}
				case "lt", "strlt":
					switch {
					case yes && ab:
						lt = true
					case yes && ba:
						gt = true
					case ab:
						nlt = true
					case ba:
						ngt = true
					}
				case "le":
					switch {
					case yes && ab:
						ngt = true
					case yes && ba:
						nlt = true
					}
				}
			}
		}
		if t != nil && isIntT(t) {
			lt = lt || decide(facts, ge0(addI(subT(b, a), -1))) == 1
			gt = gt || decide(facts, ge0(addI(subT(a, b), -1))) == 1
			nlt = nlt || decide(facts, ge0(subT(a, b))) == 1
			ngt = ngt || decide(facts, ge0(subT(b, a))) == 1
			eq = eq || decide(facts, eq0(subT(a, b))) == 1
		}
		neq := t != nil && isIntT(t) && decide(facts, eq0(subT(a, b))) == 0
		for _, f := range facts {
			if f.Op == "not" && f.Args[0].Op == "eq" {
				x, y := f.Args[0].Args[0], f.Args[0].Args[1]
				neq = neq || x == a && y == b || x == b && y == a
			}
		}
		switch {
		case eq || nlt && ngt:
			return 0
		case gt || nlt && neq:
			return 1
		case lt || ngt && neq:
			return -1
		case ngt:
			return 3
		case nlt:
			return 4
		}
		return 2
	}
	if r := try(a, b); r != 2 {
		return r
	}
	// the labels of two category numbers
	for _, f := range facts {
		out := 2
		f.walk(func(x *Term) bool {
			if arr, i := elem(x); arr != nil && i == a && out == 2 {
				if n := field(arr, "CatMap.Back"); n != nil {
					other := rewrite(x, func(y *Term) *Term {
						if y == a {
							return b
						}
						return nil
					})
					out = try(x, other)
				}
			}
			return true
		})
		if out != 2 {
			return out
		}
	}
	return 2
}

func init() {
	register(&Rule{ID: "C27", Min: 5,
		What: "every range over a map in the repository is found and its loop judged: a turn writes only to the place of its own key, or the same whatever the entry; it calls nothing with an effect; what the turns gather is a list that is sorted before anything else is done with it, a sum of whole numbers, a constant, or the entry that is greatest by value and, among equals, first by key (or by the category's label), proved turn by turn to be replaced exactly by a better entry; the loop is left early only without a trace of the entry met",
		Run:  func(c *Check) { c.mapOrder() }})
}
