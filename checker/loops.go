package main

import (
	"sort"

	"strings"

	"golang.org/x/tools/go/ssa"
)

// next substitutes the values a path passes on for the loop variables at its end.
func (p *Path) next(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.Op == "sym" {
			if v, ok := p.Phi[x]; ok {
				return v
			}
		}
		return nil
	})
}

// holds: the conditions known on the path imply g.
func (p *Path) holds(g *Term) bool { return decide(p.All(), g) == 1 }

// before: the conditions established before an event.
func (p *Path) before(ev *Event) []*Term {
	out := append([]*Term(nil), p.From.In.facts...)
	return append(out, p.Guards[:ev.NG]...)
}

func decide(facts []*Term, g *Term) int {
	st := &State{known: map[int]bool{}}
	for _, f := range facts {
		st.known[f.ID] = true
	}
	st.guards = facts
	return st.truth(g)
}

// members returns the cuts that belong to the loop at k (k itself, cuts of inner loops and of callees).
func (e *Exec) members(k *Cut) map[*Cut]bool {
	m := map[*Cut]bool{k: true}
	for _, d := range e.Cuts {
		if d != k && k.inLoop(d) && !(d.Ctx == k.Ctx && d.B == k.B) {
			m[d] = true
		}
	}
	return m
}

// loopCuts lists the loop headers reached, in order.
func (e *Exec) loopCuts() (out []*Cut) {
	for _, c := range e.Cuts {
		if c.Loop && c.In != nil {
			out = append(out, c)
		}
	}
	return
}

// into lists the paths that enter cut k from outside its loop; back those that return to it.
func (e *Exec) into(k *Cut) (enter, back []*Path) {
	m := e.members(k)
	for _, c := range e.Cuts {
		for _, p := range c.Paths {
			if p.To == k {
				if m[c] {
					back = append(back, p)
				} else {
					enter = append(enter, p)
				}
			}
		}
	}
	return
}

// leaving lists the paths from the loop of k that go on after it.
func (e *Exec) leaving(k *Cut) (out []*Path) {
	m := e.members(k)
	for c := range m {
		for _, p := range c.Paths {
			if p.To == nil || !m[p.To] {
				out = append(out, p)
			}
		}
	}
	return
}

// counts decides whether the loop at k lets idx run over exactly 0..n-1, in either direction and
// without leaving early. Paths that end in a panic or in the end of the program do not count.
func (e *Exec) counts(k *Cut, idx, n *Term) string {
	return e.countsIn(k, idx, intT(0), n)
}

// countsIn decides the same of lo..n-1.
func (e *Exec) countsIn(k *Cut, idx, lo, n *Term) string {
	if k == nil || !k.Loop {
		return "no loop"
	}
	enter, back := e.into(k)
	if len(back) == 0 || len(enter) == 0 {
		return "no loop"
	}
	dir := int64(0)
	for _, p := range back {
		var d int64
		ok := false
		if p.From == k {
			d, ok = subT(p.next(idx), idx).intc()
		} else {
			// through an inner loop: the variable must come from the cut's own symbols
			d, ok = subT(e.plain(p.next(idx)), idx).intc()
		}
		if !ok || (d != 1 && d != -1) || (dir != 0 && d != dir) {
			return "the loop variable " + idx.String() + " does not advance by one on every iteration"
		}
		dir = d
	}
	for _, p := range enter {
		v := p.next(idx)
		want := lo
		if dir < 0 {
			want = addI(n, -1)
		}
		if !sameVal(p, v, want) {
			return "the loop starts at " + v.String() + " and not at " + want.String()
		}
	}
	var stop, cont *Term
	if dir > 0 {
		stop, cont = ge0(subT(idx, n)), ge0(addI(subT(n, idx), -1))
	} else {
		stop, cont = ge0(addI(subT(lo, idx), -1)), ge0(subT(idx, lo))
	}
	// a loop until the bound is met exactly does the same, unless the bound is behind its start, when it
	// runs out of whatever it visits
	met := eq0(subT(idx, n))
	if dir < 0 {
		met = eq0(addI(subT(idx, lo), 1))
	}
	m := e.members(k)
	for c := range m {
		for _, p := range c.Paths {
			if p.To != nil && m[p.To] {
				if c == k && !p.holds(cont) && !p.holds(notT(met)) {
					return "an iteration is not guarded by " + cont.String()
				}
				continue
			}
			if p.End == "panic" || p.End == "exit" || e.tolerate != nil && e.tolerate(p) {
				continue
			}
			if c != k || !p.holds(stop) && !p.holds(met) {
				return "the loop is left before all of " + n.String() + " are visited"
			}
		}
	}
	return ""
}

// plain replaces symbols that are only copies of another value by that value.
func (e *Exec) plain(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.Op == "sym" {
			if v := e.copyOf(x); v != x {
				return v
			}
		}
		return nil
	})
}

// copyOf: the one value that a symbol is merged from, or the symbol. A symbol that two different values
// are merged into stands for itself.
func (e *Exec) copyOf(s *Term) *Term {
	if s.Op != "sym" {
		return s
	}
	if e.copied == nil {
		e.copied = map[*Term]*Term{}
		e.phiIn(s)
		var syms []*Term
		for x := range e.phiFrom {
			syms = append(syms, x)
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i].ID < syms[j].ID })
		one := func(x *Term) (out *Term) {
			for _, v := range e.phiFrom[x] {
				if v == x {
					continue
				}
				if _, in := e.phiFrom[v]; in && v.Op == "sym" {
					v = e.copied[v] // nil when not known yet
				}
				switch {
				case v == nil || v == x:
				case out == nil:
					out = v
				case out != v:
					return x
				}
			}
			return
		}
		for again := true; again; {
			again = false
			for _, x := range syms {
				if e.copied[x] == x {
					continue
				}
				if v := one(x); v != nil && e.copied[x] != v {
					e.copied[x] = v
					again = true
				}
			}
		}
		// what looked like two values may have turned out to be one
		for again := true; again; {
			again = false
			for _, x := range syms {
				if e.copied[x] != x {
					if v := one(x); v != nil && v != x && e.copied[x] != v {
						e.copied[x] = v
						again = true
					}
					continue
				}
				if v := one(x); v != nil && v != x {
					e.copied[x] = v
					again = true
				}
			}
		}
	}
	if v := e.copied[s]; v != nil {
		return v
	}
	return s
}

// phiIn lists the values merged into a symbol.
func (e *Exec) phiIn(s *Term) []*Term {
	if e.phiFrom == nil {
		e.phiFrom = map[*Term][]*Term{}
		seen := map[[2]*Term]bool{}
		e.each(func(cu *Cut, p *Path) {
			for x, v := range p.Phi {
				if !seen[[2]*Term{x, v}] {
					seen[[2]*Term{x, v}] = true
					e.phiFrom[x] = append(e.phiFrom[x], v)
				}
			}
		})
	}
	return e.phiFrom[s]
}

// sameVal compares two values under the conditions of a path.
func sameVal(p *Path, a, b *Term) bool {
	if a == b || strip(a) == strip(b) {
		return true
	}
	for _, g := range p.All() {
		if g.Op == "isnil" {
			l := mk("len", "", g.Args[0])
			if isZero(a) && strip(b) == strip(l) || isZero(b) && strip(a) == strip(l) {
				return true
			}
		}
	}
	return p.holds(eq0(subT(a, b)))
}

// ---- term matchers ------------------------------------------------------------

// field matches a read of a struct field "Type.Field" and returns the object.
func field(t *Term, name string) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "load" && t.Args[0].Op == "fieldaddr" && fieldIs(t.Args[0].S, name) {
		return t.Args[0].Args[0]
	}
	if t.Op == "field" && fieldIs(t.S, name) {
		return t.Args[0]
	}
	return nil
}

func fieldIs(s, name string) bool {
	if s == name {
		return true
	}
	if strings.HasPrefix(name, ".") {
		return strings.HasSuffix(s, name)
	}
	return false
}

// elem matches a read of an element and returns the array and the index.
func elem(t *Term) (arr, idx *Term) {
	if t == nil {
		return nil, nil
	}
	if t.Op == "load" && t.Args[0].Op == "indexaddr" {
		return t.Args[0].Args[0], t.Args[0].Args[1]
	}
	if t.Op == "index" {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

// elemField matches obj.Field[idx].
func elemField(t *Term, name string) (obj, idx *Term) {
	a, i := elem(t)
	if a == nil {
		return nil, nil
	}
	o := field(a, name)
	if o == nil {
		return nil, nil
	}
	return o, i
}

// addrField matches the address of obj.Field.
func addrField(a *Term, name string) *Term {
	if a != nil && a.Op == "fieldaddr" && fieldIs(a.S, name) {
		return a.Args[0]
	}
	return nil
}

// addrElem matches the address of arr[idx].
func addrElem(a *Term) (arr, idx *Term) {
	if a != nil && a.Op == "indexaddr" {
		return a.Args[0], a.Args[1]
	}
	return nil, nil
}

// isCall matches the result of a call by the end of the callee's name.
func isCall(t *Term, name string) []*Term {
	if t != nil && t.Op == "extract" {
		return nil
	}
	if t != nil && t.Op == "call" && (t.S == name || strings.HasSuffix(t.S, "."+name) || strings.HasSuffix(t.S, ")."+name)) {
		return t.Args
	}
	return nil
}

// unwrapped removes interface conversions.
func unwrapped(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// recv returns the receiver symbol of the analysed method.
func (e *Exec) param(i int) *Term {
	ps := e.Root.Params
	if i >= len(ps) {
		return nil
	}
	return e.Entry.In.env[vkey{e.Entry.Ctx, ps[i]}]
}

func sameLoc(a, b *Term) bool { return a != nil && b != nil && (a == b || strip(a) == strip(b)) }

func fnOf(in ssa.Instruction) string {
	if in == nil || in.Parent() == nil {
		return "-"
	}
	return FuncName(in.Parent())
}

// opaque keeps the named functions ("Type.Method" or "func") as calls.
func opaque(names ...string) func(f *ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function) bool { return m[shortName(f)] || m["*."+f.Name()] }
}

// shortName is Type.Method or func without package and pointer.
func shortName(f *ssa.Function) string {
	n := FuncName(f)
	n = strings.NewReplacer("(*", "", ")", "", "(", "").Replace(n)
	return n
}

// everyTurn: no turn of loop k (from its head back to its head) avoids the paths accepted by hit.
func (e *Exec) everyTurn(k *Cut, hit func(*Path) bool) bool {
	m := e.members(k)
	seen := map[*Cut]bool{}
	var walk func(d *Cut) bool
	walk = func(d *Cut) bool {
		if seen[d] {
			return true
		}
		seen[d] = true
		for _, p := range d.Paths {
			if p.To == nil || !m[p.To] || hit(p) {
				continue
			}
			if p.To == k || !walk(p.To) {
				return false
			}
		}
		return true
	}
	return walk(k)
}
