package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- where the elements of a list come from --------------------------------------------------

// gathered is everything that can have ended up in a list: the appends, and what it was before them.
type gathered struct {
	e       *Exec
	seen    map[*Term]bool
	appends []appendSite
	empty   int     // times it starts out empty
	other   []*Term // anything else it can be
	calls   []*Event
	callIn  []*Path
	values  map[*Term]bool // the list at its various stages
	cells   map[*Term]bool
}

type appendSite struct {
	p     *Path
	ev    *Event
	elems []*Term
	all   bool // another list's elements
}

// gather follows a list back over the turns of its loops, the variables it is kept in and its appends.
func (e *Exec) gather(t *Term) *gathered {
	g := &gathered{e: e, seen: map[*Term]bool{}, values: map[*Term]bool{}, cells: map[*Term]bool{}}
	g.from(t)
	return g
}

func (g *gathered) from(t *Term) {
	if t == nil || g.seen[t] {
		return
	}
	g.seen[t] = true
	g.values[t] = true
	switch t.Op {
	case "append", "appendall":
		g.e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				if ev.Kind == "append" && ev.Val == t {
					g.appends = append(g.appends, appendSite{p, ev, ev.Args, t.Op == "appendall"})
				}
			}
		})
		g.from(t.Args[0])
		return
	case "nil", "makeslice", "slice":
		if emptyList(t) {
			g.empty++
			return
		}
	case "sym":
		hit := false
		g.e.each(func(cu *Cut, p *Path) {
			if v, ok := p.Phi[t]; ok {
				hit = true
				g.from(v)
			}
		})
		if hit {
			return
		}
	case "load":
		if t.Args[0].Op == "alloc" {
			g.cell(t.Args[0])
			return
		}
	}
	g.other = append(g.other, t)
}

// cell: the list may be whatever was ever stored in the variable.
func (g *gathered) cell(a *Term) {
	if g.cells[a] {
		return
	}
	g.cells[a] = true
	g.e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == a {
				g.from(ev.Val)
			}
			if ev.Kind == "call" {
				for _, x := range ev.Args {
					if x == a {
						g.calls = append(g.calls, ev)
						g.callIn = append(g.callIn, p)
					}
				}
			}
		}
	})
}

// holdsIn: the conditions established before an event imply c.
func (p *Path) holdsBefore(ev *Event, c *Term) bool { return decide(p.before(ev), c) == 1 }

// reaches: from the start of the analysis some run of the paths not in avoid gets to one that is goal.
// A path in avoid is never a goal.
func (e *Exec) reaches(avoid, goal func(p *Path) bool) *Path {
	return e.reachesFrom(e.Entry, avoid, goal)
}

func (e *Exec) reachesFrom(k *Cut, avoid, goal func(p *Path) bool) *Path {
	seen := map[*Cut]bool{}
	var hit *Path
	var walk func(d *Cut)
	walk = func(d *Cut) {
		if seen[d] || hit != nil {
			return
		}
		seen[d] = true
		for _, p := range d.Paths {
			if hit != nil {
				return
			}
			if avoid != nil && avoid(p) {
				continue
			}
			if goal(p) {
				hit = p
				return
			}
			if p.To != nil {
				walk(p.To)
			}
		}
	}
	walk(k)
	return hit
}

// oncePerTurn: within one turn of loop k at most one path is hit.
func (e *Exec) oncePerTurn(k *Cut, hit func(*Path) int) bool {
	m := e.members(k)
	type st struct {
		d *Cut
		n int
	}
	seen := map[st]bool{}
	ok := true
	var walk func(d *Cut, n int)
	walk = func(d *Cut, n int) {
		if seen[st{d, n}] || !ok {
			return
		}
		seen[st{d, n}] = true
		for _, p := range d.Paths {
			if p.To == nil || !m[p.To] {
				continue
			}
			h := n + hit(p)
			if h > 1 {
				ok = false
				return
			}
			if p.To != k {
				walk(p.To, h)
			}
		}
	}
	walk(k, 0)
	return ok
}

// ---- the growforest command ------------------------------------------------------------------

// command analyses the main function of one of the programs with the package's own functions left
// as calls, so that what the program does with them is what is seen.
func (c *Check) command(pkg string) *Exec {
	f := c.fn(pkg, "main")
	if f == nil {
		return nil
	}
	root := c.P.Pkgs[RepoPath]
	return c.run(f, "command", Options{GoInline: true, Opaque: func(g *ssa.Function) bool {
		return g.Pkg != nil && g.Pkg.Pkg == root || g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/stats") || g.Pkg == nil && g.Object() != nil && g.Object().Pkg() == root
	}})
}

// flag gives the variable a command line flag is kept in.
func (e *Exec) flag(name string) *Term {
	var a *Term
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "flag.") || len(ev.Args) < 2 {
				continue
			}
			if strings.HasSuffix(ev.Name, "Var") {
				if s, ok := ev.Args[1].str(); ok && s == name {
					a = ev.Args[0]
				}
			} else if s, ok := ev.Args[0].str(); ok && s == name {
				a = ev.Res
			}
		}
	})
	return a
}

func isLoadOf(t, a *Term) bool { return t != nil && a != nil && t.Op == "load" && t.Args[0] == a }

// flagEmpty: on the path the text of a flag is known to be empty.
func (p *Path) flagEmpty(a *Term) bool {
	hit := false
	for _, g := range p.All() {
		g.walk(func(x *Term) bool {
			if isLoadOf(x, a) && !hit && p.holds(ge0(negT(lenT(x)))) {
				hit = true
			}
			return true
		})
	}
	return hit
}

// flagOff: on the path a boolean flag is known to be off.
func (p *Path) flagOff(a *Term) bool {
	hit := false
	for _, g := range p.All() {
		g.walk(func(x *Term) bool {
			if isLoadOf(x, a) && !hit && p.holds(notT(x)) {
				hit = true
			}
			return true
		})
	}
	return hit
}

// grows selects the calls that grow a tree.
func (p *Path) grows() (out []*Event) {
	for _, ev := range p.Events {
		if ev.Kind == "call" && len(ev.Args) > 5 && (nameIs(ev.Name, "Grow") || nameIs(ev.Name, "GrowJungle")) {
			out = append(out, ev)
		}
	}
	return
}

// ascends: the loop's variable starts at 0.
func (e *Exec) ascends(k *Cut, idx *Term) bool {
	enter, _ := e.into(k)
	for _, p := range enter {
		if !sameVal(p, p.next(idx), intT(0)) {
			return false
		}
	}
	return len(enter) > 0
}

// does: one of the events is on the path.
func (p *Path) does(evs map[*Event]bool) bool {
	for _, ev := range p.Events {
		if evs[ev] {
			return true
		}
	}
	return false
}
