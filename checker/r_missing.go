package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rootsOf lists the functions whose instructions satisfy is; unexported helpers and closures are
// replaced by the functions that call them, so a helper is judged in the places it serves.
func (c *Check) rootsOf(is func(f *ssa.Function) bool) (out []*ssa.Function) {
	callers := c.P.callersOf()
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Name() == "init" && f.Synthetic != "" {
			return
		}
		if f.Parent() != nil {
			add(f.Parent())
			return
		}
		if !token.IsExported(f.Name()) && len(callers[f]) > 0 {
			for _, g := range callers[f] {
				add(g)
			}
			return
		}
		out = append(out, f)
	}
	for _, f := range c.P.Funcs {
		if is(f) {
			add(f)
		}
	}
	return
}

func (p *Prog) callersOf() map[*ssa.Function][]*ssa.Function {
	if p.callers != nil {
		return p.callers
	}
	m := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						m[g] = append(m[g], f)
					}
				}
			}
		}
	}
	p.callers = m
	return m
}

// fieldRefs: the function takes the address of, or reads, one of the struct fields (Type.Field).
func fieldRefs(f *ssa.Function, names ...string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			n := ""
			switch x := in.(type) {
			case *ssa.FieldAddr:
				n = fieldName(x.X.Type(), x.Field)
			case *ssa.Field:
				n = fieldName(x.X.Type(), x.Field)
			}
			for _, w := range names {
				if n == w {
					return true
				}
			}
		}
	}
	return false
}

func fieldName(t types.Type, i int) string {
	st, name := structOf(t)
	if st == nil {
		return ""
	}
	return name + "." + st.Field(i).Name()
}

// writes: the function stores to, copies into, appends to or updates something of the given element type.
func writesType(f *ssa.Function, elem string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				n := typeName(x.Val.Type())
				if n == elem || n == "[]"+elem {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "append") {
					if typeName(x.Call.Args[0].Type()) == "[]"+elem {
						return true
					}
				}
			}
		}
	}
	return false
}

var featOpaque = opaque("DenseNumFeature.Mean", "DenseCatFeature.Modei", "DenseCatFeature.Mode", "FeatureMatrix.BestSplitter")

func missField(a *Term) *Term {
	if o := addrField(a, "DenseNumFeature.Missing"); o != nil {
		return o
	}
	return addrField(a, "DenseCatFeature.Missing")
}

func missLoad(t *Term) *Term {
	if o := field(t, "DenseNumFeature.Missing"); o != nil {
		return o
	}
	return field(t, "DenseCatFeature.Missing")
}

func flagField(a *Term) *Term {
	if o := addrField(a, "DenseNumFeature.HasMissing"); o != nil {
		return o
	}
	return addrField(a, "DenseCatFeature.HasMissing")
}

func flagLoad(t *Term) *Term {
	if o := field(t, "DenseNumFeature.HasMissing"); o != nil {
		return o
	}
	return field(t, "DenseCatFeature.HasMissing")
}

// owners maps the slices stored as Missing in the analysis to their features.
func (e *Exec) owners(is func(a *Term) *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if o := is(ev.Addr); o != nil && fresh(rootTerm(ev.Val)) {
					m[ev.Val] = o
				}
			}
		}
	})
	return m
}

func (c *Check) missingFlag() {
	roots := c.rootsOf(func(f *ssa.Function) bool {
		return fieldRefs(f, "DenseNumFeature.Missing", "DenseCatFeature.Missing", "DenseNumFeature.HasMissing", "DenseCatFeature.HasMissing") && writesType(f, "bool")
	})
	for _, f := range roots {
		e := c.run(f, "missing", Options{Opaque: featOpaque})
		if e == nil {
			continue
		}
		c.missingFlagIn(f, e)
	}
}

func (c *Check) missingFlagIn(f *ssa.Function, e *Exec) {
	name := strings.ReplaceAll(FuncName(f), " ", "")
	key := "missingflag/" + name
	own := e.owners(missField)
	feat := func(arr *Term) *Term {
		if arr == nil {
			return nil
		}
		if o := missLoad(arr); o != nil {
			return o
		}
		return own[arr]
	}
	e.each(func(cu *Cut, p *Path) {
		// the flag of feature x at the end of the path
		flag := func(x *Term) *Term {
			var v *Term
			for _, ev := range p.Events {
				if ev.Kind == "store" {
					if o := flagField(ev.Addr); o != nil && sameLoc(o, x) {
						v = ev.Val
					}
				}
			}
			return v
		}
		raised := func(x *Term) bool {
			v := flag(x)
			if v != nil {
				return v.isTrue()
			}
			for _, g := range p.All() {
				if o := flagLoad(g); o != nil && sameLoc(o, x) {
					return true
				}
			}
			return false
		}
		// the flag of x says at least what the flag of y says
		covers := func(x, y *Term) bool {
			if raised(x) {
				return true
			}
			v := flag(x)
			if v == nil {
				return false
			}
			if v.isFalse() {
				for _, g := range p.All() {
					if g.Op == "not" {
						if o := flagLoad(g.Args[0]); o != nil && sameLoc(o, y) {
							return true
						}
					}
				}
			}
			if o := flagLoad(v); o != nil && sameLoc(o, y) {
				return true
			}
			// the flag of one's own copy
			return false
		}
		for _, ev := range p.Events {
			switch ev.Kind {
			case "store":
				if x := missField(ev.Addr); x != nil {
					v := ev.Val
					ok := false
					switch {
					case v.Op == "makeslice" || v.Op == "nil" || isZero(lenT(v)):
						ok = true
					case v.Op == "append" && len(v.Args) == 2:
						y := feat(v.Args[0])
						ok = (y != nil && sameLoc(y, x) || isZero(lenT(v.Args[0])) || v.Args[0].Op == "makeslice" || v.Args[0].Op == "sym" || v.Args[0].Op == "append") && (v.Args[1].isFalse() || raised(x))
					case v.Op == "concat" || v.Op == "appendall":
						y := feat(v.Args[1])
						ok = y != nil && covers(x, y)
					default:
						// a slice made earlier
						ok = fresh(rootTerm(v)) && c.falseOrFlagged(e, p, v, x, raised(x))
					}
					if y := feat(v); y != nil && !sameLoc(x, y) && !fresh(rootTerm(v)) {
						ok = covers(x, y)
					}
					if !ok && v.Op == "append" {
						if y := feat(v.Args[len(v.Args)-1]); y != nil {
							ok = covers(x, y)
						}
					}
					if !ok {
						c.bad(key, instrPos(ev.In), "%s may store missing values (%v) in a feature without setting HasMissing", name, v)
					}
					c.ob(name, "missing values stored together with the flag")
				}
				if arr, idx := addrElem(ev.Addr); arr != nil {
					x := feat(arr)
					if x == nil {
						continue
					}
					v := ev.Val
					ok := v.isFalse() || raised(x)
					if a, _ := elem(v); a != nil {
						if y := feat(a); y != nil && (sameLoc(x, y) || covers(x, y) || c.flagElsewhere(e, x, y)) {
							ok = true
						}
					}
					_ = idx
					if !ok {
						c.bad(key, instrPos(ev.In), "%s marks a value missing without setting HasMissing", name)
					}
					c.ob(name, "missing values stored together with the flag")
				}
				if x := flagField(ev.Addr); x != nil {
					c.flagStore(name, key, e, p, ev, x, feat)
				}
			case "copy":
				x, y := feat(ev.Addr), feat(ev.Val)
				if x == nil && ev.Addr.Op == "slice" {
					x = feat(ev.Addr.Args[0])
				}
				if y == nil && ev.Val.Op == "slice" {
					y = feat(ev.Val.Args[0])
				}
				if x == nil {
					continue
				}
				if y == nil || !(sameLoc(x, y) || covers(x, y) || c.flagElsewhere(e, x, y)) {
					c.bad(key, instrPos(ev.In), "%s copies missing values without their HasMissing", name)
				}
				c.ob(name, "missing values copied together with the flag")
			}
		}
	})
}

// flagElsewhere: the flag of x is only ever set to that of y in this analysis, before or after.
func (c *Check) flagElsewhere(e *Exec, x, y *Term) bool {
	n, ok := 0, true
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if o := flagField(ev.Addr); o != nil && sameLoc(o, x) {
					n++
					if z := flagLoad(ev.Val); !(ev.Val.isTrue() || z != nil && sameLoc(z, y)) {
						ok = false
					}
				}
			}
		}
	})
	return ok && n > 0
}

func (c *Check) falseOrFlagged(e *Exec, p *Path, v, x *Term, raised bool) bool { return raised }

// flagStore decides writes of the flag itself: it may be lowered only where no value is missing.
func (c *Check) flagStore(name, key string, e *Exec, p *Path, ev *Event, x *Term, feat func(*Term) *Term) {
	c.ob(name, "the flag is lowered only where nothing is missing")
	v := ev.Val
	if v.isTrue() || flagLoad(v) != nil && sameLoc(flagLoad(v), x) {
		return
	}
	if x.Op == "alloc" && v.isFalse() {
		// a new feature: whatever is stored in it is judged by itself
		return
	}
	if y := flagLoad(v); y != nil {
		// only together with the values of that feature
		ok := false
		e.each(func(cu *Cut, q *Path) {
			for _, w := range q.Events {
				if w.Kind == "copy" && sameLoc(feat(w.Addr), x) && sameLoc(feat(w.Val), y) {
					ok = true
				}
				if w.Kind == "store" && missField(w.Addr) != nil && sameLoc(missField(w.Addr), x) && w.Val.contains(func(t *Term) bool { return missLoad(t) != nil && sameLoc(missLoad(t), y) }) {
					ok = true
				}
				if w.Kind == "store" {
					if a, _ := addrElem(w.Addr); a != nil && sameLoc(feat(a), x) {
						if b, _ := elem(w.Val); b != nil && sameLoc(feat(b), y) {
							ok = true
						}
					}
				}
			}
		})
		if !ok {
			c.bad(key, instrPos(ev.In), "%s takes HasMissing from another feature than the missing values", name)
		}
		return
	}
	if v.isFalse() {
		for _, g := range p.before(ev) {
			if g.Op == "not" && flagLoad(g.Args[0]) != nil && sameLoc(flagLoad(g.Args[0]), x) {
				return
			}
		}
		for _, k := range e.loopCuts() {
			_, back := e.into(k)
			ok := len(back) > 0
			var idx *Term
			for _, q := range back {
				found := false
				for _, w := range q.Events {
					if w.Kind == "store" {
						if a, i := addrElem(w.Addr); a != nil && sameLoc(feat(a), x) && w.Val.isFalse() && (idx == nil || idx == i) {
							idx, found = i, true
						}
					}
				}
				for _, g := range q.All() {
					if g.Op == "not" {
						if a, i := elem(g.Args[0]); a != nil && sameLoc(feat(a), x) && (idx == nil || idx == i) {
							idx, found = i, true
						}
					}
				}
				ok = ok && found
			}
			if !ok {
				continue
			}
			msg := e.countsAny(k, idx, func(t *Term) bool {
				if t.Op == "len" {
					return feat(t.Args[0]) != nil && sameLoc(feat(t.Args[0]), x)
				}
				return false
			})
			if msg == "" && e.unavoidable(p, k) {
				return
			}
		}
	}
	c.bad(key, instrPos(ev.In), "%s lowers HasMissing although values may still be missing", name)
}

// unavoidable: every execution that takes path p passes loop k before or after it.
func (e *Exec) unavoidable(p *Path, k *Cut) bool {
	reach := func(from *Cut, hit func(*Cut, *Path) bool) bool {
		seen := map[*Cut]bool{}
		var walk func(c *Cut) bool
		walk = func(c *Cut) bool {
			if c == k || seen[c] {
				return false
			}
			seen[c] = true
			for _, q := range c.Paths {
				if hit(c, q) || q.To != nil && walk(q.To) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	if !reach(e.Entry, func(_ *Cut, q *Path) bool { return q == p }) {
		return true
	}
	if p.To == nil {
		return false
	}
	return !reach(p.To, func(_ *Cut, q *Path) bool { return q.End == "return" })
}

func init() {
	register(&Rule{ID: "C01", Min: 20,
		What: "every instruction that stores, appends or copies a missing mark into a feature is paired on its path with raising (or copying) HasMissing of the same feature; HasMissing is lowered only after a loop that clears every mark",
		Run:  func(c *Check) { c.missingFlag() }})
}
