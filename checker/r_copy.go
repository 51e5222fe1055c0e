package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// finals computes, for every path, the values a field of an object may have when the path ends
// (nil in the set: never stored so far).
func (e *Exec) finals(is func(addr *Term) bool) map[*Path]map[*Term]bool {
	in := map[*Cut]map[*Term]bool{e.Entry: {nil: true}}
	out := map[*Path]map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for _, c := range e.Cuts {
			if in[c] == nil {
				continue
			}
			for _, p := range c.Paths {
				var last *Term
				for _, ev := range p.Events {
					if ev.Kind == "store" && is(ev.Addr) {
						last = ev.Val
					}
				}
				s := in[c]
				if last != nil {
					s = map[*Term]bool{last: true}
				}
				out[p] = s
				if p.To != nil {
					t := in[p.To]
					if t == nil {
						t = map[*Term]bool{}
						in[p.To] = t
						changed = true
					}
					for v := range s {
						if !t[v] {
							t[v] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return out
}

// without: some execution ends with path p and never takes a path accepted by hit.
func (e *Exec) without(p *Path, hit func(*Path) bool) bool {
	if hit(p) {
		return false
	}
	seen := map[*Cut]bool{}
	var walk func(c *Cut) bool
	walk = func(c *Cut) bool {
		if seen[c] {
			return false
		}
		seen[c] = true
		for _, q := range c.Paths {
			if hit(q) {
				continue
			}
			if q == p || q.To != nil && walk(q.To) {
				return true
			}
		}
		return false
	}
	return walk(e.Entry)
}

// onlyVal: the single value a field of obj has at the end of p ("" fields match by suffix).
func (e *Exec) onlyVal(p *Path, obj *Term, name string) *Term {
	m := e.finals(func(a *Term) bool { o := addrField(a, name); return o != nil && o == obj })[p]
	if len(m) != 1 {
		return nil
	}
	for v := range m {
		return v
	}
	return nil
}

var dataFields = map[string]string{"DenseNumFeature": "NumData", "DenseCatFeature": "CatData"}

func featureType(name string) string { return name }

// isLenOf: n is the number of cases of feature f or the length of slice s.
func isLenOf(n, s *Term, f *Term) bool {
	if n == lenT(s) || strip(n) == strip(lenT(s)) {
		return true
	}
	if n.Op == "len" {
		for _, nm := range []string{"DenseNumFeature.Missing", "DenseCatFeature.Missing", "DenseNumFeature.NumData", "DenseCatFeature.CatData"} {
			if o := field(n.Args[0], nm); o != nil && sameLoc(o, f) {
				return true
			}
		}
	}
	if a := isCall(n, "Length"); a != nil && sameLoc(unwrapped(a[0]), f) {
		return true
	}
	return false
}

// filled: array a holds exactly the elements of src before path end, and nothing else is stored in it.
// of is the feature src belongs to. store decides the value stored for an index when it is not a plain copy.
func (c *Check) filled(e *Exec, a *Term, end *Path, isSrc func(*Term) bool, of *Term, val func(p *Path, v, idx *Term) bool) string {
	if a == nil {
		return "is not always set"
	}
	whole := false
	switch {
	case a.Op == "appendall" && len(a.Args) == 2 && isZero(lenT(a.Args[0])) && isSrc(a.Args[1]):
		whole = true
	case a.Op == "makeslice":
		if !isLenOf(lenT(a), a, of) {
			return "has another length than the feature"
		}
	default:
		if !fresh(rootTerm(a)) {
			return "is not a new slice"
		}
	}
	okPaths := map[*Path]bool{}
	loops := map[*Cut]bool{}
	msg := ""
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			switch ev.Kind {
			case "copy":
				d := ev.Addr
				if d == a || d.Op == "slice" && d.Args[0] == a {
					if isSrc(ev.Val) && d == a && !whole {
						okPaths[p] = true
					} else {
						msg = "receives other values"
					}
				}
			case "store":
				if b, idx := addrElem(ev.Addr); b == a {
					if p.overwritten(ev) {
						continue
					}
					if val == nil || !val(p, ev.Val, idx) {
						msg = "receives other values"
					}
					k := e.phiCut(anySym(idx))
					if k == nil {
						msg = "is filled outside a loop"
						continue
					}
					loops[k] = true
				}
			}
		}
	})
	if msg != "" {
		return msg
	}
	for k := range loops {
		_, back := e.into(k)
		var idx *Term
		n := 0
		for _, p := range back {
			for _, ev := range p.Events {
				if ev.Kind == "store" {
					if b, i := addrElem(ev.Addr); b == a {
						idx = i
						n++
					}
				}
			}
		}
		if n == 0 {
			return "is not filled on every iteration"
		}
		if m := e.countsAny(k, idx, func(t *Term) bool { return isLenOf(t, a, of) || t.Op == "len" && isSrc(t.Args[0]) }); m != "" {
			return "is not filled completely: " + m
		}
		for _, p := range back {
			if !c.covers(p, a, idx, val) {
				return "is not filled on every iteration"
			}
		}
		for _, p := range e.leaving(k) {
			okPaths[p] = true
		}
	}
	if whole {
		return ""
	}
	if e.without(end, func(p *Path) bool { return okPaths[p] }) {
		return "is not always filled"
	}
	return ""
}

// overwritten: a later store of the path goes to the same address.
func (p *Path) overwritten(ev *Event) bool {
	later := false
	for _, w := range p.Events {
		if w == ev {
			later = true
		} else if later && w.Kind == "store" && w.Addr == ev.Addr {
			return true
		}
	}
	return false
}

// covers: iteration p stores element idx, or leaves a zero element where zero is right.
func (c *Check) covers(p *Path, a, idx *Term, val func(p *Path, v, idx *Term) bool) bool {
	for _, ev := range p.Events {
		if ev.Kind == "store" {
			if b, i := addrElem(ev.Addr); b == a && i == idx {
				return true
			}
		}
	}
	return a.Op == "makeslice" && val(p, intT(0), idx)
}

func anySym(t *Term) (s *Term) {
	if t == nil {
		return nil
	}
	t.walk(func(x *Term) bool {
		if s == nil && x.Op == "sym" && x.V != nil {
			if _, ok := x.V.(*Cut); ok {
				s = x
			}
		}
		return s == nil
	})
	return
}

// copyOf decides that new is a feature of type typ with the missing marks and values of f, sharing nothing with it.
// data is nil when the values are checked elsewhere.
func (c *Check) copyOf(key, name string, f *ssa.Function, e *Exec, end *Path, obj, src *Term, typ, srcTyp string, plain bool) {
	pos := f.Pos()
	if end.RetIn != nil {
		pos = instrPos(end.RetIn)
	}
	fieldOf := func(nm string) func(*Term) bool {
		return func(t *Term) bool { o := field(t, srcTyp+"."+nm); return o != nil && sameLoc(o, src) }
	}
	same := func(isArr func(*Term) bool) func(p *Path, v, idx *Term) bool {
		return func(p *Path, v, idx *Term) bool {
			b, i := elem(v)
			return b != nil && isArr(b) && i == idx
		}
	}
	c.ob(name, "the new feature has its own missing marks, all copied")
	if m := c.filled(e, e.onlyVal(end, obj, typ+".Missing"), end, fieldOf("Missing"), src, same(fieldOf("Missing"))); m != "" {
		c.bad(key, pos, "%s: the Missing slice of the new feature %s", name, m)
	}
	if plain {
		c.ob(name, "the new feature has its own values, all copied")
		d := dataFields[typ]
		if m := c.filled(e, e.onlyVal(end, obj, typ+"."+d), end, fieldOf(d), src, same(fieldOf(d))); m != "" {
			c.bad(key, pos, "%s: the %s of the new feature %s", name, d, m)
		}
	}
	if typ != "DenseCatFeature" {
		return
	}
	c.ob(name, "the random-search setting is kept")
	if v := e.onlyVal(end, obj, typ+".RandomSearch"); v == nil || !fieldOf("RandomSearch")(v) {
		c.bad(key, pos, "%s: the RandomSearch setting is not kept", name)
	}
	if !plain {
		return
	}
	cm := e.onlyVal(end, obj, typ+".CatMap")
	c.ob(name, "the new feature has its own label tables, all copied")
	if cm == nil || !cm.isAlloc() {
		c.bad(key, pos, "%s: the new feature does not have its own CatMap", name)
		return
	}
	isBack := func(t *Term) bool {
		o := field(t, "CatMap.Back")
		return o != nil && fieldOf("CatMap")(o)
	}
	back := e.onlyVal(end, cm, "CatMap.Back")
	if back == nil || !(isZero(subT(lenT(back), lenOfBack(back, isBack))) || back.Op == "appendall") {
		c.bad(key, pos, "%s: the label list of the new feature is not its own complete list", name)
	} else if m := c.filledList(e, back, end, isBack); m != "" {
		c.bad(key, pos, "%s: the label list of the new feature %s", name, m)
	}
	mp := e.onlyVal(end, cm, "CatMap.Map")
	if mp == nil || mp.Op != "makemap" {
		c.bad(key, pos, "%s: the label map of the new feature is not its own", name)
		return
	}
	isMap := func(t *Term) bool {
		o := field(t, "CatMap.Map")
		return o != nil && fieldOf("CatMap")(o)
	}
	if m := c.mapFilled(e, mp, end, isMap, isBack); m != "" {
		c.bad(key, pos, "%s: the label map of the new feature %s", name, m)
	}
}

func lenOfBack(back *Term, isBack func(*Term) bool) *Term {
	n := lenT(back)
	if n.Op == "len" && isBack(n.Args[0]) {
		return n
	}
	return addI(n, 1)
}

// filledList: like filled, for a slice made with the length of its source.
func (c *Check) filledList(e *Exec, a *Term, end *Path, isSrc func(*Term) bool) string {
	if a.Op == "appendall" {
		if len(a.Args) == 2 && isZero(lenT(a.Args[0])) && isSrc(a.Args[1]) {
			return ""
		}
		return "is not the list of the original"
	}
	ok := map[*Path]bool{}
	bad := false
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			switch ev.Kind {
			case "copy":
				if ev.Addr == a && isSrc(ev.Val) {
					ok[p] = true
				} else if rootTerm(ev.Addr) == a {
					bad = true
				}
			case "store":
				if b, idx := addrElem(ev.Addr); b == a {
					s, i := elem(ev.Val)
					if s == nil || !isSrc(s) || i != idx {
						bad = true
						continue
					}
					if k := e.phiCut(anySym(idx)); k != nil && e.countsAny(k, idx, func(t *Term) bool { return t == lenT(a) || t.Op == "len" && isSrc(t.Args[0]) }) == "" {
						_, back := e.into(k)
						full := true
						for _, q := range back {
							full = full && c.covers(q, a, idx, func(*Path, *Term, *Term) bool { return false })
						}
						if full {
							for _, q := range e.leaving(k) {
								ok[q] = true
							}
						}
					}
				}
			}
		}
	})
	if bad {
		return "receives other labels"
	}
	if e.without(end, func(p *Path) bool { return ok[p] }) {
		return "is not always filled"
	}
	return ""
}

// mapFilled: map m gets every entry of the source map (ranging over it, or over the label list) and no other.
func (c *Check) mapFilled(e *Exec, m *Term, end *Path, isMap, isBack func(*Term) bool) string {
	ok := map[*Path]bool{}
	bad := false
	rangeOf := func(t *Term) *Term {
		if t != nil && t.Op == "extract" && t.Args[0].Op == "next" && t.Args[0].Args[0].Op == "range" {
			return t.Args[0]
		}
		return nil
	}
	var ks []*Cut
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "mapupdate" || ev.Addr != m {
				continue
			}
			kk, vv := ev.Args[0], ev.Val
			if n := rangeOf(kk); n != nil && rangeOf(vv) == n && kk.S == "1" && vv.S == "2" && isMap(n.Args[0].Args[0]) {
				ks = append(ks, cu)
				continue
			}
			if b, i := elem(kk); b != nil && isBack(b) && i == vv {
				if k := e.phiCut(anySym(i)); k != nil && e.countsAny(k, i, func(t *Term) bool { return t.Op == "len" && isBack(t.Args[0]) }) == "" {
					full := true
					_, back := e.into(k)
					for _, q := range back {
						f := false
						for _, w := range q.Events {
							f = f || w.Kind == "mapupdate" && w.Addr == m
						}
						full = full && f
					}
					if full {
						for _, q := range e.leaving(k) {
							ok[q] = true
						}
						continue
					}
				}
			}
			bad = true
		}
	})
	if bad {
		return "receives other entries"
	}
	for _, k := range ks {
		full := true
		_, back := e.into(k)
		for _, q := range back {
			f := false
			for _, w := range q.Events {
				f = f || w.Kind == "mapupdate" && w.Addr == m
			}
			full = full && f
		}
		for _, q := range e.leaving(k) {
			done := false
			for _, g := range q.Guards {
				if g.Op == "not" && rangeOf(g.Args[0]) != nil && g.Args[0].S == "0" {
					done = true
				}
			}
			full = full && done
		}
		if full {
			for _, q := range e.leaving(k) {
				ok[q] = true
			}
		}
	}
	if e.without(end, func(p *Path) bool { return ok[p] }) {
		return "is not always filled"
	}
	return ""
}

func (c *Check) copies() {
	for _, typ := range []string{"DenseNumFeature", "DenseCatFeature"} {
		for _, mn := range []string{"Copy", "ShuffledCopy"} {
			f := c.method(typ, mn)
			if f == nil {
				continue
			}
			name := typ + "." + mn
			key := "copies/" + name
			e := c.run(f, "copy", Options{Opaque: opaque("DenseNumFeature.Shuffle", "DenseCatFeature.Shuffle", "DenseNumFeature.ShuffleCases", "DenseCatFeature.ShuffleCases")})
			if e == nil {
				continue
			}
			recv := e.param(0)
			n := 0
			e.each(func(cu *Cut, p *Path) {
				if p.End != "return" {
					return
				}
				n++
				obj := unwrapped(p.Ret[0])
				if !obj.isAlloc() {
					c.bad(key, instrPos(p.RetIn), "%s does not return a new feature but %v", name, obj)
					return
				}
				c.copyOf(key, name, f, e, p, obj, recv, typ, typ, true)
				nm := e.onlyVal(p, obj, typ+".Name")
				want := func(t *Term) bool { o := field(t, typ+".Name"); return o != nil && sameLoc(o, recv) }
				c.ob(name, "the name of the new feature")
				switch mn {
				case "Copy":
					if nm == nil || !want(nm) {
						c.bad(key, instrPos(p.RetIn), "%s: the copy does not keep the name", name)
					}
				case "ShuffledCopy":
					if nm == nil || nm.Op != "concat" || !want(nm.Args[0]) || nm.Args[1].String() != `":SHUFFLED"` {
						c.bad(key, instrPos(p.RetIn), "%s: the shuffled copy is not named after the feature with :SHUFFLED", name)
					}
					c.ob(name, "the copy is shuffled")
					if e.without(p, func(q *Path) bool {
						for _, ev := range q.calls("Shuffle") {
							if len(ev.Args) > 0 && unwrapped(ev.Args[0]) == obj {
								return true
							}
						}
						return false
					}) {
						c.bad(key, instrPos(p.RetIn), "%s does not always shuffle the copy", name)
					}
				}
				e.each(func(_ *Cut, q *Path) {
					for _, ev := range q.Events {
						if ev.Kind == "call" && !(mn == "ShuffledCopy" && nameIs(ev.Name, "Shuffle")) {
							for _, a := range ev.Args {
								if unwrapped(a) == recv || unwrapped(a) == obj {
									c.bad(key, instrPos(ev.In), "undecided: %s passes the feature to %s", name, ev.Name)
								}
							}
						}
					}
				})
			})
			if n == 0 {
				c.bad(key, f.Pos(), "%s never returns", name)
			}
			c.untouched(key, name, e, recv)
		}
		c.copyInto(typ)
	}
	c.encode("EncodeToNum", "DenseNumFeature")
	c.encode("OneHot", "DenseCatFeature")
}

// untouched: nothing reachable from the source feature is written.
func (c *Check) untouched(key, name string, e *Exec, src *Term) {
	c.ob(name, "the source feature is not changed")
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			switch ev.Kind {
			case "store", "copy", "mapupdate":
				if r := rootTerm(ev.Addr); r == src || r.Op == "sym" {
					c.bad(key, instrPos(ev.In), "%s writes %v, which is not new", name, ev.Addr)
				}
			}
		}
	})
}

func (c *Check) copyInto(typ string) {
	f := c.method(typ, "CopyInTo")
	if f == nil {
		return
	}
	name := typ + ".CopyInTo"
	key := "copies/" + name
	e := c.run(f, "copyinto", Options{})
	if e == nil {
		return
	}
	recv, dst := e.param(0), e.param(1)
	isDst := func(o *Term) bool {
		for o != nil && o.Op == "typeassert" {
			o = o.Args[0]
		}
		return o == dst
	}
	for _, d := range []string{"Missing", dataFields[typ]} {
		c.ob(name, d+" is copied case by case")
		ok := map[*Path]bool{}
		isSrc := func(t *Term) bool { o := field(t, typ+"."+d); return o != nil && sameLoc(o, recv) }
		isArr := func(t *Term) bool { o := field(t, typ+"."+d); return o != nil && isDst(o) }
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				switch ev.Kind {
				case "copy":
					if isArr(ev.Addr) {
						if isSrc(ev.Val) {
							ok[p] = true
						} else {
							c.bad(key, instrPos(ev.In), "%s fills %s with %v", name, d, ev.Val)
						}
					}
				case "store":
					if o := addrField(ev.Addr, typ+"."+d); o != nil {
						v := ev.Val
						if isDst(o) && v.Op == "appendall" && len(v.Args) == 2 && isSrc(v.Args[1]) && isZero(lenT(v.Args[0])) && !isSrc(rootTerm(v)) {
							ok[p] = true
						} else {
							c.bad(key, instrPos(ev.In), "%s replaces %s by %v", name, d, v)
						}
					}
					if b, idx := addrElem(ev.Addr); b != nil && isArr(b) {
						s, i := elem(ev.Val)
						k := e.phiCut(anySym(idx))
						if s == nil || !isSrc(s) || i != idx || k == nil {
							c.bad(key, instrPos(ev.In), "%s stores %v at %v in %s", name, ev.Val, idx, d)
							continue
						}
						m := e.countsAny(k, idx, func(t *Term) bool {
							return isLenOf(t, mk("none", ""), recv) || t.Op == "len" && field(t.Args[0], typ+"."+d) != nil
						})
						_, back := e.into(k)
						for _, q := range back {
							f := false
							for _, w := range q.Events {
								if w.Kind == "store" {
									if b, i := addrElem(w.Addr); b != nil && isArr(b) && i == idx {
										f = true
									}
								}
							}
							if !f {
								m = "an iteration copies nothing"
							}
						}
						if m != "" {
							c.bad(key, instrPos(ev.In), "%s does not copy all of %s: %s", name, d, m)
						}
						for _, q := range e.leaving(k) {
							ok[q] = true
						}
					}
				}
			}
		})
		e.each(func(cu *Cut, p *Path) {
			if p.End == "return" && e.without(p, func(q *Path) bool { return ok[q] }) {
				c.bad(key, instrPos(p.RetIn), "%s does not always copy %s", name, d)
			}
		})
	}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if r := rootTerm(ev.Addr); (ev.Kind == "store" || ev.Kind == "copy" || ev.Kind == "mapupdate") && r == recv {
				c.bad(key, instrPos(ev.In), "%s changes the source feature", name)
			}
		}
	})
}

// encode decides EncodeToNum and OneHot of categorical features.
func (c *Check) encode(mn, typ string) {
	f := c.method("DenseCatFeature", mn)
	if f == nil {
		return
	}
	name := "DenseCatFeature." + mn
	key := "copies/" + name
	e := c.run(f, "copy", Options{})
	if e == nil {
		return
	}
	recv := e.param(0)
	srcField := func(nm string) func(*Term) bool {
		return func(t *Term) bool { o := field(t, "DenseCatFeature."+nm); return o != nil && sameLoc(o, recv) }
	}
	isBack := func(t *Term) bool {
		o := field(t, "CatMap.Back")
		return o != nil && srcField("CatMap")(o)
	}
	few := func(p *Path) int {
		for _, g := range p.All() {
			if g.Op == "isnil" && isBack(g.Args[0]) {
				return 1
			}
		}
		var n *Term
		for _, g := range p.All() {
			g.walk(func(x *Term) bool {
				if x.Op == "len" && isBack(x.Args[0]) {
					n = x
				}
				return true
			})
		}
		if n == nil {
			return -1
		}
		return decide(p.All(), ge0(subT(intT(2), n)))
	}
	nameOf := func(t *Term) bool { o := field(t, "DenseCatFeature.Name"); return o != nil && sameLoc(o, recv) }
	pos := func(p *Path) ssa.Instruction { return p.RetIn }
	nret := 0
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" {
			return
		}
		nret++
		bad := func(format string, a ...interface{}) {
			c.bad(key, instrPos(pos(p)), name+": "+format, a...)
		}
		l := p.Ret[0]
		if l.Op == "sym" {
			// one feature per label
			c.ob(name, "one feature for every category")
			k := e.phiCut(l)
			if k == nil || few(p) == 1 {
				bad("the list of features is %v", l)
				return
			}
			enter, back := e.into(k)
			for _, q := range enter {
				if !isZero(lenT(q.next(l))) {
					bad("the list of features does not start empty")
				}
			}
			for _, q := range back {
				n := q.next(l)
				if n.Op != "append" || len(n.Args) != 2 || n.Args[0] != l || !unwrapped(n.Args[1]).isAlloc() {
					bad("an iteration does not add exactly one new feature")
					continue
				}
				if few(q) != 0 {
					bad("indicator features are made for a feature with at most two categories")
				}
				c.indicator(key, name, f, e, q, unwrapped(n.Args[1]), recv, typ, k, isBack, nameOf)
			}
			return
		}
		// a single feature
		c.ob(name, "a feature with at most two categories becomes a single feature")
		var objs []*Term
		if l.Op == "slice" || l.Op == "load" || l.Op == "alloc" || l.Op == "append" {
			seen := map[*Term]bool{}
			e.each(func(_ *Cut, q *Path) {
				for _, ev := range q.Events {
					if ev.Kind == "store" {
						if b, _ := addrElem(ev.Addr); b != nil && rootTerm(b) == rootTerm(l) && !seen[ev.Val] {
							seen[ev.Val] = true
							objs = append(objs, unwrapped(ev.Val))
						}
					}
				}
			})
			if l.Op == "append" && len(l.Args) == 2 && isZero(lenT(l.Args[0])) {
				objs = append(objs, unwrapped(l.Args[1]))
			}
		}
		if len(objs) != 1 || !objs[0].isAlloc() || few(p) != 1 && !c.fewOnEntry(e, p, few) {
			bad("the single-feature result is not one new feature made for at most two categories")
			return
		}
		obj := objs[0]
		c.copyOf(key, name, f, e, p, obj, recv, typ, "DenseCatFeature", mn == "OneHot")
		if nm := e.onlyVal(p, obj, typ+".Name"); nm == nil || !nameOf(nm) {
			bad("the single feature does not keep the name")
		}
		if mn == "EncodeToNum" {
			if m := c.filled(e, e.onlyVal(p, obj, typ+".NumData"), p, func(*Term) bool { return false }, recv, func(_ *Path, v, idx *Term) bool {
				b, i := elem(unconv(v))
				return b != nil && srcField("CatData")(b) && i == idx
			}); m != "" {
				bad("the values of the encoded feature: the slice %s", m)
			}
		}
	})
	if nret == 0 {
		c.bad(key, f.Pos(), "%s never returns", name)
	}
	c.untouched(key, name, e, recv)
}

// unconv drops number conversions.
func unconv(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "narrow") {
		t = t.Args[0]
	}
	return t
}

// fewOnEntry: every way to reach the region of p is guarded by the category count.
func (c *Check) fewOnEntry(e *Exec, p *Path, few func(*Path) int) bool {
	return !e.without(p, func(q *Path) bool { return few(q) == 1 })
}

// indicator decides one indicator feature added at the end of path q of loop k over the labels.
func (c *Check) indicator(key, name string, f *ssa.Function, e *Exec, q *Path, obj, recv *Term, typ string, k *Cut, isBack, nameOf func(*Term) bool) {
	bad := func(format string, a ...interface{}) {
		c.bad(key, f.Pos(), name+": "+format, a...)
	}
	c.copyOf(key, name, f, e, q, obj, recv, typ, "DenseCatFeature", false)
	c.ob(name, "an indicator is one exactly for the cases of its category")
	nm := e.onlyVal(q, obj, typ+".Name")
	var j *Term
	if nm != nil && nm.Op == "concat" && nm.Args[0].Op == "concat" && nameOf(nm.Args[0].Args[0]) && nm.Args[0].Args[1].String() == `"=="` {
		if b, i := elem(nm.Args[1]); b != nil && isBack(b) {
			j = i
		}
	}
	if j == nil {
		bad("an indicator feature is not named feature==label (%v)", nm)
		return
	}
	if m := e.countsAny(k, j, func(t *Term) bool { return t.Op == "len" && isBack(t.Args[0]) }); m != "" {
		bad("the labels are not all visited: %s", m)
	}
	isCode := func(t *Term, idx *Term) bool {
		b, i := elem(t)
		o := field(b, "DenseCatFeature.CatData")
		return b != nil && o != nil && sameLoc(o, recv) && i == idx
	}
	d := dataFields[typ]
	if m := c.filled(e, e.onlyVal(q, obj, typ+"."+d), q, func(*Term) bool { return false }, recv, func(p *Path, v, idx *Term) bool {
		var g *Term
		for _, h := range p.All() {
			h.walk(func(x *Term) bool {
				if isCode(x, idx) {
					g = x
				}
				return true
			})
		}
		if g == nil {
			return false
		}
		is := decide(p.All(), eq0(subT(j, g)))
		return is == 1 && v.String() == "(1)" || is == 0 && isZero(v)
	}); m != "" {
		bad("the values of an indicator: the slice %s", m)
	}
	if typ != "DenseCatFeature" {
		return
	}
	c.ob(name, "indicator categories are false=0, true=1")
	cm := e.onlyVal(q, obj, typ+".CatMap")
	if cm == nil || !cm.isAlloc() {
		bad("an indicator does not have its own CatMap")
		return
	}
	back, mp := e.onlyVal(q, cm, "CatMap.Back"), e.onlyVal(q, cm, "CatMap.Map")
	if back == nil || mp == nil || mp.Op != "makemap" || !fresh(rootTerm(back)) {
		bad("an indicator does not have its own label tables")
		return
	}
	got := map[string]bool{}
	e.each(func(_ *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "mapupdate" && ev.Addr == mp {
				got["M"+ev.Args[0].String()+"="+ev.Val.String()] = true
			}
			if ev.Kind == "store" {
				if b, i := addrElem(ev.Addr); b != nil && rootTerm(b) == rootTerm(back) {
					got["B"+ev.Val.String()+"="+i.String()] = true
				}
			}
		}
	})
	want := []string{`B"false"=0`, `B"true"=(1)`, `M"false"=0`, `M"true"=(1)`}
	var have []string
	for g := range got {
		have = append(have, g)
	}
	sort.Strings(have)
	if len(have) != 4 || have[0] != want[0] || have[1] != want[1] || have[2] != want[2] || have[3] != want[3] {
		bad("the label tables of an indicator are %v", have)
	}
}

func init() {
	register(&Rule{ID: "C03", Min: 25,
		What: "each copy is a new object whose slices and maps are new, filled completely from the source (whole copy, or a loop counted over all cases storing element i from element i) and whose source is never written; indicator features store one exactly on the paths where the code equals the label's index, for every label",
		Run:  func(c *Check) { c.copies() }})
}
