package main

import (
	"golang.org/x/tools/go/ssa"
)

// ---- C05: features are found under their names ---------------------------------

// listOrigins follows a list back through appends and loop variables to the lists it starts from.
func (e *Exec) listOrigins(l *Term) (fam map[*Term]bool, starts []*Term) {
	fam = map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || fam[t] {
			return
		}
		fam[t] = true
		switch {
		case t.Op == "append" || t.Op == "appendall":
			add(t.Args[0])
		case t.Op == "sym" && len(e.alts[t]) > 0:
			for _, a := range e.alts[t] {
				add(a)
			}
		case t.Op == "ite":
			add(t.Args[1])
			add(t.Args[2])
		default:
			starts = append(starts, t)
		}
	}
	add(l)
	return
}

// onlyFirst: facts say that a variable that counts up from zero is zero, so loop k is in its first iteration.
func (e *Exec) onlyFirst(facts []*Term) (k *Cut) {
	for _, g := range facts {
		if g.Op != "eq0" {
			continue
		}
		s := anySym(g)
		if s == nil || g != eq0(s) {
			continue
		}
		c := e.phiCut(s)
		if c == nil {
			continue
		}
		enter, back := e.into(c)
		ok := len(enter) > 0
		for _, p := range enter {
			ok = ok && isZero(p.next(s))
		}
		for _, p := range back {
			d, is := subT(p.next(s), s).intc()
			ok = ok && is && d > 0
		}
		if ok {
			return c
		}
	}
	return nil
}

// listIndex: v equals the length of list b on path p, directly, because both advance together, or because
// the loop is in its first iteration.
func (e *Exec) listIndex(p *Path, v, b *Term) bool {
	if sameVal(p, v, lenT(b)) {
		return true
	}
	if k := e.onlyFirst(p.All()); k != nil {
		enter, _ := e.into(k)
		ok := len(enter) > 0
		for _, q := range enter {
			ok = ok && sameVal(q, q.next(v), lenT(q.next(b)))
		}
		if ok {
			return true
		}
	}
	s := anySym(v)
	if s == nil {
		return false
	}
	k := e.phiCut(s)
	if k == nil {
		return false
	}
	enter, back := e.into(k)
	for _, q := range enter {
		if !sameVal(q, q.next(v), lenT(q.next(b))) {
			return false
		}
	}
	d := subT(v, lenT(b))
	for _, q := range back {
		if subT(q.next(v), lenT(q.next(b))) != d {
			return false
		}
	}
	return len(enter) > 0 && len(back) > 0
}

// nameOfFeature: key is the name of feature f at the end of path p.
func (e *Exec) nameOfFeature(p *Path, key, f *Term, parsed func(*Term, *Term) bool) bool {
	f = unwrapped(f)
	if a := isCall(key, "GetName"); a != nil {
		x := unwrapped(a[0])
		if x == f || assertedOf(x) == f {
			return true
		}
		// a copy keeps its name
		if y := isCall(f, "Copy"); y != nil && unwrapped(y[0]) == x {
			return true
		}
	}
	for _, typ := range []string{"DenseNumFeature", "DenseCatFeature"} {
		if o := field(key, typ+".Name"); o != nil && assertedOf(o) == assertedOf(f) {
			return true
		}
		if v := e.onlyVal(p, f, typ+".Name"); f.isAlloc() && v != nil && v == key {
			return true
		}
	}
	if a := isCall(f, "ParseFeature"); a != nil && parsed(a[0], key) {
		return true
	}
	// alternatives of a loop variable or join
	if f.Op == "sym" && len(e.alts[f]) > 0 {
		return false
	}
	return false
}

func assertedOf(t *Term) *Term {
	for t != nil && (t.Op == "typeassert" || t.Op == "iface") {
		t = t.Args[0]
	}
	return t
}

func buildsMatrix(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.FieldAddr); ok {
					switch fieldName(a.X.Type(), a.Field) {
					case "FeatureMatrix.Data", "FeatureMatrix.Map":
						return true
					case "DenseNumFeature.Name", "DenseCatFeature.Name":
						if _, is := a.X.(*ssa.Alloc); !is {
							return true
						}
					}
				}
				if a, ok := x.Addr.(*ssa.IndexAddr); ok && typeName(x.Val.Type()) == "Feature" {
					if l, ok := a.X.(*ssa.UnOp); ok {
						if fa, ok := l.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "FeatureMatrix.Data" {
							return true
						}
					}
				}
			case *ssa.MapUpdate:
				if l, ok := x.Map.(*ssa.UnOp); ok {
					if fa, ok := l.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "FeatureMatrix.Map" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Check) featureIndex() {
	roots := c.rootsOf(buildsMatrix)
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	prim := opaque("ParseFeature", "DenseNumFeature.Copy", "DenseCatFeature.Copy", "DenseNumFeature.Append", "DenseCatFeature.Append", "FeatureMatrix.LoadCases")
	for _, f := range roots {
		f := f
		if n := shortName(f); nameIs(n, "ShuffledCopy") {
			continue // a new feature; C03
		}
		e := c.run(f, "index", Options{Opaque: func(g *ssa.Function) bool { return prim(g) || isRoot[g] && g != f }})
		if e != nil {
			c.featureIndexIn(f, e)
		}
	}
	c.parsedName()
}

// parsedName: ParseFeature names the feature by the first field of its record.
func (c *Check) parsedName() {
	f := c.P.Fn("CloudForest", "ParseFeature")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	e := c.run(f, "index", Options{Opaque: opaque("DenseNumFeature.Append", "DenseCatFeature.Append")})
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" {
			return
		}
		c.ob("ParseFeature", "the feature is named by the first field")
		obj := unwrapped(p.Ret[0])
		ok := false
		for _, typ := range []string{"DenseNumFeature", "DenseCatFeature"} {
			if v := e.onlyVal(p, obj, typ+".Name"); v != nil {
				if b, i := elem(v); b != nil && b == e.param(0) && isZero(i) {
					ok = true
				}
			}
		}
		if !ok {
			c.bad("index/ParseFeature", instrPos(p.RetIn), "ParseFeature does not name the feature by the first field of its record")
		}
	})
}

type matrixUse struct {
	obj    *Term
	lists  []*Term
	maps   map[*Term]bool
	datast []*Path
	mapst  []*Path
	own    bool // the list the matrix already has grows
	ev     *Event
}

func (c *Check) featureIndexIn(f *ssa.Function, e *Exec) {
	name := FuncName(f)
	key := "index/" + name
	use := map[*Term]*matrixUse{}
	var order []*matrixUse
	get := func(o *Term) *matrixUse {
		o = strip(o)
		if use[o] == nil {
			use[o] = &matrixUse{obj: o, maps: map[*Term]bool{}}
			order = append(order, use[o])
		}
		return use[o]
	}
	ownData := func(t *Term) *Term { return field(t, "FeatureMatrix.Data") }
	isOwnMap := func(m *Term, o *Term) bool { x := field(m, "FeatureMatrix.Map"); return x != nil && sameLoc(x, o) }
	famOf := map[*Term][]*matrixUse{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			if o := addrField(ev.Addr, "FeatureMatrix.Data"); o != nil {
				u := get(o)
				u.ev = ev
				fam, starts := e.listOrigins(ev.Val)
				own := false
				for _, s := range starts {
					switch {
					case ownData(s) != nil && sameLoc(ownData(s), o):
						own = true
					case isZero(lenT(s)):
					default:
						if s.Op == "makeslice" {
							break // filled by index
						}
						c.bad(key, instrPos(ev.In), "%s makes a matrix from the features %v, which it did not index by name", name, s)
					}
				}
				if own {
					u.own = true
				} else {
					u.datast = append(u.datast, p)
				}
				for t := range fam {
					famOf[t] = append(famOf[t], u)
				}
				u.lists = append(u.lists, ev.Val)
			}
			if o := addrField(ev.Addr, "FeatureMatrix.Map"); o != nil {
				u := get(o)
				u.ev = ev
				u.maps[ev.Val] = true
				u.mapst = append(u.mapst, p)
				if ev.Val.Op != "makemap" && ev.Val.Op != "sym" {
					c.bad(key, instrPos(ev.In), "%s gives a matrix the name index %v, which is not new", name, ev.Val)
				}
			}
		}
	})
	owner := func(list *Term) []*matrixUse {
		if us := famOf[list]; us != nil {
			return us
		}
		if o := ownData(list); o != nil {
			return []*matrixUse{get(o)}
		}
		return nil
	}
	indexOf := func(m *Term, us []*matrixUse) bool {
		for _, u := range us {
			if u.maps[m] || isOwnMap(m, u.obj) {
				return true
			}
		}
		return false
	}
	parsed := func(rec, k *Term) bool { b, i := elem(k); return b != nil && b == rec && isZero(i) }
	matched := map[*Event]bool{}
	redo := map[*matrixUse][]*Path{}
	redoEv := map[*matrixUse]*Event{}
	e.each(func(cu *Cut, p *Path) {
		find := func(us []*matrixUse, pos, feat *Term, byLen *Term) bool {
			ok := false
			for _, ev := range p.Events {
				if ev.Kind != "mapupdate" || !indexOf(ev.Addr, us) {
					continue
				}
				if !e.nameOfFeature(p, ev.Args[0], feat, parsed) {
					continue
				}
				if byLen != nil && e.listIndex(p, ev.Val, byLen) || pos != nil && sameVal(p, ev.Val, pos) {
					matched[ev] = true
					ok = true
				}
			}
			return ok
		}
		for _, ev := range p.Events {
			switch ev.Kind {
			case "append":
				us := owner(ev.Addr)
				if us == nil || len(ev.Args) != 1 {
					if us != nil {
						c.bad(key, instrPos(ev.In), "undecided: %s adds several features at once", name)
					}
					continue
				}
				c.ob(name, "a feature added is indexed by its name and position")
				if ev.Val.Op == "appendall" || !find(us, nil, ev.Args[0], ev.Addr) {
					c.bad(key, instrPos(ev.In), "%s adds the feature %v without recording its name and position", name, ev.Args[0])
				}
			case "store":
				if a, i := addrElem(ev.Addr); a != nil {
					if us := owner(a); us != nil {
						c.ob(name, "a feature placed is indexed by its name and position")
						if !find(us, i, ev.Val, nil) {
							for _, u := range us {
								redo[u] = append(redo[u], p)
								redoEv[u] = ev
							}
						}
					}
				}
				for _, typ := range []string{"DenseNumFeature", "DenseCatFeature"} {
					if o := addrField(ev.Addr, typ+".Name"); o != nil && !o.isAlloc() && f.Pkg.Pkg.Name() != "main" {
						x := assertedOf(o)
						if isCall(x, "Copy") != nil || isCall(x, "ShuffledCopy") != nil {
							continue
						}
						c.ob(name, "a renamed feature is indexed by its new name")
						b, _ := elem(x)
						us := owner(b)
						if us == nil {
							c.bad(key, instrPos(ev.In), "%s renames a feature without indexing the new name", name)
							continue
						}
						for _, u := range us {
							redo[u] = append(redo[u], p)
							redoEv[u] = ev
						}
					}
				}
			case "call":
				if nameIs(ev.Name, "delete") && len(ev.Args) > 0 && field(ev.Args[0], "FeatureMatrix.Map") != nil {
					c.bad(key, instrPos(ev.In), "%s removes a name from the index of a matrix", name)
				}
			}
		}
	})
	// whole-matrix re-indexing
	good := map[*matrixUse]*Cut{}
	for _, u := range order {
		for _, k := range e.loopCuts() {
			if e.reindexes(k, u, isOwnMap, owner, matched) {
				good[u] = k
			}
		}
	}
	for u, ps := range redo {
		k := good[u]
		for _, p := range ps {
			if k == nil || !e.members(k)[p.From] && !e.unavoidable(p, k) {
				c.bad(key, instrPos(redoEv[u].In), "%s changes the features of a matrix without indexing every feature again", name)
			}
		}
	}
	for _, u := range order {
		if u.own && !u.obj.isAlloc() && len(u.mapst) > 0 && good[u] == nil {
			c.bad(key, instrPos(u.ev.In), "%s replaces the name index of a matrix without indexing every feature again", name)
		}
		if good[u] != nil {
			c.ob(name, "every feature is indexed again")
			continue
		}
		if u.obj.isAlloc() {
			c.ob(name, "a new matrix gets the index built with its features")
			if len(u.lists) > 0 && len(u.maps) == 0 {
				c.bad(key, instrPos(u.ev.In), "%s makes a matrix without a name index", name)
			}
			continue
		}
		if len(u.datast) == 0 && len(u.mapst) > 0 {
			c.bad(key, instrPos(u.ev.In), "%s replaces the name index of a matrix without indexing every feature again", name)
		}
		// features and index are replaced together
		set := func(ps []*Path) func(*Path) bool {
			return func(q *Path) bool {
				for _, p := range ps {
					if p == q {
						return true
					}
				}
				return false
			}
		}
		for _, p := range u.datast {
			c.ob(name, "features and index are replaced together")
			if e.without(p, set(u.mapst)) && e.escapes(p, set(u.mapst)) {
				c.bad(key, instrPos(u.ev.In), "%s replaces the features of a matrix without its name index", name)
			}
		}
		for _, p := range u.mapst {
			if len(u.datast) > 0 && e.without(p, set(u.datast)) && e.escapes(p, set(u.datast)) {
				c.bad(key, instrPos(u.ev.In), "%s replaces the name index of a matrix without its features", name)
			}
		}
	}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "mapupdate" && indexOf(ev.Addr, order) && !matched[ev] {
				c.bad(key, instrPos(ev.In), "%s records position %v under the name %v for no feature it places there", name, ev.Val, ev.Args[0])
			}
		}
	})
}

// escapes: after path p some execution ends without taking a path accepted by hit.
func (e *Exec) escapes(p *Path, hit func(*Path) bool) bool {
	if p.To == nil {
		return p.End == "return"
	}
	seen := map[*Cut]bool{}
	var walk func(c *Cut) bool
	walk = func(c *Cut) bool {
		if seen[c] {
			return false
		}
		seen[c] = true
		for _, q := range c.Paths {
			if hit(q) {
				continue
			}
			if q.End == "return" || q.To != nil && walk(q.To) {
				return true
			}
		}
		return false
	}
	return walk(p.To)
}

// reindexes: loop k visits every feature of the matrix and records its (new) name and position in its index.
func (e *Exec) reindexes(k *Cut, u *matrixUse, isOwnMap func(m, o *Term) bool, owner func(*Term) []*matrixUse, matched map[*Event]bool) bool {
	mine := func(l *Term) bool {
		for _, w := range owner(l) {
			if w == u {
				return true
			}
		}
		return false
	}
	m := e.members(k)
	hits := map[*Path]bool{}
	var idx *Term
	var evs []*Event
	for d := range m {
		for _, p := range d.Paths {
			for _, ev := range p.Events {
				if ev.Kind != "mapupdate" || !(u.maps[ev.Addr] || isOwnMap(ev.Addr, u.obj)) {
					continue
				}
				if idx != nil && idx != ev.Val {
					return false
				}
				ok := false
				// the name just stored in the feature at the position recorded
				renamed := false
				for _, w := range p.Events {
					if w.Kind == "store" {
						for _, typ := range []string{"DenseNumFeature", "DenseCatFeature"} {
							if o := addrField(w.Addr, typ+".Name"); o != nil {
								if b, i := elem(assertedOf(o)); b != nil && mine(b) && i == ev.Val {
									renamed = true
									ok = w.Val == ev.Args[0]
								}
							}
						}
					}
				}
				if a := isCall(ev.Args[0], "GetName"); a != nil && !renamed {
					if b, i := elem(assertedOf(a[0])); b != nil && mine(b) && i == ev.Val {
						ok = true
					}
				}
				if !ok {
					return false
				}
				idx = ev.Val
				hits[p] = true
				evs = append(evs, ev)
			}
		}
	}
	if idx == nil {
		return false
	}
	if e.countsAny(k, idx, func(t *Term) bool { return t.Op == "len" && mine(t.Args[0]) }) != "" {
		return false
	}
	// no iteration without an update, unless the feature is of no known kind
	seen := map[*Cut]bool{}
	var walk func(d *Cut) bool
	walk = func(d *Cut) bool {
		if seen[d] {
			return true
		}
		seen[d] = true
		for _, p := range d.Paths {
			if hits[p] || p.To == nil || !m[p.To] {
				continue
			}
			no := map[string]bool{}
			for _, g := range p.All() {
				if g.Op == "not" && g.Args[0].Op == "istype" {
					no[g.Args[0].S] = true
				}
			}
			if len(no) >= 2 {
				continue
			}
			if p.To == k || !walk(p.To) {
				return false
			}
		}
		return true
	}
	if !walk(k) {
		return false
	}
	for _, ev := range evs {
		matched[ev] = true
	}
	return true
}

func init() {
	register(&Rule{ID: "C05", Min: 15,
		What: "on every path that appends a feature to a matrix (or to a list that becomes one) the name index of that matrix is updated with the feature's own name and the length of the list before the append (directly, or by a counter proved to advance with the list); features are moved or renamed only where a loop over all features indexes them again; features and index are only replaced together",
		Run:  func(c *Check) { c.featureIndex() }})
}
