package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C02: missing markers -----------------------------------------------------

var markers = []string{"", "?", "nan", "na", "null"}

func spellings(s string) []string {
	out := []string{""}
	for _, r := range s {
		var n []string
		for _, p := range out {
			n = append(n, p+strings.ToLower(string(r)))
			if strings.ToUpper(string(r)) != strings.ToLower(string(r)) {
				n = append(n, p+strings.ToUpper(string(r)))
			}
		}
		out = n
	}
	return out
}

// cell describes what a path does to the value at a position of a feature.
type cell struct {
	miss, data   *Term
	nmiss, ndata int
	ok           bool
}

func dataName(typ string) string {
	if typ == "DenseNumFeature" {
		return "DenseNumFeature.NumData"
	}
	return "DenseCatFeature.CatData"
}

// wrote collects what path p writes at position at (nil: appends) of feature f.
func (p *Path) wrote(typ string, f, at *Term) (c cell) {
	c.ok = true
	one := func(name string, val **Term, n *int) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			if arr, i := addrElem(ev.Addr); arr != nil && field(arr, name) == f {
				if at == nil || i != at {
					c.ok = false
				}
				*val = ev.Val
				*n++
			}
			if addrField(ev.Addr, name) == f {
				v := ev.Val
				if at != nil || v.Op != "append" || len(v.Args) != 2 || field(v.Args[0], name) != f {
					c.ok = false
					continue
				}
				*val = v.Args[1]
				*n++
			}
		}
	}
	one(typ+".Missing", &c.miss, &c.nmiss)
	one(dataName(typ), &c.data, &c.ndata)
	return
}

// markerTest: the condition says that v is one of the missing markers.
func markerTest(g, v *Term) bool {
	norm := func(t *Term) bool {
		for _, n := range []string{"strings.ToLower", "strings.ToUpper"} {
			if a := isCall(t, n); a != nil && a[0] == v {
				return true
			}
		}
		return false
	}
	mark := func(t *Term, fold bool) bool {
		s, ok := t.str()
		if !ok {
			return false
		}
		for _, m := range markers {
			if s == m || fold && strings.EqualFold(s, m) {
				return true
			}
			for _, sp := range spellings(m) {
				if s == sp {
					return true
				}
			}
		}
		return false
	}
	if g.Op == "eq" {
		for i := 0; i < 2; i++ {
			a, b := g.Args[i], g.Args[1-i]
			if (norm(a) || a == v) && mark(b, true) {
				return true
			}
		}
	}
	if a := isCall(g, "strings.EqualFold"); a != nil {
		if a[0] == v && mark(a[1], true) || a[1] == v && mark(a[0], true) {
			return true
		}
	}
	// empty
	x := (*Term)(nil)
	if g.Op == "ge0" {
		n := negT(g.Args[0])
		if n.Op == "len" {
			x = n.Args[0]
		}
	}
	if g.Op == "eq0" && g.Args[0].Op == "len" {
		x = g.Args[0].Args[0]
	}
	return x != nil && (x == v || norm(x))
}

func (c *Check) markersCat() {
	for _, name := range []string{"Append", "PutStr"} {
		f := c.method("DenseCatFeature", name)
		if f == nil {
			continue
		}
		full := "DenseCatFeature." + name
		key := "marker/" + full
		vi := 1
		if name == "PutStr" {
			vi = 2
		}
		for _, m := range markers {
			for _, s := range spellings(m) {
				e := c.run(f, "v="+s, Options{Bind: map[string]*Term{f.Params[vi].Name(): strT(s)}})
				if e == nil {
					return
				}
				e.each(func(cu *Cut, p *Path) {
					if p.End == "panic" {
						return
					}
					var at *Term
					if name == "PutStr" {
						at = e.param(1)
					}
					w := p.wrote("DenseCatFeature", e.param(0), at)
					if p.End != "return" || cu != e.Entry || !w.ok || w.nmiss == 0 || !w.miss.isTrue() {
						c.bad(key, f.Pos(), "%s does not record the marker %q as missing", full, s)
					}
					c.ob(full, "marker stored missing: "+s)
				})
			}
		}
		e := c.run(f, "", Options{})
		e.each(func(cu *Cut, p *Path) {
			if p.End != "return" {
				return
			}
			var at *Term
			if name == "PutStr" {
				at = e.param(1)
			}
			recv, v := e.param(0), e.param(vi)
			w := p.wrote("DenseCatFeature", recv, at)
			if !w.ok || w.nmiss == 0 || at == nil && (w.ndata != 1 || w.nmiss != 1) {
				c.bad(key, f.Pos(), "%s must store exactly one value and its missing mark at the position", full)
				return
			}
			switch {
			case w.miss.isTrue():
				ok := false
				for _, g := range p.All() {
					if markerTest(g, v) {
						ok = true
					}
				}
				if !ok {
					c.bad(key, instrPos(p.RetIn), "%s stores an ordinary value as missing", full)
				}
				c.ob(full, "only markers stored missing")
			case w.miss.isFalse():
				if !c.codeOf(e, p, recv, w.data, v) {
					c.bad(key, instrPos(p.RetIn), "%s stores %v, which is not the code of the value", full, w.data)
				}
				c.ob(full, "ordinary value stored under its own code")
			default:
				c.bad(key, instrPos(p.RetIn), "undecided: %s stores the missing mark %v", full, w.miss)
			}
		})
	}
}

// codeOf: t is the code that the feature's CatMap holds for label v at the end of the path.
func (c *Check) codeOf(e *Exec, p *Path, recv, t, v *Term) bool {
	if t == nil {
		return false
	}
	if a := isCall(t, "CatToNum"); a != nil {
		return a[len(a)-1] == v
	}
	if t.Op == "lookup" && t.Args[1] == v && field(t.Args[0], "CatMap.Map") != nil {
		// known labels only
		for _, g := range p.All() {
			if g.Op == "haskey" && g.Args[0] == t.Args[0] && g.Args[1] == v {
				return true
			}
		}
		return false
	}
	for _, ev := range p.Events {
		if ev.Kind == "mapupdate" && field(ev.Addr, "CatMap.Map") != nil && ev.Args[0] == v && ev.Val == t {
			return true
		}
	}
	return false
}

func (c *Check) markersNum() {
	for _, name := range []string{"Append", "PutStr"} {
		f := c.method("DenseNumFeature", name)
		e := c.run(f, "", Options{})
		if e == nil {
			continue
		}
		full := "DenseNumFeature." + name
		key := "marker/" + full
		vi := 1
		var at *Term
		if name == "PutStr" {
			vi = 2
			at = e.param(1)
		}
		v := e.param(vi)
		parsed := func(t *Term) bool { // first result of ParseFloat(v, 64)
			if t != nil && t.Op == "extract" && t.S == "0" {
				t = t.Args[0]
				if t.Op == "call" && t.S == "strconv.ParseFloat" && t.Args[0] == v {
					n, ok := t.Args[1].intc()
					return ok && n == 64
				}
			}
			return false
		}
		e.each(func(cu *Cut, p *Path) {
			if p.End == "panic" {
				return
			}
			if p.End != "return" || cu != e.Entry {
				c.bad(key, f.Pos(), "undecided: %s has a loop", full)
				return
			}
			failed, isnan, fine, num := false, false, false, false
			for _, g := range p.All() {
				gg, neg := g, false
				if g.Op == "not" {
					gg, neg = g.Args[0], true
				}
				if gg.Op == "isnil" && gg.Args[0].Op == "extract" && gg.Args[0].S == "1" {
					if t := gg.Args[0].Args[0]; t.Op == "call" && t.S == "strconv.ParseFloat" && t.Args[0] == v {
						failed, fine = neg, !neg
					}
				}
				if a := isCall(gg, "math.IsNaN"); a != nil && parsed(a[0]) {
					isnan, num = !neg, neg
				}
				if gg.Op == "eq" && gg.Args[0] == gg.Args[1] && parsed(gg.Args[0]) {
					isnan, num = neg, !neg
				}
			}
			w := p.wrote("DenseNumFeature", e.param(0), at)
			if !w.ok || w.nmiss == 0 || at == nil && (w.ndata != 1 || w.nmiss != 1) {
				c.bad(key, f.Pos(), "%s must store exactly one value and its missing mark at the position", full)
				return
			}
			switch {
			case w.miss.isTrue():
				if !failed && !isnan {
					c.bad(key, instrPos(p.RetIn), "%s stores a number as missing", full)
				}
				c.ob(full, "missing only when the text is no number")
			case w.miss.isFalse():
				if !fine || !num {
					c.bad(key, instrPos(p.RetIn), "%s stores text that is no number, or NaN, as present", full)
				}
				if !parsed(w.data) {
					c.bad(key, instrPos(p.RetIn), "%s stores %v instead of the number parsed", full, w.data)
				}
				c.ob(full, "present only when the text is a number, with that number")
			default:
				c.bad(key, instrPos(p.RetIn), "undecided: %s stores the missing mark %v", full, w.miss)
			}
		})
	}
}

// accessors decides the readers and writers of single values.
func (c *Check) accessors() {
	for _, typ := range []string{"DenseNumFeature", "DenseCatFeature"} {
		miss, data := typ+".Missing", dataName(typ)
		// IsMissing, MissingVals, Length
		ret := func(name string, want func(e *Exec, p *Path, r *Term) bool, what string) {
			f := c.method(typ, name)
			e := c.run(f, "", Options{})
			e.each(func(cu *Cut, p *Path) {
				if p.End == "panic" {
					return
				}
				if p.End != "return" || cu != e.Entry || len(p.Ret) != 1 || !want(e, p, p.Ret[0]) {
					c.bad("value/"+typ+"."+name, f.Pos(), "%s.%s must answer %s", typ, name, what)
				}
				for _, ev := range p.Events {
					if ev.Kind == "store" && rootTerm(ev.Addr).Op != "alloc" {
						c.bad("value/"+typ+"."+name, instrPos(ev.In), "%s.%s changes the feature", typ, name)
					}
				}
				c.ob(typ+"."+name, what)
			})
		}
		at := func(e *Exec, t *Term, name string) bool {
			o, i := elemField(t, name)
			return o == e.param(0) && i == e.param(1)
		}
		known := func(e *Exec, p *Path) (is, not bool) {
			for _, g := range p.All() {
				if at(e, g, miss) {
					is = true
				}
				if g.Op == "not" && at(e, g.Args[0], miss) {
					not = true
				}
			}
			return
		}
		ret("IsMissing", func(e *Exec, p *Path, r *Term) bool {
			is, not := known(e, p)
			return at(e, r, miss) || r.isTrue() && is || r.isFalse() && not
		}, "the missing mark of the case")
		ret("MissingVals", func(e *Exec, p *Path, r *Term) bool {
			if flagLoad(r) == e.param(0) {
				return true
			}
			for _, g := range p.All() {
				if flagLoad(g) == e.param(0) && r.isTrue() || g.Op == "not" && flagLoad(g.Args[0]) == e.param(0) && r.isFalse() {
					return true
				}
			}
			return false
		}, "whether a value is missing")
		ret("Length", func(e *Exec, p *Path, r *Term) bool {
			return r.Op == "len" && (field(r.Args[0], miss) == e.param(0) || field(r.Args[0], data) == e.param(0))
		}, "the number of values")
		get := "Get"
		if typ == "DenseCatFeature" {
			get = "Geti"
		}
		ret(get, func(e *Exec, p *Path, r *Term) bool { return at(e, r, data) }, "the value of the case")
		ret("GetStr", func(e *Exec, p *Path, r *Term) bool {
			is, not := known(e, p)
			if s, ok := r.str(); ok {
				return s == "NA" && is
			}
			if !not {
				return false
			}
			if typ == "DenseCatFeature" {
				b, i := elem(r)
				return b != nil && field(b, "CatMap.Back") != nil && at(e, i, data)
			}
			return printsFloat(r, func(x *Term) bool { return at(e, x, data) })
		}, "NA for a missing value, else the value itself")
		// PutMissing, Put
		put := func(name string, want func(e *Exec, w cell) bool, what string) {
			f := c.method(typ, name)
			e := c.run(f, "", Options{})
			e.each(func(cu *Cut, p *Path) {
				if p.End == "panic" {
					return
				}
				w := p.wrote(typ, e.param(0), e.param(1))
				if p.End != "return" || cu != e.Entry || !w.ok || w.nmiss == 0 || !want(e, w) {
					c.bad("value/"+typ+"."+name, f.Pos(), "%s.%s must %s", typ, name, what)
				}
				c.ob(typ+"."+name, what)
			})
		}
		put("PutMissing", func(e *Exec, w cell) bool { return w.miss.isTrue() }, "mark the case missing")
		set := "Put"
		if typ == "DenseCatFeature" {
			set = "Puti"
		}
		put(set, func(e *Exec, w cell) bool { return w.miss.isFalse() && w.ndata > 0 && w.data == e.param(2) }, "store the value and clear the missing mark")
	}
}

// printsFloat: r is a textual form of a number that reads back exactly.
func printsFloat(r *Term, is func(*Term) bool) bool {
	if r.Op != "call" {
		return false
	}
	switch r.S {
	case "fmt.Sprintf":
		f, ok := r.Args[0].str()
		return ok && (f == "%v" || f == "%g") && len(r.Args) == 2 && r.Args[1].Op == "list" && len(r.Args[1].Args) == 1 && is(unwrapped(r.Args[1].Args[0]))
	case "fmt.Sprint":
		return r.Args[0].Op == "list" && len(r.Args[0].Args) == 1 && is(unwrapped(r.Args[0].Args[0]))
	case "strconv.FormatFloat":
		p, ok := r.Args[2].intc()
		b, ok2 := r.Args[3].intc()
		return is(r.Args[0]) && ok && p == -1 && ok2 && b == 64
	}
	return false
}

// ---- C04: category codes -------------------------------------------------------

func (c *Check) catCodes() {
	f := c.method("CatMap", "NumToCat")
	e := c.run(f, "", Options{})
	e.each(func(cu *Cut, p *Path) {
		if p.End == "return" {
			b, i := elem(p.Ret[0])
			if b == nil || field(b, "CatMap.Back") != e.param(0) || i != e.param(1) {
				c.bad("codes/CatMap.NumToCat", f.Pos(), "CatMap.NumToCat must answer the label recorded for the code")
			}
			c.ob("CatMap.NumToCat", "label recorded for the code")
		}
	})
	f = c.method("CatMap", "NCats")
	e = c.run(f, "", Options{})
	e.each(func(cu *Cut, p *Path) {
		if p.End == "return" {
			n := mk("len", "", mk("load", "", fieldAddrN(e.param(0), "CatMap.Back", nil, nil)))
			if !sameVal(p, p.Ret[0], n) {
				c.bad("codes/CatMap.NCats", f.Pos(), "CatMap.NCats must answer the number of labels")
			}
			c.ob("CatMap.NCats", "number of labels")
		}
	})
	f = c.method("CatMap", "CatToNum")
	e = c.run(f, "", Options{})
	e.each(func(cu *Cut, p *Path) {
		if p.End == "return" {
			if !c.codeOf(e, p, e.param(0), p.Ret[0], e.param(1)) {
				c.bad("codes/CatMap.CatToNum", instrPos(p.RetIn), "CatMap.CatToNum must answer the code recorded for the label, recording a new one if there is none; it answers %v", p.Ret[0])
			}
			c.ob("CatMap.CatToNum", "code recorded for the label")
		}
	})
	roots := c.rootsOf(func(f *ssa.Function) bool { return fieldRefs(f, "CatMap.Map", "CatMap.Back") })
	for _, f := range roots {
		if !c.writesCodes(f) {
			continue
		}
		e := c.run(f, "codes", Options{Opaque: featOpaque})
		if e != nil {
			c.codesKept(f, e)
		}
	}
}

// writesCodes: the function, or a helper it calls, updates a label map or a label list.
func (c *Check) writesCodes(f *ssa.Function) bool {
	eff := c.P.Effects(f)
	if eff["M:map[string]int"] || eff["F:CatMap.Back"] || eff["F:CatMap.Map"] || eff["A:string"] || eff["E:string"] || eff["ALL"] {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && typeName(mu.Map.Type()) == "map[string]int" {
				return true
			}
			if st, ok := in.(*ssa.Store); ok && typeName(st.Val.Type()) == "[]string" {
				return true
			}
		}
	}
	return false
}

// codesKept decides that every change of a CatMap leaves Back[Map[label]] == label for all labels.
func (c *Check) codesKept(f *ssa.Function, e *Exec) {
	name := FuncName(f)
	key := "codes/" + name
	mapOf := e.owners(func(a *Term) *Term { return addrField(a, "CatMap.Map") })
	backOf := e.owners(func(a *Term) *Term { return addrField(a, "CatMap.Back") })
	cmOfMap := func(m *Term) *Term {
		if o := field(m, "CatMap.Map"); o != nil {
			return o
		}
		return mapOf[m]
	}
	cmOfBack := func(b *Term) *Term {
		if o := field(b, "CatMap.Back"); o != nil {
			return o
		}
		return backOf[b]
	}
	// lists whose elements are set one by one (literals)
	lits := map[*Term]map[int64]*Term{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if a, i := addrElem(ev.Addr); a != nil {
					if n, ok := i.intc(); ok {
						r := rootTerm(a)
						if lits[r] == nil {
							lits[r] = map[int64]*Term{}
						}
						lits[r][n] = ev.Val
					}
				}
			}
		}
	})
	backFrom := map[*Term]*Term{} // catmap -> source its labels are copied from
	full := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "copy" {
				if x := cmOfBack(ev.Addr); x != nil {
					if y := cmOfBack(ev.Val); y != nil {
						backFrom[x] = y
						full[x] = sameLoc(lenT(ev.Addr), lenT(ev.Val))
					}
				}
			}
			if ev.Kind == "store" {
				if x := addrField(ev.Addr, "CatMap.Back"); x != nil && ev.Val.Op == "appendall" && isZero(lenT(ev.Val.Args[0])) {
					if y := cmOfBack(ev.Val.Args[1]); y != nil {
						backFrom[x] = y
						full[x] = true
					}
				}
			}
		}
	})
	e.each(func(cu *Cut, p *Path) {
		type add struct {
			key, val *Term
			ev       *Event
		}
		ups := map[*Term][]add{}  // label -> code
		apps := map[*Term][]add{} // code -> label
		for _, ev := range p.Events {
			switch ev.Kind {
			case "mapupdate":
				if x := cmOfMap(ev.Addr); x != nil {
					ups[x] = append(ups[x], add{ev.Args[0], ev.Val, ev})
				}
			case "store":
				if x := addrField(ev.Addr, "CatMap.Back"); x != nil {
					v := ev.Val
					for v.Op == "append" && len(v.Args) == 2 {
						base := v.Args[0]
						apps[x] = append(apps[x], add{lenT(base), v.Args[1], ev})
						v = base
					}
					if x.Op != "alloc" && cmOfBack(v) == nil {
						c.bad(key, instrPos(ev.In), "%s replaces the labels of a feature", name)
					}
				}
				if x := addrField(ev.Addr, "CatMap.Map"); x != nil && x.Op != "alloc" {
					if !c.relabelled(e, x, ev) {
						c.bad(key, instrPos(ev.In), "%s replaces the codes of a feature without recording every label again", name)
					}
				}
				if a, i := addrElem(ev.Addr); a != nil {
					if x := cmOfBack(a); x != nil {
						apps[x] = append(apps[x], add{i, ev.Val, ev})
					}
				}
			case "call":
				if nameIs(ev.Name, "delete") && len(ev.Args) > 0 && cmOfMap(ev.Args[0]) != nil {
					c.bad(key, instrPos(ev.In), "%s removes a label", name)
				}
			}
		}
		// the next code: the number of labels, or of entries of the map while both agree
		next := func(x, at, code *Term) bool {
			return sameVal(p, at, code) || code.Op == "len" && !strings.HasPrefix(code.Ver, fmt.Sprintf("m%d.", cu.ID)) && sameLoc(cmOfMap(code.Args[0]), x)
		}
		for x, us := range ups {
			for _, u := range us {
				ok := false
				for _, a := range apps[x] {
					if a.val == u.key && next(x, a.key, u.val) {
						ok = true
					}
				}
				// literal pair
				if n, is := u.val.intc(); is {
					e.each(func(cu *Cut, q *Path) {
						for _, ev := range q.Events {
							if ev.Kind == "store" && addrField(ev.Addr, "CatMap.Back") == x && lits[rootTerm(ev.Val)][n] == u.key && int64(len(lits[rootTerm(ev.Val)])) > n {
								ok = true
							}
						}
					})
				}
				// copied entry by entry
				if src := backFrom[x]; src != nil && full[x] {
					k, v := u.key, u.val
					if b, i := elem(k); b != nil && i == v && sameLoc(cmOfBack(b), src) && cu.Loop && e.countsAny(cu, i, func(t *Term) bool {
						return t.Op == "len" && sameLoc(cmOfBack(t.Args[0]), src)
					}) == "" {
						ok = true
					}
					if k.Op == "extract" && v.Op == "extract" && k.S == "1" && v.S == "2" && k.Args[0] == v.Args[0] && k.contains(func(t *Term) bool { return field(t, "CatMap.Map") != nil && sameLoc(field(t, "CatMap.Map"), src) }) {
						ok = true
					}
				}
				if !ok {
					c.bad(key, instrPos(u.ev.In), "%s records code %v for label %v but not the label for the code", name, u.val, u.key)
				}
				c.ob(name, "label and code recorded for each other")
			}
		}
		for x, as := range apps {
			for _, a := range as {
				ok := false
				for _, u := range ups[x] {
					if a.val == u.key && next(x, a.key, u.val) {
						ok = true
					}
				}
				if !ok {
					c.bad(key, instrPos(a.ev.In), "%s records label %v for code %v but not the code for the label", name, a.val, a.key)
				}
				// a known label is not given a second code
				if ok && field(a.key, "") == nil && a.ev.Kind == "store" && addrField(a.ev.Addr, "CatMap.Back") == x && !x.isAlloc() {
					fresh := false
					for _, g := range p.All() {
						if g.Op == "not" && g.Args[0].Op == "haskey" && g.Args[0].Args[1] == a.val {
							fresh = true
						}
					}
					if !fresh {
						c.bad(key, instrPos(a.ev.In), "%s gives a new code to a label that may have one", name)
					}
				}
				c.ob(name, "label and code recorded for each other")
			}
		}
		for x, src := range backFrom {
			_ = src
			_ = x
		}
	})
	// a copied label list needs the copied map
	for x := range backFrom {
		ok := false
		e.each(func(cu *Cut, p *Path) {
			if !cu.Loop {
				return
			}
			for _, ev := range p.Events {
				if ev.Kind == "mapupdate" && cmOfMap(ev.Addr) == x {
					ok = true
				}
			}
		})
		if !ok || !full[x] {
			c.bad(key, f.Pos(), "%s copies the labels of a feature without their codes", name)
		}
		c.ob(name, "labels copied with their codes")
	}
}

func (t *Term) isAlloc() bool { return t.Op == "alloc" }

// relabelled: after replacing the map of x a loop records every label of x again.
func (c *Check) relabelled(e *Exec, x *Term, st *Event) bool {
	for _, k := range e.loopCuts() {
		_, back := e.into(k)
		ok := len(back) > 0
		var idx *Term
		for _, p := range back {
			found := false
			for _, ev := range p.Events {
				if ev.Kind == "mapupdate" && ev.Addr == st.Val {
					idx, found = ev.Val, true
				}
			}
			ok = ok && found
		}
		if ok && e.countsAny(k, idx, func(t *Term) bool {
			return t.Op == "len" && field(t.Args[0], "CatMap.Back") != nil && sameLoc(field(t.Args[0], "CatMap.Back"), x)
		}) == "" {
			return true
		}
	}
	return false
}

func init() {
	register(&Rule{ID: "C02", Min: 80,
		What: "with the text bound to each missing marker in every spelling, no path of the value setters leaves the case present; on symbolic text a case is marked missing only under a test for a marker (or a failed/NaN number parse) and otherwise holds the parsed number or the label's code; the accessors read and write exactly the addressed value",
		Run: func(c *Check) {
			c.markersCat()
			c.markersNum()
			c.accessors()
		}})
	register(&Rule{ID: "C04", Min: 15,
		What: "every write to a label map or label list is one half of a pair that records the same label and code for each other on the same path; lookups answer the recorded entries",
		Run:  func(c *Check) { c.catCodes() }})
}
