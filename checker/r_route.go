package main

import "golang.org/x/tools/go/ssa"

// boolResult decides that a predicate returns exactly what classify says about case x.
func (c *Check) boolResult(name string, e *Exec, x *Term, classify func(g *Term) (*Term, bool, bool)) {
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" {
			return
		}
		ok := false
		r := p.Ret[0]
		if r.isTrue() || r.isFalse() {
			for _, g := range p.All() {
				if y, l, is := classify(g); is && y == x && l == r.isTrue() {
					ok = true
				}
			}
		} else if y, l, is := classify(r); is && y == x && l {
			ok = true
		}
		if !ok {
			c.bad("route/"+name, instrPos(p.RetIn), "%s answers %v, which is not the specified test", name, r)
		}
		c.ob(name, "answers the specified test of the case")
	})
}

func (c *Check) goesLeft() {
	f := c.method("DenseNumFeature", "GoesLeft")
	if e := c.run(f, "", Options{}); e != nil {
		s := e.param(2)
		c.boolResult("DenseNumFeature.GoesLeft", e, e.param(1), numLeft(numValue(e.param(0)), func(t *Term) bool { return field(t, "Splitter.Value") == s }))
	}
	f = c.method("DenseCatFeature", "GoesLeft")
	if e := c.run(f, "", Options{}); e != nil {
		s, recv := e.param(2), e.param(0)
		c.boolResult("DenseCatFeature.GoesLeft", e, e.param(1), func(g *Term) (*Term, bool, bool) {
			pos := true
			if g.Op == "not" {
				pos, g = false, g.Args[0]
			}
			if g.Op == "lookup" && field(g.Args[0], "Splitter.Left") == s {
				if x := catLabel(g.Args[1], recv); x != nil {
					return x, pos, true
				}
			}
			return nil, false, false
		})
	}
}

// catLabel matches f.Back[f.CatData[x]] and returns x.
func catLabel(t, recv *Term) *Term {
	b, i := elem(t)
	if b == nil {
		return nil
	}
	cm := field(b, "CatMap.Back")
	if cm == nil || field(cm, "DenseCatFeature.CatMap") != recv {
		return nil
	}
	if o, x := elemField(i, "DenseCatFeature.CatData"); o == recv {
		return x
	}
	return nil
}

// backLabel matches f.Back[j].
func backLabel(t, recv *Term) *Term {
	b, i := elem(t)
	if b == nil {
		return nil
	}
	cm := field(b, "CatMap.Back")
	if cm == nil || field(cm, "DenseCatFeature.CatMap") != recv {
		return nil
	}
	return i
}

// stored is the value written to obj.field anywhere in the analysis (nil when there are several).
func (e *Exec) stored(obj *Term, name string) (v *Term, n int) {
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if o := addrField(ev.Addr, name); o == obj && o != nil {
					if v != ev.Val {
						n++
					}
					v = ev.Val
				}
			}
		}
	})
	return
}

func (c *Check) decodeSplit() {
	f := c.method("DenseNumFeature", "DecodeSplit")
	if e := c.run(f, "", Options{}); e != nil {
		recv := e.param(0)
		e.each(func(cu *Cut, p *Path) {
			if p.End != "return" {
				return
			}
			s := p.Ret[0]
			fe, _ := p.final(s, "Splitter.Feature")
			nu, _ := p.final(s, "Splitter.Numerical")
			va, _ := p.final(s, "Splitter.Value")
			if !(field(fe, "DenseNumFeature.Name") == recv && nu != nil && nu.isTrue() && va != nil && assertOf(e.param(1), "float64")(va)) {
				c.bad("route/DenseNumFeature.DecodeSplit", instrPos(p.RetIn), "DecodeSplit must return a numerical splitter of this feature at the split's own value; it returns feature %v numerical %v value %v", fe, nu, va)
			}
			c.ob("DenseNumFeature.DecodeSplit", "feature, kind and value carried over")
		})
	}
	f = c.method("DenseCatFeature", "DecodeSplit")
	e := c.run(f, "", Options{})
	if e == nil {
		return
	}
	key := "route/DenseCatFeature.DecodeSplit"
	recv, coded := e.param(0), e.param(1)
	isInt, isBig := assertOf(coded, "int"), assertOf(coded, "*math/big.Int")
	// what is returned
	var left *Term
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" {
			return
		}
		s := p.Ret[0]
		fe, _ := e.stored(s, "Splitter.Feature")
		nu, _ := e.stored(s, "Splitter.Numerical")
		le, _ := e.stored(s, "Splitter.Left")
		if !(field(fe, "DenseCatFeature.Name") == recv && (nu == nil || nu.isFalse()) && le != nil) {
			c.bad(key, instrPos(p.RetIn), "DecodeSplit must return a categorical splitter of this feature")
			return
		}
		left = le
		c.ob("DenseCatFeature.DecodeSplit", "feature and kind carried over")
	})
	if left == nil {
		return
	}
	kinds := map[string]bool{}
	for _, k := range e.loopCuts() {
		_, back := e.into(k)
		var idx *Term
		for _, p := range back {
			var bit *Term
			pos := false
			for _, g := range p.Guards {
				gg, ps := g, true
				if g.Op == "not" {
					gg, ps = g.Args[0], false
				}
				if gg.Op == "bit" && (isInt(gg.Args[0]) || isBig(gg.Args[0])) {
					bit, pos = gg, ps
				}
			}
			if bit == nil || (idx != nil && idx != bit.Args[1]) {
				c.bad(key, blockPos(k.B), "an iteration of DecodeSplit does not test the category's own bit of the split")
				return
			}
			idx = bit.Args[1]
			if isInt(bit.Args[0]) {
				kinds["int"] = true
			} else {
				kinds["big"] = true
			}
			n := 0
			for _, ev := range p.Events {
				if ev.Kind == "mapupdate" && ev.Addr == left {
					n++
					if backLabel(ev.Args[0], recv) != idx || !(ev.Val.isTrue() && pos || ev.Val.isFalse() && !pos) {
						c.bad(key, instrPos(ev.In), "DecodeSplit sets another label than the one whose bit it tested, or the wrong side")
					}
				}
			}
			if pos && n != 1 {
				c.bad(key, blockPos(k.B), "DecodeSplit does not send the label of a set bit left")
			}
			c.ob("DenseCatFeature.DecodeSplit", "label goes left exactly when its bit is set")
		}
		if idx == nil {
			continue
		}
		var n *Term
		for _, p := range back {
			_ = p
		}
		n = lenT(mk("load", "", fieldAddrN(mk("load", "", fieldAddrN(recv, "DenseCatFeature.CatMap", nil, nil)), "CatMap.Back", nil, nil)))
		if msg := e.counts(k, idx, n); msg != "" {
			c.bad(key, blockPos(k.B), "DecodeSplit must look at every category: %s", msg)
		}
		c.ob("DenseCatFeature.DecodeSplit", "every category looked at")
	}
	if !kinds["int"] || !kinds["big"] {
		c.bad(key, f.Pos(), "DecodeSplit must decode both small and large categorical splits")
	}
}

var _ *ssa.Function

func init() {
	register(&Rule{ID: "C07", Min: 100,
		What: "coded and decoded splits test the same condition (value <= threshold; bit of the category / label in the left set), missing first, in every routine that routes a case, and a grown node records feature, coded and decoded form of one search",
		Run: func(c *Check) {
			c.goesLeft()
			c.decodeSplit()
			c.splitters(c.partition)
			c.recurse()
			c.growth()
		}})
}
