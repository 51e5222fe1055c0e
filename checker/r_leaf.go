package main

import "go/types"

// ---- C23: a leaf predicts what its cases say --------------------------------------------------------------

func leafMeasures() (out []*measure) {
	add := func(ms ...*measure) { out = append(out, ms...) }
	known := map[string]condition{"known": func(m *meas) [][]*Term { return [][]*Term{{notT(m.missing())}} }}
	label := func(i *Term) *Term { return mk("w", "Back", i) }
	show := func(t *Term) *Term { return mk("shown", "", t) }
	present := func(m *meas) *Term { return mk("count", "casesknown+", m.i) }

	const mode = "the category that most of the cases with a known value have, the first of these"
	modei := one(func(m *meas) *Term { return m.greatest(present(m)) })
	modal := one(func(m *meas) *Term { return label(m.greatest(present(m))) })
	add(&measure{typ: "DenseCatFeature", fn: "Modei", cases: 1, conds: known, want: modei, what: mode},
		&measure{typ: "DenseCatFeature", fn: "Mode", cases: 1, conds: known, want: modal, what: mode},
		&measure{typ: "DenseCatFeature", fn: "FindPredicted", cases: 1, conds: known, want: modal, what: mode},
		&measure{typ: "OrdinalTarget", fn: "Mode", cases: 1, conds: known, want: modei, what: mode},
		&measure{typ: "OrdinalTarget", fn: "FindPredicted", cases: 1, opaque: []string{"OrdinalTarget.Mode", "OrdinalTarget.Predicted"}, what: "the mode of its cases",
			want: one(func(m *meas) *Term { return show(mk("inner", "Mode")) })},
		&measure{typ: "WRFTarget", fn: "FindPredicted", cases: 1, conds: known, what: "the category with the greatest weight among the cases with a known value",
			want: one(func(m *meas) *Term { return label(m.greatest(mulT(m.w("Weights", m.i), present(m)))) })},
		&measure{typ: "RegretTarget", fn: "FindPredicted", cases: 1, what: "the costliest category of the cases",
			want: one(func(m *meas) *Term { return label(m.greatest(mulT(m.w("Costs", m.i), m.n()))) })},
		&measure{typ: "NPTarget", fn: "FindPredicted", cases: 1, what: "the category with the most cases, those of the positive class counted 1/α times",
			cond: func(m *meas) []*Term { return []*Term{eq0(subT(m.i, m.f("Posi")))} },
			want: one(func(m *meas) *Term {
				return label(m.best("cats", map[string]*Term{"+": divT(m.n(), m.f("Alpha")), "-": m.n()}))
			})},
		&measure{typ: "TransTarget", fn: "FindPredicted", cases: 1, what: "the category with the most cases, unlabelled ones counted β times, unlabelled without cases",
			cond: func(m *meas) []*Term { return []*Term{eq0(subT(m.i, m.f("Unlabeled")))} },
			want: one(func(m *meas) *Term {
				return label(m.best("cats or "+m.f("Unlabeled").String(), map[string]*Term{"+": mulT(m.f("Beta"), m.n()), "-": m.n()}))
			})},
		&measure{typ: "DEntropyTarget", fn: "FindPredicted", cases: 1, what: "the share of the cost of the cases that is that of the True ones",
			cond: func(m *meas) []*Term { return labelled(label(m.cat()), strT("True")) },
			want: one(func(m *meas) *Term {
				cost := m.w("Costs", m.cat())
				return show(divT(m.sigma("cases", "+", cost), m.sigma("cases", "", cost)))
			})},
		&measure{typ: "HDistanceTarget", fn: "FindPredicted", cases: 1, what: "the share of the cases that are of the positive class",
			cond: func(m *meas) []*Term { return labelled(label(m.cat()), m.posClass()) },
			want: one(func(m *meas) *Term { return show(divT(m.sigma("cases", "+", intT(1)), m.t)) })},
		&measure{typ: "DenseNumFeature", fn: "FindPredicted", cases: 1, opaque: []string{"DenseNumFeature.Mean"}, what: "the mean of its cases",
			want: one(func(m *meas) *Term { return show(mk("inner", "Mean")) })},
		&measure{typ: "GradBoostClassTarget", fn: "Predicted", cases: 1, what: "Σr / Σ(y-r)(1-y+r), the Newton step of the logistic loss",
			want: one(func(m *meas) *Term {
				r, y := m.x(), mk("x", "Actual", m.cs())
				return divT(m.sigma("cases", "", r), m.sigma("cases", "", mulT(subT(y, r), addT(subT(intT(1), y), r))))
			})},
		&measure{typ: "GradBoostClassTarget", fn: "FindPredicted", cases: 1, opaque: []string{"GradBoostClassTarget.Predicted"}, what: "the Newton step of its cases",
			want: one(func(m *meas) *Term { return show(mk("inner", "Predicted")) })})
	return
}

func labelled(a, b *Term) []*Term {
	return []*Term{eqT(a, b, types.Typ[types.String]), eqT(b, a, types.Typ[types.String])}
}

func (m *meas) posClass() *Term {
	var out *Term
	m.e.each(func(cu *Cut, p *Path) {
		for _, g := range p.All() {
			g.walk(func(t *Term) bool {
				if field(t, ".Pos_class") == m.e.param(0) {
					out = t
				}
				return true
			})
		}
	})
	if out == nil {
		return m.f("Pos_class")
	}
	return out
}

func (c *Check) leafPredictions() {
	defined := map[string]bool{"DensityTarget": true} // a product over features, which is not decided
	for _, s := range leafMeasures() {
		c.measure(s)
		if s.fn == "FindPredicted" {
			defined[s.typ] = true
		}
	}
	pkg := c.P.Pkgs[RepoPath]
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || defined[n] {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok {
			for i := 0; i < nt.NumMethods(); i++ {
				if m := nt.Method(i); m.Name() == "FindPredicted" {
					c.bad("measure/"+n+".FindPredicted", m.Pos(), "undecided: %s predicts for its leaves in a way of its own, which no definition is known for", n)
				}
			}
		}
	}
}

func init() {
	register(&Rule{ID: "C23", What: "every leaf prediction is the one its target documents: path summaries of every FindPredicted, with the counting loops closed to counts and the searching loops to the first greatest element, compared as normal forms with the definition", Min: 14,
		Assume: []string{"arithmetic is exact: rounding and overflow are not modelled"}, Run: (*Check).leafPredictions})
}
