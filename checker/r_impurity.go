package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C12: every impurity is the measure it is documented to be ------------------------------------------

// measure is a function whose result is a closed expression over the cases or over their counts.
type measure struct {
	typ, fn               string
	cases, counter, total int // the parameters that hold them, 0 for none
	fill                  bool
	opaque                []string
	what                  string
	feature               int                   // the parameter that is a feature all of whose cases are gone through
	cond                  func(m *meas) []*Term // what decides whether an element counts, in any of these forms
	conds                 map[string]condition  // other things that decide it, by name
	zero                  bool                  // an element that fails the condition would add nothing
	want                  func(m *meas, facts []*Term) []*Term
}

// condition is a list of facts that have to hold together, each given in several forms.
type condition func(m *meas) [][]*Term

// meas is one analysis of a measure: its loops become sums over a bound index.
type meas struct {
	c    *Check
	e    *Exec
	s    *measure
	i    *Term // the bound index
	t    *Term // how many cases there are
	memo map[*Term]*Term
	busy map[*Term]bool
	own  map[*Term]*Term
	why  string
}

func (m *meas) say(s string) {
	if m.why == "" {
		m.why = s
	}
}

func (m *meas) n() *Term                  { return mk("n", "", m.i) }
func (m *meas) cs() *Term                 { return mk("c", "", m.i) }
func (m *meas) cat() *Term                { return mk("cat", "", m.cs()) }
func (m *meas) x() *Term                  { return mk("x", "", m.cs()) }
func (m *meas) missing() *Term            { return mk("missing", "", m.cs()) }
func (m *meas) w(n string, i *Term) *Term { return mk("w", n, i) }
func (m *meas) f(n string) *Term          { return mk("f", n) }

func (m *meas) is(t *Term, param int) bool {
	if param == 0 {
		return false
	}
	p := m.e.param(param)
	t = strip(t)
	return t == p || t.Op == "load" && (t.Args[0] == p || m.held(t.Args[0]) == p)
}

// held is what a variable holds that is only ever given one value.
func (m *meas) held(cell *Term) *Term {
	if cell.Op != "alloc" {
		return nil
	}
	var v *Term
	for _, x := range m.e.puts(cell) {
		if x = strip(x); v != nil && v != x {
			return nil
		}
		v = x
	}
	return v
}

// passed: an argument is a parameter, or the address of a variable that holds it.
func (m *meas) passed(a *Term, param int) bool {
	if param == 0 {
		return false
	}
	p := m.e.param(param)
	return a == p || m.held(a) == p
}

// domain names what a length is the length of.
func (m *meas) domain(n *Term) string {
	n = strip(n)
	if n.Op == "len" {
		if m.is(n.Args[0], m.s.counter) {
			return "cats"
		}
		if m.is(n.Args[0], m.s.cases) {
			return "cases"
		}
		if field(n.Args[0], ".Back") != nil {
			return "cats"
		}
	}
	if isCall(n, "NCats") != nil || field(n, ".nClass") != nil {
		return "cats"
	}
	if n.Op == "len" && m.local(n.Args[0]) != nil {
		return "cats"
	}
	if a := isCall(n, "Length"); m.s.feature > 0 && len(a) == 1 && unwrapped(a[0]) == m.e.param(m.s.feature) {
		return "all"
	}
	return ""
}

func lastName(s string) string { return s[strings.LastIndex(s, ".")+1:] }

// canon replaces what is read from the target, the cases and the counter by what it stands for.
func (m *meas) canon(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.Op == "sum" || x.Op == "argmax" || x.Op == "product" {
			return x
		}
		if m.s.total > 0 && x == m.e.param(m.s.total) {
			return m.t
		}
		if x.Op == "len" && (x.Args[0].Op == "load" || x.Args[0].Op == "param" || m.s.cases > 0 && x.Args[0] == m.e.param(m.s.cases)) {
			if m.is(x.Args[0], m.s.cases) {
				return m.t
			}
			for j := range m.e.Root.Params {
				if j > 0 && m.is(x.Args[0], j) {
					return mk("size", "", intT(int64(j)))
				}
			}
		}
		if arr, i := elem(x); arr != nil {
			if m.is(arr, m.s.counter) {
				return mk("n", "", m.canon(i))
			}
			if m.is(arr, m.s.cases) {
				return mk("c", "", m.canon(i))
			}
			for j := range m.e.Root.Params {
				if j > 0 && m.is(arr, j) {
					return mk("e", "", intT(int64(j)), m.canon(i))
				}
			}
			if a := m.local(arr); a != nil {
				if n := m.counted(a); n != nil {
					return rewrite(n, func(y *Term) *Term {
						if y == m.j() {
							return m.canon(i)
						}
						return nil
					})
				}
			}
			if arr.Op == "load" && arr.Args[0].Op == "fieldaddr" {
				switch n := lastName(arr.Args[0].S); n {
				case "CatData":
					return mk("cat", "", m.canon(i))
				case "NumData":
					return mk("x", whose(arr.Args[0].Args[0]), m.canon(i))
				case "Missing":
					return mk("missing", "", m.canon(i))
				default:
					return mk("w", n, m.canon(i))
				}
			}
		}
		if x.Op == "load" && x.Args[0].Op == "fieldaddr" {
			if arr, i := elem(x.Args[0].Args[0]); arr != nil && field(arr, ".box") != nil {
				return mk("w", lastName(x.Args[0].S), m.canon(i))
			}
		}
		if x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Args[0] == m.e.param(0) {
			if n := lastName(x.Args[0].S); isFloat(x.T) || isInt(x.T) {
				return mk("f", n)
			}
		}
		if x.Op == "call" {
			for _, a := range []struct{ name, op string }{{"Geti", "cat"}, {"Get", "x"}, {"IsMissing", "missing"}} {
				if args := isCall(x, a.name); len(args) == 2 {
					return mk(a.op, whose(args[0]), m.canon(args[1]))
				}
			}
			if m.s.feature > 0 && len(x.Args) == 2 && x.Args[0] == m.e.param(0) {
				for _, n := range []string{"TallySquaredError", "TallyError"} {
					if args := isCall(x, n); args != nil && unwrapped(args[1]) == m.e.param(m.s.feature) {
						return mk("inner", n)
					}
				}
				if args := isCall(x, "Tally"); args != nil {
					return mk("tally", "", m.canon(args[1]))
				}
			}
			if isCall(x, "NCats") != nil {
				return mk("ncats", "")
			}
			if args := isCall(x, "NumToCat"); len(args) == 2 {
				return mk("w", "Back", m.canon(args[1]))
			}
			if y := shown(x); y != nil {
				return mk("shown", "", m.canon(y))
			}
			if args := isCall(x, "Norm"); len(args) == 3 {
				return mk("norm", "", m.canon(args[1]), m.canon(args[2]))
			}
			if args := isCall(x, "Error"); len(args) == 3 && m.passed(args[1], m.s.cases) {
				return mk("error", "", m.canon(args[2]))
			}
			for _, n := range []string{"Mean", "Predicted", "Mode", "Modei", "Impurity", "Density"} {
				if args := isCall(x, n); len(args) > 1 && m.passed(args[1], m.s.cases) {
					if n == "Predicted" && m.s.typ == "OrdinalTarget" {
						n = "Mode"
					}
					return mk("inner", n)
				}
			}
			switch x.S {
			case "math.Log":
				return mk("log", "", m.canon(x.Args[0]))
			case "math.Abs":
				return absT(m.canon(x.Args[0]))
			case "math.Max":
				return maxT(m.canon(x.Args[0]), m.canon(x.Args[1]))
			}
		}
		return nil
	})
}

// whose names the companion of a target that a value is read from, nothing for the target itself.
func whose(o *Term) string {
	for o = unwrapped(o); o != nil; {
		if o.Op != "load" || o.Args[0].Op != "fieldaddr" {
			return ""
		}
		if n := lastName(o.Args[0].S); n == "Actual" || n == "Pred" {
			return n
		}
		o = unwrapped(o.Args[0].Args[0])
	}
	return ""
}

// shown is the number in a text that is read back as it.
func shown(t *Term) *Term {
	if t.Op != "call" {
		return nil
	}
	last := func(n int) *Term {
		if len(t.Args) == n && t.Args[n-1].Op == "list" && len(t.Args[n-1].Args) == 1 {
			return unwrapped(strip(t.Args[n-1].Args[0]))
		}
		return nil
	}
	switch t.S {
	case "fmt.Sprint":
		return last(1)
	case "fmt.Sprintf":
		if len(t.Args) == 2 {
			if f, ok := t.Args[0].str(); ok && f == "%v" {
				return last(2)
			}
		}
	case "strconv.FormatFloat":
		if len(t.Args) == 4 && decideEq(t.Args[2], intT(-1)) && decideEq(t.Args[3], intT(64)) {
			return strip(t.Args[0])
		}
	}
	return nil
}

func absT(a *Term) *Term {
	if n := negT(a); n.ID < a.ID {
		a = n
	}
	return mk("abs", "", a)
}

func maxT(a, b *Term) *Term {
	if b.ID < a.ID {
		a, b = b, a
	}
	return mk("max", "", a, b)
}

// value is a term with the variables of finished loops replaced by what the loops made of them.
func (m *meas) value(t *Term) *Term {
	return m.canon(rewrite(strip(t), func(x *Term) *Term {
		if x.Op == "sym" {
			return m.closed(x)
		}
		return nil
	}))
}

// loopIndex is the variable that counts the turns of a loop over the cases or the categories, how far it
// is behind the index, and what the loop goes through.
func (m *meas) loopIndex(k *Cut) (r, off *Term, dom string) {
	for s := range k.symbols(m.e) {
		for _, o := range []int64{0, 1} {
			for _, d := range []string{"cases", "cats", "all"} {
				if m.e.countsAny(k, addI(s, o), func(n *Term) bool { return m.domain(n) == d }) == "" {
					return s, intT(o), d
				}
			}
		}
	}
	return nil, nil, ""
}

// turn writes a term of a turn of a loop over the bound index.
func (m *meas) turn(r, off, t *Term) *Term {
	return m.value(rewrite(strip(t), func(x *Term) *Term {
		if x == r {
			return subT(m.i, off)
		}
		return nil
	}))
}

// names are the conditions that may decide which elements count, the unnamed one first.
func (m *meas) names() []string {
	var out []string
	for n := range m.s.conds {
		out = append(out, n)
	}
	sort.Strings(out)
	if m.s.cond != nil {
		out = append([]string{""}, out...)
	}
	return out
}

// label tells whether the element of a turn counts by a condition: +, - or ?.
func (m *meas) label(cond string, r, off *Term, p *Path) string {
	var facts []*Term
	for _, g := range p.All() {
		facts = append(facts, m.turn(r, off, g))
	}
	var all [][]*Term
	if cond != "" {
		all = m.s.conds[cond](m)
	} else if m.s.cond != nil {
		all = [][]*Term{m.s.cond(m)}
	}
	out := "+"
	if all == nil {
		out = "?"
	}
	for _, forms := range all {
		l := "?"
		for _, c := range forms {
			switch decide(facts, c) {
			case 1:
				l = "+"
			case 0:
				return cond + "-"
			}
		}
		if l == "?" {
			out = "?"
		}
	}
	if out == "?" {
		return "?"
	}
	return cond + out
}

// vague: a turn in which something is not a number is outside the arithmetic of the reals.
func vague(p *Path) bool {
	for _, g := range p.All() {
		if g.Op == "call" && g.S == "math.IsNaN" {
			return true
		}
	}
	return false
}

// local is the array made here that a term stands for.
func (m *meas) local(t *Term) *Term {
	t = strip(t)
	if t.Op == "load" {
		if v := m.held(t.Args[0]); v != nil {
			t = v
		}
	}
	if t.Op == "makeslice" {
		return t
	}
	return nil
}

func (m *meas) j() *Term { return sym("bound", "j", nil) }

// counted is what an array made here holds at j once it has been filled: how many of the cases, or of
// those a condition picks, have the category j.
func (m *meas) counted(arr *Term) *Term {
	if v, ok := m.own[arr]; ok {
		return v
	}
	m.own[arr] = nil
	v := m.count(arr)
	m.own[arr] = v
	return v
}

func (m *meas) count(arr *Term) *Term {
	var k *Cut
	var filled *Event
	hits := map[*Path]int{}
	ok := true
	var cat *Term
	m.e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			switch ev.Kind {
			case "store":
				a, i := addrElem(strip(ev.Addr))
				if a == nil || m.local(a) != arr {
					continue
				}
				oa, oi := elem(addI(strip(ev.Val), -1))
				if oa == nil || m.local(oa) != arr || oi != i {
					ok = false
					m.say("a count becomes " + ev.Val.String())
					continue
				}
				h := m.e.loopOf(ev)
				if h == nil || k != nil && k != h || cu != h {
					ok = false
					continue
				}
				k = h
				hits[p]++
				if r, off, _ := m.loopIndex(h); r == nil {
					ok = false
				} else if c := m.turn(r, off, i); cat == nil || cat == c {
					cat = c
				} else {
					ok = false
				}
			case "call":
				for _, x := range ev.Args {
					if x != arr && m.held(x) != arr {
						continue
					}
					if a := ev.Args; strings.HasSuffix(ev.Name, "CountPerCat") && len(a) == 3 && a[2] == x && m.passed(a[1], m.s.cases) {
						filled = ev
					} else {
						ok = false
					}
				}
			}
		}
	})
	mentions := func(p *Path) bool {
		for _, t := range p.All() {
			if t.has(arr) {
				return true
			}
		}
		for s, t := range p.Phi {
			if t.has(arr) && t != arr && s != arr {
				return true
			}
		}
		for _, t := range p.Ret {
			if t.has(arr) {
				return true
			}
		}
		return false
	}
	switch {
	case !ok || (k == nil) == (filled == nil):
		m.say("it is not known what is counted")
		return nil
	case filled != nil:
		fills := func(p *Path) bool {
			for _, ev := range p.Events {
				if ev.In == filled.In {
					return true
				}
			}
			return false
		}
		if m.e.reaches(fills, mentions) != nil {
			m.say("the counts are read before the cases are counted")
			return nil
		}
		return mk("n", "", m.j())
	}
	r, off, dom := m.loopIndex(k)
	want := map[string]*Term{"cases": m.cs(), "all": m.i}[dom]
	if want == nil || cat == nil || cat != mk("cat", "", want) && cat != mk("trunc", "", mk("x", "", want)) && !(cat.Op == "trunc" && cat.Args[0] == mk("x", "", want)) {
		m.say("what is counted is not the category of every case in turn")
		return nil
	}
	in := m.e.members(k)
	done := func(p *Path) bool { return p.To != k && in[p.From] && !in[p.To] || p.From == k && p.To == nil }
	if m.e.reaches(done, func(p *Path) bool { return !in[p.From] && mentions(p) }) != nil {
		m.say("the counts are read before the cases are counted")
		return nil
	}
	_, back := m.e.into(k)
	always := true
	for _, p := range back {
		always = always && hits[p] == 1
		if hits[p] > 1 || p.From != k {
			return nil
		}
	}
	if always && dom == "cases" {
		return mk("n", "", m.j())
	}
	if always {
		return mk("count", dom, m.j())
	}
	for _, cond := range m.names() {
		by := map[string]int{}
		good := true
		for _, p := range back {
			l := m.label(cond, r, off, p)
			if v, ok := by[l]; ok && v != hits[p] {
				good = false
			}
			by[l] = hits[p]
		}
		for l, n := range by {
			if n == 1 && good && l != "?" && len(by) == 2 && by["?"] == 0 {
				return mk("count", dom+l, m.j())
			}
		}
	}
	m.say("it is not decided which cases are counted")
	return nil
}

// sigma is the sum of a term over a domain with everything that does not change taken out.
func (m *meas) sigma(dom, label string, t *Term) *Term {
	out := intT(0)
	for _, mo := range asPoly(t).M {
		in, vary := polyTerm(&Poly{[]Mono{{mo.C, nil}}}), polyTerm(&Poly{[]Mono{{big.NewRat(1, 1), nil}}})
		for _, f := range mo.F {
			ft := polyTerm(&Poly{[]Mono{{big.NewRat(1, 1), []Factor{f}}}})
			if f.T.has(m.i) && !(f.T.Op == "sum" || f.T.Op == "argmax") {
				vary = mulT(vary, ft)
			} else {
				in = mulT(in, ft)
			}
		}
		s := mk("sum", dom+label, vary)
		if isOne(vary) && dom == "cases" && label == "" {
			s = m.t
		}
		out = addT(out, mulT(in, s))
	}
	return out
}

// closed is what a loop leaves in a variable.
func (m *meas) closed(s *Term) *Term {
	if v, ok := m.memo[s]; ok {
		return v
	}
	k := m.e.phiCut(s)
	if k == nil || m.busy[s] {
		return nil
	}
	m.busy[s] = true
	defer func() { m.busy[s] = false }()
	if !k.Loop {
		// merged before a loop: the same on all ways in
		var v *Term
		for _, x := range m.e.phiIn(s) {
			if y := m.value(x); v == nil || v == y {
				v = y
			} else {
				return nil
			}
		}
		m.memo[s] = v
		return v
	}
	if p := m.e.plain(s); p != s {
		return m.value(p)
	}
	r, off, dom := m.loopIndex(k)
	if r == nil || r == s {
		return nil
	}
	v := m.total(s, k, r, off, dom)
	if v == nil {
		v = m.argmax(s, k, r, off, dom)
	}
	if v != nil {
		m.memo[s] = v
	}
	return v
}

func (m *meas) total(s *Term, k *Cut, r, off *Term, dom string) *Term {
	sum := m.e.sum(s)
	if sum == nil {
		return nil
	}
	var start *Term
	for _, v := range sum.init {
		if x := m.value(v); start == nil || start == x {
			start = x
		} else {
			return nil
		}
	}
	same := true
	var first *Term
	for _, t := range sum.turns {
		if v := m.turn(r, off, t.v); first == nil {
			first = v
		} else {
			same = same && first == v
		}
	}
	if same {
		return addT(start, m.sigma(dom, "", first))
	}
	for _, cond := range m.names() {
		adds := map[string]*Term{}
		good := true
		for _, t := range sum.turns {
			if vague(t.p) {
				continue
			}
			l, v := m.label(cond, r, off, t.p), m.turn(r, off, t.v)
			if adds[l] != nil && adds[l] != v {
				m.say("the terms of a sum do not depend on " + condName(m) + " alone")
				good = false
			}
			adds[l] = v
		}
		if adds["?"] != nil {
			m.say("it is not decided which elements are part of a sum")
			good = false
		}
		if !good {
			continue
		}
		if m.s.zero && isZero(adds["-"]) {
			return addT(start, m.sigma(dom, "", adds["+"]))
		}
		out := start
		for _, l := range []string{cond + "+", cond + "-"} {
			if adds[l] != nil {
				out = addT(out, m.sigma(dom, l, adds[l]))
			}
		}
		return out
	}
	return nil
}

func condName(m *meas) string {
	if n := m.names(); len(n) > 0 && n[0] != "" {
		return "being " + strings.Join(n, " or ")
	}
	if m.s.cond == nil {
		return "nothing"
	}
	return m.s.cond(m)[0].String()
}

// argmax is the first index with the greatest positive score, or else what it is before the loop.
func (m *meas) argmax(s *Term, k *Cut, r, off *Term, dom string) *Term {
	for _, cond := range append([]string{""}, m.names()...) {
		for g := range k.symbols(m.e) {
			if g == s || g == r {
				continue
			}
			if v := m.argmaxBy(cond, g, s, k, r, off, dom); v != nil {
				return v
			}
		}
	}
	return m.argmaxByPlace(s, k, r, off, dom)
}

// argmaxByPlace is the same for counts when only the place is kept and the greatest is looked up there.
func (m *meas) argmaxByPlace(s *Term, k *Cut, r, off *Term, dom string) (out *Term) {
	enter, back := m.e.into(k)
	var list *Term
	for _, p := range back {
		if subT(p.next(r), r) != intT(1) {
			return nil
		}
		if ns := m.e.plain(p.next(s)); ns != s && !decideEq(ns, addT(r, off)) {
			return nil
		}
		elems(p, addT(r, off), func(*Term) bool { return true }, func(x, i *Term) {
			if v := m.turn(r, off, x); v != nil && out == nil {
				out = v
				list, _ = elem(x)
			}
		})
	}
	if out == nil || m.e.argmaxByPlace(s, enter, back, func(arr *Term) bool { return arr == list }) == nil {
		return nil
	}
	return m.best(dom, map[string]*Term{"?": out})
}

func (m *meas) argmaxBy(cond string, g, s *Term, k *Cut, r, off *Term, dom string) *Term {
	enter, back := m.e.into(k)
	ok := len(enter) > 0 && len(back) > 0
	var first *Term
	for _, p := range enter {
		v := m.value(p.next(s))
		ok = ok && isZero(p.next(g)) && (first == nil || first == v)
		first = v
	}
	scores := map[string]*Term{}
	for _, p := range back {
		// the first of equals is what a search that goes up keeps
		ok = ok && subT(p.next(r), r) == intT(1)
		ns, ng := m.e.plain(p.next(s)), m.e.plain(p.next(g))
		if ns == s && ng == g {
			continue
		}
		ok = ok && decideEq(ns, addT(r, off)) && !ng.has(g) && (p.holds(mk("lt", "", g, ng)) || p.holds(ge0(addI(subT(ng, g), -1))))
		if !ok {
			break
		}
		l, v := m.label(cond, r, off, p), m.turn(r, off, ng)
		ok = scores[l] == nil || scores[l] == v
		scores[l] = v
	}
	for _, p := range back {
		if !ok || m.e.plain(p.next(s)) != s || m.e.plain(p.next(g)) != g {
			continue
		}
		kept := false
		l := m.label(cond, r, off, p)
		for _, f := range p.All() {
			var v *Term
			switch {
			case f.Op == "not" && f.Args[0].Op == "lt" && f.Args[0].Args[0] == g:
				v = f.Args[0].Args[1]
			case f.Op == "le" && f.Args[1] == g:
				v = f.Args[0]
			case f.Op == "ge0":
				v = subT(g, f.Args[0])
			}
			if v != nil && !v.has(g) && m.turn(r, off, v) == scores[l] && scores[l] != nil {
				kept = true
			}
		}
		ok = ok && kept
	}
	if !ok || len(scores) == 0 {
		return nil
	}
	if !isZero(first) {
		dom += " or " + first.String()
	}
	return m.best(dom, scores)
}

func (m *meas) best(dom string, scores map[string]*Term) *Term {
	var labels []string
	for l := range scores {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	var args []*Term
	for _, l := range labels {
		if v := scores[l]; len(args) == 0 || args[0] != v {
			args = append(args, v)
		}
	}
	return mk("argmax", dom, args...)
}

func (m *meas) greatest(score *Term) *Term {
	return m.best("cats", map[string]*Term{"?": score})
}

// facts of a path in the terms of the measure.
func (m *meas) facts(p *Path) (out []*Term) {
	for _, g := range p.All() {
		out = append(out, m.value(g))
	}
	return
}

func (c *Check) measure(s *measure) {
	var f *ssa.Function
	name := s.fn
	if s.typ == "" {
		f = c.fn("", s.fn)
	} else {
		name = s.typ + "." + s.fn
		f = c.method(s.typ, s.fn)
	}
	if f == nil {
		return
	}
	key := "measure/" + name
	for _, n := range []int{s.cases, s.counter, s.total, s.feature} {
		if n >= len(f.Params) {
			c.bad(key, f.Pos(), "undecided: %s has other parameters", name)
			return
		}
	}
	e := c.run(f, "measure", Options{Opaque: opaque(append(s.opaque, "*.CountPerCat", "*.NCats", "*.Geti", "*.NumToCat")...)})
	if e == nil {
		return
	}
	m := &meas{c: c, e: e, s: s, i: sym("bound", "i", nil), t: sym("bound", "|cases|", nil), memo: map[*Term]*Term{}, busy: map[*Term]bool{}, own: map[*Term]*Term{}}
	if s.fill {
		fills := func(p *Path) bool {
			for _, ev := range p.calls("CountPerCat") {
				if a := ev.Args; len(a) == 3 && a[1] == e.param(s.cases) && a[2] == e.param(s.counter) {
					return true
				}
			}
			return false
		}
		if p := e.reaches(fills, func(p *Path) bool { return p.End == "return" || p.To != nil && p.To.Loop }); p != nil {
			c.bad(key+"/counted", instrPosOf(p), "%s reads the counts before the cases it is given have been counted", name)
		}
		c.ob(name, "the counts are those of the cases it is given")
	}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if arr, _ := addrElem(ev.Addr); arr != nil && m.is(strip(arr), s.counter) {
					c.bad(key+"/written", instrPos(ev.In), "%s changes the counts it computes the impurity from", name)
				}
			}
		}
	})
	n := 0
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" {
			return
		}
		facts := m.facts(p)
		for j, w := range s.want(m, facts) {
			if j >= len(p.Ret) {
				c.bad(key, f.Pos(), "undecided: %s returns fewer values", name)
				return
			}
			got := m.value(p.Ret[j])
			n++
			if w == nil {
				c.bad(key, instrPos(p.RetIn), "undecided: %s returns %s, and it is not known which case of %s this is", name, got, s.what)
				continue
			}
			if !sameReal(got, w) {
				extra := ""
				if m.why != "" {
					extra = " (" + m.why + ")"
				}
				c.bad(key, instrPos(p.RetIn), "%s returns %s, and not %s, which is %s%s", name, got, s.what, w, extra)
			}
			c.ob(name, s.what)
		}
	})
	if n == 0 {
		c.bad(key, f.Pos(), "undecided: %s returns nothing that could be compared with %s", name, s.what)
	}
}

func one(f func(m *meas) *Term) func(m *meas, facts []*Term) []*Term {
	return func(m *meas, facts []*Term) []*Term { return []*Term{f(m)} }
}

func ifMissing(m *meas) []*Term { return []*Term{m.missing()} }
func ifPresent(m *meas) []*Term { return []*Term{ge0(addI(m.n(), -1)), notT(eq0(m.n()))} }

func measures() (out []*measure) {
	add := func(ms ...*measure) { out = append(out, ms...) }
	sq := func(t *Term) *Term { return mulT(t, t) }
	gini := one(func(m *meas) *Term { return subT(intT(1), divT(m.sigma("cats", "", sq(m.n())), sq(m.t))) })
	const giniIs = "1 - Σ(n_i/n)², the Gini impurity"
	add(&measure{typ: "DenseCatFeature", fn: "GiniWithoutAlocate", cases: 1, counter: 2, fill: true, zero: true, cond: ifPresent, want: gini, what: giniIs},
		&measure{typ: "DenseCatFeature", fn: "Impurity", cases: 1, counter: 2, fill: true, zero: true, cond: ifPresent, want: gini, what: giniIs},
		&measure{typ: "DenseCatFeature", fn: "ImpFromCounts", total: 1, counter: 2, zero: true, cond: ifPresent, want: gini, what: giniIs})

	entropy := one(func(m *meas) *Term {
		p := divT(m.n(), m.t)
		return negT(m.sigma("cats", "+", mulT(p, mk("log", "", p))))
	})
	dentropy := one(func(m *meas) *Term {
		p := divT(m.n(), m.t)
		return negT(m.sigma("cats", "+", mulT(m.w("Costs", m.i), mulT(p, mk("log", "", p)))))
	})
	const entIs, dentIs = "-Σ p_i ln p_i over the categories that occur, the entropy", "-Σ cost_i p_i ln p_i over the categories that occur, the disutility entropy"
	add(&measure{typ: "EntropyTarget", fn: "Impurity", cases: 1, counter: 2, fill: true, cond: ifPresent, want: entropy, what: entIs},
		&measure{typ: "EntropyTarget", fn: "ImpFromCounts", total: 1, counter: 2, cond: ifPresent, want: entropy, what: entIs},
		&measure{typ: "DEntropyTarget", fn: "Impurity", cases: 1, counter: 2, fill: true, cond: ifPresent, want: dentropy, what: dentIs},
		&measure{typ: "DEntropyTarget", fn: "ImpFromCounts", total: 1, counter: 2, cond: ifPresent, want: dentropy, what: dentIs})

	wrf := one(func(m *meas) *Term {
		nw := mulT(m.n(), m.w("Weights", m.i))
		return subT(intT(1), divT(m.sigma("cats", "", sq(nw)), sq(m.sigma("cats", "", nw))))
	})
	const wrfIs = "1 - Σ(w_i n_i)²/(Σ w_i n_i)², the weighted Gini impurity"
	add(&measure{typ: "WRFTarget", fn: "Impurity", cases: 1, counter: 2, fill: true, zero: true, cond: ifPresent, want: wrf, what: wrfIs},
		&measure{typ: "WRFTarget", fn: "ImpFromCounts", counter: 1, zero: true, cond: ifPresent, want: wrf, what: wrfIs})

	costly := func(m *meas) *Term { return mulT(m.w("Costs", m.i), m.n()) }
	regret := one(func(m *meas) *Term { return divT(m.sigma("cats", "-", costly(m)), m.t) })
	isCostly := func(m *meas) []*Term { return []*Term{eq0(subT(m.i, m.greatest(costly(m))))} }
	const regIs = "the average cost of the cases that are not of the costliest category"
	add(&measure{typ: "RegretTarget", fn: "Impurity", cases: 1, counter: 2, fill: true, cond: isCostly, want: regret, what: regIs},
		&measure{typ: "RegretTarget", fn: "ImpFromCounts", total: 1, counter: 2, cond: isCostly, want: regret, what: regIs})

	isPos := func(m *meas) []*Term { return []*Term{eq0(subT(m.i, m.f("Posi")))} }
	np := func(m *meas, facts []*Term) []*Term {
		major := m.best("cats", map[string]*Term{"+": divT(m.n(), m.f("Alpha")), "-": m.n()})
		switch decide(facts, eq0(subT(m.f("Posi"), major))) {
		case 1:
			return []*Term{mulT(m.f("Kappa"), maxT(subT(divT(m.sigma("cats", "-", m.n()), m.t), m.f("Alpha")), intT(0)))}
		case 0:
			return []*Term{divT(m.sigma("cats", "+", m.n()), m.t)}
		}
		return []*Term{nil}
	}
	const npIs = "the rate of false negatives or, where the positive class is predicted, κ times the excess of false positives over α"
	add(&measure{typ: "NPTarget", fn: "Impurity", cases: 1, counter: 2, fill: true, cond: isPos, want: np, what: npIs},
		&measure{typ: "NPTarget", fn: "ImpFromCounts", total: 1, counter: 2, cond: isPos, want: np, what: npIs})

	isMajor := func(m *meas) []*Term { return []*Term{eq0(subT(m.cat(), m.greatest(m.n())))} }
	ada := one(func(m *meas) *Term { return m.sigma("cases", "-", m.w("Weights", m.cs())) })
	cost := one(func(m *meas) *Term {
		return m.sigma("cases", "-", mulT(m.w("Weights", m.cs()), m.w("Costs", m.cat())))
	})
	const adaIs, costIs = "the weight of the cases that are not of the majority class", "the weight times the cost of the cases that are not of the majority class"
	add(&measure{typ: "AdaBoostTarget", fn: "Impurity", cases: 1, counter: 2, fill: true, cond: isMajor, want: ada, what: adaIs},
		&measure{typ: "AdaBoostTarget", fn: "ImpFromCounts", cases: 1, counter: 2, cond: isMajor, want: ada, what: adaIs},
		&measure{typ: "AdaCostTarget", fn: "Impurity", cases: 1, counter: 2, fill: true, cond: isMajor, want: cost, what: costIs},
		&measure{typ: "AdaCostTarget", fn: "ImpFromCounts", cases: 1, counter: 2, cond: isMajor, want: cost, what: costIs})

	there := func(m *meas) *Term { return m.sigma("cases", "-", intT(1)) }
	add(&measure{typ: "NumAdaBoostTarget", fn: "Impurity", cases: 1, cond: ifMissing, what: "the weighted distance of the cases from the prediction",
		want: one(func(m *meas) *Term {
			return m.sigma("cases", "-", mulT(m.w("Weights", m.cs()), mk("norm", "", m.cs(), mk("inner", "Predicted"))))
		})},
		&measure{typ: "L1Target", fn: "Impurity", cases: 1, cond: ifMissing, what: "the mean distance of the cases from their mean",
			want: one(func(m *meas) *Term {
				return divT(m.sigma("cases", "-", absT(subT(mk("inner", "Mean"), m.x()))), there(m))
			})},
		&measure{typ: "L1Target", fn: "Error", cases: 1, cond: ifMissing, what: "the mean distance of the cases from the prediction",
			want: one(func(m *meas) *Term {
				return divT(m.sigma("cases", "-", absT(subT(m.e.param(2), m.x()))), there(m))
			})},
		&measure{typ: "DenseNumFeature", fn: "SumAndSumSquares", cases: 1, what: "the sum of the values and the sum of their squares",
			want: func(m *meas, facts []*Term) []*Term {
				return []*Term{m.sigma("cases", "", m.x()), m.sigma("cases", "", sq(m.x()))}
			}},
		&measure{typ: "DenseNumFeature", fn: "Impurity", cases: 1, what: "Σx² - (Σx)²/n, the squared distance of the cases from their mean",
			want: one(func(m *meas) *Term {
				return subT(m.sigma("cases", "", sq(m.x())), divT(sq(m.sigma("cases", "", m.x())), m.t))
			})},
		&measure{typ: "DenseNumFeature", fn: "Mean", cases: 1, cond: ifMissing, what: "the mean of the values that are not missing",
			want: one(func(m *meas) *Term { return divT(m.sigma("cases", "-", m.x()), there(m)) })},
		&measure{typ: "DenseNumFeature", fn: "Error", cases: 1, cond: ifMissing, what: "the mean squared distance of the values that are not missing from the prediction",
			want: one(func(m *meas) *Term {
				return divT(m.sigma("cases", "-", sq(subT(m.e.param(2), m.x()))), there(m))
			})},
		&measure{typ: "DenseNumFeature", fn: "Norm", what: "the distance of a case from a value",
			want: one(func(m *meas) *Term { return absT(subT(mk("x", "", m.e.param(1)), m.e.param(2))) })},
		&measure{typ: "DenseNumFeature", fn: "Predicted", cases: 1, opaque: []string{"DenseNumFeature.Mean"}, what: "the mean of the cases",
			want: one(func(m *meas) *Term { return mk("inner", "Mean") })},
		&measure{typ: "OrdinalTarget", fn: "Predicted", cases: 1, opaque: []string{"OrdinalTarget.Mode"}, what: "the mode of the cases",
			want: one(func(m *meas) *Term { return mk("inner", "Mode") })},
		&measure{typ: "OrdinalTarget", fn: "Impurity", cases: 1, opaque: []string{"OrdinalTarget.Predicted", "OrdinalTarget.Mode"}, what: "the error of the cases against their mode",
			want: one(func(m *meas) *Term { return mk("error", "", mk("inner", "Mode")) })},
		&measure{typ: "GradBoostTarget", fn: "Sum", cases: 1, what: "the sum of the values",
			want: one(func(m *meas) *Term { return m.sigma("cases", "", m.x()) })},
		&measure{typ: "", fn: "FriedmanScore", what: "Friedman's improvement score n_l n_r (mean_l - mean_r)²/(n_l + n_r)",
			want: one(func(m *meas) *Term {
				nl, nr := mk("size", "", intT(1)), mk("size", "", intT(2))
				d := subT(divT(m.f("Lsum"), nl), divT(m.f("Rsum"), nr))
				return divT(mulT(mulT(sq(d), nl), nr), addT(nl, nr))
			})},
		&measure{typ: "HDistanceTarget", fn: "HDist", what: "the distance of the shares of the two classes that go to either side",
			want: one(func(m *meas) *Term {
				at := func(side, class int64) *Term { return mk("e", "", intT(side), intT(class)) }
				all := func(class int64) *Term { return addT(at(1, class), at(2, class)) }
				d := func(side int64) *Term {
					return sq(subT(divT(at(side, 0), all(0)), divT(at(side, 1), all(1))))
				}
				return addT(d(1), d(2))
			})},
		&measure{typ: "TransTarget", fn: "Impurity", cases: 1, opaque: []string{"TransTarget.Density"}, what: "the impurity of the labelled cases plus α times the density",
			want: func(m *meas, facts []*Term) []*Term {
				inner := mk("inner", "Impurity")
				if decide(facts, eqT(m.f("Alpha"), intT(0), types.Typ[types.Float64])) == 1 {
					return []*Term{inner}
				}
				return []*Term{addT(inner, mulT(m.f("Alpha"), mk("inner", "Density")))}
			}})
	return
}

// counting: CountPerCat leaves in the counter, for every category, how many of the cases have it.
func (c *Check) counting() {
	const name = "DenseCatFeature.CountPerCat"
	f := c.method("DenseCatFeature", "CountPerCat")
	if f == nil {
		return
	}
	key := "measure/" + name
	e := c.run(f, "measure", Options{})
	if e == nil || len(f.Params) != 3 {
		c.bad(key, f.Pos(), "undecided: %s has other parameters", name)
		return
	}
	cases, counter := e.param(1), e.param(2)
	list := func(a *Term) func(*Term) bool {
		return func(t *Term) bool { return isLoadOf(strip(t), a) }
	}
	var zero, count []*Cut
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			arr, idx := addrElem(strip(ev.Addr))
			if arr == nil || !list(counter)(arr) {
				if ev.Addr.Op == "alloc" {
					continue
				}
				c.bad(key, instrPos(ev.In), "%s writes %s, which is no count", name, ev.Addr)
				continue
			}
			k := e.loopOf(ev)
			if k == nil {
				c.bad(key, instrPos(ev.In), "undecided: %s changes a count outside a loop", name)
				continue
			}
			if isZero(ev.Val) {
				zero = append(zero, k)
				if !e.overAll(k, idx, list(counter)) || !e.eachTurnOnce(k, ev) {
					c.bad(key+"/zero", instrPos(ev.In), "not every count is set to zero before the cases are counted")
				}
				continue
			}
			count = append(count, k)
			if msg := e.countsOne(k, ev, cases, 1); msg != "" {
				c.bad(key+"/count", instrPos(ev.In), "not every case is counted once under its category: %s", msg)
			}
		}
	})
	if len(zero) != 1 || len(count) != 1 {
		c.bad(key, f.Pos(), "undecided: %s does not set the counts to zero and then count the cases", name)
		return
	}
	done := func(k *Cut) func(*Path) bool {
		return func(p *Path) bool { return p.To == k && !e.members(k)[p.From] }
	}
	if p := e.reaches(done(zero[0]), done(count[0])); p != nil {
		c.bad(key+"/zero", instrPosOf(p), "the cases are counted on top of what the counter held")
	}
	if p := e.reachesFrom(count[0], func(*Path) bool { return false }, done(zero[0])); p != nil {
		c.bad(key+"/zero", instrPosOf(p), "the counts are set to zero after the cases were counted")
	}
	if p := e.reaches(done(count[0]), func(p *Path) bool { return p.End == "return" }); p != nil {
		c.bad(key+"/count", instrPosOf(p), "%s may return without counting the cases", name)
	}
	c.ob(name, "every count starts at zero and every case is counted once")
}

// countsOne: every turn of the loop at k takes the next case of a list and changes the count of its
// category by d, with the store ev, once.
func (e *Exec) countsOne(k *Cut, ev *Event, cases *Term, d int64) string {
	arr, cat := addrElem(strip(ev.Addr))
	old, oi := elem(addI(strip(ev.Val), -d))
	if old != arr || oi != cat {
		return "the count becomes " + ev.Val.String()
	}
	var cs *Term
	if o, i := elemField(cat, ".CatData"); o != nil {
		cs = i
	} else if a := isCall(cat, "Geti"); len(a) == 2 {
		cs = a[1]
	}
	l, i := elem(cs)
	if l == nil || !isLoadOf(l, cases) {
		return cat.String() + " is not the category of a case that is given"
	}
	if !e.overAll(k, i, func(t *Term) bool { return isLoadOf(strip(t), cases) }) {
		return "the loop does not go through all cases"
	}
	if !e.eachTurnOnce(k, ev) {
		return "a turn does not do it exactly once"
	}
	return ""
}

// eachTurnOnce: every turn of the loop at k comes once to the instruction of ev.
func (e *Exec) eachTurnOnce(k *Cut, ev *Event) bool {
	n := func(p *Path) (n int) {
		for _, x := range p.Events {
			if x.In == ev.In {
				n++
			}
		}
		return
	}
	return e.oncePerTurn(k, n) && e.everyTurn(k, func(p *Path) bool { return n(p) > 0 })
}

func (c *Check) impurities() {
	for _, s := range measures() {
		c.measure(s)
	}
	c.counting()
}

func init() {
	register(&Rule{ID: "C12", What: "every impurity is the measure it is documented to be: path summaries of every impurity function, with each loop closed to a sum over the cases or the categories, compared as normal forms over the reals with the definition", Min: 30,
		Assume: []string{"arithmetic is exact: rounding and overflow are not modelled"}, Run: (*Check).impurities})
}
