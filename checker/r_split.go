package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// routing describes the specified routing of a case at a split: missing cases stay in the middle,
// the others go left or right.
type routing struct {
	// miss classifies a condition: the case, and whether the condition says it is missing.
	miss func(g *Term) (x *Term, missing bool, ok bool)
	// left classifies a condition: the case, and whether the condition says it goes left.
	left func(g *Term) (x *Term, left bool, ok bool)
}

func denseRouting(recv *Term, typ string, leftOf func(g *Term) (*Term, bool, bool)) routing {
	return routing{
		miss: func(g *Term) (*Term, bool, bool) {
			pos := true
			if g.Op == "not" {
				pos, g = false, g.Args[0]
			}
			if o := field(g, typ+".HasMissing"); o == recv && !pos {
				return nil, false, true
			}
			if o, i := elemField(g, typ+".Missing"); o == recv {
				return i, pos, true
			}
			return nil, false, false
		},
		left: leftOf,
	}
}

// numLeft: value(x) <= split.
func numLeft(value func(t *Term) *Term, isSplit func(t *Term) bool) func(g *Term) (*Term, bool, bool) {
	return func(g *Term) (*Term, bool, bool) {
		pos := true
		if g.Op == "not" {
			pos, g = false, g.Args[0]
		}
		if g.Op == "le" {
			if x := value(g.Args[0]); x != nil && isSplit(g.Args[1]) {
				return x, pos, true
			}
		}
		if g.Op == "lt" { // split < value: goes right
			if x := value(g.Args[1]); x != nil && isSplit(g.Args[0]) {
				return x, !pos, true
			}
		}
		return nil, false, false
	}
}

func bitLeft(recv *Term, isSplit func(t *Term) bool) func(g *Term) (*Term, bool, bool) {
	return func(g *Term) (*Term, bool, bool) {
		pos := true
		if g.Op == "not" {
			pos, g = false, g.Args[0]
		}
		if g.Op == "bit" && isSplit(g.Args[0]) {
			if o, x := elemField(g.Args[1], "DenseCatFeature.CatData"); o == recv {
				return x, pos, true
			}
		}
		return nil, false, false
	}
}

func numValue(recv *Term) func(t *Term) *Term {
	return func(t *Term) *Term {
		if o, x := elemField(t, "DenseNumFeature.NumData"); o == recv {
			return x
		}
		return nil
	}
}

func assertOf(v *Term, typ string) func(t *Term) bool {
	return func(t *Term) bool { return t.Op == "typeassert" && t.S == typ && t.Args[0] == v }
}

// splitters lists the functions that partition cases and their specified routing.
func (c *Check) splitters(visit func(name string, e *Exec, rt routing, points bool)) {
	for _, s := range []struct {
		typ, name string
		points    bool
	}{{"DenseNumFeature", "Split", false}, {"DenseNumFeature", "SplitPoints", true}, {"DenseCatFeature", "Split", false},
		{"DenseCatFeature", "SplitPoints", true}, {"Splitter", "Split", false}} {
		f := c.method(s.typ, s.name)
		e := c.run(f, "", Options{})
		if e == nil {
			continue
		}
		recv := e.param(0)
		var rt routing
		switch s.typ {
		case "DenseNumFeature":
			rt = denseRouting(recv, s.typ, numLeft(numValue(recv), assertOf(e.param(1), "float64")))
		case "DenseCatFeature":
			isInt, isBig := assertOf(e.param(1), "int"), assertOf(e.param(1), "*math/big.Int")
			rt = denseRouting(recv, s.typ, bitLeft(recv, func(t *Term) bool { return isInt(t) || isBig(t) }))
		case "Splitter":
			fm := e.param(1)
			isF := func(t *Term) bool {
				o, i := elemField(t, "FeatureMatrix.Data")
				if o != fm || i == nil {
					return false
				}
				if i.Op == "lookup" && field(i.Args[0], "FeatureMatrix.Map") == fm && field(i.Args[1], "Splitter.Feature") == recv {
					return true
				}
				return false
			}
			rt = routing{
				miss: func(g *Term) (*Term, bool, bool) {
					pos := true
					if g.Op == "not" {
						pos, g = false, g.Args[0]
					}
					if a := isCall(g, "MissingVals"); a != nil && isF(a[0]) && !pos {
						return nil, false, true
					}
					if a := isCall(g, "IsMissing"); a != nil && isF(a[0]) {
						return a[1], pos, true
					}
					return nil, false, false
				},
				left: func(g *Term) (*Term, bool, bool) {
					pos := true
					if g.Op == "not" {
						pos, g = false, g.Args[0]
					}
					if a := isCall(g, "GoesLeft"); a != nil && isF(a[0]) && a[2] == recv {
						return a[1], pos, true
					}
					return nil, false, false
				},
			}
		}
		visit(s.typ+"."+s.name, e, rt, s.points)
	}
}

func bound(t *Term, dflt *Term) *Term {
	if t.Op == "none" {
		return dflt
	}
	return t
}

// partition decides that the loop of e sorts its cases into left, missing and right by rt.
func (c *Check) partition(name string, e *Exec, rt routing, points bool) {
	key := "partition/" + name
	pos := e.Root.Pos()
	done := 0
	for _, k := range e.loopCuts() {
		var A, B, base *Term
		okRet := true
		n := 0
		for _, p := range e.leaving(k) {
			if p.End == "panic" || p.End == "exit" {
				continue
			}
			if p.End != "return" || p.From != k {
				okRet = false
				continue
			}
			var a, b, bs *Term
			if points {
				if len(p.Ret) != 2 {
					okRet = false
					continue
				}
				a, b = p.Ret[0], p.Ret[1]
			} else {
				if len(p.Ret) != 3 || p.Ret[0].Op != "slice" || p.Ret[1].Op != "slice" || p.Ret[2].Op != "slice" {
					okRet = false
					continue
				}
				l, r, m := p.Ret[0], p.Ret[1], p.Ret[2]
				bs = l.Args[0]
				whole := lenT(bs)
				if r.Args[0] != bs || m.Args[0] != bs {
					c.bad(key, instrPos(p.RetIn), "%s returns parts of different arrays", name)
					continue
				}
				a, b = bound(l.Args[2], whole), bound(r.Args[1], intT(0))
				if bound(l.Args[1], intT(0)) != intT(0) || bound(r.Args[2], whole) != whole || bound(m.Args[1], intT(0)) != a || bound(m.Args[2], whole) != b {
					c.bad(key, instrPos(p.RetIn), "%s returns left %v, right %v and missing %v, which do not cover the cases exactly once", name, l, r, m)
					continue
				}
			}
			if A != nil && (A != a || B != b) {
				okRet = false
			}
			A, B, base = a, b, bs
			n++
		}
		if n == 0 {
			continue
		}
		if !okRet {
			c.bad(key, pos, "undecided: the loop at %s is left in more than one way", c.P.Pos(blockPos(k.B)))
			continue
		}
		done++
		// what the loop reads
		enter, back := e.into(k)
		var I *Term
		type step struct {
			p    *Path
			x    *Term
			kind string
		}
		var steps []step
		elemVer := k.In.ver["E:int"]
		old := func(t *Term) (idx *Term) {
			arr, i := elem(t)
			if arr == nil || t.Ver != elemVer {
				return nil
			}
			if base == nil {
				base = arr
			}
			if !sameLoc(arr, base) {
				return nil
			}
			return i
		}
		bad := false
		for _, p := range back {
			if p.From != k {
				c.bad(key, blockPos(p.From.B), "undecided: %s has a nested loop", name)
				bad = true
				break
			}
			var x *Term
			missing, nonmissing, left, right := false, false, false, false
			for _, g := range p.Guards {
				if y, m, ok := rt.miss(g); ok {
					if y != nil {
						if x != nil && x != y {
							bad = true
						}
						x = y
					}
					if m {
						missing = true
					} else {
						nonmissing = true
					}
				} else if y, l, ok := rt.left(g); ok {
					if x != nil && x != y {
						bad = true
					}
					x = y
					if l {
						left = true
					} else {
						right = true
					}
				}
			}
			at := p.GPos
			wp := blockPos(k.B)
			if len(at) > 0 {
				wp = at[len(at)-1]
			}
			switch {
			case x == nil || bad:
				c.bad(key, wp, "an iteration of %s does not decide where one case goes by the specified tests (missing, then the split)", name)
				bad = true
			case missing:
				steps = append(steps, step{p, x, "missing"})
			case !nonmissing:
				c.bad(key, wp, "an iteration of %s sends a case left or right without testing whether its value is missing", name)
				bad = true
			case left:
				steps = append(steps, step{p, x, "left"})
			case right:
				steps = append(steps, step{p, x, "right"})
			default:
				c.bad(key, wp, "an iteration of %s moves a case without the specified test of the split", name)
				bad = true
			}
			if bad {
				break
			}
			i := old(x)
			if i == nil || (I != nil && I != i) {
				c.bad(key, wp, "an iteration of %s tests something else than the case at the cursor: %v", name, x)
				bad = true
				break
			}
			I = i
		}
		if bad || I == nil {
			continue
		}
		for _, p := range enter {
			a0, b0, i0 := p.next(A), p.next(B), p.next(I)
			if !sameVal(p, a0, intT(0)) || !sameVal(p, b0, lenT(base)) || !sameVal(p, i0, intT(0)) {
				c.bad(key, blockPos(k.B), "%s starts with left=[0,%v) right=[%v,len) cursor=%v instead of an empty left, an empty right and the first case", name, a0, b0, i0)
			}
			c.ob(name, "start: empty left and right parts, cursor at the first case")
		}
		for _, p := range e.leaving(k) {
			if p.End == "return" {
				if !p.holds(ge0(subT(I, B))) {
					c.bad(key, blockPos(k.B), "%s stops before every case has been tested (it may stop while %v < %v)", name, I, B)
				}
				c.ob(name, "end: every case tested, parts cover the cases")
			}
		}
		for _, s := range steps {
			p := s.p
			wp := blockPos(k.B)
			if len(p.GPos) > 0 {
				wp = p.GPos[len(p.GPos)-1]
			}
			if !p.holds(ge0(addI(subT(B, I), -1))) {
				c.bad(key, wp, "%s may test a case already sent right", name)
			}
			// the array after the iteration
			after := map[*Term]*Term{}
			var ord []*Term
			clean := true
			for _, ev := range p.Events {
				if ev.Kind == "store" && ev.Class == "E:int" {
					arr, idx := addrElem(ev.Addr)
					if arr == nil || !sameLoc(arr, base) {
						c.bad(key, instrPos(ev.In), "%s writes to another array of cases", name)
						clean = false
						continue
					}
					if after[idx] == nil {
						ord = append(ord, idx)
					}
					after[idx] = ev.Val
				} else if ev.Kind == "copy" || ev.Kind == "append" {
					clean = false
					c.bad(key, instrPos(ev.In), "undecided: %s moves cases in bulk", name)
				}
			}
			if !clean {
				continue
			}
			// drop writes of the value already there
			perm := map[*Term]*Term{}
			okp := true
			for _, i := range ord {
				j := old(after[i])
				if j == nil {
					okp = false
				} else if j != i {
					perm[i] = j
				}
			}
			swap := func(a, b *Term) bool {
				if sameVal(p, a, b) && len(perm) == 0 {
					return true
				}
				if len(perm) == 0 {
					return false
				}
				return len(perm) == 2 && perm[a] == b && perm[b] == a
			}
			a1, b1, i1 := p.next(A), p.next(B), p.next(I)
			what := ""
			switch s.kind {
			case "missing":
				if !okp || len(perm) != 0 || a1 != A || b1 != B || i1 != addI(I, 1) {
					what = "leave it in place and go on to the next case"
				}
			case "left":
				if !okp || !swap(I, A) || a1 != addI(A, 1) || b1 != B || !(i1 == addI(I, 1) || (i1 == I && p.holds(notT(eq0(subT(A, I)))))) {
					what = "exchange it with the first case that is not left and extend the left part by one"
				}
			case "right":
				last := addI(B, -1)
				if !okp || !swap(I, last) || a1 != A || b1 != last || i1 != I {
					what = "exchange it with the last untested case and extend the right part by one"
				}
			}
			if what != "" {
				c.bad(key, wp, "for a %s case %s must %s; on one path it does not (left end %v, right start %v, cursor %v, moves %d)", s.kind, name, what, a1, b1, i1, len(perm))
			}
			c.ob(name, s.kind+" case: moved to its part, the other parts keep theirs")
		}
	}
	if done == 0 {
		c.bad(key, pos, "undecided: no loop of %s returns the three parts", name)
	}
}

func init() {
	register(&Rule{ID: "C08", Min: 60,
		What: "every loop that splits cases is a three-way partition step by step (missing: stays; left: swapped to the end of the left part; right: swapped to the start of the right part; whole range tested), and the three growers hand each part to its own child",
		Run: func(c *Check) {
			c.splitters(c.partition)
			c.recurse()
			c.growth()
		}})
}

// helper for messages
func fname(f *ssa.Function) string { return fmt.Sprint(FuncName(f)) }
