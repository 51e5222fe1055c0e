package main

import (
	"go/types"
	"math/big"
	"strings"
)

// ---- C40: the options given are the ones grown with ------------------------------------------------------

// countOption decides what the text of a count or a fraction is read as.
func (c *Check) countOption() {
	f := c.fn("", "ParseAsIntOrFractionOfTotal")
	e := c.run(f, "options", Options{})
	if e == nil {
		return
	}
	key := "options/ParseAsIntOrFractionOfTotal"
	term, total := e.param(0), e.param(1)
	n := 0
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || len(p.Ret) != 1 {
			return
		}
		n++
		c.ob("ParseAsIntOrFractionOfTotal", "a text with a dot is that fraction of the total rounded up, another text its number, and 0 where it has none")
		v, pos := p.Ret[0], instrPos(p.RetIn)
		var dotted, number, fraction *Term // what the text was tested for, and read as
		look := func(g *Term) {
			g.walk(func(x *Term) bool {
				if a := isCall(x, "strings.Contains"); len(a) == 2 && a[0] == term && isText(a[1], ".") {
					dotted = x
				}
				if a := isCall(x, "strconv.ParseFloat"); len(a) == 2 && a[0] == term {
					fraction = x
				}
				if a := isCall(x, "strconv.ParseInt"); len(a) == 3 && a[0] == term {
					if b, ok := a[1].rat(); ok && (b.Sign() == 0 || b.Cmp(intR(10)) == 0) {
						number = x
					}
				}
				if a := isCall(x, "strconv.Atoi"); len(a) == 1 && a[0] == term {
					number = x
				}
				return true
			})
		}
		for _, g := range p.All() {
			look(g)
		}
		look(v)
		if isZero(v) {
			empty := p.holds(ge0(negT(lenT(term))))
			bad := fraction != nil && p.holds(dotted0(dotted)) && p.holds(notT(isnil(mkExtract(fraction, "1")))) ||
				number != nil && dotted != nil && p.holds(notT(dotted)) && p.holds(notT(isnil(mkExtract(number, "1"))))
			if !empty && !bad {
				c.bad(key+"/none", pos, "ParseAsIntOrFractionOfTotal can read a count or a fraction as 0")
			}
			return
		}
		if dotted == nil || !p.holds(dotted) && !p.holds(notT(dotted)) {
			c.bad(key, pos, "undecided: ParseAsIntOrFractionOfTotal does not look for a dot")
			return
		}
		if p.holds(dotted) {
			ok := false
			if v.Op == "trunc" && fraction != nil {
				if a := isCall(v.Args[0], "math.Ceil"); len(a) == 1 {
					ok = isZero(subT(a[0], mulT(mkExtract(fraction, "0"), total)))
				}
			}
			if !ok || !p.holds(isnil(mkExtract(fraction, "1"))) {
				c.bad(key+"/fraction", pos, "ParseAsIntOrFractionOfTotal reads a fraction as something else than that part of the total, rounded up")
			}
			return
		}
		if number == nil || unwrapped(v) != mkExtract(number, "0") || !p.holds(isnil(mkExtract(number, "1"))) {
			c.bad(key+"/count", pos, "ParseAsIntOrFractionOfTotal reads a count as something else than its number")
		}
	})
	if n == 0 {
		c.bad(key, f.Pos(), "undecided: ParseAsIntOrFractionOfTotal returns nothing")
	}
}

func intR(n int64) *big.Rat { return big.NewRat(n, 1) }

func dotted0(t *Term) *Term {
	if t == nil {
		return boolT(false)
	}
	return t
}

func isText(t *Term, want string) bool { s, ok := t.str(); return ok && s == want }

// passes decides that the growers and BestSplitter hand on the options they are given.
func (c *Check) passes() {
	type opt struct {
		what string
		want *Term
		arg  int
	}
	check := func(name string, e *Exec, call string, nargs int, opts []opt) {
		n := 0
		e.each(func(cu *Cut, p *Path) {
			evs := p.calls(call)
			if call == "Grow" {
				evs = p.grows()
			}
			for _, ev := range evs {
				if len(ev.Args) < nargs {
					continue
				}
				n++
				for _, o := range opts {
					c.ob(name, o.what+" is handed on")
					got := ev.Args[o.arg]
					if unwrapped(got) == unwrapped(o.want) || o.what == "the out of bag cases" && p.held(ev, got) == o.want {
						continue
					}
					c.bad("options/"+name+"/"+o.what, instrPos(ev.In), "%s does not hand on %s as it was given", name, o.what)
				}
			}
		})
		if n == 0 {
			c.bad("options/"+name, e.Root.Pos(), "undecided: %s never calls %s", name, call)
		}
	}
	grower := func(e *Exec) []opt {
		return []opt{{"the target", e.param(2), 1}, {"the number of features to try", e.param(6), 4}, {"the out of bag cases", e.param(5), 5},
			{"-force", e.param(10), 7}, {"-vet", e.param(11), 8}, {"-evaloob", e.param(12), 9}, {"-extra", e.param(13), 10}}
	}
	if g := c.growClosure(); g != nil {
		check("Tree.Grow", g.e, "BestSplitter", 13, grower(g.outer))
	}
	if e := c.growJungle(); e != nil {
		check("Tree.GrowJungle", e, "BestSplitter", 13, grower(e))
	}
	if f := c.fn("", "GrowRandomForest"); f != nil {
		if e := c.run(f, "limits", Options{Opaque: opaque("Tree.Grow", "Tree.GrowJungle")}); e != nil {
			check("GrowRandomForest", e, "Grow", 17, []opt{{"the target", e.param(1), 2}, {"the number of features to try", e.param(4), 6},
				{"-splitmissing", e.param(8), 9}, {"-force", e.param(9), 10}, {"-vet", e.param(10), 11}, {"-evaloob", e.param(11), 12}})
		}
	}
	c.tries()
}

// tries decides how many features BestSplitter searches, and that each is searched at random exactly
// where that was asked for.
func (c *Check) tries() {
	f := c.method("FeatureMatrix", "BestSplitter")
	e := c.run(f, "adopt", Options{Opaque: opaque("Target.Impurity")})
	if e == nil {
		return
	}
	key := "options/BestSplitter"
	mTry, force, extra := e.param(4), e.param(7), e.param(10)
	n := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.calls("BestSplit") {
			if len(ev.Args) != 7 {
				continue
			}
			n++
			pos := instrPos(ev.In)
			c.ob("FeatureMatrix.BestSplitter", "features are searched at random exactly when asked")
			if ev.Args[5] != extra {
				c.bad(key+"/extra", pos, "BestSplitter searches a feature at random without being asked to, or does not when it was")
			}
			c.ob("FeatureMatrix.BestSplitter", "no more draws are made than features to try, unless forced")
			k := e.loopOf(ev)
			if k == nil {
				c.bad(key, pos, "undecided: BestSplitter searches outside of a loop")
				continue
			}
			if p.holds(force) {
				continue
			}
			ok := false
			facts := p.before(ev)
			for j := range k.symbols(e) {
				turn, up := e.stepsUp(k, j)
				if turn && up && (e.proves(facts, addI(subT(mTry, j), -1), 3) || force != nil && decide(facts, force) == 1) {
					ok = true
				}
			}
			if !ok {
				c.bad(key+"/mTry", pos, "BestSplitter can search more features than it was asked to try without being forced to")
			}
		}
	})
	if n == 0 {
		c.bad(key, f.Pos(), "undecided: BestSplitter searches no feature")
	}

	// a numeric feature draws its split at random only then
	g := c.method("DenseNumFeature", "BestNumSplit")
	ge := c.run(g, "options", Options{Opaque: opaque("SortableFeature.Sort", "SortableFeature.Load")})
	if ge == nil {
		return
	}
	random := ge.param(5)
	seen := 0
	ge.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !strings.Contains(ev.Name, "math/rand") {
				continue
			}
			seen++
			c.ob("DenseNumFeature.BestNumSplit", "a split is drawn at random only when asked for")
			if decide(p.before(ev), random) != 1 {
				c.bad("options/BestNumSplit", instrPos(ev.In), "BestNumSplit can draw a split at random without being asked to")
			}
		}
	})
	if seen == 0 {
		c.bad("options/BestNumSplit", g.Pos(), "BestNumSplit never draws a split at random")
	}
	// and it is told by the feature's own search
	h := c.method("DenseNumFeature", "BestSplit")
	if he := c.run(h, "options", Options{Opaque: opaque("DenseNumFeature.BestNumSplit", "Target.Impurity")}); he != nil {
		m := 0
		he.each(func(cu *Cut, p *Path) {
			for _, ev := range p.calls("BestNumSplit") {
				m++
				c.ob("DenseNumFeature.BestSplit", "whether to draw at random is handed on")
				if ev.Args[5] != he.param(5) {
					c.bad("options/BestSplit", instrPos(ev.In), "DenseNumFeature.BestSplit does not hand on whether to draw at random")
				}
			}
		})
		if m == 0 {
			c.bad("options/BestSplit", h.Pos(), "undecided: DenseNumFeature.BestSplit does not search with BestNumSplit")
		}
	}
}

// stepsUp: j starts at 0 and is one more at every next turn of loop k.
func (e *Exec) stepsUp(k *Cut, j *Term) (turn, up bool) {
	if !e.ascends(k, j) {
		return false, false
	}
	up = true
	for cu := range e.members(k) {
		for _, p := range cu.Paths {
			if p.To != k {
				continue
			}
			turn = true
			if d, ok := subT(p.next(j), j).rat(); !ok || d.Cmp(intR(1)) != 0 {
				up = false
			}
		}
	}
	return
}

// given: how a path shows that a command line flag was used (on), or was not (off).
type option struct {
	name string
	at   *Term
	typ  string // what it holds
}

func (e *Exec) option(name string) *option {
	o := &option{name: name}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "flag.") || len(ev.Args) < 2 {
				continue
			}
			typ := strings.TrimPrefix(ev.Name, "flag.")
			if strings.HasSuffix(typ, "Var") {
				if isText(ev.Args[1], name) {
					o.at, o.typ = ev.Args[0], strings.TrimSuffix(typ, "Var")
				}
			} else if isText(ev.Args[0], name) {
				o.at, o.typ = ev.Res, typ
			}
		}
	})
	if o.at == nil {
		return nil
	}
	return o
}

// loads are the values the path reads from the option.
func (o *option) loads(p *Path) (out []*Term) {
	seen := map[*Term]bool{}
	for _, g := range p.All() {
		g.walk(func(x *Term) bool {
			if isLoadOf(x, o.at) && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
			return true
		})
	}
	return
}

func (o *option) test(x *Term) (on, off *Term) {
	switch o.typ {
	case "Bool":
		return x, notT(x)
	case "String":
		return ge0(addI(lenT(x), -1)), ge0(negT(lenT(x)))
	}
	z := eqT(x, intT(0), types.Typ[types.Float64])
	return notT(z), z
}

func (o *option) on(p *Path) bool {
	for _, x := range o.loads(p) {
		if on, _ := o.test(x); p.holds(on) {
			return true
		}
	}
	return false
}

func (o *option) off(p *Path) bool {
	for _, x := range o.loads(p) {
		if _, off := o.test(x); p.holds(off) {
			return true
		}
	}
	return false
}

// is: the value is what the option holds.
func (o *option) is(e *Exec, t *Term) bool {
	if isLoadOf(t, o.at) {
		return true
	}
	vs := e.values(t)
	for _, v := range vs {
		if !isLoadOf(v, o.at) {
			return false
		}
	}
	return len(vs) > 0
}

// asked decides that growforest grows with the options of the command line that are named for it.
func (c *Check) asked() {
	e := c.command("growforest")
	if e == nil {
		return
	}
	key := "options/growforest"
	opts := map[string]*option{}
	opt := func(name string) *option {
		if o, ok := opts[name]; ok {
			return o
		}
		o := e.option(name)
		if o == nil {
			c.bad(key+"/"+name, e.Root.Pos(), "undecided: growforest has no -%s", name)
			o = &option{name: name, at: mk("sym", "no "+name), typ: "Bool"}
		}
		opts[name] = o
		return o
	}
	jungle := opt("jungle")
	tries := opt("mTry")
	n := 0
	var target *Term
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.grows() {
			if len(ev.Args) != 17 {
				continue
			}
			n++
			pos := instrPos(ev.In)
			for i, name := range []string{"splitmissing", "force", "vet", "evaloob", "extra"} {
				c.ob("growforest.main", "-"+name+" is grown with")
				if !opt(name).is(e, ev.Args[9+i]) {
					c.bad(key+"/"+name, pos, "growforest grows without regard to -%s", name)
				}
			}
			c.ob("growforest.main", "a jungle is grown exactly when asked for")
			if nameIs(ev.Name, "GrowJungle") && !jungle.on(p) || !nameIs(ev.Name, "GrowJungle") && !jungle.off(p) {
				c.bad(key+"/jungle", pos, "growforest can grow a jungle without -jungle, or no jungle with it")
			}
			c.ob("growforest.main", "-mTry is grown with, or the rounded up square root where it gives none")
			if !c.triesGiven(e, tries, ev.Args[6], p, map[*Term]bool{}) {
				c.bad(key+"/mTry", pos, "growforest can grow with another number of features to try than -mTry or the square root of their number")
			}
			if target != nil && target != ev.Args[2] && target.Op != "load" {
				c.bad(key+"/target", pos, "undecided: growforest grows with two targets")
			}
			target = ev.Args[2]
		}
	})
	if n == 0 {
		c.bad(key, e.Root.Pos(), "undecided: growforest grows no tree")
		return
	}
	c.targets(e, opt, target)
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			for name, o := range opts {
				if ev.Kind == "store" && ev.Addr == o.at {
					c.bad(key+"/"+name, instrPos(ev.In), "growforest changes the -%s it was given", name)
				}
			}
		}
	})
}

// triesGiven follows a number of features to try back to -mTry, or to the square root taken where it gives
// none.
func (c *Check) triesGiven(e *Exec, o *option, t *Term, p *Path, seen map[*Term]bool) bool {
	asked := func(t *Term) []*Term {
		a := isCall(t, "ParseAsIntOrFractionOfTotal")
		if len(a) == 2 && isLoadOf(a[0], o.at) {
			return a
		}
		return nil
	}
	if asked(t) != nil || seen[t] {
		return true
	}
	follow := func(all func(p *Path) []*Term) bool {
		seen[t] = true
		hit, ok := false, true
		e.each(func(cu *Cut, q *Path) {
			for _, v := range all(q) {
				hit = true
				ok = ok && c.triesGiven(e, o, v, q, seen)
			}
		})
		return hit && ok
	}
	if t.Op == "sym" && e.phiCut(t) != nil {
		return follow(func(q *Path) []*Term {
			if v, has := q.Phi[t]; has {
				return []*Term{v}
			}
			return nil
		})
	}
	if t.Op == "load" && t.Args[0].Op == "alloc" {
		return follow(func(q *Path) (out []*Term) {
			for _, ev := range q.Events {
				if ev.Kind == "store" && ev.Addr == t.Args[0] {
					out = append(out, ev.Val)
				}
			}
			return
		})
	}
	// the square root, where -mTry gives no number
	if t.Op != "trunc" {
		return false
	}
	a := isCall(t.Args[0], "math.Ceil")
	if len(a) != 1 {
		return false
	}
	r := isCall(a[0], "math.Sqrt")
	if len(r) != 1 {
		return false
	}
	for _, g := range p.All() {
		none := false
		g.walk(func(x *Term) bool {
			if b := asked(x); b != nil && p.holds(ge0(negT(x))) && isZero(subT(b[1], r[0])) {
				none = true
			}
			return !none
		})
		if none {
			return true
		}
	}
	return false
}

// targets decides which impurity growforest uses.
func (c *Check) targets(e *Exec, opt func(string) *option, target *Term) {
	key := "options/growforest"
	// how each target is made: by its constructor or as a literal
	type kind struct {
		made, lit string         // constructor, or field of the literal
		flag      string         // the option that asks for it
		family    string         // what kind of target feature it is for
		args      map[int]string // options its arguments come from
		costs     bool           // the option holds its costs
		weights   int            // the argument the weights of the option are given in
	}
	kinds := []kind{
		{made: "NewNPTarget", flag: "NP", family: "cat", args: map[int]string{1: "NP_pos", 2: "NP_a", 3: "NP_k"}},
		{made: "NewRegretTarget", flag: "cost", family: "cat", costs: true},
		{made: "NewDEntropyTarget", flag: "dentropy", family: "cat", costs: true},
		{made: "NewAdaCostTarget", flag: "adacost", family: "cat", costs: true},
		{made: "NewWRFTarget", flag: "rfweights", family: "cat", weights: 1},
		{lit: "EntropyTarget.CatFeature", flag: "entropy", family: "cat"},
		{made: "NewAdaBoostTarget", flag: "adaboost", family: "cat"},
		{made: "NewHDistanceTarget", flag: "hellinger", family: "cat", args: map[int]string{1: "positive"}},
		{made: "NewGradBoostClassTarget", flag: "gbt", family: "cat", args: map[int]string{1: "gbt", 2: "positive"}},
		{made: "NewTransTarget", flag: "trans_unlabeled", family: "trans", args: map[int]string{2: "trans_unlabeled", 3: "trans_alpha", 4: "trans_beta"}},
		{lit: "L1Target.NumFeature", flag: "l1", family: "l1"},
		{made: "NewOrdinalTarget", flag: "ordinal", family: "ordinal"},
		{made: "NewGradBoostTarget", flag: "gbt", family: "num", args: map[int]string{1: "gbt"}},
		{made: "NewNumAdaBoostTarget", flag: "adaboost", family: "num"},
		{lit: "DensityTarget.Features", flag: "density", family: "density"},
	}
	makes := func(k kind, p *Path) (out []*Event) {
		for _, ev := range p.Events {
			if k.made != "" && ev.Kind == "call" && nameIs(ev.Name, k.made) || k.lit != "" && ev.Kind == "store" && addrField(ev.Addr, k.lit) != nil {
				out = append(out, ev)
			}
		}
		return
	}
	on := map[*Term]*Term{} // what a target made is built on
	vars := map[*Term]bool{}
	for _, k := range kinds {
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range makes(k, p) {
				if k.lit != "" {
					on[addrField(ev.Addr, k.lit)] = ev.Val
				} else if len(ev.Args) > 0 {
					on[ev.Res] = ev.Args[0]
				}
			}
		})
	}
	// builtOn lists the values t may be, or be built on
	memo := map[*Term]map[*Term]bool{}
	builtOn := func(t *Term) map[*Term]bool {
		if m := memo[t]; m != nil {
			return m
		}
		m := map[*Term]bool{}
		memo[t] = m
		var follow func(t *Term)
		follow = func(t *Term) {
			if t = unwrapped(t); m[t] {
				return
			}
			m[t] = true
			if t.Op == "load" && t.Args[0].Op == "alloc" {
				vars[t.Args[0]] = true
				for _, v := range e.puts(t.Args[0]) {
					follow(v)
				}
				return
			}
			for _, v := range e.phis(t) {
				follow(v)
			}
			if x := on[t]; x != nil {
				follow(x)
			}
		}
		follow(t)
		return m
	}
	used := builtOn(target)
	mine := map[*Term]bool{} // the variables the target goes through
	for v := range vars {
		mine[v] = true
	}
	density := opt("density")
	// which kind of feature a path is known to be about
	known := func(p *Path, num bool) bool {
		for _, g := range p.All() {
			hit := false
			g.walk(func(x *Term) bool {
				if x.Op == "istype" {
					isNum, isCat := strings.HasSuffix(x.S, "NumFeature"), strings.HasSuffix(x.S, "CatFeature")
					if yes, no := p.holds(x), p.holds(notT(x)); yes != no && (isNum && yes != num || isCat && yes == num) {
						hit = true
					}
				}
				return !hit
			})
			if hit {
				return true
			}
		}
		return false
	}
	for _, k := range kinds {
		o := opt(k.flag)
		n := 0
		name := k.made
		if name == "" {
			name = strings.SplitN(k.lit, ".", 2)[0]
		}
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range makes(k, p) {
				n++
				pos := instrPos(ev.In)
				c.ob("growforest.main", "-"+k.flag+" alone asks for its target")
				if !o.on(p) {
					c.bad(key+"/"+name, pos, "growforest uses %s without -%s", name, k.flag)
				}
				made := ev.Res
				if k.lit != "" {
					made = addrField(ev.Addr, k.lit)
				}
				c.ob("growforest.main", "the target asked for is grown with")
				if !used[made] {
					c.bad(key+"/"+name, pos, "growforest does not grow with the target -%s asks for", k.flag)
				}
				c.ob("growforest.main", "the target asked for is not replaced by one without it")
				lost := func(q *Path, from int) *Event {
					for _, x := range q.Events {
						if x.Idx > from && x.Kind == "store" && mine[x.Addr] && !builtOn(x.Val)[made] {
							return x
						}
					}
					return nil
				}
				x := lost(p, ev.Idx)
				if x == nil && p.To != nil {
					if q := e.reachesFrom(p.To, nil, func(q *Path) bool { return lost(q, -1) != nil }); q != nil {
						x = lost(q, -1)
					}
				}
				if x != nil {
					c.bad(key+"/"+name+"/lost", instrPos(x.In), "growforest replaces the target -%s asks for with another one", k.flag)
				}
				for i, a := range k.args {
					c.ob("growforest.main", "-"+a+" is what its target is made with")
					if i >= len(ev.Args) || !opt(a).is(e, ev.Args[i]) {
						c.bad(key+"/"+a, pos, "growforest makes the target of -%s without regard to -%s", k.flag, a)
					}
				}
				if k.costs {
					c.ob("growforest.main", "the costs given are the target's costs")
					set := false
					for _, x := range p.calls("SetCosts") {
						if len(x.Args) == 2 && unwrapped(x.Args[0]) == made && x.Idx > ev.Idx {
							set = true
							if !c.readFrom(e, x.Args[1], o) {
								c.bad(key+"/"+k.flag, instrPos(x.In), "growforest sets other costs than those of -%s", k.flag)
							}
						}
					}
					if !set {
						c.bad(key+"/"+k.flag, pos, "growforest does not set the costs of -%s", k.flag)
					}
				}
				if k.weights > 0 {
					c.ob("growforest.main", "the weights given are the target's weights")
					if len(ev.Args) <= k.weights || !c.readFrom(e, ev.Args[k.weights], o) {
						c.bad(key+"/"+k.flag, pos, "growforest uses other weights than those of -%s", k.flag)
					}
				}
			}
		})
		if n == 0 {
			c.bad(key+"/"+name, e.Root.Pos(), "growforest never uses %s, so that -%s has no effect", name, k.flag)
			continue
		}
		// and no run with the option grows without a target of its kind
		c.ob("growforest.main", "-"+k.flag+" is not ignored")
		avoid := func(p *Path) bool {
			if o.off(p) {
				return true
			}
			for _, x := range kinds {
				if x.family == k.family && len(makes(x, p)) > 0 {
					return true
				}
			}
			if k.family == "density" {
				return false
			}
			return density.on(p) || known(p, k.family == "num" || k.family == "l1" || k.family == "ordinal")
		}
		if q := e.reaches(avoid, func(p *Path) bool { return len(p.grows()) > 0 }); q != nil {
			c.bad(key+"/"+k.flag+"/ignored", instrPos(q.grows()[0].In), "growforest can ignore -%s", k.flag)
		}
	}
}

// readFrom: the map was decoded from the option's text.
func (c *Check) readFrom(e *Exec, m *Term, o *option) bool {
	if m.Op != "load" {
		for _, v := range e.values(m) {
			if v == m || !c.readFrom(e, v, o) {
				return false
			}
		}
		return len(e.values(m)) > 0
	}
	n, ok := 0, true
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.calls("encoding/json.Unmarshal") {
			if len(ev.Args) == 2 && unwrapped(ev.Args[1]) == m.Args[0] {
				n++
				a := unwrapped(ev.Args[0])
				if strings.HasPrefix(a.Op, "conv") && len(a.Args) == 1 {
					a = a.Args[0]
				}
				ok = ok && o.is(e, a)
			}
		}
	})
	return ok && n > 0
}

func init() {
	register(&Rule{ID: "C40", Min: 60,
		What: "on every path of growforest's main to a call of Grow or GrowJungle the arguments are the values of the options named for them (-mTry through ParseAsIntOrFractionOfTotal or the rounded up square root where that gives none), GrowJungle is called exactly with -jungle; every constructor of a target is reached only with its own option on, with the parameters of the options named for it and the costs decoded from it, its result is among the values of the target grown with, and no path on which the option may be on reaches a growing call without a target of that kind; ParseAsIntOrFractionOfTotal's returns are compared with its specification; Tree.Grow, Tree.GrowJungle, GrowRandomForest and FeatureMatrix.BestSplitter hand the options on, BestSplitter searches a feature only in a turn below mTry or when forced, and BestNumSplit draws at random only when told to",
		Run: func(c *Check) {
			c.countOption()
			c.passes()
			c.asked()
		}})
}
