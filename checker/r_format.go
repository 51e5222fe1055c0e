package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- texts ------------------------------------------------------------------------------------------

// piece is a part of a text: known letters, or a value written so that reading it gives the value back.
type piece struct {
	lit string
	val *Term
}

// pieces takes a text apart; why tells of a value that is not written in full.
func pieces(t *Term) (out []piece, why string) {
	add := func(p piece) {
		if p.val == nil && len(out) > 0 && out[len(out)-1].val == nil {
			out[len(out)-1].lit += p.lit
			return
		}
		if p.val != nil || p.lit != "" {
			out = append(out, p)
		}
	}
	var text func(t *Term)
	sprintf := func(format *Term, args []*Term) {
		f, ok := format.str()
		if !ok {
			why = "the format is not known"
			return
		}
		n := 0
		for len(f) > 0 {
			i := strings.IndexByte(f, '%')
			if i < 0 || i+1 >= len(f) {
				add(piece{lit: f})
				return
			}
			add(piece{lit: f[:i]})
			verb := f[i+1]
			f = f[i+2:]
			if verb == '%' {
				add(piece{lit: "%"})
				continue
			}
			if n >= len(args) {
				why = "values are missing"
				return
			}
			a := unwrapped(args[n])
			n++
			float := a.T != nil && isFloat(a.T)
			switch {
			case verb == 'v', verb == 's' && (a.T != nil && isStr(a.T) || a.isStr()), verb == 'd' && a.T != nil && isInt(a.T), verb == 'g' && float, verb == 't' && a.T != nil && isBool(a.T):
				text(a)
			default:
				why = "%" + string(verb) + " does not write " + a.String() + " in full"
				return
			}
		}
		if n != len(args) {
			why = "there are more values than verbs"
		}
	}
	text = func(t *Term) {
		t = unwrapped(t)
		if s, ok := t.str(); ok {
			add(piece{lit: s})
			return
		}
		switch {
		case t.Op == "concat":
			for _, a := range t.Args {
				text(a)
			}
			return
		case t.Op == "call" && t.S == "fmt.Sprintf" && len(t.Args) == 2 && t.Args[1].Op == "list":
			sprintf(t.Args[0], t.Args[1].Args)
			return
		case t.Op == "call" && t.S == "fmt.Sprint" && len(t.Args) == 1 && t.Args[0].Op == "list" && len(t.Args[0].Args) == 1:
			text(t.Args[0].Args[0])
			return
		case t.Op == "call" && t.S == "strconv.Itoa":
			text(t.Args[0])
			return
		case t.Op == "call" && t.S == "strconv.FormatFloat" && len(t.Args) == 4:
			p, ok1 := t.Args[2].intc()
			b, ok2 := t.Args[3].intc()
			if !ok1 || !ok2 || p != -1 || b != 64 {
				why = t.Args[0].String() + " is not written in full"
			}
			text(t.Args[0])
			return
		}
		add(piece{val: t})
	}
	text(t)
	return
}

// written is the text a path hands to a writer.
func (p *Path) written(isW func(w *Term) bool) (out []piece, n int, why string) {
	put := func(ps []piece, w string) {
		for _, x := range ps {
			if x.val == nil && len(out) > 0 && out[len(out)-1].val == nil {
				out[len(out)-1].lit += x.lit
			} else {
				out = append(out, x)
			}
		}
		if w != "" && why == "" {
			why = w
		}
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" || len(ev.Args) < 2 || !isW(ev.Args[0]) {
			continue
		}
		n++
		switch {
		case ev.Name == "fmt.Fprintf" && len(ev.Args) == 3 && ev.Args[2].Op == "list":
			put(pieces(mk("call", "fmt.Sprintf", ev.Args[1], ev.Args[2])))
		case ev.Name == "fmt.Fprintf" && len(ev.Args) == 3 && ev.Args[2].Op == "nil":
			put(pieces(mk("call", "fmt.Sprintf", ev.Args[1], mk("list", ""))))
		case (ev.Name == "fmt.Fprintln" || ev.Name == "fmt.Fprint") && ev.Args[1].Op == "list":
			for i, a := range ev.Args[1].Args {
				if i > 0 {
					if ev.Name == "fmt.Fprint" {
						put(nil, "how Fprint separates the values is not known")
					}
					put([]piece{{lit: " "}}, "")
				}
				put(pieces(a))
			}
			if ev.Name == "fmt.Fprintln" {
				put([]piece{{lit: "\n"}}, "")
			}
		case ev.Name == "io.WriteString" || strings.HasSuffix(ev.Name, ".WriteString"):
			put(pieces(ev.Args[1]))
		case strings.HasSuffix(ev.Name, ".Write") && ev.Args[1].Op == "conv":
			put(pieces(ev.Args[1].Args[0]))
		default:
			put(nil, "what "+ev.Name+" writes is not known")
		}
	}
	return
}

// clauses takes one line of key=value clauses apart.
func clauses(ps []piece) (keys []string, vals map[string][]piece, why string) {
	vals = map[string][]piece{}
	if len(ps) == 0 || ps[len(ps)-1].val != nil || !strings.HasSuffix(ps[len(ps)-1].lit, "\n") {
		return nil, nil, "the line has no end"
	}
	var all [][]piece
	var cur []piece
	for i, p := range ps {
		if p.val != nil {
			cur = append(cur, p)
			continue
		}
		s := p.lit
		if i == len(ps)-1 {
			s = strings.TrimSuffix(s, "\n")
		}
		if strings.Contains(s, "\n") {
			return nil, nil, "more than one line is written"
		}
		for {
			j := strings.IndexByte(s, ',')
			if j < 0 {
				break
			}
			if j > 0 {
				cur = append(cur, piece{lit: s[:j]})
			}
			all = append(all, cur)
			cur, s = nil, s[j+1:]
		}
		if s != "" {
			cur = append(cur, piece{lit: s})
		}
	}
	all = append(all, cur)
	for _, cl := range all {
		if len(cl) == 0 || cl[0].val != nil {
			return nil, nil, "a clause has no key"
		}
		j := strings.IndexByte(cl[0].lit, '=')
		if j <= 0 {
			return nil, nil, "a clause has no key"
		}
		key := strings.TrimSpace(cl[0].lit[:j])
		v := append([]piece{}, cl...)
		v[0].lit = v[0].lit[j+1:]
		// quotes are taken off by the reader
		for len(v) > 0 && v[0].val == nil {
			if v[0].lit = strings.TrimLeft(v[0].lit, "\""); v[0].lit != "" {
				break
			}
			v = v[1:]
		}
		for len(v) > 0 && v[len(v)-1].val == nil {
			if v[len(v)-1].lit = strings.TrimRight(v[len(v)-1].lit, "\""); v[len(v)-1].lit != "" {
				break
			}
			v = v[:len(v)-1]
		}
		if _, twice := vals[key]; twice {
			return nil, nil, key + " is written twice"
		}
		keys = append(keys, key)
		vals[key] = v
	}
	return
}

func oneVal(ps []piece) *Term {
	if len(ps) == 1 && ps[0].val != nil {
		return ps[0].val
	}
	return nil
}

func oneLit(ps []piece) string {
	if len(ps) == 1 && ps[0].val == nil {
		return ps[0].lit
	}
	return ""
}

// ---- C16: a saved forest is read back -----------------------------------------------------------------

func exportedOpaque(f *ssa.Function) bool { return token.IsExported(f.Name()) && f.Parent() == nil }

// line runs one of the writer's functions and judges the one line each way through it writes.
func (c *Check) formatLine(f *ssa.Function, first string, judge func(e *Exec, p *Path, vals map[string][]piece) string) {
	if f == nil {
		return
	}
	e := c.run(f, "format", Options{Opaque: exportedOpaque})
	if e == nil {
		return
	}
	key := "format/" + f.Name()
	fw := e.param(0)
	isW := func(t *Term) bool { return field(strip(unwrapped(t)), ".w") == fw || field(unwrapped(t), ".w") == fw }
	if len(e.loopCuts()) > 0 {
		c.bad(key, f.Pos(), "undecided: %s writes in a loop", f.Name())
		return
	}
	for _, p := range e.Entry.Paths {
		if p.End == "exit" || p.End == "panic" {
			continue
		}
		c.ob("ForestWriter."+f.Name(), "writes what it is given")
		ps, n, why := p.written(isW)
		if n == 0 {
			why = "nothing is written"
		}
		var keys []string
		var vals map[string][]piece
		if why == "" {
			keys, vals, why = clauses(ps)
		}
		if why == "" && keys[0] != first {
			why = "it does not begin with " + first
		}
		if why == "" {
			why = judge(e, p, vals)
		}
		if why != "" {
			c.bad(key, f.Pos(), "%s writes a line that is not read back as what it was given: %s", f.Name(), why)
			return
		}
	}
}

// clause judges one clause of a line: it holds the value, or it is left out when the reader knows it anyway.
func clauseIs(p *Path, vals map[string][]piece, key string, is func(t *Term) bool, default_ *Term) string {
	ps, ok := vals[key]
	if !ok {
		if default_ != nil && decide(p.All(), default_) == 1 {
			return ""
		}
		return key + " is left out"
	}
	if v := oneVal(ps); v == nil || !is(v) {
		return key + " is another value"
	}
	return ""
}

func firstOf(whys ...string) string {
	for _, w := range whys {
		if w != "" {
			return w
		}
	}
	return ""
}

func (c *Check) forestWriter() {
	isP := func(x *Term) func(*Term) bool { return func(t *Term) bool { return t == x } }
	c.formatLine(c.method("ForestWriter", "WriteForestHeader"), "FOREST", func(e *Exec, p *Path, vals map[string][]piece) string {
		target, intercept := e.param(2), e.param(3)
		return firstOf(clauseIs(p, vals, "TARGET", isP(target), nil),
			clauseIs(p, vals, "INTERCEPT", isP(intercept), eqT(intercept, zeroFloat(), intercept.T)))
	})
	c.formatLine(c.method("ForestWriter", "WriteTreeHeader"), "TREE", func(e *Exec, p *Path, vals map[string][]piece) string {
		target, weight := e.param(2), e.param(3)
		return firstOf(clauseIs(p, vals, "TARGET", isP(target), nil),
			clauseIs(p, vals, "WEIGHT", isP(weight), notT(leT(zeroFloat(), weight, weight.T))))
	})
	c.formatLine(c.method("ForestWriter", "WriteNode"), "NODE", func(e *Exec, p *Path, vals map[string][]piece) string {
		n, path := e.param(1), e.param(2)
		is := func(name string) func(*Term) bool {
			return func(t *Term) bool { return field(t, name) == n }
		}
		var s, pred *Term
		load := func(name string) *Term { return e.fieldOf(n, name) }
		s, pred = load("Splitter"), load("Pred")
		why := firstOf(clauseIs(p, vals, "NODE", isP(path), nil), clauseIs(p, vals, "PRED", is(".Pred"), eqZeroLen(pred)))
		if why != "" {
			return why
		}
		split := -1
		if s != nil {
			split = decide(p.All(), isnil(s))
		}
		switch split {
		case 1:
			for _, k := range []string{"SPLITTERTYPE", "SPLITTER", "LVALUES"} {
				if _, ok := vals[k]; ok {
					return k + " is written for a leaf"
				}
			}
			return ""
		case -1:
			return "whether there is a splitter is not looked at"
		}
		of := func(name string) func(*Term) bool {
			return func(t *Term) bool { o := field(t, name); return o != nil && is(".Splitter")(o) }
		}
		if why := clauseIs(p, vals, "SPLITTER", of(".Feature"), nil); why != "" {
			return why
		}
		num := -1
		for _, f := range p.All() {
			g, yes := f, 1
			if f.Op == "not" {
				g, yes = f.Args[0], 0
			}
			if of(".Numerical")(g) {
				num = yes
			}
		}
		typ := oneLit(vals["SPLITTERTYPE"])
		switch {
		case num == 1 && typ == "NUMERICAL":
			return clauseIs(p, vals, "LVALUES", of(".Value"), nil)
		case num == 0 && typ == "CATEGORICAL":
			return clauseIs(p, vals, "LVALUES", func(t *Term) bool {
				a := isCall(t, "DescribeMap")
				return len(a) == 2 && of(".Left")(a[1])
			}, nil)
		}
		return "SPLITTERTYPE does not tell the kind of splitter"
	})
	c.describeMap()
	c.writeChildren()
	c.writeTrees()
}

func zeroFloat() *Term { return intT(0) }

func eqZeroLen(t *Term) *Term {
	if t == nil {
		return nil
	}
	return eqZ(lenT(t))
}

func eqZ(t *Term) *Term { return eq0(t) }

// fieldOf finds the term for what a field of an object holds on entry.
func (e *Exec) fieldOf(o *Term, name string) (out *Term) {
	see := func(t *Term) {
		if t == nil {
			return
		}
		t.walk(func(x *Term) bool {
			if out == nil && field(x, "."+name) == o {
				out = x
			}
			return out == nil
		})
	}
	e.each(func(cu *Cut, p *Path) {
		for _, g := range p.Guards {
			see(g)
		}
		for _, ev := range p.Events {
			for _, a := range ev.Args {
				see(a)
			}
		}
	})
	return
}

// describeMap: all keys, between quotes, with colons between them.
func (c *Check) describeMap() {
	f := c.method("ForestWriter", "DescribeMap")
	if f == nil {
		return
	}
	e := c.run(f, "format", Options{Opaque: exportedOpaque})
	if e == nil {
		return
	}
	in := e.param(1)
	key := "format/DescribeMap"
	c.ob("ForestWriter.DescribeMap", "names every category")
	why := ""
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || why != "" {
			return
		}
		if why = ""; len(p.Ret) != 1 {
			return
		}
		ps, w := pieces(p.Ret[0])
		if why = w; why != "" {
			return
		}
		for len(ps) > 0 && ps[0].val == nil && strings.Trim(ps[0].lit, "\"") == "" {
			ps = ps[1:]
		}
		for len(ps) > 0 && ps[len(ps)-1].val == nil && strings.Trim(ps[len(ps)-1].lit, "\"") == "" {
			ps = ps[:len(ps)-1]
		}
		v := oneVal(ps)
		var a []*Term
		if v != nil && v.Op == "call" && v.S == "strings.Join" {
			a = v.Args
		}
		if len(a) != 2 {
			if len(ps) == 0 && decide(p.All(), eqZ(lenT(in))) == 1 {
				return
			}
			why = "it does not join the categories"
			return
		}
		if s, ok := a[1].str(); !ok || s != ":" {
			why = "the categories are not separated by colons"
			return
		}
		why = e.allKeys(a[0], in)
	})
	if why != "" {
		c.bad(key, f.Pos(), "DescribeMap does not name every category between colons: %s", why)
	}
}

// allKeys: the list holds every key of the map whose value is true.
func (e *Exec) allKeys(list, m *Term) string {
	g := e.gather(list)
	if len(g.other) > 0 || len(g.appends) == 0 {
		return "what the list holds is not known"
	}
	var loop *Cut
	for _, k := range e.loopCuts() {
		over := false
		for _, cu := range e.Cuts {
			if !e.members(k)[cu] {
				continue
			}
			for _, p := range cu.Paths {
				for _, gd := range p.Guards {
					over = over || gd.contains(func(y *Term) bool { return y.Op == "range" && y.Args[0] == m })
				}
			}
		}
		if over {
			loop = k
		}
	}
	if loop == nil {
		return "no loop goes through the map"
	}
	isKey := func(t *Term) bool {
		return t.Op == "extract" && t.S == "1" && t.Args[0].Op == "next" && t.Args[0].contains(func(y *Term) bool { return y.Op == "range" && y.Args[0] == m })
	}
	changed := false
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if arr, _ := addrElem(ev.Addr); arr != nil && isStrList(arr.T) {
					changed = true
				}
			}
		}
	})
	if changed {
		return "a name is changed"
	}
	for _, a := range g.appends {
		if a.all || len(a.elems) != 1 || !isKey(a.elems[0]) {
			return "something else than the keys is listed"
		}
	}
	adds := func(p *Path) bool {
		for _, a := range g.appends {
			for _, ev := range p.Events {
				if ev == a.ev || ev.In == a.ev.In && ev.Val == a.ev.Val {
					return true
				}
			}
		}
		for _, f := range p.All() {
			// keys whose value is false are not in the set
			if f.Op == "not" && f.Args[0].Op == "extract" && f.Args[0].S == "2" && f.Args[0].Args[0].Op == "next" {
				return true
			}
			if f.Op == "not" && f.Args[0].Op == "lookup" && f.Args[0].Args[0] == m {
				return true
			}
		}
		return false
	}
	if !e.everyTurn(loop, adds) {
		return "a key can be left out"
	}
	for _, cu := range e.Cuts {
		if !e.members(loop)[cu] {
			continue
		}
		for _, p := range cu.Paths {
			if p.To != nil && e.members(loop)[p.To] || p.End == "panic" {
				continue
			}
			over := false
			for _, gd := range p.Guards {
				over = over || gd.Op == "not" && gd.Args[0].Op == "extract" && gd.Args[0].S == "0" && gd.Args[0].Args[0].Op == "next"
			}
			if !over {
				return "the loop can end early"
			}
		}
	}
	return ""
}

func isStrList(t types.Type) bool {
	if t == nil {
		return false
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isStr(s.Elem())
	}
	return false
}

// writeChildren: the node, then each of its branches below its letter.
func (c *Check) writeChildren() {
	f := c.method("ForestWriter", "WriteNodeAndChildren")
	if f == nil {
		return
	}
	e := c.run(f, "format", Options{Opaque: exportedOpaque})
	if e == nil {
		return
	}
	key := "format/WriteNodeAndChildren"
	fw, n, path := e.param(0), e.param(1), e.param(2)
	if len(e.loopCuts()) > 0 {
		c.bad(key, f.Pos(), "undecided: WriteNodeAndChildren writes in a loop")
		return
	}
	for _, p := range e.Entry.Paths {
		if p.End != "return" {
			continue
		}
		c.ob("ForestWriter.WriteNodeAndChildren", "writes a node and its branches")
		nodes, whyNot := 0, ""
		calls := map[string]int{}
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Name, ").WriteNode"):
				nodes++
				if len(calls) > 0 {
					whyNot = "the node is written after its branches"
				}
				if ev.Args[0] != fw || ev.Args[1] != n || ev.Args[2] != path {
					whyNot = "another node is written"
				}
			case strings.HasSuffix(ev.Name, ").WriteNodeAndChildren"):
				ps, _ := pieces(ev.Args[2])
				if len(ps) != 2 || ps[0].val != path || ps[1].val != nil {
					whyNot = "a branch is written below another path"
					break
				}
				name := map[string]string{"L": "Left", "R": "Right", "M": "Missing"}[ps[1].lit]
				if name == "" || field(ev.Args[1], "."+name) != n || ev.Args[0] != fw {
					whyNot = "below " + ps[1].lit + " another branch is written"
				}
				calls[name]++
			}
		}
		if nodes != 1 && whyNot == "" {
			whyNot = "the node is not written once"
		}
		s := e.fieldOf(n, "Splitter")
		for _, name := range []string{"Left", "Right", "Missing"} {
			ch := e.fieldOf(n, name)
			switch {
			case whyNot != "":
			case calls[name] > 1:
				whyNot = name + " is written twice"
			case ch == nil:
				whyNot = name + " is never written"
			case calls[name] == 0 && decide(p.All(), isnil(ch)) != 1 && (s == nil || decide(p.All(), isnil(s)) != 1):
				whyNot = name + " can be left out"
			case calls[name] == 1 && decide(p.All(), isnil(ch)) != 0:
				whyNot = "a missing " + name + " is written"
			}
		}
		if whyNot != "" {
			c.bad(key, f.Pos(), "WriteNodeAndChildren does not write the node followed by each of its branches: %s", whyNot)
			return
		}
	}
}

// writeTrees: header and root; header and every tree.
func (c *Check) writeTrees() {
	if f := c.method("ForestWriter", "WriteTree"); f != nil {
		if e := c.run(f, "format", Options{Opaque: exportedOpaque}); e != nil {
			fw, tree := e.param(0), e.param(1)
			for _, p := range e.Entry.Paths {
				if p.End == "exit" || p.End == "panic" {
					continue
				}
				c.ob("ForestWriter.WriteTree", "writes the header and the nodes")
				hs, ns := p.calls("WriteTreeHeader"), p.calls("WriteNodeAndChildren")
				why := ""
				switch {
				case p.End != "return" || len(hs) != 1 || len(ns) != 1:
					why = "not one header and one root"
				case p.indexOf(hs[0]) > p.indexOf(ns[0]):
					why = "the nodes come before the header"
				case hs[0].Args[0] != fw || ns[0].Args[0] != fw || field(hs[0].Args[2], ".Target") != tree || field(hs[0].Args[3], ".Weight") != tree:
					why = "the header is another tree's"
				case field(ns[0].Args[1], ".Root") != tree:
					why = "the nodes are another tree's"
				default:
					if s, ok := ns[0].Args[2].str(); !ok || strings.ContainsAny(s, "LRM") || s == "" {
						why = "the root's path is not *"
					}
				}
				if why != "" {
					c.bad("format/WriteTree", f.Pos(), "WriteTree does not write the tree's header and all of its nodes: %s", why)
					break
				}
			}
		}
	}
	if f := c.method("ForestWriter", "WriteForest"); f != nil {
		if e := c.run(f, "format", Options{Opaque: exportedOpaque}); e != nil {
			fw, forest := e.param(0), e.param(1)
			c.ob("ForestWriter.WriteForest", "writes the header and every tree in order")
			why := ""
			heads := 0
			for _, p := range e.Entry.Paths {
				if p.End == "exit" || p.End == "panic" {
					continue
				}
				hs := p.calls("WriteForestHeader")
				if len(hs) != 1 || hs[0].Args[0] != fw || field(hs[0].Args[2], ".Target") != forest || field(hs[0].Args[3], ".Intercept") != forest {
					why = "the header is not the forest's"
				}
				if len(p.calls("WriteTree")) > 0 {
					why = "a tree is written outside of the loop"
				}
				heads++
				if p.To == nil && decide(p.All(), eqZ(lenT(e.fieldOf(forest, "Trees")))) != 1 {
					why = "the trees can be left out"
				}
			}
			loops := 0
			for _, k := range e.loopCuts() {
				var x *Term
				for _, p := range k.Paths {
					for _, ev := range p.calls("WriteTree") {
						loops++
						x = ev.Args[1]
						if ev.Args[0] != fw {
							why = "another writer is used"
						}
					}
					if len(p.calls("WriteForestHeader")) > 0 {
						why = "there is more than one header"
					}
				}
				if x == nil {
					why = firstOf(why, "undecided: another loop")
					continue
				}
				why = firstOf(why, e.overList(k, x, func(arr *Term) bool { return field(arr, ".Trees") == forest }))
				if !e.everyTurn(k, func(p *Path) bool { return len(p.calls("WriteTree")) == 1 }) {
					why = firstOf(why, "a tree can be left out")
				}
				if _, idx := elem(x); idx != nil && !e.ascends(k, idx) {
					why = firstOf(why, "the trees are written in another order")
				}
			}
			if loops == 0 {
				why = firstOf(why, "no tree is written")
			}
			if why != "" {
				c.bad("format/WriteForest", f.Pos(), "WriteForest does not write the header and every tree in order: %s", why)
			}
		}
	}
}

func (p *Path) indexOf(ev *Event) int {
	for i, o := range p.Events {
		if o == ev {
			return i
		}
	}
	return -1
}

// ---- reading ------------------------------------------------------------------------------------------

type sfReader struct {
	c              *Check
	e              *Exec
	tree, forest   *Term // what ReadTree is about to return
	inTree         map[*Term]bool
	failed         map[string]bool
	seenF, seenT   bool
	seenN, seenC   bool
	key            string
	parsed, parser string
}

func (c *Check) forestReader() {
	f := c.method("ForestReader", "ReadTree")
	if f == nil {
		return
	}
	e := c.run(f, "format", Options{Opaque: exportedOpaque})
	if e == nil {
		return
	}
	r := &sfReader{c: c, e: e, key: "format/ReadTree"}
	bad := func(why string) {
		c.bad(r.key, f.Pos(), "ReadTree does not give back what was written: %s", why)
	}
	x := &errFlow{c: c, e: e, reads: true}
	reads := func(p *Path) bool {
		for _, ev := range p.Events {
			if ev.Kind == "call" && lineCall(ev.Name) {
				return true
			}
		}
		return false
	}
	e.each(func(cu *Cut, p *Path) {
		if p.End == "return" && !reads(p) && len(p.Ret) == 3 && p.Ret[0].Op == "sym" && p.Ret[1].Op == "sym" {
			r.tree, r.forest = p.Ret[0], p.Ret[1]
		}
	})
	if r.tree == nil {
		bad("undecided: what it returns at the end of the input is not known")
		return
	}
	// flags that are set exactly when there is a tree
	flags := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		for s := range p.Phi {
			if s.T != nil && isBool(s.T) {
				flags[s] = true
			}
		}
	})
	for s := range flags {
		e.each(func(cu *Cut, p *Path) {
			v, ok := p.Phi[s]
			t, ok2 := p.Phi[r.tree]
			if !ok && !ok2 {
				return
			}
			if !(ok && ok2 && (v.isTrue() && t.Op == "alloc" || v.isFalse() && isnil(t).isTrue() || v == s && t == r.tree)) {
				delete(flags, s)
			}
		})
	}
	e.each(func(cu *Cut, p *Path) {
		if p.End == "return" && !reads(p) && cu.Loop && cu == e.phiCut(r.tree) {
			if len(p.Ret) != 3 || p.Ret[0] != r.tree || p.Ret[1] != r.forest {
				bad("what was read is not returned")
			}
		}
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, ").ParseRfAcePredictorLine") {
				r.line(p, ev, flags, x, bad)
			}
		}
	})
	if !r.seenF || !r.seenT || !r.seenN || !r.seenC {
		bad("undecided: not every kind of line is met")
	}
	c.readForest()
	c.addNode()
}

// kind: the line is known to begin with the word (1), not to (0), or neither (-1).
func lineKind(facts []*Term, line *Term, word string) int {
	out := -1
	for _, f := range facts {
		g, yes := f, 1
		if f.Op == "not" {
			g, yes = f.Args[0], 0
		}
		if g.Op == "call" && g.S == "strings.HasPrefix" && len(g.Args) == 2 && g.Args[0].has(line) {
			if s, ok := g.Args[1].str(); ok && strings.TrimSuffix(s, "=") == word {
				out = yes
			}
		}
	}
	return out
}

func (r *sfReader) line(p *Path, ev *Event, flags map[*Term]bool, x *errFlow, bad func(string)) {
	c, e := r.c, r.e
	facts := p.All()
	line := ev.Args[len(ev.Args)-1]
	m := ev.Res
	get := func(key string) *Term { return e.lookupOf(m, key) }
	is := func(t *Term, key string) bool {
		if t == nil {
			return false
		}
		t = strip(t)
		if t.Op == "extract" && t.S == "0" {
			t = t.Args[0]
		}
		if t.Op != "lookup" || t.Args[0] != m {
			return false
		}
		s, ok := t.Args[1].str()
		return ok && s == key
	}
	has := func(key string) int {
		for _, f := range facts {
			g, yes := f, 1
			if f.Op == "not" {
				g, yes = f.Args[0], 0
			}
			if g.Op == "haskey" && g.Args[0] == m {
				if s, ok := g.Args[1].str(); ok && s == key {
					return yes
				}
			}
		}
		if l := get(key); l != nil && decide(facts, eqT(l, strT(""), l.T)) == 1 {
			return 0
		}
		return -1
	}
	number := func(t *Term, key string) bool {
		if t == nil || t.Op != "extract" || t.S != "0" || t.Args[0].Op != "call" || t.Args[0].S != "strconv.ParseFloat" {
			return false
		}
		a := t.Args[0].Args
		b, ok := a[1].intc()
		return ok && b == 64 && is(a[0], key)
	}
	if p.End == "exit" || p.End == "panic" || p.End == "return" && x.nonNil(facts, unwrapped(p.Ret[len(p.Ret)-1])) {
		return
	}
	// a line that begins another tree or forest is not read
	peeked := func(b byte) bool {
		for _, f := range facts {
			if f.Op != "not" {
				continue
			}
			hit := false
			f.Args[0].walk(func(y *Term) bool {
				if arr, i := elem(y); arr != nil && isZero(i) && arr.contains(func(z *Term) bool { return z.Op == "call" && strings.HasSuffix(z.S, ".Peek") }) {
					hit = hit || eqT(y, intT(int64(b)), y.T) == f.Args[0]
				}
				return true
			})
			if hit {
				return true
			}
		}
		return false
	}
	fresh := decide(facts, isnil(r.tree)) == 1
	for s := range flags {
		fresh = fresh || decide(facts, s) == 0
	}
	F, T, N := lineKind(facts, line, "FOREST"), lineKind(facts, line, "TREE"), lineKind(facts, line, "NODE")
	kept := func(s *Term) bool { return p.To == nil || p.Phi[s] == s || p.Phi[s] == nil }
	ret := func(i int, want *Term, s *Term) bool {
		if p.End == "return" {
			return p.Ret[i] == want
		}
		return p.To != nil && p.Phi[s] == want
	}
	switch {
	case F == 1:
		if !fresh && peeked('F') {
			return // cannot be
		}
		c.ob("ForestReader.ReadTree", "a FOREST line")
		r.seenF = true
		o := r.made(p, r.forest, 1)
		if o == nil || !ret(1, o, r.forest) {
			bad("a FOREST line does not begin a forest")
			return
		}
		if !fresh {
			bad("a FOREST line is read as part of a tree")
			return
		}
		if v, _ := p.final(o, ".Target"); !is(v, "TARGET") {
			bad("the forest's target is not TARGET")
		}
		v, wrote := p.final(o, ".Intercept")
		switch has("INTERCEPT") {
		case 1:
			if !number(v, "INTERCEPT") {
				bad("the forest's intercept is not INTERCEPT")
			}
		case 0:
			if wrote && !isZero(v) {
				bad("the intercept is made up")
			}
		default:
			if !number(v, "INTERCEPT") {
				bad("whether there is an INTERCEPT is not looked at")
			}
		}
		if !kept(r.tree) {
			bad("a FOREST line changes the tree")
		}
	case T == 1:
		if !fresh && peeked('T') {
			return
		}
		c.ob("ForestReader.ReadTree", "a TREE line")
		r.seenT = true
		o := r.made(p, r.tree, 0)
		if o == nil || !ret(0, o, r.tree) {
			bad("a TREE line does not begin a tree")
			return
		}
		if !fresh {
			bad("a tree is lost when the next one begins")
			return
		}
		if v, _ := p.final(o, ".Target"); !is(v, "TARGET") {
			bad("the tree's target is not TARGET")
		}
		if v, wrote := p.final(o, ".Root"); wrote && !isnil(v).isTrue() {
			bad("a new tree has a root already")
		}
		v, _ := p.final(o, ".Weight")
		switch has("WEIGHT") {
		case 1:
			if !number(v, "WEIGHT") {
				bad("the tree's weight is not WEIGHT")
			}
		case 0:
			if k, ok := v.intc(); v == nil || !ok || k != -1 {
				bad("a tree without WEIGHT does not get the weight -1")
			}
		default:
			bad("whether there is a WEIGHT is not looked at")
		}
		if !kept(r.forest) {
			bad("a TREE line changes the forest")
		}
	case N == 1:
		r.node(p, ev, is, number, has, bad)
	case F == 0 && T == 0 && N == 0:
		if !kept(r.tree) || !kept(r.forest) {
			bad("a line of another kind changes what is read")
		}
	default:
		bad("undecided: what kind of line it is")
	}
}

// made is the object a path makes and keeps in the variable.
func (r *sfReader) made(p *Path, s *Term, i int) *Term {
	var o *Term
	if p.End == "return" {
		o = p.Ret[i]
	} else {
		o = p.Phi[s]
	}
	if o != nil && o.Op == "alloc" {
		return o
	}
	return nil
}

// lookupOf finds the term for what a map holds at a key.
func (e *Exec) lookupOf(m *Term, key string) (out *Term) {
	see := func(t *Term) {
		if t == nil {
			return
		}
		t.walk(func(x *Term) bool {
			if out == nil && x.Op == "lookup" && x.Args[0] == m {
				if s, ok := x.Args[1].str(); ok && s == key {
					out = x
				}
			}
			return out == nil
		})
	}
	e.each(func(cu *Cut, p *Path) {
		for _, g := range p.Guards {
			see(g)
		}
		for _, ev := range p.Events {
			see(ev.Val)
			for _, a := range ev.Args {
				see(a)
			}
		}
		for _, v := range p.Phi {
			see(v)
		}
	})
	return
}

// node judges a NODE line: the path p parses it, and it, or a path that follows through loops over the
// left categories, adds the node.
func (r *sfReader) node(p *Path, ev *Event, is func(*Term, string) bool, number func(*Term, string) bool, has func(string) int, bad func(string)) {
	c, e := r.c, r.e
	adds := p.calls("AddNode")
	type end struct {
		q  *Path
		ev *Event
	}
	var ends []end
	for _, a := range adds {
		ends = append(ends, end{p, a})
	}
	var loop *Cut
	if len(adds) == 0 && p.To != nil && p.To != e.phiCut(r.tree) {
		loop = p.To
		for _, q := range loop.Paths {
			if q.To == loop {
				continue
			}
			as := q.calls("AddNode")
			if len(as) != 1 {
				bad("a node can be left out")
				return
			}
			ends = append(ends, end{q, as[0]})
		}
	} else if len(adds) != 1 {
		bad("a node is not added once")
		return
	}
	facts := p.All()
	for _, en := range ends {
		c.ob("ForestReader.ReadTree", "a NODE line")
		val := func(t *Term) *Term {
			if en.q != p {
				if v, ok := p.Phi[t]; ok {
					return v
				}
			}
			return t
		}
		a := en.ev.Args
		if val(a[0]) != r.tree {
			bad("a node is added to another tree")
			return
		}
		if !is(val(a[1]), "NODE") {
			bad("a node is added at another path than NODE")
			return
		}
		pred := val(a[2])
		if s, ok := pred.str(); !is(pred, "PRED") && !(ok && s == "" && has("PRED") == 0) {
			bad("a node's prediction is not PRED")
			return
		}
		if en.q.To != nil && en.q.Phi[r.tree] != nil && val(en.q.Phi[r.tree]) != r.tree {
			bad("a NODE line changes the tree")
			return
		}
		s := val(a[3])
		switch {
		case isnil(s).isTrue():
			r.seenN = true
			if has("SPLITTERTYPE") != 0 {
				bad("a splitter is left out")
				return
			}
			continue
		case s.Op != "alloc":
			bad("undecided: what the splitter is")
			return
		}
		if has("SPLITTERTYPE") == 0 {
			bad("a leaf gets a splitter")
			return
		}
		fin := func(name string) *Term {
			v, ok := p.final(s, "."+name)
			if en.q != p {
				if w, ok2 := en.q.final(s, "."+name); ok2 {
					v, ok = w, true
				}
			}
			if !ok {
				return nil
			}
			return v
		}
		kind := func(word string) int {
			l := e.lookupOf(ev.Res, "SPLITTERTYPE")
			if l == nil {
				return -1
			}
			return decide(facts, eqT(l, strT(word), l.T))
		}
		if !is(fin("Feature"), "SPLITTER") {
			bad("the splitter's feature is not SPLITTER")
			return
		}
		num := fin("Numerical")
		switch {
		case kind("NUMERICAL") == 1:
			r.seenN = true
			if num == nil || !num.isTrue() && decide(facts, num) != 1 || !number(fin("Value"), "LVALUES") {
				bad("a numerical splitter does not split at LVALUES")
				return
			}
		case kind("CATEGORICAL") == 1:
			r.seenC = true
			left := fin("Left")
			if num != nil && !num.isFalse() && decide(facts, num) != 0 || left == nil || left.Op != "makemap" {
				bad("a categorical splitter does not go left by a set of its own")
				return
			}
			if loop == nil {
				bad("the categories of LVALUES are not all put on the left")
				return
			}
			parts := func(t *Term) bool {
				t = strip(t)
				if v, ok := p.Phi[t]; ok {
					t = v
				}
				if t.Op != "call" || t.S != "strings.Split" || !is(t.Args[0], "LVALUES") {
					return false
				}
				sep, ok := t.Args[1].str()
				return ok && sep == ":"
			}
			var x *Term
			puts := func(q *Path) bool {
				for _, o := range q.Events {
					if o.Kind == "mapupdate" && (o.Addr == left || p.Phi[o.Addr] == left) && len(o.Args) > 0 && o.Val.isTrue() {
						x = o.Args[0]
						return true
					}
				}
				return false
			}
			if !e.everyTurn(loop, puts) || x == nil {
				bad("a category of LVALUES can be left out")
				return
			}
			if why := e.overList(loop, x, parts); why != "" {
				bad("the categories put on the left are not all of LVALUES: " + why)
				return
			}
		case kind("NUMERICAL") == 0 && kind("CATEGORICAL") == 0:
		default:
			bad("undecided: which kind of splitter it is")
			return
		}
	}
}

// readForest: every tree read is kept, in order, in the forest that is returned.
func (c *Check) readForest() {
	f := c.method("ForestReader", "ReadForest")
	if f == nil {
		return
	}
	e := c.run(f, "format", Options{Opaque: exportedOpaque})
	if e == nil {
		return
	}
	bad := func(why string) {
		c.bad("format/ReadForest", f.Pos(), "ReadForest does not give back every tree of the forest: %s", why)
	}
	x := &errFlow{c: c, e: e, reads: true}
	var cur *Term
	e.each(func(cu *Cut, p *Path) {
		for s := range p.Phi {
			if s.T != nil && strings.HasSuffix(s.T.String(), "CloudForest.Forest") {
				cur = s
			}
		}
	})
	if cur == nil {
		bad("undecided: the forest it builds is not known")
		return
	}
	head := e.phiCut(cur)
	met := 0
	e.each(func(cu *Cut, p *Path) {
		facts := p.All()
		if p.End == "panic" || p.End == "exit" {
			return
		}
		calls := p.calls("ReadTree")
		if len(calls) == 0 {
			if p.End == "return" && cu == head {
				if p.Ret[0] != cur {
					bad("the forest is not returned")
				}
				// nothing more may belong to it
				next := false
				for _, g := range facts {
					g.walk(func(y *Term) bool {
						if arr, i := elem(y); arr != nil && isZero(i) {
							next = next || decide(facts, eqT(y, intT('F'), y.T)) == 1
						}
						return true
					})
				}
				if (!next || decide(facts, isnil(cur)) != 0) && !x.nonNil(facts, unwrapped(p.Ret[1])) {
					bad("it stops before the next forest begins")
				}
			}
			if p.To == head && cu == head && p.Phi[cur] != cur {
				bad("the forest is lost")
			}
			if p.End == "return" && cu != head && !x.nonNil(facts, unwrapped(p.Ret[1])) {
				bad("it reads nothing")
			}
			return
		}
		if len(calls) != 1 {
			bad("undecided: more than one tree is read at a time")
			return
		}
		met++
		c.ob("ForestReader.ReadForest", "a tree read")
		t, fo, er := mkExtract(calls[0].Res, "0"), mkExtract(calls[0].Res, "1"), mkExtract(calls[0].Res, "2")
		if notEnd(facts, er) && decide(facts, isnil(er)) == 0 {
			return
		}
		now := p.Phi[cur]
		if p.End == "return" {
			now = p.Ret[0]
		}
		had, newF, newT := decide(facts, isnil(cur)), decide(facts, isnil(fo)), decide(facts, isnil(t))
		if had == 0 && newF == 0 {
			return // the letter ahead tells it apart
		}
		if p.End == "return" && decide(facts, isnil(er)) == 1 {
			bad("it stops before the end of the input")
			return
		}
		if p.To != nil && x.fine(facts, er) && decide(facts, isnil(er)) != 1 {
			bad("it goes on after the end of the input")
			return
		}
		switch {
		case now == nil:
			bad("undecided: the forest kept")
			return
		case newF == 0 && now != fo:
			bad("the header that was read is not kept")
			return
		case newF == 1 && had == 0 && now != cur:
			bad("the forest is lost")
			return
		case newF == -1 || had == -1 && newF == 1:
			bad("whether there is a header is not looked at")
			return
		case newF == 1 && had == 1 && newT == 0:
			v, _ := p.final(now, ".Target")
			if now.Op != "alloc" || field(v, ".Target") != t {
				bad("a forest without a header does not get the tree's target")
				return
			}
		}
		v, wrote := p.final(now, ".Trees")
		switch newT {
		case 1:
			if wrote {
				bad("a tree is kept where none was read")
			}
		case 0:
			if !wrote || v.Op != "append" || len(v.Args) != 2 || v.Args[1] != t || !(field(v.Args[0], ".Trees") == now || now.Op == "alloc" && isnil(v.Args[0]).isTrue()) {
				bad("a tree that was read is not appended to the forest")
			}
		default:
			bad("whether a tree was read is not looked at")
		}
	})
	if met == 0 {
		bad("no tree is read")
	}
}

// addNode: the node is put where its path leads.
func (c *Check) addNode() {
	f := c.method("Tree", "AddNode")
	if f == nil {
		return
	}
	e := c.run(f, "format", Options{Opaque: exportedOpaque})
	if e == nil {
		return
	}
	bad := func(why string) {
		c.bad("format/AddNode", f.Pos(), "AddNode does not put the node where its path leads: %s", why)
	}
	t, path, pred, split := e.param(0), e.param(1), e.param(2), e.param(3)
	var node *Term
	for _, p := range e.Entry.Paths {
		for _, ev := range p.Events {
			if ev.Kind == "store" && addrField(ev.Addr, ".Pred") != nil {
				node = addrField(ev.Addr, ".Pred")
			}
		}
	}
	if node == nil || node.Op != "alloc" {
		bad("undecided: no node is made")
		return
	}
	root := e.fieldOf(t, "Root")
	if root == nil {
		bad("undecided: it does not look at the root")
		return
	}
	var loc *Term
	for _, p := range e.Entry.Paths {
		c.ob("Tree.AddNode", "begins at the root")
		if v, _ := p.final(node, ".Pred"); v != pred {
			bad("the node has another prediction")
		}
		if v, _ := p.final(node, ".Splitter"); v != split {
			bad("the node has another splitter")
		}
		for _, name := range []string{"Left", "Right", "Missing"} {
			if v, wrote := p.final(node, "."+name); wrote && !isnil(v).isTrue() {
				bad("the node has branches of its own")
			}
		}
		v, wrote := p.final(t, ".Root")
		switch decide(p.All(), isnil(root)) {
		case 1:
			if !wrote || v != node || p.End != "return" {
				bad("the first node does not become the root")
			}
		case 0:
			if wrote && v != root {
				bad("the root is replaced")
			}
			if p.To == nil {
				bad("the path is not followed")
				continue
			}
			for s, v := range p.Phi {
				if v == root {
					loc = s
				}
			}
		default:
			bad("whether there is a root is not looked at")
		}
	}
	if loc == nil {
		bad("undecided: where it is on the path")
		return
	}
	k := e.phiCut(loc)
	// the letter of the turn
	var idx *Term
	ranged := false
	letter := func(facts []*Term, b byte) int {
		out := -1
		for _, f := range facts {
			g, yes := f, 1
			if f.Op == "not" {
				g, yes = f.Args[0], 0
			}
			hit := false
			rangeOf := func(y *Term, i string) bool {
				return y.Op == "extract" && y.S == i && y.Args[0].Op == "next" && y.Args[0].contains(func(z *Term) bool { return z == path })
			}
			is := func(y *Term) bool {
				return eqT(y, intT(int64(b)), types.Typ[types.Byte]) == g || eq0(subT(intT(int64(b)), y)) == g
			}
			isText := func(y *Term) bool {
				return eqT(y, strT(string(b)), types.Typ[types.String]) == g
			}
			g.walk(func(y *Term) bool {
				at := func(y *Term) *Term {
					if y.Op == "index" && y.Args[0] == path {
						return y.Args[1]
					}
					if arr, i := elem(y); arr == path {
						return i
					}
					if rangeOf(y, "2") {
						return y
					}
					return nil
				}
				var i *Term
				switch {
				case y.Op == "slice" && len(y.Args) >= 3 && y.Args[0] == path && isOne(subT(y.Args[2], y.Args[1])) && isText(y):
					i = y.Args[1]
				case at(y) != nil && is(y):
					i = at(y)
				case y.Op == "conv" && at(y.Args[0]) != nil && isText(y):
					i = at(y.Args[0])
				}
				if i != nil {
					hit = true
					if rangeOf(i, "1") || rangeOf(i, "2") {
						ranged = true
					} else {
						idx = i
					}
				}
				return true
			})
			if hit {
				out = yes
				if yes == 1 {
					return 1
				}
			}
		}
		return out
	}
	turns := 0
	for _, p := range k.Paths {
		if p.End == "panic" {
			continue
		}
		if p.To != k {
			if p.End != "return" {
				bad("undecided: it goes on after the path")
			}
			continue
		}
		facts := p.All()
		turns++
		c.ob("Tree.AddNode", "a step of the path")
		which := ""
		for b, name := range map[byte]string{'L': "Left", 'R': "Right", 'M': "Missing"} {
			switch letter(facts, b) {
			case 1:
				which = name
			case -1:
				if which == "" {
					known := false
					for _, o := range []byte{'L', 'R', 'M'} {
						known = known || letter(facts, o) == 1
					}
					if !known {
						bad("a letter is not looked at")
						return
					}
				}
			}
		}
		var stored []string
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				for _, name := range []string{"Left", "Right", "Missing"} {
					if addrField(ev.Addr, "."+name) == loc {
						stored = append(stored, name)
						if ev.Val != node {
							bad("another node is added")
						}
					} else if o := addrField(ev.Addr, "."+name); o != nil {
						bad("the node is added elsewhere")
					}
				}
			}
		}
		next := p.Phi[loc]
		if which == "" {
			if len(stored) > 0 || next != loc {
				bad("another letter is followed")
			}
			continue
		}
		ch := e.fieldOf(loc, which)
		switch {
		case ch == nil || decide(facts, isnil(ch)) == -1:
			bad("whether there is a branch " + which + " is not looked at")
		case decide(facts, isnil(ch)) == 1:
			if len(stored) != 1 || stored[0] != which || next != node && field(next, "."+which) != loc {
				bad("a missing branch " + which + " does not become the node")
			}
		default:
			if len(stored) > 0 || field(next, "."+which) != loc {
				bad("the branch " + which + " is not followed")
			}
		}
	}
	if turns < 4 {
		bad("undecided: not every letter is met")
	}
	if ranged {
		for _, p := range k.Paths {
			over := p.To == k || p.End == "panic"
			for _, g := range p.Guards {
				over = over || g.Op == "not" && g.Args[0].Op == "extract" && g.Args[0].S == "0" && g.Args[0].Args[0].Op == "next"
			}
			if !over {
				bad("the letters are not followed to the end")
			}
		}
	}
	if idx == nil && !ranged {
		bad("undecided: the letters are not known")
	}
	if idx != nil {
		if why := e.countsAny(k, idx, func(n *Term) bool { return n == lenT(path) }); why != "" || !e.ascends(k, idx) {
			// the first letter of a path stands for the root
			bad("the letters are not followed in order: " + why)
		}
	}
}

func init() {
	register(&Rule{ID: "C16", Min: 25,
		What: "on every path of WriteForestHeader, WriteTreeHeader and WriteNode the text handed to the writer is one line of key=value clauses that hold the given values in a form that reads back exactly, and a clause is left out only where the reader's default is known to be the value; WriteNodeAndChildren writes the node, then each present branch below its letter, WriteTree the header and the root, WriteForest the header and every tree in order; ReadTree stores what the clauses of each kind of line hold in a new forest, a new tree or a new node of the tree, never begins a tree before the last was returned, ReadForest appends every tree it is given, and AddNode follows the letters of the path",
		Run: func(c *Check) {
			c.forestWriter()
			c.forestReader()
		}})
}

func (t *Term) isStr() bool { _, ok := t.str(); return ok }
