package main

import (
	"go/types"
	"reflect"
	"strings"
)

// ---- C39: trees in scikit-learn's layout -----------------------------------------------------------

type scikit struct {
	c          *Check
	e          *Exec
	key        string
	dep, n, sk *Term
	node       *types.Struct
	nodeName   string
}

func (x *scikit) bad(ev *Event, f string, a ...interface{}) {
	if ev != nil && ev.In != nil {
		x.c.bad(x.key, ev.In.Pos(), f, a...)
		return
	}
	x.c.bad(x.key, x.e.Root.Pos(), f, a...)
}

func ptrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	nm, ok := p.Elem().(*types.Named)
	return ok && nm.Obj().Name() == name
}

// roles finds depth, node and tree among values by their types.
func roles(sig *types.Signature, args []*Term) (dep, n, sk *Term) {
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(ts) != len(args) {
		return
	}
	for i, t := range ts {
		switch b, ok := t.Underlying().(*types.Basic); {
		case ok && b.Kind() == types.Int:
			dep = args[i]
		case ptrTo(t, "Node"):
			n = args[i]
		case ptrTo(t, "ScikitTree"):
			sk = args[i]
		}
	}
	return
}

func (c *Check) scikitTree() {
	f := c.fn("", "BuildScikitTree")
	if f == nil {
		return
	}
	e := c.run(f, "!", Options{Loads: true})
	if e == nil {
		return
	}
	x := &scikit{c: c, e: e, key: "scikit/BuildScikitTree"}
	var ps []*Term
	for i := range f.Params {
		ps = append(ps, e.param(i))
	}
	x.dep, x.n, x.sk = roles(f.Signature, ps)
	if x.dep == nil || x.n == nil || x.sk == nil {
		x.bad(nil, "it does not take a depth, a node and a scikit tree")
		return
	}
	for _, cu := range e.Cuts {
		if cu.Loop {
			x.bad(nil, "undecided: it loops")
			return
		}
	}
	leaves, inner := 0, 0
	paths, ok := e.runs(e.Entry)
	if !ok {
		x.bad(nil, "undecided: too many ways through it")
		return
	}
	for _, p := range paths {
		if p.End == "panic" {
			x.bad(nil, "it may panic")
			continue
		}
		switch x.judge(p) {
		case 0:
			leaves++
		case 1:
			inner++
		}
	}
	c.ob(x.key, "leaves and splits are both converted")
	if leaves == 0 || inner == 0 {
		x.bad(nil, "leaves and splits are not told apart")
	}
}

// runs joins the paths from a cut to the end of an analysis without loops.
func (e *Exec) runs(k *Cut) (out []*Path, ok bool) {
	ok = true
	var walk func(d *Cut, pre *Path, sub map[*Term]*Term, depth int)
	walk = func(d *Cut, pre *Path, sub map[*Term]*Term, depth int) {
		if depth > 12 || len(out) > 2000 || d.Loop {
			ok = false
			return
		}
		in := func(t *Term) *Term {
			if t == nil {
				return nil
			}
			return rewrite(t, func(x *Term) *Term { return sub[x] })
		}
		for _, p := range d.Paths {
			q := &Path{From: k, To: p.To, End: p.End, Phi: map[*Term]*Term{}, Guards: append([]*Term{}, pre.Guards...), Events: append([]*Event{}, pre.Events...)}
			for _, g := range p.Guards {
				q.Guards = append(q.Guards, in(g))
			}
			for _, ev := range p.Events {
				w := *ev
				w.Addr, w.Val, w.Res = in(ev.Addr), in(ev.Val), in(ev.Res)
				w.Args = nil
				for _, a := range ev.Args {
					w.Args = append(w.Args, in(a))
				}
				q.Events = append(q.Events, &w)
			}
			for s, v := range p.Phi {
				q.Phi[s] = in(v)
			}
			if p.To == nil {
				out = append(out, q)
				continue
			}
			walk(p.To, q, q.Phi, depth+1)
		}
	}
	walk(k, &Path{}, map[*Term]*Term{}, 0)
	return
}

// judge decides one way through the function; 0 for a leaf, 1 for a split.
func (x *scikit) judge(p *Path) int {
	c, e := x.c, x.e
	facts := append(append([]*Term{}, e.Entry.In.facts...), p.Guards...)
	split := -1
	for _, g := range facts {
		g.walk(func(t *Term) bool {
			if o := field(t, "Node.Splitter"); o != nil && o == x.n {
				switch decide(facts, isnil(t)) {
				case 1:
					split = 0
				case 0:
					split = 1
				}
				if decide(facts, notT(isnil(t))) == 1 {
					split = 1
				}
			}
			return true
		})
	}
	if split < 0 {
		x.bad(nil, "a node is converted without knowing whether it has a splitter")
		return -1
	}
	what := []string{"leaf", "split"}[split]
	isSk := func(o *Term) bool { return o != nil && (o == x.sk || e.copyOf(o) == x.sk) }
	// what has happened up to an event
	type state struct {
		calls, appended, counted int
	}
	var st state
	at := map[*Term]state{} // when a value was read
	vals := map[string]*Term{}
	when := map[string]*Event{}
	maxd := (*Term)(nil)
	var nodes0 *Term // the list before
	newNode := (*Term)(nil)
	children := []*Term{}
	counts := map[string]state{} // what the children were said to begin at
	// position: the place of the new node
	isPos := func(t *Term) bool {
		if t == nil {
			return false
		}
		s, ok := at[t]
		if ok && s.calls == 0 {
			if o := field(t, "ScikitTree.NodeCount"); isSk(o) && s.counted == 0 {
				return true
			}
		}
		return t.Op == "len" && nodes0 != nil && t.Args[0] == nodes0
	}
	// count: the number of nodes made when a value was computed
	count := func(t *Term) (state, bool) {
		if t == nil {
			return state{}, false
		}
		if s, ok := at[t]; ok {
			if o := field(t, "ScikitTree.NodeCount"); isSk(o) {
				return s, true
			}
		}
		if t.Op == "len" {
			if t.Args[0] == newNode {
				return state{0, 1, 1}, true
			}
			if s, ok := at[t.Args[0]]; ok && isSk(field(t.Args[0], "ScikitTree.Nodes")) {
				return s, true
			}
		}
		if b := addI(t, -1); isPos(b) {
			return state{0, 1, 1}, true
		}
		return state{}, false
	}
	initial := func(o *Term, name string) bool { return isSk(field(o, name)) && at[o].calls == 0 }
	for _, ev := range p.Events {
		switch ev.Kind {
		case "load":
			if ev.Val != nil {
				if _, ok := at[ev.Val]; !ok {
					at[ev.Val] = st
				}
				if isSk(field(ev.Val, "ScikitTree.Nodes")) && st.calls == 0 && st.appended == 0 {
					nodes0 = ev.Val
				}
			}
		case "append":
			if ev.Val.Op == "append" && isSk(field(ev.Val.Args[0], "ScikitTree.Nodes")) {
				if nodes0 == nil {
					nodes0 = ev.Val.Args[0]
				}
				if st.calls > 0 || st.appended > 0 || len(ev.Args) != 1 || ev.Val.Args[0] != nodes0 {
					x.bad(ev, "a %s is not added as exactly one node", what)
					return -1
				}
				newNode = ev.Val
				v := ev.Args[0]
				if v.Op == "struct" || strings.HasPrefix(v.Op, "struct") {
					if stt := scikitStruct(v, x.c, "ScikitNode"); stt != nil && len(v.Args) == stt.NumFields() {
						for i := 0; i < stt.NumFields(); i++ {
							vals[stt.Field(i).Name()] = v.Args[i]
							when[stt.Field(i).Name()] = ev
						}
					}
				}
			}
		case "store":
			if isLocal(ev.Addr) {
				continue
			}
			if o := addrField(ev.Addr, "ScikitTree.Nodes"); o != nil {
				if !isSk(o) || newNode == nil || ev.Val != newNode {
					x.bad(ev, "the list of nodes becomes %s", ev.Val)
					return -1
				}
				st.appended++
				continue
			}
			if o := addrField(ev.Addr, "ScikitTree.NodeCount"); o != nil {
				b := addI(ev.Val, -1)
				if !isSk(o) || !(initial(b, "ScikitTree.NodeCount") && st.calls == 0 && st.counted == 0 || b.Op == "len" && isPos(b) || ev.Val.Op == "len" && ev.Val.Args[0] == newNode && st.calls == 0) {
					x.bad(ev, "the number of nodes becomes %s", ev.Val)
					return -1
				}
				st.counted++
				continue
			}
			if o := addrField(ev.Addr, "ScikitTree.MaxDepth"); o != nil {
				if !isSk(o) || ev.Val != x.dep || maxd != nil {
					x.bad(ev, "the greatest depth becomes %s", ev.Val)
				}
				maxd = ev.Val
				if !(decide(facts, ge0(addI(subT(x.dep, x.readOf(facts, "ScikitTree.MaxDepth")), -1))) == 1 || decide(facts, ge0(subT(x.dep, x.readOf(facts, "ScikitTree.MaxDepth")))) == 1) {
					x.bad(ev, "the greatest depth may become less")
				}
				continue
			}
			if addrField(ev.Addr, "ScikitTree.Capacity") != nil {
				continue
			}
			if ev.Addr.Op == "fieldaddr" && strings.HasPrefix(ev.Addr.S, "ScikitNode.") {
				arr, i := addrElem(ev.Addr.Args[0])
				name := strings.TrimPrefix(ev.Addr.S, "ScikitNode.")
				fresh := arr != nil && (arr == newNode && st.calls == 0 || isSk(field(arr, "ScikitTree.Nodes")) && at[arr].calls == st.calls && hasKey(at, arr) && at[arr].appended > 0)
				if !fresh {
					x.bad(ev, "%s of a node is set in an old copy of the list of nodes", name)
					return -1
				}
				if !isPos(i) {
					x.bad(ev, "%s is set for another node than the one added", name)
					return -1
				}
				vals[name] = ev.Val
				when[name] = ev
				continue
			}
			if ev.Addr.Op == "fieldaddr" && strings.HasPrefix(ev.Addr.S, "ScikitTree.") {
				x.bad(ev, "%s is changed", ev.Addr.S)
			}
		case "call":
			if ev.Fn == nil {
				continue
			}
			d, n, sk := roles(ev.Fn.Signature, ev.Args)
			if sk == nil {
				continue
			}
			if !isSk(sk) || d == nil || n == nil || !(ev.Fn == e.Root || e.Inlined[ev.Fn]) {
				x.bad(ev, "undecided: the tree is handed to %s", ev.Name)
				return -1
			}
			if d != addI(x.dep, 1) {
				x.bad(ev, "a child is converted at depth %s", d)
			}
			if st.appended != 1 || st.counted != 1 {
				x.bad(ev, "a child is converted before its parent was added and counted")
				return -1
			}
			children = append(children, n)
			counts[childName(n, x.n)] = st
			st.calls++
		}
	}
	c.ob(x.key, "a "+what+" becomes one node, which is counted")
	if st.appended != 1 || st.counted != 1 {
		x.bad(nil, "a %s is added %d times and counted %d times", what, st.appended, st.counted)
		return split
	}
	c.ob(x.key, "the greatest depth is kept")
	if maxd == nil {
		m := x.readOf(facts, "ScikitTree.MaxDepth")
		if m == nil || decide(facts, ge0(subT(m, x.dep))) != 1 {
			x.bad(nil, "a depth greater than all before may be passed over")
		}
	}
	if split == 0 {
		c.ob(x.key, "a leaf has no children")
		for _, name := range []string{"LeftChild", "RightChild"} {
			if vals[name] != intT(-1) {
				x.bad(when[name], "the %s of a leaf is %s, not -1", name, show(vals[name]))
			}
		}
		if len(children) > 0 {
			x.bad(nil, "a leaf has children")
		}
		return 0
	}
	c.ob(x.key, "a split keeps its feature and threshold")
	if o := field(vals["Feature"], "Node.Featurei"); o != x.n || o == nil {
		x.bad(when["Feature"], "the feature of a split becomes %s", show(vals["Feature"]))
	}
	if o := field(vals["Threshold"], "Splitter.Value"); o == nil || field(o, "Node.Splitter") != x.n {
		x.bad(when["Threshold"], "the threshold of a split becomes %s", show(vals["Threshold"]))
	}
	c.ob(x.key, "both children are converted once, where the node says")
	if len(children) != 2 || childName(children[0], x.n) == childName(children[1], x.n) {
		x.bad(nil, "not both children of a split are converted once")
		return 1
	}
	for _, side := range []string{"Left", "Right"} {
		want, ok := counts[side]
		if !ok {
			x.bad(nil, "the %s child of a split is not converted", side)
			continue
		}
		got, ok := count(vals[side+"Child"])
		if !ok || got != want {
			x.bad(when[side+"Child"], "%sChild becomes %s, which is not the number of nodes there are when that child is converted", side, show(vals[side+"Child"]))
		}
	}
	return 1
}

func hasKey(m interface{}, t *Term) bool {
	return reflect.ValueOf(m).MapIndex(reflect.ValueOf(t)).IsValid()
}

func show(t *Term) string {
	if t == nil {
		return "unset"
	}
	return t.String()
}

func childName(t, n *Term) string {
	for _, s := range []string{"Left", "Right"} {
		if o := field(t, "Node."+s); o != nil && o == n {
			return s
		}
	}
	return t.String()
}

func (x *scikit) readOf(facts []*Term, name string) (out *Term) {
	for _, g := range facts {
		g.walk(func(t *Term) bool {
			if o := field(t, name); o != nil && o == x.sk {
				out = t
			}
			return true
		})
	}
	if out == nil {
		out = nilT()
	}
	return
}

// structOf is the declared struct a value of composite type is made of.
func scikitStruct(v *Term, c *Check, name string) *types.Struct {
	root := c.P.Pkgs[RepoPath]
	if root == nil {
		return nil
	}
	o := root.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	s, _ := o.Type().Underlying().(*types.Struct)
	return s
}

// scikitNames: the names scikit-learn knows the fields by.
func (c *Check) scikitNames() {
	want := map[string]map[string]string{
		"ScikitNode": {"LeftChild": "left_child", "RightChild": "right_child", "Feature": "feature", "Threshold": "threshold"},
		"ScikitTree": {"NFeatures": "n_features", "MaxDepth": "max_depth", "NodeCount": "node_count", "Nodes": "nodes"},
	}
	for _, typ := range []string{"ScikitNode", "ScikitTree"} {
		s := scikitStruct(nil, c, typ)
		if s == nil {
			c.badAt("scikit/"+typ, "-", "%s is not declared", typ)
			continue
		}
		used := map[string]string{}
		for i := 0; i < s.NumFields(); i++ {
			name := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")
			f := s.Field(i)
			if len(name) > 1 {
				for _, o := range name[1:] {
					if o != "" && want[typ][f.Name()] != "" {
						c.bad("scikit/"+typ, f.Pos(), "%s is written with the option %s", f.Name(), o)
					}
				}
			}
			if used[name[0]] != "" {
				c.bad("scikit/"+typ, f.Pos(), "%s and %s have the same name in the file", f.Name(), used[name[0]])
			}
			used[name[0]] = f.Name()
			w, ok := want[typ][f.Name()]
			if !ok {
				continue
			}
			delete(want[typ], f.Name())
			c.ob("scikit/"+typ, "the names of the layout")
			if name[0] != w {
				c.bad("scikit/"+typ, f.Pos(), "%s is written as %q, not as %s", f.Name(), name[0], w)
			}
		}
		for f := range want[typ] {
			c.badAt("scikit/"+typ, "-", "%s has no %s", typ, f)
		}
	}
}

// scikitNew: a new tree is empty.
func (c *Check) scikitNew() {
	f := c.fn("", "NewScikitTree")
	if f == nil {
		return
	}
	e := c.run(f, "!", Options{})
	if e == nil {
		return
	}
	key := "scikit/NewScikitTree"
	e.each(func(cu *Cut, p *Path) {
		if p.To != nil || p.End == "panic" {
			return
		}
		c.ob(key, "a new tree has no nodes")
		if len(p.Ret) != 1 {
			c.bad(key, f.Pos(), "undecided: it returns %d values", len(p.Ret))
			return
		}
		for _, name := range []string{"MaxDepth", "NodeCount"} {
			if v, wrote := p.final(p.Ret[0], "ScikitTree."+name); wrote && !isZero(v) {
				c.bad(key, f.Pos(), "a new tree starts with %s %s", name, v)
			}
		}
		if v, wrote := p.final(p.Ret[0], "ScikitTree.Nodes"); wrote && !emptyList(v) && !isZero(lenT(v)) && v.Op != "nil" {
			c.bad(key, f.Pos(), "a new tree starts with nodes: %s", v)
		}
		if v, _ := p.final(p.Ret[0], "ScikitTree.NFeatures"); v != e.param(0) {
			c.bad(key, f.Pos(), "a new tree is for %s features", show(v))
		}
	})
}

// scikitFile: growforest converts every tree from its root into a tree of its own, keeps it complete, and
// writes all of them to the file asked for.
func (c *Check) scikitFile() {
	e := c.command("growforest")
	if e == nil {
		return
	}
	key := "scikit/growforest"
	flag := e.flag("scikitforest")
	at := e.Root.Pos()
	if flag == nil {
		c.bad(key, at, "there is no flag scikitforest")
		return
	}
	built := 0
	lists := map[*Term]bool{}
	fam := func(g *Exec) {
		g.each(func(cu *Cut, p *Path) {
			for i, ev := range p.Events {
				if ev.Kind != "call" || !nameIs(ev.Name, "BuildScikitTree") || ev.Fn == nil {
					continue
				}
				built++
				c.ob(key, "a tree is converted from its root into an empty one")
				d, n, sk := roles(ev.Fn.Signature, ev.Args)
				if d == nil || !isZero(d) {
					c.bad(key, ev.In.Pos(), "a tree's root is converted at depth %s", show(d))
				}
				if n == nil || field(n, "Tree.Root") == nil {
					c.bad(key, ev.In.Pos(), "the conversion starts at %s", show(n))
				}
				if isCall(sk, "NewScikitTree") == nil {
					c.bad(key, ev.In.Pos(), "a tree is converted into %s, not an empty tree", show(sk))
				}
				fresh, kept := false, 0
				for j, w := range p.Events {
					if w.Kind == "call" && nameIs(w.Name, "NewScikitTree") && j < i && w.Res == sk {
						fresh = true
					}
					if w.Kind == "append" && len(w.Args) == 1 && w.Args[0].Op == "load" && w.Args[0].Args[0] == sk {
						if j < i {
							c.bad(key, w.In.Pos(), "a tree is kept before it was converted")
						}
						kept++
						for _, s := range p.Events[j:] {
							if s.Kind == "store" && s.Val == w.Val {
								lists[g.copyOf(s.Addr)] = true
							}
						}
					}
				}
				if !fresh {
					c.bad(key, ev.In.Pos(), "trees are converted into one and the same tree")
				}
				if kept != 1 {
					c.bad(key, ev.In.Pos(), "a converted tree is kept %d times", kept)
				}
			}
		})
	}
	fam(e)
	if built == 0 {
		c.bad(key, at, "no tree is converted")
		return
	}
	wrote := 0
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "json.Encoder).Encode") || len(ev.Args) != 2 {
				continue
			}
			wrote++
			c.ob(key, "all converted trees are written to the file asked for")
			v := unwrapped(ev.Args[1])
			if v.Op != "load" || !lists[e.copyOf(v.Args[0])] {
				c.bad(key, ev.In.Pos(), "%s is written, not the list of converted trees", v)
			}
			if !ev.Args[0].contains(func(y *Term) bool {
				a := isCall(y, "Create")
				return len(a) == 1 && isLoadOf(a[0], flag)
			}) {
				c.bad(key, ev.In.Pos(), "the trees are not written to the file given by -scikitforest")
			}
			for _, q := range cuPaths(e) {
				if q.To == nil || !hasEvent(q, ev) {
					continue
				}
				if e.reachesFrom(q.To, nil, func(r *Path) bool {
					for _, w := range r.Events {
						if w.Kind == "call" && nameIs(w.Name, "BuildScikitTree") {
							return true
						}
					}
					return false
				}) != nil {
					c.bad(key, ev.In.Pos(), "trees are converted after the file was written")
				}
			}
		}
	})
	if wrote == 0 {
		c.bad(key, at, "no converted tree is written")
	}
	ends := func(p *Path) bool { return p.To == nil && p.End == "return" }
	if e.reaches(func(p *Path) bool {
		if p.flagEmpty(flag) {
			return true
		}
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "json.Encoder).Encode") {
				return true
			}
		}
		return false
	}, ends) != nil {
		c.bad(key, at, "growforest may end without writing the trees -scikitforest asks for")
	}
}

func cuPaths(e *Exec) (out []*Path) {
	for _, cu := range e.Cuts {
		out = append(out, cu.Paths...)
	}
	return
}

func init() {
	register(&Rule{ID: "C39", What: "BuildScikitTree, per way through it: one node is appended to the list and counted, the greatest depth is kept, a node without splitter gets -1 for both children and no recursion, one with a splitter its own Featurei and Splitter.Value, one recursion for each child at depth+1, and LeftChild/RightChild the number of nodes there are when that child's recursion starts, all stored through the current list at the new node's place; the JSON names are scikit-learn's; growforest converts every tree from its root into a new tree, keeps it after the conversion and encodes the whole list to the file of -scikitforest", Min: 14,
		Run: func(c *Check) {
			c.scikitTree()
			c.scikitNew()
			c.scikitNames()
			c.scikitFile()
		}})
}
