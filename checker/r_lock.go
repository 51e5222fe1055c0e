package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C20", Min: 60, Run: ruleC20,
		What: "for every type with shared counts (RunningMean, SparseCounter and the three ballot boxes, and any other type of the package that holds a mutex) each exported method is walked with its callees inlined and the set of locks held at every instruction; each location of the receiver that some method writes must have one lock, belonging to the same object, that every access in every exported method holds; a write must not depend on an earlier read of the same data made in another critical section",
	})
	register(&Rule{ID: "C21", Min: 15, Run: ruleC21,
		What: "lock states (the set of locks held, deferred unlocks, completion signals sent) are propagated along every path of every function that locks: no unlock of a lock that is not held, no second lock of a held one, nothing held at return or across a turn of a loop, the order in which locks nest is acyclic; a growforest worker signals the wait group exactly once on every way out and the wait group is told the number of workers started; leafcount's worker sends one completion per file received and only after its last write to shared data, and main receives as many as there are files before reading the results",
	})
	register(&Rule{ID: "C22", Min: 15, Run: ruleC22,
		What: "from the write summaries (which memory each function reaches from its parameters and captured variables may write) and the lock states inside a worker: every location shared between the workers that a worker writes is either guarded data of an accumulator (C20's result, written by its methods) or is written with one common lock held at every write in the worker, and captured variables the workers write are read under that lock too",
	})
}

// ---- guarded accumulators ------------------------------------------------------------

type access struct {
	class, path string
	agg, write  bool
	c           *lctx
	in          ssa.Instruction
	locks       []held
	method      string
}

type guardInfo struct {
	w       *lockWalk
	acc     []*access
	groups  map[string][]*access // type.class -> accesses, for classes some method writes
	lock    map[string]string    // the lock that guards each class
	sites   map[ssa.Instruction]bool
	classes map[string]map[string]bool // type -> guarded classes
	methods int
}

func psegs(path string) (out []string) {
	depth, cur := 0, ""
	flush := func() {
		if cur != "" {
			out = append(out, cur)
			cur = ""
		}
	}
	for i := 0; i < len(path); i++ {
		ch := path[i]
		switch {
		case ch == '[':
			if depth == 0 {
				flush()
			}
			depth++
			cur += string(ch)
		case ch == ']':
			depth--
			cur += string(ch)
			if depth == 0 {
				flush()
			}
		case depth == 0 && (ch == '.' || ch == '*'):
			flush()
			cur = string(ch)
			if ch == '*' {
				flush()
			}
		default:
			cur += string(ch)
		}
	}
	flush()
	return
}

func erase(path string) string {
	var b strings.Builder
	for _, s := range psegs(path) {
		if s[0] == '[' {
			b.WriteString("[]")
		} else {
			b.WriteString(s)
		}
	}
	return b.String()
}

// relation names lock l from the point of view of the location p; "" when l may be some other object's lock.
func relation(l, p string) string {
	a, b := psegs(l), psegs(p)
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	if n == 0 {
		return ""
	}
	out := erase(strings.Join(a[:n], "")) + "|"
	for _, s := range a[n:] {
		if s[0] != '[' {
			out += s
			continue
		}
		hit := false
		for i, t := range b {
			if t == s {
				out += fmt.Sprintf("[=%d]", i)
				hit = true
				break
			}
		}
		if !hit {
			return ""
		}
	}
	return out
}

var accumulators = []string{"RunningMean", "SparseCounter", "CatBallotBox", "NumBallotBox", "SumBallotBox"}

// declaredMethods are the exported methods declared on the type itself.
func (p *Prog) declaredMethods(n *types.Named) (out []*ssa.Function) {
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		f := p.SSA.MethodValue(ms.At(i))
		if f == nil || f.Synthetic != "" || len(f.Blocks) == 0 || !token.IsExported(f.Name()) {
			continue
		}
		out = append(out, f)
	}
	return
}

func memAccesses(w *lockWalk, c *lctx, in ssa.Instruction) (out []*access) {
	add := func(path string, t types.Type, write bool) {
		out = append(out, &access{path: path, class: erase(path), write: write, agg: t != nil && isAggregate(t), c: c, in: in})
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add(w.path(c, x.X), x.Type(), false)
		}
	case *ssa.Store:
		add(w.path(c, x.Addr), x.Val.Type(), true)
	case *ssa.MapUpdate:
		add(w.path(c, x.Map)+"["+w.path(c, x.Key)+"]", nil, true)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			add(w.path(c, x.X)+"["+w.path(c, x.Index)+"]", nil, false)
		}
	case *ssa.Next:
		if !x.IsString {
			add(w.path(c, x.Iter.(*ssa.Range).X)+"[range]", nil, false)
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok {
			return
		}
		switch b.Name() {
		case "len":
			if _, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok {
				add(w.path(c, x.Call.Args[0])+"[len]", nil, false)
			}
		case "append", "copy":
			add(w.path(c, x.Call.Args[0])+"["+b.Name()+"]", nil, true)
			if len(x.Call.Args) > 1 {
				add(w.path(c, x.Call.Args[1])+"["+b.Name()+"]", nil, false)
			}
		case "delete", "clear":
			add(w.path(c, x.Call.Args[0])+"["+b.Name()+"]", nil, true)
		}
	}
	return
}

func (p *Prog) guards() *guardInfo {
	if p.gi != nil {
		return p.gi
	}
	g := &guardInfo{w: newLockWalk(p), groups: map[string][]*access{}, lock: map[string]string{}, sites: map[ssa.Instruction]bool{}, classes: map[string]map[string]bool{}}
	p.gi = g
	names := append([]string{}, accumulators...)
	if pk := p.Pkgs[RepoPath]; pk != nil {
		for _, n := range pk.Scope().Names() {
			tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok && hasMutex(st) && !contains(names, n) {
				names = append(names, n)
			}
		}
	}
	w := g.w
	w.inline = fnInRepo
	for _, n := range names {
		nt := p.Named(n)
		if nt == nil {
			continue
		}
		for _, f := range p.declaredMethods(nt) {
			g.methods++
			nm := map[ssa.Value]string{}
			for i, q := range f.Params {
				nm[q] = "param:" + q.Name()
				if i == 0 {
					nm[q] = "recv"
				}
			}
			byIn := map[string]*access{}
			w.visit = func(c *lctx, in ssa.Instruction, st *lstate) {
				for _, a := range memAccesses(w, c, in) {
					if !strings.HasPrefix(a.path, "recv") {
						continue
					}
					a.class = n + strings.TrimPrefix(a.class, "recv")
					a.method = f.Name()
					a.locks = append([]held{}, st.locks...)
					k := fmt.Sprintf("%d/%p/%s/%v/%s", c.id, in, a.path, a.write, st.key())
					if byIn[k] == nil {
						byIn[k] = a
						g.acc = append(g.acc, a)
					}
				}
			}
			w.run(w.root(f, nm, nil), &lstate{count: map[string]int{}, facts: map[string]bool{}})
		}
	}
	w.visit = nil
	mutable := map[string]bool{}
	for _, a := range g.acc {
		if a.write && !a.agg {
			mutable[a.class] = true
		}
		if a.write && a.agg {
			for _, b := range g.acc {
				if strings.HasPrefix(b.class, a.class) {
					mutable[b.class] = true
				}
			}
		}
	}
	for k := range mutable {
		for _, a := range g.acc {
			if a.class == k || (a.agg && strings.HasPrefix(k, a.class)) {
				g.groups[k] = append(g.groups[k], a)
			}
		}
		votes := map[string]int{}
		for _, a := range g.groups[k] {
			seen := map[string]bool{}
			for _, h := range a.locks {
				if a.write && h.read {
					continue
				}
				r := relation(h.path, a.path)
				if r != "" && !seen[r] {
					seen[r] = true
					votes[r]++
				}
			}
		}
		best := ""
		for r, n := range votes {
			if best == "" || n > votes[best] || (n == votes[best] && r < best) {
				best = r
			}
		}
		g.lock[k] = best
		ok := best != "" && votes[best] == len(g.groups[k])
		if ok {
			tn := k
			if i := strings.IndexAny(k, ".*["); i > 0 {
				tn = k[:i]
			}
			if g.classes[tn] == nil {
				g.classes[tn] = map[string]bool{}
			}
			g.classes[tn][k] = true
			for _, a := range g.groups[k] {
				if a.write {
					g.sites[a.in] = true
				}
			}
		}
	}
	return g
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func hasMutex(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch typeName(t) {
		case "sync.Mutex", "sync.RWMutex":
			return true
		}
	}
	return false
}

func holdsRel(a *access, rel string) *held {
	for i := range a.locks {
		h := &a.locks[i]
		if a.write && h.read {
			continue
		}
		if relation(h.path, a.path) == rel {
			return h
		}
	}
	return nil
}

func lockName(rel string) string { return strings.Replace(rel, "|", "", 1) }

func ruleC20(c *Check) {
	for _, n := range accumulators {
		if c.P.Named(n) == nil {
			c.badAt("anchor/"+n, "-", "%s is not declared: the property has no subject there", n)
			return
		}
	}
	g := c.P.guards()
	var ks []string
	for k := range g.groups {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	subject := map[string]bool{}
	for _, k := range ks {
		for _, a := range g.groups[k] {
			c.fns[FuncName(a.in.Parent())] = true
			site := k + " in " + a.method
			c.ob(site, "held: "+lockName(g.lock[k]))
			subject[strings.FieldsFunc(k, func(r rune) bool { return r == '.' || r == '*' || r == '[' })[0]] = true
			if g.lock[k] == "" {
				c.bad("unguarded/"+k, instrPos(a.in), "%s is written by its methods but no lock guards it (method %s)", k, a.method)
				continue
			}
			if holdsRel(a, g.lock[k]) == nil {
				what := "read"
				if a.write {
					what = "written"
				}
				c.bad("unguarded/"+k+"/"+a.method, instrPos(a.in), "%s is %s in %s without %s, which guards it elsewhere", k, what, a.method, lockName(g.lock[k]))
			}
		}
	}
	for _, n := range accumulators {
		if !subject[n] {
			c.badAt("vacuous/"+n, "-", "no shared data of %s is written by its methods: the rule has lost its subject", n)
		}
	}
	// a read-modify-write must sit in one critical section
	type ck struct {
		c  *lctx
		in ssa.Instruction
	}
	reads := map[ck][]*access{}
	for _, k := range ks {
		for _, a := range g.groups[k] {
			if !a.write {
				reads[ck{a.c, a.in}] = append(reads[ck{a.c, a.in}], a)
			}
		}
	}
	for _, k := range ks {
		if g.lock[k] == "" {
			continue
		}
		for _, a := range g.groups[k] {
			h := holdsRel(a, g.lock[k])
			if !a.write || h == nil {
				continue
			}
			for x := range g.w.slice(a.c, a.in) {
				for _, r := range reads[ck{x.c, x.in}] {
					rk := r.class
					if g.lock[rk] != g.lock[k] || r.in == a.in {
						continue
					}
					rh := holdsRel(r, g.lock[rk])
					if rh == nil || rh.path != h.path {
						continue
					}
					c.ob(k+" in "+a.method, "update in one critical section")
					if rh.acq != h.acq {
						c.bad("split-update/"+k+"/"+a.method, instrPos(a.in), "%s is written in %s from what was read at %s in another critical section: updates made in between are lost", k, a.method, c.at(r.in))
					}
				}
			}
		}
	}
}

type sliceItem struct {
	c  *lctx
	in ssa.Instruction
}

// slice is the set of instructions the effect of in depends on, by value and by control, through inlined calls.
func (w *lockWalk) slice(c *lctx, in ssa.Instruction) map[sliceItem]bool {
	out := map[sliceItem]bool{}
	seen := map[lval]bool{}
	ctl := map[sliceItem]bool{}
	var val func(c *lctx, v ssa.Value)
	var control func(c *lctx, b *ssa.BasicBlock)
	ops := func(c *lctx, in ssa.Instruction) {
		for _, o := range in.Operands(nil) {
			if *o != nil {
				val(c, *o)
			}
		}
	}
	val = func(c *lctx, v ssa.Value) {
		k := lval{c, v}
		if seen[k] {
			return
		}
		seen[k] = true
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			if lv, ok := c.env[v]; ok {
				val(lv.c, lv.v)
			}
			return
		case *ssa.Alloc:
			if x.Referrers() != nil {
				for _, r := range *x.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == v {
						out[sliceItem{c, s}] = true
						val(c, s.Val)
						control(c, s.Block())
					}
				}
			}
			return
		case *ssa.Phi:
			for i, e := range x.Edges {
				val(c, e)
				control(c, x.Block().Preds[i])
				pb := x.Block().Preds[i]
				if t, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok {
					val(c, t.Cond)
				}
			}
			return
		case *ssa.Extract:
			if ci, ok := x.Tuple.(*ssa.Call); ok {
				if ch := w.calls[ci][c]; ch != nil {
					w.returns(ch, x.Index, val, control)
					return
				}
			}
		case *ssa.Call:
			if ch := w.calls[x][c]; ch != nil {
				w.returns(ch, 0, val, control)
				return
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			out[sliceItem{c, in}] = true
			ops(c, in)
		}
	}
	control = func(c *lctx, b *ssa.BasicBlock) {
		for x := c; x != nil; x = x.parent {
			k := sliceItem{x, b.Instrs[0]}
			if ctl[k] {
				return
			}
			ctl[k] = true
			for _, d := range x.fn.Blocks {
				t, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
				if !ok || !d.Dominates(b) || d == b || !avoids(d, b) {
					continue
				}
				val(x, t.Cond)
			}
			if x.call == nil {
				return
			}
			b = x.call.Block()
		}
	}
	ops(c, in)
	control(c, in.Block())
	return out
}

func (w *lockWalk) returns(c *lctx, i int, val func(*lctx, ssa.Value), control func(*lctx, *ssa.BasicBlock)) {
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
				val(c, r.Results[i])
				control(c, b)
			}
		}
	}
}

// avoids reports whether the function can be left from d without passing b.
func avoids(d, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{d}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// ---- programs with workers -----------------------------------------------------------

type worker struct {
	in    *ssa.Go
	c     *lctx // the context of the go statement
	fn    *ssa.Function
	env   map[ssa.Value]lval
	facts map[string]bool
	root  *lctx
}

type program struct {
	main    *ssa.Function
	w       *lockWalk
	mctx    *lctx
	workers []*worker
	stored  []string
}

func emptyState() *lstate { return &lstate{count: map[string]int{}, facts: map[string]bool{}} }

// programs finds the main packages that start goroutines, and walks each to its go statements.
func (c *Check) programs() (out []*program) {
	var paths []string
	for ip := range c.P.SPkgs {
		paths = append(paths, ip)
	}
	sort.Strings(paths)
	for _, ip := range paths {
		sp := c.P.SPkgs[ip]
		mf := sp.Func("main")
		if mf == nil || sp.Pkg.Name() != "main" {
			continue
		}
		pr := &program{main: mf, w: newLockWalk(c.P)}
		pr.w.inline = func(f *ssa.Function) bool {
			return f.Pkg == sp || takesFunc(f)
		}
		pr.mctx = pr.w.root(mf, nil, nil)
		seen := map[ssa.Instruction]*worker{}
		pr.w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			if o := seen[g]; o != nil {
				for f, v := range o.facts {
					if nv, ok := st.facts[f]; !ok || nv != v {
						delete(o.facts, f)
					}
				}
				return
			}
			wk := &worker{in: g, c: x, env: map[ssa.Value]lval{}, facts: map[string]bool{}}
			for f, v := range st.facts {
				wk.facts[f] = v
			}
			if sc := g.Call.StaticCallee(); sc != nil && g.Call.Value == ssa.Value(sc) {
				wk.fn = sc
			} else {
				f, cc, mc := pr.w.closure(x, g.Call.Value)
				wk.fn = f
				if mc != nil {
					for i, b := range mc.Bindings {
						wk.env[f.FreeVars[i]] = lval{cc, b}
					}
				}
			}
			if wk.fn != nil {
				for i, q := range wk.fn.Params {
					if i < len(g.Call.Args) {
						wk.env[q] = lval{x, g.Call.Args[i]}
					}
				}
			}
			seen[g] = wk
			pr.workers = append(pr.workers, wk)
		}
		pr.w.run(pr.mctx, emptyState())
		if len(pr.workers) == 0 {
			continue
		}
		// what the workers store decides which conditions may change under them
		for _, wk := range pr.workers {
			if wk.fn == nil {
				c.bad("go/"+FuncName(mf), wk.in.Pos(), "undecided: the function started here cannot be told")
				continue
			}
			wk.root = pr.w.root(wk.fn, nil, wk.env)
			pr.w.noFacts = func(string) bool { return true }
			pr.w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
				if s, ok := in.(*ssa.Store); ok {
					if p := pr.w.path(x, s.Addr); !contains(pr.stored, p) {
						pr.stored = append(pr.stored, p)
					}
				}
			}
			pr.w.run(wk.root, emptyState())
		}
		pr.w.noFacts = func(k string) bool {
			for _, s := range pr.stored {
				if strings.Contains(k, s) {
					return true
				}
			}
			return false
		}
		for _, wk := range pr.workers {
			for f := range wk.facts {
				if pr.w.noFacts(f) {
					delete(wk.facts, f)
				}
			}
		}
		pr.w.visit = nil
		out = append(out, pr)
	}
	return
}

func takesFunc(f *ssa.Function) bool {
	if !fnInRepo(f) {
		return false
	}
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (wk *worker) start() *lstate {
	s := emptyState()
	for f, v := range wk.facts {
		s.facts[f] = v
	}
	return s
}

// innermost is the header of the innermost natural loop around b, with the loop's blocks.
func innermost(b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var best *ssa.BasicBlock
	var bestSet map[*ssa.BasicBlock]bool
	for _, h := range b.Parent().Blocks {
		set := naturalLoop(h)
		if set[b] && (best == nil || len(set) < len(bestSet)) {
			best, bestSet = h, set
		}
	}
	return best, bestSet
}

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	set := map[*ssa.BasicBlock]bool{}
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		set[h] = true
		work := []*ssa.BasicBlock{p}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if set[x] {
				continue
			}
			set[x] = true
			work = append(work, x.Preds...)
		}
	}
	return set
}

// trip is the number of turns of the loop with header h, as a path and a constant to add; ok when it can be told.
func (w *lockWalk) trip(c *lctx, h *ssa.BasicBlock) (string, int64, bool) {
	set := naturalLoop(h)
	for b := range set {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (set[b.Succs[0]] && set[b.Succs[1]]) || b != h {
			continue
		}
		stay := set[b.Succs[0]]
		bo, ok := t.Cond.(*ssa.BinOp)
		if !ok {
			return "", 0, false
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if !stay {
			neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
			op = neg[op]
		}
		ph, off := counter(x, h)
		if ph == nil {
			ph, off = counter(y, h)
			if ph == nil {
				return "", 0, false
			}
			x, y = y, x
			if f, ok := flipOp[op]; ok {
				op = f
			}
		}
		var init ssa.Value
		var step int64
		for i, e := range ph.Edges {
			if h.Dominates(h.Preds[i]) {
				p2, o2 := counter(e, h)
				if p2 != ph || o2 == 0 || (step != 0 && step != o2) {
					return "", 0, false
				}
				step = o2
			} else if init == nil || init == e {
				init = e
			} else {
				return "", 0, false
			}
		}
		if init == nil {
			return "", 0, false
		}
		ik, iconst := init.(*ssa.Const)
		switch {
		case step == 1 && iconst && (op == token.LSS || op == token.NEQ):
			return w.path(c, y), -(ik.Int64() + off), true
		case step == 1 && iconst && op == token.LEQ:
			return w.path(c, y), 1 - (ik.Int64() + off), true
		case step == -1 && !iconst:
			if yk, ok := y.(*ssa.Const); ok && (op == token.GTR || op == token.NEQ) {
				return w.path(c, init), off - yk.Int64(), true
			} else if ok && op == token.GEQ {
				return w.path(c, init), off - yk.Int64() + 1, true
			}
		}
		return "", 0, false
	}
	return "", 0, false
}

// counter reads v as phi + k for a phi of the block h.
func counter(v ssa.Value, h *ssa.BasicBlock) (*ssa.Phi, int64) {
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == h {
			return x, 0
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && isIntT(k.Type()) {
			if p, o := counter(x.X, h); p != nil {
				if x.Op == token.ADD {
					return p, o + k.Int64()
				}
				if x.Op == token.SUB {
					return p, o - k.Int64()
				}
			}
		}
	case *ssa.Convert:
		return counter(x.X, h)
	}
	return nil, 0
}

func ruleC21(c *Check) {
	checkLocking(c)
	prs := c.programs()
	if len(prs) == 0 {
		c.badAt("anchor/workers", "-", "no program starts goroutines: the property has no subject there")
	}
	names := map[string]bool{}
	for _, pr := range prs {
		names[pr.main.Pkg.Pkg.Name()] = true
		names[strings.TrimPrefix(pr.main.Pkg.Pkg.Path(), RepoPath+"/")] = true
		checkWorkers(c, pr)
	}
	for _, n := range []string{"growforest", "leafcount"} {
		if !names[n] {
			c.badAt("anchor/"+n, "-", "%s starts no workers: the property has no subject there", n)
		}
	}
}

func reporter(c *Check, where string) func(kind string, in ssa.Instruction, format string, a ...interface{}) {
	return func(kind string, in ssa.Instruction, format string, a ...interface{}) {
		c.bad(kind+"/"+where, instrPos(in), "%s: %s", where, fmt.Sprintf(format, a...))
	}
}

// checkLocking walks the library functions that lock.
func checkLocking(c *Check) {
	w := newLockWalk(c.P)
	order := map[string]map[string]ssa.Instruction{}
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Pkg == nil || f.Pkg.Pkg.Name() == "main" || !token.IsExported(f.Name()) {
			continue
		}
		pk := f.Pkg
		w.inline = func(g *ssa.Function) bool {
			return g.Pkg == pk && (!token.IsExported(g.Name()) || takesFunc(g))
		}
		locks := 0
		w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if op, _ := lockOp(ci.Common()); op != "" {
				locks++
			}
			lockOrder(c, w, x, ci, st, order)
		}
		w.report = reporter(c, FuncName(f))
		nm := map[ssa.Value]string{}
		for i, q := range f.Params {
			nm[q] = q.Name()
			if i == 0 && f.Signature.Recv() != nil {
				nm[q] = "recv"
			}
		}
		exits := w.run(w.root(f, nm, nil), emptyState())
		if locks == 0 {
			continue
		}
		c.fns[FuncName(f)] = true
		c.ob(FuncName(f), "locks balanced on every path")
		for _, s := range exits {
			for _, h := range s.locks {
				c.bad("held-at-return/"+FuncName(f), f.Pos(), "%s returns on some path with %s still held", FuncName(f), clean(h.path))
			}
		}
	}
	cycles(c, order)
}

// lockClass names the kind of lock at an address: the field it is, or the variable.
func lockClass(v ssa.Value, w *lockWalk, x *lctx) string {
	x2, u := w.resolve(x, v)
	switch u := u.(type) {
	case *ssa.FieldAddr:
		k, _ := fieldClass(u.X.Type(), u.Field)
		return strings.TrimPrefix(k, "*")
	case *ssa.IndexAddr:
		return w.path(x2, u.X) + "[]"
	}
	return clean(w.path(x, v))
}

func lockOrder(c *Check, w *lockWalk, x *lctx, ci ssa.CallInstruction, st *lstate, order map[string]map[string]ssa.Instruction) {
	cm := ci.Common()
	add := func(to string) {
		for _, h := range st.locks {
			from := w.classOf(h)
			if order[from] == nil {
				order[from] = map[string]ssa.Instruction{}
			}
			if order[from][to] == nil {
				order[from][to] = ci
				c.ob("lock order", from+" before "+to)
			}
		}
	}
	op, recv := lockOp(cm)
	if op == "Lock" || op == "RLock" {
		k := lockClass(recv, w, x)
		add(k)
		if w.lclass == nil {
			w.lclass = map[string]string{}
		}
		w.lclass[w.path(x, recv)] = k
		return
	}
	if op != "" || len(st.locks) == 0 {
		return
	}
	if !w.opaqueCall(x, ci) {
		return
	}
	for k := range c.P.acquires(cm) {
		add(k)
	}
}

func (w *lockWalk) classOf(h held) string {
	if k := w.lclass[h.path]; k != "" {
		return k
	}
	return clean(h.path)
}

// acquires is the classes of locks a call may take.
func (p *Prog) acquires(cm *ssa.CallCommon) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	w := newLockWalk(p)
	var fn func(f *ssa.Function)
	call := func(cm *ssa.CallCommon, x *lctx) {
		if op, r := lockOp(cm); op == "Lock" || op == "RLock" {
			out[lockClass(r, w, x)] = true
			return
		}
		if cm.IsInvoke() {
			for _, g := range p.Impls(cm.Value.Type(), cm.Method) {
				fn(g)
			}
			return
		}
		if g := cm.StaticCallee(); g != nil {
			fn(g)
		}
		for _, a := range cm.Args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				fn(mc.Fn.(*ssa.Function))
			}
		}
	}
	fn = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 || (f.Synthetic == "" && !fnInRepo(f)) {
			return
		}
		seen[f] = true
		x := w.root(f, nil, nil)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); !isGo {
						call(ci.Common(), x)
					}
				}
			}
		}
	}
	call(cm, w.root(nil, nil, nil))
	return out
}

func cycles(c *Check, order map[string]map[string]ssa.Instruction) {
	var froms []string
	for f := range order {
		froms = append(froms, f)
	}
	sort.Strings(froms)
	for _, f := range froms {
		// can f be reached from f?
		seen := map[string]bool{}
		var path []string
		var dfs func(x string) bool
		dfs = func(x string) bool {
			for t := range order[x] {
				if t == f {
					path = append(path, x)
					return true
				}
				if !seen[t] {
					seen[t] = true
					if dfs(t) {
						path = append(path, x)
						return true
					}
				}
			}
			return false
		}
		if dfs(f) {
			in := order[path[0]][f]
			c.bad("order/"+f, instrPos(in), "deadlock: %s is taken while %s is held, and %s is taken while %s is held", f, path[0], path[0], f)
			return
		}
	}
}

func checkWorkers(c *Check, pr *program) {
	w := pr.w
	order := map[string]map[string]ssa.Instruction{}
	mname := FuncName(pr.main)
	c.fns[mname] = true
	// the workers
	waits := map[string]bool{}
	w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if op, r := lockOp(ci.Common()); op == "wg.Wait" {
				waits[w.path(x, r)] = true
			}
		}
	}
	w.run(pr.mctx, emptyState())
	var sends, recvs = map[string]bool{}, map[string]bool{}
	feeds := map[string]*worker{} // channel -> the goroutine that only sends on it
	for _, wk := range pr.workers {
		if wk.root == nil {
			continue
		}
		name := FuncName(wk.fn)
		c.fns[name] = true
		in, out := map[string]bool{}, map[string]bool{}
		w.visit = func(x *lctx, i ssa.Instruction, st *lstate) {
			switch i := i.(type) {
			case *ssa.Send:
				out[w.path(x, i.Chan)] = true
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					in[w.path(x, i.X)] = true
				}
			}
		}
		w.run(wk.root, wk.start())
		both := len(in) > 0 && len(out) > 0
		if len(in) == 0 {
			for k := range out {
				feeds[k] = wk
			}
		}
		okOf := map[ssa.Value]bool{}
		w.report = reporter(c, name)
		w.branch = func(x *lctx, cond ssa.Value, taken bool, st *lstate) bool {
			_, v := w.resolve(x, cond)
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
				_, v = w.resolve(x, u.X)
				taken = !taken
			}
			if okOf[v] && !taken {
				st.count["pending"] = 0
			}
			return true
		}
		mr := c.P.ModRef()
		w.visit = func(x *lctx, i ssa.Instruction, st *lstate) {
			if ci, ok := i.(ssa.CallInstruction); ok {
				lockOrder(c, w, x, ci, st, order)
			}
			if !both {
				return
			}
			switch u := i.(type) {
			case *ssa.UnOp:
				if u.Op == token.ARROW {
					if st.count["pending"] != 0 {
						c.bad("unreported/"+name, instrPos(i), "%s takes the next item on a path where it has not reported the last one as done: the program waits for ever", name)
					}
					st.count["pending"] = 1
					if u.CommaOk {
						for _, r := range *u.Referrers() {
							if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
								okOf[e] = true
							}
						}
					}
					c.ob(name, "item taken only after the last was reported")
					return
				}
			case *ssa.Send:
				if st.count["pending"] != 1 {
					c.bad("overreported/"+name, instrPos(i), "%s reports an item as done twice, or reports one it never took", name)
				}
				st.count["pending"] = 0
				c.ob(name, "one report for each item")
				return
			}
			if st.count["pending"] == 0 {
				for _, e := range mr.effectOf(x.fn, i) {
					for l := range pr.lift(mr, x, e.l) {
						if pr.shared(wk, l) {
							c.bad("late/"+name, instrPos(i), "%s writes %s after it has reported the item as done", name, pr.locName(l))
						}
					}
				}
			}
		}
		exits := w.run(wk.root, wk.start())
		w.branch = nil
		w.report = nil
		for _, s := range exits {
			for _, h := range s.locks {
				c.bad("held-at-return/"+name, wk.fn.Pos(), "%s ends on some path with %s still held", name, clean(h.path))
			}
			if both && s.count["pending"] != 0 {
				c.bad("unreported/"+name, wk.fn.Pos(), "%s ends on some path without reporting the item it took", name)
			}
			for k := range waits {
				n := s.count["done:"+k]
				c.ob(name, "signals "+clean(k)+" once on each way out")
				if n != 1 {
					c.bad("done/"+name, wk.fn.Pos(), "%s signals %s %d times on some way out, where once is needed", name, clean(k), n)
				}
			}
		}
		c.ob(name, "locks balanced on every path")
		if both {
			for k := range out {
				sends[k] = true
			}
			for k := range in {
				recvs[k] = true
			}
		}
		if len(waits) == 0 && !both && feeds == nil {
			c.bad("unawaited/"+name, wk.in.Pos(), "nothing waits for the goroutine started here")
		}
	}
	// the wait group is told how many workers there are
	for k := range waits {
		checkAdd(c, pr, k)
	}
	// main itself: its own locks, and what it does between the start of the workers and their end
	w.report = reporter(c, mname)
	joinLoop := map[*ssa.BasicBlock]bool{}
	for k := range sends {
		checkReceives(c, pr, k, recvs, feeds, joinLoop)
	}
	mr := c.P.ModRef()
	written := map[loc]bool{}
	for _, wk := range pr.workers {
		if wk.root == nil {
			continue
		}
		for l := range pr.writes(mr, nil, wk) {
			written[l] = true
		}
	}
	w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			lockOrder(c, w, x, ci, st, order)
		}
		if g, ok := in.(*ssa.Go); ok {
			for _, wk := range pr.workers {
				if wk.in == g && feeds[firstKey(feeds, wk)] != wk {
					st.count["spawned"] = 1
				}
			}
			return
		}
		b := in.Block()
		if st.count["spawned"] == 1 && x == pr.mctx {
			if h, _ := innermost(b); h == nil || !joinLoop[h] {
				for jh := range joinLoop {
					if jh.Dominates(b) && !naturalLoop(jh)[b] {
						st.count["spawned"] = 0
					}
				}
			}
		}
		if st.count["spawned"] != 1 {
			return
		}
		switch in.(type) {
		case *ssa.Return:
			if x == pr.mctx {
				c.bad("early/"+mname, instrPos(in), "%s returns on a path where the workers it started may still be running", mname)
			}
			return
		}
		// the loop that starts the workers may look at its own counters; nothing else that the workers write
		for l := range mr.reads(x.fn, in) {
			for l2 := range pr.lift(mr, x, l) {
				if written[l2] {
					c.bad("early/"+mname, instrPos(in), "%s reads %s while the workers that write it may still be running", mname, pr.locName(l2))
				}
			}
		}
	}
	for _, s := range w.run(pr.mctx, emptyState()) {
		for _, h := range s.locks {
			c.bad("held-at-return/"+mname, pr.main.Pos(), "%s ends with %s still held", mname, clean(h.path))
		}
	}
	w.visit, w.report, w.branch = nil, nil, nil
	c.ob(mname, "results are read after the workers have ended")
	cycles(c, order)
	if len(waits) == 0 && len(joinLoop) == 0 {
		c.bad("unawaited/"+mname, pr.main.Pos(), "%s starts workers and never waits for them", mname)
	}
}

func firstKey(feeds map[string]*worker, wk *worker) string {
	for k, v := range feeds {
		if v == wk {
			return k
		}
	}
	return ""
}

// checkAdd compares the count a wait group is given with the number of goroutines started.
func checkAdd(c *Check, pr *program, wg string) {
	w := pr.w
	type addSite struct {
		x  *lctx
		in ssa.CallInstruction
	}
	var adds []addSite
	seen := map[ssa.Instruction]bool{}
	w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
		if ci, ok := in.(ssa.CallInstruction); ok && !seen[in] {
			if op, r := lockOp(ci.Common()); op == "wg.Add" && w.path(x, r) == wg {
				seen[in] = true
				adds = append(adds, addSite{x, ci})
			}
		}
	}
	w.run(pr.mctx, emptyState())
	w.visit = nil
	mname := FuncName(pr.main)
	for _, wk := range pr.workers {
		h, set := innermost(wk.in.Block())
		c.ob(mname, clean(wg)+" is told the number of workers")
		good := false
		for _, a := range adds {
			n := a.in.Common().Args[1]
			if h != nil && set[a.in.Block()] && a.x == wk.c {
				if k, ok := n.(*ssa.Const); ok && k.Int64() == 1 && (a.in.Block().Dominates(wk.in.Block())) {
					good = true
				}
				continue
			}
			if h == nil {
				if k, ok := n.(*ssa.Const); ok && k.Int64() == 1 {
					good = true
				}
				continue
			}
			p, off, ok := w.trip(wk.c, h)
			if ok && off == 0 && p == w.path(a.x, n) {
				good = true
			}
		}
		if !good || len(adds) != 1 {
			c.bad("add/"+mname, wk.in.Pos(), "%s is not told the number of workers started here (one Add of exactly that number is needed)", clean(wg))
		}
		if h != nil {
			checkOnePerTurn(c, pr, wk, h, set)
		}
	}
}

// checkOnePerTurn: every turn of the starting loop starts (or runs) the worker once.
func checkOnePerTurn(c *Check, pr *program, wk *worker, h *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) {
	w := pr.w
	mname := FuncName(pr.main)
	w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
		if x != wk.c || !set[in.Block()] {
			return
		}
		b := in.Block()
		if b == h && in == firstReal(b) {
			st.count["turn"] = 0
		}
		switch in.(type) {
		case *ssa.Go:
			st.count["turn"]++
		case *ssa.Jump:
			if b.Succs[0] == h && h.Dominates(b) {
				c.ob(mname, "one worker for each turn of the loop that starts them")
				for f, v := range wk.facts {
					if sv, ok := st.facts[f]; ok && sv != v {
						st.count["turn"] = 0
						return // this turn starts no goroutines at all
					}
				}
				if st.count["turn"] != 1 {
					c.bad("turn/"+mname, wk.in.Pos(), "a turn of the loop that starts the workers starts %d of them: the wait group is told of one for each turn", st.count["turn"])
				}
				st.count["turn"] = 0
			}
		}
	}
	w.run(pr.mctx, emptyState())
	w.visit = nil
}

func firstReal(b *ssa.BasicBlock) ssa.Instruction {
	return b.Instrs[0]
}

// checkReceives: main receives one completion for each item fed to the workers.
func checkReceives(c *Check, pr *program, ch string, recvs map[string]bool, feeds map[string]*worker, join map[*ssa.BasicBlock]bool) {
	w := pr.w
	mname := FuncName(pr.main)
	var in *ssa.UnOp
	var cx *lctx
	w.visit = func(x *lctx, i ssa.Instruction, st *lstate) {
		if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW && w.path(x, u.X) == ch {
			in, cx = u, x
		}
	}
	w.run(pr.mctx, emptyState())
	w.visit = nil
	if in == nil {
		c.bad("unawaited/"+mname, pr.main.Pos(), "%s never receives the completions its workers send", mname)
		return
	}
	c.ob(mname, "as many completions received as items fed")
	h, _ := innermost(in.Block())
	if h == nil {
		c.bad("receives/"+mname, instrPos(in), "%s receives one completion, whatever the number of items", mname)
		return
	}
	p, off, ok := w.trip(cx, h)
	var feeder *worker
	for k := range recvs {
		if feeds[k] != nil {
			feeder = feeds[k]
		}
	}
	if feeder == nil {
		c.bad("receives/"+mname, instrPos(in), "undecided: what feeds the workers cannot be told")
		return
	}
	var send *ssa.Send
	var sx *lctx
	w.visit = func(x *lctx, i ssa.Instruction, st *lstate) {
		if s, ok := i.(*ssa.Send); ok {
			send, sx = s, x
		}
	}
	w.run(feeder.root, feeder.start())
	w.visit = nil
	h2, _ := innermost(send.Block())
	if h2 == nil {
		c.bad("receives/"+mname, instrPos(send), "undecided: the items are not fed in a loop")
		return
	}
	p2, off2, ok2 := w.trip(sx, h2)
	if !ok || !ok2 || p != p2 || off != off2 {
		c.bad("receives/"+mname, instrPos(in), "the number of completions %s waits for cannot be shown to be the number of items it feeds", mname)
		return
	}
	for _, x := range []struct {
		h  *ssa.BasicBlock
		in ssa.Instruction
	}{{h, in}, {h2, send}} {
		for _, pb := range x.h.Preds {
			if x.h.Dominates(pb) && !x.in.Block().Dominates(pb) {
				c.bad("receives/"+mname, instrPos(x.in), "a turn of this loop may skip the communication")
			}
		}
	}
	join[h] = true
}

// ---- shared memory -------------------------------------------------------------------

// lift names a location of the function of x in terms of the objects of main.
func (pr *program) lift(mr *modref, x *lctx, l loc) locset {
	out := locset{}
	for y := range pr.liftVia(mr, x, l, false, nil) {
		out[y] = true
	}
	return out
}

// liftVia also tells whether via held for the location at some level on the way.
func (pr *program) liftVia(mr *modref, x *lctx, l loc, was bool, via func(loc) bool) map[loc]bool {
	out := map[loc]bool{}
	put := func(l loc, g bool) {
		if old, ok := out[l]; ok {
			g = g && old
		}
		out[l] = g
	}
	if via != nil && via(l) {
		was = true
	}
	v, ok := l.root.(ssa.Value)
	if !ok {
		put(l, was)
		return out
	}
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
	default:
		put(l, was)
		return out
	}
	lv, ok := x.env[v]
	if !ok {
		put(l, was)
		return out
	}
	s := mr.summary(lv.c.fn)
	if s == nil {
		put(l, was)
		return out
	}
	for y := range s.follow(mr.of(s, lv.v), l.path) {
		for z, g := range pr.liftVia(mr, lv.c, y, was, via) {
			put(z, g)
		}
	}
	return out
}

// shared: the location can be reached by more than one goroutine.
func (pr *program) shared(wk *worker, l loc) bool {
	switch r := l.root.(type) {
	case *obj:
		var at ssa.Instruction = r.at
		if at == nil {
			at, _ = r.site.(ssa.Instruction)
		}
		if at == nil {
			return false
		}
		return pr.sharedAt(wk, at)
	case *ssa.Global:
		return true
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	}
	return false
}

func (pr *program) sharedAt(wk *worker, at ssa.Instruction) bool {
	f := at.Parent()
	for x := wk.c; x != nil; x = x.parent {
		if x.fn != f {
			continue
		}
		if x == wk.c {
			if h, set := innermost(wk.in.Block()); h != nil && set[at.Block()] {
				return false // made in the turn that starts this worker
			}
		}
		return true
	}
	return false
}

func (pr *program) locName(l loc) string {
	n := "?"
	switch r := l.root.(type) {
	case *obj:
		n = r.site.Name()
		if a, ok := r.site.(*ssa.Alloc); ok && a.Comment != "" {
			n = a.Comment
		} else if ms, ok := r.site.(ssa.Instruction); ok {
			n = "memory made at " + (&Check{P: pr.w.p}).at(ms)
		}
	default:
		n = rootName(r)
	}
	p := l.path
	return n + strings.TrimPrefix(p, "*")
}

type sharedWrite struct {
	site    ssa.Instruction
	in      ssa.Instruction
	locks   []held
	guarded bool // data an accumulator guards, written by the accumulator's methods
}

// writes collects the shared locations the worker writes, with the locks held at each write.
func (pr *program) writes(mr *modref, g *guardInfo, wk *worker) map[loc][]sharedWrite {
	out := map[loc][]sharedWrite{}
	seen := map[string]bool{}
	w := pr.w
	old := w.visit
	w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
		switch in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Call, *ssa.Defer:
		default:
			return
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			if _, b := c.Common().Value.(*ssa.Builtin); !b && !w.opaqueCall(x, c) {
				return
			}
		}
		for _, e := range mr.effectOf(x.fn, in) {
			via := func(x loc) bool { return g != nil && g.sites[e.site] && g.guarded(w.p, x) }
			for l, gd := range pr.liftVia(mr, x, e.l, via(e.l), via) {
				if !pr.shared(wk, l) {
					continue
				}
				k := fmt.Sprintf("%d/%p/%p/%v/%s", x.id, in, e.site, l, st.key())
				if seen[k] {
					continue
				}
				seen[k] = true
				out[l] = append(out[l], sharedWrite{e.site, in, append([]held{}, st.locks...), gd})
			}
		}
	}
	w.run(wk.root, wk.start())
	w.visit = old
	return out
}

func ruleC22(c *Check) {
	mr := c.P.ModRef()
	g := c.P.guards()
	prs := c.programs()
	if len(prs) < 2 {
		c.badAt("anchor/workers", "-", "growforest and leafcount start workers: %d programs do", len(prs))
	}
	for _, pr := range prs {
		for _, wk := range pr.workers {
			if wk.root == nil {
				continue
			}
			name := FuncName(wk.fn)
			c.fns[name] = true
			ws := pr.writes(mr, g, wk)
			var ls []loc
			for l := range ws {
				ls = append(ls, l)
			}
			sort.Slice(ls, func(i, j int) bool { return pr.locName(ls[i]) < pr.locName(ls[j]) })
			need := map[loc]string{}
			for _, l := range ls {
				var rest []sharedWrite
				for _, x := range ws[l] {
					if x.guarded {
						c.ob(name+" writes "+pr.locName(l), "guarded by its accumulator")
						continue
					}
					rest = append(rest, x)
				}
				if len(rest) == 0 {
					continue
				}
				// one lock that all writes hold
				votes := map[string]int{}
				for _, x := range rest {
					for _, h := range x.locks {
						if !h.read && pr.lockShared(wk, h.path) {
							votes[h.path]++
						}
					}
				}
				best := ""
				for k, n := range votes {
					if best == "" || n > votes[best] || (n == votes[best] && k < best) {
						best = k
					}
				}
				need[l] = best
				for _, x := range rest {
					held := false
					for _, h := range x.locks {
						held = held || (best != "" && h.path == best && !h.read)
					}
					c.ob(name+" writes "+pr.locName(l), "under "+clean(best))
					if !held {
						how := "no lock is held at any of its writes"
						if best != "" {
							how = clean(best) + " guards its other writes"
						}
						c.bad("race/"+name+"/"+erase(pr.locName(l)), instrPos(x.in), "%s, shared by the workers, is written here (at %s) without a lock that excludes the others: %s", pr.locName(l), c.at(x.site), how)
					}
				}
			}
			// captured variables the workers write are read under the same lock
			pr.w.visit = func(x *lctx, in ssa.Instruction, st *lstate) {
				for l := range mr.reads(x.fn, in) {
					for l2 := range pr.lift(mr, x, l) {
						lk, ok := need[l2]
						if !ok || lk == "" {
							continue
						}
						c.ob(name+" reads "+pr.locName(l2), "under "+clean(lk))
						if st.holds(lk) == nil {
							c.bad("race-read/"+name+"/"+erase(pr.locName(l2)), instrPos(in), "%s, which other workers write under %s, is read here without it", pr.locName(l2), clean(lk))
						}
					}
				}
			}
			pr.w.run(wk.root, wk.start())
			pr.w.visit = nil
		}
	}
}

// lockShared: the lock itself is one the workers share.
func (pr *program) lockShared(wk *worker, path string) bool {
	lv, ok := pr.w.lbase[path]
	if !ok {
		return false
	}
	if g, ok := lv.v.(*ssa.Global); ok && g != nil {
		return true
	}
	in, ok := lv.v.(ssa.Instruction)
	if !ok {
		return true
	}
	for x := wk.c; x != nil; x = x.parent {
		if x == lv.c {
			return pr.sharedAt(wk, in)
		}
	}
	return false
}

// guarded: the location is, somewhere along its path, guarded data of an accumulator.
func (g *guardInfo) guarded(p *Prog, l loc) bool {
	var cur []types.Type
	switch r := l.root.(type) {
	case *obj:
		cur = []types.Type{r.site.Type()}
		switch r.site.(type) {
		case *ssa.Alloc:
			cur = []types.Type{r.site.Type().Underlying().(*types.Pointer).Elem()}
		}
	case ssa.Value:
		cur = []types.Type{r.Type()}
		if pt, ok := r.Type().Underlying().(*types.Pointer); ok {
			cur = []types.Type{pt.Elem()}
		}
	}
	ss := segs(l.path)
	for i := 0; i <= len(ss); i++ {
		rest := strings.Join(ss[i:], "")
		for _, t := range cur {
			if n, ok := t.(*types.Named); ok {
				if g.classes[n.Obj().Name()][n.Obj().Name()+rest] {
					return true
				}
			}
		}
		if i == len(ss) {
			break
		}
		var next []types.Type
		for _, t := range cur {
			switch sg := ss[i]; {
			case sg == "*":
				switch u := t.Underlying().(type) {
				case *types.Pointer:
					next = append(next, u.Elem())
				case *types.Interface:
					for _, n := range p.implementers(u) {
						next = append(next, n)
					}
				default:
					next = append(next, t) // a slice or map: what it refers to
				}
			case sg == "[]":
				next = append(next, elemType(t))
			case sg[0] == '.':
				if st, ok := t.Underlying().(*types.Struct); ok {
					for j := 0; j < st.NumFields(); j++ {
						if "."+st.Field(j).Name() == sg {
							next = append(next, st.Field(j).Type())
						}
					}
				}
			}
		}
		cur = next
	}
	return false
}

func (p *Prog) implementers(it *types.Interface) (out []types.Type) {
	pk := p.Pkgs[RepoPath]
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), it) || types.Implements(tn.Type(), it) {
			out = append(out, tn.Type())
		}
	}
	return
}
