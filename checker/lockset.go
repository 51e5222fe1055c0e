package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lock analysis walks a function with the calls it inlines and visits every instruction with the locks held
// there. Locks, and the memory the guarded accesses touch, are named by access paths ("recv.Box*[casei]*.Mutex").
// States that hold the same locks are merged; the branch conditions known to hold are kept with each state, so
// that "if parallel { lock }" and a later "if parallel { unlock }" agree.

type lctx struct {
	id     int
	fn     *ssa.Function
	parent *lctx
	call   ssa.CallInstruction
	env    map[ssa.Value]lval
	depth  int
	name   map[ssa.Value]string // overrides for the roots' parameters
}

type lval struct {
	c *lctx
	v ssa.Value
}

type held struct {
	path string
	acq  string // where it was taken
	read bool   // a read lock
}

type deferred struct {
	c  *lctx
	in *ssa.Defer
}

type lstate struct {
	locks []held
	count map[string]int
	defs  []deferred
	facts map[string]bool
}

func (s *lstate) clone() *lstate {
	n := &lstate{count: map[string]int{}, facts: map[string]bool{}}
	n.locks = append(n.locks, s.locks...)
	n.defs = append(n.defs, s.defs...)
	for k, v := range s.count {
		n.count[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

func (s *lstate) key() string {
	var b strings.Builder
	for _, h := range s.locks {
		fmt.Fprintf(&b, "%s@%s%v;", h.path, h.acq, h.read)
	}
	var ks []string
	for k, v := range s.count {
		if v != 0 {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	for _, d := range s.defs {
		fmt.Fprintf(&b, "|%d:%p", d.c.id, d.in)
	}
	return b.String()
}

func (s *lstate) holds(path string) *held {
	for i := range s.locks {
		if s.locks[i].path == path {
			return &s.locks[i]
		}
	}
	return nil
}

type lockWalk struct {
	p       *Prog
	inline  func(f *ssa.Function) bool
	visit   func(c *lctx, in ssa.Instruction, st *lstate)
	report  func(kind string, in ssa.Instruction, format string, a ...interface{})
	branch  func(c *lctx, cond ssa.Value, taken bool, st *lstate) bool
	ctxs    map[string]*lctx
	calls   map[ssa.Instruction]map[*lctx]*lctx
	visits  int
	noFacts func(path string) bool
	lclass  map[string]string // lock path -> what kind of lock it is
	lbase   map[string]lval   // lock path -> the variable or object it is part of
}

func newLockWalk(p *Prog) *lockWalk {
	return &lockWalk{p: p, ctxs: map[string]*lctx{}, calls: map[ssa.Instruction]map[*lctx]*lctx{}}
}

func (w *lockWalk) root(f *ssa.Function, names map[ssa.Value]string, env map[ssa.Value]lval) *lctx {
	c := &lctx{id: len(w.ctxs), fn: f, env: env, name: names}
	w.ctxs[fmt.Sprintf("root%d", c.id)] = c
	return c
}

func (w *lockWalk) child(c *lctx, in ssa.CallInstruction, f *ssa.Function, env map[ssa.Value]lval) *lctx {
	k := fmt.Sprintf("%d/%p/%p", c.id, in, f)
	if x := w.ctxs[k]; x != nil {
		return x
	}
	x := &lctx{id: len(w.ctxs), fn: f, parent: c, call: in, env: env, depth: c.depth + 1}
	w.ctxs[k] = x
	if w.calls[in] == nil {
		w.calls[in] = map[*lctx]*lctx{}
	}
	w.calls[in][c] = x
	return x
}

// onlyStore is the single value ever stored in a local variable.
func onlyStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	var visit func(x ssa.Value) bool
	visit = func(x ssa.Value) bool {
		if x.Referrers() == nil {
			return false
		}
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != x {
					return false
				}
				if v != nil {
					return false
				}
				if r.Parent() != a.Parent() {
					return false
				}
				v = r.Val
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				g := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == x && !visit(g.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(a) {
		return nil
	}
	return v
}

// resolve follows parameters, captured variables and variables set once to the value they stand for.
func (w *lockWalk) resolve(c *lctx, v ssa.Value) (*lctx, ssa.Value) {
	for n := 0; n < 50; n++ {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			if lv, ok := c.env[v]; ok {
				c, v = lv.c, lv.v
				continue
			}
			return c, v
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.TypeAssert:
			if !x.CommaOk {
				v = x.X
				continue
			}
			return c, v
		case *ssa.UnOp:
			if x.Op == token.MUL {
				c2, a := w.resolve(c, x.X)
				if al, ok := a.(*ssa.Alloc); ok {
					if s := onlyStore(al); s != nil {
						c, v = c2, s
						continue
					}
				}
			}
			return c, v
		case *ssa.Phi:
			// one value on every edge
			var same ssa.Value
			for _, e := range x.Edges {
				if e == v {
					continue
				}
				if same != nil && same != e {
					return c, v
				}
				same = e
			}
			if same == nil {
				return c, v
			}
			v = same
			continue
		case *ssa.Call:
			// the result of an inlined call with one return
			if f := x.Call.StaticCallee(); f != nil && w.calls[x][c] != nil {
				var ret *ssa.Return
				n := 0
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if r, ok := in.(*ssa.Return); ok {
							ret = r
							n++
						}
					}
				}
				if n == 1 && len(ret.Results) == 1 {
					c, v = w.calls[x][c], ret.Results[0]
					continue
				}
			}
			return c, v
		default:
			return c, v
		}
	}
	return c, v
}

func constName(k *ssa.Const) string {
	if k.Value == nil {
		return "nil"
	}
	if k.Value.Kind() == constant.String {
		return k.Value.ExactString()
	}
	return k.Value.ExactString()
}

// path names a value; "#" marks names that may denote something else on the next turn of a loop.
func (w *lockWalk) path(c *lctx, v ssa.Value) string {
	c, v = w.resolve(c, v)
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		if n, ok := c.name[v]; ok {
			return n
		}
		return fmt.Sprintf("%s@%d", v.Name(), c.id)
	case *ssa.Global:
		return x.String()
	case *ssa.Const:
		return constName(x)
	case *ssa.Function:
		return x.String()
	case *ssa.Alloc:
		n := x.Comment
		if n == "" {
			n = "local"
		}
		return fmt.Sprintf("%s@%d.%s", n, c.id, x.Name())
	case *ssa.FieldAddr:
		st, _ := structOf(x.X.Type())
		return w.path(c, x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Field:
		st, _ := structOf(x.X.Type())
		return w.path(c, x.X) + "." + st.Field(x.Field).Name()
	case *ssa.IndexAddr:
		return w.path(c, x.X) + "[" + w.path(c, x.Index) + "]"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return w.path(c, x.X) + "*"
		}
		return "(" + x.Op.String() + w.path(c, x.X) + ")"
	case *ssa.BinOp:
		return "(" + w.path(c, x.X) + x.Op.String() + w.path(c, x.Y) + ")"
	case *ssa.Lookup:
		if !x.CommaOk {
			return w.path(c, x.X) + "[" + w.path(c, x.Index) + "]*"
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return w.path(c, l.X) + "[" + w.path(c, l.Index) + "]*"
		}
	case *ssa.Convert:
		return w.path(c, x.X)
	case *ssa.Slice:
		if x.Low == nil {
			return w.path(c, x.X)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + w.path(c, x.Call.Args[0]) + ")"
		}
	}
	return fmt.Sprintf("#%d.%s", c.id, v.Name())
}

// closure resolves a called value to the function it is, and the context its captured variables live in.
func (w *lockWalk) closure(c *lctx, v ssa.Value) (*ssa.Function, *lctx, *ssa.MakeClosure) {
	c2, x := w.resolve(c, v)
	switch x := x.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), c2, x
	case *ssa.Function:
		return x, c2, nil
	}
	return nil, nil, nil
}

func lockOp(cm *ssa.CallCommon) (op string, recv ssa.Value) {
	if cm.IsInvoke() {
		if t := typeName(cm.Value.Type()); t == "sync.Locker" {
			return cm.Method.Name(), cm.Value
		}
		return "", nil
	}
	f := cm.StaticCallee()
	if f == nil || len(cm.Args) == 0 {
		return "", nil
	}
	n := fnName(f)
	switch {
	case strings.HasPrefix(n, "(*sync.Mutex)."), strings.HasPrefix(n, "(*sync.RWMutex)."):
		return f.Name(), cm.Args[0]
	case strings.HasPrefix(n, "(*sync.WaitGroup)."):
		return "wg." + f.Name(), cm.Args[0]
	}
	return "", nil
}

// run walks f from the given state and returns the states it ends in.
func (w *lockWalk) run(c *lctx, st *lstate) []*lstate {
	type bstate struct {
		b  *ssa.BasicBlock
		st *lstate
	}
	seen := map[*ssa.BasicBlock]map[string]*lstate{}
	var work []bstate
	push := func(from, b *ssa.BasicBlock, s *lstate) {
		if from != nil && b.Dominates(from) && w.report != nil {
			for _, h := range s.locks {
				if strings.Contains(h.path, "#") && !strings.Contains(h.acq, "entry") {
					w.report("held-over", from.Instrs[len(from.Instrs)-1], "%s is still held when the loop takes its next turn", h.path)
				}
			}
		}
		if seen[b] == nil {
			seen[b] = map[string]*lstate{}
		}
		k := s.key()
		old := seen[b][k]
		if old == nil {
			if len(seen[b]) > 200 {
				panic("too many lock states in " + FuncName(c.fn))
			}
			n := s.clone()
			seen[b][k] = n
			work = append(work, bstate{b, n})
			return
		}
		ch := false
		for f, v := range old.facts {
			if nv, ok := s.facts[f]; !ok || nv != v {
				delete(old.facts, f)
				ch = true
			}
		}
		if ch {
			work = append(work, bstate{b, old})
		}
	}
	push(nil, c.fn.Blocks[0], st)
	exits := map[string]*lstate{}
	for len(work) > 0 {
		cur := work[len(work)-1]
		work = work[:len(work)-1]
		w.visits++
		if w.visits > 400000 {
			panic("the lock analysis does not converge in " + FuncName(c.fn))
		}
		states := []*lstate{cur.st.clone()}
		for _, in := range cur.b.Instrs {
			var next []*lstate
			for _, s := range states {
				next = append(next, w.step(c, in, s)...)
			}
			states = dedupe(next)
		}
		last := cur.b.Instrs[len(cur.b.Instrs)-1]
		for _, s := range states {
			switch t := last.(type) {
			case *ssa.Jump:
				push(cur.b, cur.b.Succs[0], s)
			case *ssa.If:
				for i, taken := range []bool{true, false} {
					n := s.clone()
					if !w.assume(c, t.Cond, taken, n) {
						continue
					}
					push(cur.b, cur.b.Succs[i], n)
				}
			case *ssa.Return:
				if w.visit != nil {
					w.visit(c, last, s)
				}
				if o := exits[s.key()]; o != nil {
					for f, v := range o.facts {
						if nv, ok := s.facts[f]; !ok || nv != v {
							delete(o.facts, f)
						}
					}
				} else {
					exits[s.key()] = s
				}
			}
		}
	}
	var out []*lstate
	var ks []string
	for k := range exits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, exits[k])
	}
	return out
}

func dedupe(in []*lstate) []*lstate {
	m := map[string]*lstate{}
	var out []*lstate
	for _, s := range in {
		k := s.key()
		if o := m[k]; o != nil {
			for f, v := range o.facts {
				if nv, ok := s.facts[f]; !ok || nv != v {
					delete(o.facts, f)
				}
			}
			continue
		}
		m[k] = s
		out = append(out, s)
	}
	return out
}

var flipOp = map[token.Token]token.Token{token.GTR: token.LSS, token.LSS: token.GTR, token.GEQ: token.LEQ, token.LEQ: token.GEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

// canonCond brings a condition to one spelling, with the truth value it stands for.
func (w *lockWalk) canonCond(c *lctx, v ssa.Value, taken bool) (string, bool) {
	c, v = w.resolve(c, v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.canonCond(c, x.X, !taken)
		}
	case *ssa.BinOp:
		a, b, op := w.path(c, x.X), w.path(c, x.Y), x.Op
		if _, ok := flipOp[op]; !ok {
			break
		}
		_, ck := x.X.(*ssa.Const)
		if ck || (a > b && !isConstV(x.Y)) {
			a, b, op = b, a, flipOp[op]
			x2 := x.X
			_ = x2
		}
		switch op {
		case token.NEQ:
			op, taken = token.EQL, !taken
		case token.LEQ:
			op, taken = token.GTR, !taken
		case token.GEQ: // a >= k is a > k-1 for integers
			op, taken = token.LSS, !taken
		}
		var k int64
		if n, _ := fmt.Sscanf(b, "%d", &k); n == 1 && op == token.LSS && isIntT(x.X.Type()) {
			// a < k is not a > k-1
			op, taken = token.GTR, !taken
			b = fmt.Sprint(k - 1)
		}
		return "(" + a + op.String() + b + ")", taken
	}
	return w.path(c, v), taken
}

func isConstV(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// assume records a branch taken; false when the state rules it out.
func (w *lockWalk) assume(c *lctx, cond ssa.Value, taken bool, s *lstate) bool {
	if w.branch != nil && !w.branch(c, cond, taken, s) {
		return false
	}
	k, val := w.canonCond(c, cond, taken)
	if k == "true" || k == "false" {
		return (k == "true") == val
	}
	if strings.Contains(k, "#") || (w.noFacts != nil && w.noFacts(k)) {
		return true
	}
	if old, ok := s.facts[k]; ok {
		return old == val
	}
	s.facts[k] = val
	return true
}

func (w *lockWalk) step(c *lctx, in ssa.Instruction, s *lstate) []*lstate {
	if _, ok := in.(*ssa.Return); !ok && w.visit != nil {
		w.visit(c, in, s)
	}
	switch x := in.(type) {
	case *ssa.Store:
		a := w.path(c, x.Addr)
		for f := range s.facts {
			if strings.Contains(f, a) {
				delete(s.facts, f)
			}
		}
	case *ssa.Defer:
		if w.touchesLocks(c, &x.Call) {
			if len(s.defs) > 6 {
				panic("deferred lock operations pile up in " + FuncName(c.fn))
			}
			s.defs = append(s.defs, deferred{c, x})
		}
	case *ssa.RunDefers:
		var mine, rest []deferred
		for _, d := range s.defs {
			if d.c == c {
				mine = append(mine, d)
			} else {
				rest = append(rest, d)
			}
		}
		s.defs = rest
		states := []*lstate{s}
		for i := len(mine) - 1; i >= 0; i-- {
			var next []*lstate
			for _, t := range states {
				next = append(next, w.call(c, mine[i].in, t)...)
			}
			states = dedupe(next)
		}
		return states
	case *ssa.Go:
		return []*lstate{s}
	case *ssa.Call:
		return w.call(c, x, s)
	}
	return []*lstate{s}
}

func (w *lockWalk) touchesLocks(c *lctx, cm *ssa.CallCommon) bool {
	if op, _ := lockOp(cm); op != "" {
		return true
	}
	f := cm.StaticCallee()
	if f == nil {
		f, _, _ = w.closure(c, cm.Value)
	}
	if f == nil {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var has func(f *ssa.Function) bool
	has = func(f *ssa.Function) bool {
		if seen[f] || !fnInRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Send); ok {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if op, _ := lockOp(ci.Common()); op != "" {
						return true
					}
					if g := ci.Common().StaticCallee(); g != nil && has(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return has(f)
}

func (w *lockWalk) call(c *lctx, in ssa.CallInstruction, s *lstate) []*lstate {
	cm := in.Common()
	if op, recv := lockOp(cm); op != "" {
		p := w.path(c, recv)
		switch op {
		case "Lock", "RLock":
			if h := s.holds(p); h != nil && w.report != nil && !(op == "RLock" && h.read) {
				w.report("relock", in, "%s is locked while it is already held", clean(p))
			}
			if s.holds(p) != nil {
				break
			}
			w.noteBase(c, recv, p)
			s.locks = append(s.locks, held{p, fmt.Sprintf("%d:%p", c.id, in), op == "RLock"})
		case "TryLock", "TryRLock":
		case "Unlock", "RUnlock":
			ok := false
			for i := len(s.locks) - 1; i >= 0; i-- {
				if s.locks[i].path == p {
					s.locks = append(s.locks[:i:i], s.locks[i+1:]...)
					ok = true
					break
				}
			}
			if !ok && w.report != nil {
				w.report("unheld", in, "%s is unlocked on a path where it is not held", clean(p))
			}
		case "wg.Done":
			if s.count["done:"+p] < 3 {
				s.count["done:"+p]++
			}
		case "wg.Add":
			if k, ok := cm.Args[1].(*ssa.Const); ok && k.Value != nil && k.Int64() == -1 && s.count["done:"+p] < 3 {
				s.count["done:"+p]++
			}
		case "wg.Wait":
			s.count["spawned"] = 0
		}
		return []*lstate{s}
	}
	if cm.IsInvoke() {
		return []*lstate{s}
	}
	var f *ssa.Function
	env := map[ssa.Value]lval{}
	if sc := cm.StaticCallee(); sc != nil && cm.Value == ssa.Value(sc) {
		f = sc
	} else {
		var mc *ssa.MakeClosure
		var cc *lctx
		f, cc, mc = w.closure(c, cm.Value)
		if f != nil && mc != nil {
			for i, b := range mc.Bindings {
				env[f.FreeVars[i]] = lval{cc, b}
			}
		}
	}
	if f == nil || len(f.Blocks) == 0 || c.depth > 8 {
		return []*lstate{s}
	}
	for x := c; x != nil; x = x.parent {
		if x.fn == f {
			return []*lstate{s} // recursion
		}
	}
	if f.Parent() == nil && !w.inline(f) {
		return []*lstate{s}
	}
	for i, p := range f.Params {
		if i < len(cm.Args) {
			env[p] = lval{c, cm.Args[i]}
		}
	}
	return w.run(w.child(c, in, f, env), s)
}

// opaqueCall tells whether the walk treats the call as one step.
func (w *lockWalk) opaqueCall(c *lctx, in ssa.CallInstruction) bool {
	cm := in.Common()
	if op, _ := lockOp(cm); op != "" {
		return false
	}
	if cm.IsInvoke() {
		return true
	}
	f := cm.StaticCallee()
	if f == nil || cm.Value != ssa.Value(f) {
		f, _, _ = w.closure(c, cm.Value)
	}
	if f == nil || len(f.Blocks) == 0 {
		return true
	}
	for x := c; x != nil; x = x.parent {
		if x.fn == f {
			return true
		}
	}
	return f.Parent() == nil && !w.inline(f)
}

// clean drops the internal marks of a path for a report.
func clean(p string) string {
	var b strings.Builder
	skip := false
	for i := 0; i < len(p); i++ {
		switch ch := p[i]; {
		case ch == '@':
			skip = true
		case skip && (ch >= '0' && ch <= '9' || (ch == '.' && i+1 < len(p) && p[i+1] == 't')):
			if ch == '.' {
				i++
			}
		case ch == '*' || ch == '#':
			skip = false
		default:
			skip = false
			b.WriteByte(ch)
		}
	}
	return b.String()
}

func (w *lockWalk) noteBase(c *lctx, v ssa.Value, path string) {
	if w.lbase == nil {
		w.lbase = map[string]lval{}
	}
	for {
		c, v = w.resolve(c, v)
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		}
		break
	}
	w.lbase[path] = lval{c, v}
}
