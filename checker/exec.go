package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file computes, for an entry function, value-numbered path summaries of the acyclic regions
// between cut points (loop headers, and joins when there are too many paths). Repository callees
// are analysed inline, so a helper extracted from a function changes nothing in its summary.
// It is a forward dataflow analysis: states are merged at the cut points until nothing changes.

type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.CallInstruction
	fn     *ssa.Function
	depth  int
	rundef bool // called from a deferred call
}

func (c *Ctx) contains(f *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == f {
			return true
		}
	}
	return false
}

type vkey struct {
	c *Ctx
	v ssa.Value
}

type Cut struct {
	ID      int
	Ctx     *Ctx
	B       *ssa.BasicBlock
	Loop    bool
	Paths   []*Path
	In      *State
	joined  map[vkey]*Term
	demoted map[vkey]int
	wrote   map[string]bool // what the paths from here have changed
	edges   map[*Cut][]*edgeIn
	blocks  map[*ssa.BasicBlock]bool // natural loop (when Loop)
	queued  bool
	visits  int
	forced  map[vkey]*Term
}

type edgeIn struct {
	st   *State
	back bool
}

type Event struct {
	Kind  string // store mapupdate call enter leave go defer send recv load copy panic
	Addr  *Term
	Val   *Term
	Name  string // callee
	Fn    *ssa.Function
	Args  []*Term
	Res   *Term
	In    ssa.Instruction
	Ctx   *Ctx
	Class string
	NG    int // guards established before the event
	Idx   int
	Uniq  string // version that loads after a store may see
}

type Path struct {
	From   *Cut
	To     *Cut
	End    string // cut return panic exit
	Back   bool
	Guards []*Term
	GPos   []token.Pos
	Events []*Event
	Phi    map[*Term]*Term
	Ret    []*Term
	RetIn  ssa.Instruction
	end    *State
}

// Facts returns the conditions known on entry of the region plus those of the path.
func (p *Path) All() []*Term {
	var out []*Term
	out = append(out, p.From.In.facts...)
	return append(out, p.Guards...)
}

type memEnt struct {
	kind    byte // 'w' write, 'h' havoc classes, 'a' havoc address, 'm' map update
	addr    *Term
	key     *Term
	val     *Term
	class   string
	uniq    string
	classes effects
}

type State struct {
	env    map[vkey]*Term
	mem    []memEnt
	base   map[*Term]*Term
	ver    map[string]string
	facts  []*Term
	guards []*Term
	gpos   []token.Pos
	events []*Event
	defers map[*Ctx][]ssa.CallInstruction
	defArg map[ssa.CallInstruction][]*Term
	known  map[int]bool
}

type Options struct {
	Opaque   func(f *ssa.Function) bool // do not analyse inline
	MaxDepth int
	MaxPaths int
	Bind     map[string]*Term // parameters of the entry by name
	Devirt   func(c *ssa.CallCommon, recv *Term) *ssa.Function
	Loads    bool
	GoInline bool
	NoDefer  bool // deferred calls are left out
	FreeVars map[string]*Term
	Mem      map[*Term]*Term // contents of memory on entry
}

type Exec struct {
	P       *Prog
	Root    *ssa.Function
	Opt     Options
	Entry   *Cut
	Cuts    []*Cut
	cuts    map[string]*Cut
	ctxs    map[string]*Ctx
	work    []*Cut
	phiOf   map[*Term]*Cut
	phiFrom map[*Term][]*Term
	// ways of leaving a loop early that are allowed for now
	tolerate func(*Path) bool
	allocIn  map[*Term]*Cut                     // where a variable is made
	reads    map[*Term]map[ssa.Instruction]*Ctx // the instructions that read a value
	copied   map[*Term]*Term
	owner    map[string]*Cut // version and symbol names to the region that made them
	alts     map[*Term][]*Term
	escaped  map[*Term]bool
	shared   map[*Term]bool // variables functions passed on only read
	joins    map[*ssa.Function]bool
	headers  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	err      error
	nsteps   int
	final    bool
	Inlined  map[*ssa.Function]bool
}

type overflow struct{ fn *ssa.Function }
type execErr struct{ msg string }

// Run analyses fn to a fixpoint.
func (p *Prog) Run(fn *ssa.Function, opt Options) (*Exec, error) {
	if opt.MaxDepth == 0 {
		opt.MaxDepth = 8
	}
	if opt.MaxPaths == 0 {
		opt.MaxPaths = 400
	}
	joins := map[*ssa.Function]bool{}
	for try := 0; try < 12; try++ {
		e := &Exec{P: p, Root: fn, Opt: opt, cuts: map[string]*Cut{}, ctxs: map[string]*Ctx{}, owner: map[string]*Cut{},
			alts: map[*Term][]*Term{}, escaped: map[*Term]bool{}, shared: map[*Term]bool{}, joins: joins,
			headers: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, Inlined: map[*ssa.Function]bool{}}
		of := e.fixpoint()
		if of == nil {
			return e, e.err
		}
		if joins[of] {
			return e, fmt.Errorf("too many paths in %s", FuncName(of))
		}
		joins[of] = true
	}
	return nil, fmt.Errorf("too many paths in %s", FuncName(fn))
}

func (e *Exec) fixpoint() (of *ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			if o, ok := r.(overflow); ok {
				of = o.fn
				return
			}
			if x, ok := r.(execErr); ok {
				e.err = fmt.Errorf("%s", x.msg)
				return
			}
			panic(r)
		}
	}()
	root := e.ctx(nil, nil, e.Root)
	st := &State{env: map[vkey]*Term{}, base: map[*Term]*Term{}, ver: map[string]string{}, defers: map[*Ctx][]ssa.CallInstruction{},
		defArg: map[ssa.CallInstruction][]*Term{}, known: map[int]bool{}}
	for _, pr := range e.Root.Params {
		t := e.Opt.Bind[pr.Name()]
		if t == nil {
			t = sym("param", pr.Name(), pr.Type())
		}
		st.env[vkey{root, pr}] = t
	}
	for _, fv := range e.Root.FreeVars {
		t := e.Opt.FreeVars[fv.Name()]
		if t == nil {
			t = mk("alloc", "free:"+fv.Name())
			t.T = fv.Type()
			if _, ok := fv.Type().Underlying().(*types.Pointer); !ok {
				t = sym("free", fv.Name(), fv.Type())
			}
			e.escaped[t] = true
		}
		st.env[vkey{root, fv}] = t
	}
	for a, v := range e.Opt.Mem {
		st.base[a] = v
	}
	e.Entry = e.cut(root, e.Root.Blocks[0], "")
	e.Entry.In = st
	e.push(e.Entry)
	for round := 0; ; round++ {
		for len(e.work) > 0 {
			c := e.work[0]
			e.work = e.work[1:]
			c.queued = false
			c.visits++
			if c.visits > 60+20*round {
				panic(execErr{"analysis of " + FuncName(e.Root) + " does not converge at " + e.P.Pos(blockPos(c.B))})
			}
			e.region(c)
		}
		if round > 12 || !e.redundant(round < 10) {
			break
		}
	}
	// record what each path passes to the values merged at its end
	for _, c := range e.Cuts {
		for _, p := range c.Paths {
			p.Phi = map[*Term]*Term{}
			if p.To != nil {
				for k, s := range p.To.joined {
					if v := p.end.env[k]; v != nil {
						p.Phi[s] = v
					}
				}
			}
		}
	}
	return nil
}

// redundant looks for sets of joined values that only ever pass on one value
// made elsewhere, and makes them that value; a value set so before that does
// not hold is joined again. It reports whether there is more to analyse.
func (e *Exec) redundant(more bool) bool {
	change := map[*Cut]bool{}
	for _, c := range e.Cuts {
		for k, t := range c.forced {
			if t == nil {
				continue
			}
			for _, es := range c.edges {
				for _, ed := range es {
					if ed.st.env[k] != t {
						c.forced[k] = nil
						change[c] = true
					}
				}
			}
		}
	}
	if len(change) == 0 && more {
		type slot struct {
			c *Cut
			k vkey
		}
		at := map[*Term]slot{}
		var syms []*Term
		for _, c := range e.Cuts {
			if c.In == nil || len(c.edges) == 0 {
				continue
			}
			for k, s := range c.joined {
				if _, was := c.forced[k]; !was && c.In.env[k] == s {
					at[s] = slot{c, k}
					syms = append(syms, s)
				}
			}
		}
		// ask what each value can be, taking the others to be what they pass on
		res := map[*Term]*Term{} // absent: not known yet, itself: a real join
		for again := true; again; {
			again = false
			for _, s := range syms {
				if res[s] == s {
					continue
				}
				var v *Term
				for _, a := range e.alts[s] {
					if a == s {
						continue
					}
					if _, ok := at[a]; ok {
						if a = res[a]; a == nil {
							continue
						}
					}
					if a == s {
						continue
					}
					if v == nil {
						v = a
					} else if v != a {
						v = s
						break
					}
				}
				if v != nil && v != s && v.contains(func(x *Term) bool { return x == s }) {
					v = s
				}
				if v != nil && res[s] != v {
					if res[s] != nil && v != s {
						v = s
					}
					res[s] = v
					again = true
				}
			}
		}
		for _, s := range syms {
			if v := res[s]; v != nil && v != s {
				o := at[s]
				if termOwners(e, v, func(x *Cut) bool { return o.c.inLoop(x) }) {
					continue
				}
				if o.c.forced == nil {
					o.c.forced = map[vkey]*Term{}
				}
				o.c.forced[o.k] = v
				delete(o.c.joined, o.k)
				delete(e.alts, s)
				change[o.c] = true
			}
		}
	}
	for _, c := range e.Cuts {
		if change[c] {
			if n := e.merge(c); !sameState(c.In, n) {
				c.In = n
				e.push(c)
			}
		}
	}
	return len(change) > 0
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func (e *Exec) push(c *Cut) {
	if !c.queued {
		c.queued = true
		e.work = append(e.work, c)
	}
}

func (e *Exec) ctx(parent *Ctx, site ssa.CallInstruction, fn *ssa.Function) *Ctx {
	k := fn.String()
	if parent != nil {
		k = fmt.Sprintf("%d/%p/%p", parent.id, site, fn)
	}
	if c := e.ctxs[k]; c != nil {
		return c
	}
	c := &Ctx{id: len(e.ctxs), parent: parent, site: site, fn: fn}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	e.ctxs[k] = c
	e.Inlined[fn] = true
	return c
}

func (e *Exec) cut(c *Ctx, b *ssa.BasicBlock, part string) *Cut {
	k := fmt.Sprintf("%d:%d%s", c.id, b.Index, part)
	if x := e.cuts[k]; x != nil {
		return x
	}
	x := &Cut{ID: len(e.Cuts), Ctx: c, B: b, joined: map[vkey]*Term{}, demoted: map[vkey]int{}, edges: map[*Cut][]*edgeIn{}}
	if bl := e.loops(b.Parent())[b]; bl != nil {
		x.Loop, x.blocks = true, bl
	}
	e.cuts[k] = x
	e.Cuts = append(e.Cuts, x)
	return x
}

// loops returns the natural loops of f by header.
func (e *Exec) loops(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if h, ok := e.headers[f]; ok {
		return h
	}
	h := naturalLoops(f)
	e.headers[f] = h
	return h
}

func naturalLoops(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	h := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if !b.Dominates(p) {
				continue
			}
			if h[b] == nil {
				h[b] = map[*ssa.BasicBlock]bool{b: true}
			}
			var stack []*ssa.BasicBlock
			stack = append(stack, p)
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if h[b][x] {
					continue
				}
				h[b][x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	return h
}

func (e *Exec) isCut(c *Ctx, b *ssa.BasicBlock) bool {
	if e.loops(b.Parent())[b] != nil {
		return true
	}
	return e.joins[b.Parent()] && len(b.Preds) > 1
}

// inLoop reports whether region d lies inside the loop headed by c (in c's frame or a callee's).
// loopWrites: some path within the loop at c has been seen to change memory class k.
func (e *Exec) loopWrites(c *Cut, k string) bool {
	for _, d := range e.Cuts {
		if d.wrote[k] && c.inLoop(d) {
			return true
		}
	}
	return false
}

func (c *Cut) inLoop(d *Cut) bool {
	if !c.Loop {
		return false
	}
	x := d.Ctx
	b := d.B
	for x != nil && x != c.Ctx {
		if x.site == nil {
			return false
		}
		b = x.site.Block()
		x = x.parent
	}
	return x == c.Ctx && c.blocks[b]
}

// ---- state ------------------------------------------------------------------

func (s *State) fork() *State {
	n := &State{base: s.base, facts: s.facts}
	n.env = make(map[vkey]*Term, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.mem = s.mem[:len(s.mem):len(s.mem)]
	n.guards = s.guards[:len(s.guards):len(s.guards)]
	n.gpos = s.gpos[:len(s.gpos):len(s.gpos)]
	n.events = s.events[:len(s.events):len(s.events)]
	n.ver = make(map[string]string, len(s.ver))
	for k, v := range s.ver {
		n.ver[k] = v
	}
	n.defers = make(map[*Ctx][]ssa.CallInstruction, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.defArg = make(map[ssa.CallInstruction][]*Term, len(s.defArg))
	for k, v := range s.defArg {
		n.defArg[k] = v
	}
	n.known = make(map[int]bool, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	return n
}

func termOwners(e *Exec, t *Term, f func(*Cut) bool) bool {
	return t.contains(func(x *Term) bool {
		if c := e.owner[ownerKey(x)]; c != nil {
			return f(c)
		}
		return false
	})
}

func ownerKey(x *Term) string {
	if x.Ver != "" {
		return "v:" + x.Ver
	}
	if x.Op == "sym" {
		return "s:" + x.S
	}
	return ""
}

// merge recomputes the state at a cut from all its incoming edges.
func (e *Exec) merge(c *Cut) *State {
	var es []*edgeIn
	var ks []*Cut
	for k := range c.edges {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		es = append(es, c.edges[k]...)
	}
	n := &State{env: map[vkey]*Term{}, base: map[*Term]*Term{}, ver: map[string]string{}, defers: map[*Ctx][]ssa.CallInstruction{},
		defArg: map[ssa.CallInstruction][]*Term{}, known: map[int]bool{}}
	// the length of a nil slice written as 0 is the length of the slice
	for _, ed := range es {
		for k, v := range ed.st.env {
			if v.Op != "len" {
				continue
			}
			nl := isnil(v.Args[0])
			for _, o := range es {
				if w := o.st.env[k]; w != nil && isZero(w) && o.st.known[nl.ID] {
					o.st.env[k] = v
				}
			}
		}
	}
	// values
	keys := map[vkey]int{}
	for _, ed := range es {
		for k := range ed.st.env {
			keys[k]++
		}
	}
	for k, cnt := range keys {
		if cnt != len(es) || !e.liveAt(k, c) {
			continue
		}
		if t := c.forced[k]; t != nil {
			n.env[k] = t
			continue
		}
		s := c.joined[k]
		if s != nil && c.demoted[k] < 6 {
			// a value every edge now agrees on (or passes on unchanged) is no join any more
			var only *Term
			one := true
			for _, ed := range es {
				v := ed.st.env[k]
				if v == s || v == only {
					continue
				}
				if only != nil {
					one = false
					break
				}
				only = v
			}
			if one && only != nil {
				for _, ed := range es {
					if ed.back && ed.st.env[k] != s && termOwners(e, only, func(o *Cut) bool { return c.inLoop(o) }) {
						one = false
					}
				}
				if one && only.contains(func(x *Term) bool { return x == s }) {
					one = false
				}
			}
			if one && only != nil {
				c.demoted[k]++
				delete(c.joined, k)
				delete(e.alts, s)
				n.env[k] = only
				continue
			}
		}
		if s != nil {
			n.env[k] = s
		} else {
			v := es[0].st.env[k]
			same := true
			for _, ed := range es[1:] {
				if ed.st.env[k] != v {
					same = false
				}
			}
			// a back edge may carry a value of the previous iteration
			if same {
				for _, ed := range es {
					if ed.back && termOwners(e, ed.st.env[k], func(o *Cut) bool { return c.inLoop(o) }) {
						same = false
					}
				}
			}
			if same {
				n.env[k] = v
				continue
			}
			nm := fmt.Sprintf("%s@%d.%d", valName(k.v), c.ID, k.c.id)
			s := sym("phi", nm, k.v.Type())
			s.V = c
			e.owner["s:phi:"+nm] = c
			c.joined[k] = s
			n.env[k] = s
		}
		s = n.env[k]
		if c.joined[k] == s {
			var alts []*Term
			seen := map[*Term]bool{}
			for _, ed := range es {
				v := ed.st.env[k]
				if !seen[v] {
					seen[v] = true
					alts = append(alts, v)
				}
			}
			e.alts[s] = alts
		}
	}
	// memory
	vers := map[string]bool{}
	for _, ed := range es {
		for k := range ed.st.ver {
			vers[k] = true
		}
	}
	for k := range vers {
		// nothing the loop does changes it: what comes back is what went in, perhaps of an earlier round
		quiet := c.Loop && !e.loopWrites(c, k)
		v, same, first := "", true, true
		for _, ed := range es {
			if quiet && ed.back {
				continue
			}
			if first {
				v, first = ed.st.ver[k], false
			}
			if ed.st.ver[k] != v {
				same = false
			}
			if ed.back {
				if o := e.owner["v:"+ed.st.ver[k]]; o != nil && c.inLoop(o) {
					same = false
				}
			}
		}
		if first {
			continue
		}
		if !same {
			v = fmt.Sprintf("@%d", c.ID)
			e.owner["v:"+v] = c
		}
		if v != "" {
			n.ver[k] = v
		}
	}
	for a, v := range es[0].st.base {
		ok := true
		for _, ed := range es {
			if ed.st.base[a] != v {
				ok = false
			} else if ed.back && (termOwners(e, a, func(o *Cut) bool { return c.inLoop(o) }) || termOwners(e, v, func(o *Cut) bool { return c.inLoop(o) })) {
				ok = false
			}
		}
		if c.In != nil {
			if old, had := c.In.base[a]; !had || old != v {
				// only ever lose facts, so that the iteration stops
				if c.visits > 4 {
					ok = false
				}
			}
		}
		if ok {
			n.base[a] = v
		}
	}
	// conditions
	first := es[0]
	for _, ed := range es {
		if !ed.back {
			first = ed
			break
		}
	}
	for _, g := range first.st.facts {
		ok := true
		for _, ed := range es {
			// what is known of values made before a loop stays true in it
			if ed != first && !ed.back {
				f := false
				for _, h := range ed.st.facts {
					if h == g {
						f = true
						break
					}
				}
				ok = ok && f
			}
			if ok && ed.back && termOwners(e, g, func(o *Cut) bool { return c.inLoop(o) }) {
				ok = false
			}
		}
		if ok {
			n.facts = append(n.facts, g)
			n.known[g.ID] = true
		}
	}
	for k, v := range es[0].st.defers {
		n.defers[k] = v
	}
	for _, ed := range es {
		for k, v := range ed.st.defers {
			if len(v) > len(n.defers[k]) {
				n.defers[k] = v
			}
		}
		for k, v := range ed.st.defArg {
			n.defArg[k] = v
		}
	}
	return n
}

func sameState(a, b *State) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(a.env) != len(b.env) || len(a.base) != len(b.base) || len(a.ver) != len(b.ver) || len(a.facts) != len(b.facts) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.base {
		if b.base[k] != v {
			return false
		}
	}
	for k, v := range a.ver {
		if b.ver[k] != v {
			return false
		}
	}
	for _, g := range a.facts {
		if !b.known[g.ID] {
			return false
		}
	}
	for k, v := range a.defers {
		if len(b.defers[k]) != len(v) {
			return false
		}
	}
	return true
}

func valName(v ssa.Value) string {
	if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
		return ph.Comment + "." + ph.Name()
	}
	return v.Name()
}

// liveAt reports whether value k may be used after cut c: its definition dominates the cut.
func (e *Exec) liveAt(k vkey, c *Cut) bool {
	x, b := c.Ctx, c.B
	self := true
	for x != nil {
		if x == k.c {
			in, ok := k.v.(ssa.Instruction)
			if !ok {
				return true // parameter or free variable
			}
			if in.Block() == b {
				if self {
					_, isPhi := k.v.(*ssa.Phi)
					return isPhi
				}
				return true
			}
			return in.Block().Dominates(b)
		}
		if x.site == nil {
			return false
		}
		b = x.site.Block()
		x = x.parent
		self = false
	}
	return false
}

// ---- regions ----------------------------------------------------------------

type runner struct {
	e     *Exec
	c     *Cut
	paths []*Path
}

func (e *Exec) region(c *Cut) {
	r := &runner{e: e, c: c}
	st := c.In.fork()
	st.events, st.guards, st.gpos, st.mem = nil, nil, nil, nil
	r.block(st, c.Ctx, c.B, nil, true)
	c.Paths = r.paths
	// deliver
	type dst struct {
		es []*edgeIn
	}
	out := map[*Cut]*dst{}
	var order []*Cut
	for _, p := range r.paths {
		if p.To != nil {
			if out[p.To] == nil {
				out[p.To] = &dst{}
				order = append(order, p.To)
			}
			out[p.To].es = append(out[p.To].es, &edgeIn{p.end, p.Back})
		}
	}
	touched := map[*Cut]bool{}
	for _, o := range e.Cuts {
		if _, had := o.edges[c]; had && out[o] == nil {
			delete(o.edges, c)
			touched[o] = true
		}
	}
	for _, o := range order {
		o.edges[c] = out[o].es
		touched[o] = true
	}
	for _, o := range e.Cuts {
		if !touched[o] {
			continue
		}
		if len(o.edges) == 0 {
			continue
		}
		n := e.merge(o)
		if !sameState(o.In, n) {
			o.In = n
			e.push(o)
		}
	}
}

func (r *runner) finish(st *State, end string) *Path {
	p := &Path{From: r.c, End: end, Guards: st.guards, GPos: st.gpos, Events: st.events, end: st}
	r.paths = append(r.paths, p)
	if len(r.paths) > r.e.Opt.MaxPaths {
		// cut at the joins of the function with the most branches on the paths
		cnt := map[*ssa.Function]int{}
		for _, p := range r.paths {
			for _, ev := range p.Events {
				cnt[ev.Ctx.fn]++
			}
		}
		best := r.c.Ctx.fn
		if r.e.joins[best] {
			for f, n := range cnt {
				if !r.e.joins[f] && (r.e.joins[best] || n > cnt[best]) {
					best = f
				}
			}
		}
		panic(overflow{best})
	}
	return p
}

// sealed turns the path-local state into the state handed to the next cut.
func (r *runner) seal(st *State) {
	base := map[*Term]*Term{}
	add := func(a *Term) {
		v := r.load(st, a, a.T)
		if v != nil && !(v.Op == "load" && v.Args[0] == a) {
			base[a] = v
		}
	}
	for a := range st.base {
		add(a)
	}
	for _, m := range st.mem {
		if m.kind == 'w' {
			add(m.addr)
		}
	}
	for _, m := range st.mem {
		switch m.kind {
		case 'w', 'm':
			st.ver[m.class] = m.uniq
		case 'a':
			st.ver[m.class] = m.uniq
		}
	}
	st.base = base
	st.mem = nil
	st.facts = append(append([]*Term(nil), st.facts...), st.guards...)
	var f []*Term
	seen := map[int]bool{}
	for _, g := range st.facts {
		if !seen[g.ID] {
			seen[g.ID] = true
			f = append(f, g)
		}
	}
	st.facts = f
}

func (r *runner) toCut(st *State, c *Ctx, b, pred *ssa.BasicBlock) {
	r.phis(st, c, b, pred)
	// states that hold different functions in a variable are kept apart
	var parts []string
	for k, v := range st.env {
		if _, ok := k.v.(*ssa.Phi); !ok || (v.Op != "closure" && v.Op != "func" && v.Op != "nil") {
			continue
		}
		if _, ok := k.v.Type().Underlying().(*types.Signature); ok && r.e.liveAt(k, &Cut{Ctx: c, B: b}) {
			parts = append(parts, fmt.Sprintf("/%d.%s=%s", k.c.id, k.v.Name(), v))
		}
	}
	sort.Strings(parts)
	cu := r.e.cut(c, b, strings.Join(parts, ""))
	p := r.finish(st, "cut")
	p.To = cu
	p.Back = cu.Loop && pred != nil && b.Dominates(pred)
	p.end = st.fork()
	r.seal(p.end)
	if p.From.In != nil {
		for k, v := range p.end.ver {
			if v != p.From.In.ver[k] {
				if p.From.wrote == nil {
					p.From.wrote = map[string]bool{}
				}
				p.From.wrote[k] = true
			}
		}
	}
}

func (r *runner) phis(st *State, c *Ctx, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var ks []vkey
	var vs []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ks = append(ks, vkey{c, ph})
		vs = append(vs, r.val(st, c, ph.Edges[idx]))
	}
	for i, k := range ks {
		st.env[k] = vs[i]
	}
}

// block continues at the start of block b; first is set when the region starts here.
func (r *runner) block(st *State, c *Ctx, b, pred *ssa.BasicBlock, first bool) {
	if !first && r.e.isCut(c, b) {
		r.toCut(st, c, b, pred)
		return
	}
	if !first {
		r.phis(st, c, b, pred)
	}
	r.instrs(st, c, b, 0)
}

func (r *runner) uniq(c *Ctx, in ssa.Instruction) string {
	idx := -1
	for i, x := range in.Block().Instrs {
		if x == in {
			idx = i
		}
	}
	s := fmt.Sprintf("%d.%d.%d.%d", r.c.ID, c.id, in.Block().Index, idx)
	return s
}

func (r *runner) own(u string) string {
	r.e.owner["v:"+u] = r.c
	return u
}

func (r *runner) emit(st *State, ev *Event) {
	if ev.Kind == "call" && ev.In != nil && ev.Ctx != nil {
		ev.Uniq = "h" + r.uniq(ev.Ctx, ev.In)
	}
	ev.NG = len(st.guards)
	ev.Idx = len(st.events)
	st.events = append(st.events, ev)
}

func (r *runner) assume(st *State, g *Term, pos token.Pos) {
	if g.isTrue() || st.known[g.ID] {
		return
	}
	st.guards = append(st.guards, g)
	st.gpos = append(st.gpos, pos)
	st.known[g.ID] = true
}

// truth decides a condition from what is known on the path: 1, 0 or -1.
func (st *State) truth(g *Term) int {
	if g.isTrue() {
		return 1
	}
	if g.isFalse() {
		return 0
	}
	if st.known[g.ID] {
		return 1
	}
	ng := notT(g)
	if st.known[ng.ID] {
		return 0
	}
	for _, l := range [][]*Term{st.facts, st.guards} {
		for _, k := range l {
			if v := implied(k, g); v >= 0 {
				return v
			}
		}
	}
	return -1
}

// implied: does k decide g?
func implied(k, g *Term) int {
	neg := false
	if g.Op == "not" {
		neg = true
		g = g.Args[0]
	}
	v := -1
	switch g.Op {
	case "ge0":
		p := g.Args[0]
		switch k.Op {
		case "ge0":
			q := k.Args[0]
			if d, ok := subT(p, q).rat(); ok && d.Sign() >= 0 {
				v = 1
			} else if d, ok := addT(p, q).rat(); ok && d.Sign() < 0 {
				v = 0
			}
		case "eq0":
			q := k.Args[0]
			if d, ok := subT(p, q).rat(); ok {
				v = b2i(d.Sign() >= 0)
			} else if d, ok := addT(p, q).rat(); ok {
				v = b2i(d.Sign() >= 0)
			}
		}
	case "eq0":
		p := g.Args[0]
		switch k.Op {
		case "ge0":
			q := k.Args[0]
			if d, ok := subT(p, q).rat(); ok && d.Sign() > 0 {
				v = 0
			} else if d, ok := addT(p, q).rat(); ok && d.Sign() < 0 {
				v = 0
			}
		case "eq0":
			q := k.Args[0]
			if d, ok := subT(p, q).rat(); ok && d.Sign() != 0 {
				v = 0
			} else if d, ok := addT(p, q).rat(); ok && d.Sign() != 0 {
				v = 0
			}
		}
	case "lt":
		if k.Op == "lt" || k.Op == "le" {
			if k.Args[0] == g.Args[1] && k.Args[1] == g.Args[0] {
				v = 0
			}
		}
		if k.Op == "eq" && samePair(k, g) {
			v = 0
		}
	case "le":
		if k.Op == "eq" && samePair(k, g) {
			v = 1
		}
		if k.Op == "lt" {
			if k.Args[0] == g.Args[0] && k.Args[1] == g.Args[1] {
				v = 1
			} else if k.Args[0] == g.Args[1] && k.Args[1] == g.Args[0] {
				v = 0
			}
		}
	case "istype":
		if k.Op == "istype" && k.Args[0] == g.Args[0] && k.S != g.S {
			kt, _ := k.V.(types.Type)
			gt, _ := g.V.(types.Type)
			if kt != nil && gt != nil && !types.IsInterface(kt) {
				if !types.IsInterface(gt) {
					v = 0
				} else if it, ok := gt.Underlying().(*types.Interface); ok {
					v = b2i(types.Implements(kt, it))
				}
			}
		}
	case "isnil":
		if k.Op == "istype" && k.Args[0] == g.Args[0] {
			v = 0
		}
	case "eq":
		if k.Op == "lt" && samePair(k, g) {
			v = 0
		}
		if k.Op == "eq" {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if k.Args[i] == g.Args[j] && k.Args[1-i].Op == "const" && g.Args[1-j].Op == "const" && k.Args[1-i] != g.Args[1-j] {
						v = 0
					}
				}
			}
		}
	}
	if v >= 0 && neg {
		v = 1 - v
	}
	return v
}

func samePair(k, g *Term) bool {
	return k.Args[0] == g.Args[0] && k.Args[1] == g.Args[1] || k.Args[0] == g.Args[1] && k.Args[1] == g.Args[0]
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// instrs executes b from instruction i; calls are entered inline.
func (r *runner) instrs(st *State, c *Ctx, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		r.e.nsteps++
		if r.e.nsteps > 6000000 {
			panic(execErr{"analysis of " + FuncName(r.e.Root) + " takes too many steps"})
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			g := r.val(st, c, in.Cond)
			pos := condPos(in)
			switch st.truth(g) {
			case 1:
				r.block(st, c, b.Succs[0], b, false)
			case 0:
				r.block(st, c, b.Succs[1], b, false)
			default:
				s2 := st.fork()
				r.assume(st, g, pos)
				r.block(st, c, b.Succs[0], b, false)
				r.assume(s2, notT(g), pos)
				r.block(s2, c, b.Succs[1], b, false)
			}
			return
		case *ssa.Jump:
			r.block(st, c, b.Succs[0], b, false)
			return
		case *ssa.Panic:
			r.emit(st, &Event{Kind: "panic", In: in, Ctx: c, Args: []*Term{r.val(st, c, in.X)}})
			r.finish(st, "panic")
			return
		case *ssa.Return:
			var res []*Term
			for _, x := range in.Results {
				res = append(res, r.val(st, c, x))
			}
			r.ret(st, c, res, in)
			return
		case *ssa.Call:
			if r.call(st, c, b, i, in, in.Common(), nil, false) {
				return
			}
		case *ssa.Go:
			args := r.args(st, c, in.Common())
			r.emit(st, &Event{Kind: "go", In: in, Ctx: c, Name: calleeName(in.Common()), Fn: in.Common().StaticCallee(), Args: args, Val: r.callVal(st, c, in.Common())})
			r.havocCall(st, c, in, in.Common(), args)
			for _, a := range args {
				r.escape(a)
				r.capture(st, a)
			}
			r.capture(st, r.callVal(st, c, in.Common()))
			if r.e.Opt.GoInline && r.call(st, c, b, i, in, in.Common(), args, false) {
				return
			}
		case *ssa.Defer:
			if !r.e.Opt.NoDefer {
				st.defers[c] = append(st.defers[c], in)
			}
			st.defArg[in] = r.args(st, c, in.Common())
			r.emit(st, &Event{Kind: "defer", In: in, Ctx: c, Name: calleeName(in.Common()), Args: st.defArg[in]})
		case *ssa.RunDefers:
			if n := len(st.defers[c]); n > 0 {
				d := st.defers[c][n-1]
				st.defers[c] = st.defers[c][: n-1 : n-1]
				if r.call(st, c, b, i-1, d, d.Common(), st.defArg[d], true) {
					return
				}
				i-- // run the remaining ones
			}
		case *ssa.Store:
			a := r.val(st, c, in.Addr)
			v := r.val(st, c, in.Val)
			r.emit(st, &Event{Kind: "store", Addr: a, Val: v, In: in, Ctx: c, Class: r.class(a, in.Addr), Uniq: "w" + r.uniq(c, in)})
			r.store(st, a, v, r.uniq(c, in))
			r.fields(st, c, in, a, v)
		case *ssa.MapUpdate:
			m, k, v := r.val(st, c, in.Map), r.val(st, c, in.Key), r.val(st, c, in.Value)
			r.emit(st, &Event{Kind: "mapupdate", Addr: m, Val: v, Args: []*Term{k}, In: in, Ctx: c, Class: "M:" + typeName(in.Map.Type())})
			st.mem = append(st.mem, memEnt{kind: 'm', addr: m, key: k, val: v, class: "M:" + typeName(in.Map.Type()), uniq: r.own("m" + r.uniq(c, in))})
		case *ssa.Send:
			r.emit(st, &Event{Kind: "send", Addr: r.val(st, c, in.Chan), Val: r.val(st, c, in.X), In: in, Ctx: c})
		default:
			v, ok := b.Instrs[i].(ssa.Value)
			if !ok {
				panic(execErr{fmt.Sprintf("unsupported instruction %T at %s", in, r.e.P.Pos(in.Pos()))})
			}
			if t := r.compute(st, c, v); t != nil {
				st.env[vkey{c, v}] = t
			} else {
				r.finish(st, "panic")
				return
			}
		}
	}
	panic(execErr{"block without terminator"})
}

// fields: an assignment to a whole object writes each of its fields.
func (r *runner) fields(st *State, c *Ctx, in *ssa.Store, a, v *Term) {
	if v.Op != "struct" || a.Op == "alloc" || a.Op == "indexaddr" || a.Op == "fieldaddr" {
		return
	}
	t, _ := structOf(in.Addr.Type())
	if t == nil || t.NumFields() != len(v.Args) {
		return
	}
	for i, x := range v.Args {
		cl, f := fieldClass(in.Addr.Type(), i)
		fa := fieldAddrN(a, cl, i, types.NewPointer(f.Type()))
		if x.Op == "load" && x.Args[0] == fa {
			continue // it keeps what it had
		}
		r.emit(st, &Event{Kind: "store", Addr: fa, Val: x, In: in, Ctx: c, Class: "F:" + cl, Uniq: "w" + r.uniq(c, in) + "." + f.Name()})
	}
}

func condPos(in *ssa.If) token.Pos {
	if v, ok := in.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
		return v.Pos()
	}
	return in.Cond.Pos()
}

func (r *runner) ret(st *State, c *Ctx, res []*Term, in ssa.Instruction) {
	if c.parent == nil {
		p := r.finish(st, "return")
		p.Ret = res
		p.RetIn = in
		return
	}
	r.emit(st, &Event{Kind: "leave", Fn: c.fn, Name: fnName(c.fn), In: in, Ctx: c, Args: res})
	delete(st.defers, c)
	if v, ok := c.site.(*ssa.Call); ok {
		switch len(res) {
		case 0:
			st.env[vkey{c.parent, v}] = mk("tuple", "")
		case 1:
			st.env[vkey{c.parent, v}] = res[0]
		default:
			st.env[vkey{c.parent, v}] = mk("tuple", "", res...)
		}
	}
	// continue after the call
	var b *ssa.BasicBlock
	i := -1
	if _, isDefer := c.site.(*ssa.Defer); isDefer {
		// continue running the deferred calls of the parent
		for _, bb := range c.parent.fn.Blocks {
			for j, x := range bb.Instrs {
				if _, ok := x.(*ssa.RunDefers); ok && r.inExit(st, c.parent, bb) {
					b, i = bb, j-1
				}
			}
		}
	} else {
		b = c.site.Block()
		for j, x := range b.Instrs {
			if x == c.site.(ssa.Instruction) {
				i = j
			}
		}
	}
	// values of the callee are dead now
	for k := range st.env {
		if k.c == c {
			delete(st.env, k)
		}
	}
	r.instrs(st, c.parent, b, i+1)
}

// inExit: the RunDefers block being executed is recorded in the environment under the function itself.
func (r *runner) inExit(st *State, c *Ctx, b *ssa.BasicBlock) bool {
	t := st.env[vkey{c, exitMark{c.fn}}]
	return t != nil && t.S == strconv.Itoa(b.Index)
}

type exitMark struct{ *ssa.Function }

func (r *runner) args(st *State, c *Ctx, cc *ssa.CallCommon) []*Term {
	var out []*Term
	if cc.IsInvoke() {
		out = append(out, r.val(st, c, cc.Value))
	}
	for _, a := range cc.Args {
		out = append(out, r.val(st, c, a))
	}
	return out
}

func (r *runner) callVal(st *State, c *Ctx, cc *ssa.CallCommon) *Term {
	if cc.IsInvoke() {
		return nilT()
	}
	return r.val(st, c, cc.Value)
}

func (r *runner) escape(t *Term) {
	t.walk(func(x *Term) bool {
		if x.Op == "alloc" {
			r.e.escaped[x] = true
		}
		// what a call can keep of its arguments escaped at the call
		return x.Op != "load" && x.Op != "call"
	})
}

// call handles a call; it returns true when control has moved elsewhere (inline or a dead end).
func (r *runner) call(st *State, c *Ctx, b *ssa.BasicBlock, i int, in ssa.CallInstruction, cc *ssa.CallCommon, args []*Term, deferred bool) bool {
	if args == nil {
		args = r.args(st, c, cc)
	}
	val, _ := in.(*ssa.Call)
	setRes := func(t *Term) {
		if val != nil {
			st.env[vkey{c, val}] = t
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		t := r.builtin(st, c, in, bi.Name(), args)
		if t == nil {
			r.finish(st, "panic")
			return true
		}
		setRes(t)
		return false
	}
	type target struct {
		fn   *ssa.Function
		clos *Term
		g    *Term
	}
	var targets []target
	var recvUnwrapped *Term
	if cc.IsInvoke() {
		recv := args[0]
		if recv.Op == "iface" {
			if t, ok := recv.V.(types.Type); ok && !types.IsInterface(t) {
				if sel := types.NewMethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
					if f := r.e.P.SSA.MethodValue(sel); f != nil {
						targets = append(targets, target{fn: f})
						recvUnwrapped = recv.Args[0]
					}
				}
			}
		}
		if targets == nil && r.e.Opt.Devirt != nil {
			if f := r.e.Opt.Devirt(cc, recv); f != nil {
				targets = append(targets, target{fn: f})
				recvUnwrapped = mk("typeassert", typeName(f.Signature.Recv().Type()), recv)
			}
		}
	} else if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			targets = append(targets, target{fn: f, clos: r.val(st, c, mc)})
		} else {
			targets = append(targets, target{fn: f})
		}
	} else {
		fv := r.val(st, c, cc.Value)
		cands := []*Term{fv}
		if a := r.e.alts[fv]; a != nil {
			cands = a
		}
		all := true
		for _, x := range cands {
			if x.Op != "func" && x.Op != "closure" && x.Op != "nil" {
				all = false
			}
		}
		if all {
			for _, x := range cands {
				if x.Op == "nil" {
					continue
				}
				var g *Term
				if len(cands) > 1 {
					g = mk("isfunc", "", fv, x)
				}
				targets = append(targets, target{fn: x.V.(*ssa.Function), clos: x, g: g})
			}
			if len(targets) == 0 {
				r.finish(st, "panic")
				return true
			}
		}
	}
	inlinable := len(targets) > 0
	for _, t := range targets {
		f := t.fn
		if len(f.Blocks) == 0 || !(fnInRepo(f) || f.Synthetic != "") || c.contains(f) || c.depth+1 > r.e.Opt.MaxDepth {
			inlinable = false
		} else if f.Synthetic != "" && !fnInRepo(f) && f.Object() == nil {
			inlinable = false
		} else if r.e.Opt.Opaque != nil && r.e.Opt.Opaque(f) {
			inlinable = false
		}
	}
	if inlinable {
		if deferred {
			m := exitMark{c.fn}
			st.env[vkey{c, m}] = mk("mark", strconv.Itoa(b.Index))
		}
		for ti, t := range targets {
			s := st
			if ti < len(targets)-1 {
				s = st.fork()
			}
			if t.g != nil {
				r.assume(s, t.g, in.Pos())
			}
			a2 := args
			if recvUnwrapped != nil {
				a2 = append([]*Term{recvUnwrapped}, args[1:]...)
			}
			r.enter(s, c, in, t.fn, t.clos, a2)
		}
		return true
	}
	name := calleeName(cc)
	var fn *ssa.Function
	if len(targets) == 1 {
		fn = targets[0].fn
		if cc.IsInvoke() {
			// keep the interface name
		} else {
			name = fnName(fn)
		}
	}
	if isExit(name) {
		r.emit(st, &Event{Kind: "call", Name: name, Fn: fn, Args: r.spread(st, args), In: in.(ssa.Instruction), Ctx: c})
		r.finish(st, "exit")
		return true
	}
	sargs := r.spread(st, args)
	var res *Term
	if t := foldCall(name, sargs); t != nil {
		res = t
	} else if pureCalls(name) {
		res = mk("call", name, sargs...)
	} else {
		ar := sargs
		if !cc.IsInvoke() && cc.StaticCallee() == nil {
			ar = append([]*Term{r.val(st, c, cc.Value)}, sargs...)
		}
		res = mkv("call", name, r.own("c"+r.uniq(c, in.(ssa.Instruction))), ar...)
	}
	if res.T == nil {
		res.T = cc.Signature().Results()
		if cc.Signature().Results().Len() == 1 {
			res.T = cc.Signature().Results().At(0).Type()
		}
	}
	r.emit(st, &Event{Kind: "call", Name: name, Fn: fn, Args: sargs, Res: res, In: in.(ssa.Instruction), Ctx: c, Val: r.callVal(st, c, cc)})
	r.havocCall(st, c, in.(ssa.Instruction), cc, args)
	setRes(res)
	return false
}

func isExit(n string) bool {
	switch n {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

func (r *runner) enter(st *State, c *Ctx, in ssa.CallInstruction, f *ssa.Function, clos *Term, args []*Term) {
	nc := r.e.ctx(c, in, f)
	r.emit(st, &Event{Kind: "enter", Fn: f, Name: fnName(f), Args: args, In: in.(ssa.Instruction), Ctx: c})
	for i, p := range f.Params {
		if i < len(args) {
			st.env[vkey{nc, p}] = args[i]
		}
	}
	if clos != nil {
		for i, fv := range f.FreeVars {
			if i < len(clos.Args) {
				st.env[vkey{nc, fv}] = clos.Args[i]
			}
		}
	}
	delete(st.defers, nc)
	r.block(st, nc, f.Blocks[0], nil, false)
}

// spread replaces a variadic argument slice built at the call by its elements.
func (r *runner) spread(st *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = a
		if l := r.elems(st, a); l != nil {
			out[i] = mk("list", "", l...)
		}
	}
	return out
}

func (r *runner) elems(st *State, a *Term) []*Term {
	if a.Op == "slice" && a.Args[0].Op == "alloc" && a.Args[1].Op == "none" && a.Args[2].Op == "none" {
		if p, ok := a.Args[0].T.Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok && at.Len() <= 64 {
				l := []*Term{}
				for i := int64(0); i < at.Len(); i++ {
					ad := indexAddr(a.Args[0], intT(i), at.Elem())
					l = append(l, r.load(st, ad, at.Elem()))
				}
				return l
			}
		}
	}
	return nil
}

func (r *runner) havocCall(st *State, c *Ctx, in ssa.Instruction, cc *ssa.CallCommon, args []*Term) {
	u := r.own("h" + r.uniq(c, in))
	eff := effects{}
	fs, _ := r.e.P.Callees(cc)
	std := true
	for _, f := range fs {
		if fnInRepo(f) || f.Synthetic != "" && len(f.Blocks) > 0 {
			std = false
			eff.addAll(r.e.P.Effects(f))
		}
	}
	if cc.IsInvoke() && len(fs) == 0 {
		std = true
	}
	name := calleeName(cc)
	if mutatesArgs[name] {
		for i, a := range cc.Args {
			if s, ok := rootOf(a).Type().Underlying().(*types.Slice); ok {
				eff["E:"+typeName(s.Elem())] = true
			}
			_ = i
		}
	}
	if len(eff) > 0 {
		st.mem = append(st.mem, memEnt{kind: 'h', classes: eff, uniq: u})
		for k := range eff {
			if k == "ALL" {
				for kk := range st.ver {
					st.ver[kk] = u
				}
			}
			st.ver[k] = u
		}
	}
	quiet := strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "(*bufio.") || strings.HasPrefix(name, "(*encoding/csv.")
	if strings.HasPrefix(name, "fmt.Sscan") || strings.HasPrefix(name, "fmt.Fscan") {
		quiet = false
	}
	for ai, a := range args {
		x := a
		if x.Op == "iface" {
			x = x.Args[0]
		}
		if std && !quiet && (x.Op == "alloc" || x.Op == "fieldaddr" || x.Op == "indexaddr") {
			st.mem = append(st.mem, memEnt{kind: 'a', addr: x, class: classOf(x), uniq: u})
		}
		if !std {
			safe := len(fs) > 0
			for _, f := range fs {
				if !r.e.P.argSafe(f, ai) {
					safe = false
				}
			}
			if !safe {
				r.escape(a)
			}
			r.capture(st, a)
		}
	}
}

// capture: a variable that the code of a passed-on function value writes, or whose address it hands
// on, can change at any time from here; what the others hold can be reached through them.
func (r *runner) capture(st *State, a *Term) {
	a.walk(func(x *Term) bool {
		if f, _ := x.V.(*ssa.Function); f != nil && x.Op == "closure" {
			for i, b := range x.Args {
				if i >= len(f.FreeVars) || !r.e.P.valSafe(f.FreeVars[i], map[ssa.Value]bool{}) {
					r.escape(b)
				} else if b.Op == "alloc" {
					r.e.shared[b] = true
				} else {
					r.escape(b)
				}
				for _, m := range st.mem {
					if m.kind == 'w' && rootTerm(m.addr) == rootTerm(b) {
						r.escape(m.val)
					}
				}
				for ad, v := range st.base {
					if rootTerm(ad) == rootTerm(b) {
						r.escape(v)
					}
				}
			}
		}
		return x.Op != "load" && x.Op != "call"
	})
}

// ---- memory -----------------------------------------------------------------

func classOf(a *Term) string {
	switch a.Op {
	case "fieldaddr":
		return "F:" + a.S
	case "indexaddr":
		return "E:" + a.S
	case "global":
		return "G:" + a.S
	}
	if a.T != nil {
		if p, ok := a.T.Underlying().(*types.Pointer); ok {
			return "C:" + typeName(p.Elem())
		}
	}
	return "C:?"
}

func (r *runner) class(a *Term, v ssa.Value) string {
	if c := classOf(a); c != "C:?" {
		return c
	}
	return addrClass(v)
}

func rootTerm(a *Term) *Term {
	for {
		switch a.Op {
		case "fieldaddr", "indexaddr":
			a = a.Args[0]
		case "slice":
			a = a.Args[0]
		default:
			return a
		}
	}
}

// width is the size in bits of a number type (64-bit platforms).
func width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32:
		return 32
	}
	return 64
}

func pathLike(t *Term) bool {
	switch t.Op {
	case "sym":
		return strings.HasPrefix(t.S, "param:") || strings.HasPrefix(t.S, "free:")
	case "global", "alloc":
		return true
	case "load", "fieldaddr", "typeassert", "indexaddr", "iface", "field", "lookup":
		return pathLike(t.Args[0])
	}
	return false
}

func fresh(t *Term) bool { return t.Op == "alloc" || t.Op == "makeslice" || t.Op == "makemap" }

// mayAlias is decided for two addresses of the same class.
func (r *runner) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := rootTerm(a), rootTerm(b)
	if fresh(ra) && fresh(rb) && ra != rb {
		return false
	}
	if fresh(ra) != fresh(rb) {
		f, o := ra, rb
		if fresh(rb) {
			f, o = rb, ra
		}
		if f.Op == "alloc" && !r.e.escaped[f] {
			return false
		}
		if o.Op == "sym" && strings.HasPrefix(o.S, "param:") {
			return false
		}
		if f.Op != "alloc" && pathLike(o) {
			return false
		}
	}
	if a.Op == "indexaddr" && b.Op == "indexaddr" {
		if a.Args[0] == b.Args[0] {
			if d, ok := subT(a.Args[1], b.Args[1]).rat(); ok && d.Sign() != 0 {
				return false
			}
			return true
		}
		sa, sb := strip(a.Args[0]), strip(b.Args[0])
		if sa != sb && pathLike(sa) && pathLike(sb) {
			return false // distinct access paths hold distinct arrays
		}
		return true
	}
	if a.Op == "fieldaddr" && b.Op == "fieldaddr" {
		if a.Args[0] == b.Args[0] {
			return true // same field of the same object
		}
		return r.mayAliasObj(a.Args[0], b.Args[0])
	}
	if a.Op == "alloc" || b.Op == "alloc" {
		// a local variable and an unknown pointer
		o := a
		if a.Op == "alloc" {
			o = b
		}
		if o.Op == "sym" || o.Op == "load" || o.Op == "fieldaddr" {
			al := a
			if b.Op == "alloc" {
				al = b
			}
			return r.e.escaped[al] && !strings.HasPrefix(o.S, "param:")
		}
		return false
	}
	return true
}

func (r *runner) mayAliasObj(a, b *Term) bool {
	if a == b {
		return true
	}
	if fresh(a) && fresh(b) {
		return false
	}
	if fresh(a) || fresh(b) {
		f := a
		if fresh(b) {
			f = b
		}
		return r.e.escaped[f]
	}
	if a.Op == "indexaddr" && b.Op == "indexaddr" {
		return r.mayAlias(a, b)
	}
	return true
}

func parentAddr(a *Term) *Term {
	if a.Op == "fieldaddr" || a.Op == "indexaddr" {
		return a.Args[0]
	}
	return nil
}

// project reads the part of value v (stored at address base) that lies at address a.
func project(v, base, a *Term) *Term {
	if a == base {
		return v
	}
	p := parentAddr(a)
	if p == nil {
		return nil
	}
	pv := project(v, base, p)
	if pv == nil {
		return nil
	}
	if a.Op == "fieldaddr" {
		return fieldT(pv, a.S, a.V)
	}
	if a.Op == "indexaddr" {
		return mk("index", "", pv, a.Args[1])
	}
	return nil
}

func fieldT(v *Term, name string, idx interface{}) *Term {
	if v.Op == "struct" {
		if i, ok := idx.(int); ok && i < len(v.Args) {
			return v.Args[i]
		}
	}
	if v.Op == "load" {
		fa := fieldAddrN(v.Args[0], name, idx, nil)
		t := mkv("load", "", v.Ver, fa)
		return t
	}
	return mk("field", name, v)
}

func fieldAddrN(base *Term, name string, idx interface{}, T types.Type) *Term {
	t := mk("fieldaddr", name, base)
	if t.V == nil {
		t.V = idx
	}
	if t.T == nil {
		t.T = T
	}
	return t
}

func indexAddr(base, idx *Term, elem types.Type) *Term {
	// normalise windows: x[lo:hi][i] is x[lo+i]
	for base.Op == "slice" {
		lo := base.Args[1]
		if lo.Op != "none" {
			idx = addT(lo, idx)
		}
		base = base.Args[0]
	}
	// appended arrays keep their prefix
	t := mk("indexaddr", typeName(elem), base, idx)
	if t.T == nil {
		t.T = types.NewPointer(elem)
	}
	return t
}

func isPrefixAddr(p, a *Term) bool {
	for x := a; x != nil; x = parentAddr(x) {
		if x == p {
			return true
		}
	}
	return false
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (r *runner) load(st *State, a *Term, addrType types.Type) *Term {
	typ := elemOf(addrType)
	if typ == nil {
		typ = elemOf(a.T)
		if typ == nil {
			typ = addrType
		}
	}
	return r.loadT(st, a, typ)
}

func (r *runner) loadT(st *State, a *Term, typ types.Type) *Term {
	// a struct whose fields were written one by one
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
			split := false
			for i := len(st.mem) - 1; i >= 0; i-- {
				m := st.mem[i]
				if m.kind == 'w' && m.addr == a {
					break
				}
				if (m.kind == 'w') && m.addr != a && isPrefixAddr(a, m.addr) {
					split = true
					break
				}
			}
			if !split {
				for x := range st.base {
					if x != a && isPrefixAddr(a, x) {
						split = true
					}
				}
			}
			if split {
				var fs []*Term
				for i := 0; i < s.NumFields(); i++ {
					fa := fieldAddrN(a, typeName(typ)+"."+s.Field(i).Name(), i, types.NewPointer(s.Field(i).Type()))
					fs = append(fs, r.loadT(st, fa, s.Field(i).Type()))
				}
				return mk("struct", typeName(typ), fs...)
			}
		}
	}
	// an element of a freshly appended array
	cls := classOf(a)
	if cls == "C:?" && typ != nil {
		cls = "C:" + typeName(typ)
	}
	for i := len(st.mem) - 1; i >= 0; i-- {
		m := st.mem[i]
		switch m.kind {
		case 'w':
			if m.addr == a {
				return m.val
			}
			if isPrefixAddr(m.addr, a) {
				if v := project(m.val, m.addr, a); v != nil {
					return v
				}
			}
			if m.class == cls && r.mayAlias(m.addr, a) {
				return r.mkLoad(a, typ, m.uniq)
			}
		case 'h':
			if m.classes[cls] || m.classes["ALL"] {
				root := rootTerm(a)
				if root.Op == "alloc" && !r.e.escaped[root] {
					continue
				}
				return r.mkLoad(a, typ, m.uniq)
			}
		case 'a':
			if m.addr == a || isPrefixAddr(m.addr, a) {
				return r.mkLoad(a, typ, m.uniq)
			}
		}
	}
	if v := st.base[a]; v != nil {
		return v
	}
	for x := parentAddr(a); x != nil; x = parentAddr(x) {
		if bv := st.base[x]; bv != nil {
			if v := project(bv, x, a); v != nil {
				return v
			}
		}
	}
	return r.mkLoad(a, typ, st.ver[cls])
}

func (r *runner) mkLoad(a *Term, typ types.Type, ver string) *Term {
	t := mkv("load", "", ver, a)
	if t.T == nil {
		t.T = typ
	}
	return t
}

func (r *runner) store(st *State, a, v *Term, u string) {
	if r := rootTerm(a); !(r.Op == "alloc") {
		v.walk(func(x *Term) bool { return x.Op != "load" })
	}
	root := rootTerm(a)
	if root.Op != "alloc" || r.e.escaped[root] || r.e.shared[root] {
		r.escape(v)
	}
	st.mem = append(st.mem, memEnt{kind: 'w', addr: a, val: v, class: classOf(a), uniq: r.own("w" + u)})
}

func zeroT(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolT(false)
		case u.Info()&types.IsNumeric != 0:
			return intT(0)
		case u.Info()&types.IsString != 0:
			return strT("")
		}
		return nilT()
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroT(u.Field(i).Type()))
		}
		return mk("struct", typeName(t), fs...)
	case *types.Array:
		return mk("zeroarr", typeName(t))
	}
	return nilT()
}

// ---- values -----------------------------------------------------------------

func (r *runner) val(st *State, c *Ctx, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.Type() != nil {
				if _, ok := x.Type().Underlying().(*types.Struct); ok {
					return zeroT(x.Type())
				}
			}
			return nilT()
		}
		if x.Value.Kind() == constant.Complex {
			return mk("const?", x.Value.ExactString())
		}
		if isFloat(x.Type()) {
			if f, ok := constant.Float64Val(constant.ToFloat(x.Value)); ok || true {
				if math.IsInf(f, 0) {
					return mk("const?", x.Value.ExactString())
				}
			}
		}
		return konst(x.Value)
	case *ssa.Global:
		t := mk("global", x.String())
		t.T = x.Type()
		return t
	case *ssa.Function:
		t := mk("func", x.String())
		t.V = x
		return t
	case *ssa.Builtin:
		return mk("builtin", x.Name())
	}
	if t := st.env[vkey{c, v}]; t != nil {
		return t
	}
	// a value that was not carried to this region
	nm := fmt.Sprintf("%s?%d.%d", v.Name(), c.id, r.c.ID)
	r.e.owner["s:unk:"+nm] = r.c
	return sym("unk", nm, v.Type())
}

func noneT() *Term { return mk("none", "") }

// compute evaluates a value-producing instruction; nil means the program stops here.
func (r *runner) compute(st *State, c *Ctx, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Alloc:
		nm := x.Comment
		if nm == "" {
			nm = x.Name()
		}
		t := mk("alloc", fmt.Sprintf("%s#%d.%s", nm, c.id, x.Name()))
		t.T = x.Type()
		if r.e.allocIn == nil {
			r.e.allocIn = map[*Term]*Cut{}
		}
		r.e.allocIn[t] = r.c
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if _, isArr := el.Underlying().(*types.Array); !isArr {
			st.mem = append(st.mem, memEnt{kind: 'w', addr: t, val: zeroT(el), class: classOf(t), uniq: r.own("w" + r.uniq(c, x))})
		}
		return t
	case *ssa.BinOp:
		return r.binop(st, c, x)
	case *ssa.UnOp:
		a := r.val(st, c, x.X)
		switch x.Op {
		case token.MUL:
			t := r.load(st, a, x.X.Type())
			r.e.readBy(t, x, c)
			if t.T == nil {
				t.T = x.Type()
			}
			if r.e.Opt.Loads {
				r.emit(st, &Event{Kind: "load", Addr: a, Val: t, In: x, Ctx: c, Class: r.class(a, x.X)})
			}
			return t
		case token.SUB:
			return negT(a)
		case token.NOT:
			return notT(a)
		case token.ARROW:
			u := r.own("r" + r.uniq(c, x))
			t := mkv("recv", "", u, a)
			r.emit(st, &Event{Kind: "recv", Addr: a, Val: t, In: x, Ctx: c})
			return t
		}
		return mk("unop"+x.Op.String(), "", a)
	case *ssa.ChangeType:
		return r.val(st, c, x.X)
	case *ssa.ChangeInterface:
		return r.val(st, c, x.X)
	case *ssa.Convert:
		a := r.val(st, c, x.X)
		from, to := x.X.Type(), x.Type()
		switch {
		case isInt(from) && (isInt(to) || isFloat(to)), isFloat(from) && isFloat(to):
			if width(to) < width(from) {
				if _, ok := a.intc(); !ok || isFloat(from) {
					return mk("narrow", typeName(to), a)
				}
			}
			return a
		case isFloat(from) && isInt(to):
			if rr, ok := a.rat(); ok && rr.IsInt() {
				return a
			}
			return mk("trunc", "", a)
		}
		return mk("conv", typeName(to), a)
	case *ssa.MakeInterface:
		a := r.val(st, c, x.X)
		t := mk("iface", typeName(x.X.Type()), a)
		t.V = x.X.Type()
		return t
	case *ssa.TypeAssert:
		return r.typeAssert(st, c, x)
	case *ssa.FieldAddr:
		cl, f := fieldClass(x.X.Type(), x.Field)
		return fieldAddrN(r.val(st, c, x.X), cl, x.Field, types.NewPointer(f.Type()))
	case *ssa.Field:
		cl, _ := fieldClass(x.X.Type(), x.Field)
		t := fieldT(r.val(st, c, x.X), cl, x.Field)
		if t.T == nil {
			t.T = x.Type()
		}
		return t
	case *ssa.IndexAddr:
		var el types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Pointer:
			el = u.Elem().Underlying().(*types.Array).Elem()
		}
		return indexAddr(r.val(st, c, x.X), r.val(st, c, x.Index), el)
	case *ssa.Index:
		return mk("index", "", r.val(st, c, x.X), r.val(st, c, x.Index))
	case *ssa.Lookup:
		return r.lookup(st, c, x)
	case *ssa.Slice:
		return r.slice(st, c, x)
	case *ssa.MakeSlice:
		t := mkv("makeslice", typeName(x.Type()), r.own("n"+r.uniq(c, x)), r.val(st, c, x.Len), r.val(st, c, x.Cap))
		t.T = x.Type()
		return t
	case *ssa.MakeMap:
		t := mkv("makemap", typeName(x.Type()), r.own("n"+r.uniq(c, x)))
		if r.e.allocIn == nil {
			r.e.allocIn = map[*Term]*Cut{}
		}
		r.e.allocIn[t] = r.c
		t.T = x.Type()
		return t
	case *ssa.MakeChan:
		t := mkv("makechan", typeName(x.Type()), r.own("n"+r.uniq(c, x)), r.val(st, c, x.Size))
		t.T = x.Type()
		return t
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, r.val(st, c, b))
		}
		t := mk("closure", fn.String(), bs...)
		t.V = fn
		return t
	case *ssa.Extract:
		a := r.val(st, c, x.Tuple)
		if a.Op == "tuple" && x.Index < len(a.Args) {
			return a.Args[x.Index]
		}
		t := mk("extract", strconv.Itoa(x.Index), a)
		if t.T == nil {
			t.T = x.Type()
		}
		return t
	case *ssa.Range:
		t := mkv("range", "", r.own("g"+r.uniq(c, x)), r.val(st, c, x.X))
		t.T = x.X.Type()
		return t
	case *ssa.Next:
		it := r.val(st, c, x.Iter)
		return mkv("next", "", r.own("x"+r.uniq(c, x)), it)
	case *ssa.Select:
		return mkv("select", "", r.own("s"+r.uniq(c, x)))
	case *ssa.SliceToArrayPointer:
		return mk("s2a", "", r.val(st, c, x.X))
	case *ssa.MultiConvert:
		return mk("conv", typeName(x.Type()), r.val(st, c, x.X))
	}
	panic(execErr{fmt.Sprintf("unsupported value %T at %s", v, r.e.P.Pos(v.Pos()))})
}

func (r *runner) binop(st *State, c *Ctx, x *ssa.BinOp) *Term {
	a, b := r.val(st, c, x.X), r.val(st, c, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.ADD:
		if isStr(t) {
			if sa, ok := a.str(); ok {
				if sb, ok := b.str(); ok {
					return strT(sa + sb)
				}
			}
			return mk("concat", "", a, b)
		}
		return addT(a, b)
	case token.SUB:
		return subT(a, b)
	case token.MUL:
		return mulT(a, b)
	case token.QUO:
		if isFloat(t) {
			return divT(a, b)
		}
		if ra, ok := a.intc(); ok {
			if rb, ok := b.intc(); ok && rb != 0 {
				return intT(ra / rb)
			}
		}
		return mk("idiv", "", a, b)
	case token.REM:
		return mk("rem", "", a, b)
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		op := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[x.Op]
		if ra, ok := a.intc(); ok {
			if rb, ok := b.intc(); ok {
				switch x.Op {
				case token.AND:
					return intT(ra & rb)
				case token.OR:
					return intT(ra | rb)
				case token.XOR:
					return intT(ra ^ rb)
				case token.SHL:
					if rb < 40 {
						return intT(ra << uint(rb))
					}
				case token.SHR:
					return intT(ra >> uint(rb))
				}
			}
		}
		if op == "shl" {
			// k<<n for a constant power of two k is 1<<(n+log k)
			if k, ok := a.intc(); ok && k > 1 && k&(k-1) == 0 {
				l := int64(0)
				for k > 1 {
					k >>= 1
					l++
				}
				return mk("shl", "", intT(1), addI(b, l))
			}
		}
		if (op == "and" || op == "or" || op == "xor") && a.ID > b.ID {
			a, b = b, a
		}
		return mk(op, "", a, b)
	case token.EQL:
		return eqT(a, b, t)
	case token.NEQ:
		return notT(eqT(a, b, t))
	case token.LSS:
		return ltT(a, b, t)
	case token.LEQ:
		return leT(a, b, t)
	case token.GTR:
		return ltT(b, a, t)
	case token.GEQ:
		return leT(b, a, t)
	}
	return mk("binop"+x.Op.String(), "", a, b)
}

func (r *runner) typeAssert(st *State, c *Ctx, x *ssa.TypeAssert) *Term {
	a := r.val(st, c, x.X)
	tn := typeName(x.AssertedType)
	isI := types.IsInterface(x.AssertedType)
	var val, ok *Term
	if a.Op == "iface" {
		if dt, k := a.V.(types.Type); k && !types.IsInterface(dt) {
			if isI {
				it, _ := x.AssertedType.Underlying().(*types.Interface)
				if types.Implements(dt, it) {
					val, ok = a, boolT(true)
				} else {
					val, ok = nilT(), boolT(false)
				}
			} else if types.Identical(dt, x.AssertedType) {
				val, ok = a.Args[0], boolT(true)
			} else {
				val, ok = zeroT(x.AssertedType), boolT(false)
			}
		}
	} else if a.Op == "nil" {
		val, ok = zeroT(x.AssertedType), boolT(false)
	}
	if val == nil {
		if isI {
			val = a
		} else {
			val = mk("typeassert", tn, a)
			if val.T == nil {
				val.T = x.AssertedType
			}
		}
		ok = mk("istype", tn, a)
		ok.V = x.AssertedType
	}
	if x.CommaOk {
		return mk("tuple", "", val, ok)
	}
	if ok.isFalse() {
		return nil
	}
	return val
}

func (r *runner) lookup(st *State, c *Ctx, x *ssa.Lookup) *Term {
	m, k := r.val(st, c, x.X), r.val(st, c, x.Index)
	if isStr(x.X.Type()) {
		return mk("index", "", m, k)
	}
	cl := "M:" + typeName(x.X.Type())
	ver := st.ver[cl]
	var hit *Term
	unknown := false
	for i := len(st.mem) - 1; i >= 0 && hit == nil && !unknown; i-- {
		e := st.mem[i]
		switch e.kind {
		case 'm':
			if e.class != cl {
				continue
			}
			if e.addr == m && e.key == k {
				hit = e.val
			} else if e.addr == m && constDiffer(e.key, k) {
				continue
			} else if e.addr != m && !r.mapAlias(e.addr, m) {
				continue
			} else {
				ver, unknown = e.uniq, true
			}
		case 'h':
			if e.classes[cl] || e.classes["ALL"] {
				ver, unknown = e.uniq, true
			}
		}
	}
	if hit != nil {
		if x.CommaOk {
			return mk("tuple", "", hit, boolT(true))
		}
		return hit
	}
	// a literal table: the zero value when no key was stored
	v := mkv("lookup", "", ver, m, k)
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok && v.T == nil {
		v.T = mt.Elem()
	}
	if x.CommaOk {
		return mk("tuple", "", v, mkv("haskey", "", ver, m, k))
	}
	return v
}

func constDiffer(a, b *Term) bool {
	_, oka := a.str()
	_, okb := b.str()
	if oka && okb {
		return a != b
	}
	if ra, ok := a.rat(); ok {
		if rb, ok := b.rat(); ok {
			return ra.Cmp(rb) != 0
		}
	}
	return false
}

func (r *runner) mapAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if fresh(a) || fresh(b) {
		return false
	}
	sa, sb := strip(a), strip(b)
	return !(sa != sb && pathLike(sa) && pathLike(sb))
}

func (r *runner) slice(st *State, c *Ctx, x *ssa.Slice) *Term {
	a := r.val(st, c, x.X)
	lo, hi := noneT(), noneT()
	if x.Low != nil {
		lo = r.val(st, c, x.Low)
		if isZero(lo) {
			lo = noneT()
		}
	}
	if x.High != nil {
		hi = r.val(st, c, x.High)
	}
	return sliceT(a, lo, hi, x.Type())
}

func sliceT(a, lo, hi *Term, typ types.Type) *Term {
	if lo.Op == "none" && hi.Op == "none" && a.Op != "alloc" {
		return a
	}
	if a.Op == "slice" && a.Args[0].Op != "alloc" {
		// x[l:h][lo:hi] is x[l+lo : l+hi]
		l, h := a.Args[1], a.Args[2]
		if l.Op != "none" {
			if lo.Op == "none" {
				lo = l
			} else {
				lo = addT(l, lo)
			}
			if hi.Op != "none" {
				hi = addT(l, hi)
			}
		}
		if hi.Op == "none" {
			hi = h
		}
		a = a.Args[0]
	}
	t := mk("slice", "", a, lo, hi)
	if t.T == nil {
		t.T = typ
	}
	return t
}

func (r *runner) builtin(st *State, c *Ctx, in ssa.CallInstruction, name string, args []*Term) *Term {
	inst := in.(ssa.Instruction)
	switch name {
	case "len":
		if t := in.Common().Args[0].Type(); isMapType(t) {
			cl := "M:" + typeName(t)
			ver := st.ver[cl]
			for i := len(st.mem) - 1; i >= 0; i-- {
				m := st.mem[i]
				if m.kind == 'm' && m.class == cl && (m.addr == args[0] || r.mapAlias(m.addr, args[0])) || m.kind == 'h' && (m.classes[cl] || m.classes["ALL"]) {
					ver = m.uniq
					break
				}
			}
			return mkv("len", "", ver, args[0])
		}
		return lenT(args[0])
	case "cap":
		return mk("cap", "", args[0])
	case "append":
		base := args[0]
		if len(args) < 2 {
			return base
		}
		var t *Term
		if l := r.elems(st, args[1]); l != nil {
			t = mkv("append", "", "", append([]*Term{base}, l...)...)
		} else {
			t = mk("appendall", "", base, args[1])
		}
		if t.T == nil {
			t.T = in.Common().Args[0].Type()
		}
		r.emit(st, &Event{Kind: "append", Addr: base, Val: t, Args: t.Args[1:], In: inst, Ctx: c})
		return t
	case "copy":
		r.emit(st, &Event{Kind: "copy", Addr: args[0], Val: args[1], In: inst, Ctx: c})
		el := "?"
		if s, ok := in.Common().Args[0].Type().Underlying().(*types.Slice); ok {
			el = typeName(s.Elem())
		}
		u := r.own("y" + r.uniq(c, inst))
		st.mem = append(st.mem, memEnt{kind: 'h', classes: effects{"E:" + el: true}, uniq: u})
		st.ver["E:"+el] = u
		return mk("copyn", "", args[0], args[1])
	case "delete":
		r.emit(st, &Event{Kind: "delete", Addr: args[0], Val: args[1], In: inst, Ctx: c, Class: "M:" + typeName(in.Common().Args[0].Type())})
		cl := "M:" + typeName(in.Common().Args[0].Type())
		u := r.own("d" + r.uniq(c, inst))
		st.mem = append(st.mem, memEnt{kind: 'h', classes: effects{cl: true}, uniq: u})
		st.ver[cl] = u
		return mk("tuple", "")
	case "panic":
		return nil
	case "min", "max":
		return mk(name, "", args...)
	}
	r.emit(st, &Event{Kind: "builtin", Name: name, Args: args, In: inst, Ctx: c})
	return mkv("builtin", name, r.own("b"+r.uniq(c, inst)), args...)
}

// ---- library knowledge --------------------------------------------------------

func pureCalls(n string) bool {
	if i := strings.LastIndex(n, "."); i > 0 {
		switch n[:i] {
		case "strings", "strconv", "math", "math/bits", "unicode":
			return true
		}
	}
	switch n {
	case "fmt.Sprintf", "fmt.Sprint", "errors.New", "fmt.Errorf", "Feature.IsMissing", "Feature.GetName", "Feature.NCats", "Feature.Length":
		return true
	case "(*math/big.Int).Bit", "(*math/big.Int).Cmp":
		return false
	}
	return false
}

// foldCall evaluates library calls whose arguments are constants, and canonicalises some others.
func foldCall(n string, args []*Term) *Term {
	s0 := func(i int) (string, bool) {
		if i < len(args) {
			return args[i].str()
		}
		return "", false
	}
	switch n {
	case "(*math/big.Int).Bit":
		return mk("bit01", "", args[0], args[1])
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Title":
		if s, ok := s0(0); ok {
			switch n {
			case "strings.ToLower":
				return strT(strings.ToLower(s))
			case "strings.ToUpper":
				return strT(strings.ToUpper(s))
			case "strings.TrimSpace":
				return strT(strings.TrimSpace(s))
			}
		}
	case "strings.EqualFold", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		a, ok := s0(0)
		b, ok2 := s0(1)
		if ok && ok2 {
			switch n {
			case "strings.EqualFold":
				return boolT(strings.EqualFold(a, b))
			case "strings.HasPrefix":
				return boolT(strings.HasPrefix(a, b))
			case "strings.HasSuffix":
				return boolT(strings.HasSuffix(a, b))
			case "strings.Contains":
				return boolT(strings.Contains(a, b))
			}
		}
	case "strings.Count", "strings.Index":
		a, ok := s0(0)
		b, ok2 := s0(1)
		if ok && ok2 {
			if n == "strings.Count" {
				return intT(int64(strings.Count(a, b)))
			}
			return intT(int64(strings.Index(a, b)))
		}
	case "strconv.ParseFloat":
		if s, ok := s0(0); ok {
			f, err := strconv.ParseFloat(s, 64)
			et := nilT()
			if err != nil {
				et = mk("call", "errors.New", strT("parse"))
			}
			var ft *Term
			switch {
			case math.IsNaN(f):
				ft = mk("nan", "")
			case math.IsInf(f, 1):
				ft = mk("inf", "+")
			case math.IsInf(f, -1):
				ft = mk("inf", "-")
			default:
				ft = konst(constant.MakeFloat64(f))
			}
			return mk("tuple", "", ft, et)
		}
	case "math.IsNaN":
		switch {
		case args[0].Op == "nan":
			return boolT(true)
		case args[0].Op == "inf":
			return boolT(false)
		}
		if _, ok := args[0].rat(); ok {
			return boolT(false)
		}
	case "math.Inf":
		if k, ok := args[0].intc(); ok {
			if k >= 0 {
				return mk("inf", "+")
			}
			return mk("inf", "-")
		}
	case "math.NaN":
		return mk("nan", "")
	}
	return nil
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// readBy notes which instruction read a value.
func (e *Exec) readBy(t *Term, in ssa.Instruction, c *Ctx) {
	if t.Op != "load" {
		return
	}
	if e.reads == nil {
		e.reads = map[*Term]map[ssa.Instruction]*Ctx{}
	}
	if e.reads[t] == nil {
		e.reads[t] = map[ssa.Instruction]*Ctx{}
	}
	e.reads[t][in] = c
}
