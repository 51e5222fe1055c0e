package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modref is a whole-program, summary based analysis of which memory each function writes, in terms of the
// memory its parameters, captured variables and the package variables lead to. Flow-insensitive within a
// function, context-sensitive through the summaries, field-sensitive through access paths:
// ".f" a field, "[]" an element, "[k]" a key, "*" what the pointer at that location refers to, "<>" what was
// sent, "<io>" the stream behind a writer or reader, "…" anything further.

type obj struct {
	site  ssa.Value       // where it is made
	at    ssa.Instruction // the call that made it, nil when made here
	fn    *ssa.Function   // for closures and functions
	nbind int
}

type loc struct {
	root interface{} // *ssa.Parameter, *ssa.FreeVar, *ssa.Global or *obj
	path string
}

type locset map[loc]bool

func (s locset) add(o locset) (ch bool) {
	for l := range o {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return
}

type modKey struct {
	l    loc
	site ssa.Instruction
}

type extKey struct {
	v ssa.Value
	i int
}

type callback struct {
	f    loc
	site ssa.Instruction
}

type msum struct {
	fn   *ssa.Function
	val  map[ssa.Value]locset
	ext  map[extKey]locset
	con  map[loc]locset
	mods map[modKey]bool
	rets []locset
	cbs  map[callback][]locset
	esc  map[*obj]bool
	ch   bool
	coll func(l loc, site ssa.Instruction) // when set, writes are reported instead of recorded
}

type objKey struct {
	site ssa.Value
	at   ssa.Instruction
}

type modref struct {
	p    *Prog
	sum  map[*ssa.Function]*msum
	objs map[objKey]*obj
	list []*ssa.Function
	busy bool
}

func (p *Prog) ModRef() *modref {
	if p.mr != nil {
		return p.mr
	}
	m := &modref{p: p, sum: map[*ssa.Function]*msum{}, objs: map[objKey]*obj{}}
	p.mr = m
	for _, f := range p.Funcs {
		m.summary(f)
	}
	for round := 0; round < 40; round++ {
		ch := false
		for i := 0; i < len(m.list); i++ {
			f := m.list[i]
			s := m.sum[f]
			for n := 0; n < 50; n++ {
				s.ch = false
				m.pass(s)
				if !s.ch {
					break
				}
				ch = true
			}
			s.escape()
		}
		if !ch {
			return m
		}
	}
	panic("the write analysis does not converge")
}

func (m *modref) summary(f *ssa.Function) *msum {
	if s := m.sum[f]; s != nil {
		return s
	}
	if len(f.Blocks) == 0 {
		return nil
	}
	s := &msum{fn: f, val: map[ssa.Value]locset{}, ext: map[extKey]locset{}, con: map[loc]locset{}, mods: map[modKey]bool{}, cbs: map[callback][]locset{}, esc: map[*obj]bool{}}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		s.rets = append(s.rets, locset{})
	}
	m.sum[f] = s
	m.list = append(m.list, f)
	return s
}

func (m *modref) obj(site ssa.Value, at ssa.Instruction) *obj {
	k := objKey{site, at}
	if o := m.objs[k]; o != nil {
		return o
	}
	o := &obj{site: site, at: at}
	switch v := site.(type) {
	case *ssa.MakeClosure:
		o.fn, _ = v.Fn.(*ssa.Function)
		o.nbind = len(v.Bindings)
	case *ssa.Function:
		o.fn = v
	}
	m.objs[k] = o
	return o
}

var hasPtrMemo = map[types.Type]bool{}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	}
	return true
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

const maxSegs = 9

func segs(path string) (out []string) {
	cur := ""
	flush := func() {
		if cur != "" {
			out = append(out, cur)
			cur = ""
		}
	}
	for i, r := range path {
		switch r {
		case '.', '[', '<':
			flush()
			cur = string(r)
		case '*', '…':
			flush()
			out = append(out, string(r))
		default:
			cur += string(r)
		}
		_ = i
	}
	flush()
	return
}

func (l loc) to(seg string) loc {
	if strings.HasSuffix(l.path, "…") {
		return l
	}
	if seg == "*" {
		// a recursive structure folds back to where the same link was first followed
		if i := strings.LastIndexAny(l.path, ".["); i >= 0 && l.path[i] == '.' {
			if j := strings.Index(l.path, l.path[i:]+"*"); j >= 0 {
				return loc{l.root, l.path[:j] + l.path[i:] + "*"}
			}
		}
	}
	if len(segs(l.path)) >= maxSegs {
		return loc{l.root, l.path + "…"}
	}
	return loc{l.root, l.path + seg}
}

func (s *msum) addVal(v ssa.Value, o locset) {
	if len(o) == 0 {
		return
	}
	t := s.val[v]
	if t == nil {
		t = locset{}
		s.val[v] = t
	}
	if t.add(o) {
		s.ch = true
	}
}

func (s *msum) addExt(v ssa.Value, i int, o locset) {
	if len(o) == 0 {
		return
	}
	k := extKey{v, i}
	t := s.ext[k]
	if t == nil {
		t = locset{}
		s.ext[k] = t
	}
	if t.add(o) {
		s.ch = true
	}
}

func (s *msum) addCon(l loc, o locset) {
	if len(o) == 0 {
		return
	}
	t := s.con[l]
	if t == nil {
		t = locset{}
		s.con[l] = t
	}
	for x := range o {
		if x == l.to("*") {
			continue // what it held already
		}
		if !t[x] {
			t[x] = true
			s.ch = true
		}
	}
}

func (s *msum) mod(l loc, site ssa.Instruction) {
	if s.coll != nil {
		s.coll(l, site)
		return
	}
	if _, ok := l.root.(*obj); ok {
		return
	}
	k := modKey{l, site}
	if !s.mods[k] {
		s.mods[k] = true
		s.ch = true
	}
}

// effectOf lists what one instruction writes, in terms of the function's own roots and objects.
func (m *modref) effectOf(f *ssa.Function, in ssa.Instruction) (out []modKey) {
	s := m.summary(f)
	if s == nil {
		return
	}
	seen := map[modKey]bool{}
	s.coll = func(l loc, site ssa.Instruction) {
		k := modKey{l, site}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	m.instr(s, in)
	s.coll = nil
	return
}

// reads lists the locations one instruction reads.
func (m *modref) reads(f *ssa.Function, in ssa.Instruction) locset {
	s := m.summary(f)
	if s == nil {
		return nil
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			return m.of(s, x.X)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return mapSet(m.of(s, x.X), "[]")
		}
	case *ssa.Next:
		if !x.IsString {
			return mapSet(m.of(s, x.Iter), "[]")
		}
	}
	return nil
}

// follow resolves a path from the given locations in s.
func (s *msum) follow(cur locset, path string) locset {
	for _, sg := range segs(path) {
		next := locset{}
		for x := range cur {
			switch sg {
			case "*":
				next.add(s.content(x))
			case "…":
				s.reach(x, next)
			default:
				next[x.to(sg)] = true
			}
		}
		cur = next
	}
	return cur
}

// content is what the location may refer to.
func (s *msum) content(l loc) locset {
	out := locset{}
	for x := range s.con[l] {
		out[x] = true
	}
	if _, ok := l.root.(*obj); !ok {
		out[l.to("*")] = true
	}
	if strings.HasSuffix(l.path, "…") {
		out[l] = true
	}
	return out
}

// valueAt is the value of type t held at the location: aggregates stand for the location they were read from.
func (s *msum) valueAt(l loc, t types.Type) locset {
	if !hasPtr(t) {
		return nil
	}
	if isAggregate(t) {
		return locset{l: true}
	}
	return s.content(l)
}

func leafPaths(t types.Type, pre string, depth int, out *[]string) {
	if !hasPtr(t) || depth > 4 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leafPaths(u.Field(i).Type(), pre+"."+u.Field(i).Name(), depth+1, out)
		}
		return
	case *types.Array:
		leafPaths(u.Elem(), pre+"[]", depth+1, out)
		return
	}
	*out = append(*out, pre)
}

// put stores a value of type t at the location.
func (s *msum) put(l loc, v locset, t types.Type) {
	if !hasPtr(t) {
		return
	}
	if !isAggregate(t) {
		s.addCon(l, v)
		return
	}
	var ps []string
	leafPaths(t, "", 0, &ps)
	for src := range v {
		if src == l {
			continue
		}
		for _, p := range ps {
			a, b := l, src
			for _, sg := range segs(p) {
				a, b = a.to(sg), b.to(sg)
			}
			s.addCon(a, s.content(b))
		}
	}
}

func (m *modref) of(s *msum, v ssa.Value) locset {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		if hasPtr(v.Type()) {
			return locset{loc{x, ""}: true}
		}
		return nil
	case *ssa.Function:
		return locset{loc{m.obj(x, nil), ""}: true}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		return locset{loc{m.obj(x, nil), ""}: true}
	}
	return s.val[v]
}

func mapSet(o locset, seg string) locset {
	r := locset{}
	for l := range o {
		r[l.to(seg)] = true
	}
	return r
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return types.Typ[types.Int]
}

func (m *modref) pass(s *msum) {
	for _, b := range s.fn.Blocks {
		for _, in := range b.Instrs {
			m.instr(s, in)
		}
	}
}

func (m *modref) instr(s *msum, in ssa.Instruction) {
	valAll := func(o locset, t types.Type) locset {
		r := locset{}
		for l := range o {
			r.add(s.valueAt(l, t))
		}
		return r
	}
	switch x := in.(type) {
	case *ssa.FieldAddr:
		st, _ := structOf(x.X.Type())
		s.addVal(x, mapSet(m.of(s, x.X), "."+st.Field(x.Field).Name()))
	case *ssa.Field:
		st, _ := structOf(x.X.Type())
		s.addVal(x, valAll(mapSet(m.of(s, x.X), "."+st.Field(x.Field).Name()), x.Type()))
	case *ssa.IndexAddr:
		s.addVal(x, mapSet(m.of(s, x.X), "[]"))
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
			s.addVal(x, valAll(mapSet(m.of(s, x.X), "[]"), x.Type()))
		}
	case *ssa.Lookup:
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		v := valAll(mapSet(m.of(s, x.X), "[]"), mt.Elem())
		if x.CommaOk {
			s.addExt(x, 0, v)
		} else {
			s.addVal(x, v)
		}
	case *ssa.Range:
		s.addVal(x, m.of(s, x.X))
	case *ssa.Next:
		if x.IsString {
			return
		}
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		s.addExt(x, 1, valAll(mapSet(m.of(s, x.Iter), "[k]"), mt.Key()))
		s.addExt(x, 2, valAll(mapSet(m.of(s, x.Iter), "[]"), mt.Elem()))
	case *ssa.Extract:
		if hasPtr(x.Type()) {
			s.addVal(x, s.ext[extKey{x.Tuple, x.Index}])
		}
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*":
			s.addVal(x, valAll(m.of(s, x.X), x.Type()))
		case "<-":
			v := valAll(mapSet(m.of(s, x.X), "<>"), elemType(x.X.Type()))
			if x.CommaOk {
				s.addExt(x, 0, v)
			} else {
				s.addVal(x, v)
			}
		}
	case *ssa.Phi:
		if hasPtr(x.Type()) {
			for _, e := range x.Edges {
				s.addVal(x, m.of(s, e))
			}
		}
	case *ssa.ChangeType:
		s.addVal(x, m.of(s, x.X))
	case *ssa.ChangeInterface:
		s.addVal(x, m.of(s, x.X))
	case *ssa.MakeInterface:
		if hasPtr(x.X.Type()) {
			s.addVal(x, m.of(s, x.X))
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			s.addExt(x, 0, m.of(s, x.X))
		} else if hasPtr(x.Type()) {
			s.addVal(x, m.of(s, x.X))
		}
	case *ssa.Slice:
		if hasPtr(x.Type()) {
			s.addVal(x, m.of(s, x.X))
		}
	case *ssa.Convert:
		if hasPtr(x.Type()) {
			s.addVal(x, locset{loc{m.obj(x, nil), ""}: true})
		}
	case *ssa.MakeClosure:
		o := m.obj(x, nil)
		for i, b := range x.Bindings {
			s.addCon(loc{o, ""}.to(bindSeg(i)), m.of(s, b))
		}
	case *ssa.Store:
		v := m.of(s, x.Val)
		for l := range m.of(s, x.Addr) {
			s.mod(l, in)
			s.put(l, v, x.Val.Type())
		}
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		for l := range m.of(s, x.Map) {
			s.mod(l.to("[]"), in)
			s.put(l.to("[]"), m.of(s, x.Value), mt.Elem())
			s.put(l.to("[k]"), m.of(s, x.Key), mt.Key())
		}
	case *ssa.Send:
		for l := range m.of(s, x.Chan) {
			s.put(l.to("<>"), m.of(s, x.X), x.X.Type())
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if hasPtr(r.Type()) && s.rets[i].add(m.of(s, r)) {
				s.ch = true
			}
		}
	case ssa.CallInstruction:
		m.call(s, x)
	}
}

func bindSeg(i int) string { return ".bind" + string(rune('a'+i/26)) + string(rune('a'+i%26)) }

func (m *modref) call(s *msum, in ssa.CallInstruction) {
	c := in.Common()
	v, _ := in.(ssa.Value)
	var args []locset
	if c.IsInvoke() {
		args = append(args, m.of(s, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, m.of(s, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		switch b.Name() {
		case "append":
			et := elemType(c.Args[0].Type())
			fresh := loc{m.obj(v, nil), ""}
			for l := range args[0] {
				s.mod(l.to("[]"), in)
			}
			r := locset{fresh: true}
			r.add(args[0])
			if hasPtr(et) {
				for l := range r {
					for src := range args[1] {
						s.put(l.to("[]"), s.valueAt(src.to("[]"), et), et)
					}
				}
				for src := range args[0] {
					s.put(fresh.to("[]"), s.valueAt(src.to("[]"), et), et)
				}
			}
			s.addVal(v, r)
		case "copy":
			et := elemType(c.Args[0].Type())
			for l := range args[0] {
				s.mod(l.to("[]"), in)
				if hasPtr(et) && len(args) > 1 {
					for src := range args[1] {
						s.put(l.to("[]"), s.valueAt(src.to("[]"), et), et)
					}
				}
			}
		case "delete", "clear":
			for l := range args[0] {
				s.mod(l.to("[]"), in)
			}
		}
		return
	}
	if c.IsInvoke() {
		for _, g := range m.p.Impls(c.Value.Type(), c.Method) {
			if gs := m.summary(g); gs != nil {
				m.apply(s, gs, args, nil, in, v)
			}
		}
		switch c.Method.Name() {
		case "Write", "WriteString", "Read", "Close", "Flush":
			if pk := c.Method.Pkg(); pk == nil || !strings.HasPrefix(pk.Path(), RepoPath) {
				for l := range args[0] {
					s.mod(l.to("<io>"), in)
				}
			}
		}
		return
	}
	if f := c.StaticCallee(); f != nil && c.Value == ssa.Value(f) {
		m.static(s, f, args, in, v, c)
		return
	}
	for l := range m.of(s, c.Value) {
		m.callLoc(s, l, args, in, v)
	}
}

// callLoc calls the function value that is the object at l.
func (m *modref) callLoc(s *msum, l loc, args []locset, in ssa.Instruction, v ssa.Value) {
	o, ok := l.root.(*obj)
	if ok {
		if o.fn == nil || l.path != "" {
			return
		}
		gs := m.summary(o.fn)
		if gs == nil {
			return
		}
		var bind []locset
		for i := 0; i < o.nbind; i++ {
			bind = append(bind, s.content(l.to(bindSeg(i))))
		}
		m.apply(s, gs, args, bind, in, v)
		return
	}
	k := callback{l, in}
	cur := s.cbs[k]
	if cur == nil {
		cur = make([]locset, len(args))
		for i := range cur {
			cur[i] = locset{}
		}
		s.cbs[k] = cur
		s.ch = true
	}
	for i := range args {
		if i < len(cur) && cur[i].add(args[i]) {
			s.ch = true
		}
	}
}

var readOnlyBig = map[string]bool{"Bit": true, "Cmp": true, "Int64": true, "Uint64": true, "BitLen": true, "Sign": true, "String": true, "Bytes": true, "Text": true, "IsInt64": true, "CmpAbs": true, "ProbablyPrime": true, "TrailingZeroBits": true}

func (m *modref) static(s *msum, f *ssa.Function, args []locset, in ssa.CallInstruction, v ssa.Value, c *ssa.CallCommon) {
	if fnInRepo(f) || len(f.Blocks) > 0 {
		if gs := m.summary(f); gs != nil {
			m.apply(s, gs, args, nil, in, v)
		}
		return
	}
	name := fnName(f)
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	mod := func(o locset, seg string) {
		for l := range o {
			s.mod(l.to(seg), in)
		}
	}
	isMethod := f.Signature.Recv() != nil
	switch {
	case pkg == "sync" || pkg == "sync/atomic" || pkg == "flag" || pkg == "time" || pkg == "runtime" || pkg == "log":
	case name == "sort.Sort" || name == "sort.Stable":
		it := f.Signature.Params().At(0).Type()
		ifc := it.Underlying().(*types.Interface)
		for i := 0; i < ifc.NumMethods(); i++ {
			for _, g := range m.p.Impls(it, ifc.Method(i)) {
				if gs := m.summary(g); gs != nil {
					m.apply(s, gs, []locset{args[0], nil, nil}, nil, in, nil)
				}
			}
		}
	case pkg == "sort" || pkg == "slices":
		if mutatesArgs[name] {
			mod(args[0], "[]")
		}
	case pkg == "fmt" && strings.HasPrefix(f.Name(), "Fprint"), name == "io.WriteString", name == "io.Copy", name == "io.CopyN":
		mod(args[0], "<io>")
	case pkg == "encoding/json" && f.Name() == "Unmarshal":
		for l := range args[1] {
			s.mod(l.to("…"), in)
		}
	case pkg == "math/big":
		if isMethod && !readOnlyBig[f.Name()] {
			for l := range args[0] {
				s.mod(l, in)
			}
		}
		if v != nil && hasPtr(v.Type()) {
			r := locset{loc{m.obj(v, nil), ""}: true}
			if isMethod {
				r = args[0]
			}
			s.addVal(v, r)
		}
		return
	case isMethod && len(args) > 0:
		if _, ptr := f.Signature.Recv().Type().(*types.Pointer); ptr {
			mod(args[0], "<io>")
		}
	}
	// closures given to a library function are called by it
	for i, a := range args {
		_ = i
		for l := range a {
			if o, ok := l.root.(*obj); ok && o.fn != nil && l.path == "" {
				m.callLoc(s, l, nil, in, nil)
			}
		}
	}
	if v == nil {
		return
	}
	r := locset{loc{m.obj(v, nil), ""}: true}
	if strings.HasPrefix(f.Name(), "New") || pkg == "io" || pkg == "bufio" {
		for _, a := range args {
			r.add(a)
		}
	}
	if tp, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			if hasPtr(tp.At(i).Type()) && !isError(tp.At(i).Type()) {
				s.addExt(v, i, r)
			}
		}
	} else if hasPtr(v.Type()) && !isError(v.Type()) {
		s.addVal(v, r)
	}
}

func isError(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func (m *modref) apply(s, g *msum, args, bind []locset, in ssa.Instruction, v ssa.Value) {
	memo := map[loc]locset{}
	var res func(l loc) locset
	res = func(l loc) locset {
		if r, ok := memo[l]; ok {
			return r
		}
		var cur locset
		switch r := l.root.(type) {
		case *ssa.Parameter:
			for i, q := range g.fn.Params {
				if q == r && i < len(args) {
					cur = args[i]
				}
			}
		case *ssa.FreeVar:
			for i, q := range g.fn.FreeVars {
				if q == r && i < len(bind) {
					cur = bind[i]
				}
			}
		case *ssa.Global:
			cur = locset{loc{r, ""}: true}
		case *obj:
			if r.fn != nil && r.nbind == 0 {
				cur = locset{loc{r, ""}: true}
			} else {
				cur = locset{loc{m.obj(r.site, in), ""}: true}
			}
		}
		cur = s.follow(cur, l.path)
		memo[l] = cur
		return cur
	}
	resAll := func(o locset) locset {
		r := locset{}
		for l := range o {
			r.add(res(l))
		}
		return r
	}
	for k := range g.mods {
		for l := range res(k.l) {
			s.mod(l, k.site)
		}
	}
	for l, set := range g.con {
		if o, ok := l.root.(*obj); ok && !g.esc[o] {
			continue
		}
		vs := resAll(set)
		for t := range res(l) {
			s.addCon(t, vs)
		}
	}
	if v != nil {
		if len(g.rets) == 1 {
			s.addVal(v, resAll(g.rets[0]))
		} else {
			for i, r := range g.rets {
				s.addExt(v, i, resAll(r))
			}
		}
	}
	for k, as := range g.cbs {
		var mapped []locset
		for _, a := range as {
			mapped = append(mapped, resAll(a))
		}
		for l := range res(k.f) {
			m.callLoc(s, l, mapped, k.site, nil)
		}
	}
}

// reach adds everything that can be reached from x.
func (s *msum) reach(x loc, out locset) {
	if out[x] {
		return
	}
	if _, ok := x.root.(*obj); !ok {
		if strings.HasSuffix(x.path, "…") {
			out[x] = true
		} else {
			out[loc{x.root, x.path + "…"}] = true
		}
	}
	out[x] = true
	for l, set := range s.con {
		if l.root == x.root && strings.HasPrefix(l.path, strings.TrimSuffix(x.path, "…")) {
			for y := range set {
				s.reach(y, out)
			}
		}
	}
}

// escape marks the objects made here that outlive the call.
func (s *msum) escape() {
	var visit func(l loc)
	seen := map[loc]bool{}
	visit = func(l loc) {
		if seen[l] {
			return
		}
		seen[l] = true
		o, ok := l.root.(*obj)
		if !ok {
			return
		}
		if !s.esc[o] {
			s.esc[o] = true
		}
		for k, set := range s.con {
			if k.root == l.root {
				for y := range set {
					visit(y)
				}
			}
		}
	}
	for _, r := range s.rets {
		for l := range r {
			visit(l)
		}
	}
	for l, set := range s.con {
		if _, ok := l.root.(*obj); !ok {
			for y := range set {
				visit(y)
			}
		}
	}
	for _, as := range s.cbs {
		for _, a := range as {
			for l := range a {
				visit(l)
			}
		}
	}
}

func rootName(r interface{}) string {
	switch r := r.(type) {
	case *ssa.Parameter:
		return r.Name()
	case *ssa.FreeVar:
		return "free:" + r.Name()
	case *ssa.Global:
		return r.Name()
	case *obj:
		return "obj"
	}
	return "?"
}

func (l loc) String() string { return rootName(l.root) + l.path }

func (m *modref) dump(f *ssa.Function) (out []string) {
	s := m.sum[f]
	if s == nil {
		return
	}
	for k := range s.mods {
		out = append(out, k.l.String()+"   "+m.p.Pos(instrPos(k.site))+" "+FuncName(k.site.Parent()))
	}
	for k := range s.cbs {
		out = append(out, "callback "+k.f.String())
	}
	sort.Strings(out)
	return
}
