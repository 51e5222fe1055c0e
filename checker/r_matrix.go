package main

import (
	"strings"
)

// ---- C37: matrices are written and read cell for cell ------------------------------------------------------
//
// What a function writes is put together as a grammar: text, values, lists joined by a separator, and, for
// every loop, what its turns write. The grammar is then taken apart into lines and fields and compared with
// the layout of the format.

// wrote is a part of what is written.
type wrote struct {
	lit   string
	val   *Term
	sep   string // of a joined list or a record
	items []wfield
	isRow bool // a record handed to a csv writer
	list  bool
	k     *Cut // a loop and what its turns write
	turns []wayOf
}

// wayOf is one way of going on from somewhere.
type wayOf struct {
	parts []wrote
	facts []*Term
	end   *Path
}

// wfield is a field of a line, or those that the turns of a loop add.
type wfield struct {
	ps    []piece
	k     *Cut
	turns []wturn
}

type wturn struct {
	fields []wfield
	lines  []wline
	facts  []*Term
}

// wline is a line, or those that the turns of a loop write.
type wline struct {
	fields []wfield
	k      *Cut
	turns  []wturn
}

type matrixIO struct {
	c     *Check
	e     *Exec
	key   string
	isW   func(*Term) bool
	isCsv func(*Term) bool
	comma string
	why   string
	steps int
}

func (x *matrixIO) stop(why string) {
	if x.why == "" {
		x.why = why
	}
}

func substT(sub map[*Term]*Term, t *Term) *Term {
	if t == nil || len(sub) == 0 {
		return t
	}
	return rewrite(t, func(y *Term) *Term { return sub[y] })
}

// fails: the path ends with an error.
func (p *Path) fails() bool {
	if p.End == "panic" || p.End == "exit" {
		return true
	}
	if p.End != "return" || p.To != nil || len(p.Ret) == 0 {
		return false
	}
	r := p.Ret[len(p.Ret)-1]
	if !isErrType(r) && len(isCall(r, "Errorf")) == 0 && len(isCall(r, "New")) == 0 {
		return false
	}
	return decide(p.All(), isnil(r)) == 0 || len(isCall(unwrapped(r), "Errorf")) > 0 || len(isCall(unwrapped(r), "New")) > 0
}

func isErrType(t *Term) bool {
	return t != nil && (t.T == nil || t.T.String() == "error")
}

// flow lists what can be written from cut d on, up to the end of the function or of a turn of the loop stop.
func (x *matrixIO) flow(d, stop *Cut, pre wayOf, sub map[*Term]*Term, depth int) (out []wayOf) {
	x.steps++
	if depth > 24 || x.steps > 3000 {
		x.stop("undecided: what is written is put together in too many ways")
		return
	}
	for _, p := range d.Paths {
		if p.fails() {
			continue
		}
		w := wayOf{parts: append([]wrote{}, pre.parts...), facts: append([]*Term{}, pre.facts...), end: p}
		for _, g := range p.All() {
			w.facts = append(w.facts, substT(sub, g))
		}
		for _, ev := range p.Events {
			w.parts = append(w.parts, x.parts(ev, sub)...)
		}
		switch {
		case p.To == nil:
			if stop == nil {
				out = append(out, w)
			}
			// else: the function is left from within the loop
		case p.To == stop:
			out = append(out, w)
		case stop != nil && !x.e.members(stop)[p.To]:
			// the loop is left
		case p.To.Loop:
			k := p.To
			turns := x.flow(k, k, wayOf{}, sub, depth+1)
			writes := false
			for _, t := range turns {
				writes = writes || len(t.parts) > 0
			}
			if writes {
				w.parts = append(w.parts, wrote{k: k, turns: turns})
			}
			out = append(out, x.leave(k, stop, w, sub, depth+1)...)
		default:
			s := map[*Term]*Term{}
			for a, b := range sub {
				s[a] = b
			}
			for a, b := range p.Phi {
				s[a] = substT(sub, b)
			}
			out = append(out, x.flow(p.To, stop, w, s, depth+1)...)
		}
	}
	return
}

// leave goes on behind the loop at k.
func (x *matrixIO) leave(k, stop *Cut, pre wayOf, sub map[*Term]*Term, depth int) (out []wayOf) {
	x.steps++
	if depth > 24 || x.steps > 3000 {
		x.stop("undecided: what is written is put together in too many ways")
		return
	}
	m := x.e.members(k)
	for _, p := range x.e.leaving(k) {
		if p.fails() {
			continue
		}
		if p.From != k {
			x.stop("a loop can be left in the middle of a turn")
			continue
		}
		w := wayOf{parts: append([]wrote{}, pre.parts...), facts: append([]*Term{}, pre.facts...), end: p}
		for _, g := range p.All() {
			w.facts = append(w.facts, substT(sub, g))
		}
		for _, ev := range p.Events {
			w.parts = append(w.parts, x.parts(ev, sub)...)
		}
		switch {
		case p.To == nil:
			if stop == nil {
				out = append(out, w)
			}
		case p.To == stop:
			out = append(out, w)
		case stop != nil && !x.e.members(stop)[p.To]:
		case p.To.Loop && !m[p.To]:
			turns := x.flow(p.To, p.To, wayOf{}, sub, depth+1)
			writes := false
			for _, t := range turns {
				writes = writes || len(t.parts) > 0
			}
			if writes {
				w.parts = append(w.parts, wrote{k: p.To, turns: turns})
			}
			out = append(out, x.leave(p.To, stop, w, sub, depth+1)...)
		default:
			s := map[*Term]*Term{}
			for a, b := range sub {
				s[a] = b
			}
			for a, b := range p.Phi {
				s[a] = substT(sub, b)
			}
			out = append(out, x.flow(p.To, stop, w, s, depth+1)...)
		}
	}
	return
}

// parts is what one call writes.
func (x *matrixIO) parts(ev *Event, sub map[*Term]*Term) (out []wrote) {
	if ev.Kind != "call" || len(ev.Args) == 0 {
		return
	}
	if x.isCsv != nil && x.isCsv(ev.Args[0]) {
		switch {
		case strings.HasSuffix(ev.Name, ").Write") && len(ev.Args) == 2:
			alts, why := x.fieldsOf(ev.Args[1], 0)
			if why != "" {
				x.stop(why)
			}
			if len(alts) == 1 {
				return []wrote{{isRow: true, items: substFields(sub, alts[0].fields)}}
			}
			return []wrote{{isRow: true, k: nil, turns: rowAlts(sub, alts)}}
		case strings.HasSuffix(ev.Name, ".Flush"), strings.HasSuffix(ev.Name, ".Error"):
			return
		}
		x.stop("undecided: what " + ev.Name + " writes")
		return
	}
	if len(ev.Args) < 2 || !x.isW(ev.Args[0]) {
		return
	}
	q := &Path{Events: []*Event{ev}}
	ps, n, why := q.written(x.isW)
	if n == 0 {
		return
	}
	if why != "" {
		x.stop(why)
	}
	for _, p := range ps {
		switch {
		case p.val == nil:
			out = append(out, wrote{lit: p.lit})
		default:
			if a := isCall(p.val, "Join"); len(a) == 2 {
				if s, ok := a[1].str(); ok {
					if alts, why := x.fieldsOf(a[0], 0); why == "" && len(alts) > 0 {
						w := wrote{sep: s, list: true}
						if len(alts) == 1 {
							w.items = substFields(sub, alts[0].fields)
						} else {
							w.turns = rowAlts(sub, alts)
						}
						out = append(out, w)
						continue
					}
				}
			}
			out = append(out, wrote{val: substT(sub, p.val)})
		}
	}
	return
}

func rowAlts(sub map[*Term]*Term, alts []wturn) (out []wayOf) {
	for _, a := range alts {
		out = append(out, wayOf{parts: []wrote{{isRow: true, items: substFields(sub, a.fields)}}, facts: a.facts})
	}
	return
}

func substFields(sub map[*Term]*Term, fs []wfield) (out []wfield) {
	if len(sub) == 0 {
		return fs
	}
	for _, f := range fs {
		g := wfield{k: f.k}
		for _, p := range f.ps {
			if p.val != nil {
				p.val = substT(sub, p.val)
			}
			g.ps = append(g.ps, p)
		}
		for _, t := range f.turns {
			u := wturn{fields: substFields(sub, t.fields)}
			for _, y := range t.facts {
				u.facts = append(u.facts, substT(sub, y))
			}
			g.turns = append(g.turns, u)
		}
		out = append(out, g)
	}
	return
}

// fieldsOf lists the elements of a list of texts, for every way it can have been put together.
func (x *matrixIO) fieldsOf(l *Term, depth int) (out []wturn, why string) {
	e := x.e
	if depth > 8 {
		return nil, "undecided: how " + l.String() + " is put together"
	}
	text := func(t *Term) (wfield, string) {
		ps, why := pieces(t)
		return wfield{ps: ps}, why
	}
	switch {
	case emptyList(l):
		return []wturn{{}}, ""
	case l.Op == "list":
		w := wturn{}
		for _, a := range l.Args {
			f, why := text(a)
			if why != "" {
				return nil, why
			}
			w.fields = append(w.fields, f)
		}
		return []wturn{w}, ""
	case l.Op == "append":
		base, why := x.fieldsOf(l.Args[0], depth+1)
		if why != "" {
			return nil, why
		}
		for _, b := range base {
			w := wturn{fields: append([]wfield{}, b.fields...), facts: b.facts}
			for _, a := range l.Args[1:] {
				f, why := text(a)
				if why != "" {
					return nil, why
				}
				w.fields = append(w.fields, f)
			}
			out = append(out, w)
		}
		return out, ""
	case l.Op == "appendall" && len(l.Args) == 2:
		base, why := x.fieldsOf(l.Args[0], depth+1)
		if why != "" {
			return nil, why
		}
		more, why := x.fieldsOf(l.Args[1], depth+1)
		if why != "" {
			return nil, why
		}
		for _, b := range base {
			for _, m := range more {
				out = append(out, wturn{fields: append(append([]wfield{}, b.fields...), m.fields...), facts: append(append([]*Term{}, b.facts...), m.facts...)})
			}
		}
		return out, ""
	case l.Op == "sym":
		k := e.phiCut(l)
		if k == nil {
			break
		}
		if !k.Loop {
			bad := ""
			e.each(func(cu *Cut, p *Path) {
				if p.To == k && bad == "" {
					alts, w := x.fieldsOf(p.next(l), depth+1)
					bad = w
					for _, a := range alts {
						a.facts = append(append([]*Term{}, a.facts...), p.All()...)
						out = append(out, a)
					}
				}
			})
			return out, bad
		}
		turns, ok := e.turns(k)
		if !ok {
			// inner loops may not touch the list
			_, turns = e.into(k)
			for _, p := range turns {
				if v := e.plain(p.next(l)); v != l {
					return nil, "undecided: how " + l.String() + " is put together"
				}
			}
			turns = nil
		}
		rep := wfield{k: k}
		added := false
		for _, p := range turns {
			n := p.next(l)
			w := wturn{facts: p.All()}
			for n != l {
				if n.Op != "append" {
					return nil, "undecided: a turn makes the list " + n.String()
				}
				var fs []wfield
				for _, a := range n.Args[1:] {
					f, why := text(a)
					if why != "" {
						return nil, why
					}
					fs = append(fs, f)
				}
				w.fields = append(fs, w.fields...)
				n = n.Args[0]
				added = true
			}
			rep.turns = append(rep.turns, w)
		}
		enter, _ := e.into(k)
		seen := map[*Term]bool{}
		for _, p := range enter {
			v := p.next(l)
			if seen[v] {
				continue
			}
			seen[v] = true
			alts, why := x.fieldsOf(v, depth+1)
			if why != "" {
				return nil, why
			}
			for _, a := range alts {
				w := wturn{fields: append([]wfield{}, a.fields...), facts: append([]*Term{}, a.facts...)}
				// what all ways of getting this start with have in common
				var common []*Term
				for _, g := range p.All() {
					every := true
					for _, q := range enter {
						if q.next(l) == v && decide(q.All(), g) != 1 {
							every = false
						}
					}
					if every {
						common = append(common, g)
					}
				}
				w.facts = append(w.facts, common...)
				if added {
					w.fields = append(w.fields, rep)
				}
				out = append(out, w)
			}
		}
		return out, ""
	case l.Op == "makeslice" || l.Op == "alloc" || l.Op == "slice" && l.Args[0].Op == "alloc":
		return x.filled(l)
	}
	return nil, "undecided: how " + l.String() + " is put together"
}

// filled: a list of full length whose elements are assigned.
func (x *matrixIO) filled(l *Term) ([]wturn, string) {
	e := x.e
	und := "undecided: how " + l.String() + " is filled"
	fixed := map[int64]*Term{}
	var k *Cut
	var at *Term
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			arr, i := addrElem(ev.Addr)
			if arr == nil || !sameLoc(arr, l) {
				continue
			}
			if n, ok := i.intc(); ok {
				if _, had := fixed[n]; had && fixed[n] != ev.Val {
					und += " (element stored twice)"
					k, at = nil, nil
					fixed[-1] = nil
				}
				fixed[n] = ev.Val
				continue
			}
			c := e.loopOf(ev)
			if c == nil || k != nil && (c != k || at != i) {
				fixed[-1] = nil
			}
			k, at = c, i
		}
	})
	if _, bad := fixed[-1]; bad || k == nil {
		return nil, und
	}
	m := int64(len(fixed))
	w := wturn{}
	for n := int64(0); n < m; n++ {
		v, ok := fixed[n]
		if !ok {
			return nil, und
		}
		ps, why := pieces(v)
		if why != "" {
			return nil, why
		}
		w.fields = append(w.fields, wfield{ps: ps})
	}
	idx := addI(at, -m)
	n := addI(lenT(l), -m)
	if why := e.counts(k, idx, n); why != "" {
		return nil, und + ": " + why
	}
	turns, ok := e.turns(k)
	if !ok {
		return nil, und
	}
	rep := wfield{k: k}
	for _, p := range turns {
		var v *Term
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				if arr, i := addrElem(ev.Addr); arr != nil && sameLoc(arr, l) && i == at {
					v = ev.Val
				}
			}
		}
		if v == nil {
			return nil, und
		}
		ps, why := pieces(v)
		if why != "" {
			return nil, why
		}
		rep.turns = append(rep.turns, wturn{fields: []wfield{{ps: ps}}, facts: p.All()})
	}
	w.fields = append(w.fields, rep)
	return []wturn{w}, ""
}

// contradict: the conditions exclude one another.
func contradict(facts []*Term) bool {
	for _, g := range facts {
		if decide(facts, notT(g)) == 1 {
			return true
		}
	}
	return false
}

// linesOf takes what is written apart into lines of fields, for every way of writing it.
func (x *matrixIO) linesOf(parts []wrote, facts []*Term, sep string) []wturn {
	type state struct {
		lines  []wline
		fields []wfield
		cur    []piece
		full   bool // the last field is complete
		begun  bool
		facts  []*Term
	}
	sts := []*state{{facts: facts}}
	clone := func(s *state) *state {
		n := *s
		n.lines = append([]wline{}, s.lines...)
		n.fields = append([]wfield{}, s.fields...)
		n.cur = append([]piece{}, s.cur...)
		n.facts = append([]*Term{}, s.facts...)
		return &n
	}
	endField := func(s *state) {
		if !s.full {
			s.fields = append(s.fields, wfield{ps: s.cur})
		}
		s.cur, s.full = nil, false
	}
	put := func(s *state, p piece) {
		if s.full {
			x.stop("two values of a line are not separated")
		}
		s.begun = true
		s.cur = append(s.cur, p)
	}
	lit := func(s *state, l string) {
		for l != "" {
			i := strings.IndexAny(l, sep+"\n")
			if i < 0 {
				put(s, piece{lit: l})
				return
			}
			if i > 0 {
				put(s, piece{lit: l[:i]})
			}
			if l[i] == '\n' {
				if s.begun {
					endField(s)
				}
				s.lines = append(s.lines, wline{fields: s.fields})
				s.fields, s.cur, s.full, s.begun = nil, nil, false, false
			} else {
				s.begun = true
				endField(s)
			}
			l = l[i+1:]
		}
	}
	var startsWithSep func(w wayOf) (bool, bool)
	startsWithSep = func(w wayOf) (cell, line bool) {
		if len(w.parts) == 0 {
			return true, false
		}
		cell = strings.HasPrefix(w.parts[0].lit, sep)
		for _, p := range w.parts {
			if strings.Contains(p.lit, "\n") || p.isRow {
				cell, line = false, true
			}
			for _, t := range p.turns {
				if _, l := startsWithSep(t); l {
					cell, line = false, true
				}
			}
		}
		return
	}
	for _, p := range parts {
		next := []*state{}
		for _, s := range sts {
			switch {
			case p.isRow || p.list:
				alts := []wturn{{fields: p.items}}
				if p.turns != nil {
					alts = nil
					for _, t := range p.turns {
						alts = append(alts, wturn{fields: t.parts[0].items, facts: t.facts})
					}
				}
				for _, a := range alts {
					n := clone(s)
					n.facts = append(n.facts, a.facts...)
					if contradict(n.facts) {
						continue
					}
					if n.full || len(n.cur) > 0 || p.isRow && n.begun {
						x.stop("two values of a line are not separated")
					}
					if p.list && p.sep != sep {
						x.stop("the values of a line are separated by \"" + p.sep + "\"")
					}
					if p.isRow {
						n.lines = append(n.lines, wline{fields: a.fields})
					} else {
						n.fields = append(n.fields, a.fields...)
						n.full, n.begun = true, true
					}
					next = append(next, n)
				}
			case p.k != nil:
				cell, line := true, false
				for _, t := range p.turns {
					a, b := startsWithSep(t)
					cell = cell && a
					line = line || b
				}
				rep := wline{k: p.k}
				frep := wfield{k: p.k}
				for _, t := range p.turns {
					if line {
						for _, a := range x.linesOf(t.parts, t.facts, sep) {
							rep.turns = append(rep.turns, a)
						}
						continue
					}
					if len(t.parts) == 0 {
						frep.turns = append(frep.turns, wturn{facts: t.facts})
						continue
					}
					ps := append([]wrote{{lit: strings.TrimPrefix(t.parts[0].lit, sep)}}, t.parts[1:]...)
					ps = append(ps, wrote{lit: "\n"})
					for _, a := range x.linesOf(ps, t.facts, sep) {
						if len(a.lines) != 1 {
							x.stop("undecided: what a turn adds to a line")
							continue
						}
						frep.turns = append(frep.turns, wturn{fields: a.lines[0].fields, facts: a.facts})
					}
				}
				n := clone(s)
				switch {
				case line:
					if n.begun {
						x.stop("a loop over lines starts in the middle of a line")
					}
					n.lines = append(n.lines, rep)
				case cell:
					endField(n)
					n.fields = append(n.fields, frep)
					n.full, n.begun = true, true
				default:
					x.stop("undecided: the values written by a loop are not separated")
				}
				next = append(next, n)
			case p.val != nil:
				n := clone(s)
				put(n, piece{val: p.val})
				next = append(next, n)
			default:
				n := clone(s)
				lit(n, p.lit)
				next = append(next, n)
			}
		}
		sts = next
		if len(sts) > 64 {
			x.stop("undecided: what is written is put together in too many ways")
			return nil
		}
	}
	var out []wturn
	for _, s := range sts {
		if s.begun {
			x.stop("a line is not ended")
		}
		out = append(out, wturn{lines: s.lines, facts: s.facts})
	}
	return out
}

// over: the loop runs once over a list from its start; the index is given.
func (x *matrixIO) over(k *Cut, n func(*Term) bool) *Term {
	for s := range k.symbols(x.e) {
		if s.T != nil && !isInt(s.T) {
			continue
		}
		for _, o := range []int64{0, 1} {
			if i := addI(s, o); x.e.countsAny(k, i, n) == "" && x.e.ascends(k, i) {
				return i
			}
		}
	}
	return nil
}

// all ways of writing the whole.
func (x *matrixIO) whole(sep string) []wturn {
	x.e.tolerate = func(p *Path) bool { return p.fails() }
	var out []wturn
	for _, w := range x.flow(x.e.Entry, nil, wayOf{}, nil, 0) {
		out = append(out, x.linesOf(w.parts, w.facts, sep)...)
	}
	if len(out) == 0 {
		x.stop("undecided: nothing is written")
	}
	return out
}

func (x *matrixIO) done() { x.e.tolerate = nil }

func lenOfList(n *Term, is func(*Term) bool) bool { return n.Op == "len" && is(n.Args[0]) }

// reps: every turn of a loop adds exactly one field that is what is expected.
func (x *matrixIO) each1(f wfield, over func(*Term) bool, what string, is func(v *Term, i *Term, facts []*Term) bool) string {
	if f.k == nil {
		return "the " + what + " are not written one by one"
	}
	i := x.over(f.k, over)
	if i == nil {
		return "the " + what + " are not those of every one asked for, in order"
	}
	if len(f.turns) == 0 {
		return "undecided: no " + what + " are written"
	}
	for _, t := range f.turns {
		if len(t.fields) != 1 || t.fields[0].k != nil {
			return "a turn does not write exactly one of the " + what
		}
		v := one1(t.fields[0].ps)
		if v == nil {
			if len(t.fields[0].ps) != 1 || t.fields[0].ps[0].val != nil {
				return "one of the " + what + " is not written by itself"
			}
			v = strT(t.fields[0].ps[0].lit)
		}
		if !is(v, i, t.facts) {
			return "one of the " + what + " is " + v.String()
		}
	}
	return ""
}

func (x *matrixIO) feature(t, fm *Term) *Term {
	arr, i := elem(unwrapped(t))
	if arr == nil || x.e.copyOfAny(field(arr, "FeatureMatrix.Data")) != fm {
		return nil
	}
	return i
}

func (e *Exec) copyOfAny(t *Term) *Term {
	if t == nil {
		return nil
	}
	return e.plain(t)
}

// caseAt: the i-th of the cases given.
func caseAt(t, cases, i *Term) bool {
	arr, j := elem(t)
	return arr == cases && j == i
}

// afm: a matrix is written with a row of labels and a row for every feature.
func (c *Check) writesAfm() {
	f := c.method("FeatureMatrix", "WriteCases")
	e := c.run(f, "matrix", Options{Opaque: exportedRoot})
	if e == nil {
		return
	}
	fm, w, cases := e.param(0), e.param(1), e.param(2)
	x := &matrixIO{c: c, e: e, key: "matrix/WriteCases", isW: func(t *Term) bool { return unwrapped(t) == w }}
	defer x.done()
	isCases := func(n *Term) bool { return n == lenT(cases) }
	isData := func(n *Term) bool {
		return lenOfList(n, func(l *Term) bool { return field(l, "FeatureMatrix.Data") == fm })
	}
	for _, a := range x.whole("\t") {
		c.ob("WriteCases", "a way of writing the matrix")
		if x.why != "" {
			break
		}
		if len(a.lines) != 2 || a.lines[0].k != nil || a.lines[1].k == nil {
			x.stop("the matrix is not one line of labels and then the lines of the features")
			break
		}
		h := a.lines[0].fields
		switch {
		case len(h) != 2 || len(h[0].ps) != 1 || h[0].ps[0].lit == "" || h[0].ps[0].val != nil:
			x.stop("the first line is not a mark and the labels of the cases")
		default:
			if len(h[0].ps[0].lit) >= 2 && strings.Contains("N:C:B:", h[0].ps[0].lit[:2]) {
				x.stop("the first line starts like that of a matrix with features in columns")
			}
			if why := x.each1(h[1], isCases, "labels", func(v, i *Term, _ []*Term) bool {
				arr, j := elem(v)
				return arr != nil && field(arr, "FeatureMatrix.CaseLabels") == fm && caseAt(j, cases, i)
			}); why != "" {
				x.stop(why)
			}
		}
		fi := x.over(a.lines[1].k, isData)
		if fi == nil {
			x.stop("the lines written are not those of every feature in order")
			break
		}
		c.ob("WriteCases", "the rows")
		for _, t := range a.lines[1].turns {
			if len(t.lines) != 1 || t.lines[0].k != nil || len(t.lines[0].fields) != 2 {
				x.stop("a feature is not written as one line of its name and its values")
				continue
			}
			r := t.lines[0].fields
			if v := isCall(one1(r[0].ps), "GetName"); len(v) != 1 || x.feature(v[0], fm) != fi {
				x.stop("the line of a feature does not start with its name")
			}
			if why := x.each1(r[1], isCases, "values", func(v, i *Term, _ []*Term) bool {
				g := isCall(v, "GetStr")
				return len(g) == 2 && x.feature(g[0], fm) == fi && caseAt(g[1], cases, i)
			}); why != "" {
				x.stop(why)
			}
		}
	}
	if x.why != "" {
		c.bad(x.key, f.Pos(), "WriteCases: %s", x.why)
	}
}

// csvOf: the csv writers made on the writer given.
func (x *matrixIO) csvWriters(w *Term, comma int64) {
	e := x.e
	ws := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == "encoding/csv.NewWriter" && len(ev.Args) == 1 && unwrapped(ev.Args[0]) == w {
				ws[ev.Res] = true
			}
		}
	})
	x.isCsv = func(t *Term) bool { return ws[e.plain(t)] }
	set := false
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" {
				continue
			}
			if o := addrField(ev.Addr, ".Comma"); o != nil && x.isCsv(o) {
				n, ok := ev.Val.intc()
				if !ok || n != comma {
					x.stop("the values of a record are not separated as the format wants")
				}
				set = true
			}
			if o := addrField(ev.Addr, ".UseCRLF"); o != nil && x.isCsv(o) {
				x.stop("the lines are not ended as the format wants")
			}
		}
	})
	if !set && comma != ',' {
		x.stop("the values of a record are not separated as the format wants")
	}
	// what was written is handed on before the function returns
	sets := func(p *Path) bool {
		for _, ev := range p.Events {
			if o := addrField(ev.Addr, ".Comma"); ev.Kind == "store" && o != nil && x.isCsv(o) {
				return true
			}
		}
		return comma == ','
	}
	call := func(p *Path, name string) bool {
		for _, ev := range p.Events {
			if ev.Kind == "call" && len(ev.Args) > 0 && strings.HasSuffix(ev.Name, name) && x.isCsv(ev.Args[0]) {
				return true
			}
		}
		return false
	}
	if e.reaches(sets, func(p *Path) bool { return call(p, ").Write") && !sets(p) }) != nil {
		x.stop("a record can be written before its separator is set")
	}
	for _, k := range e.Cuts {
		for _, p := range k.Paths {
			if !call(p, ").Write") || p.fails() {
				continue
			}
			if p.To == nil && !call(p, ").Flush") || p.To != nil && e.reachesFrom(p.To, func(q *Path) bool { return call(q, ").Flush") }, func(q *Path) bool {
				return q.To == nil && !q.fails() && !call(q, ").Flush")
			}) != nil {
				x.stop("what is written may never be handed on")
			}
		}
	}
}

// strict: the text of a field, in pieces that are either text or values.
func litIs(f wfield, s string) bool {
	return f.k == nil && len(f.ps) == 1 && f.ps[0].val == nil && f.ps[0].lit == s
}

// isKind: what the conditions say about a feature being categorical.
func catKind(facts []*Term, is func(*Term) bool) int {
	cat, num := -1, -1
	for _, g := range facts {
		s, v := g, 1
		if s.Op == "not" {
			s, v = s.Args[0], 0
		}
		if s.Op != "istype" || len(s.Args) != 1 || !is(s.Args[0]) {
			continue
		}
		switch {
		case strings.HasSuffix(s.S, "CatFeature"):
			cat = v
		case strings.HasSuffix(s.S, "NumFeature"):
			num = v
		}
	}
	switch {
	case cat == 1:
		return 1
	case num == 1 || cat == 0 && num == -1:
		return 0
	case cat == 0 && num == 0:
		return 3
	case num == 0:
		return 2
	}
	return -1
}

func (c *Check) writesArff() {
	f := c.fn("", "WriteArffCases")
	e := c.run(f, "matrix", Options{Opaque: exportedRoot})
	if e == nil {
		return
	}
	fm, cases, rel, w := e.param(0), e.param(1), e.param(2), e.param(3)
	x := &matrixIO{c: c, e: e, key: "matrix/WriteArffCases", isW: func(t *Term) bool { return unwrapped(t) == w }}
	x.csvWriters(w, ',')
	defer x.done()
	isCases := func(n *Term) bool { return n == lenT(cases) }
	isData := func(n *Term) bool {
		return lenOfList(n, func(l *Term) bool { return field(l, "FeatureMatrix.Data") == fm })
	}
	for _, a := range x.whole(" ") {
		c.ob("WriteArffCases", "a way of writing the matrix")
		if x.why != "" {
			break
		}
		var ls []wline
		for _, l := range a.lines {
			if l.k != nil || len(l.fields) > 0 {
				ls = append(ls, l)
			}
		}
		if len(ls) != 4 || ls[0].k != nil || ls[1].k == nil || ls[2].k != nil || ls[3].k == nil {
			x.stop("the file is not the relation, the attributes, a mark and the cases")
			break
		}
		if r := ls[0].fields; len(r) != 2 || !strings.EqualFold(textOf(r[0]), "@relation") || one1(r[1].ps) != rel {
			x.stop("the file does not start with its relation")
		}
		if m := ls[2].fields; len(m) != 1 || !strings.EqualFold(textOf(m[0]), "@data") {
			x.stop("the cases are not introduced by @DATA")
		}
		fi := x.over(ls[1].k, isData)
		if fi == nil {
			x.stop("the attributes are not those of every feature in order")
			break
		}
		c.ob("WriteArffCases", "the attributes")
		for _, t := range ls[1].turns {
			if len(t.lines) != 1 || t.lines[0].k != nil || len(t.lines[0].fields) != 3 {
				x.stop("an attribute is not one line of a mark, a name and a type")
				continue
			}
			r := t.lines[0].fields
			if !strings.EqualFold(textOf(r[0]), "@attribute") {
				x.stop("an attribute is not marked as one")
			}
			if v := isCall(one1(r[1].ps), "GetName"); len(v) != 1 || x.feature(v[0], fm) != fi {
				x.stop("an attribute is not named after its feature")
			}
			mine := func(o *Term) bool { return x.feature(o, fm) == fi }
			kind := catKind(t.facts, mine)
			if s := textOf(r[2]); s != "" {
				if !strings.EqualFold(s, "numeric") && !strings.EqualFold(s, "real") {
					x.stop("an attribute's type is " + s)
				}
				if kind == 1 || kind == -1 || kind == 2 {
					x.stop("an attribute that may be categorical is written as numerical")
				}
				continue
			}
			ps := r[2].ps
			if len(ps) != 3 || ps[0].lit != "{" || ps[2].lit != "}" {
				x.stop("the categories of an attribute are not given in braces")
				continue
			}
			j := isCall(unwrapped(ps[1].val), "Join")
			if len(j) != 2 || j[1] != strT(",") {
				x.stop("the categories of an attribute are not separated by commas")
				continue
			}
			o := field(j[0], ".Back")
			for o != nil && (o.Op == "load" || o.Op == "fieldaddr" || o.Op == "field" || strings.HasPrefix(o.Op, "typeassert")) {
				o = unwrapped(o)
				if mine(o) {
					break
				}
				o = o.Args[0]
			}
			if o == nil || !mine(unwrapped(o)) {
				x.stop("the categories given are not all of the feature's")
			}
		}
		ci := x.over(ls[3].k, isCases)
		if ci == nil {
			x.stop("the records written are not those of every case given in order")
			break
		}
		c.ob("WriteArffCases", "the records")
		for _, t := range ls[3].turns {
			if len(t.lines) != 1 || t.lines[0].k != nil || len(t.lines[0].fields) != 1 {
				x.stop("a case is not written as one record of its values")
				continue
			}
			seen := map[bool]bool{}
			if why := x.each1(t.lines[0].fields[0], isData, "values", func(v, i *Term, facts []*Term) bool {
				missing := -1
				for _, g := range facts {
					g.walk(func(y *Term) bool {
						if a := isCall(y, "IsMissing"); len(a) == 2 && x.feature(a[0], fm) == i && caseAt(a[1], cases, ci) {
							missing = decide(facts, y)
						}
						return true
					})
				}
				if s, ok := v.str(); ok {
					seen[true] = true
					return s == "?" && missing == 1
				}
				seen[false] = true
				g := isCall(v, "GetStr")
				return len(g) == 2 && x.feature(g[0], fm) == i && caseAt(g[1], cases, ci) && missing == 0
			}); why != "" {
				x.stop(why)
			}
			if x.why == "" && !(seen[true] && seen[false]) {
				x.stop("missing values are not told apart")
			}
		}
	}
	if x.why != "" {
		c.bad(x.key, f.Pos(), "WriteArffCases: %s", x.why)
	}
}

// textOf: the text a field always is.
func textOf(f wfield) string {
	if f.k == nil && len(f.ps) == 1 && f.ps[0].val == nil {
		return f.ps[0].lit
	}
	return ""
}

// built: m is a matrix made of copies of every feature of fm but the target, in order.
func (x *matrixIO) built(m, fm, target *Term) string {
	e := x.e
	isData := func(n *Term) bool {
		return lenOfList(n, func(l *Term) bool { return e.copyOfAny(field(l, "FeatureMatrix.Data")) == fm })
	}
	var list *Term
	var k *Cut
	starts := false
	why := ""
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" || addrField(ev.Addr, "FeatureMatrix.Data") != m {
				continue
			}
			switch {
			case emptyList(ev.Val):
				starts = true
				if e.loopOf(ev) != nil {
					why = "the features gathered can be dropped"
				}
			case ev.Val.Op == "append" && len(ev.Val.Args) == 2 && field(ev.Val.Args[0], "FeatureMatrix.Data") == m:
				l := e.loopOf(ev)
				if l == nil || k != nil && k != l {
					why = "a feature is added outside of the loop over the features"
				}
				k = l
			default:
				if list != nil && list != ev.Val {
					why = "undecided: the features written are gathered in more than one list"
				}
				list = ev.Val
			}
		}
	})
	if why != "" {
		return why
	}
	var next func(p *Path) []*Term // what a turn adds
	switch {
	case list != nil && k == nil:
		l := list
		if k = e.phiCut(l); k == nil || !k.Loop {
			return "undecided: how the features written are gathered"
		}
		enter, _ := e.into(k)
		for _, p := range enter {
			if !emptyList(p.next(l)) {
				return "the features written start with others"
			}
		}
		next = func(p *Path) (out []*Term) {
			n := p.next(l)
			for n != l {
				if n.Op != "append" {
					return []*Term{n, n}
				}
				out = append(out, n.Args[1:]...)
				n = n.Args[0]
			}
			return
		}
	case list == nil && k != nil && starts:
		next = func(p *Path) (out []*Term) {
			for _, ev := range p.Events {
				if ev.Kind == "store" && addrField(ev.Addr, "FeatureMatrix.Data") == m {
					out = append(out, ev.Val.Args[1])
				}
			}
			return
		}
	default:
		return "undecided: how the features written are gathered"
	}
	i := x.over(k, isData)
	if i == nil {
		return "the features written are not gathered from every feature in order"
	}
	turns, ok := e.turns(k)
	if !ok {
		return "undecided: how the features written are gathered"
	}
	for _, p := range turns {
		is := eq0(subT(i, target))
		added := next(p)
		switch {
		case len(added) == 0:
			if decide(p.All(), is) != 1 {
				return "a feature other than the target can be left out"
			}
		case len(added) == 1:
			a := isCall(unwrapped(added[0]), "Copy")
			if len(a) != 1 || x.feature(a[0], fm) != i {
				return "what is written is not a copy of the feature: " + added[0].String()
			}
			if decide(p.All(), is) != 0 {
				return "the target can be written among the other features"
			}
		default:
			return "a feature is written more than once"
		}
	}
	return ""
}

func (c *Check) writesSvm(name string) {
	f := c.fn("", name)
	e := c.run(f, "matrix", Options{Opaque: exportedRoot})
	if e == nil {
		return
	}
	all := name == "WriteLibSvm"
	fm := e.param(0)
	var cases, tname, w *Term
	if all {
		tname, w = e.param(1), e.param(2)
	} else {
		cases, tname, w = e.param(1), e.param(2), e.param(3)
	}
	x := &matrixIO{c: c, e: e, key: "matrix/" + name, isW: func(t *Term) bool { return unwrapped(t) == w }}
	x.csvWriters(w, ' ')
	defer x.done()
	isTargetIndex := func(t *Term) bool {
		return t != nil && t.Op == "lookup" && len(t.Args) == 2 && field(t.Args[0], "FeatureMatrix.Map") == fm && t.Args[1] == tname
	}
	isTarget := func(t *Term) bool {
		i := x.feature(t, fm)
		return i != nil && isTargetIndex(i)
	}
	isCases := func(n *Term) bool {
		if !all {
			return n == lenT(cases)
		}
		if a := isCall(n, "Length"); len(a) == 1 {
			return isTarget(a[0])
		}
		return lenOfList(n, func(l *Term) bool { return field(l, "FeatureMatrix.CaseLabels") == fm })
	}
	var target *Term
	e.each(func(cu *Cut, p *Path) {
		for _, g := range p.All() {
			g.walk(func(y *Term) bool {
				if isTargetIndex(y) {
					target = y
				}
				return true
			})
		}
	})
	if target == nil {
		x.stop("undecided: the target is not looked up")
	}
	isCase := func(t, i *Term) bool {
		if all {
			return t == i
		}
		return caseAt(t, cases, i)
	}
	imputed := func(p *Path, m *Term) bool {
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "ImputeMissing") && ev.Args[0] == m {
				return true
			}
		}
		return false
	}
	// encodes: the matrix whose features are written as numbers, and what is wrong with it
	encoded := map[*Term]bool{}
	encodes := func(enc *Term) string {
		if encoded[enc] {
			return ""
		}
		encoded[enc] = true
		var check func(v *Term, ps []*Path, depth int) string
		check = func(v *Term, ps []*Path, depth int) string {
			if depth > 6 {
				return "undecided: which matrix is written"
			}
			if a := isCall(v, "EncodeToNum"); len(a) == 1 {
				m := a[0]
				if why := x.built(m, fm, target); why != "" {
					return why
				}
				late := ""
				e.each(func(cu *Cut, p *Path) {
					done := false
					for _, ev := range p.Events {
						if ev.Kind == "call" && nameIs(ev.Name, "ImputeMissing") && ev.Args[0] == m {
							done = true
						}
						if ev.Kind == "call" && ev.Res == v && !done {
							if e.reaches(func(q *Path) bool { return q != p && imputed(q, m) }, func(q *Path) bool { return q == p }) != nil {
								late = "the features can be encoded before their missing values are filled in"
							}
						}
					}
				})
				return late
			}
			if v.Op == "alloc" {
				// written as it is: nothing in it is categorical
				if why := x.built(v, fm, target); why != "" {
					return why
				}
				if len(ps) == 0 {
					return "categorical features are not encoded"
				}
				for _, p := range ps {
					if !imputed(p, v) && e.reaches(func(q *Path) bool { return imputed(q, v) }, func(q *Path) bool { return q == p }) != nil {
						return "missing values can be written as they are"
					}
					if why := x.noneCat(p, fm, target); why != "" {
						return why
					}
				}
				return ""
			}
			if v.Op == "sym" {
				byVal := map[*Term][]*Path{}
				e.each(func(cu *Cut, p *Path) {
					if n, ok := p.Phi[v]; ok && n != v {
						byVal[n] = append(byVal[n], p)
					}
				})
				if len(byVal) > 0 {
					for n, qs := range byVal {
						if why := check(n, qs, depth+1); why != "" {
							return why
						}
					}
					return ""
				}
			}
			return "what is written is not an encoding of the features: " + v.String()
		}
		return check(enc, nil, 0)
	}
	for _, a := range x.whole(" ") {
		c.ob(name, "a way of writing the matrix")
		if x.why != "" {
			break
		}
		if len(a.lines) != 1 || a.lines[0].k == nil {
			x.stop("the file is not one record for every case")
			break
		}
		ci := x.over(a.lines[0].k, isCases)
		if ci == nil {
			x.stop("the records written are not those of every case asked for in order")
			break
		}
		c.ob(name, "the records")
		for _, t := range a.lines[0].turns {
			if len(t.lines) != 1 || t.lines[0].k != nil {
				x.stop("a case is not written as one record")
				continue
			}
			r := t.lines[0].fields
			if len(r) == 1 && catKind(t.facts, isTarget) == 3 {
				continue // neither a number nor a category
			}
			if len(r) != 2 || r[0].k != nil || r[1].k == nil {
				x.stop("a record is not the target's value and those of the features")
				continue
			}
			kind := catKind(t.facts, isTarget)
			v := one1(r[0].ps)
			if g := isCall(v, "Geti"); len(g) == 2 {
				if !isTarget(unasserted(g[0])) || !isCase(g[1], ci) || kind != 1 {
					x.stop("the record of a case does not start with the target's value of that case")
				}
			} else if g := append(isCall(v, "GetStr"), isCall(v, "Get")...); len(g) == 2 {
				if !isTarget(unasserted(g[0])) || !isCase(g[1], ci) || kind != 0 {
					x.stop("the record of a case does not start with the target's value of that case")
				}
			} else {
				x.stop("the record of a case starts with something else than the target's value")
			}
			var enc *Term
			fi := x.over(r[1].k, func(n *Term) bool {
				return lenOfList(n, func(l *Term) bool {
					o := field(l, "FeatureMatrix.Data")
					if o == nil || o == fm {
						return false
					}
					enc = o
					return true
				})
			})
			if fi == nil || enc == nil {
				x.stop("the values of a case are not those of every feature in order")
				continue
			}
			if why := encodes(enc); why != "" {
				x.stop(why)
			}
			some := false
			for _, u := range r[1].turns {
				zero := -1
				isVal := func(y *Term) bool {
					g := isCall(y, "Get")
					return len(g) == 2 && x.elemOf(unasserted(g[0]), enc) == fi && isCase(g[1], ci)
				}
				for _, g := range u.facts {
					g.walk(func(y *Term) bool {
						if isVal(y) {
							zero = decide(u.facts, eqT(y, zeroFloat(), y.T))
						}
						return true
					})
				}
				switch {
				case len(u.fields) == 0:
					if zero != 1 {
						x.stop("a value that is not zero can be left out")
					}
				case len(u.fields) == 1 && u.fields[0].k == nil && len(u.fields[0].ps) == 3:
					ps := u.fields[0].ps
					some = true
					if unwrapped(ps[0].val) != addI(fi, 1) || ps[1].lit != ":" || !isVal(unwrapped(ps[2].val)) {
						x.stop("a value is not written as the feature's number, counted from 1, and the value")
					}
				default:
					x.stop("a value is not written as the feature's number and the value")
				}
			}
			if !some {
				x.stop("no values are written")
			}
		}
	}
	if x.why != "" {
		c.bad(x.key, f.Pos(), "%s: %s", name, x.why)
	}
}

// noneCat: on the path no feature that was copied is categorical.
func (x *matrixIO) noneCat(p *Path, fm, target *Term) string {
	e := x.e
	for _, g := range p.All() {
		g.walk(func(y *Term) bool { return true })
		s := g
		if s.Op != "not" || s.Args[0].Op != "sym" {
			continue
		}
		s = s.Args[0]
		k := e.phiCut(s)
		if k == nil || !k.Loop {
			continue
		}
		i := x.over(k, func(n *Term) bool {
			return lenOfList(n, func(l *Term) bool { return field(l, "FeatureMatrix.Data") == fm })
		})
		turns, ok := e.turns(k)
		if i == nil || !ok {
			continue
		}
		fine := true
		for _, q := range turns {
			if q.next(s).isTrue() || decide(q.All(), eq0(subT(i, target))) == 1 && q.next(s) == s {
				continue
			}
			num := false
			for _, h := range q.All() {
				h.walk(func(y *Term) bool {
					if a := isCall(y, "NCats"); len(a) == 1 && x.feature(a[0], fm) == i && decide(q.All(), ge0(negT(y))) == 1 {
						num = true
					}
					return true
				})
			}
			fine = fine && num && q.next(s) == s
		}
		if fine {
			return ""
		}
	}
	return "categorical features can be written without being encoded"
}

func unasserted(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "typeassert") {
		t = t.Args[0]
	}
	return t
}

// elemOf: the index of a feature of a matrix.
func (x *matrixIO) elemOf(t, m *Term) *Term {
	arr, i := elem(unwrapped(t))
	if arr == nil || field(arr, "FeatureMatrix.Data") != m {
		return nil
	}
	return i
}

// ---- reading -----------------------------------------------------------------------------------------------

// record: the fields read by one of the calls to a csv reader.
func record(t *Term) *Term {
	if t == nil || t.Op != "extract" || t.S != "0" {
		return nil
	}
	if a := isCall(t.Args[0], "Read"); len(a) == 1 {
		return t.Args[0]
	}
	return nil
}

// reads: the calls that read a record on a path.
func (p *Path) reads() (out []*Event) {
	for _, ev := range p.Events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "csv.Reader).Read") {
			out = append(out, ev)
		}
	}
	return
}

// canBe: everything a variable can have been set to.
func (e *Exec) canBe(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		t = unwrapped(t)
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "sym" {
			if vs := e.phiIn(t); len(vs) > 0 {
				for _, v := range vs {
					walk(v)
				}
				return
			}
		}
		out[t] = true
	}
	walk(t)
	return out
}

// numericName: whether the conditions say that a name marks a numerical feature.
func numericName(facts []*Term, name *Term) int {
	for _, g := range facts {
		v := -1
		g.walk(func(y *Term) bool {
			is := false
			if y.Op == "eq" && len(y.Args) == 2 {
				for n := 0; n < 2; n++ {
					a, b := y.Args[n], y.Args[1-n]
					if s, ok := a.str(); ok && s == "N:" && isPrefix(b, name) {
						is = true
					}
				}
			}
			if a := isCall(y, "HasPrefix"); len(a) == 2 && a[0] == name && a[1] == strT("N:") {
				is = true
			}
			if is && v < 0 {
				v = decide(facts, y)
			}
			return true
		})
		if v >= 0 {
			return v
		}
	}
	return -1
}

// isPrefix: the first two characters of a text.
func isPrefix(t, name *Term) bool {
	if t == nil || t.Op != "slice" || t.Args[0] != name || len(t.Args) < 3 || t.Args[2].Op == "none" {
		return false
	}
	if t.Args[1].Op != "none" && !isZero(t.Args[1]) {
		return false
	}
	n, ok := t.Args[2].intc()
	return ok && n == 2
}

// newFeature: a feature made on a path: its name and whether it is numerical.
func (p *Path) newFeature(o *Term) (name *Term, numeric, ok bool) {
	o = unwrapped(o)
	if o == nil || o.Op != "alloc" {
		return
	}
	for _, ev := range p.Events {
		if ev.Kind != "store" {
			continue
		}
		if addrField(ev.Addr, "DenseNumFeature.Name") == o {
			name, numeric, ok = ev.Val, true, true
		}
		if addrField(ev.Addr, "DenseCatFeature.Name") == o {
			name, numeric, ok = ev.Val, false, true
		}
	}
	return
}

// loadCases: every record is a case, and every field of it the value of one feature.
func (c *Check) loadsCases() {
	f := c.method("FeatureMatrix", "LoadCases")
	e := c.run(f, "matrix", Options{Opaque: exportedRoot})
	if e == nil {
		return
	}
	x := &matrixIO{c: c, e: e, key: "matrix/LoadCases"}
	defer func() {
		x.done()
		if x.why != "" {
			c.bad(x.key, f.Pos(), "LoadCases: %s", x.why)
		}
	}()
	e.tolerate = func(p *Path) bool { return p.fails() }
	fm, data, named := e.param(0), e.param(1), e.param(2)
	var k *Cut
	var appends []*Event
	var in []*Path
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.reads() {
			l := e.loopOf(ev)
			if l == nil || k != nil && l != k || ev.Args[0] != data {
				x.stop("the records are not read by one loop")
			}
			k = l
		}
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "Append") {
				appends = append(appends, ev)
				in = append(in, p)
			}
		}
	})
	if k == nil || len(appends) == 0 {
		x.stop("undecided: no records are read")
		return
	}
	m := e.members(k)
	if e.outer(k) != nil {
		x.stop("the records are read by a loop in a loop")
	}
	c.ob("LoadCases", "the records are read")
	if !e.oncePerTurn(k, func(p *Path) int { return len(p.reads()) }) {
		x.stop("a record can be dropped")
	}
	// the labels
	c.ob("LoadCases", "the labels")
	label := func(p *Path) (out []*Event) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && addrField(ev.Addr, "FeatureMatrix.CaseLabels") == fm {
				out = append(out, ev)
			}
		}
		return
	}
	if !e.oncePerTurn(k, func(p *Path) int { return len(label(p)) }) || !e.everyTurn(k, func(p *Path) bool { return len(label(p)) > 0 }) {
		x.stop("a case is not given exactly one label")
	}
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range label(p) {
			if !m[cu] {
				x.stop("a label is given that is not a case's")
				continue
			}
			v := ev.Val
			if v.Op != "append" || len(v.Args) != 2 || field(v.Args[0], "FeatureMatrix.CaseLabels") != fm {
				x.stop("the label is not added to the others: " + v.String())
				continue
			}
			for _, a := range e.merged(v.Args[1], p) {
				by := decide(a.facts, named)
				if arr, i := elem(a.v); arr != nil && record(arr) != nil && isZero(i) {
					if by != 1 {
						x.stop("a value can be taken for a label")
					}
					continue
				}
				ps, why := pieces(a.v)
				if n := one1(ps); why != "" || n == nil || by != 0 {
					x.stop("a case can be labelled " + a.v.String())
				} else if !e.countsTurns(k, n) {
					x.stop("a case without a label of its own is not given its number")
				}
			}
		}
	})
	// the values
	for n, ev := range appends {
		c.ob("LoadCases", "the values of a record")
		l := e.loopOf(ev)
		if l == nil || l == k || e.outer(l) != k || len(ev.Args) != 2 {
			x.stop("the values are not added by a loop over the record")
			continue
		}
		fi := x.feature(ev.Args[0], fm)
		if fi == nil {
			x.stop("a value is added to " + ev.Args[0].String())
			continue
		}
		if !e.oncePerTurn(l, func(p *Path) int {
			n := 0
			for _, o := range p.Events {
				if o.Kind == "call" && nameIs(o.Name, "Append") {
					n++
				}
			}
			return n
		}) || !e.everyTurn(l, func(p *Path) bool {
			for _, o := range p.Events {
				if o.Kind == "call" && nameIs(o.Name, "Append") {
					return true
				}
			}
			return false
		}) {
			x.stop("a field of the record can be dropped or added twice")
		}
		enter, _ := e.into(l)
		for _, q := range enter {
			sub := map[*Term]*Term{}
			_, back := e.into(l)
			for s, v := range q.Phi {
				same := true
				for _, b := range back {
					same = same && b.next(s) == s
				}
				if same {
					sub[s] = v
				}
			}
			arr, j := elem(substT(sub, ev.Args[1]))
			rec := record(arr)
			off := int64(-1)
			switch {
			case rec == nil && arr != nil && arr.Op == "slice":
				// the rest of the record
				rec = record(arr.Args[0])
				if lo, ok := arr.Args[1].intc(); ok && arr.Args[2].Op == "none" {
					j = addI(j, lo)
				} else {
					rec = nil
				}
			}
			if rec == nil {
				x.stop("a value is " + ev.Args[1].String())
				continue
			}
			if o, ok := subT(j, fi).intc(); ok {
				off = o
			}
			switch off {
			case 0:
				if decide(q.All(), named) != 0 {
					x.stop("the label of a case can be taken for a value")
				}
			case 1:
				if decide(q.All(), named) != 1 {
					x.stop("the first value of a case can be dropped")
				}
			default:
				x.stop("a value is added to another column's feature")
				continue
			}
			recT := mk("extract", "0", rec)
			if why := e.countsAny(l, fi, func(n *Term) bool {
				v := substT(sub, n)
				return v == addI(lenT(recT), -off) || v.Op == "len" && v.Args[0] == arr || v == lenT(arr)
			}); why != "" || !e.ascends(l, fi) {
				x.stop("not every field of the record is added: " + why)
			}
		}
		_ = in[n]
	}
	// every record that was read is added
	if !e.everyTurn(k, func(p *Path) bool {
		for _, ev := range appends {
			if p.To == e.loopOf(ev) {
				return true
			}
		}
		return false
	}) {
		x.stop("the values of a record can be dropped")
	}
	for _, p := range e.leaving(k) {
		if p.fails() {
			continue
		}
		if p.From != k {
			x.stop("reading can stop in the middle of a record")
		}
		ended := false
		for _, ev := range p.reads() {
			ended = ended || p.atEnd(ev)
		}
		if !ended {
			x.stop("reading can stop before the end of the data")
		}
	}
}

// atEnd: the read is known to have come to the end of the data.
func (p *Path) atEnd(ev *Event) bool {
	for _, g := range p.All() {
		hit := false
		g.walk(func(y *Term) bool {
			if y.Op == "eq" && len(y.Args) == 2 {
				for n := 0; n < 2; n++ {
					if a := y.Args[n]; a.Op == "extract" && a.S == "1" && a.Args[0] == ev.Res && strings.HasSuffix(y.Args[1-n].String(), "EOF") && decide(p.All(), y) == 1 {
						hit = true
					}
				}
			}
			return true
		})
		if hit {
			return true
		}
	}
	return false
}

// valueOf is one of the values a variable can have, and when.
type valueOf struct {
	v     *Term
	facts []*Term
}

// merged lists what a variable merged behind a branch can be.
func (e *Exec) merged(t *Term, p *Path) (out []valueOf) {
	var walk func(t *Term, facts []*Term, depth int)
	walk = func(t *Term, facts []*Term, depth int) {
		if t.Op == "sym" && depth < 6 {
			k := e.phiCut(t)
			same := true
			if k != nil && k.Loop {
				_, back := e.into(k)
				for _, q := range back {
					same = same && q.next(t) == t
				}
			}
			if k != nil && same {
				e.each(func(cu *Cut, q *Path) {
					if q.To == k && q.next(t) != t {
						walk(q.next(t), append(append([]*Term{}, facts...), q.All()...), depth+1)
					}
				})
				return
			}
		}
		out = append(out, valueOf{t, facts})
	}
	walk(t, p.All(), 0)
	return
}

// countsTurns: n is the number of turns of the loop made so far.
func (e *Exec) countsTurns(k *Cut, n *Term) bool {
	n = unwrapped(n)
	if n.Op == "len" {
		if o := field(n.Args[0], "FeatureMatrix.CaseLabels"); o != nil && o == e.param(0) {
			return true
		}
	}
	enter, back := e.into(k)
	if len(enter) == 0 || len(back) == 0 {
		return false
	}
	for _, p := range enter {
		if !isZero(p.next(n)) {
			return false
		}
	}
	for _, p := range back {
		if d, ok := subT(e.plain(p.next(n)), n).intc(); !ok || d != 1 {
			return false
		}
	}
	return true
}

// parsesFeature: a feature is what its record says.
func (c *Check) parsesFeature() {
	f := c.fn("", "ParseFeature")
	e := c.run(f, "matrix", Options{Opaque: exportedRoot})
	if e == nil {
		return
	}
	x := &matrixIO{c: c, e: e, key: "matrix/ParseFeature"}
	defer func() {
		if x.why != "" {
			c.bad(x.key, f.Pos(), "ParseFeature: %s", x.why)
		}
	}()
	rec := e.param(0)
	isName := func(t *Term) bool {
		arr, i := elem(t)
		return arr == rec && isZero(i)
	}
	returned := map[*Term]bool{}
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || p.To != nil || len(p.Ret) != 1 {
			return
		}
		for v := range e.canBe(p.Ret[0]) {
			returned[v] = true
		}
	})
	if len(returned) == 0 {
		x.stop("undecided: what is returned")
	}
	for o := range returned {
		c.ob("ParseFeature", "a feature")
		var made *Path
		var name *Term
		numeric := false
		e.each(func(cu *Cut, p *Path) {
			if n, num, ok := p.newFeature(o); ok {
				made, name, numeric = p, n, num
			}
		})
		if made == nil {
			x.stop("undecided: the feature returned is " + o.String())
			continue
		}
		if !isName(name) {
			x.stop("a feature is named " + name.String())
			continue
		}
		kind := numericName(made.All(), name)
		if numeric && kind != 1 || !numeric && kind != 0 {
			x.stop("a feature is not of the type its name says")
		}
		var k *Cut
		adds := func(p *Path) (n int) {
			for _, ev := range p.Events {
				if ev.Kind == "call" && nameIs(ev.Name, "Append") && e.canBe(ev.Args[0])[o] {
					n++
				}
			}
			return
		}
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				if ev.Kind != "call" || !nameIs(ev.Name, "Append") || len(ev.Args) != 2 {
					continue
				}
				if !e.canBe(ev.Args[0])[o] {
					continue
				}
				l := e.loopOf(ev)
				if l == nil || k != nil && k != l {
					x.stop("the values are not added by one loop over the record")
					continue
				}
				k = l
				arr, i := elem(ev.Args[1])
				if arr != nil && arr.Op == "slice" && arr.Args[2].Op == "none" {
					if lo, ok := arr.Args[1].intc(); ok {
						arr, i = arr.Args[0], addI(i, lo)
					}
				}
				if arr != rec {
					x.stop("a value is " + ev.Args[1].String())
					continue
				}
				if why := e.countsIn(k, i, intT(1), lenT(rec)); why != "" {
					x.stop("the values are not all fields behind the name: " + why)
				}
				enter, _ := e.into(k)
				for _, q := range enter {
					if !sameVal(q, q.next(i), intT(1)) {
						x.stop("the values are not added in order")
					}
				}
			}
		})
		if k == nil || !e.oncePerTurn(k, adds) || !e.everyTurn(k, func(p *Path) bool { return adds(p) > 0 }) {
			x.stop("a value can be dropped or added twice")
		}
		if k != nil && e.reachesFrom(made.To, func(p *Path) bool { return p.To == k || p.From == k }, func(p *Path) bool {
			return p.To == nil && p.End == "return" && len(p.Ret) == 1 && e.canBe(p.Ret[0])[o] && p.From != k
		}) != nil && made.To != k {
			x.stop("a feature can be returned without its values")
		}
	}
}

// matrixMade: what a matrix returned on a path is made of.
func (p *Path) matrixMade(m *Term) (data, labels *Term) {
	for _, ev := range p.Events {
		if ev.Kind != "store" {
			continue
		}
		if addrField(ev.Addr, "FeatureMatrix.Data") == m {
			data = ev.Val
		}
		if addrField(ev.Addr, "FeatureMatrix.CaseLabels") == m {
			labels = ev.Val
		}
	}
	return
}

// madeOf: the same, for a matrix that can have been made earlier. Its features can be gathered in place;
// the list is then the field itself.
func (x *matrixIO) madeOf(m *Term, p *Path) (data, labels *Term) {
	data, labels = p.matrixMade(m)
	if data != nil && labels != nil {
		return
	}
	data, labels = nil, nil
	x.e.each(func(cu *Cut, q *Path) {
		for _, ev := range q.Events {
			if ev.Kind != "store" {
				continue
			}
			if addrField(ev.Addr, "FeatureMatrix.CaseLabels") == m {
				if labels != nil && labels != ev.Val {
					x.stop("undecided: the labels of the matrix returned are set more than once")
				}
				labels = ev.Val
			}
			if addrField(ev.Addr, "FeatureMatrix.Data") == m {
				if field(ev.Val, "FeatureMatrix.Data") == m || ev.Val.Op == "append" && field(ev.Val.Args[0], "FeatureMatrix.Data") == m {
					data = ev.Addr
				} else if data == nil {
					data = ev.Val
				}
			}
		}
	})
	return
}

// addsToField: a list gathered in the field of a matrix.
func (x *matrixIO) addsToField(addr *Term) (k *Cut, turns []*Path, adds func(p *Path) []*Term) {
	e := x.e
	mine := func(t *Term) bool { return t.Op == "load" && t.Args[0] == addr }
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr != addr {
				continue
			}
			if ev.Val.Op == "append" && mine(ev.Val.Args[0]) {
				l := e.loopOf(ev)
				if l == nil || k != nil && l != k {
					x.stop("undecided: how the features are gathered")
				}
				k = l
			} else if !emptyList(ev.Val) || e.loopOf(ev) != nil {
				x.stop("the features start with others: " + ev.Val.String())
			}
		}
	})
	if k == nil {
		x.stop("undecided: how the features are gathered")
		return
	}
	turns, ok := e.turns(k)
	if !ok {
		x.stop("undecided: how the features are gathered")
		return nil, nil, nil
	}
	adds = func(p *Path) (out []*Term) {
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr == addr && ev.Val.Op == "append" {
				out = append(out, ev.Val.Args[1:]...)
			}
		}
		return
	}
	return
}

// readerIs: a csv reader reads the input, with the settings allowed.
func (x *matrixIO) readerIs(r *Term, from func(*Term) bool, allowed map[string]int64, needed ...string) {
	r = x.e.plain(r)
	a := isCall(r, "encoding/csv.NewReader")
	if len(a) != 1 || !from(unwrapped(a[0])) {
		x.stop("the data is read from " + r.String())
		return
	}
	set := map[string]bool{}
	x.e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			if ev.Kind != "store" || ev.Addr.Op != "fieldaddr" || !strings.Contains(ev.Addr.S, "csv.Reader.") || x.e.plain(ev.Addr.Args[0]) != r {
				continue
			}
			name := ev.Addr.S[strings.LastIndex(ev.Addr.S, ".")+1:]
			n, ok := ev.Val.intc()
			w, may := allowed[name]
			if name == "ReuseRecord" || !may || !ok || n != w {
				x.stop("the reader's " + name + " is not what the format wants")
			}
			set[name] = true
		}
	})
	for _, n := range needed {
		if !set[n] {
			x.stop("the reader's " + n + " is not what the format wants")
		}
	}
	// settings come before reading
	sets := func(p *Path) bool {
		n := 0
		for _, ev := range p.Events {
			if ev.Kind == "store" && ev.Addr.Op == "fieldaddr" && strings.Contains(ev.Addr.S, "csv.Reader.") {
				n++
			}
			if ev.Kind == "call" && len(ev.Args) > 0 && (strings.HasSuffix(ev.Name, "csv.Reader).Read") || nameIs(ev.Name, "LoadCases")) && n < len(set) {
				return false
			}
		}
		return n >= len(set)
	}
	if x.e.reaches(sets, func(p *Path) bool {
		for _, ev := range p.Events {
			if ev.Kind == "call" && len(ev.Args) > 0 && (strings.HasSuffix(ev.Name, "csv.Reader).Read") || nameIs(ev.Name, "LoadCases")) {
				return !sets(p)
			}
		}
		return false
	}) != nil {
		x.stop("data can be read before the reader is set up")
	}
}

// gathered features: the loop a list is gathered by, and what each of its turns adds.
func (x *matrixIO) addsTo(l *Term) (k *Cut, turns []*Path, adds func(p *Path) []*Term) {
	e := x.e
	if l.Op == "fieldaddr" {
		return x.addsToField(l)
	}
	k = e.phiCut(l)
	if l.Op != "sym" || k == nil || !k.Loop {
		x.stop("undecided: how the features are gathered: " + l.String())
		return nil, nil, nil
	}
	enter, _ := e.into(k)
	for _, p := range enter {
		if !emptyList(p.next(l)) {
			x.stop("the features start with others: " + p.next(l).String())
		}
	}
	turns, ok := e.turns(k)
	if !ok {
		x.stop("undecided: how the features are gathered")
		return nil, nil, nil
	}
	adds = func(p *Path) (out []*Term) {
		n := p.next(l)
		for n != l {
			if n.Op != "append" {
				x.stop("undecided: a turn makes the list of features " + n.String())
				return
			}
			out = append(append([]*Term{}, n.Args[1:]...), out...)
			n = n.Args[0]
		}
		return
	}
	return
}

// parsesAfm: a feature for every row, or for every column.
func (c *Check) parsesAfm() {
	f := c.fn("", "ParseAFM")
	e := c.run(f, "matrix", Options{Opaque: exportedRoot})
	if e == nil {
		return
	}
	x := &matrixIO{c: c, e: e, key: "matrix/ParseAFM"}
	defer func() {
		if x.why != "" {
			c.bad(x.key, f.Pos(), "ParseAFM: %s", x.why)
		}
	}()
	input := e.param(0)
	var head *Event
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.reads() {
			x.readerIs(ev.Args[0], func(t *Term) bool { return t == input }, map[string]int64{"Comma": 9}, "Comma")
			if cu == e.Entry && head == nil {
				head = ev
			}
		}
	})
	if head == nil || x.why != "" {
		x.stop("undecided: no header is read")
		return
	}
	rec0 := mk("extract", "0", head.Res)
	isRec0 := func(t *Term) bool { return record(t) == head.Res }
	// label n of the header, counted behind the mark
	header := func(t *Term) *Term {
		arr, i := elem(t)
		if arr == nil {
			return nil
		}
		if arr.Op == "slice" && arr.Args[2].Op == "none" {
			if lo, ok := arr.Args[1].intc(); ok {
				arr, i = arr.Args[0], addI(i, lo)
			}
		}
		if !isRec0(arr) {
			return nil
		}
		return addI(i, -1)
	}
	// columns: what the conditions say about the layout
	columns := func(gs []*Term) int {
		denied := map[string]bool{}
		got := -1
		for _, g := range gs {
			g.walk(func(y *Term) bool {
				if y.Op == "eq" && len(y.Args) == 2 {
					for n := 0; n < 2; n++ {
						s, ok := y.Args[n].str()
						o := y.Args[1-n]
						if !ok || o.Op != "slice" || !isPrefix(o, o.Args[0]) {
							continue
						}
						if i := header(o.Args[0]); i == nil || !isZero(i) {
							continue
						}
						switch decide(gs, y) {
						case 1:
							if s == "N:" || s == "C:" || s == "B:" {
								got = 1
							} else {
								got = 2
							}
						case 0:
							denied[s] = true
						}
					}
				}
				if a := isCall(y, "HasPrefix"); len(a) == 2 {
					if i := header(a[0]); i != nil && isZero(i) {
						s, _ := a[1].str()
						switch decide(gs, y) {
						case 1:
							if s == "N:" || s == "C:" || s == "B:" {
								got = 1
							} else {
								got = 2
							}
						case 0:
							denied[s] = true
						}
					}
				}
				if y.Op == "len" {
					if i := header(y.Args[0]); i != nil && isZero(i) && decide(gs, ge0(addI(negT(y), 1))) == 1 {
						got = 0
					}
				}
				return true
			})
		}
		if got == -1 && denied["N:"] && denied["C:"] && denied["B:"] {
			got = 0
		}
		return got
	}
	layout := func(k *Cut, want int) {
		enter, _ := e.into(k)
		for _, p := range enter {
			for _, gs := range e.alternatives(p.All()) {
				if got := columns(gs); got != want {
					x.stop("a matrix with features in rows can be taken for one with features in columns, or the reverse")
				}
			}
		}
	}
	kinds := map[string]bool{}
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || p.To != nil || len(p.Ret) != 1 || p.Ret[0].Op == "nil" {
			return
		}
		m := unwrapped(p.Ret[0])
		data, labels := x.madeOf(m, p)
		if data == nil || labels == nil {
			x.stop("undecided: what the matrix returned is made of")
			return
		}
		var load *Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "LoadCases") {
				if load != nil || ev.Args[0] != m {
					x.stop("the cases are not read into the matrix returned once")
				}
				load = ev
			}
		}
		if emptyList(data) && load == nil {
			c.ob("ParseAFM", "an empty matrix")
			if !p.atEnd(head) {
				x.stop("a matrix without features is returned for input that is not empty")
			}
			return
		}
		if load != nil {
			c.ob("ParseAFM", "features in columns")
			kinds["columns"] = true
			if len(load.Args) != 3 || !load.Args[2].isTrue() || e.plain(load.Args[1]) != e.plain(head.Args[0]) {
				x.stop("the cases are not read from behind the header with their labels")
			}
			if !emptyList(labels) {
				x.stop("the labels start with others")
			}
			k, turns, adds := x.addsTo(data)
			if k == nil {
				return
			}
			layout(k, 1)
			for _, q := range turns {
				as := adds(q)
				if len(as) != 1 {
					x.stop("a column is not made exactly one feature")
					continue
				}
				name, numeric, ok := q.newFeature(as[0])
				if !ok {
					x.stop("undecided: the feature made is " + as[0].String())
					continue
				}
				i := header(name)
				if i == nil {
					x.stop("a feature is named " + name.String())
					continue
				}
				if why := e.countsAny(k, i, func(n *Term) bool {
					return n == addI(lenT(rec0), -1) || n.Op == "len" && n.Args[0].Op == "slice" && isRec0(n.Args[0].Args[0])
				}); why != "" || !e.ascends(k, i) {
					if e.countsIn(k, addI(i, 1), intT(1), lenT(rec0)) != "" {
						x.stop("the features are not those of every column in order: " + why)
					}
				}
				if kind := numericName(q.All(), name); numeric && kind != 1 || !numeric && kind != 0 {
					x.stop("a feature is not of the type its name says")
				}
			}
			return
		}
		c.ob("ParseAFM", "features in rows")
		kinds["rows"] = true
		if !(labels.Op == "slice" && isRec0(labels.Args[0]) && labels.Args[2].Op == "none" && labels.Args[1] == intT(1)) {
			x.stop("the cases are labelled " + labels.String())
		}
		k, turns, adds := x.addsTo(data)
		if k == nil {
			return
		}
		layout(k, 0)
		if !e.oncePerTurn(k, func(p *Path) int { return len(p.reads()) }) {
			x.stop("a row can be dropped")
		}
		for _, q := range turns {
			as := adds(q)
			var rec *Term
			if len(as) == 1 {
				if a := isCall(unwrapped(as[0]), "ParseFeature"); len(a) == 1 {
					rec = record(a[0])
				}
			}
			rs := q.reads()
			if rec == nil || len(rs) != 1 || rs[0].Res != rec {
				x.stop("a row is not made exactly one feature")
			}
		}
		for _, q := range e.leaving(k) {
			if q.fails() || len(q.Ret) == 1 && q.Ret[0].Op == "nil" {
				continue
			}
			rs := q.reads()
			if len(rs) != 1 || !q.atEnd(rs[0]) {
				x.stop("reading can stop before the last row")
			}
		}
	})
	if x.why == "" && (!kinds["rows"] || !kinds["columns"]) {
		x.stop("a layout is not read")
	}
}

// parsesArff: a feature for every attribute.
func (c *Check) parsesArff() {
	f := c.fn("", "ParseARFF")
	e := c.run(f, "matrix", Options{Opaque: exportedRoot})
	if e == nil {
		return
	}
	x := &matrixIO{c: c, e: e, key: "matrix/ParseARFF"}
	defer func() {
		if x.why != "" {
			c.bad(x.key, f.Pos(), "ParseARFF: %s", x.why)
		}
	}()
	input := e.param(0)
	lineRead := func(p *Path) (out []*Event) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "bufio.Reader).ReadString") {
				out = append(out, ev)
			}
		}
		return
	}
	isReader := func(t *Term) bool {
		a := isCall(e.plain(t), "bufio.NewReader")
		return len(a) == 1 && unwrapped(a[0]) == input
	}
	// starts: what the conditions say about the line starting with a word, in any case
	starts := func(gs []*Term, line *Term, word string) int {
		v := -1
		for _, g := range gs {
			g.walk(func(y *Term) bool {
				a := isCall(y, "HasPrefix")
				if len(a) != 2 || a[1] != strT(word) {
					return true
				}
				if l := isCall(a[0], "ToLower"); len(l) == 1 && l[0] == line {
					v = decide(gs, y)
				}
				return true
			})
		}
		return v
	}
	found := false
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || p.To != nil || len(p.Ret) != 1 || p.Ret[0].Op == "nil" {
			return
		}
		found = true
		c.ob("ParseARFF", "a matrix")
		m := unwrapped(p.Ret[0])
		data, labels := x.madeOf(m, p)
		if data == nil || labels == nil {
			x.stop("undecided: what the matrix returned is made of")
			return
		}
		if !emptyList(labels) {
			x.stop("the labels start with others")
		}
		var load *Event
		for _, ev := range p.Events {
			if ev.Kind == "call" && nameIs(ev.Name, "LoadCases") {
				if load != nil || ev.Args[0] != m {
					x.stop("the cases are not read into the matrix returned once")
				}
				load = ev
			}
		}
		if load == nil || len(load.Args) != 3 || !load.Args[2].isFalse() {
			x.stop("the cases are not read, or their first value is taken for a label")
			return
		}
		x.readerIs(load.Args[1], isReader, map[string]int64{"Comma": ',', "Comment": '%'})
		k, turns, adds := x.addsTo(data)
		if k == nil {
			return
		}
		if !e.oncePerTurn(k, func(p *Path) int { return len(lineRead(p)) }) {
			x.stop("a line can be dropped")
		}
		some := false
		for _, q := range turns {
			c.ob("ParseARFF", "a line of the header")
			rs := lineRead(q)
			if len(rs) != 1 || !isReader(rs[0].Args[0]) || len(rs[0].Args) != 2 || rs[0].Args[1] != intT(10) {
				x.stop("undecided: how a line is read")
				continue
			}
			line := mk("extract", "0", rs[0].Res)
			is := -1
			for _, g := range q.All() {
				g.walk(func(y *Term) bool {
					if y.Op == "extract" && y.S == "0" && y.Args[0] == rs[0].Res {
						line = y
					}
					return true
				})
			}
			is = starts(q.All(), line, "@attribute")
			as := adds(q)
			switch {
			case len(as) == 0:
				if is != 0 {
					x.stop("an attribute can be dropped")
				}
			case len(as) == 1:
				some = true
				if is != 1 {
					x.stop("a line that is no attribute can be taken for one")
				}
				word := func(t *Term, n int64) bool {
					arr, i := elem(t)
					if arr == nil {
						return false
					}
					a := isCall(arr, "Fields")
					return len(a) == 1 && a[0] == line && i == intT(n)
				}
				name, numeric, ok := q.newFeature(as[0])
				if !ok || !word(name, 1) {
					x.stop("an attribute is not named by its line")
					continue
				}
				kind, no := -1, map[string]bool{}
				for _, g := range q.All() {
					g.walk(func(y *Term) bool {
						var s string
						if y.Op == "eq" && len(y.Args) == 2 {
							for n := 0; n < 2; n++ {
								if t, ok := y.Args[n].str(); ok {
									if l := isCall(y.Args[1-n], "ToLower"); len(l) == 1 && word(l[0], 2) {
										s = t
									}
								}
							}
						}
						if a := isCall(y, "EqualFold"); len(a) == 2 {
							for n := 0; n < 2; n++ {
								if t, ok := a[n].str(); ok && word(a[1-n], 2) {
									s = strings.ToLower(t)
								}
							}
						}
						if s == "" {
							return true
						}
						switch decide(q.All(), y) {
						case 1:
							kind = 2
							if s == "numeric" || s == "real" {
								kind = 1
							}
						case 0:
							no[s] = true
						}
						return true
					})
				}
				if kind == -1 && no["numeric"] && no["real"] {
					kind = 0
				}
				if numeric && kind != 1 || !numeric && kind != 0 {
					x.stop("an attribute is not of the type its line says")
				}
			default:
				x.stop("an attribute is made more than one feature")
			}
		}
		if !some {
			x.stop("no attribute is read")
		}
		for _, q := range e.leaving(k) {
			if q.fails() || len(q.Ret) == 1 && q.Ret[0].Op == "nil" {
				continue
			}
			rs := lineRead(q)
			ok := false
			for _, g := range q.All() {
				g.walk(func(y *Term) bool {
					if y.Op == "extract" && y.S == "0" && len(rs) == 1 && y.Args[0] == rs[0].Res && starts(q.All(), y, "@data") == 1 {
						ok = true
					}
					return true
				})
			}
			if !ok {
				x.stop("the header can be left before @data")
			}
		}
	})
	if !found {
		x.stop("no matrix is returned")
	}
}

// in: the paths an event is on.
func in(e *Exec, ev *Event) (out []*Path) {
	e.each(func(cu *Cut, p *Path) {
		if p.indexOf(ev) >= 0 {
			out = append(out, p)
		}
	})
	return
}

// carried: what the variables that a loop leaves alone are when it is entered by q.
func (e *Exec) carried(l *Cut, q *Path) map[*Term]*Term {
	sub := map[*Term]*Term{}
	_, back := e.into(l)
	for s, v := range q.Phi {
		same := true
		for _, b := range back {
			same = same && b.next(s) == s
		}
		if same {
			sub[s] = v
		}
	}
	return sub
}

// parsesSvm: every line is a case, and every feature gets one value for it.
func (c *Check) parsesSvm() {
	f := c.fn("", "ParseLibSVM")
	e := c.run(f, "matrix", Options{Opaque: exportedRoot})
	if e == nil {
		return
	}
	x := &matrixIO{c: c, e: e, key: "matrix/ParseLibSVM"}
	// a malformed value ends the reading
	e.tolerate = func(p *Path) bool {
		return p.fails() || p.End == "return" && p.To == nil && len(p.Ret) == 1 && p.Ret[0].Op == "nil"
	}
	defer func() {
		x.done()
		if x.why != "" {
			c.bad(x.key, f.Pos(), "ParseLibSVM: %s", x.why)
		}
	}()
	calls := func(p *Path, name string) (out []*Event) {
		for _, ev := range p.Events {
			if ev.Kind == "call" && (nameIs(ev.Name, name) || strings.HasSuffix(ev.Name, ")."+name)) {
				out = append(out, ev)
			}
		}
		return
	}
	var k *Cut
	var puts, adds []*Event
	e.each(func(cu *Cut, p *Path) {
		for _, ev := range calls(p, "ReadString") {
			l := e.loopOf(ev)
			if l == nil || k != nil && k != l {
				x.stop("the lines are not read by one loop")
			}
			k = l
		}
		puts = append(puts, calls(p, "PutStr")...)
		adds = append(adds, calls(p, "Append")...)
	})
	if k == nil || len(puts) == 0 || len(adds) == 0 {
		x.stop("undecided: no lines are read")
		return
	}
	c.ob("ParseLibSVM", "the lines")
	if e.outer(k) != nil || !e.oncePerTurn(k, func(p *Path) int { return len(calls(p, "ReadString")) }) {
		x.stop("a line can be dropped")
	}
	lineOf := func(t *Term) bool {
		if t == nil || t.Op != "extract" || t.S != "0" {
			return false
		}
		return len(isCall(t.Args[0], "ReadString")) > 0
	}
	// word n of the line
	word := func(t *Term) *Term {
		arr, i := elem(t)
		if arr == nil {
			return nil
		}
		if arr.Op == "slice" && arr.Args[2].Op == "none" {
			if lo, ok := arr.Args[1].intc(); ok {
				arr, i = arr.Args[0], addI(i, lo)
			}
		}
		if a := isCall(arr, "Fields"); len(a) == 1 && lineOf(a[0]) {
			return i
		}
		return nil
	}
	nwords := func(n *Term) bool {
		return lenOfList(n, func(l *Term) bool {
			a := isCall(l, "Fields")
			return len(a) == 1 && lineOf(a[0])
		})
	}
	var data, labels *Term
	var done []*Path
	e.each(func(cu *Cut, p *Path) {
		if p.End != "return" || p.To != nil || len(p.Ret) != 1 || p.Ret[0].Op == "nil" {
			return
		}
		d, l := p.matrixMade(unwrapped(p.Ret[0]))
		if d == nil || l == nil || data != nil && (d != data || l != labels) {
			x.stop("undecided: what the matrix returned is made of")
		}
		data, labels = d, l
		done = append(done, p)
	})
	if data == nil {
		x.stop("no matrix is returned")
		return
	}
	for _, p := range done {
		rs := calls(p, "ReadString")
		if len(rs) != 1 || !p.atEnd(rs[0]) {
			x.stop("reading can stop before the end of the data")
		}
	}
	// the labels
	c.ob("ParseLibSVM", "the labels")
	gl := e.gather(labels)
	isLabel := map[*Event]bool{}
	for _, a := range gl.appends {
		isLabel[a.ev] = true
		if len(a.elems) != 1 || a.all {
			x.stop("a case is not given exactly one label")
			continue
		}
		ps, why := pieces(a.elems[0])
		if n := one1(ps); why != "" || n == nil || !e.countsTurns(k, n) {
			x.stop("a case is not labelled with its number")
		}
	}
	does := func(evs map[*Event]bool) func(p *Path) int {
		return func(p *Path) (n int) {
			for _, ev := range p.Events {
				if evs[ev] {
					n++
				}
			}
			return
		}
	}
	some := func(f func(p *Path) int) func(p *Path) bool { return func(p *Path) bool { return f(p) > 0 } }
	if len(gl.other) > 0 || !e.oncePerTurn(k, does(isLabel)) || !e.everyTurn(k, some(does(isLabel))) {
		x.stop("a case is not given exactly one label")
	}
	// the features
	gd := e.gather(data)
	if len(gd.other) > 0 {
		x.stop("undecided: how the features are gathered")
	}
	isData := func(t *Term) bool { return gd.values[t] || gd.values[e.plain(t)] }
	featureAt := func(t *Term) *Term {
		arr, i := elem(unwrapped(t))
		if arr == nil {
			return nil
		}
		if arr.Op == "slice" && arr.Args[2].Op == "none" {
			if lo, ok := arr.Args[1].intc(); ok {
				arr, i = arr.Args[0], addI(i, lo)
			}
		}
		if !isData(arr) {
			return nil
		}
		return i
	}
	// the values given
	isPut := map[*Event]bool{}
	var kv *Cut
	var number *Term
	for _, ev := range puts {
		c.ob("ParseLibSVM", "the values of a line")
		isPut[ev] = true
		l := e.loopOf(ev)
		if l == nil || kv != nil && l != kv || e.outer(l) != k || len(ev.Args) != 3 {
			x.stop("the values are not stored by one loop over the line")
			continue
		}
		kv = l
		part := func(t *Term, n int64) (j *Term) {
			arr, i := elem(t)
			if arr == nil || i != intT(n) {
				return nil
			}
			a := isCall(arr, "Split")
			if len(a) != 2 {
				if a = isCall(arr, "SplitN"); len(a) != 3 || a[2] != intT(2) {
					return nil
				}
			}
			if a[1] != strT(":") {
				return nil
			}
			return word(a[0])
		}
		fi := featureAt(ev.Args[0])
		var j *Term
		if fi != nil && fi.Op == "extract" && fi.S == "0" {
			if a := isCall(fi.Args[0], "Atoi"); len(a) == 1 {
				j = part(a[0], 0)
			}
		}
		number = fi
		if arr, _ := elem(unwrapped(ev.Args[0])); fi != nil {
			for _, p := range in(e, ev) {
				if decide(p.before(ev), ge0(addI(subT(lenT(arr), fi), -1))) != 1 {
					x.stop("a value can be stored in a feature that is not there yet")
				}
			}
		}
		if j == nil {
			x.stop("a value is stored in " + ev.Args[0].String() + " and not in the feature its number names")
			continue
		}
		if part(ev.Args[2], 1) != j {
			x.stop("the value stored is " + ev.Args[2].String())
		}
		if !e.countsTurns(k, ev.Args[1]) {
			x.stop("a value is stored for another case")
		}
		ok := false
		for _, n := range e.lengths(l, nwords) {
			ok = ok || e.countsIn(l, j, intT(1), n) == ""
		}
		for s := range l.symbols(e) {
			for _, o := range []int64{0, 1, 2} {
				if j == addI(s, o) && e.countsAny(l, addI(s, o-1), func(n *Term) bool {
					return n.Op == "len" && n.Args[0].Op == "slice" && nwords(lenT(n.Args[0].Args[0]))
				}) == "" {
					ok = true
				}
			}
		}
		if !ok {
			x.stop("not every value of the line is stored")
		}
	}
	if kv == nil || x.why != "" {
		return
	}
	if !e.oncePerTurn(kv, does(isPut)) || !e.everyTurn(kv, some(does(isPut))) || !e.everyTurn(k, func(p *Path) bool { return p.To == kv }) {
		x.stop("a value of the line can be dropped")
	}
	// what every feature gets first
	isFirst := map[*Event]bool{}
	var kz *Cut
	isZero0 := map[*Event]bool{}
	for _, ev := range adds {
		c.ob("ParseLibSVM", "what every feature gets")
		if len(ev.Args) != 2 {
			continue
		}
		if w := word(ev.Args[1]); w != nil && isZero(w) {
			isFirst[ev] = true
			arr, i := elem(unwrapped(ev.Args[0]))
			if arr == nil || !isData(arr) || !isZero(i) {
				x.stop("the first value of a line is added to " + ev.Args[0].String())
			}
			continue
		}
		isZero0[ev] = true
		l := e.loopOf(ev)
		if ev.Args[1] != strT("0") || l == nil || e.outer(l) != k || kz != nil && kz != l {
			x.stop("a feature without a value is given " + ev.Args[1].String())
			continue
		}
		kz = l
		enter, _ := e.into(l)
		for _, q := range enter {
			sub := e.carried(l, q)
			fi := featureAt(substT(sub, ev.Args[0]))
			arr, _ := elem(unwrapped(substT(sub, ev.Args[0])))
			if fi == nil {
				x.stop("a zero is added to " + ev.Args[0].String())
				continue
			}
			if arr.Op == "slice" {
				arr = arr.Args[0]
			}
			whole := false
			for s := range l.symbols(e) {
				for _, o := range []int64{0, 1, 2} {
					if addI(s, o) != fi {
						continue
					}
					for _, n := range e.lengths(l, func(n *Term) bool { return substT(sub, n) == lenT(arr) }) {
						whole = whole || e.countsIn(l, fi, intT(1), n) == ""
					}
					for _, n := range e.lengths(l, func(n *Term) bool { return substT(sub, n) == addI(lenT(arr), -1) }) {
						whole = whole || e.counts(l, addI(fi, -1), n) == ""
					}
				}
			}
			if !whole {
				x.stop("not every feature but the first is given a zero")
			}
			// it is the list as it is now
			grown := false
			for _, o := range q.Events {
				if o.Kind == "append" && gd.values[o.Val] && o.Val != arr {
					grown = true
				}
			}
			if grown {
				x.stop("a new feature is left out")
			}
		}
	}
	if len(isFirst) == 0 || !e.oncePerTurn(k, does(isFirst)) || !e.everyTurn(k, some(does(isFirst))) {
		x.stop("the first value of a line is not added exactly once")
	}
	if kz == nil || !e.oncePerTurn(kz, does(isZero0)) || !e.everyTurn(kz, some(does(isZero0))) || !e.everyTurn(k, func(p *Path) bool { return p.To == kz && p.From != kz }) {
		x.stop("a feature without a value can be left without a zero")
		return
	}
	if e.reachesFrom(k, func(p *Path) bool { return p.To == kz || p.To == k }, some(does(isPut))) != nil {
		x.stop("a value can be stored before its place is made")
	}
	if e.reachesFrom(kv, func(p *Path) bool { return p.To == k }, func(p *Path) bool { return p.To == kz }) != nil {
		x.stop("a feature can be given a zero twice")
	}
	// the features made
	for _, a := range gd.appends {
		c.ob("ParseLibSVM", "a new feature")
		if a.all || len(a.elems) != 1 {
			x.stop("undecided: which features are made")
			continue
		}
		_, numeric, ok := a.p.newFeature(a.elems[0])
		if !ok {
			x.stop("undecided: the feature made is " + a.elems[0].String())
			continue
		}
		facts := a.p.All()
		if l := e.loopOf(a.ev); l == k {
			// the target
			first := false
			for _, g := range facts {
				g.walk(func(y *Term) bool {
					first = first || y.Op == "sym" && decide(facts, eqZ(y)) == 1 && e.countsTurns(k, y)
					first = first || y.Op == "len" && isData(y.Args[0]) && (decide(facts, eqZ(y)) == 1 || decide(facts, ge0(negT(y))) == 1)
					return true
				})
			}
			if !first {
				x.stop("another target can be made than with the first line")
			}
			kind := -1
			for _, g := range facts {
				g.walk(func(y *Term) bool {
					if a := isCall(y, "Contains"); len(a) == 2 && a[1] == strT(".") {
						if w := word(a[0]); w != nil && isZero(w) {
							kind = decide(facts, y)
						}
					}
					return true
				})
			}
			if numeric && kind != 1 || !numeric && kind != 0 {
				x.stop("the target is not of the type its first value says")
			}
			continue
		}
		if !numeric {
			x.stop("a feature that is made when its number comes up is not numerical")
		}
		o := unwrapped(a.elems[0])
		for _, n := range []string{"DenseNumFeature.NumData", "DenseNumFeature.Missing"} {
			var v *Term
			for _, ev := range a.p.Events {
				if ev.Kind == "store" && addrField(ev.Addr, n) == o {
					v = ev.Val
				}
			}
			if v == nil || v.Op != "makeslice" || !e.countsTurns(k, addI(lenT(v), -1)) {
				x.stop("a new feature is not given a zero for every case so far")
			}
		}
		l := e.loopOf(a.ev)
		if l == nil || !(l == kv || e.outer(l) == kv) {
			x.stop("undecided: when a new feature is made")
			continue
		}
		if number == nil || decide(facts, ge0(subT(number, lenT(a.ev.Val.Args[0])))) != 1 {
			x.stop("a feature can be made that no line names, after which those that follow have another number")
		}
	}
	first := 0
	for _, a := range gd.appends {
		if e.loopOf(a.ev) == k {
			first++
		}
	}
	if first == 0 || first == len(gd.appends) {
		x.stop("no features are made")
	}
	tgt := map[*Event]bool{}
	for _, a := range gd.appends {
		if e.loopOf(a.ev) == k {
			tgt[a.ev] = true
		}
	}
	if !e.oncePerTurn(k, does(tgt)) {
		x.stop("the target can be made twice")
	}
}

func init() {
	register(&Rule{ID: "C37", Min: 30,
		What: "what the writers write, put together over all paths and loops as a grammar of lines and fields, is the layout of the format: each loop counted over all features or over the cases given, in order, and each field the value of that feature for that case; the readers read one record per turn up to the end of the data and store each field once, in the feature of its column, number or line",
		Run: func(c *Check) {
			c.writesAfm()
			c.writesArff()
			c.writesSvm("WriteLibSvm")
			c.writesSvm("WriteLibSvmCases")
			c.loadsCases()
			c.parsesFeature()
			c.parsesAfm()
			c.parsesArff()
			c.parsesSvm()
		}})
}
