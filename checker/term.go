package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic value: two values with the same Term are equal.
type Term struct {
	ID   int
	Op   string
	Args []*Term
	S    string // symbol name, field, callee...
	Ver  string // memory version of a load, "" when the location is never written
	C    constant.Value
	P    *Poly
	T    types.Type
	V    interface{} // *ssa.Function for "func"/"closure", *Cut for phi...
	key  string
}

type Factor struct {
	T *Term
	E int
}
type Mono struct {
	C *big.Rat
	F []Factor
}
type Poly struct{ M []Mono }

var termTab = map[string]*Term{}

func intern(t *Term) *Term {
	if o := termTab[t.key]; o != nil {
		return o
	}
	t.ID = len(termTab) + 1
	termTab[t.key] = t
	return t
}

func mk(op, s string, args ...*Term) *Term { return mkv(op, s, "", args...) }

func mkv(op, s, ver string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(ver)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if o := termTab[k]; o != nil {
		return o
	}
	return intern(&Term{Op: op, S: s, Ver: ver, Args: args, key: k})
}

func sym(kind, name string, t types.Type) *Term {
	x := mk("sym", kind+":"+name)
	if x.T == nil {
		x.T = t
	}
	return x
}

func konst(c constant.Value) *Term {
	if c.Kind() == constant.Int || c.Kind() == constant.Float {
		r, ok := new(big.Rat).SetString(c.ExactString())
		if ok {
			return polyTerm(&Poly{[]Mono{{r, nil}}})
		}
	}
	k := "const|" + c.Kind().String() + "|" + c.ExactString()
	if o := termTab[k]; o != nil {
		return o
	}
	return intern(&Term{Op: "const", C: c, key: k})
}

func intT(i int64) *Term  { return konst(constant.MakeInt64(i)) }
func strT(s string) *Term { return konst(constant.MakeString(s)) }
func boolT(b bool) *Term  { return konst(constant.MakeBool(b)) }
func nilT() *Term         { return mk("nil", "") }
func (t *Term) isTrue() bool {
	return t.Op == "const" && t.C.Kind() == constant.Bool && constant.BoolVal(t.C)
}
func (t *Term) isFalse() bool {
	return t.Op == "const" && t.C.Kind() == constant.Bool && !constant.BoolVal(t.C)
}
func (t *Term) str() (string, bool) {
	if t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

// rat returns the value of a numeric constant.
func (t *Term) rat() (*big.Rat, bool) {
	if t.Op == "poly" {
		if len(t.P.M) == 0 {
			return new(big.Rat), true
		}
		if len(t.P.M) == 1 && len(t.P.M[0].F) == 0 {
			return t.P.M[0].C, true
		}
	}
	return nil, false
}
func (t *Term) intc() (int64, bool) {
	r, ok := t.rat()
	if ok && r.IsInt() && r.Num().IsInt64() {
		return r.Num().Int64(), true
	}
	return 0, false
}

func monoKey(f []Factor) string {
	var b strings.Builder
	for _, x := range f {
		fmt.Fprintf(&b, "%d^%d*", x.T.ID, x.E)
	}
	return b.String()
}

func normPoly(p *Poly) *Poly {
	m := map[string]int{}
	var out []Mono
	for _, mo := range p.M {
		if mo.C.Sign() == 0 {
			continue
		}
		fs := append([]Factor(nil), mo.F...)
		sort.Slice(fs, func(i, j int) bool { return fs[i].T.ID < fs[j].T.ID })
		var f2 []Factor
		for _, f := range fs {
			if n := len(f2); n > 0 && f2[n-1].T == f.T {
				f2[n-1].E += f.E
			} else {
				f2 = append(f2, f)
			}
		}
		var f3 []Factor
		for _, f := range f2 {
			if f.E != 0 {
				f3 = append(f3, f)
			}
		}
		k := monoKey(f3)
		if i, ok := m[k]; ok {
			out[i].C = new(big.Rat).Add(out[i].C, mo.C)
		} else {
			m[k] = len(out)
			out = append(out, Mono{new(big.Rat).Set(mo.C), f3})
		}
	}
	var o2 []Mono
	for _, mo := range out {
		if mo.C.Sign() != 0 {
			o2 = append(o2, mo)
		}
	}
	sort.Slice(o2, func(i, j int) bool { return monoKey(o2[i].F) < monoKey(o2[j].F) })
	return &Poly{o2}
}

func polyTerm(p *Poly) *Term {
	p = normPoly(p)
	if len(p.M) == 1 && len(p.M[0].F) == 1 && p.M[0].F[0].E == 1 && p.M[0].C.Cmp(big.NewRat(1, 1)) == 0 {
		return p.M[0].F[0].T
	}
	var b strings.Builder
	b.WriteString("poly|")
	for _, m := range p.M {
		b.WriteString(m.C.RatString())
		b.WriteByte('*')
		b.WriteString(monoKey(m.F))
		b.WriteByte('+')
	}
	k := b.String()
	if o := termTab[k]; o != nil {
		return o
	}
	var args []*Term
	for _, m := range p.M {
		for _, f := range m.F {
			args = append(args, f.T)
		}
	}
	return intern(&Term{Op: "poly", P: p, Args: args, key: k})
}

func asPoly(t *Term) *Poly {
	if t.Op == "poly" {
		return t.P
	}
	return &Poly{[]Mono{{big.NewRat(1, 1), []Factor{{t, 1}}}}}
}

func addT(a, b *Term) *Term {
	return polyTerm(&Poly{append(append([]Mono(nil), asPoly(a).M...), asPoly(b).M...)})
}
func scaleT(a *Term, c *big.Rat) *Term {
	var ms []Mono
	for _, m := range asPoly(a).M {
		ms = append(ms, Mono{new(big.Rat).Mul(m.C, c), m.F})
	}
	return polyTerm(&Poly{ms})
}
func negT(a *Term) *Term    { return scaleT(a, big.NewRat(-1, 1)) }
func subT(a, b *Term) *Term { return addT(a, negT(b)) }
func mulT(a, b *Term) *Term {
	var ms []Mono
	for _, x := range asPoly(a).M {
		for _, y := range asPoly(b).M {
			ms = append(ms, Mono{new(big.Rat).Mul(x.C, y.C), append(append([]Factor(nil), x.F...), y.F...)})
		}
	}
	return polyTerm(&Poly{ms})
}

// invT is 1/a over the reals.
func invT(a *Term) *Term {
	if r, ok := a.rat(); ok {
		if r.Sign() == 0 {
			return mk("inv0", "")
		}
		return polyTerm(&Poly{[]Mono{{new(big.Rat).Inv(r), nil}}})
	}
	p := asPoly(a)
	if len(p.M) == 1 {
		m := p.M[0]
		var fs []Factor
		for _, f := range m.F {
			fs = append(fs, Factor{f.T, -f.E})
		}
		return polyTerm(&Poly{[]Mono{{new(big.Rat).Inv(m.C), fs}}})
	}
	// take out what all summands have in common
	var common []Factor
	least := map[*Term]int{}
	for _, m := range p.M {
		for _, f := range m.F {
			least[f.T] = 0
		}
	}
	for t := range least {
		for i, m := range p.M {
			e := 0
			for _, f := range m.F {
				if f.T == t {
					e = f.E
				}
			}
			if i == 0 || e < least[t] {
				least[t] = e
			}
		}
		if least[t] != 0 {
			common = append(common, Factor{t, -least[t]})
		}
	}
	if len(common) > 0 {
		out := polyTerm(&Poly{[]Mono{{big.NewRat(1, 1), common}}})
		return mulT(out, invT(mulT(a, out)))
	}
	// normalise the leading coefficient
	c := p.M[0].C
	n := scaleT(a, new(big.Rat).Inv(c))
	base := mk("psum", "", n)
	return polyTerm(&Poly{[]Mono{{new(big.Rat).Inv(c), []Factor{{base, -1}}}}})
}
func divT(a, b *Term) *Term { return mulT(a, invT(b)) }

// sameReal: two terms are the same number over the reals wherever no denominator is zero.
func sameReal(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.Op != "poly" && b.Op != "poly" {
		if a.Op != b.Op || a.S != b.S || len(a.Args) != len(b.Args) || len(a.Args) == 0 || a.Ver != b.Ver || a.V != nil || b.V != nil {
			return false
		}
		for i := range a.Args {
			if !sameReal(a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	d := subT(a, b)
	for n := 0; n < 8 && !isZero(d); n++ {
		var base *Term
		for _, m := range asPoly(d).M {
			for _, f := range m.F {
				if f.T.Op == "psum" && f.E < 0 {
					base = f.T
				}
			}
		}
		if base == nil {
			return false
		}
		// multiplied by the denominator
		out := intT(0)
		for _, m := range asPoly(d).M {
			has := false
			var fs []Factor
			for _, f := range m.F {
				if f.T == base && f.E < 0 {
					has = true
					f.E++
				}
				fs = append(fs, f)
			}
			t := polyTerm(&Poly{[]Mono{{m.C, fs}}})
			if !has {
				t = mulT(t, base.Args[0])
			}
			out = addT(out, t)
		}
		d = out
	}
	return isZero(d)
}

func addI(a *Term, k int64) *Term { return addT(a, intT(k)) }

// ---- conditions -------------------------------------------------------------

func notT(a *Term) *Term {
	switch {
	case a.isTrue():
		return boolT(false)
	case a.isFalse():
		return boolT(true)
	case a.Op == "not":
		return a.Args[0]
	case a.Op == "ge0":
		return ge0(addI(negT(a.Args[0]), -1))
	}
	return mk("not", "", a)
}

// ge0 is p >= 0 over the integers.
func ge0(p *Term) *Term {
	if r, ok := p.rat(); ok {
		return boolT(r.Sign() >= 0)
	}
	// len(x) >= 0 always
	if pp := asPoly(p); len(pp.M) <= 2 {
		var k = new(big.Rat)
		nonneg, cnt := true, 0
		for _, m := range pp.M {
			if len(m.F) == 0 {
				k = m.C
				continue
			}
			cnt++
			if !(len(m.F) == 1 && m.F[0].E == 1 && m.C.Sign() > 0 && (m.F[0].T.Op == "len" || m.F[0].T.Op == "cap")) {
				nonneg = false
			}
		}
		if cnt == 1 && nonneg && k.Sign() >= 0 {
			return boolT(true)
		}
	}
	return mk("ge0", "", p)
}

func eq0(p *Term) *Term {
	if r, ok := p.rat(); ok {
		return boolT(r.Sign() == 0)
	}
	pp := asPoly(p)
	if len(pp.M) == 1 && len(pp.M[0].F) == 1 && pp.M[0].F[0].E == 1 && (pp.M[0].F[0].T.Op == "len" || pp.M[0].F[0].T.Op == "cap") {
		return notT(ge0(addI(pp.M[0].F[0].T, -1)))
	}
	if len(pp.M) > 0 && pp.M[0].C.Sign() < 0 {
		p = negT(p)
	}
	return mk("eq0", "", p)
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// bitAtom recognises a test of bit x of c in any of its spellings.
func bitAtom(a *Term) *Term {
	// and(c, shl(1,x)) compared with zero; and(shr(c,x),1); bit01(c,x)
	switch a.Op {
	case "and":
		for i := 0; i < 2; i++ {
			x, y := a.Args[i], a.Args[1-i]
			if x.Op == "shl" && isOne(x.Args[0]) {
				return mk("bit", "", y, x.Args[1])
			}
			if isOne(x) && y.Op == "shr" {
				return mk("bit", "", y.Args[0], y.Args[1])
			}
		}
	case "bit01":
		return mk("bit", "", a.Args[0], a.Args[1])
	}
	return nil
}
func isOne(t *Term) bool { v, ok := t.intc(); return ok && v == 1 }
func isZero(t *Term) bool {
	r, ok := t.rat()
	return ok && r.Sign() == 0
}

func eqT(a, b *Term, typ types.Type) *Term {
	if a == b && !isFloat(typ) {
		return boolT(true)
	}
	if isBool(typ) {
		switch {
		case a.isTrue():
			return b
		case b.isTrue():
			return a
		case a.isFalse():
			return notT(b)
		case b.isFalse():
			return notT(a)
		}
	}
	if isInt(typ) {
		for i := 0; i < 2; i++ {
			x, y := a, b
			if i == 1 {
				x, y = b, a
			}
			if ba := bitAtom(x); ba != nil {
				if isZero(y) {
					return notT(ba)
				}
				if isOne(y) && (x.Op == "bit01" || isOne(x.Args[0]) || isOne(x.Args[1])) {
					return ba
				}
				if x.Op == "and" && (y == x.Args[0] || y == x.Args[1]) && y.Op == "shl" {
					return ba
				}
			}
		}
		return eq0(subT(a, b))
	}
	if isStr(typ) {
		sa, oka := a.str()
		sb, okb := b.str()
		if oka && okb {
			return boolT(sa == sb)
		}
		if oka && sa == "" {
			return eq0(lenT(b))
		}
		if okb && sb == "" {
			return eq0(lenT(a))
		}
	}
	if a.Op == "const" && b.Op == "const" {
		return boolT(a == b)
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	if b.Op == "nil" {
		return isnil(a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

func isnil(a *Term) *Term {
	switch a.Op {
	case "nil":
		return boolT(true)
	case "alloc", "iface", "closure", "func", "makeslice", "makemap", "fieldaddr", "indexaddr", "makechan":
		return boolT(false)
	case "call":
		if a.S == "errors.New" || a.S == "fmt.Errorf" {
			return boolT(false)
		}
	}
	return mk("isnil", "", a)
}

func ltT(a, b *Term, typ types.Type) *Term { // a < b
	if isInt(typ) {
		// bit tests written as an ordered comparison
		if isZero(a) {
			if ba := bitAtom(b); ba != nil {
				return ba
			}
		}
		return ge0(addI(subT(b, a), -1))
	}
	if ra, ok := a.rat(); ok {
		if rb, ok := b.rat(); ok {
			return boolT(ra.Cmp(rb) < 0)
		}
	}
	if sa, ok := a.str(); ok {
		if sb, ok := b.str(); ok {
			return boolT(sa < sb)
		}
	}
	return mk("lt", "", a, b)
}
func leT(a, b *Term, typ types.Type) *Term { // a <= b
	if isInt(typ) {
		return ge0(subT(b, a))
	}
	if isStr(typ) {
		return notT(ltT(b, a, typ))
	}
	if ra, ok := a.rat(); ok {
		if rb, ok := b.rat(); ok {
			return boolT(ra.Cmp(rb) <= 0)
		}
	}
	return mk("le", "", a, b)
}

func lenT(a *Term) *Term {
	if s, ok := a.str(); ok {
		return intT(int64(len(s)))
	}
	switch a.Op {
	case "nil":
		return intT(0)
	case "makeslice":
		return a.Args[0]
	case "slice": // slice(base, lo, hi): lengths are canonical
		lo, hi := a.Args[1], a.Args[2]
		if lo.Op == "none" {
			lo = intT(0)
		}
		if hi.Op == "none" {
			hi = lenT(a.Args[0])
		}
		return subT(hi, lo)
	case "append":
		return addI(lenT(a.Args[0]), int64(len(a.Args)-1))
	case "appendall":
		return addT(lenT(a.Args[0]), lenT(a.Args[1]))
	case "arr":
		n, _ := strconv.Atoi(a.S)
		return intT(int64(n))
	case "alloc":
		if a.T != nil {
			if p, ok := a.T.Underlying().(*types.Pointer); ok {
				if t, ok := p.Elem().Underlying().(*types.Array); ok {
					return intT(t.Len())
				}
			}
		}
	}
	return mk("len", "", a)
}

// ---- traversal --------------------------------------------------------------

func (t *Term) walk(f func(*Term) bool) {
	seen := map[int]bool{}
	var w func(*Term)
	w = func(x *Term) {
		if seen[x.ID] {
			return
		}
		seen[x.ID] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			w(a)
		}
	}
	w(t)
}

func (t *Term) contains(pred func(*Term) bool) bool {
	r := false
	t.walk(func(x *Term) bool {
		if r {
			return false
		}
		if pred(x) {
			r = true
		}
		return !r
	})
	return r
}

func (t *Term) has(u *Term) bool { return t.contains(func(x *Term) bool { return x == u }) }

// rewrite rebuilds t bottom-up applying f to every node (f may return nil to keep it).
func rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[int]*Term{}
	var w func(*Term) *Term
	w = func(x *Term) *Term {
		if r, ok := memo[x.ID]; ok {
			return r
		}
		if r := f(x); r != nil {
			memo[x.ID] = r
			return r
		}
		r := rebuild(x, w)
		if r2 := f(r); r2 != nil {
			r = r2
		}
		memo[x.ID] = r
		return r
	}
	return w(t)
}

func rebuild(x *Term, w func(*Term) *Term) *Term {
	if x.Op == "poly" {
		acc := intT(0)
		for _, m := range x.P.M {
			mt := polyTerm(&Poly{[]Mono{{m.C, nil}}})
			for _, f := range m.F {
				ft := w(f.T)
				if f.T.Op == "psum" && ft.Op != "psum" {
					// rebuilt below
				}
				e := f.E
				if e < 0 {
					ft = invT(ft)
					e = -e
				}
				for i := 0; i < e; i++ {
					mt = mulT(mt, ft)
				}
			}
			acc = addT(acc, mt)
		}
		return acc
	}
	if len(x.Args) == 0 {
		return x
	}
	args := make([]*Term, len(x.Args))
	same := true
	for i, a := range x.Args {
		args[i] = w(a)
		if args[i] != a {
			same = false
		}
	}
	if same {
		return x
	}
	switch x.Op {
	case "psum":
		return args[0]
	case "ge0":
		return ge0(args[0])
	case "eq0":
		return eq0(args[0])
	case "not":
		return notT(args[0])
	case "len":
		return lenT(args[0])
	case "isnil":
		return isnil(args[0])
	case "eq":
		if args[0].ID > args[1].ID {
			args[0], args[1] = args[1], args[0]
		}
	}
	n := mkv(x.Op, x.S, x.Ver, args...)
	if n.T == nil {
		n.T = x.T
	}
	if n.V == nil {
		n.V = x.V
	}
	return n
}

// strip erases memory versions: the location, not the moment.
func strip(t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.Op == "load" && x.Ver != "" {
			a := strip(x.Args[0])
			n := mkv("load", x.S, "", a)
			if n.T == nil {
				n.T = x.T
			}
			return n
		}
		return nil
	})
}

// ---- printing ---------------------------------------------------------------

func (t *Term) String() string { return t.show(0) }

// abbrev shortens long terms in dumps: each gets a name on first use.
var abbrev map[int]string

func (t *Term) show(d int) string {
	if abbrev != nil && (t.Op == "call" || t.Op == "append" || t.Op == "struct" || (t.Op == "load" && t.Args[0].Op != "alloc")) {
		if n := abbrev[t.ID]; n != "" {
			return n
		}
		s := t.show1(d)
		if len(s) > 50 {
			n := fmt.Sprintf("«%d»", len(abbrev)+1)
			abbrev[t.ID] = n
			return n + "{" + s + "}"
		}
		return s
	}
	return t.show1(d)
}

func (t *Term) show1(d int) string {
	if d > 12 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].show(d + 1) }
	list := func(ts []*Term) string {
		var s []string
		for _, x := range ts {
			s = append(s, x.show(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.C.ExactString()
	case "nil":
		return "nil"
	case "none":
		return ""
	case "sym":
		return t.S[strings.Index(t.S, ":")+1:]
	case "poly":
		if len(t.P.M) == 0 {
			return "0"
		}
		var parts []string
		for _, m := range t.P.M {
			var fs []string
			one := m.C.Cmp(big.NewRat(1, 1)) == 0
			if !one || len(m.F) == 0 {
				fs = append(fs, m.C.RatString())
			}
			for _, f := range m.F {
				s := f.T.show(d + 1)
				if f.E != 1 {
					s += fmt.Sprintf("^%d", f.E)
				}
				fs = append(fs, s)
			}
			parts = append(parts, strings.Join(fs, "*"))
		}
		return "(" + strings.Join(parts, " + ") + ")"
	case "load":
		s := strings.TrimPrefix(t.Args[0].show(d), "&")
		if t.Args[0].Op != "fieldaddr" && t.Args[0].Op != "indexaddr" && t.Args[0].Op != "alloc" && t.Args[0].Op != "global" {
			s = "*" + s
		}
		if t.Ver != "" {
			return s + "'"
		}
		return s
	case "fieldaddr":
		return "&" + a(0) + "." + t.S[strings.LastIndex(t.S, ".")+1:]
	case "indexaddr":
		return "&" + a(0) + "[" + a(1) + "]"
	case "alloc":
		return "&" + t.S
	case "global":
		return "&" + t.S
	case "ge0":
		return a(0) + ">=0"
	case "eq0":
		return a(0) + "==0"
	case "not":
		return "!(" + a(0) + ")"
	case "lt":
		return a(0) + "<" + a(1)
	case "le":
		return a(0) + "<=" + a(1)
	case "eq":
		return a(0) + "==" + a(1)
	case "psum", "iface":
		return a(0)
	case "slice":
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case "call":
		return t.S + "(" + list(t.Args) + ")"
	case "extract":
		return a(0) + "#" + t.S
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	if len(t.Args) > 0 {
		s += "(" + list(t.Args) + ")"
	}
	return s
}
