package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C28: what cannot be written is reported ----------------------------------------------------------

var errorType = types.Universe.Lookup("error").Type()

// errorResult: the call's last result is an error; n counts the results.
func errorResult(cc *ssa.CallCommon) (n int, ok bool) {
	rs := cc.Signature().Results()
	n = rs.Len()
	return n, n > 0 && types.Identical(rs.At(n-1).Type(), errorType)
}

// errOf is the error a call event gives.
func errOf(ev *Event) *Term {
	ci, ok := ev.In.(ssa.CallInstruction)
	if !ok || ev.Res == nil {
		return nil
	}
	n, ok := errorResult(ci.Common())
	switch {
	case n == 1 && isMatrix(ci.Common().Signature().Results().At(0).Type()):
		return ev.Res
	case !ok:
		return nil
	case n == 1:
		return ev.Res
	}
	return mkExtract(ev.Res, strconv.Itoa(n-1))
}

// inMemory: the writer keeps what it is given in memory, or is one of the standard streams.
func inMemory(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
				return true
			}
		}
		break
	}
	switch strings.TrimPrefix(v.Type().String(), "*") {
	case "bytes.Buffer", "strings.Builder":
		return true
	}
	return false
}

// writeCall: the call hands something to a writer outside of the program's memory, or opens a file to write
// to, and says in an error whether that went well.
func writeCall(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if _, ok := errorResult(cc); !ok {
		return false
	}
	if f := cc.StaticCallee(); f != nil && fnInRepo(f) {
		return false
	}
	name := calleeName(cc)
	switch name {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString", "io.Copy", "io.CopyN", "io.CopyBuffer":
		return !inMemory(cc.Args[0])
	case "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile":
		return true
	}
	method := ""
	var recv ssa.Value
	if cc.IsInvoke() {
		method, recv = cc.Method.Name(), cc.Value
	} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		method, recv = f.Name(), cc.Args[0]
	}
	switch method {
	case "Write", "WriteAll", "WriteString", "WriteByte", "WriteRune", "WriteTo", "ReadFrom", "Encode", "Flush", "Truncate":
		return !inMemory(recv)
	case "Error":
		return calleeName(cc) == "(*encoding/csv.Writer).Error"
	case "Close":
		return bufferedKind(recv.Type().String()) == "Close"
	}
	return false
}

// bufferedKind: how a writer that keeps things back hands them on.
func bufferedKind(t string) string {
	switch strings.TrimPrefix(t, "*") {
	case "encoding/csv.Writer":
		return "Error"
	case "bufio.Writer", "text/tabwriter.Writer":
		return "Flush"
	case "compress/gzip.Writer", "compress/zlib.Writer", "compress/flate.Writer", "archive/zip.Writer", "archive/tar.Writer":
		return "Close"
	}
	return ""
}

// reporting lists the functions of the repository that write and give back an error.
func (c *Check) reporting(is func(ssa.Instruction) bool, reads bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.P.Funcs {
			rs := f.Signature.Results()
			if out[f] || f.Parent() != nil || rs.Len() == 0 || !types.Identical(rs.At(rs.Len()-1).Type(), errorType) && !(reads && isMatrix(rs.At(rs.Len()-1).Type())) {
				continue
			}
			var reach func(g *ssa.Function) bool
			reach = func(g *ssa.Function) bool {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if is(in) {
							return true
						}
						if ci, ok := in.(ssa.CallInstruction); ok {
							if h := ci.Common().StaticCallee(); h != nil && out[h] {
								return true
							}
						}
					}
				}
				for _, h := range g.AnonFuncs {
					if reach(h) {
						return true
					}
				}
				return false
			}
			if reach(f) {
				out[f], changed = true, true
			}
		}
	}
	return out
}

type errFlow struct {
	c     *Check
	e     *Exec
	steps int
	reads bool // the end of the input is no failure, and a missing matrix is one
}

// fine: the value is known to tell of no failure.
func (x *errFlow) fine(facts []*Term, t *Term) bool {
	if isMatrix(t.T) {
		return decide(facts, isnil(t)) == 0
	}
	if decide(facts, isnil(t)) == 1 {
		return true
	}
	if x.reads {
		for _, f := range facts {
			if f.Op != "not" && f.contains(func(y *Term) bool { return y == t }) && f.contains(func(y *Term) bool { return y.Op == "global" && strings.HasSuffix(y.S, "io.EOF") }) {
				return true
			}
		}
	}
	return false
}

func isMatrix(t types.Type) bool {
	return t != nil && strings.HasSuffix(t.String(), "CloudForest.FeatureMatrix") && strings.HasPrefix(t.String(), "*")
}

// handled: once the call has given the error, the program ends, or the function returns an error, unless it
// is known to be nil.
func (x *errFlow) handled(p *Path, ev *Event, err *Term) string {
	return x.onPath(p, ev, map[*Term]bool{err: true}, map[string]bool{}, true)
}

func (x *errFlow) onPath(p *Path, ev *Event, errs map[*Term]bool, seen map[string]bool, first bool) string {
	// made again, the call tells nothing of the error it gave before
	if !first {
		for _, o := range p.Events {
			if o.In == ev.In && o.Kind == "call" && o.Ctx == ev.Ctx {
				kept := map[*Term]bool{}
				for t := range errs {
					if t != errOf(o) && t != errOf(ev) {
						kept[t] = true
					}
				}
				errs = kept
			}
		}
		if len(errs) == 0 {
			return "the next call is made without looking at it"
		}
	}
	facts := p.All()
	for t := range errs {
		if x.fine(facts, t) || x.reads && x.indexed(facts, ev, t) {
			return ""
		}
	}
	after := !first
	for _, o := range p.Events {
		if o == ev && first {
			after = true
			continue
		}
		if after && o.Kind == "store" && (o.Addr.Op == "alloc" || o.Addr.Op == "freevar") && errs[unwrapped(o.Val)] {
			errs = with(errs, x.loadOf(o.Addr))
		}
	}
	switch p.End {
	case "panic":
		return ""
	case "exit":
		for _, o := range p.Events {
			if o.Kind == "call" && isExit(o.Name) {
				if o.Name == "runtime.Goexit" {
					return "only the goroutine ends"
				}
				if o.Name == "os.Exit" && len(o.Args) == 1 && isZero(o.Args[0]) {
					return "the program ends as if all was well"
				}
			}
		}
		return ""
	case "return":
		if len(p.Ret) == 0 {
			return "it is dropped"
		}
		rs := x.e.Root.Signature.Results()
		r := unwrapped(p.Ret[len(p.Ret)-1])
		if x.reads && isMatrix(rs.At(rs.Len()-1).Type()) {
			if errs[r] && isMatrix(r.T) || decide(facts, isnil(r)) == 1 {
				return ""
			}
			return "a matrix is returned"
		}
		if !types.Identical(rs.At(rs.Len()-1).Type(), errorType) {
			return "it is dropped"
		}
		if errs[r] && !isMatrix(r.T) || x.nonNil(facts, r) {
			return ""
		}
		return "it is not returned"
	}
	if p.To == nil {
		return "it is dropped"
	}
	next := map[*Term]bool{}
	for t := range errs {
		next[t] = true
	}
	for s, v := range p.Phi {
		if errs[unwrapped(v)] || s.T != nil && types.Identical(s.T, errorType) && x.nonNil(facts, unwrapped(v)) {
			next[s] = true
		} else {
			delete(next, s)
		}
	}
	k := strconv.Itoa(p.To.ID)
	for t := range next {
		k += "," + strconv.Itoa(t.ID)
	}
	if seen[k] {
		return ""
	}
	seen[k] = true
	if x.steps++; x.steps > 5000 {
		return "undecided"
	}
	for _, q := range p.To.Paths {
		if why := x.onPath(q, ev, next, seen, false); why != "" {
			return why
		}
	}
	return ""
}

func with(m map[*Term]bool, t *Term) map[*Term]bool {
	out := map[*Term]bool{t: true}
	for k := range m {
		out[k] = true
	}
	return out
}

// indexed: the path uses a byte the call was to give, which ends the program when there is none.
func (x *errFlow) indexed(facts []*Term, ev *Event, err *Term) bool {
	if err.Op != "extract" || !strings.HasSuffix(ev.Name, ".Peek") {
		return false
	}
	got := mkExtract(err.Args[0], "0")
	for _, f := range facts {
		if f.contains(func(y *Term) bool {
			arr, i := elem(y)
			return arr == got && isZero(i)
		}) {
			return true
		}
	}
	return false
}

// nonNil: the value is certainly an error.
func (x *errFlow) nonNil(facts []*Term, r *Term) bool {
	if decide(facts, isnil(r)) == 0 {
		return true
	}
	if r.Op == "call" && (r.S == "fmt.Errorf" || r.S == "errors.New") {
		return true
	}
	if r.Op == "load" && r.Args[0].Op == "global" {
		return true // io.ErrShortWrite and the like
	}
	return r.Op == "alloc"
}

// loadOf is what is read from a variable.
func (x *errFlow) loadOf(a *Term) *Term { return mk("load", "", a) }

// buffered lists the writers made on the way that keep things back.
func (x *errFlow) buffered() (out []*Term) {
	seen := map[*Term]bool{}
	see := func(t *Term) {
		if t == nil {
			return
		}
		t.walk(func(y *Term) bool {
			if y.Op == "call" && !seen[y] {
				switch y.S {
				case "encoding/csv.NewWriter", "bufio.NewWriter", "bufio.NewWriterSize", "text/tabwriter.NewWriter", "compress/gzip.NewWriter", "compress/zlib.NewWriter", "archive/zip.NewWriter", "archive/tar.NewWriter":
					seen[y] = true
					if len(y.Args) == 0 || !x.memory(y.Args[0]) {
						out = append(out, y)
					}
				}
			}
			return true
		})
	}
	x.e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			see(ev.Addr)
			see(ev.Val)
			see(ev.Res)
			for _, a := range ev.Args {
				see(a)
			}
		}
		for _, v := range p.Phi {
			see(v)
		}
		for _, v := range p.Ret {
			see(v)
		}
	})
	// a buffer put in a buffer is the same buffer
	var kept []*Term
	for _, w := range out {
		inner := false
		for _, v := range out {
			inner = inner || innerBuffer(v) == w
		}
		if !inner {
			kept = append(kept, w)
		}
	}
	return kept
}

// innerBuffer: the buffer made by bufio.NewWriter that w, another made for it, uses as its own.
func innerBuffer(w *Term) *Term {
	if (w.S == "encoding/csv.NewWriter" || w.S == "bufio.NewWriter") && len(w.Args) == 1 {
		if b := unwrapped(w.Args[0]); b.Op == "call" && b.S == "bufio.NewWriter" {
			return b
		}
	}
	return nil
}

func (x *errFlow) memory(t *Term) bool {
	t = unwrapped(t)
	if t.Op == "load" && t.Args[0].Op == "global" {
		return strings.HasSuffix(t.Args[0].S, "os.Stdout") || strings.HasSuffix(t.Args[0].S, "os.Stderr")
	}
	if t.T != nil {
		switch strings.TrimPrefix(t.T.String(), "*") {
		case "bytes.Buffer", "strings.Builder":
			return true
		}
	}
	return false
}

// emptied: when the function returns without an error, what the writer w keeps back has been handed on and
// whether that went well has been asked (how that came out is judged like every other error).
func (x *errFlow) emptied(w *Term) string {
	kind := "Error"
	switch {
	case strings.HasPrefix(w.S, "bufio."), strings.HasPrefix(w.S, "text/"):
		kind = "Flush"
	case strings.HasPrefix(w.S, "compress/"), strings.HasPrefix(w.S, "archive/"):
		kind = "Close"
	}
	const clean, dirty, flushed = 1, 2, 4
	state := map[*Cut]int{}
	why := ""
	inner := innerBuffer(w)
	var walk func(cu *Cut, s int)
	walk = func(cu *Cut, s int) {
		if s&^state[cu] == 0 {
			return
		}
		state[cu] |= s
		for _, p := range cu.Paths {
			for _, bit := range []int{clean, dirty, flushed} {
				if state[cu]&bit == 0 {
					continue
				}
				n := bit
				for _, ev := range p.Events {
					on := ev.Kind == "call" && len(ev.Args) > 0 && strip(ev.Args[0]) == strip(w) && strings.HasPrefix(ev.Name, "(")
					m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
					switch {
					case on && m == kind && kind != "Error":
						n = clean
					case on && m == "Flush":
						if n == dirty {
							n = flushed
						}
					case on && m == "Error":
						if n == flushed {
							n = clean
						}
					case inner != nil && ev.Kind == "call" && m == "Flush" && len(ev.Args) > 0 && strip(ev.Args[0]) == strip(inner):
					case on && (m == "Buffered" || m == "Available" || m == "Size"):
					case on && m == "Close":
					case ev.Kind == "call" || ev.Kind == "go" || ev.Kind == "send" || ev.Kind == "store" || ev.Kind == "mapupdate":
						uses := ev.Val != nil && ev.Val.has(w) && ev.Kind != "call"
						for _, a := range ev.Args {
							uses = uses || a.has(w) || inner != nil && a.has(inner) && !on
						}
						if ev.Kind == "store" && ev.Addr.Op == "alloc" {
							uses = false // kept in a variable
						}
						if uses {
							n = dirty
						}
					}
				}
				if p.To != nil {
					walk(p.To, n)
					continue
				}
				if p.End == "return" && n != clean {
					bad := true
					rs := x.e.Root.Signature.Results()
					if len(p.Ret) > 0 && types.Identical(rs.At(rs.Len()-1).Type(), errorType) && x.nonNil(p.All(), unwrapped(p.Ret[len(p.Ret)-1])) {
						bad = false
					}
					if bad && why == "" {
						why = "what it keeps back is not written"
						if n == flushed {
							why = "whether what it keeps back could be written is not asked"
						}
					}
				}
			}
		}
	}
	for _, cu := range x.e.Cuts {
		if cu.In != nil {
			walk(cu, clean)
			break
		}
	}
	return why
}

// errorsOf judges what becomes of the errors of the calls that satisfy is.
func (c *Check) errorsOf(tag, what string, is func(in ssa.Instruction) bool) {
	rep := c.reporting(is, tag == "reads")
	calls := func(in ssa.Instruction) bool {
		if is(in) {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().StaticCallee() != nil && rep[ci.Common().StaticCallee()]
	}
	has := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if calls(in) {
					return true
				}
			}
		}
		return false
	}
	met := map[ssa.Instruction]bool{}
	root := c.P.Pkgs[RepoPath]
	work := c.rootsOf(has)
	alone := map[*ssa.Function]bool{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if tag == "reads" && silent(f) {
			for _, in := range callsIn(f) {
				met[in] = true
			}
			continue
		}
		opt := Options{GoInline: true, Opaque: func(g *ssa.Function) bool {
			if tag == "reads" && (silent(g) && has(g) || !has(g) && f.Signature.Recv() != nil && g.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), g.Signature.Recv().Type()) && strings.HasPrefix(g.Name(), "Put")) {
				return false
			}
			return g.Parent() == nil && token.IsExported(g.Name())
		}}
		if f.Pkg.Pkg != root {
			opt.Opaque = func(g *ssa.Function) bool {
				return g.Pkg != nil && g.Pkg.Pkg != f.Pkg.Pkg || g.Pkg == nil && g.Object() != nil && g.Object().Pkg() != f.Pkg.Pkg
			}
		}
		e, err := c.P.Run(f, opt)
		if err != nil {
			// what runs on its own is looked at on its own
			opt.GoInline = false
			if e, err = c.P.Run(f, opt); err != nil {
				opt.NoDefer = true // nor is what is left for a loop's end
				for _, in := range callsIn(f) {
					if _, ok := in.(*ssa.Defer); ok && calls(in) {
						c.bad(tag+"/"+f.String(), instrPos(in), "undecided: %s puts off the call of %s", f.String(), calleeName(in.(ssa.CallInstruction).Common()))
					}
				}
				e = c.run(f, tag, opt)
			}
			for _, g := range launched(f) {
				if !alone[g] && has(g) {
					alone[g] = true
					work = append(work, g)
				}
			}
		}
		if e == nil {
			continue
		}
		x := &errFlow{c: c, e: e, reads: tag == "reads"}
		told := map[ssa.Instruction]bool{}
		if tag == "reads" {
			x.readers()
		}
		// writers that keep things back keep the error as well
		keeps, shared := map[*Term]bool{}, map[*Term]bool{}
		if tag == "writes" {
			for _, w := range x.buffered() {
				c.ob(e.Root.String(), "a writer that keeps things back is emptied")
				keeps[strip(w)] = true
				if b := innerBuffer(w); b != nil {
					shared[strip(b)] = true
				}
				if why := x.emptied(w); why != "" {
					c.bad(tag+"/"+f.String()+"/"+w.S, f.Pos(), "%s writes through %s, and %s", f.String(), w.S, why)
				}
			}
		}
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				if ev.In == nil {
					continue
				}
				if (ev.Kind == "enter" || ev.Kind == "defer" || ev.Kind == "go") && calls(ev.In) {
					met[ev.In] = true
				}
				if ev.Kind != "call" || !calls(ev.In) {
					continue
				}
				met[ev.In] = true
				if told[ev.In] {
					continue
				}
				err := errOf(ev)
				c.ob(e.Root.String(), "the error of a call that can fail")
				if len(ev.Args) > 0 && shared[strip(ev.Args[0])] && strings.HasSuffix(ev.Name, ".Flush") {
					continue
				}
				if len(ev.Args) > 0 && keeps[strip(unwrapped(ev.Args[0]))] && (strings.HasPrefix(ev.Name, "fmt.") || strings.Contains(ev.Name, ").Write")) {
					continue
				}
				why := "its error is not known"
				if err != nil {
					x.steps = 0
					why = x.handled(p, ev, err)
				}
				if why != "" && tag == "reads" && x.marksMissing(p, ev, err) {
					why = ""
				}
				if why != "" {
					told[ev.In] = true
					c.bad(tag+"/"+f.String(), instrPos(ev.In), "%s %s, but when %s fails %s", f.String(), what, ev.Name, why)
				}
			}
		})
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if calls(in) && !met[in] {
					c.bad(tag+"/"+f.String(), instrPos(in), "undecided: the call of %s is not met by the analysis", calleeName(in.(ssa.CallInstruction).Common()))
				}
			}
		}
	}
}

// readers judges how lines and records are taken: a bufio.Scanner is asked why it stopped, and a csv.Reader
// compares the number of fields of the records of data.
func (x *errFlow) readers() {
	scans, asks := map[*Term]*Event{}, map[*Term]bool{}
	x.e.each(func(cu *Cut, p *Path) {
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "call" && ev.Name == "(*bufio.Scanner).Scan" && len(ev.Args) > 0:
				scans[strip(ev.Args[0])] = ev
			case ev.Kind == "call" && ev.Name == "(*bufio.Scanner).Err" && len(ev.Args) > 0:
				asks[strip(ev.Args[0])] = true
			case ev.Kind == "store" && ev.Addr.Op == "fieldaddr" && fieldIs(ev.Addr.S, ".FieldsPerRecord") && x.e.Root.Pkg.Pkg.Path() == RepoPath:
				if k, ok := ev.Val.intc(); !ok || k < 0 {
					x.c.bad("reads/"+x.e.Root.String()+"/fields", instrPos(ev.In), "%s reads records of any number of fields", x.e.Root.String())
				}
			}
		}
	})
	for s, ev := range scans {
		if !asks[s] {
			x.c.bad("reads/"+x.e.Root.String()+"/scan", instrPos(ev.In), "%s reads lines through a bufio.Scanner, and does not ask why it stopped", x.e.Root.String())
		}
	}
}

// silent: a function that understands a text, and by its very form has no way to say that it could not: what it
// gives for such a text is for those who call it to judge.
func silent(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if f.Parent() != nil || rs.Len() > 0 && (types.Identical(rs.At(rs.Len()-1).Type(), errorType) || isMatrix(rs.At(rs.Len()-1).Type())) {
		return false
	}
	if f.Pkg == nil || f.Pkg.Pkg.Name() == "main" || f.Name() == "Append" || f.Name() == "PutStr" {
		return false
	}
	for _, in := range callsIn(f) {
		if readCall(in) && !strings.HasPrefix(calleeName(in.(ssa.CallInstruction).Common()), "strconv.") {
			return false
		}
	}
	return true
}

func callsIn(f *ssa.Function) (out []ssa.Instruction) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				out = append(out, in)
			}
		}
	}
	for _, g := range f.AnonFuncs {
		out = append(out, callsIn(g)...)
	}
	return
}

// launched lists the functions started to run on their own in f.
func launched(f *ssa.Function) (out []*ssa.Function) {
	for _, in := range callsIn(f) {
		if g, ok := in.(*ssa.Go); ok {
			if h := g.Call.StaticCallee(); h != nil && len(h.Blocks) > 0 {
				out = append(out, h)
			}
		}
	}
	return
}

// readCall: the call takes something from a reader, or understands a text, and says in an error whether that
// went well.
func readCall(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if _, ok := errorResult(cc); !ok {
		return false
	}
	if f := cc.StaticCallee(); f != nil && fnInRepo(f) {
		return false
	}
	switch name := calleeName(cc); name {
	case "os.Open", "encoding/json.Unmarshal", "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "io/ioutil.ReadAll", "io/ioutil.ReadFile", "os.ReadFile", "fmt.Sscan", "fmt.Sscanf", "fmt.Sscanln", "fmt.Fscan", "fmt.Fscanf", "fmt.Fscanln":
		return true
	default:
		if strings.HasPrefix(name, "strconv.") {
			return true
		}
	}
	method := ""
	if cc.IsInvoke() {
		method = cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		method = f.Name()
	}
	switch method {
	case "Read", "ReadAll", "ReadString", "ReadBytes", "ReadLine", "ReadByte", "ReadRune", "Peek", "Discard", "Decode":
		return true
	case "Open":
		return calleeName(cc) == "(*archive/zip.File).Open"
	case "Err":
		return calleeName(cc) == "(*bufio.Scanner).Err"
	}
	return false
}

// marksMissing: a number that cannot be understood becomes a missing value.
func (x *errFlow) marksMissing(p *Path, ev *Event, err *Term) bool {
	if err == nil || !strings.HasPrefix(ev.Name, "strconv.") {
		return false
	}
	ok := true
	x.e.each(func(cu *Cut, q *Path) {
		has := false
		for _, o := range q.Events {
			has = has || o == ev || o.In == ev.In && o.Kind == "call"
		}
		if !has || decide(q.All(), isnil(err)) == 1 {
			return
		}
		marks := false
		for _, o := range q.Events {
			switch o.Kind {
			case "store":
				arr, _ := addrElem(o.Addr)
				marks = marks || arr != nil && field(arr, ".Missing") != nil && o.Val == boolT(true)
			case "append":
				marks = marks || field(o.Addr, ".Missing") != nil && len(o.Args) == 1 && o.Args[0] == boolT(true)
			}
		}
		ok = ok && marks
	})
	return ok
}

// ---- C19: the last line counts -----------------------------------------------------------------------

// lineCall: the call gives a line of text along with the error that ended it.
func lineCall(name string) bool {
	return name == "(*bufio.Reader).ReadString" || name == "(*bufio.Reader).ReadBytes" || name == "(*bufio.Reader).ReadSlice"
}

// lastLine judges what is done with the line a call gave when it ended without a newline: the same as with any
// other, unless it is known to be empty, or the function fails.
func (x *errFlow) lastLine(cu *Cut, ev *Event) string {
	line, err := mkExtract(ev.Res, "0"), mkExtract(ev.Res, "1")
	type way struct {
		p      *Path
		guards map[*Term]bool
		evs    []*Event
	}
	about := func(g *Term) bool {
		// what the error is, and that the line is not empty
		if g.has(err) {
			return true
		}
		for _, z := range []*Term{eq0(lenT(line)), eqT(line, strT(""), types.Typ[types.String])} {
			if decide([]*Term{notT(z)}, g) == 1 {
				return true
			}
		}
		return false
	}
	var full, cut, all []way // the line had an end, or not
	for _, p := range cu.Paths {
		at := -1
		for i, o := range p.Events {
			if o == ev || o.In == ev.In && o.Ctx == ev.Ctx && o.Res == ev.Res {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		w := way{p: p, guards: map[*Term]bool{}}
		for _, g := range p.Guards {
			if !about(g) {
				w.guards[g] = true
			}
		}
		for _, o := range p.Events[at+1:] {
			if o.Kind == "call" && (strings.HasPrefix(o.Name, "log.") || strings.HasPrefix(o.Name, "fmt.Print")) || o.Kind == "enter" || o.Kind == "leave" {
				continue
			}
			w.evs = append(w.evs, o)
		}
		facts := p.All()
		if decide(facts, eq0(lenT(line))) == 1 || decide(facts, eqT(line, strT(""), types.Typ[types.String])) == 1 {
			continue
		}
		ended := decide(facts, isnil(err))
		if x.fine(facts, err) && ended != 1 {
			ended = 0 // the end of the input
		}
		if ended != 0 {
			full = append(full, w)
		}
		if ended != 1 && !notEnd(facts, err) {
			all = append(all, w)
			if !x.fails(p, err) {
				cut = append(cut, w)
			}
		}
	}
	used := map[*Term]bool{} // what matters of what is carried on
	see := func(s, t *Term) {
		if t != nil {
			t.walk(func(y *Term) bool {
				if y != s && y.Op == "sym" {
					used[y] = true
				}
				return true
			})
		}
	}
	x.e.each(func(_ *Cut, p *Path) {
		for _, o := range p.Events {
			see(nil, o.Addr)
			see(nil, o.Val)
			for _, a := range o.Args {
				see(nil, a)
			}
		}
		for _, t := range append(append([]*Term{}, p.Guards...), p.Ret...) {
			see(nil, t)
		}
		for s, v := range p.Phi {
			see(s, v)
		}
	})
	same := func(a, b way) bool {
		if a.p.End != b.p.End || a.p.To != b.p.To || len(a.evs) != len(b.evs) || len(a.guards) != len(b.guards) {
			return false
		}
		for g := range a.guards {
			if !b.guards[g] {
				return false
			}
		}
		eq := func(s, t *Term) bool {
			if s == t || s == nil || t == nil {
				return s == t
			}
			if (s == err || decide(a.p.All(), isnil(s)) == 1) && (t == err || decide(b.p.All(), isnil(t)) == 1) {
				return true // the error itself, see below
			}
			if da, db := decide(a.p.All(), s), decide(b.p.All(), t); s.T != nil && isBool(s.T) && da >= 0 && da == db || (s.has(err) || s.isTrue() || s.isFalse()) && (t.has(err) || t.isTrue() || t.isFalse()) && da >= 0 && da == db {
				return true
			}
			fresh := func(y *Term) bool { return y.Op == "call" && y != ev.Res && y.Ver != "" }
			return s.contains(fresh) && t.contains(fresh)
		}
		for i, o := range a.evs {
			q := b.evs[i]
			if o.In != q.In || o.Ctx != q.Ctx || o.Kind != q.Kind || len(o.Args) != len(q.Args) || !eq(o.Addr, q.Addr) || o.Kind != "call" && !eq(o.Val, q.Val) {
				return false
			}
			for j := range o.Args {
				if !eq(o.Args[j], q.Args[j]) {
					return false
				}
			}
		}
		for s, v := range a.p.Phi {
			if used[s] && !eq(v, b.p.Phi[s]) {
				return false
			}
		}
		for i, r := range a.p.Ret {
			if !eq(r, b.p.Ret[i]) {
				return false
			}
		}
		return true
	}
	held := map[*Term]bool{}
	lacks := func(list, other []way) bool {
		for _, a := range list {
			found := false
			for _, b := range other {
				found = found || same(a, b)
			}
			if !found {
				return true
			}
			for s, v := range a.p.Phi {
				if v == err {
					held[s] = true
				}
			}
		}
		return false
	}
	if lacks(cut, full) || len(cut) > 0 && lacks(full, all) {
		return "it is not treated like the others"
	}
	if len(full) == 0 {
		return "no line is understood"
	}
	// later, nothing depends on the error any more
	why := ""
	x.e.each(func(_ *Cut, p *Path) {
		for _, o := range p.Events {
			if o == ev || o.In == ev.In && o.Ctx == ev.Ctx {
				return
			}
		}
		for _, g := range p.Guards {
			if g.has(err) || g.contains(func(y *Term) bool { return held[y] }) {
				why = "what is done later depends on it"
			}
		}
	})
	return why
}

// fails: the function ends on the path, and says that it failed.
func (x *errFlow) fails(p *Path, err *Term) bool {
	switch p.End {
	case "panic", "exit":
		return true
	case "return":
		if rs := x.e.Root.Signature.Results(); rs.Len() > 0 {
			r := unwrapped(p.Ret[len(p.Ret)-1])
			facts := p.All()
			if isMatrix(rs.At(rs.Len()-1).Type()) && decide(facts, isnil(r)) == 1 {
				return true
			}
			return types.Identical(rs.At(rs.Len()-1).Type(), errorType) && (r == err && notEnd(facts, err) || r != err && x.nonNil(facts, r))
		}
	}
	return false
}

// notEnd: the error is known to be another than the end of the input.
func notEnd(facts []*Term, err *Term) bool {
	for _, f := range facts {
		if f.Op == "not" && f.contains(func(y *Term) bool { return y == err }) && f.contains(func(y *Term) bool { return y.Op == "global" && strings.HasSuffix(y.S, "io.EOF") }) {
			return true
		}
	}
	return false
}

func (c *Check) lastLines() {
	is := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && lineCall(calleeName(ci.Common()))
	}
	met := map[ssa.Instruction]bool{}
	for _, f := range c.rootsOf(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					return true
				}
			}
		}
		return false
	}) {
		e := c.run(f, "lines", Options{Opaque: func(g *ssa.Function) bool { return token.IsExported(g.Name()) && g.Parent() == nil }})
		if e == nil {
			continue
		}
		x := &errFlow{c: c, e: e, reads: true}
		told := map[ssa.Instruction]bool{}
		e.each(func(cu *Cut, p *Path) {
			for _, ev := range p.Events {
				if ev.Kind != "call" || ev.In == nil || !is(ev.In) || ev.Res == nil || told[ev.In] {
					continue
				}
				met[ev.In] = true
				c.ob(e.Root.String(), "the line of a call that reads one")
				if why := x.lastLine(cu, ev); why != "" {
					told[ev.In] = true
					c.bad("lines/"+f.String(), instrPos(ev.In), "%s reads lines, but when the last one does not end in a newline %s", f.String(), why)
				}
			}
		})
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if is(in) && !met[in] {
					c.bad("lines/"+f.String(), instrPos(in), "undecided: the reading of a line is not met by the analysis")
				}
			}
		}
	}
}

func init() {
	register(&Rule{ID: "C19", Min: 3,
		What: "every call that reads a line up to a newline is found; every path from it on which the line ends without a newline and is not known to be empty makes the function fail, or has a twin on which the line ends in a newline, with the same conditions, calls, stores and values, and the other way round; no later condition depends on how the line ended",
		Run:  func(c *Check) { c.lastLines() }})
	register(&Rule{ID: "C18", Min: 20,
		What: "every call in the repository that reads from a file or reader, or parses a number or JSON, is found, and every call of a function that does and reports it with an error or a nil matrix; on every path from it, unless it is known to have gone well or to be the end of the input, the program ends with a failure, the function returns an error (or a nil matrix), or a number that cannot be parsed becomes a missing value",
		Run:  func(c *Check) { c.errorsOf("reads", "reads", readCall) }})
	register(&Rule{ID: "C28", Min: 20,
		What: "every call in the repository that writes to a file or writer, opens a file to write to, or calls a function that does and returns an error, is found; on every path from it, unless its error is known to be nil, the program ends with a failure or the function returns an error; a writer that keeps things back (csv, bufio and the like) is flushed, and asked whether that went well, before the function returns without an error",
		Run:  func(c *Check) { c.errorsOf("writes", "writes", writeCall) }})
}
