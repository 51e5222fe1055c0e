package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rule decides one property.
type Rule struct {
	ID      string
	What    string   // the rule applied, for the evidence
	Assume  []string // what the decision rests on besides the source
	Min     int      // obligations below which the rule has lost its subject
	Run     func(c *Check)
	Sources string
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.ID] = r }

type Finding struct {
	Key string `json:"key"` // rule + construct, independent of line numbers
	Pos string `json:"pos"`
	Msg string `json:"msg"`
}

type Obligation struct {
	Site string `json:"site"`
	What string `json:"what"`
	N    int    `json:"n"`
}

type Check struct {
	P        *Prog
	R        *Rule
	findings []Finding
	seen     map[string]bool
	obs      map[string]*Obligation
	nobs     int
	paths    int
	regions  int
	fns      map[string]bool
	runs     map[string]*Exec
	cur      string // function under analysis, for positions
}

// ob records one discharged or examined obligation at a site.
func (c *Check) ob(site, what string) {
	k := site + "|" + what
	if c.obs[k] == nil {
		c.obs[k] = &Obligation{Site: site, What: what}
	}
	c.obs[k].N++
	c.nobs++
}

func (c *Check) bad(key string, pos token.Pos, format string, a ...interface{}) {
	c.badAt(key, c.P.Pos(pos), format, a...)
}

func (c *Check) badAt(key, pos, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	k := key + "|" + pos + "|" + msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.findings = append(c.findings, Finding{key, pos, msg})
}

// method resolves an exported method of a root package type; its absence is a finding.
func (c *Check) method(typ, name string) *ssa.Function {
	f := c.P.Method(typ, name)
	if f == nil || len(f.Blocks) == 0 {
		c.badAt("anchor/"+typ+"."+name, "-", "%s.%s is not declared: the property has no subject there", typ, name)
		return nil
	}
	return f
}

func (c *Check) fn(pkg, name string) *ssa.Function {
	f := c.P.Fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.badAt("anchor/"+pkg+"."+name, "-", "%s.%s is not declared: the property has no subject there", pkg, name)
		return nil
	}
	return f
}

// run analyses f; a failed analysis is a finding.
func (c *Check) run(f *ssa.Function, tag string, opt Options) *Exec {
	if f == nil {
		return nil
	}
	k := FuncName(f) + "#" + tag
	if e, ok := c.runs[k]; ok && tag != "!" {
		return e
	}
	e, err := c.P.Run(f, opt)
	if err != nil {
		c.bad("analysis/"+FuncName(f), f.Pos(), "undecided: %v", err)
		e = nil
	}
	c.runs[k] = e
	if e != nil {
		for g := range e.Inlined {
			c.fns[FuncName(g)] = true
		}
		for _, cu := range e.Cuts {
			if len(cu.Paths) > 0 {
				c.regions++
				c.paths += len(cu.Paths)
			}
		}
	}
	return e
}

// each visits all paths of an analysis.
func (e *Exec) each(f func(cu *Cut, p *Path)) {
	if e == nil {
		return
	}
	for _, cu := range e.Cuts {
		if cu.In == nil {
			continue
		}
		for _, p := range cu.Paths {
			f(cu, p)
		}
	}
}

func (c *Check) at(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	return c.P.Pos(instrPos(in))
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	b := in.Block()
	// the closest instruction with a position
	idx := 0
	for i, x := range b.Instrs {
		if x == in {
			idx = i
		}
	}
	for i := idx; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return b.Parent().Pos()
}

// ---- known findings ---------------------------------------------------------

type known struct{ id, key, text string }

// knownFindings reads lines "known: property=<id> key=<key> <what fails>".
func knownFindings(path string) (out []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k known
		var rest []string
		for _, w := range strings.Fields(l)[1:] {
			switch {
			case k.id == "" && strings.HasPrefix(w, "property="):
				k.id = w[len("property="):]
			case k.key == "" && strings.HasPrefix(w, "key="):
				k.key = w[len("key="):]
			default:
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return
}

// ---- driver -----------------------------------------------------------------

func runRule(r *Rule, p *Prog, perr error, verifDir, tier string, seed int, t0 time.Time, quiet bool) (code int) {
	c := &Check{P: p, R: r, seen: map[string]bool{}, obs: map[string]*Obligation{}, fns: map[string]bool{}, runs: map[string]*Exec{}}
	if perr != nil {
		c.badAt("load", "-", "the repository cannot be analysed: %v", perr)
	} else {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("CFDEBUG") != "" {
						panic(x)
					}
					c.badAt("analysis/panic", "-", "undecided: the analysis failed: %v", x)
				}
			}()
			r.Run(c)
		}()
		if c.nobs < r.Min {
			c.badAt("vacuous", "-", "only %d obligations found where at least %d are expected: the rule has lost its subject", c.nobs, r.Min)
		}
	}
	sort.Slice(c.findings, func(i, j int) bool {
		a, b := c.findings[i], c.findings[j]
		if a.Pos != b.Pos {
			return a.Pos < b.Pos
		}
		return a.Key+a.Msg < b.Key+b.Msg
	})
	kn := knownFindings(filepath.Join(verifDir, "known_findings.txt"))
	var viol []Finding
	printed := map[string]bool{}
	for _, f := range c.findings {
		hit := false
		for _, k := range kn {
			if k.id == r.ID && k.key == f.Key {
				hit = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.ID, k.key, k.text)
				}
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	ev := filepath.Join(verifDir, "evidence")
	if !quiet {
		os.MkdirAll(ev, 0o755)
	}
	replay := filepath.Join(ev, r.ID+".violation.json")
	for i, f := range viol {
		if i < 30 {
			fmt.Printf("%s: %s [%s]\n", f.Pos, f.Msg, f.Key)
		}
	}
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
		code = 1
		if !quiet {
			b, _ := json.MarshalIndent(map[string]interface{}{"property": r.ID, "rule": r.What, "violations": viol}, "", " ")
			os.WriteFile(replay, append(b, '\n'), 0o644)
		}
	} else if !quiet {
		os.Remove(replay)
	}
	if quiet {
		if code == 0 {
			fmt.Printf("ok property=%s obligations=%d\n", r.ID, c.nobs)
		}
		return code
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var obs []*Obligation
	for _, o := range c.obs {
		obs = append(obs, o)
	}
	sort.Slice(obs, func(i, j int) bool { return obs[i].Site+obs[i].What < obs[j].Site+obs[j].What })
	out := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         "Static analysis of the type-checked SSA form of /repo's current source. Rule: " + r.What,
			"rule":                r.What,
			"obligations":         c.nobs,
			"distinct_sites":      len(obs),
			"violated":            len(viol),
			"functions_analysed":  fns,
			"functions_in_repo":   nfuncs(p),
			"regions":             c.regions,
			"paths":               c.paths,
			"obligation_list":     obs,
			"known_findings":      len(printed),
			"minimum_obligations": r.Min,
		},
		"assumptions": r.Assume,
		"violations":  len(viol),
		"wall_s":      time.Since(t0).Seconds(),
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(filepath.Join(ev, r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence file:", err)
	}
	if code == 0 {
		fmt.Printf("ok property=%s obligations=%d functions=%d paths=%d\n", r.ID, c.nobs, len(fns), c.paths)
	}
	return code
}

func nfuncs(p *Prog) int {
	if p == nil {
		return 0
	}
	return len(p.Funcs)
}
