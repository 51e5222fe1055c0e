package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// dump prints the path summaries of a function, for debugging rules.
func dump(p *Prog, pkg, name string, opt Options) {
	var e *Exec
	var err error
	abbrev = map[int]string{}
	fn := p.Fn(pkg, name)
	if i := strings.Index(name, "."); i > 0 && fn == nil {
		fn = p.Method(name[:i], name[i+1:])
	}
	if i := strings.Index(name, "$"); i > 0 && fn == nil {
		for _, f := range p.Funcs {
			if strings.HasSuffix(shortName(f), name) && (pkg == "" || strings.HasPrefix(FuncName(f), pkg)) {
				fn = f
			}
		}
	}
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	e, err = p.Run(fn, opt)
	if err != nil {
		fmt.Println("ERR", err)
	}
	if e == nil {
		return
	}
	for _, c := range e.Cuts {
		if c.In == nil {
			continue
		}
		fmt.Printf("== cut %d %s b%d loop=%v ctx=%s d%d facts=%v\n", c.ID, p.Pos(blockPos(c.B)), c.B.Index, c.Loop, FuncName(c.Ctx.fn), c.Ctx.depth, c.In.facts)
		for i, pa := range c.Paths {
			to := pa.End
			if pa.To != nil {
				to = fmt.Sprintf("cut%d back=%v", pa.To.ID, pa.Back)
			}
			fmt.Printf(" -- path %d -> %s\n", i, to)
			for _, g := range pa.Guards {
				fmt.Printf("      if %v\n", g)
			}
			for _, ev := range pa.Events {
				if ev.Kind == "store" && ev.Addr.contains(func(x *Term) bool { return strings.Contains(x.S, "varargs") }) {
					continue
				}
				if ev.Kind == "call" && (pureCalls(ev.Name) || strings.HasPrefix(ev.Name, "log.")) {
					continue
				}
				if ev.Kind == "enter" || ev.Kind == "leave" {
					continue
				}
				s := fmt.Sprintf("      %s", ev.Kind)
				if ev.Name != "" {
					s += " " + ev.Name
				}
				if ev.Addr != nil {
					s += " @" + ev.Addr.String()
				}
				if len(ev.Args) > 0 {
					s += fmt.Sprint(" ", ev.Args)
				}
				if ev.Val != nil && (ev.Val.Op != "func" || ev.Kind != "call") && ev.Val.Op != "nil" {
					s += " := " + ev.Val.String()
				}
				if ev.Res != nil {
					s += " => " + ev.Res.String()
				}
				fmt.Println(s, "["+ev.Class+"]")
			}
			var ks []string
			for k, v := range pa.Phi {
				ks = append(ks, fmt.Sprintf("      phi %v <- %v", k, v))
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Println(k)
			}
			if pa.End == "return" {
				fmt.Println("      ret", pa.Ret)
			}
		}
	}
}
