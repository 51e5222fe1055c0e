package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory of the evidence and the known findings")
	prop := flag.String("prop", "", "properties to decide (comma separated, or all)")
	dumpFn := flag.String("dump", "", "print the path summaries of a function")
	modsFn := flag.String("mods", "", "print what a function writes (substring of its name)")
	quiet := flag.Bool("noevidence", false, "do not write evidence files")
	flag.Parse()
	t0 := time.Now()
	if f := os.Getenv("CFPROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	p, err := Load(*repo)
	if *modsFn != "" {
		m := p.ModRef()
		for _, f := range m.list {
			if strings.Contains(FuncName(f), *modsFn) {
				fmt.Println(FuncName(f))
				for _, l := range m.dump(f) {
					fmt.Println("   ", l)
				}
			}
		}
		return
	}
	if *dumpFn != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		pkg, name := "", *dumpFn
		if i := strings.Index(name, ":"); i >= 0 {
			pkg, name = name[:i], name[i+1:]
		}
		opt := Options{}
		for _, a := range flag.Args() {
			kv := strings.SplitN(a, "=", 2)
			if kv[0] == "opaque" && kv[1] == "all" {
				opt.Opaque = func(f *ssa.Function) bool { return f.Parent() == nil }
				continue
			}
			if kv[0] == "opaque" {
				opt.Opaque = opaque(strings.Split(kv[1], ",")...)
				continue
			}
			if kv[0] == "go" {
				opt.GoInline = true
				continue
			}
			if kv[0] == "depth" {
				fmt.Sscan(kv[1], &opt.MaxDepth)
				continue
			}
			if opt.Bind == nil {
				opt.Bind = map[string]*Term{}
			}
			opt.Bind[kv[0]] = strT(kv[1])
		}
		dump(p, pkg, name, opt)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []string
	if *prop == "all" {
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	for _, id := range ids {
		r := rules[id]
		if r == nil {
			fmt.Println("no rule for property", id)
			os.Exit(1)
		}
		t1 := t0
		if len(ids) > 1 {
			t1 = time.Now()
		}
		if runRule(r, p, err, *verif, tier, seed, t1, *quiet) != 0 {
			code = 1
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}
