package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("spec", "", "spec files, comma separated")
	data := flag.String("data", "", "template data k=v,...")
	pkgs := flag.String("pkgs", "", "packages to load, comma separated (relative to module)")
	only := flag.String("only", "", "verify only functions whose name contains this")
	debug := flag.Bool("debug", false, "debug output")
	to := flag.Int("timeout", 60, "seconds per obligation")
	vdir := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "run the check of one property")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	if *prop != "" {
		os.Exit(runCheck(*repo, *vdir, *prop, *tier))
	}
	var pats []string
	for _, p := range strings.Split(*pkgs, ",") {
		pats = append(pats, pkgPattern(p))
	}
	pr, err := Load(*repo, pats)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	d := map[string]string{}
	for _, kv := range strings.Split(*data, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			d[k] = v
		}
	}
	m := NewModule("cli")
	m.debug = *debug
	for _, f := range strings.Split(*specs, ",") {
		if err := LoadSpec(pr, m, f, d); err != nil {
			fmt.Println("spec:", err)
			os.Exit(2)
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	results := make([]*RootResult, len(m.order))
	for i, n := range m.order {
		sp := m.funcs[n]
		if sp.trusted || sp.noroot || sp.inline || !strings.Contains(n, *only) {
			continue
		}
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			results[i] = VerifyRoot(pr, m, sp, time.Duration(*to)*time.Second, nil)
		}()
	}
	wg.Wait()
	bad := 0
	for _, r := range results {
		if r == nil {
			continue
		}
		ok, n := 0, 0
		for _, o := range r.obls {
			n++
			if o.res.ok != o.expectSat {
				ok++
			}
		}
		fmt.Printf("%-60s %d/%d loops=%d paths=%d %.1fs", shortName(r.fn), ok, n, r.loops, r.paths, r.dur.Seconds())
		if r.unsup != "" {
			fmt.Printf("  UNSUPPORTED: %s", r.unsup)
			bad++
		}
		fmt.Println()
		for _, o := range r.obls {
			if o.res.ok == o.expectSat {
				bad++
				fmt.Printf("   FAIL %s %s: %s\n        %s\n", o.id, o.pos, o.desc, o.res.why)
				if *debug {
					fmt.Printf("        pc   %s\n        goal %s\n", o.pc.str(9), o.goal.str(12))
				}
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
