package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "working tree")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	only := flag.String("f", "", "functions (comma separated)")
	tags := flag.String("tags", "", "clause tags (comma separated, empty: all)")
	effort := flag.Int("effort", 6, "solver attempts")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "directory for failed queries")
	cone := flag.Bool("cone", false, "also verify every contract relied upon")
	jsonOut := flag.String("json", "", "write a report")
	budget := flag.Float64("budget", 0, "stop retrying after this many seconds (0: no limit)")
	wp := flag.Bool("writeparams", false, "record parameter names")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	t := time.Now()
	debug.SetGCPercent(400)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	v, err := newVerifier(*repo, *specs)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	if *wp {
		if err := writeParams(v.p, v.spec, *specs+"/params.txt"); err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		return
	}
	v.effort = *effort
	v.verbose = *verbose
	v.s.dump = *dump
	v.s.start, v.s.budget = t, *budget
	if *tags != "" {
		v.tags = map[string]bool{}
		for _, x := range strings.Split(*tags, ",") {
			v.tags[x] = true
		}
	}
	names := v.spec.order
	if *only != "" {
		names = nil
		for _, x := range strings.Split(*only, ",") {
			if v.spec.contracts[x] == nil {
				fmt.Println("no contract", x)
				os.Exit(2)
			}
			names = append(names, x)
		}
	}
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
	}
	bad := 0
	var all []*FnResult
	done := map[string]bool{}
	for len(names) > 0 {
		for _, n := range names {
			done[n] = true
		}
		rs := v.verify(names)
		all = append(all, rs...)
		names = nil
		if !*cone {
			break
		}
		next := map[string]bool{}
		for _, r := range rs {
			for _, j := range r.Jobs {
				for c := range j.cons {
					if !done[c] {
						next[c] = true
					}
				}
			}
		}
		for n := range next {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	v.retry(all, t, *budget)
	if *jsonOut != "" {
		if err := v.writeReport(*jsonOut, all, time.Since(t).Seconds()); err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
	}
	for _, r := range all {
		st := "ok"
		if len(r.Failed) > 0 || r.Err != "" {
			st = "FAIL"
			bad++
		}
		if r.Con.trusted != "" {
			st = "trusted"
		}
		fmt.Printf("%-40s %-8s jobs=%d paths=%d obligations=%d trivial=%d failed=%d %s\n", r.Con.fn, st, len(r.Jobs), r.Paths, r.Obls, r.Triv, len(r.Failed), r.Err)
		if *verbose {
			notes := map[string]bool{}
			for _, j := range r.Jobs {
				for n := range j.notes {
					notes[n] = true
				}
			}
			var ns []string
			for n := range notes {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			if len(ns) > 0 {
				fmt.Println("    notes:", ns)
			}
		}
		for i, o := range r.Failed {
			if i >= 6 && !*verbose {
				fmt.Println("    ...")
				break
			}
			fmt.Printf("    [%s] %s {%s}\n", o.Tag, o.Name, o.Case)
			if *verbose {
				fmt.Println("      path:", strings.Join(o.trace, " "))
				fmt.Println("      goal:", o.q.Goal)
				for _, f := range o.q.Facts {
					fmt.Println("        ", f)
				}
			}
		}
	}
	fmt.Printf("time %.1fs quick=%d prove=%d solver=%.1fs back=%v\n", time.Since(t).Seconds(), v.s.nQuick, v.s.nProve, float64(v.s.timeNS)/1e9, v.s.byBack)
	if bad > 0 {
		os.Exit(1)
	}
}
