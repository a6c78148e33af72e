package main

// Usage:
//   harness search -ops a,b -aspects value,flags -secs 10 -seed 1 [-bias name=..]
//   harness replay FILE [-aspects ...]
//
// search looks for one concrete call per failing operation and prints it as
// JSON; replay runs one such call again. Exit 1 means a demand was broken.

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

type report struct {
	Case   *Case    `json:"case"`
	Aspect string   `json:"aspect"`
	Fails  []string `json:"fails"`
}

var allOps = strings.Split("add,sub,mul,quo,quoint,rem,quorem,fma,set,neg,abs,copy,copyabs,copyneg,canonical,copysign,setsignbit,setscale,setinf,setnan,round,roundtoint,quantize,reduce,floor,ceil,nextplus,nextminus,setuint64,setmantscale,new,setbigmantscale,setfloat64,setfloat,setrat,compose,decompose,setstring,unmarshal,unmarshaljson,string,cmp,cmpabs,cmptotal,cmptotalabs,max,min,maxabs,minabs,samequantum,int64,uint64,int,rat,isint,class,err,karith", ",")

func sel(fails []Fail, asp map[string]bool) (out []Fail) {
	for _, f := range fails {
		if asp == nil || asp[f.Aspect] {
			out = append(out, f)
		}
	}
	return
}

// examine is check plus the comparison of an aliased call with the same call
// on separate operands.
func examine(c *Case) []Fail {
	if c.Op == "karith" {
		return kernel(c)
	}
	fails, o := check(c)
	if c.Alias != "" {
		d := *c
		d.Alias = ""
		x, y, u := c.nums()
		for i, p := range []**Num{&d.X, &d.Y, &d.U} {
			if *p != nil {
				n := []Num{x, y, u}[i]
				*p = &n
			}
		}
		o2 := run(&d)
		switch {
		case (o.Panic != "") != (o2.Panic != ""):
			fails = append(fails, Fail{"alias", fmt.Sprintf("panic %q, with separate operands %q", o.Panic, o2.Panic)})
		case o.Panic != "":
		case !same(o.ZNum, o2.ZNum):
			fails = append(fails, Fail{"alias", fmt.Sprintf("result %v, with separate operands %v", o.ZNum, o2.ZNum)})
		case o.R != nil && o2.R != nil && !same(o.RNum, o2.RNum):
			fails = append(fails, Fail{"alias", fmt.Sprintf("second result %v, with separate operands %v", o.RNum, o2.RNum)})
		case o.Conds != o2.Conds:
			fails = append(fails, Fail{"alias", fmt.Sprintf("conditions %x, with separate operands %x", o.Conds, o2.Conds)})
		case o.Int != o2.Int && (strings.HasPrefix(c.Op, "cmp")):
			fails = append(fails, Fail{"alias", fmt.Sprintf("%d, with separate operands %d", o.Int, o2.Int)})
		}
	}
	return fails
}

func safeExamine(c *Case) (f []Fail) {
	defer func() {
		if e := recover(); e != nil {
			f = []Fail{{"harness", fmt.Sprint(e)}}
		}
	}()
	return examine(c)
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	opsF := fs.String("ops", "all", "")
	aspF := fs.String("aspects", "", "")
	secs := fs.Float64("secs", 10, "")
	max := fs.Int("n", 0, "cases (0: by time)")
	seed := fs.Int64("seed", 1, "")
	b := bias{}
	fs.Float64Var(&b.special, "special", .06, "")
	fs.Float64Var(&b.limits, "limits", .35, "")
	fs.Float64Var(&b.badctx, "badctx", .01, "")
	fs.Float64Var(&b.alias, "alias", .3, "")
	fs.Float64Var(&b.gomode, "gomode", .15, "")
	fs.Float64Var(&b.ctx, "ctx", .5, "")
	fs.Parse(os.Args[2:])
	var asp map[string]bool
	if *aspF != "" {
		asp = map[string]bool{"harness": true}
		for _, a := range strings.Split(*aspF, ",") {
			asp[a] = true
		}
	}
	if os.Args[1] == "replay" {
		data, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r report
		if err := json.Unmarshal(data, &r); err != nil || r.Case == nil {
			fmt.Println("no concrete case in", fs.Arg(0), err)
			os.Exit(2)
		}
		bad := sel(safeExamine(r.Case), asp)
		for _, f := range bad {
			fmt.Printf("%s: %s\n", f.Aspect, f.Msg)
		}
		if len(bad) > 0 {
			os.Exit(1)
		}
		fmt.Println("holds")
		return
	}
	ops := allOps
	if *opsF != "all" {
		ops = strings.Split(*opsF, ",")
	}
	var mu sync.Mutex
	found := map[string]bool{}
	counts := map[string]int{}
	var reps []report
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	cur := make([]*Case, nw)
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			g := &gen{Rand: rand.New(rand.NewSource(*seed*1000003 + int64(w))), b: b}
			local := map[string]int{}
			for i := 0; ; i++ {
				if i%64 == 0 && time.Now().After(deadline) || *max > 0 && i*nw >= *max {
					break
				}
				op := ops[g.Intn(len(ops))]
				var c *Case
				if op == "karith" {
					c = g.kcase()
				} else {
					c = g.make(op)
				}
				local[op]++
				mu.Lock()
				cur[w] = c
				mu.Unlock()
				bad := sel(safeExamine(c), asp)
				if len(bad) == 0 {
					continue
				}
				key := op + "/" + bad[0].Aspect
				mu.Lock()
				if !found[key] {
					found[key] = true
					c = minimize(c, asp)
					bad = sel(safeExamine(c), asp)
					r := report{Case: c, Aspect: bad[0].Aspect}
					for _, f := range bad {
						r.Fails = append(r.Fails, f.Aspect+": "+f.Msg)
					}
					for _, n := range []*Num{c.X, c.Y, c.U, c.Z} {
						n.freeze()
					}
					reps = append(reps, r)
				}
				mu.Unlock()
			}
			mu.Lock()
			cur[w] = nil
			for k, v := range local {
				counts[k] += v
			}
			mu.Unlock()
		}(w)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Duration(*secs*float64(time.Second)) + 40*time.Second):
		mu.Lock()
		n := 0
		for _, c := range cur {
			if c != nil && n == 0 {
				n++
				for _, n := range []*Num{c.X, c.Y, c.U, c.Z} {
					n.freeze()
				}
				reps = append(reps, report{Case: c, Aspect: "hang", Fails: []string{"hang: the call did not return within 40 s"}})
			}
		}
	}
	out := json.NewEncoder(os.Stdout)
	out.SetEscapeHTML(false)
	for _, r := range reps {
		out.Encode(r)
	}
	total := 0
	for _, v := range counts {
		total += v
	}
	cj, _ := json.Marshal(counts)
	fmt.Printf("CASES %d %s\n", total, cj)
	if len(reps) > 0 {
		os.Exit(1)
	}
}

// minimize simplifies a failing case greedily.
func minimize(c *Case, asp map[string]bool) *Case {
	fails := func(d *Case) bool { return len(sel(safeExamine(d), asp)) > 0 }
	for _, f := range []func(d *Case){
		func(d *Case) { d.Z = nil },
		func(d *Case) { d.Cond = 0 },
		func(d *Case) { d.Traps = 0 },
		func(d *Case) { d.Alias = "" },
		func(d *Case) { d.Emax = 0 },
		func(d *Case) { d.Emin = 0 },
		func(d *Case) { d.OM = 0 },
		func(d *Case) { d.Via, d.ZPrec, d.ZMode, d.ZOM = "", 0, 0, 0 },
		func(d *Case) { d.ZPrec, d.ZMode, d.ZOM = d.Prec, d.Mode, d.OM },
		func(d *Case) { d.Mode = 0 },
	} {
		d := *c
		f(&d)
		if fails(&d) {
			c = &d
		}
	}
	return c
}
