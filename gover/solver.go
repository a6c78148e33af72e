package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solverRes int

const (
	rUnknown solverRes = iota
	rUnsat
	rSat
)

type Solvers struct {
	sem            chan struct{}
	mu             sync.Mutex
	cache          map[[32]byte]solverRes
	nQuick, nProve int64
	timeNS         int64
	byBack         map[string]int
	maxNS          int64
	dump           string
	start          time.Time
	budget         float64 // seconds; 0: no limit
	nFail          int64
}

func newSolvers(n int) *Solvers {
	return &Solvers{sem: make(chan struct{}, n), cache: map[[32]byte]solverRes{}, byBack: map[string]int{}}
}

func solverCmd(name string, ms int) []string {
	switch name {
	case "z3-new":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", ms/1000+2), fmt.Sprintf("-t:%d", ms)}
	case "z3":
		return []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", ms/1000+2), fmt.Sprintf("-t:%d", ms)}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}
	panic(name)
}

// run executes one back end on text.
func (s *Solvers) run(name, text string, ms int, model bool) (solverRes, string) {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	t := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+3000)*time.Millisecond)
	defer cancel()
	a := solverCmd(name, ms)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	full := "(set-logic ALL)\n" + text + "(check-sat)\n"
	if model {
		full = "(set-option :produce-models true)\n" + full + "(get-model)\n"
	}
	cmd.Stdin = strings.NewReader(full)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	d := time.Since(t)
	atomic.AddInt64(&s.timeNS, int64(d))
	for {
		m := atomic.LoadInt64(&s.maxNS)
		if int64(d) <= m || atomic.CompareAndSwapInt64(&s.maxNS, m, int64(d)) {
			break
		}
	}
	o := out.String()
	first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
	switch first {
	case "unsat":
		return rUnsat, ""
	case "sat":
		return rSat, o
	}
	if strings.Contains(o, "error") && os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR:", first)
		_ = os.WriteFile("/tmp/gover_err.smt2", []byte(full), 0o644)
	}
	return rUnknown, o
}

func (s *Solvers) key(text string, extra string) [32]byte {
	return sha256.Sum256([]byte(extra + text))
}

// quick decides cheap side questions during execution (one attempt).
func (s *Solvers) quick(q *Query) bool {
	text := encode(q, 0)
	k := s.key(text, "q")
	s.mu.Lock()
	r, ok := s.cache[k]
	s.mu.Unlock()
	if ok {
		return r == rUnsat
	}
	atomic.AddInt64(&s.nQuick, 1)
	r, _ = s.run("z3-new", text, 400, false)
	s.mu.Lock()
	s.cache[k] = r
	s.mu.Unlock()
	return r == rUnsat
}

type attempt struct {
	solver string
	level  int
	ms     int
}

var plan = []attempt{{"z3-new", 0, 1500}, {"z3-new", 1, 3000}, {"z3-new", 2, 4000}, {"cvc5", 2, 5000}, {"z3", 2, 5000}, {"z3-new", 3, 10000}, {"cvc5", 3, 10000}}

// prove tries hard; returns the back end that discharged the goal.
func (s *Solvers) prove(q *Query, effort int) (bool, string, string) {
	atomic.AddInt64(&s.nProve, 1)
	texts := map[int]string{}
	var model string
	p := plan
	// after many failures, or late, there is no point in insisting
	if s.budget > 0 && (atomic.LoadInt64(&s.nFail) >= 12 || time.Since(s.start).Seconds() > s.budget) && effort > 3 {
		effort = 3
	}
	if effort < len(p) {
		p = p[:effort]
	}
	for i, a := range p {
		if i == 2 && os.Getenv("GOVER_HARD") != "" {
			s.mu.Lock()
			fmt.Fprintln(os.Stderr, "HARD", q.Name, "\n   GOAL", q.Goal)
			for _, f := range q.Facts {
				fmt.Fprintln(os.Stderr, "      ", f)
			}
			s.mu.Unlock()
		}
		if texts[a.level] == "" {
			t0 := time.Now()
			texts[a.level] = encode(q, a.level)
			if d := time.Since(t0); d > time.Second && os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "SLOW encode level %d %.1fs %s\n", a.level, d.Seconds(), q.Name)
			}
		}
		r, out := s.run(a.solver, texts[a.level], a.ms, a.level >= 2)
		if r == rUnsat {
			s.mu.Lock()
			s.byBack[a.solver]++
			s.mu.Unlock()
			return true, a.solver, ""
		}
		if r == rSat && len(out) > len(model) {
			model = out
		}
	}
	if s.dump != "" {
		_ = os.WriteFile(fmt.Sprintf("%s/%x.smt2", s.dump, s.key(texts[2], "")), []byte("(set-logic ALL)\n"+texts[2]+"(check-sat)\n(get-model)\n"), 0o644)
	}
	atomic.AddInt64(&s.nFail, 1)
	return false, "", model
}
