package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"time"
)

type obReport struct {
	Kind    string   `json:"kind"`
	Name    string   `json:"obligation"`
	Case    string   `json:"case"`
	Path    []string `json:"path,omitempty"`
	Goal    string   `json:"goal,omitempty"`
	Facts   []string `json:"facts,omitempty"`
	Model   string   `json:"model,omitempty"`
}

type fnReport struct {
	Name        string     `json:"name"`
	Status      string     `json:"status"` // proved, failed, trusted, error
	File        string     `json:"contract_file"`
	Cases       int        `json:"cases"`
	Paths       int        `json:"paths"`
	Obligations int        `json:"obligations"`
	Trivial     int        `json:"discharged_by_simplification"`
	Failed      []obReport `json:"failed,omitempty"`
	Err         string     `json:"error,omitempty"`
	Domain      []string   `json:"assumed_domain,omitempty"`
	Trusted     string     `json:"trusted,omitempty"`
	Notes       []string   `json:"notes,omitempty"`
	Models      []string   `json:"models,omitempty"`
	Uses        []string   `json:"relies_on,omitempty"`
}

type report struct {
	Functions []fnReport     `json:"functions"`
	Quick     int64          `json:"feasibility_queries"`
	Prove     int64          `json:"proof_queries"`
	SolverS   float64        `json:"solver_seconds"`
	WallS     float64        `json:"wall_seconds"`
	MaxQueryS float64        `json:"slowest_query_seconds"`
	Back      map[string]int `json:"discharged_by"`
	Files     int            `json:"source_files"`
	Lines     int            `json:"source_lines"`
}

func keys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (v *Verifier) writeReport(file string, all []*FnResult, wall float64) error {
	rep := report{Quick: v.s.nQuick, Prove: v.s.nProve, SolverS: float64(v.s.timeNS) / 1e9, WallS: wall, MaxQueryS: float64(v.s.maxNS) / 1e9, Back: v.s.byBack, Files: v.p.files, Lines: v.p.lines}
	for _, r := range all {
		f := fnReport{Name: r.Con.fn, File: r.Con.file, Cases: len(r.Jobs), Paths: r.Paths, Obligations: r.Obls + r.Triv, Trivial: r.Triv, Err: r.Err, Trusted: r.Con.trusted}
		notes, mods, uses := map[string]bool{}, map[string]bool{}, map[string]bool{}
		for _, j := range r.Jobs {
			for n := range j.notes {
				notes[n] = true
			}
			for n := range j.mods {
				mods[n] = true
			}
			for n := range j.cons {
				uses[n] = true
			}
		}
		f.Notes, f.Models, f.Uses = keys(notes), keys(mods), keys(uses)
		for _, d := range r.Con.domain {
			f.Domain = append(f.Domain, d.name)
		}
		switch {
		case r.Con.trusted != "":
			f.Status = "trusted"
		case r.Err != "":
			f.Status = "error"
		case len(r.Failed) > 0:
			f.Status = "failed"
		default:
			f.Status = "proved"
		}
		for i, o := range r.Failed {
			if i >= 12 {
				break
			}
			or := obReport{Kind: o.Tag, Name: o.Name, Case: o.Case, Path: o.trace, Goal: clip(fmt.Sprint(o.q.Goal), 2000), Model: clip(o.model, 4000)}
			for k, x := range o.q.Facts {
				if k >= 60 {
					break
				}
				or.Facts = append(or.Facts, clip(fmt.Sprint(x), 300))
			}
			f.Failed = append(f.Failed, or)
		}
		rep.Functions = append(rep.Functions, f)
	}
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}

// retry gives obligations that no back end discharged in time another try,
// with more time and a quieter machine.
func (v *Verifier) retry(all []*FnResult, start time.Time, budget float64) {
	n := 0
	for _, r := range all {
		n += len(r.Failed)
	}
	if n > 60 {
		return
	}
	for _, r := range all {
		var still []*Obligation
		for _, o := range r.Failed {
			if o.q.Goal == tFalse && len(o.q.Facts) == 0 || budget > 0 && time.Since(start).Seconds() > budget {
				still = append(still, o)
				continue
			}
			ok, back := v.s.insist(o.q)
			if ok {
				o.ok, o.back = true, back+" (retried)"
				continue
			}
			still = append(still, o)
		}
		r.Failed = still
	}
}

// insist runs all back ends at once with a long limit.
func (s *Solvers) insist(q *Query) (bool, string) {
	type res struct {
		ok   bool
		name string
	}
	runs := []attempt{{"z3-new", 0, 12000}, {"z3-new", 2, 15000}, {"z3-new", 3, 15000}, {"cvc5", 2, 15000}, {"z3", 2, 15000}, {"cvc5", 0, 12000}}
	ch := make(chan res, len(runs))
	for _, a := range runs {
		go func(a attempt) {
			r, _ := s.run(a.solver, encode(q, a.level), a.ms, false)
			ch <- res{r == rUnsat, a.solver}
		}(a)
	}
	for range runs {
		if r := <-ch; r.ok {
			s.mu.Lock()
			s.byBack[r.name]++
			s.mu.Unlock()
			return true, r.name
		}
	}
	return false, ""
}
