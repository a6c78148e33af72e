package main

import (
	"os"
	"fmt"
	"go/types"
	"math/big"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Verifier struct {
	p       *Program
	spec    *SpecFile
	s       *Solvers
	tags    map[string]bool // enabled clause tags; nil: all
	mu      sync.Mutex
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	gids    map[*ssa.Global]int
	gval    map[*ssa.Global]func(st *State) Val
	bigInt  types.Type
	effort  int
	verbose bool
}

// Obligation is one verification condition.
type Obligation struct {
	Fn, Tag, Name string
	Case          string
	q             *Query
	ok            bool
	back          string
	model         string
	trace         []string
}

// Job is the verification of one function for one aliasing pattern and split.
type Job struct {
	con     *Contract
	fn      *ssa.Function
	part    []int
	splits  []bool
	ncase   int
	label   string
	v       *Verifier
	pre     *State
	vars    map[string]Val
	obls    []*Obligation
	triv    int
	paths   int
	panics  int
	reach   bool
	notes   map[string]bool
	mods    map[string]bool
	cons    map[string]bool
	err     string
	extra   map[*ssa.BasicBlock]map[ssa.Value]bool // locals unknown at loop heads
	skipped bool
}

func (j *Job) note(s string)        { j.notes[s] = true }
func (j *Job) useModel(s string)    { j.mods[s] = true }
func (j *Job) useContract(s string) { j.cons[s] = true }

func (j *Job) addOblig(ex *Exec, st *State, tag, name string, goal *Fm) {
	if goal == tTrue {
		j.triv++
		return
	}
	for _, g := range conjuncts(st.simp(goal), 0) {
		if g == tTrue {
			j.triv++
			continue
		}
		j.obls = append(j.obls, &Obligation{Fn: j.con.fn, Tag: tag, Name: name, Case: j.label, q: st.query(name, g), trace: append([]string(nil), st.trace...)})
	}
}

// conjuncts splits a goal into independently provable parts. Cheap
// propositional parts (flag equalities) stay together.
func conjuncts(f *Fm, d int) []*Fm {
	if d > 4 {
		return []*Fm{f}
	}
	var args []*Fm
	var rest []*Fm
	switch f.op {
	case opAnd:
		args = f.args
	case opOr:
		for _, a := range f.args {
			if a.op == opAnd && args == nil && !propositional(a) {
				args = a.args
			} else {
				rest = append(rest, a)
			}
		}
	}
	if args == nil {
		return []*Fm{f}
	}
	var out []*Fm
	prop := tTrue
	for _, a := range args {
		if propositional(a) {
			prop = And(prop, a)
			continue
		}
		out = append(out, conjuncts(Or(append([]*Fm{a}, rest...)...), d+1)...)
	}
	if prop != tTrue {
		out = append(out, Or(append([]*Fm{prop}, rest...)...))
	}
	return out
}

// propositional: only boolean variables occur.
func propositional(f *Fm) bool {
	switch f.op {
	case opGe, opEq:
		return false
	case opVar:
		return true
	}
	for _, a := range f.args {
		if !propositional(a) {
			return false
		}
	}
	return true
}

func (v *Verifier) tagOn(t string) bool {
	return t == "" || v.tags == nil || v.tags[t]
}

func (v *Verifier) quick(q *Query) bool { return v.s.quick(q) }

func (v *Verifier) contract(name string) *Contract { return v.spec.contracts[name] }

// matches: the contract still fits the function's parameter list. A contract
// that no longer fits is not used: its function is executed in place.
func (v *Verifier) matches(con *Contract, fn *ssa.Function) bool { return !con.stale }

func (v *Verifier) loopInfo(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	v.mu.Lock()
	defer v.mu.Unlock()
	m, ok := v.loops[fn]
	if !ok {
		m = findLoops(fn)
		v.loops[fn] = m
	}
	return m[b]
}

// ---------------------------------------------------------------- jobs

// slot describes where a pointer parameter points.
type slot struct {
	kind int // 0 fresh, 1 same as earlier param, 2 interior field of earlier param, 3 nil
	ref  int
	fld  string
}

// lemmaParam splits "name Type" (a pointer, struct or bit set of the root package).
func (v *Verifier) lemmaParam(p string) (string, types.Type) {
	w := strings.Fields(p)
	if len(w) == 1 {
		return p, nil
	}
	tn := strings.TrimPrefix(w[1], "*")
	for _, tp := range v.p.tpkgs {
		if tp.Path() != modPath {
			continue
		}
		if o, ok := tp.Scope().Lookup(tn).(*types.TypeName); ok {
			t := o.Type()
			if tn != w[1] {
				return w[0], types.NewPointer(t)
			}
			if _, ok := t.Underlying().(*types.Struct); ok || isBitsType(t) {
				return w[0], t
			}
		}
	}
	specFail("bad lemma parameter %s", p)
	return "", nil
}

func (v *Verifier) jobs(con *Contract) ([]*Job, error) {
	if con.lemma {
		var js []*Job
		for m := 0; m <= len(con.cases); m++ {
			j := &Job{con: con, v: v, notes: map[string]bool{}, mods: map[string]bool{}, cons: map[string]bool{}, ncase: m, pre: newState(), vars: map[string]Val{}}
			if m < len(con.cases) {
				j.label = "case " + exprStr(con.cases[m])
			}
			for _, p := range con.lparams {
				if n, t := v.lemmaParam(p); t != nil {
					if pt, ok := t.(*types.Pointer); ok {
						o := j.pre.newObj(pt.Elem(), n, j.pre.freshVal(pt.Elem(), n))
						o.entry = true
						j.vars[n] = PtrV{obj: o.id}
					} else {
						j.vars[n] = j.pre.freshVal(t, n)
					}
				} else if strings.HasPrefix(p, "b_") {
					j.vars[p] = BoolV{FreshBool(p)}
				} else {
					j.vars[p] = IntV{V(Fresh(p, true))}
				}
			}
			js = append(js, j)
		}
		return js, nil
	}
	fn := v.p.funcs[con.fn]
	if fn == nil {
		return nil, fmt.Errorf("function %s not found", con.fn)
	}
	var pp []int
	for i, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && derefs(p.Type()) {
			_ = pt
			pp = append(pp, i)
		}
	}
	combos := [][]slot{{}}
	for n, i := range pp {
		var next [][]slot
		for _, c := range combos {
			opts := []slot{{kind: 0}}
			spec, has := con.aliases[pn(fn.Params[i])]
			if has {
				opts = nil
				for _, o := range strings.Split(spec, "|") {
					o = strings.TrimSpace(o)
					switch {
					case o == "fresh":
						opts = append(opts, slot{kind: 0})
					case o == "nil":
						opts = append(opts, slot{kind: 3})
					default:
						base, fld := o, ""
						if k := strings.Index(o, "."); k >= 0 {
							base, fld = o[:k], o[k+1:]
						}
						for m := 0; m < n; m++ {
							if pn(fn.Params[pp[m]]) == base {
								if fld != "" {
									opts = append(opts, slot{kind: 2, ref: m, fld: fld})
								} else {
									opts = append(opts, slot{kind: 1, ref: m})
								}
							}
						}
					}
				}
			} else if !con.noalias {
				for m := 0; m < n; m++ {
					if types.Identical(fn.Params[pp[m]].Type(), fn.Params[i].Type()) && c[m].kind == 0 {
						opts = append(opts, slot{kind: 1, ref: m})
					}
				}
			}
			for _, o := range opts {
				if o.kind == 1 && c[o.ref].kind != 0 && c[o.ref].kind != 2 {
					continue // refer to class representatives only
				}
				if o.kind == 2 && c[o.ref].kind == 3 {
					continue // field of nil
				}
				next = append(next, append(append([]slot(nil), c...), o))
			}
		}
		combos = next
	}
	// distinct kinds 2 pointing to same field as an earlier kind 2 are the same pointer: fine
	var jobs []*Job
	for _, c := range combos {
		for m := 0; m < (len(con.cases)+1)<<len(con.splits); m++ {
			j := &Job{con: con, fn: fn, v: v, notes: map[string]bool{}, mods: map[string]bool{}, cons: map[string]bool{}}
			var lab []string
			for n, s := range c {
				nm := pn(fn.Params[pp[n]])
				switch s.kind {
				case 1:
					lab = append(lab, nm+"="+pn(fn.Params[pp[s.ref]]))
				case 2:
					lab = append(lab, nm+"=&"+pn(fn.Params[pp[s.ref]])+"."+s.fld)
				case 3:
					lab = append(lab, nm+"=nil")
				}
			}
			j.ncase = m >> len(con.splits)
			if j.ncase < len(con.cases) {
				lab = append(lab, "case "+exprStr(con.cases[j.ncase]))
			} else if len(con.cases) > 0 {
				lab = append(lab, "otherwise")
			}
			for b := range con.splits {
				t := m>>b&1 == 1
				j.splits = append(j.splits, t)
				if t {
					lab = append(lab, exprStr(con.splits[b]))
				} else {
					lab = append(lab, "!"+exprStr(con.splits[b]))
				}
			}
			j.label = strings.Join(lab, ", ")
			cc := c
			j.setup(pp, cc)
			if v.together(j) {
				continue
			}
			jobs = append(jobs, j)
		}
	}
	return jobs, nil
}

// together: the aliasing pattern makes locations coincide that the contract keeps apart.
func (v *Verifier) together(j *Job) bool {
	ex := &Exec{p: v.p, v: v, con: j.con, job: j}
	env := ex.env(j.pre, j.pre, j.vars, j.con, j.fn)
	for _, a := range j.con.apart {
		if ex.coincide(env, a) {
			return true
		}
	}
	return false
}

func (ex *Exec) coincide(env *Env, a [2]*Expr) bool {
	p, ok1 := env.loc(a[0])
	q, ok2 := env.loc(a[1])
	return ok1 && ok2 && p.obj == q.obj && overlap(p.path, q.path)
}

func (j *Job) setup(pp []int, slots []slot) {
	j.part = pp
	st := newState()
	args := make([]Val, len(j.fn.Params))
	for n, i := range pp {
		p := j.fn.Params[i]
		el := p.Type().Underlying().(*types.Pointer).Elem()
		s := slots[n]
		switch s.kind {
		case 0:
			o := st.newObj(el, pn(p), st.freshVal(el, pn(p)))
			o.entry = true
			args[i] = PtrV{obj: o.id}
		case 1:
			args[i] = args[pp[s.ref]]
		case 2:
			b := args[pp[s.ref]].(PtrV)
			u := st.objs[b.obj].t.Underlying().(*types.Struct)
			for f := 0; f < u.NumFields(); f++ {
				if u.Field(f).Name() == s.fld {
					args[i] = PtrV{b.obj, []pathEl{{field: f}}}
				}
			}
		case 3:
			args[i] = PtrV{}
		}
	}
	for i, p := range j.fn.Params {
		if args[i] == nil {
			args[i] = st.freshVal(p.Type(), pn(p))
		}
	}
	j.vars = map[string]Val{}
	for i, p := range j.fn.Params {
		j.vars[pn(p)] = args[i]
	}
	j.pre = st
}

// run executes the function symbolically and collects obligations.
func (j *Job) run() {
	j.extra = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for j.run1() {
		j.obls, j.triv, j.paths, j.panics, j.reach = nil, 0, 0, 0, false
	}
}

func (j *Job) run1() (again bool) {
	ex := &Exec{p: j.v.p, v: j.v, con: j.con, job: j, wraps: j.con.wraps}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case retry:
				again = true
			case Unsupported:
				j.err = "unsupported: " + r.msg
			case specErr:
				j.err = "spec: " + r.msg
			default:
				j.err = fmt.Sprintf("internal: %v\n%s", r, debug.Stack())
			}
		}
	}()
	if j.con.lemma {
		j.runLemma(ex)
		return
	}
	st := j.pre.clone()
	env := ex.env(st, j.pre, j.vars, j.con, j.fn)
	for _, r := range j.con.requires {
		st.assume(env.Bool(r.e))
	}
	for _, r := range j.con.domain {
		st.assume(env.Bool(r.e))
	}
	for i, s := range j.con.cases {
		if i > j.ncase {
			break
		}
		f := env.Bool(s)
		if i < j.ncase {
			f = Not(f)
		}
		st.assume(f)
	}
	for i, s := range j.con.splits {
		f := env.Bool(s)
		if !j.splits[i] {
			f = Not(f)
		}
		st.assume(f)
	}
	if st.dead || !ex.feasible(st) {
		j.skipped = true // this split is contradictory
		return
	}
	// constants needed at entry live in st
	for k, v := range st.heap {
		if _, ok := j.pre.heap[k]; !ok {
			j.pre.heap[k] = v
			j.pre.objs[k] = st.objs[k]
		}
	}
	var args []Val
	for _, p := range j.fn.Params {
		args = append(args, j.vars[pn(p)])
	}
	ex.runFunc(st, j.fn, args, nil, j.con, func(st2 *State, res []Val) {
		if st2.dead {
			return
		}
		j.paths++
		j.finish(ex, st2, res)
	})
	if j.paths > 0 {
		j.reach = true
	}
	return
}

// finish checks the postcondition at a return.
func (j *Job) finish(ex *Exec, st *State, res []Val) {
	con := j.con
	vars := map[string]Val{}
	for a, b := range j.vars {
		vars[a] = b
	}
	bindResults(vars, j.fn.Signature, res)
	env := ex.env(st, j.pre, vars, con, j.fn)
	for i, r := range res {
		opts := con.retOpts[i]
		if len(opts) == 0 {
			continue
		}
		opts = orFresh(con, opts, func(x *Expr) bool { p, ok := j.vars[x.name].(PtrV); return ok && p.obj == 0 })
		p, ok := r.(PtrV)
		if !ok {
			ex.oblige(st, "result", fmt.Sprintf("result %d is one of the declared pointers", i), tFalse)
			continue
		}
		good := false
		for _, o := range opts {
			if o.op == "id" && o.name == "fresh" {
				if ob := st.objs[p.obj]; p.obj != 0 && ob != nil && !ob.entry && !ob.ro && j.pre.objs[p.obj] == nil {
					good = true
				}
				continue
			}
			if o.op == "id" && o.name == "ro" {
				if p.obj != 0 {
					ob := st.objs[p.obj]
					if ob != nil && (ob.ro || (!ob.entry && j.pre.objs[p.obj] == nil)) {
						good = true
					}
				}
				continue
			}
			if o.op == "id" && o.name == "nil" {
				if p.obj == 0 {
					good = true
				}
				continue
			}
			e2 := ex.env(st, j.pre, j.vars, con, j.fn)
			e2.isOld = true
			if q, ok := e2.loc(o); ok {
				if q.obj == p.obj && samePath(q.path, p.path) {
					good = true
				}
			} else if p.obj == 0 {
				good = true
			}
		}
		if !good {
			ex.oblige(st, "result", fmt.Sprintf("result %d is one of the declared pointers", i), tFalse)
		}
	}
	// frame
	var mods []modLoc
	for _, m := range con.modifies {
		e2 := ex.env(st, j.pre, j.vars, con, j.fn)
		e2.isOld = true
		if p, ok := e2.loc(m); ok {
			mods = append(mods, modLoc{p: p})
		}
	}
	var ids []int
	for id := range j.pre.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := j.pre.objs[id]
		if o == nil || !o.entry {
			continue
		}
		ex.sameExcept(st, j.pre.heap[id], st.heap[id], PtrV{obj: id}, mods, o.name)
	}
	for _, kp := range con.keeps {
		e2 := ex.env(st, j.pre, j.vars, con, j.fn)
		e2.isOld = true
		c := e2.Bool(kp.cond)
		s2 := st.clone()
		s2.assume(c)
		if s2.dead || c != tTrue && !ex.feasible(s2) {
			continue
		}
		names := map[string]bool{}
		for _, l := range kp.locs {
			names[exprStr(l)] = true
		}
		var rest []modLoc
		for _, m := range con.modifies {
			if len(kp.locs) == 0 || names[exprStr(m)] {
				continue
			}
			e3 := ex.env(s2, j.pre, j.vars, con, j.fn)
			e3.isOld = true
			if p, ok := e3.loc(m); ok {
				rest = append(rest, modLoc{p: p})
			}
		}
		for _, id := range ids {
			if o := j.pre.objs[id]; o != nil && o.entry {
				ex.sameExcept(s2, j.pre.heap[id], s2.heap[id], PtrV{obj: id}, rest, o.name)
			}
		}
	}
	// storage separation
	if !con.shares {
		backs := map[int]string{}
		var walk func(v Val, where string)
		walk = func(v Val, where string) {
			switch x := v.(type) {
			case BigV:
				if w, dup := backs[x.back]; dup {
					ex.oblige(st, "frame", fmt.Sprintf("%s and %s must not share storage", w, where), tFalse)
				}
				backs[x.back] = where
			case StructV:
				u := x.t.Underlying().(*types.Struct)
				for i, f := range x.f {
					walk(f, where+"."+u.Field(i).Name())
				}
			}
		}
		seen := map[int]bool{}
		visit := func(id int, nm string) {
			if id == 0 || seen[id] {
				return
			}
			seen[id] = true
			walk(st.heap[id], nm)
		}
		for _, id := range ids {
			if o := j.pre.objs[id]; o != nil && o.entry {
				visit(id, o.name)
			}
		}
		for i, r := range res {
			if p, ok := r.(PtrV); ok && p.obj != 0 && st.objs[p.obj] != nil {
				visit(p.obj, fmt.Sprintf("result%d", i))
			}
		}
	}
	j.conclude(ex, st, env)
}

// conclude takes the ghost steps and checks the postconditions.
func (j *Job) conclude(ex *Exec, st *State, env *Env) {
	con := j.con
	for _, s := range con.steps {
		if st.dead {
			return
		}
		if s.use == "" {
			ex.oblige(st, "step", exprStr(s.e), env.Bool(s.e))
			continue
		}
		ex.useLemma(st, env, s)
	}
	for _, cl := range con.ensures {
		if st.dead {
			return
		}
		if !j.v.tagOn(cl.tag) {
			continue
		}
		f := env.Bool(cl.e)
		j.addOblig(ex, st, "ensures", cl.name, f)
		if con.lemma {
			st.assume(f)
		}
	}
}

// useLemma instantiates a lemma that is proved on its own.
func (ex *Exec) useLemma(st *State, env *Env, s proofStep) {
	lem := ex.v.contract(s.use)
	if lem == nil || !lem.lemma || len(lem.lparams) != len(s.args) {
		specFail("bad use of %s", s.use)
	}
	cond := tTrue
	if s.cond != nil {
		cond = env.Bool(s.cond)
		if cond == tFalse {
			return
		}
	}
	ex.job.useContract(s.use)
	vars := map[string]Val{}
	for i, a := range s.args {
		v := env.eval(a)
		n, t := ex.v.lemmaParam(lem.lparams[i])
		if t != nil {
			ok := false
			switch v.(type) {
			case PtrV:
				_, ok = t.(*types.Pointer)
			case BitsV:
				ok = isBitsType(t)
			case StructV:
				_, ok = t.Underlying().(*types.Struct)
			}
			if !ok {
				specFail("argument %s of %s has the wrong type", exprStr(a), s.use)
			}
		} else if _, ok := v.(BoolV); ok != strings.HasPrefix(n, "b_") {
			specFail("argument %s of %s has the wrong type", exprStr(a), s.use)
		} else if !ok {
			p := st.simpP(env.num(v, a))
			if !ex.integral(st, p) {
				specFail("argument of %s not seen to be an integer: %s = %s", s.use, exprStr(a), p)
			}
			v = IntV{p}
		}
		vars[n] = v
	}
	le := &Env{ex: ex, st: st, pre: st, vars: vars, con: lem, pkg: env.pkg}
	for _, r := range lem.requires {
		// not assumed afterwards: its equations would only be substituted
		ex.job.addOblig(ex, st, "requires", s.use+": "+r.name, st.simp(Imp(cond, le.Bool(r.e))))
	}
	for _, r := range lem.ensures {
		st.assume(Imp(cond, le.Bool(r.e)))
	}
}

// integral reports whether p is an integer because each of its monomials is;
// the facts are recorded.
func (ex *Exec) integral(st *State, p *Poly) bool {
	if p.isInt() {
		return true
	}
	for _, q := range st.ints {
		if q == p {
			return true
		}
	}
	for _, t := range p.ms {
		if t.m == unit {
			if !t.c.IsInt() {
				return false
			}
			continue
		}
		for _, fa := range t.m.fac {
			a := fa.a
			if a.isInt {
				continue
			}
			if a.fn != "ite" || !ex.integral(st, a.args[0]) || !ex.integral(st, a.args[1]) {
				return false
			}
			known := false
			for _, q := range st.ints {
				known = known || q == V(a)
			}
			if !known {
				st.ints = append(st.ints, V(a))
			}
		}
		// c = n / 10^j with the smallest j
		j := int64(0)
		c := new(big.Rat).Set(t.c)
		for !c.IsInt() {
			if j++; j > 60 {
				return false
			}
			c.Mul(c, big.NewRat(10, 1))
		}
		pe := t.m.peP()
		if j == 0 && t.m.pe == nil {
			continue
		}
		if !ex.provable(st, Ge0(SubP(pe, Num(j)))) {
			return false
		}
		m := mkPoly([]mterm{{t.c, t.m}})
		known := false
		for _, q := range st.ints {
			known = known || q == m
		}
		if !known && !m.isInt() {
			st.ints = append(st.ints, m)
		}
	}
	if !p.isInt() && len(p.ms) > 1 {
		st.ints = append(st.ints, p)
	}
	return true
}

func (j *Job) runLemma(ex *Exec) {
	st := j.pre.clone()
	env := &Env{ex: ex, st: st, pre: j.pre, vars: j.vars, con: j.con}
	for _, p := range j.v.p.tpkgs {
		if p.Path() == modPath {
			env.pkg = p
		}
	}
	for _, r := range j.con.requires {
		st.assume(env.Bool(r.e))
	}
	for i, s := range j.con.cases {
		if i > j.ncase {
			break
		}
		f := env.Bool(s)
		if i < j.ncase {
			f = Not(f)
		}
		st.assume(f)
	}
	if st.dead || !ex.feasible(st) {
		j.skipped = true
		return
	}
	j.paths++
	j.reach = true
	j.conclude(ex, st, env)
}

// ---------------------------------------------------------------- running

type FnResult struct {
	Con    *Contract
	Jobs   []*Job
	Err    string
	Obls   int
	Triv   int
	Failed []*Obligation
	Paths  int
}

func (v *Verifier) verify(names []string) []*FnResult {
	var all []*FnResult
	type work struct {
		r *FnResult
		j *Job
	}
	var ws []work
	for _, n := range names {
		con := v.spec.contracts[n]
		r := &FnResult{Con: con}
		all = append(all, r)
		if con.trusted != "" {
			continue
		}
		js, err := v.jobs(con)
		if err != nil {
			r.Err = err.Error()
			continue
		}
		r.Jobs = js
		for _, j := range js {
			if d := os.Getenv("GOVER_CASE"); d != "" && d != fmt.Sprint(j.ncase) {
				continue // debugging aid
			}
			if d := os.Getenv("GOVER_LABEL"); d != "" && !strings.Contains(j.label, d) {
				continue
			}
			ws = append(ws, work{r, j})
		}
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, w := range ws {
		wg.Add(1)
		go func(w work) {
			defer wg.Done()
			sem <- struct{}{}
			w.j.run()
			<-sem
			w.j.discharge()
			mu.Lock()
			defer mu.Unlock()
			w.r.Obls += len(w.j.obls)
			w.r.Triv += w.j.triv
			w.r.Paths += w.j.paths
			for _, o := range w.j.obls {
				if !o.ok {
					w.r.Failed = append(w.r.Failed, o)
				}
			}
			if w.j.err != "" {
				w.r.Err = w.j.label + ": " + w.j.err
			}
		}(w)
	}
	wg.Wait()
	for _, r := range all {
		ok := false
		for _, j := range r.Jobs {
			if j.reach || j.panics > 0 {
				ok = true
			}
		}
		if !ok && r.Err == "" && r.Con.trusted == "" {
			r.Err = "vacuous: no path reaches a return"
		}
	}
	return all
}

func (j *Job) discharge() {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	for _, o := range j.obls {
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			o.ok, o.back, o.model = j.v.s.prove(o.q, j.v.effort)
		}(o)
	}
	wg.Wait()
}
