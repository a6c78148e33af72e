package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modLoc struct {
	p PtrV
	t types.Type
	s string
}

// call dispatches a call instruction.
func (ex *Exec) call(st *State, c *ssa.CallCommon, pos string, k func(*State, []Val)) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	if c.IsInvoke() {
		recv := ex.val(st, c.Value)
		if iv, ok := recv.(IfaceV); ok && !iv.unk && iv.t != nil {
			if m := ex.p.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name()); m != nil && len(m.Blocks) > 0 {
				ex.callFn(st, m, append([]Val{iv.v}, args...), nil, c, pos, k)
				return
			}
		}
		ex.job.note("interface call " + c.Method.FullName())
		ex.opaqueCall(st, c.Signature(), args, k)
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		ex.builtin(st, f.Name(), c, args, pos, k)
		return
	case *ssa.Function:
		ex.callFn(st, f, args, nil, c, pos, k)
		return
	}
	if fv, ok := ex.val(st, c.Value).(FuncV); ok {
		if fn, ok := fv.fn.(*ssa.Function); ok {
			ex.callFn(st, fn, args, fv.bind, c, pos, k)
			return
		}
	}
	ex.job.note("call of an unknown function value")
	ex.opaqueCall(st, c.Signature(), args, k)
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, bind []Val, c *ssa.CallCommon, pos string, k func(*State, []Val)) {
	full := fn.String()
	if m := models[full]; m != nil {
		ex.job.useModel(full)
		m(ex, st, args, pos, k)
		return
	}
	name := ex.p.name(fn)
	if con := ex.v.contract(name); con != nil && !con.inline {
		if ex.v.matches(con, fn) {
			ex.applyContract(st, con, fn, args, pos, k)
			return
		}
	}
	if len(fn.Blocks) > 0 && inRepo(fn) {
		for _, f := range st.frames {
			if f.fn == fn {
				unsup("recursive call of %s without contract", name)
			}
		}
		ex.runFunc(st, fn, args, bind, nil, k)
		return
	}
	ex.job.note("unmodelled " + full)
	ex.opaqueCall(st, fn.Signature, args, k)
}

func inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// opaqueCall: unknown results; everything reachable from pointer arguments is havoced.
func (ex *Exec) opaqueCall(st *State, sig *types.Signature, args []Val, k func(*State, []Val)) {
	for _, a := range args {
		ex.havocReach(st, a, 0)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, st.freshVal(sig.Results().At(i).Type(), "ext"))
	}
	k(st, res)
}

func (ex *Exec) havocReach(st *State, v Val, d int) {
	if d > 3 {
		return
	}
	switch x := v.(type) {
	case PtrV:
		if x.obj == 0 || st.objs[x.obj] == nil || st.objs[x.obj].ro {
			return
		}
		o := st.objs[x.obj]
		if _, isOp := st.heap[x.obj].(OpaqueV); isOp {
			return
		}
		_ = o
		ex.havocLoc(st, x, "havoc")
	case SliceV:
		if x.obj != 0 && st.objs[x.obj] != nil && !st.objs[x.obj].ro {
			ex.havocLoc(st, PtrV{obj: x.obj}, "havoc")
		}
	case StructV:
		for _, f := range x.f {
			ex.havocReach(st, f, d+1)
		}
	case IfaceV:
		if x.v != nil {
			ex.havocReach(st, x.v, d+1)
		}
	}
}

// ---------------------------------------------------------------- contracts

func (ex *Exec) bindParams(fn *ssa.Function, args []Val) map[string]Val {
	m := map[string]Val{}
	for i, p := range fn.Params {
		m[pn(p)] = args[i]
	}
	return m
}

func (ex *Exec) env(st, pre *State, vars map[string]Val, con *Contract, fn *ssa.Function) *Env {
	e := &Env{ex: ex, st: st, pre: pre, vars: vars, con: con}
	if fn.Pkg != nil {
		e.pkg = fn.Pkg.Pkg
	}
	return e
}

func (e *Env) loc(x *Expr) (PtrV, bool) {
	switch x.op {
	case "id":
		v, ok := e.lookup(x.name)
		if !ok {
			specFail("unknown location %s", x.name)
		}
		p, ok := v.(PtrV)
		if !ok {
			return PtrV{}, false
		}
		return p, p.obj != 0
	case "sel":
		b, ok := e.loc(x.args[0])
		if !ok {
			return b, false
		}
		v := e.deref(b)
		if p, ok := v.(PtrV); ok { // field through a pointer
			b = p
			v = e.deref(p)
		}
		s, ok := v.(StructV)
		if !ok {
			specFail("location %s", exprStr(x))
		}
		u := s.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == x.name {
				return PtrV{b.obj, append(b.path[:len(b.path):len(b.path)], pathEl{field: i})}, true
			}
		}
	case "call":
		if x.name == "words" { // backing words of a slice
			v, ok := e.eval(x.args[0]).(SliceV)
			if !ok || v.obj == 0 {
				return PtrV{}, false
			}
			return PtrV{obj: v.obj}, true
		}
	}
	specFail("bad location %s", exprStr(x))
	return PtrV{}, false
}

// havocVal makes an unknown value of the same shape.
func (ex *Exec) havocVal(st *State, v Val, t types.Type, name string) Val {
	switch x := v.(type) {
	case BigV:
		return BigV{V(Fresh(name, true)), x.back}
	case StructV:
		u := x.t.Underlying().(*types.Struct)
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = ex.havocVal(st, x.f[i], u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return StructV{x.t, f}
	case BoolV:
		return BoolV{FreshBool(name)}
	case BitsV:
		b := make([]*Fm, len(x.b))
		for i := range b {
			b[i] = FreshBool(fmt.Sprintf("%s.%d", name, i))
		}
		return BitsV{b}
	case IntV:
		if t != nil {
			return IntV{st.freshInt(name, t)}
		}
		return IntV{V(Fresh(name, true))}
	case *SeqV:
		return newSeq(x.el)
	case SliceV:
		if t != nil {
			if _, ok := wordElem(t.Underlying().(*types.Slice)); ok {
				return st.freshSlice(t, name)
			}
		}
	}
	if t != nil {
		return st.freshVal(t, name)
	}
	return OpaqueV{nil, newBack()}
}

// typeAt finds the static type of a location.
func typeAt(t types.Type, path []pathEl) types.Type {
	for _, el := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(el.field).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (ex *Exec) havocLoc(st *State, p PtrV, name string) {
	o := st.objs[p.obj]
	if o == nil {
		return
	}
	if o.ro {
		ex.oblige(st, "frame", "callee writes shared constant "+o.name, tFalse)
		return
	}
	old := ex.load(st, p)
	ex.clobberShared(st, old, p)
	nv := ex.havocVal(st, old, typeAt(o.t, p.path), name)
	ex.store(st, p, nv)
}

// clobberShared invalidates locations sharing storage with big.Ints inside v.
func (ex *Exec) clobberShared(st *State, v Val, p PtrV) {
	switch x := v.(type) {
	case BigV:
		for id, val := range st.heap {
			nv, ch := unshare(val, x.back, id, p, nil)
			if ch {
				st.heap[id] = nv
			}
		}
	case StructV:
		for i, f := range x.f {
			ex.clobberShared(st, f, PtrV{p.obj, append(p.path[:len(p.path):len(p.path)], pathEl{field: i})})
		}
	}
}

func (ex *Exec) snapshot(st *State) *State {
	s := newState()
	for k, v := range st.heap {
		s.heap[k] = v
	}
	for k, v := range st.objs {
		s.objs[k] = v
	}
	return s
}

func (ex *Exec) applyContract(st *State, con *Contract, fn *ssa.Function, args []Val, pos string, k func(*State, []Val)) {
	ex.job.useContract(con.fn)
	vars := ex.bindParams(fn, args)
	pre := ex.snapshot(st)
	env := ex.env(st, pre, vars, con, fn)
	for i, p := range fn.Params {
		if pv, ok := args[i].(PtrV); ok && pv.obj == 0 {
			if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr && !strings.Contains(con.aliases[pn(p)], "nil") && derefs(p.Type()) {
				ex.oblige(st, "requires", fmt.Sprintf("%s: %s not nil (at %s)", con.fn, pn(p), pos), tFalse)
				if st.dead {
					return
				}
			}
		}
	}
	ex.checkAliasing(st, con, fn, args, pos)
	for _, a := range con.apart {
		if ex.coincide(env, a) {
			ex.oblige(st, "requires", fmt.Sprintf("%s: %s and %s distinct (at %s)", con.fn, exprStr(a[0]), exprStr(a[1]), pos), tFalse)
			if st.dead {
				return
			}
		}
	}
	for _, r := range con.requires {
		ex.oblige(st, "requires", fmt.Sprintf("%s: %s (at %s)", con.fn, r.name, pos), env.Bool(r.e))
		if st.dead {
			return
		}
	}
	if con.mayPanic != nil {
		c := env.Bool(con.mayPanic)
		if c != tFalse {
			allowed := tFalse
			if ex.con.mayPanic != nil {
				allowed = ex.evalMayPanic(st)
			}
			ex.oblige(st, "panic", fmt.Sprintf("panic of %s allowed (at %s)", con.fn, pos), Imp(c, allowed))
		}
	}
	for i := 0; i < len(con.cases) && !st.dead; i++ {
		cond := env.Bool(con.cases[i])
		if cond == tFalse {
			continue
		}
		if cond == tTrue {
			break
		}
		s2 := st.clone()
		s2.assume(cond)
		st.assume(Not(cond))
		if !s2.dead && (st.dead || ex.feasible(s2)) {
			s2.trace = append(s2.trace, fmt.Sprintf("%s:%d", shortName(con.fn), i))
			ex.applyCase(s2, pre, con, fn, vars, pos, k)
		}
		if st.dead {
			return
		}
	}
	if len(con.cases) > 0 && !ex.feasible(st) {
		return
	}
	ex.applyCase(st, pre, con, fn, vars, pos, k)
}

func (ex *Exec) applyCase(st, pre *State, con *Contract, fn *ssa.Function, vars map[string]Val, pos string, k func(*State, []Val)) {
	env := ex.env(st, pre, vars, con, fn)
	kept, all := ex.kept(st, env, con)
	for _, m := range con.modifies {
		if all || kept[exprStr(m)] {
			continue
		}
		if p, ok := env.loc(m); ok {
			ex.havocLoc(st, p, shortName(con.fn)+"."+exprStr(m))
		}
	}
	sig := fn.Signature
	n := sig.Results().Len()
	// pointer results fork over the options
	type opt struct {
		st  *State
		res []Val
	}
	opts := []opt{{st, nil}}
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		ro := con.retOpts[i]
		var next []opt
		for _, o := range opts {
			if len(ro) == 0 {
				v := o.st.freshVal(t, shortName(con.fn)+".r")
				next = append(next, opt{o.st, append(o.res, v)})
				continue
			}
			ro = orFresh(con, ro, func(x *Expr) bool { p, ok := vars[x.name].(PtrV); return ok && p.obj == 0 })
			for j, x := range ro {
				s2 := o.st
				if j+1 < len(ro) {
					s2 = o.st.clone()
				}
				v := ex.retOption(s2, pre, vars, con, fn, x, t)
				next = append(next, opt{s2, append(append([]Val(nil), o.res...), v)})
			}
		}
		opts = next
	}
	for _, o := range opts {
		v2 := map[string]Val{}
		for a, b := range vars {
			v2[a] = b
		}
		bindResults(v2, sig, o.res)
		e2 := ex.env(o.st, pre, v2, con, fn)
		for _, cl := range con.ensures {
			if !ex.v.tagOn(cl.tag) {
				continue
			}
			o.st.assume(e2.Bool(cl.e))
			if o.st.dead {
				break
			}
		}
		if o.st.dead {
			continue
		}
		if len(opts) > 1 && !ex.feasible(o.st) {
			continue
		}
		k(o.st, o.res)
	}
}

// kept lists the locations the contract promises to leave alone in this state.
func (ex *Exec) kept(st *State, env *Env, con *Contract) (map[string]bool, bool) {
	m := map[string]bool{}
	for _, k := range con.keeps {
		c := env.Bool(k.cond)
		if c == tFalse {
			continue
		}
		if c != tTrue {
			s2 := st.clone()
			s2.assume(Not(c))
			if !s2.dead && ex.feasible(s2) {
				continue
			}
		}
		if len(k.locs) == 0 {
			return m, true
		}
		for _, l := range k.locs {
			m[exprStr(l)] = true
		}
	}
	return m, false
}

func derefs(t types.Type) bool {
	e := t.Underlying().(*types.Pointer).Elem()
	return isBigInt(e) || isNamed(e, modPath, "Big") || isNamed(e, "math/big", "Rat")
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

func bindResults(vars map[string]Val, sig *types.Signature, res []Val) {
	for i, r := range res {
		vars[fmt.Sprintf("result%d", i)] = r
		if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			if _, clash := vars[n]; !clash {
				vars[n] = r
			}
		}
	}
	if len(res) == 1 {
		vars["result"] = res[0]
	}
}

// orFresh resolves "returns z | fresh" for a parameter z that may be nil: z
// itself unless it is nil, then a new object.
func orFresh(con *Contract, opts []*Expr, isNil func(*Expr) bool) []*Expr {
	if len(opts) != 2 || opts[0].op != "id" || opts[1].op != "id" || opts[1].name != "fresh" || !strings.Contains(con.aliases[opts[0].name], "nil") {
		return opts
	}
	if isNil(opts[0]) {
		return opts[1:]
	}
	return opts[:1]
}

func (ex *Exec) retOption(st, pre *State, vars map[string]Val, con *Contract, fn *ssa.Function, x *Expr, t types.Type) Val {
	if x.op == "id" {
		switch x.name {
		case "fresh", "ro":
			if p, ok := t.Underlying().(*types.Pointer); ok {
				o := st.newObj(p.Elem(), shortName(con.fn)+".new", st.freshVal(p.Elem(), shortName(con.fn)+".new"))
				if x.name == "ro" {
					o.ro = true
				}
				return PtrV{obj: o.id}
			}
			return st.freshVal(t, "r")
		case "nil":
			return st.zeroVal(t)
		}
	}
	env := ex.env(st, pre, vars, con, fn)
	env.isOld = true
	if x.op == "sel" || x.op == "id" {
		if p, ok := env.loc(x); ok {
			return p
		}
		return st.zeroVal(t)
	}
	specFail("returns %s", exprStr(x))
	return nil
}

// aliasOptions gives the allowed relations of pointer parameter i to earlier ones.
func aliasOK(con *Contract, fn *ssa.Function, i, j int) bool {
	if con.noalias {
		return false
	}
	pi, pj := fn.Params[i], fn.Params[j]
	if spec, ok := con.aliases[pn(pi)]; ok {
		for _, o := range strings.Split(spec, "|") {
			if strings.TrimSpace(o) == pn(pj) {
				return true
			}
		}
		return false
	}
	if spec, ok := con.aliases[pn(pj)]; ok {
		for _, o := range strings.Split(spec, "|") {
			if strings.TrimSpace(o) == pn(pi) {
				return true
			}
		}
	}
	return types.Identical(pi.Type(), pj.Type())
}

// checkAliasing makes sure the aliasing pattern of a call was covered when the
// callee was verified.
func (ex *Exec) checkAliasing(st *State, con *Contract, fn *ssa.Function, args []Val, pos string) {
	for i := range args {
		a, ok := args[i].(PtrV)
		if !ok || a.obj == 0 || st.objs[a.obj] == nil || st.objs[a.obj].ro {
			continue
		}
		for j := 0; j < i; j++ {
			b, ok := args[j].(PtrV)
			if !ok || b.obj != a.obj {
				continue
			}
			good := false
			if samePath(a.path, b.path) {
				good = aliasOK(con, fn, i, j)
			} else {
				// interior pointer
				for _, d := range [][2]int{{i, j}, {j, i}} {
					spec := con.aliases[pn(fn.Params[d[0]])]
					for _, o := range strings.Split(spec, "|") {
						if strings.HasPrefix(strings.TrimSpace(o), pn(fn.Params[d[1]])+".") {
							good = true
						}
					}
				}
				if !overlap(a.path, b.path) {
					good = true
				}
			}
			if !good {
				ex.oblige(st, "requires", fmt.Sprintf("%s: aliasing of %s and %s (at %s)", con.fn, pn(fn.Params[i]), pn(fn.Params[j]), pos), tFalse)
			}
		}
	}
}

func overlap(a, b []pathEl) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].field != b[i].field {
			return false
		}
	}
	return true
}

func (ex *Exec) evalMayPanic(st *State) *Fm {
	env := ex.env(st, ex.job.pre, ex.job.vars, ex.con, ex.job.fn)
	env.isOld = true
	return env.Bool(ex.con.mayPanic)
}

// ---------------------------------------------------------------- loops

type loopInfo struct {
	ordinal int
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	allocs  map[ssa.Value]bool // locals stored inside
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}, allocs: map[ssa.Value]bool{}}
					out[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.body[x] {
						continue
					}
					li.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		if li := out[b]; li != nil {
			li.ordinal = n
			n++
			for x := range li.body {
				for _, in := range x.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						a := in.Addr
						for {
							if f, ok := a.(*ssa.FieldAddr); ok {
								a = f.X
								continue
							}
							if f, ok := a.(*ssa.IndexAddr); ok {
								a = f.X
								continue
							}
							break
						}
						if al, ok := a.(*ssa.Alloc); ok {
							li.allocs[al] = true
						}
					case *ssa.Alloc:
						li.allocs[in] = true
					}
				}
			}
		}
	}
	return out
}

func (ex *Exec) loopEnv(st *State) *Env {
	env := ex.env(st, ex.job.pre, ex.job.vars, ex.con, ex.job.fn)
	env.frame = st.fr()
	return env
}

func (ex *Exec) loopHeader(st *State, b, pred *ssa.BasicBlock, lc *LoopCon, li *loopInfo, back bool) bool {
	fr := st.fr()
	env := ex.loopEnv(st)
	for _, inv := range lc.inv {
		if !ex.v.tagOn(inv.tag) {
			continue
		}
		w := "on entry"
		if back {
			w = "preserved"
		}
		ex.oblige(st, "invariant", fmt.Sprintf("loop %d %s: %s", li.ordinal, w, inv.name), env.Bool(inv.e))
		if st.dead {
			return false
		}
	}
	if back {
		ls := fr.loops[b]
		// frame of the loop
		for id, was := range ls.heap {
			now := st.heap[id]
			if !reflect.DeepEqual(was, now) {
				ex.loopLocal(fr, b, id, ls)
			}
			ex.sameExcept(st, was, now, PtrV{obj: id}, ls.mods, "loop frame")
		}
		if lc.dec != nil && ls.dec != nil {
			d := env.Num(lc.dec)
			ex.oblige(st, "invariant", fmt.Sprintf("loop %d decreases %s", li.ordinal, exprStr(lc.dec)), And(Ge0(ls.dec), Lt(d, ls.dec)))
		}
		return false
	}
	var mods []modLoc
	for _, m := range lc.mods {
		if m.op == "call" && m.name == "words" {
			// words(s, lo, hi): the prefix/range may change
			v, ok := env.eval(m.args[0]).(SliceV)
			if ok && v.obj != 0 {
				mods = append(mods, modLoc{p: PtrV{obj: v.obj}, s: exprStr(m)})
			}
			continue
		}
		if p, ok := env.loc(m); ok {
			mods = append(mods, modLoc{p: p, s: exprStr(m)})
		}
	}
	var seqs []func()
	for i, m := range lc.mods {
		if m.op == "call" && m.name == "words" && len(m.args) == 3 {
			i, m := i, m
			_ = i
			v, ok := env.eval(m.args[0]).(SliceV)
			if !ok || v.obj == 0 {
				continue
			}
			q := st.heap[v.obj].(*SeqV)
			rep := newBack()
			seqs = append(seqs, func() {
				e2 := ex.loopEnv(st)
				st.heap[v.obj] = q.replace(AddP(v.off, e2.Num(m.args[1])), AddP(v.off, e2.Num(m.args[2])), rep)
			})
		} else if p, ok := env.loc(m); ok {
			ex.havocLoc(st, p, "loop."+exprStr(m))
		}
	}
	loc := map[ssa.Value]bool{}
	for a := range li.allocs {
		loc[a] = true
	}
	for a := range ex.job.extra[b] {
		loc[a] = true
	}
	for a := range loc {
		r, ok := fr.regs[a]
		if !ok {
			continue
		}
		p := r.(PtrV)
		mods = append(mods, modLoc{p: p})
		t := a.Type().Underlying().(*types.Pointer).Elem()
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			unsup("pointer local %s assigned in a loop", a.Name())
		}
		st.heap[p.obj] = ex.havocVal(st, st.heap[p.obj], t, a.(*ssa.Alloc).Comment)
	}
	for _, f := range seqs {
		f()
	}
	env = ex.loopEnv(st)
	for _, inv := range lc.inv {
		if ex.v.tagOn(inv.tag) {
			st.assume(env.Bool(inv.e))
		}
	}
	for _, u := range lc.uses {
		if !st.dead {
			ex.useLemma(st, env, u)
		}
	}
	ls := &loopState{heap: map[int]Val{}, mods: mods}
	for k, v := range st.heap {
		ls.heap[k] = v
	}
	if lc.dec != nil {
		ls.dec = env.Num(lc.dec)
	}
	fr.loops[b] = ls
	return !st.dead
}

// retry restarts a job after a loop was found to change more locals.
type retry struct{}

// loopLocal: a local variable changed through a pointer inside the loop must
// be unknown at the loop's head; the job starts again with that.
func (ex *Exec) loopLocal(fr *Frame, b *ssa.BasicBlock, id int, ls *loopState) {
	for _, m := range ls.mods {
		if m.p.obj == id && len(m.p.path) == 0 {
			return
		}
	}
	for _, bl := range fr.fn.Blocks {
		for _, in := range bl.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			if p, ok := fr.regs[a].(PtrV); ok && p.obj == id && len(p.path) == 0 {
				if ex.job.extra[b] == nil {
					ex.job.extra[b] = map[ssa.Value]bool{}
				}
				ex.job.extra[b][a] = true
				panic(retry{})
			}
		}
	}
}

// sameExcept emits obligations that now == was outside mods.
func (ex *Exec) sameExcept(st *State, was, now Val, at PtrV, mods []modLoc, what string) {
	for _, m := range mods {
		if m.p.obj == at.obj && len(m.p.path) <= len(at.path) && samePath(m.p.path, at.path[:len(m.p.path)]) {
			return
		}
	}
	switch x := was.(type) {
	case StructV:
		y, ok := now.(StructV)
		if !ok {
			break
		}
		u := x.t.Underlying().(*types.Struct)
		for i := range x.f {
			ex.sameExcept(st, x.f[i], y.f[i], PtrV{at.obj, append(at.path[:len(at.path):len(at.path)], pathEl{field: i})}, mods, what+"."+u.Field(i).Name())
		}
		return
	case ArrayV:
		y, ok := now.(ArrayV)
		if ok {
			for i := range x.e {
				ex.sameExcept(st, x.e[i], y.e[i], PtrV{at.obj, append(at.path[:len(at.path):len(at.path)], pathEl{field: -1, idx: Num(int64(i))})}, mods, what)
			}
			return
		}
	case *SeqV:
		y, ok := now.(*SeqV)
		if ok && (x == y || x.base == y.base && len(x.upd) == len(y.upd)) {
			return
		}
		ex.oblige(st, "frame", what+" (words) unchanged", tFalse)
		return
	case OpaqueV:
		return
	case SliceV:
		if y, ok := now.(SliceV); ok && x.obj == y.obj {
			ex.oblige(st, "frame", what+" unchanged", And(Eq(x.off, y.off), Eq(x.len, y.len)))
			return
		}
	}
	f := ex.valEq(st, was, now)
	if f == tTrue {
		return
	}
	ex.oblige(st, "frame", what+" unchanged", f)
}

// ---------------------------------------------------------------- builtins and slices

func (ex *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []Val, pos string, k func(*State, []Val)) {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "len" {
				k(st, []Val{IntV{x.len}})
			} else {
				k(st, []Val{IntV{x.cap}})
			}
			return
		case StrV:
			if x.known {
				k(st, []Val{IntV{Num(int64(len(x.s)))}})
				return
			}
			a := App(fmt.Sprintf("slen%d", x.id), true)
			a.lo = new(big.Rat)
			a.hi = new(big.Rat).SetInt64(1 << 40)
			k(st, []Val{IntV{V(a)}})
			return
		}
		r := V(FreshRange(name, new(big.Int), new(big.Int).Lsh(big.NewInt(1), 40)))
		k(st, []Val{IntV{r}})
	case "copy":
		d, ok1 := args[0].(SliceV)
		s, ok2 := args[1].(SliceV)
		if ok1 && ok2 {
			ex.copySlice(st, d, s, k)
			return
		}
		k(st, []Val{st.freshVal(types.Typ[types.Int], "copied")})
	case "panic":
		ex.panicPath(st, "panic at "+pos)
	case "print", "println":
		k(st, nil)
	case "ssa:wrapnilchk":
		k(st, []Val{args[0]})
	default:
		var res []Val
		if c.Signature().Results().Len() > 0 {
			res = append(res, st.freshVal(c.Signature().Results().At(0).Type(), name))
		}
		k(st, res)
	}
}

func (ex *Exec) indexAddr(st *State, in *ssa.IndexAddr, pos string) Val {
	idx := st.simpP(ex.intOf(ex.val(st, in.Index)))
	switch x := ex.val(st, in.X).(type) {
	case PtrV:
		at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			unsup("indexaddr")
		}
		ex.oblige(st, "panic", "index in range at "+pos, And(Ge0(idx), Lt(idx, Num(at.Len()))))
		return PtrV{x.obj, append(x.path[:len(x.path):len(x.path)], pathEl{field: -1, idx: idx})}
	case SliceV:
		ex.oblige(st, "panic", "index in range at "+pos, And(Ge0(idx), Lt(idx, x.len)))
		if x.obj == 0 {
			st.dead = true
			return PtrV{}
		}
		return PtrV{x.obj, []pathEl{{field: -1, idx: st.simpP(AddP(x.off, idx))}}}
	}
	return OpaqueV{in.Type(), newBack()}
}

func (ex *Exec) slice(st *State, in *ssa.Slice, pos string) Val {
	x, ok := ex.val(st, in.X).(SliceV)
	if !ok {
		if s, ok := ex.val(st, in.X).(StrV); ok && s.known {
			lo, hi := int64(0), int64(len(s.s))
			good := true
			if in.Low != nil {
				c, ok := st.simpP(ex.intOf(ex.val(st, in.Low))).ConstInt()
				good = good && ok
				if ok {
					lo = c.Int64()
				}
			}
			if in.High != nil {
				c, ok := st.simpP(ex.intOf(ex.val(st, in.High))).ConstInt()
				good = good && ok
				if ok {
					hi = c.Int64()
				}
			}
			if good && 0 <= lo && lo <= hi && hi <= int64(len(s.s)) {
				return StrV{s: s.s[lo:hi], known: true}
			}
		}
		return st.freshVal(in.Type(), "slice")
	}
	lo, hi, mx := zeroP, x.len, x.cap
	if in.Low != nil {
		lo = ex.intOf(ex.val(st, in.Low))
	}
	if in.High != nil {
		hi = ex.intOf(ex.val(st, in.High))
	}
	if in.Max != nil {
		mx = ex.intOf(ex.val(st, in.Max))
	}
	ex.oblige(st, "panic", "slice bounds at "+pos, And(Ge0(lo), Le(lo, hi), Le(hi, mx), Le(mx, x.cap)))
	return SliceV{t: x.t, obj: x.obj, off: AddP(x.off, lo), len: SubP(hi, lo), cap: SubP(mx, lo)}
}

func (ex *Exec) makeSlice(st *State, in *ssa.MakeSlice) Val {
	u := in.Type().Underlying().(*types.Slice)
	el, ok := wordElem(u)
	if !ok {
		return OpaqueV{in.Type(), newBack()}
	}
	ln, cp := ex.intOf(ex.val(st, in.Len)), ex.intOf(ex.val(st, in.Cap))
	o := st.newObj(el, "make", &SeqV{el: el, base: 0})
	return SliceV{t: in.Type(), obj: o.id, off: zeroP, len: ln, cap: cp}
}

func (ex *Exec) copySlice(st *State, d, s SliceV, k func(*State, []Val)) {
	n := MinP(d.len, s.len)
	if dq, ok := st.heap[d.obj].(*SeqV); ok && d.obj != 0 {
		if d.obj == s.obj && st.simpP(SubP(d.off, s.off)).IsZero() {
			k(st, []Val{IntV{n}})
			return
		}
		sq, ok := st.heap[s.obj].(*SeqV)
		if s.obj != 0 && ok && d.obj != s.obj && len(sq.upd) == 0 && st.simpP(SubP(d.off, s.off)).IsZero() {
			// elements [off, off+n) become those of the source
			st.heap[d.obj] = dq.replace(d.off, AddP(d.off, n), sq.base)
			k(st, []Val{IntV{n}})
			return
		}
		st.heap[d.obj] = newSeq(dq.el)
	}
	k(st, []Val{IntV{n}})
}
