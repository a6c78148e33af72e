package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	allocs []allocRec
	loops  map[*ssa.BasicBlock]*loopState
	visits map[*ssa.BasicBlock]int
	con    *Contract
	k      func(*State, []Val) // continuation on return
	fv     []Val
}

type allocRec struct {
	name string
	obj  int
}

type loopState struct {
	heap    map[int]Val // heap right after the havoc
	dec     *Poly
	mods    []modLoc
	visited bool
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = make(map[ssa.Value]Val, len(f.regs)+8)
	for k, v := range f.regs {
		g.regs[k] = v
	}
	g.allocs = append([]allocRec(nil), f.allocs...)
	g.loops = make(map[*ssa.BasicBlock]*loopState, len(f.loops))
	for k, v := range f.loops {
		g.loops[k] = v
	}
	g.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		g.visits[k] = v
	}
	return &g
}

// Unsupported is raised when the code uses a feature outside the verified subset.
type Unsupported struct{ msg string }

func unsup(format string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(format, a...)}) }

// Exec runs symbolic execution for one verification job.
type Exec struct {
	p     *Program
	v     *Verifier
	con   *Contract // contract under verification
	job   *Job
	paths int
	steps int
	wraps bool
}

const maxPaths = 6000
const maxSteps = 4000000

// ---------------------------------------------------------------- types

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return isNamed(types.Unalias(a), pkg, name)
		}
		return false
	}
	return n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isBigInt(t types.Type) bool { return isNamed(t, "math/big", "Int") }
func isBitsType(t types.Type) bool {
	return isNamed(t, modPath, "form") || isNamed(t, modPath, "Condition")
}

func intType(t types.Type) (bits uint, signed, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func intRange(bits uint, signed bool) (lo, hi *big.Int) {
	if signed {
		hi = new(big.Int).Lsh(big.NewInt(1), bits-1)
		lo = new(big.Int).Neg(hi)
		hi.Sub(hi, big.NewInt(1))
		return
	}
	hi = new(big.Int).Lsh(big.NewInt(1), bits)
	return new(big.Int), hi.Sub(hi, big.NewInt(1))
}

func (s *State) freshInt(name string, t types.Type) *Poly {
	bits, sg, _ := intType(t)
	lo, hi := intRange(bits, sg)
	return V(FreshRange(name, lo, hi))
}

// freshVal makes an unconstrained value of type t.
func (s *State) freshVal(t types.Type, name string) Val {
	if isBigInt(t) {
		return BigV{V(Fresh(name, true)), newBack()}
	}
	if isBitsType(t) {
		bits, _, _ := intType(t)
		b := make([]*Fm, bits)
		for i := range b {
			b[i] = FreshBool(fmt.Sprintf("%s.%d", name, i))
		}
		return BitsV{b}
	}
	if _, _, ok := intType(t); ok {
		return IntV{s.freshInt(name, t)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolV{FreshBool(name)}
		}
		if u.Info()&types.IsString != 0 {
			return StrV{id: newBack()}
		}
	case *types.Struct:
		if opaqueStruct(t) {
			return OpaqueV{t, newBack()}
		}
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = s.freshVal(u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return StructV{t, fs}
	case *types.Array:
		if u.Len() <= 32 {
			e := make([]Val, u.Len())
			for i := range e {
				e[i] = s.freshVal(u.Elem(), fmt.Sprintf("%s[%d]", name, i))
			}
			return ArrayV{t, e}
		}
	case *types.Interface:
		return IfaceV{unk: true, id: newBack()}
	case *types.Slice:
		if w, ok := wordElem(u); ok {
			_ = w
			return s.freshSlice(t, name)
		}
	}
	return OpaqueV{t, newBack()}
}

func wordElem(u *types.Slice) (types.Type, bool) {
	if _, _, ok := intType(u.Elem()); ok {
		return u.Elem(), true
	}
	return nil, false
}

// freshSlice makes an integer slice with its own backing array.
func (s *State) freshSlice(t types.Type, name string) SliceV {
	el, _ := wordElem(t.Underlying().(*types.Slice))
	maxLen := new(big.Int).Lsh(big.NewInt(1), 40)
	o := s.newObj(el, name+".words", newSeq(el))
	ln := V(FreshRange("len("+name+")", new(big.Int), maxLen))
	cp := V(FreshRange("cap("+name+")", new(big.Int), maxLen))
	s.assume(Le(ln, cp))
	val := V(Fresh("nat("+name+")", true))
	s.assume(Ge0(val), Iff(Eq0(val), Eq0(ln)))
	return SliceV{t: t, obj: o.id, off: zeroP, len: ln, cap: cp, val: val}
}

func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if p == "math/big" && n.Obj().Name() == "Rat" {
		return false // numerator a and denominator b
	}
	return p != modPath && !strings.HasPrefix(p, modPath+"/")
}

func (s *State) zeroVal(t types.Type) Val {
	if isBigInt(t) {
		return BigV{zeroP, newBack()}
	}
	if isBitsType(t) {
		bits, _, _ := intType(t)
		return constBits(new(big.Int), bits)
	}
	if _, _, ok := intType(t); ok {
		return IntV{zeroP}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolV{tFalse}
		}
		if u.Info()&types.IsString != 0 {
			return StrV{s: "", known: true}
		}
	case *types.Struct:
		if opaqueStruct(t) {
			return OpaqueV{t, newBack()}
		}
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = s.zeroVal(u.Field(i).Type())
		}
		return StructV{t, fs}
	case *types.Array:
		if u.Len() <= 64 {
			e := make([]Val, u.Len())
			for i := range e {
				e[i] = s.zeroVal(u.Elem())
			}
			return ArrayV{t, e}
		}
		return OpaqueV{t, newBack()}
	case *types.Pointer:
		return PtrV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Slice:
		return SliceV{t: t, off: zeroP, len: zeroP, cap: zeroP}
	case *types.Signature:
		return FuncV{}
	}
	return OpaqueV{t, newBack()}
}

func constBits(n *big.Int, bits uint) BitsV {
	b := make([]*Fm, bits)
	for i := range b {
		b[i] = BoolConst(n.Bit(i) == 1)
	}
	return BitsV{b}
}

func (s *State) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return s.zeroVal(t)
	}
	if bits, sg, ok := intType(t); ok {
		n := constInt(c.Value)
		if !sg && n.Sign() < 0 {
			n.Add(n, new(big.Int).Lsh(big.NewInt(1), bits))
		}
		if isBitsType(t) {
			return constBits(n, bits)
		}
		return IntV{NumBig(n)}
	}
	if isFloat(t) {
		if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return FloatV{Num(k), true}
		}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolV{BoolConst(constant.BoolVal(c.Value))}
	case constant.String:
		return StrV{s: constant.StringVal(c.Value), known: true}
	}
	return OpaqueV{t, newBack()}
}

func constInt(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return big.NewInt(i)
	}
	switch x := constant.Val(v).(type) {
	case *big.Int:
		return new(big.Int).Set(x)
	case int64:
		return big.NewInt(x)
	}
	unsup("constant %v", v)
	return nil
}

// ---------------------------------------------------------------- values

func (st *State) fr() *Frame { return st.frames[len(st.frames)-1] }

func (ex *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return st.constVal(v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return FuncV{fn: v}
	case *ssa.Global:
		return PtrV{obj: ex.v.globalObj(st, v)}
	case *ssa.FreeVar:
		fr := st.fr()
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.fv[i]
			}
		}
	}
	r, ok := st.fr().regs[v]
	if !ok {
		unsup("undefined register %s in %s", v.Name(), st.fr().fn)
	}
	return r
}

func (ex *Exec) intOf(v Val) *Poly {
	switch v := v.(type) {
	case IntV:
		return v.p
	case BitsV:
		acc := newAcc()
		for i, b := range v.b {
			if b == tFalse {
				continue
			}
			w := NumBig(new(big.Int).Lsh(big.NewInt(1), uint(i)))
			acc.addPoly(ratOne, Ite(b, w, zeroP))
		}
		return acc.poly()
	case OpaqueV:
		if _, _, ok := intType(v.t); ok {
			return (*State)(nil).freshInt("opq", v.t)
		}
	}
	unsup("not an integer: %T", v)
	return nil
}

func (ex *Exec) boolOf(v Val) *Fm {
	switch v := v.(type) {
	case BoolV:
		return v.f
	case OpaqueV:
		return FreshBool("opq")
	}
	unsup("not a bool: %T", v)
	return nil
}

// ---------------------------------------------------------------- memory

func (ex *Exec) load(st *State, p PtrV) Val {
	if p.obj == 0 {
		unsup("nil load")
	}
	v, ok := st.heap[p.obj]
	if !ok {
		unsup("dangling object")
	}
	return ex.walk(st, v, p.path, st.objs[p.obj])
}

func (ex *Exec) walk(st *State, v Val, path []pathEl, o *Obj) Val {
	for _, el := range path {
		switch x := v.(type) {
		case StructV:
			v = x.f[el.field]
		case ArrayV:
			c, ok := st.simpP(el.idx).ConstInt()
			if !ok {
				return ex.symIndex(st, x, el.idx)
			}
			if !c.IsInt64() || c.Int64() < 0 || c.Int64() >= int64(len(x.e)) {
				unsup("index out of range")
			}
			v = x.e[c.Int64()]
		case *SeqV:
			return IntV{x.read(ex, st, el.idx)}
		case OpaqueV:
			return OpaqueV{nil, newBack()}
		default:
			unsup("walk into %T", v)
		}
	}
	return v
}

func (ex *Exec) symIndex(st *State, a ArrayV, i *Poly) Val {
	// all-constant integer tables become a chain of conditionals
	var out *Poly
	for k := len(a.e) - 1; k >= 0; k-- {
		iv, ok := a.e[k].(IntV)
		if !ok {
			unsup("symbolic index into %s", a.t)
		}
		if out == nil {
			out = iv.p
		} else {
			out = Ite(Eq(i, Num(int64(k))), iv.p, out)
		}
	}
	return IntV{out}
}

func (ex *Exec) store(st *State, p PtrV, v Val) {
	if p.obj == 0 {
		unsup("nil store")
	}
	o := st.objs[p.obj]
	if o.ro {
		ex.oblige(st, "frame", "write to shared constant "+o.name, tFalse)
		return
	}
	old := st.heap[p.obj]
	st.heap[p.obj] = ex.update(st, old, p.path, v)
}

func (ex *Exec) update(st *State, old Val, path []pathEl, v Val) Val {
	if len(path) == 0 {
		return v
	}
	el := path[0]
	switch x := old.(type) {
	case StructV:
		f := append([]Val(nil), x.f...)
		f[el.field] = ex.update(st, f[el.field], path[1:], v)
		return StructV{x.t, f}
	case ArrayV:
		c, ok := st.simpP(el.idx).ConstInt()
		if !ok || !c.IsInt64() || c.Int64() < 0 || c.Int64() >= int64(len(x.e)) {
			unsup("symbolic array store")
		}
		e := append([]Val(nil), x.e...)
		e[c.Int64()] = ex.update(st, e[c.Int64()], path[1:], v)
		return ArrayV{x.t, e}
	case *SeqV:
		return x.write(ex, st, el.idx, ex.intOf(v))
	case OpaqueV:
		return x
	}
	unsup("store into %T", old)
	return nil
}

// storeBig writes a big.Int value through a pointer, invalidating any other
// location that shares the backing array.
func (ex *Exec) storeBig(st *State, p PtrV, v *Poly) {
	cur, ok := ex.load(st, p).(BigV)
	if !ok {
		return // opaque
	}
	for id, val := range st.heap {
		nv, ch := unshare(val, cur.back, id, p, nil)
		if ch {
			st.heap[id] = nv
		}
	}
	ex.store(st, p, BigV{v, cur.back})
}

func unshare(v Val, back int, id int, p PtrV, path []pathEl) (Val, bool) {
	switch x := v.(type) {
	case BigV:
		if x.back == back && !(id == p.obj && samePath(path, p.path)) {
			return BigV{V(Fresh("clobbered", true)), x.back}, true
		}
	case StructV:
		var f []Val
		for i, e := range x.f {
			ne, ch := unshare(e, back, id, p, append(path[:len(path):len(path)], pathEl{field: i}))
			if ch {
				if f == nil {
					f = append([]Val(nil), x.f...)
				}
				f[i] = ne
			}
		}
		if f != nil {
			return StructV{x.t, f}, true
		}
	}
	return v, false
}

func samePath(a, b []pathEl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].field != b[i].field || a[i].idx != b[i].idx {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- obligations

// oblige records a proof obligation and continues under its assumption.
func (ex *Exec) oblige(st *State, tag, name string, goal *Fm) {
	goal = st.simp(goal)
	ex.job.addOblig(ex, st, tag, name, goal)
	if goal != tTrue {
		st.assume(goal)
	}
}

// provable asks the solver quickly whether f follows in st.
func (ex *Exec) provable(st *State, f *Fm) bool {
	f = st.simp(f)
	if f == tTrue {
		return true
	}
	if f == tFalse {
		return st.dead
	}
	return ex.v.quick(st.query("quick", f))
}

func (ex *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	return !ex.v.quick(st.query("feas", tFalse))
}

// wrap brings p into the range of type t with Go's semantics.
func (ex *Exec) wrap(st *State, p *Poly, t types.Type, what string) *Poly {
	bits, sg, ok := intType(t)
	if !ok {
		unsup("wrap %s", t)
	}
	lo, hi := intRange(bits, sg)
	p = st.simpP(p)
	if c, ok := p.ConstInt(); ok {
		return NumBig(wrapConst(c, bits, sg))
	}
	inRange := And(Le(NumBig(lo), p), Le(p, NumBig(hi)))
	if st.simp(inRange) == tTrue {
		return p
	}
	if sg && !ex.wraps {
		ex.oblige(st, "overflow", what, inRange)
		return p
	}
	if ex.provable(st, inRange) {
		st.assume(inRange)
		return p
	}
	mod := NumBig(new(big.Int).Lsh(big.NewInt(1), bits))
	l, h := st.interval(p)
	m := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), bits))
	lor, hir := new(big.Rat).SetInt(lo), new(big.Rat).SetInt(hi)
	if l != nil && h != nil && new(big.Rat).Sub(h, m).Cmp(hir) <= 0 && new(big.Rat).Add(l, m).Cmp(lor) >= 0 {
		q := p
		if h.Cmp(hir) > 0 {
			q = Ite(Lt(NumBig(hi), p), SubP(p, mod), q)
		}
		if l.Cmp(lor) < 0 {
			q = Ite(Lt(p, NumBig(lo)), AddP(p, mod), q)
		}
		return q
	}
	r := V(FreshRange("wrap", lo, hi))
	k := V(Fresh("wrapk", true))
	st.assume(Eq(p, AddP(r, MulP(k, mod))))
	return r
}

func wrapConst(c *big.Int, bits uint, sg bool) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	r := new(big.Int).Mod(c, m)
	if sg && r.Bit(int(bits-1)) == 1 {
		r.Sub(r, m)
	}
	return r
}

// ---------------------------------------------------------------- operators

func bitsMap(a, b BitsV, f func(x, y *Fm) *Fm) BitsV {
	n := len(a.b)
	out := make([]*Fm, n)
	for i := range out {
		y := tFalse
		if i < len(b.b) {
			y = b.b[i]
		}
		out[i] = f(a.b[i], y)
	}
	return BitsV{out}
}

func (ex *Exec) toBits(v Val, n int) BitsV {
	switch x := v.(type) {
	case BitsV:
		return x
	case IntV:
		if c, ok := x.p.ConstInt(); ok {
			return constBits(c, uint(n))
		}
	}
	unsup("toBits %T", v)
	return BitsV{}
}

func bitsEq(a, b BitsV) *Fm {
	var fs []*Fm
	n := len(a.b)
	if len(b.b) > n {
		n = len(b.b)
	}
	at := func(v BitsV, i int) *Fm {
		if i < len(v.b) {
			return v.b[i]
		}
		return tFalse
	}
	for i := 0; i < n; i++ {
		fs = append(fs, Iff(at(a, i), at(b, i)))
	}
	return And(fs...)
}

func (ex *Exec) valEq(st *State, a, b Val) *Fm {
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(BitsV); ok {
			return bitsEq(ex.toBits(a, len(y.b)), y)
		}
		return Eq(x.p, ex.intOf(b))
	case BitsV:
		return bitsEq(x, ex.toBits(b, len(x.b)))
	case BoolV:
		return Iff(x.f, ex.boolOf(b))
	case BigV:
		if y, ok := b.(BigV); ok {
			return Eq(x.v, y.v)
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			return ex.ptrEq(x, y)
		}
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			break
		}
		if x.unk || y.unk {
			if x.unk && y.unk && x.id == y.id {
				return tTrue
			}
			break
		}
		if x.t == nil || y.t == nil {
			return BoolConst(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return ex.valEq(st, x.v, y.v)
	case StrV:
		if y, ok := b.(StrV); ok {
			if x.known && y.known {
				return BoolConst(x.s == y.s)
			}
			if x.id != 0 && x.id == y.id {
				return tTrue
			}
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			var fs []*Fm
			for i := range x.f {
				fs = append(fs, ex.valEq(st, x.f[i], y.f[i]))
			}
			return And(fs...)
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			if y.obj == 0 && y.big == nil {
				if x.obj == 0 && x.big == nil {
					return tTrue
				}
				break
			}
			if x.obj == y.obj && x.obj != 0 && x.val == y.val {
				return And(Eq(x.off, y.off), Eq(x.len, y.len))
			}
		}
	case OpaqueV:
		if y, ok := b.(OpaqueV); ok && x.id == y.id {
			return tTrue
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if x.fn == nil || y.fn == nil {
				return BoolConst(x.fn == nil && y.fn == nil)
			}
		}
	}
	return FreshBool("eq?")
}

func (ex *Exec) ptrEq(x, y PtrV) *Fm {
	if x.obj != y.obj {
		return tFalse
	}
	if x.obj == 0 {
		return tTrue
	}
	if len(x.path) != len(y.path) {
		return tFalse
	}
	var fs []*Fm
	for i := range x.path {
		a, b := x.path[i], y.path[i]
		if a.idx != nil && b.idx != nil {
			fs = append(fs, Eq(a.idx, b.idx))
			continue
		}
		if a.idx != nil || b.idx != nil || a.field != b.field {
			return tFalse
		}
	}
	return And(fs...)
}

func (ex *Exec) binop(st *State, op token.Token, x, y Val, xt, rt types.Type, pos string) Val {
	switch op {
	case token.EQL:
		return BoolV{ex.valEq(st, x, y)}
	case token.NEQ:
		return BoolV{Not(ex.valEq(st, x, y))}
	}
	if isFloat(xt) {
		return ex.floatOp(st, op, x, y, rt)
	}
	_, xo := x.(OpaqueV)
	_, yo := y.(OpaqueV)
	if xo || yo {
		return st.freshVal(rt, "opq")
	}
	if _, ok := x.(StrV); ok {
		a, b := x.(StrV), y.(StrV)
		if a.known && b.known {
			switch op {
			case token.ADD:
				return StrV{s: a.s + b.s, known: true}
			case token.LSS:
				return BoolV{BoolConst(a.s < b.s)}
			}
		}
		return st.freshVal(rt, "str")
	}
	if isBitsType(xt) {
		n := 8
		if bx, ok := x.(BitsV); ok {
			n = len(bx.b)
		}
		switch op {
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			bx, by := ex.toBits(x, n), ex.toBits(y, n)
			f := map[token.Token]func(a, b *Fm) *Fm{
				token.AND:     func(a, b *Fm) *Fm { return And(a, b) },
				token.OR:      func(a, b *Fm) *Fm { return Or(a, b) },
				token.XOR:     Xor,
				token.AND_NOT: func(a, b *Fm) *Fm { return And(a, Not(b)) },
			}[op]
			return bitsMap(bx, by, f)
		case token.SHL, token.SHR:
			if c, ok := ex.intOf(y).ConstInt(); ok {
				bx := ex.toBits(x, n)
				out := make([]*Fm, n)
				for i := range out {
					j := i - int(c.Int64())
					if op == token.SHR {
						j = i + int(c.Int64())
					}
					out[i] = tFalse
					if j >= 0 && j < n {
						out[i] = bx.b[j]
					}
				}
				return BitsV{out}
			}
		}
		if op == token.SHL || op == token.SHR {
			return st.freshVal(rt, "shift")
		}
	}
	if xb, ok := x.(BoolV); ok {
		yb := ex.boolOf(y)
		switch op {
		case token.AND:
			return BoolV{And(xb.f, yb)}
		case token.OR:
			return BoolV{Or(xb.f, yb)}
		}
	}
	if _, _, ok := intType(xt); !ok {
		return st.freshVal(rt, "op")
	}
	a, b := st.simpP(ex.intOf(x)), st.simpP(ex.intOf(y))
	bits, sg, _ := intType(xt)
	switch op {
	case token.LSS:
		return BoolV{Lt(a, b)}
	case token.LEQ:
		return BoolV{Le(a, b)}
	case token.GTR:
		return BoolV{Lt(b, a)}
	case token.GEQ:
		return BoolV{Le(b, a)}
	}
	var r *Poly
	switch op {
	case token.ADD:
		r = AddP(a, b)
	case token.SUB:
		r = SubP(a, b)
	case token.MUL:
		r = MulP(a, b)
	case token.QUO, token.REM:
		ex.oblige(st, "panic", "division by zero at "+pos, Ne(b, zeroP))
		q := ex.truncDiv(st, a, b, sg)
		if op == token.QUO {
			r = q
		} else {
			r = SubP(a, MulP(q, b))
			return IntV{r}
		}
	case token.SHL:
		c, ok := b.ConstInt()
		if !ok {
			return st.freshVal(rt, "shl")
		}
		r = MulP(a, NumBig(new(big.Int).Lsh(big.NewInt(1), uint(c.Uint64()))))
	case token.SHR:
		c, ok := b.ConstInt()
		if !ok {
			return st.freshVal(rt, "shr")
		}
		k := uint(c.Uint64())
		if k == bits-1 && sg {
			return IntV{Ite(Ge0(a), zeroP, Num(-1))}
		}
		if k == bits-1 && !sg {
			if at := andnotOf(a); at != nil {
				half := NumBig(new(big.Int).Lsh(big.NewInt(1), bits-1))
				return IntV{Ite(And(Le(half, at.args[0]), Lt(at.args[1], half)), oneP, zeroP)}
			}
			half := NumBig(new(big.Int).Lsh(big.NewInt(1), bits-1))
			return IntV{Ite(Le(half, a), oneP, zeroP)}
		}
		d := new(big.Int).Lsh(big.NewInt(1), k)
		return IntV{Floor(ScaleP(new(big.Rat).SetFrac(big.NewInt(1), d), a))}
	case token.AND:
		for _, xy := range [][2]*Poly{{a, b}, {b, a}} {
			if c, ok := xy[1].ConstInt(); ok {
				c1 := new(big.Int).Add(c, big.NewInt(1))
				if c.Cmp(big.NewInt(1)) == 0 {
					return IntV{Mod2(xy[0])}
				}
				if c.Sign() == 0 {
					return IntV{zeroP}
				}
				if c.Sign() > 0 && new(big.Int).And(c, c1).Sign() == 0 {
					d := new(big.Rat).SetFrac(big.NewInt(1), c1)
					q := Floor(ScaleP(d, xy[0]))
					return IntV{SubP(xy[0], MulP(NumBig(c1), q))}
				}
			}
		}
		lo, hi := intRange(bits, sg)
		r := V(FreshRange("and", lo, hi))
		if !sg {
			st.assume(Le(r, a), Le(r, b))
		}
		return IntV{r}
	case token.XOR:
		// x ^ m with m in {0,-1}
		for _, xy := range [][2]*Poly{{a, b}, {b, a}} {
			m := xy[1]
			if ex.zeroOrMinusOne(st, m) {
				return IntV{Ite(Eq0(m), xy[0], SubP(Num(-1), xy[0]))}
			}
		}
		return st.freshVal(rt, "xor")
	case token.AND_NOT:
		if !sg {
			lo, hi := intRange(bits, sg)
			at := App("andnot", true, a, b)
			at.lo, at.hi = new(big.Rat).SetInt(lo), new(big.Rat).SetInt(hi)
			return IntV{V(at)}
		}
		return st.freshVal(rt, "andnot")
	case token.OR:
		return st.freshVal(rt, "or")
	default:
		unsup("binop %s", op)
	}
	return IntV{ex.wrap(st, r, rt, op.String()+" at "+pos)}
}

func andnotOf(p *Poly) *Atom {
	if len(p.ms) == 1 && p.ms[0].m.linear() && p.ms[0].c.Cmp(ratOne) == 0 {
		if a := p.ms[0].m.fac[0].a; a.fn == "andnot" {
			return a
		}
	}
	return nil
}

func (ex *Exec) zeroOrMinusOne(st *State, p *Poly) bool {
	lo, hi := st.interval(p)
	return lo != nil && hi != nil && lo.Cmp(big.NewRat(-1, 1)) >= 0 && hi.Sign() <= 0
}

// truncDiv is Go's truncated division.
func (ex *Exec) truncDiv(st *State, a, b *Poly, signed bool) *Poly {
	la, _ := st.interval(a)
	lb, _ := st.interval(b)
	if !signed || la != nil && la.Sign() >= 0 && lb != nil && lb.Sign() >= 0 {
		return Idiv(a, b)
	}
	if c, ok := b.ConstInt(); ok && c.Sign() > 0 {
		return Ite(Ge0(a), Idiv(a, b), NegP(Idiv(NegP(a), b)))
	}
	pos := Idiv(AbsP(a), AbsP(b))
	return Ite(Iff(Ge0(a), Ge0(b)), pos, NegP(pos))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// floatOp: whole numbers of at most 2^40 are exact in float64, and so are
// their products and sums of at most that size. One division by a constant of
// at most 1000 follows with a relative error of 2^-53; the only thing done
// with the quotient is rounding to a whole number (floatRound), which the
// error cannot affect: a quotient that is not whole is 1/1000 or more away
// from the next whole number. Everything else is unknown.
func (ex *Exec) floatOp(st *State, op token.Token, x, y Val, rt types.Type) Val {
	a, ok := x.(FloatV)
	b, ok2 := y.(FloatV)
	if !ok || !ok2 || !a.whole || !b.whole || !isFloat(rt) {
		return st.freshVal(rt, "float")
	}
	var p *Poly
	whole := true
	switch op {
	case token.ADD:
		p = AddP(a.p, b.p)
	case token.SUB:
		p = SubP(a.p, b.p)
	case token.MUL:
		p = MulP(a.p, b.p)
	case token.QUO:
		c, ok := b.p.ConstInt()
		if !ok || !c.IsInt64() || c.Int64() < 1 || c.Int64() > 1000 {
			return st.freshVal(rt, "float")
		}
		p, whole = ScaleP(big.NewRat(1, c.Int64()), a.p), false
	default:
		return st.freshVal(rt, "float")
	}
	if !ex.provable(st, And(Le(Num(-1<<40), p), Le(p, Num(1<<40)))) {
		return st.freshVal(rt, "float")
	}
	return FloatV{p, whole}
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type, pos string) Val {
	if _, ok := v.(OpaqueV); ok {
		return st.freshVal(to, "conv")
	}
	if isBitsType(to) {
		bits, _, _ := intType(to)
		switch x := v.(type) {
		case BitsV:
			b := make([]*Fm, bits)
			for i := range b {
				b[i] = tFalse
				if i < len(x.b) {
					b[i] = x.b[i]
				}
			}
			return BitsV{b}
		case IntV:
			if c, ok := x.p.ConstInt(); ok {
				return constBits(wrapConst(c, bits, false), bits)
			}
			r := st.freshVal(to, "bits").(BitsV)
			st.assume(Eq(ex.intOf(r), ex.wrap(st, x.p, types.Typ[types.Uint8], "")))
			return r
		}
	}
	if x, ok := v.(FloatV); ok {
		if _, _, ti := intType(to); ti && x.whole && ex.provable(st, And(Le(Num(-1<<40), x.p), Le(x.p, Num(1<<40)))) {
			save := ex.wraps
			ex.wraps = true
			defer func() { ex.wraps = save }()
			return IntV{ex.wrap(st, x.p, to, "conversion at "+pos)}
		}
		return st.freshVal(to, "conv")
	}
	_, _, fi := intType(from)
	if fi && isFloat(to) {
		p := st.simpP(ex.intOf(v))
		if ex.provable(st, And(Le(Num(-1<<40), p), Le(p, Num(1<<40)))) {
			return FloatV{p, true}
		}
		return OpaqueV{to, newBack()}
	}
	tb, tsg, ti := intType(to)
	if fi && ti {
		p := ex.intOf(v)
		save := ex.wraps
		ex.wraps = true // conversions wrap by definition
		r := ex.wrap(st, p, to, "conversion at "+pos)
		ex.wraps = save
		_, _ = tb, tsg
		return IntV{r}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if s, ok := v.(StrV); ok && s.known {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return s
		}
	}
	return st.freshVal(to, "conv")
}

// ---------------------------------------------------------------- control

type outcome struct {
	panicked bool
	msg      string
}

// runFunc executes fn's body with args; k receives the state after return.
func (ex *Exec) runFunc(st *State, fn *ssa.Function, args []Val, fv []Val, con *Contract, k func(*State, []Val)) {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if len(st.frames) > 24 {
		unsup("inlining too deep at %s", fn)
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopState{}, visits: map[*ssa.BasicBlock]int{}, k: k, fv: fv, con: con}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	st.frames = append(st.frames, fr)
	ex.block(st, fn.Blocks[0], nil)
}

func (ex *Exec) block(st *State, b *ssa.BasicBlock, pred *ssa.BasicBlock) {
	if st.dead {
		return
	}
	fr := st.fr()
	// loop header?
	if li := ex.v.loopInfo(fr.fn, b); li != nil {
		back := pred != nil && b.Dominates(pred)
		if fr.con != nil {
			if lc := fr.con.loop(li.ordinal); lc != nil {
				if !ex.loopHeader(st, b, pred, lc, li, back) {
					return
				}
				ex.instrs(st, b, 0)
				return
			}
		}
		if !back {
			fr.visits[b] = 0
		}
		fr.visits[b]++
		if fr.visits[b] > 70 {
			unsup("loop without invariant in %s", ex.p.name(fr.fn))
		}
	}
	// phis
	i := 0
	var vals []Val
	for ; i < len(b.Instrs); i++ {
		phi, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		for j, p := range b.Preds {
			if p == pred {
				vals = append(vals, ex.val(st, phi.Edges[j]))
				break
			}
		}
	}
	for j, v := range vals {
		fr.regs[b.Instrs[j].(*ssa.Phi)] = v
	}
	ex.instrs(st, b, i)
}

func (ex *Exec) instrs(st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		ex.steps++
		if ex.steps > maxSteps {
			unsup("too many steps")
		}
		in := b.Instrs[i]
		pos := ex.p.pos(in.Pos())
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			t := in.Type().Underlying().(*types.Pointer).Elem()
			name := in.Comment
			if r := allocNames[in.Parent()]; r != nil && r[name] != "" {
				name = r[name]
			}
			o := st.newObj(t, name, st.zeroVal(t))
			st.fr().regs[in] = PtrV{obj: o.id}
			st.fr().allocs = append(st.fr().allocs, allocRec{name, o.id})
		case *ssa.Store:
			p, ok := ex.val(st, in.Addr).(PtrV)
			if !ok {
				continue // store through an opaque pointer: cannot reach modelled state
			}
			ex.nonNil(st, p, pos)
			if st.dead {
				return
			}
			ex.store(st, p, ex.val(st, in.Val))
		case *ssa.UnOp:
			st.fr().regs[in] = ex.unop(st, in, pos)
		case *ssa.BinOp:
			st.fr().regs[in] = ex.binop(st, in.Op, ex.val(st, in.X), ex.val(st, in.Y), in.X.Type(), in.Type(), pos)
		case *ssa.FieldAddr:
			p, ok := ex.val(st, in.X).(PtrV)
			if !ok {
				st.fr().regs[in] = OpaqueV{in.Type(), newBack()}
				continue
			}
			ex.nonNil(st, p, pos)
			if st.dead {
				return
			}
			st.fr().regs[in] = PtrV{p.obj, append(p.path[:len(p.path):len(p.path)], pathEl{field: in.Field})}
		case *ssa.Field:
			switch x := ex.val(st, in.X).(type) {
			case StructV:
				st.fr().regs[in] = x.f[in.Field]
			default:
				st.fr().regs[in] = st.freshVal(in.Type(), "field")
			}
		case *ssa.IndexAddr:
			st.fr().regs[in] = ex.indexAddr(st, in, pos)
		case *ssa.Index:
			idx := ex.intOf(ex.val(st, in.Index))
			switch x := ex.val(st, in.X).(type) {
			case ArrayV:
				ex.oblige(st, "panic", "index in range at "+pos, And(Ge0(idx), Lt(idx, Num(int64(len(x.e))))))
				st.fr().regs[in] = ex.walk(st, x, []pathEl{{idx: idx}}, nil)
			default:
				st.fr().regs[in] = st.freshVal(in.Type(), "elem")
			}
		case *ssa.Slice:
			st.fr().regs[in] = ex.slice(st, in, pos)
		case *ssa.Convert:
			st.fr().regs[in] = ex.convert(st, ex.val(st, in.X), in.X.Type(), in.Type(), pos)
		case *ssa.ChangeType:
			v := ex.val(st, in.X)
			if isBitsType(in.Type()) != isBitsType(in.X.Type()) {
				v = ex.convert(st, v, in.X.Type(), in.Type(), pos)
			}
			if s, ok := v.(StructV); ok {
				s.t = in.Type()
				v = s
			}
			st.fr().regs[in] = v
		case *ssa.ChangeInterface:
			st.fr().regs[in] = ex.val(st, in.X)
		case *ssa.MakeInterface:
			st.fr().regs[in] = IfaceV{t: in.X.Type(), v: ex.val(st, in.X)}
		case *ssa.MakeClosure:
			var bs []Val
			for _, x := range in.Bindings {
				bs = append(bs, ex.val(st, x))
			}
			st.fr().regs[in] = FuncV{fn: in.Fn.(*ssa.Function), bind: bs}
		case *ssa.TypeAssert:
			st.fr().regs[in] = ex.typeAssert(st, in)
		case *ssa.Extract:
			switch t := ex.val(st, in.Tuple).(type) {
			case TupleV:
				st.fr().regs[in] = t.e[in.Index]
			default:
				st.fr().regs[in] = st.freshVal(in.Type(), "ext")
			}
		case *ssa.MakeSlice:
			st.fr().regs[in] = ex.makeSlice(st, in)
		case *ssa.Call:
			rest := i + 1
			blk := b
			ex.call(st, &in.Call, pos, func(st2 *State, res []Val) {
				var v Val
				switch len(res) {
				case 0:
				case 1:
					v = res[0]
				default:
					v = TupleV{res}
				}
				if sg := in.Call.Signature().Results(); sg.Len() > 1 && len(res) == 1 {
					v = res[0]
				}
				st2.fr().regs[in] = v
				ex.instrs(st2, blk, rest)
			})
			return
		case *ssa.RunDefers:
		case *ssa.If:
			c := st.simp(ex.boolOf(ex.val(st, in.Cond)))
			if c == tTrue {
				ex.block(st, b.Succs[0], b)
				return
			}
			if c == tFalse {
				ex.block(st, b.Succs[1], b)
				return
			}
			st2 := st.clone()
			st.assume(c)
			st2.assume(Not(c))
			tag := pos
			if ex.feasible(st) {
				if !st2.dead && !ex.feasible(st2) {
					st2.dead = true
				}
				if !st2.dead {
					ex.paths++
					if ex.paths > maxPaths {
						unsup("too many paths")
					}
				}
				st.trace = append(st.trace, tag+":T")
				ex.block(st, b.Succs[0], b)
			} else {
				st.dead = true
			}
			if !st2.dead {
				st2.trace = append(st2.trace, tag+":F")
				ex.block(st2, b.Succs[1], b)
			}
			return
		case *ssa.Jump:
			ex.block(st, b.Succs[0], b)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, ex.val(st, r))
			}
			fr := st.fr()
			st.frames = st.frames[:len(st.frames)-1]
			fr.k(st, res)
			return
		case *ssa.Panic:
			ex.panicPath(st, "panic at "+pos)
			return
		case *ssa.Phi:
			unsup("phi in the middle")
		case *ssa.Defer:
			unsup("defer in %s", ex.p.name(st.fr().fn))
		case *ssa.Lookup, *ssa.MakeMap, *ssa.Range, *ssa.Next, *ssa.MakeChan, *ssa.Select, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
			v := in.(ssa.Value)
			if n, ok := in.(*ssa.Next); ok {
				_ = n
				st.fr().regs[v] = TupleV{[]Val{BoolV{FreshBool("next")}, OpaqueV{nil, newBack()}, OpaqueV{nil, newBack()}}}
				continue
			}
			if l, ok := in.(*ssa.Lookup); ok && !l.CommaOk {
				st.fr().regs[v] = st.freshVal(v.Type(), "lookup")
				continue
			}
			st.fr().regs[v] = OpaqueV{v.Type(), newBack()}
		case *ssa.MapUpdate:
		default:
			unsup("instruction %T", in)
		}
	}
}

func (ex *Exec) nonNil(st *State, p PtrV, pos string) {
	if p.obj == 0 {
		ex.panicPath(st, "nil dereference at "+pos)
		st.dead = true
	}
}

// panicPath ends a path in a panic; it must be allowed by the contract.
func (ex *Exec) panicPath(st *State, what string) {
	goal := tFalse
	if ex.con != nil && ex.con.mayPanic != nil {
		goal = ex.evalMayPanic(st)
	}
	ex.job.addOblig(ex, st, "panic", what, st.simp(goal))
	ex.job.panics++
	st.dead = true
}

func (ex *Exec) unop(st *State, in *ssa.UnOp, pos string) Val {
	x := ex.val(st, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := x.(PtrV)
		if !ok {
			return st.freshVal(in.Type(), "deref")
		}
		ex.nonNil(st, p, pos)
		if st.dead {
			return st.freshVal(in.Type(), "dead")
		}
		v := ex.load(st, p)
		if o, ok := v.(OpaqueV); ok && o.t == nil {
			return st.freshVal(in.Type(), "opq")
		}
		return v
	case token.NOT:
		return BoolV{Not(ex.boolOf(x))}
	case token.SUB:
		if _, _, ok := intType(in.Type()); !ok {
			return st.freshVal(in.Type(), "neg")
		}
		return IntV{ex.wrap(st, NegP(ex.intOf(x)), in.Type(), "negation at "+pos)}
	case token.XOR:
		if b, ok := x.(BitsV); ok {
			out := make([]*Fm, len(b.b))
			for i := range out {
				out[i] = Not(b.b[i])
			}
			return BitsV{out}
		}
		bits, sg, _ := intType(in.Type())
		if sg {
			return IntV{SubP(Num(-1), ex.intOf(x))}
		}
		m := new(big.Int).Lsh(big.NewInt(1), bits)
		return IntV{SubP(NumBig(m.Sub(m, big.NewInt(1))), ex.intOf(x))}
	}
	return st.freshVal(in.Type(), "unop")
}

func (ex *Exec) typeAssert(st *State, in *ssa.TypeAssert) Val {
	x, ok := ex.val(st, in.X).(IfaceV)
	at := in.AssertedType
	var v Val
	var okF *Fm
	_, isIface := at.Underlying().(*types.Interface)
	switch {
	case !ok || x.unk:
		v, okF = st.freshVal(at, "assert"), FreshBool("assertok")
	case x.t == nil:
		v, okF = st.zeroVal(at), tFalse
	case isIface:
		m := types.Implements(x.t, at.Underlying().(*types.Interface))
		v, okF = x, BoolConst(m)
	case types.Identical(x.t, at):
		v, okF = x.v, tTrue
	default:
		v, okF = st.zeroVal(at), tFalse
	}
	if in.CommaOk {
		return TupleV{[]Val{v, BoolV{okF}}}
	}
	return v
}
