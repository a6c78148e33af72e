package main

// Terms: canonical polynomials with rational coefficients over interned atoms,
// where 10^e (P(e)) is merged inside monomials; and interned formulas.

import (
	"fmt"
	"math/big"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

type Atom struct {
	id     int
	name   string // SMT-safe unique name
	isInt  bool
	isBool bool
	fn     string // "" for variables; "ite","ndig","floor","idiv","bitlen",... for applications
	args   []*Poly
	cond   *Fm
	lo, hi *big.Rat // type range, nil = unbounded
	depth  int
}

type fac struct {
	a *Atom
	n int
}

type mono struct {
	id  int
	fac []fac
	pe  *Poly // exponent of ten without constant part; nil = none
	key string
}

type mterm struct {
	c *big.Rat
	m *mono
}

type Poly struct {
	id  int
	ms  []mterm
	key string
	sp  atomic.Pointer[polySplit]
}

type polySplit struct {
	lin *Poly
	c   *big.Rat
}

// split separates the constant term.
func (p *Poly) split() (*Poly, *big.Rat) {
	if x := p.sp.Load(); x != nil {
		return x.lin, x.c
	}
	x := &polySplit{p, new(big.Rat)}
	for i, t := range p.ms {
		if t.m == unit {
			x.c = t.c
			rest := append([]mterm(nil), p.ms[:i]...)
			x.lin = mkPoly(append(rest, p.ms[i+1:]...))
		}
	}
	p.sp.Store(x)
	return x.lin, x.c
}

var (
	atoms  table[Atom]
	monos  table[mono]
	polys  table[Poly]
	fms    table[Fm]
	nextID atomic.Int64
	freshN atomic.Int64
)

// table interns values by key; it is split to keep concurrent jobs apart.
type table[T any] struct {
	sh [256]struct {
		sync.RWMutex
		m map[string]*T
	}
}

func (t *table[T]) get(key []byte, mk func() *T) *T {
	h := uint32(2166136261)
	for _, c := range key {
		h = (h ^ uint32(c)) * 16777619
	}
	s := &t.sh[(h^h>>16)%256]
	s.RLock()
	v := s.m[string(key)]
	s.RUnlock()
	if v != nil {
		return v
	}
	s.Lock()
	defer s.Unlock()
	if v := s.m[string(key)]; v != nil {
		return v
	}
	if s.m == nil {
		s.m = map[string]*T{}
	}
	v = mk()
	s.m[string(key)] = v
	return v
}

var (
	ratOne = big.NewRat(1, 1)
	unit   *mono // empty monomial
	zeroP  *Poly
	oneP   *Poly
)

func init() {
	unit = mkMono(nil, nil)
	zeroP = mkPoly(nil)
	oneP = Num(1)
	tTrue = internFm(&Fm{op: opTrue})
	tFalse = internFm(&Fm{op: opFalse})
}

func newID() int { return int(nextID.Add(1)) }

func internAtom(key string, mk func() *Atom) *Atom {
	return atoms.get([]byte(key), func() *Atom {
		a := mk()
		a.id = newID()
		if a.name == "" {
			a.name = fmt.Sprintf("%s!%d", a.fn, a.id)
		}
		return a
	})
}

// Fresh makes a new variable.
func Fresh(hint string, isInt bool) *Atom {
	n := freshN.Add(1)
	name := fmt.Sprintf("%s~%d", hint, n)
	return internAtom("v:"+name, func() *Atom { return &Atom{name: name, isInt: isInt} })
}

// FreshRange makes a new integer variable with a type range.
func FreshRange(hint string, lo, hi *big.Int) *Atom {
	a := Fresh(hint, true)
	if lo != nil {
		a.lo = new(big.Rat).SetInt(lo)
	}
	if hi != nil {
		a.hi = new(big.Rat).SetInt(hi)
	}
	return a
}

func App(fn string, isInt bool, args ...*Poly) *Atom {
	ks := make([]string, len(args))
	for i, a := range args {
		ks[i] = fmt.Sprint(a.id)
	}
	return internAtom("a:"+fn+"("+strings.Join(ks, ",")+")", func() *Atom {
		d := 0
		for _, p := range args {
			if x := p.depth(); x > d {
				d = x
			}
		}
		at := &Atom{fn: fn, isInt: isInt, args: args, depth: d + 1}
		switch fn {
		case "ndig":
			at.lo = big.NewRat(1, 1)
			if x := args[0]; len(x.ms) == 1 && x.ms[0].c.Cmp(ratOne) == 0 && x.ms[0].m.linear() {
				if hi := x.ms[0].m.fac[0].a.hi; hi != nil && hi.Sign() > 0 && hi.IsInt() {
					if n := len(hi.Num().String()); n <= 40 {
						at.hi = big.NewRat(int64(n), 1)
					}
				}
			}
		case "bitlen":
			at.lo = new(big.Rat)
		}
		return at
	})
}

func (p *Poly) depth() int {
	d := 0
	for _, t := range p.ms {
		for _, f := range t.m.fac {
			if f.a.depth > d {
				d = f.a.depth
			}
		}
		if t.m.pe != nil {
			if x := t.m.pe.depth(); x > d {
				d = x
			}
		}
	}
	return d
}

func mkMono(fs []fac, pe *Poly) *mono {
	if len(fs) > 1 {
		slices.SortFunc(fs, func(a, b fac) int { return a.a.id - b.a.id })
	}
	var buf [64]byte
	b := buf[:0]
	for _, f := range fs {
		b = strconv.AppendInt(b, int64(f.a.id), 10)
		b = append(b, '^')
		b = strconv.AppendInt(b, int64(f.n), 10)
		b = append(b, '.')
	}
	if pe != nil && len(pe.ms) > 0 {
		b = append(b, '|')
		b = strconv.AppendInt(b, int64(pe.id), 10)
	} else {
		pe = nil
	}
	return monos.get(b, func() *mono { return &mono{fac: fs, pe: pe, key: string(b), id: newID()} })
}

func mkPoly(ms []mterm) *Poly {
	if len(ms) > 1 {
		slices.SortFunc(ms, func(a, b mterm) int { return a.m.id - b.m.id })
	}
	var buf [128]byte
	b := buf[:0]
	for _, t := range ms {
		if n := t.c.Num(); t.c.IsInt() && n.IsInt64() {
			b = strconv.AppendInt(b, n.Int64(), 10)
		} else {
			b = append(b, t.c.RatString()...)
		}
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.m.id), 10)
		b = append(b, '+')
	}
	return polys.get(b, func() *Poly { return &Poly{ms: ms, key: string(b), id: newID()} })
}

type pacc struct {
	m map[*mono]*big.Rat
}

func newAcc() *pacc { return &pacc{m: map[*mono]*big.Rat{}} }
func (a *pacc) add(c *big.Rat, m *mono) {
	if c.Sign() == 0 {
		return
	}
	if o := a.m[m]; o != nil {
		o.Add(o, c)
		return
	}
	a.m[m] = new(big.Rat).Set(c)
}
func (a *pacc) addPoly(c *big.Rat, p *Poly) {
	for _, t := range p.ms {
		a.add(new(big.Rat).Mul(c, t.c), t.m)
	}
}
func (a *pacc) poly() *Poly {
	var ms []mterm
	for m, c := range a.m {
		if c.Sign() != 0 {
			ms = append(ms, mterm{c, m})
		}
	}
	return mkPoly(ms)
}

func Num(n int64) *Poly       { return NumRat(big.NewRat(n, 1)) }
func NumBig(n *big.Int) *Poly { return NumRat(new(big.Rat).SetInt(n)) }
func NumU(n uint64) *Poly     { return NumBig(new(big.Int).SetUint64(n)) }
func NumRat(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return mkPoly(nil)
	}
	return mkPoly([]mterm{{new(big.Rat).Set(r), unit}})
}

func V(a *Atom) *Poly {
	return mkPoly([]mterm{{ratOne, mkMono([]fac{{a, 1}}, nil)}})
}

func (p *Poly) Const() (*big.Rat, bool) {
	switch len(p.ms) {
	case 0:
		return new(big.Rat), true
	case 1:
		if p.ms[0].m == unit {
			return p.ms[0].c, true
		}
	}
	return nil, false
}

func (p *Poly) ConstInt() (*big.Int, bool) {
	r, ok := p.Const()
	if !ok || !r.IsInt() {
		return nil, false
	}
	return r.Num(), true
}

func (p *Poly) constPart() *big.Rat {
	for _, t := range p.ms {
		if t.m == unit {
			return t.c
		}
	}
	return new(big.Rat)
}

func (p *Poly) IsZero() bool { return len(p.ms) == 0 }

func AddP(ps ...*Poly) *Poly {
	a := newAcc()
	for _, p := range ps {
		a.addPoly(ratOne, p)
	}
	return a.poly()
}
func SubP(p, q *Poly) *Poly {
	a := newAcc()
	a.addPoly(ratOne, p)
	a.addPoly(big.NewRat(-1, 1), q)
	return a.poly()
}
func ScaleP(c *big.Rat, p *Poly) *Poly {
	a := newAcc()
	a.addPoly(c, p)
	return a.poly()
}
func NegP(p *Poly) *Poly { return ScaleP(big.NewRat(-1, 1), p) }

func mulMono(a, b *mono) (*big.Rat, *mono) {
	if a == unit {
		return ratOne, b
	}
	if b == unit {
		return ratOne, a
	}
	cnt := map[*Atom]int{}
	for _, f := range a.fac {
		cnt[f.a] += f.n
	}
	for _, f := range b.fac {
		cnt[f.a] += f.n
	}
	var fs []fac
	for x, n := range cnt {
		if n != 0 {
			fs = append(fs, fac{x, n})
		}
	}
	pe := zeroPoly()
	if a.pe != nil {
		pe = AddP(pe, a.pe)
	}
	if b.pe != nil {
		pe = AddP(pe, b.pe)
	}
	return monoP(fs, pe)
}

func zeroPoly() *Poly { return mkPoly(nil) }

var maxPow10 = int64(3000)

func pow10Rat(k int64) *big.Rat {
	e := new(big.Int).Exp(big.NewInt(10), big.NewInt(abs64(k)), nil)
	if k >= 0 {
		return new(big.Rat).SetInt(e)
	}
	return new(big.Rat).SetFrac(big.NewInt(1), e)
}
func abs64(k int64) int64 {
	if k < 0 {
		return -k
	}
	return k
}

func monoP(fs []fac, pe *Poly) (*big.Rat, *mono) {
	c := pe.constPart()
	if c.Sign() != 0 && c.IsInt() && c.Num().IsInt64() && abs64(c.Num().Int64()) <= maxPow10 {
		pe2 := SubP(pe, NumRat(c))
		return pow10Rat(c.Num().Int64()), mkMono(fs, pe2)
	}
	return ratOne, mkMono(fs, pe)
}

func MulP(p, q *Poly) *Poly {
	a := newAcc()
	for _, s := range p.ms {
		for _, t := range q.ms {
			k, m := mulMono(s.m, t.m)
			c := new(big.Rat).Mul(s.c, t.c)
			c.Mul(c, k)
			a.add(c, m)
		}
	}
	return a.poly()
}

// Pow10 returns 10^e.
func Pow10P(e *Poly) *Poly {
	k, m := monoP(nil, e)
	return mkPoly([]mterm{{new(big.Rat).Set(k), m}})
}

// isIntLin reports whether p is integer valued for syntactic reasons.
func (p *Poly) isInt() bool {
	for _, t := range p.ms {
		if !t.c.IsInt() || t.m.pe != nil {
			return false
		}
		for _, f := range t.m.fac {
			if !f.a.isInt {
				return false
			}
		}
	}
	return true
}

func (p *Poly) atomsInto(s map[*Atom]bool) {
	for _, t := range p.ms {
		t.m.atomsInto(s)
	}
}
func (m *mono) atomsInto(s map[*Atom]bool) {
	for _, f := range m.fac {
		if s[f.a] {
			continue
		}
		s[f.a] = true
		for _, q := range f.a.args {
			q.atomsInto(s)
		}
		if f.a.cond != nil {
			f.a.cond.atomsInto(s)
		}
	}
	if m.pe != nil {
		m.pe.atomsInto(s)
	}
}

func (p *Poly) String() string {
	if len(p.ms) == 0 {
		return "0"
	}
	var b strings.Builder
	for i, t := range p.ms {
		if i > 0 {
			b.WriteString(" + ")
		}
		cs := t.c.RatString()
		if t.m == unit {
			b.WriteString(cs)
			continue
		}
		if cs != "1" {
			b.WriteString(cs + "*")
		}
		b.WriteString(t.m.String())
	}
	return b.String()
}
func (m *mono) String() string {
	var s []string
	for _, f := range m.fac {
		x := f.a.String()
		if f.n != 1 {
			x += fmt.Sprintf("^%d", f.n)
		}
		s = append(s, x)
	}
	if m.pe != nil {
		s = append(s, "P("+m.pe.String()+")")
	}
	return strings.Join(s, "*")
}
func (a *Atom) String() string {
	if a.fn == "" {
		return a.name
	}
	if a.fn == "ite" {
		return fmt.Sprintf("ite(%s, %s, %s)", a.cond, a.args[0], a.args[1])
	}
	var s []string
	for _, p := range a.args {
		s = append(s, p.String())
	}
	return a.fn + "(" + strings.Join(s, ",") + ")"
}

// ---------------------------------------------------------------- formulas

type fop uint8

const (
	opTrue fop = iota
	opFalse
	opVar // boolean atom
	opNot
	opAnd
	opOr
	opIff
	opGe // p >= 0
	opEq // p == 0
)

type Fm struct {
	id   int
	op   fop
	args []*Fm
	p    *Poly
	a    *Atom
	atm  atomic.Pointer[map[*Atom]bool] // cache
	neg  atomic.Pointer[Fm]             // cache
}

var tTrue, tFalse *Fm

func internFm(f *Fm) *Fm {
	var buf [128]byte
	b := append(buf[:0], '0'+byte(f.op))
	for _, x := range f.args {
		b = strconv.AppendInt(b, int64(x.id), 10)
		b = append(b, ',')
	}
	if f.p != nil {
		b = append(b, 'p')
		b = strconv.AppendInt(b, int64(f.p.id), 10)
	}
	if f.a != nil {
		b = append(b, 'a')
		b = strconv.AppendInt(b, int64(f.a.id), 10)
	}
	return fms.get(b, func() *Fm { f.id = newID(); return f })
}

func BoolConst(b bool) *Fm {
	if b {
		return tTrue
	}
	return tFalse
}

func FreshBool(hint string) *Fm {
	a := Fresh(hint, false)
	a.isBool = true
	return internFm(&Fm{op: opVar, a: a})
}

func Not(f *Fm) *Fm {
	if g := f.neg.Load(); g != nil {
		return g
	}
	g := not(f)
	f.neg.Store(g)
	return g
}

func not(f *Fm) *Fm {
	switch f.op {
	case opTrue:
		return tFalse
	case opFalse:
		return tTrue
	case opNot:
		return f.args[0]
	case opAnd, opOr:
		args := make([]*Fm, len(f.args))
		for i, g := range f.args {
			args[i] = Not(g)
		}
		if f.op == opAnd {
			return Or(args...)
		}
		return And(args...)
	case opGe:
		if f.p.isInt() {
			return Ge0(SubP(NegP(f.p), oneP)) // p<=-1
		}
	}
	return internFm(&Fm{op: opNot, args: []*Fm{f}})
}

func And(fs ...*Fm) *Fm { return nary(opAnd, fs) }
func Or(fs ...*Fm) *Fm  { return nary(opOr, fs) }

func nary(op fop, fs []*Fm) *Fm {
	neutral, absorb := tTrue, tFalse
	if op == opOr {
		neutral, absorb = tFalse, tTrue
	}
	seen := map[*Fm]bool{}
	var out []*Fm
	var rec func(f *Fm) bool
	rec = func(f *Fm) bool {
		if f == neutral {
			return true
		}
		if f == absorb {
			return false
		}
		if f.op == op {
			for _, g := range f.args {
				if !rec(g) {
					return false
				}
			}
			return true
		}
		if seen[f] {
			return true
		}
		if seen[Not(f)] {
			return false
		}
		seen[f] = true
		out = append(out, f)
		return true
	}
	for _, f := range fs {
		if !rec(f) {
			return absorb
		}
	}
	switch len(out) {
	case 0:
		return neutral
	case 1:
		return out[0]
	}
	slices.SortFunc(out, func(a, b *Fm) int { return a.id - b.id })
	return internFm(&Fm{op: op, args: out})
}

func Imp(a, b *Fm) *Fm { return Or(Not(a), b) }

func Iff(a, b *Fm) *Fm {
	switch {
	case a == b:
		return tTrue
	case a == Not(b):
		return tFalse
	case a == tTrue:
		return b
	case b == tTrue:
		return a
	case a == tFalse:
		return Not(b)
	case b == tFalse:
		return Not(a)
	}
	neg := false
	if a.op == opNot {
		a = a.args[0]
		neg = !neg
	}
	if b.op == opNot {
		b = b.args[0]
		neg = !neg
	}
	if a.id > b.id {
		a, b = b, a
	}
	f := internFm(&Fm{op: opIff, args: []*Fm{a, b}})
	if neg {
		return Not(f)
	}
	return f
}
func Xor(a, b *Fm) *Fm { return Not(Iff(a, b)) }

func IteF(c, a, b *Fm) *Fm {
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	}
	return And(Imp(c, a), Or(c, b))
}

func contentOf(p *Poly) *big.Rat {
	// positive rational g with p/g having coprime integer coefficients
	var num, den *big.Int
	for _, t := range p.ms {
		n := new(big.Int).Abs(t.c.Num())
		if num == nil {
			num, den = n, new(big.Int).Set(t.c.Denom())
			continue
		}
		num = new(big.Int).GCD(nil, nil, num, n)
		g := new(big.Int).GCD(nil, nil, den, t.c.Denom())
		den = new(big.Int).Div(new(big.Int).Mul(den, t.c.Denom()), g)
	}
	return new(big.Rat).SetFrac(num, den)
}

// Ge0 is p >= 0.
func Ge0(p *Poly) *Fm {
	if c, ok := p.Const(); ok {
		return BoolConst(c.Sign() >= 0)
	}
	if len(p.ms) == 1 && len(p.ms[0].m.fac) == 0 { // c*P(e)
		return BoolConst(p.ms[0].c.Sign() > 0)
	}
	k := p.constPart()
	q := p
	if k.Sign() != 0 {
		q = SubP(p, NumRat(k))
	}
	g := contentOf(q)
	q = ScaleP(new(big.Rat).Inv(g), q)
	k = new(big.Rat).Quo(k, g)
	if q.isInt() && !k.IsInt() {
		// floor
		f := new(big.Int).Div(k.Num(), k.Denom())
		k = new(big.Rat).SetInt(f)
	}
	return internFm(&Fm{op: opGe, p: AddP(q, NumRat(k))})
}

// Gt0 is p > 0.
func Gt0(p *Poly) *Fm {
	if c, ok := p.Const(); ok {
		return BoolConst(c.Sign() > 0)
	}
	return Not(Ge0(NegP(p)))
}

// Eq0 is p == 0.
func Eq0(p *Poly) *Fm {
	if c, ok := p.Const(); ok {
		return BoolConst(c.Sign() == 0)
	}
	if len(p.ms) == 1 && len(p.ms[0].m.fac) == 0 {
		return tFalse
	}
	if len(p.ms) == 1 && p.ms[0].m.pe != nil { // c*X*P(e)==0 <=> X==0
		return Eq0(mkPoly([]mterm{{ratOne, mkMono(p.ms[0].m.fac, nil)}}))
	}
	g := contentOf(p)
	// sign: first non-unit monomial positive
	for _, t := range p.ms {
		if t.m != unit {
			if t.c.Sign() < 0 {
				g.Neg(g)
			}
			break
		}
	}
	q := ScaleP(new(big.Rat).Inv(g), p)
	if SubP(q, NumRat(q.constPart())).isInt() && !q.constPart().IsInt() {
		return tFalse
	}
	// canonicalise common P factor: if every monomial carries a power of ten, divide by the first
	return internFm(&Fm{op: opEq, p: q})
}

func Le(a, b *Poly) *Fm { return Ge0(SubP(b, a)) }
func Lt(a, b *Poly) *Fm { return Gt0(SubP(b, a)) }
func Eq(a, b *Poly) *Fm { return Eq0(SubP(a, b)) }
func Ne(a, b *Poly) *Fm { return Not(Eq(a, b)) }

// Ite is a numeric conditional.
func Ite(c *Fm, a, b *Poly) *Poly {
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	case c.op == opNot:
		return Ite(c.args[0], b, a)
	}
	k := fmt.Sprintf("ite:%d,%d,%d", c.id, a.id, b.id)
	return V(internAtom(k, func() *Atom {
		at := &Atom{fn: "ite", cond: c, args: []*Poly{a, b}, isInt: a.isInt() && b.isInt()}
		d := a.depth()
		if x := b.depth(); x > d {
			d = x
		}
		at.depth = d + 1
		return at
	}))
}

func (f *Fm) atomsInto(s map[*Atom]bool) {
	for x := range f.atomSet() {
		s[x] = true
	}
}

func (f *Fm) atomSet() map[*Atom]bool {
	if c := f.atm.Load(); c != nil {
		return *c
	}
	s := map[*Atom]bool{}
	if f.a != nil {
		s[f.a] = true
	}
	if f.p != nil {
		f.p.atomsInto(s)
	}
	for _, g := range f.args {
		g.atomsInto(s)
	}
	f.atm.Store(&s)
	return s
}

func (f *Fm) String() string {
	switch f.op {
	case opTrue:
		return "true"
	case opFalse:
		return "false"
	case opVar:
		return f.a.name
	case opNot:
		return "!(" + f.args[0].String() + ")"
	case opAnd, opOr, opIff:
		op := map[fop]string{opAnd: " && ", opOr: " || ", opIff: " <=> "}[f.op]
		var s []string
		for _, g := range f.args {
			s = append(s, g.String())
		}
		return "(" + strings.Join(s, op) + ")"
	case opGe:
		return f.p.String() + " >= 0"
	case opEq:
		return f.p.String() + " == 0"
	}
	return "?"
}

// ---------------------------------------------------------------- rebuilding

// rewriter maps atoms and formulas; used for substitution and simplification.
type rewriter struct {
	ge   func(*Poly) bool  // known to be >= 0
	atom func(*Atom) *Poly // nil result: keep
	fm   func(*Fm) *Fm     // applied to rebuilt literal/subformula; nil result: keep
	pm   map[*Poly]*Poly
	fmm  map[*Fm]*Fm
	am   map[*Atom]*Poly
}

func newRewriter() *rewriter {
	return &rewriter{pm: map[*Poly]*Poly{}, fmm: map[*Fm]*Fm{}, am: map[*Atom]*Poly{}}
}

func (r *rewriter) rwAtom(a *Atom) *Poly {
	if q, ok := r.am[a]; ok {
		return q
	}
	var out *Poly
	if r.atom != nil {
		out = r.atom(a)
	}
	if out == nil {
		if a.fn == "" {
			out = nil
		} else if a.fn == "ite" {
			c := r.Fm(a.cond)
			x, y := a.args[0], a.args[1]
			if c == tTrue {
				out = r.Poly(x)
			} else if c == tFalse {
				out = r.Poly(y)
			} else {
				x, y = r.Poly(x), r.Poly(y)
				// min and max: at a tie either side will do
				if r.ge != nil && c.op == opGe && (SubP(y, x) == c.p || SubP(x, y) == c.p) && r.ge(NegP(c.p)) {
					out = y
				} else if c != a.cond || x != a.args[0] || y != a.args[1] {
					out = Ite(c, x, y)
				}
			}
		} else {
			ch := false
			args := make([]*Poly, len(a.args))
			for i, p := range a.args {
				args[i] = r.Poly(p)
				if args[i] != p {
					ch = true
				}
			}
			if ch {
				out = mkApp(a.fn, args)
			}
		}
	}
	r.am[a] = out
	return out
}

func (r *rewriter) Poly(p *Poly) *Poly {
	if q, ok := r.pm[p]; ok {
		return q
	}
	changed := false
	type piece struct {
		c *big.Rat
		p *Poly
	}
	acc := newAcc()
	for _, t := range p.ms {
		mchg := false
		prod := (*Poly)(nil)
		var keep []fac
		for _, f := range t.m.fac {
			q := r.rwAtom(f.a)
			if q == nil {
				keep = append(keep, f)
				continue
			}
			mchg = true
			for i := 0; i < f.n; i++ {
				if prod == nil {
					prod = q
				} else {
					prod = MulP(prod, q)
				}
			}
		}
		pe := t.m.pe
		if pe != nil {
			pe2 := r.Poly(pe)
			if pe2 != pe {
				mchg = true
				pe = pe2
			}
		}
		if !mchg {
			acc.add(t.c, t.m)
			continue
		}
		changed = true
		base := zeroPoly()
		if pe != nil {
			base = pe
		}
		k, m := monoP(keep, base)
		c := new(big.Rat).Mul(k, t.c)
		bp := mkPoly([]mterm{{c, m}})
		if prod != nil {
			bp = MulP(bp, prod)
		}
		acc.addPoly(ratOne, bp)
	}
	q := p
	if changed {
		q = acc.poly()
	}
	r.pm[p] = q
	return q
}

func (r *rewriter) Fm(f *Fm) *Fm {
	if g, ok := r.fmm[f]; ok {
		return g
	}
	g := f
	switch f.op {
	case opNot:
		if x := r.Fm(f.args[0]); x != f.args[0] {
			g = Not(x)
		}
	case opAnd, opOr, opIff:
		ch := false
		args := make([]*Fm, len(f.args))
		for i, x := range f.args {
			args[i] = r.Fm(x)
			if args[i] != x {
				ch = true
			}
		}
		if ch {
			switch f.op {
			case opAnd:
				g = And(args...)
			case opOr:
				g = Or(args...)
			default:
				g = Iff(args[0], args[1])
			}
		}
	case opGe:
		if x := r.Poly(f.p); x != f.p {
			g = Ge0(x)
		}
	case opEq:
		if x := r.Poly(f.p); x != f.p {
			g = Eq0(x)
		}
	}
	if r.fm != nil {
		if h := r.fm(g); h != nil {
			g = h
		}
	}
	r.fmm[f] = g
	return g
}

// mkApp rebuilds an application with simplification on constants.
func mkApp(fn string, args []*Poly) *Poly {
	switch fn {
	case "ndig":
		return Ndig(args[0])
	case "floor":
		return Floor(args[0])
	case "idiv":
		return Idiv(args[0], args[1])
	case "bitlen":
		return BitLenT(args[0])
	case "mod2":
		return Mod2(args[0])
	}
	isInt := true
	return V(App(fn, isInt, args...))
}

// Ndig is the number of decimal digits of a non-negative integer (1 for 0).
func Ndig(p *Poly) *Poly {
	if c, ok := p.ConstInt(); ok {
		return Num(int64(len(new(big.Int).Abs(c).String())))
	}
	if len(p.ms) == 1 && p.ms[0].m != unit && len(p.ms[0].m.fac) == 0 && p.ms[0].c.Cmp(ratOne) == 0 {
		// 10^e with e >= 0 has e+1 digits; keep symbolic (e may be negative)
	}
	return V(App("ndig", true, p))
}

// Floor of a real polynomial.
func Floor(p *Poly) *Poly {
	if p.isInt() {
		return p
	}
	if c, ok := p.Const(); ok {
		return NumBig(new(big.Int).Div(c.Num(), c.Denom()))
	}
	return V(App("floor", true, p))
}

// Idiv is floor(a/b).
func Idiv(a, b *Poly) *Poly {
	if len(b.ms) == 1 && len(b.ms[0].m.fac) == 0 {
		// c * P(e): multiply by the inverse
		inv := MulP(NumRat(new(big.Rat).Inv(b.ms[0].c)), Pow10P(negOrZero(b.ms[0].m.pe)))
		return Floor(MulP(a, inv))
	}
	return V(App("idiv", true, a, b))
}

func negOrZero(p *Poly) *Poly {
	if p == nil {
		return zeroPoly()
	}
	return NegP(p)
}

func BitLenT(p *Poly) *Poly {
	if c, ok := p.ConstInt(); ok {
		return Num(int64(c.BitLen()))
	}
	return V(App("bitlen", true, p))
}

// Mod2 is p mod 2 in {0,1}.
func Mod2(p *Poly) *Poly {
	if c, ok := p.ConstInt(); ok {
		return Num(int64(new(big.Int).And(c, big.NewInt(1)).Int64()))
	}
	// drop even parts
	acc := newAcc()
	ch := false
	for _, t := range p.ms {
		if t.m == unit && t.c.IsInt() {
			b := new(big.Int).Mod(t.c.Num(), big.NewInt(2))
			acc.add(new(big.Rat).SetInt(b), t.m)
			if b.Cmp(t.c.Num()) != 0 {
				ch = true
			}
			continue
		}
		acc.add(t.c, t.m)
	}
	if ch {
		p = acc.poly()
	}
	return V(App("mod2", true, p))
}

// MinP, MaxP, AbsP as conditionals.
func MinP(a, b *Poly) *Poly { return Ite(Le(a, b), a, b) }
func MaxP(a, b *Poly) *Poly { return Ite(Le(b, a), a, b) }
func AbsP(a *Poly) *Poly    { return Ite(Ge0(a), a, NegP(a)) }
