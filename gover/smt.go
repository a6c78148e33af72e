package main

// Encoding of queries into linear arithmetic over monomial variables, with
// ground instances of lemmas about 10^e, floors, digit counts and products.
// Every lemma emitted here is a theorem of arithmetic; nothing is assumed
// beyond the definitions of the symbols (see LEMMAS in DESIGN.md).

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Query struct {
	Name  string
	Facts []*Fm
	Ints  []*Poly // polynomials known to be integer valued
	Goal  *Fm
}

type encoder struct {
	atoms  map[*Atom]bool
	alist  []*Atom
	monos  map[*mono]bool // all non-unit monomials
	mlist  []*mono
	lits   map[*Fm]bool // opGe / opEq formulas seen
	llist  []*Fm
	asrt   []*Fm
	lemmas map[*Fm]bool
	defd   map[*Atom]bool
	ints   []*Poly
	aux    int
	raw    []string
	decl   []string
	nlem   int
	level  int
	whole  map[*mono]int // monomials known to be integers, see findWhole
}

// smallRange gives the range of a + c*x when it is short (x an atom with bounds).
func smallRange(p *Poly) (int64, int64, bool) {
	lo, hi := new(big.Rat), new(big.Rat)
	for _, t := range p.ms {
		if t.m == unit {
			lo.Add(lo, t.c)
			hi.Add(hi, t.c)
			continue
		}
		if !t.m.linear() {
			return 0, 0, false
		}
		a := t.m.fac[0].a
		if a.lo == nil || a.hi == nil {
			return 0, 0, false
		}
		x, y := new(big.Rat).Mul(t.c, a.lo), new(big.Rat).Mul(t.c, a.hi)
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	if !lo.IsInt() || !hi.IsInt() || !lo.Num().IsInt64() || !hi.Num().IsInt64() {
		return 0, 0, false
	}
	l, h := lo.Num().Int64(), hi.Num().Int64()
	return l, h, l >= -45 && h <= 45
}

func newEncoder() *encoder {
	return &encoder{atoms: map[*Atom]bool{}, monos: map[*mono]bool{}, lits: map[*Fm]bool{},
		lemmas: map[*Fm]bool{}, defd: map[*Atom]bool{}}
}

func (e *encoder) assert(f *Fm) {
	if f == tTrue || e.lemmas[f] {
		return
	}
	e.lemmas[f] = true
	e.asrt = append(e.asrt, f)
	e.scan(f)
}

func (e *encoder) scan(f *Fm) {
	switch f.op {
	case opVar:
		e.scanAtom(f.a)
	case opGe, opEq:
		if !e.lits[f] {
			e.lits[f] = true
			e.llist = append(e.llist, f)
		}
		e.scanPoly(f.p)
	}
	for _, g := range f.args {
		e.scan(g)
	}
}

func (e *encoder) scanPoly(p *Poly) {
	for _, t := range p.ms {
		e.scanMono(t.m)
	}
}

func (e *encoder) scanMono(m *mono) {
	if m == unit || e.monos[m] {
		return
	}
	e.monos[m] = true
	e.mlist = append(e.mlist, m)
	for _, f := range m.fac {
		e.scanAtom(f.a)
	}
	if m.pe != nil {
		e.scanPoly(m.pe)
	}
}

func (e *encoder) scanAtom(a *Atom) {
	if e.atoms[a] {
		return
	}
	e.atoms[a] = true
	e.alist = append(e.alist, a)
	for _, p := range a.args {
		e.scanPoly(p)
	}
	if a.cond != nil {
		e.scan(a.cond)
	}
	e.define(a)
}

func (e *encoder) define(a *Atom) {
	if e.defd[a] {
		return
	}
	e.defd[a] = true
	t := func() *Poly { return V(a) }
	if a.lo != nil {
		e.assert(Le(NumRat(a.lo), t()))
	}
	if a.hi != nil {
		e.assert(Le(t(), NumRat(a.hi)))
	}
	switch a.fn {
	case "ite":
		e.assert(Imp(a.cond, Eq(t(), a.args[0])))
		e.assert(Imp(Not(a.cond), Eq(t(), a.args[1])))
	case "ndig":
		x := a.args[0]
		n := t()
		e.assert(Ge0(SubP(n, oneP)))
		pos := Ge0(SubP(x, oneP))
		e.assert(Or(Not(pos), Le(Pow10P(SubP(n, oneP)), x)))
		e.assert(Or(Not(pos), Lt(x, Pow10P(n))))
		e.assert(Imp(pos, Le(AddP(x, oneP), Pow10P(n))))
		e.assert(Imp(Eq0(x), Eq(n, oneP)))
		// digits of B*10^k and of floor(B*10^k)
		in, fl := x, false
		if len(x.ms) == 1 && x.ms[0].m.linear() && x.ms[0].c.Cmp(ratOne) == 0 && x.ms[0].m.fac[0].a.fn == "floor" {
			in, fl = x.ms[0].m.fac[0].a.args[0], true
		}
		if b, k := shifted(in); b != nil {
			nb := Ndig(b)
			pos := Ge0(SubP(b, oneP))
			if fl {
				e.assert(Imp(And(pos, Ge0(SubP(AddP(nb, k), oneP))), Eq(n, AddP(nb, k))))
				e.assert(Imp(And(Ge0(b), Not(Ge0(SubP(AddP(nb, k), oneP)))), And(Eq0(x), Eq(n, oneP))))
			} else {
				e.assert(Imp(And(pos, Ge0(k)), Eq(n, AddP(nb, k))))
			}
		}
	case "floor":
		x := a.args[0]
		f := t()
		e.assert(Le(f, x))
		e.assert(Lt(x, AddP(f, oneP)))
		e.assert(Imp(Ge0(x), Ge0(f)))
		// multiplied form: clear the most common power of ten
		if k := commonP(x); k != nil {
			K := Pow10P(k)
			e.assert(Le(MulP(f, K), MulP(x, K)))
			e.assert(Lt(MulP(x, K), MulP(AddP(f, oneP), K)))
		}
	case "idiv":
		x, d := a.args[0], a.args[1]
		q := t()
		ok := And(Ge0(x), Ge0(SubP(d, oneP)))
		e.assert(Imp(ok, Le(MulP(q, d), x)))
		e.assert(Imp(ok, Lt(x, AddP(MulP(q, d), d))))
		e.assert(Imp(ok, Ge0(q)))
		e.assert(Imp(ok, Le(q, x)))
	case "mod2":
		h := FreshNamed(fmt.Sprintf("half!%d", a.id))
		e.assert(Eq(a.args[0], AddP(ScaleP(big.NewRat(2, 1), V(h)), t())))
		e.assert(Ge0(t()))
		e.assert(Le(t(), oneP))
	case "bitlen":
		e.assert(Imp(Eq0(a.args[0]), Eq0(t())))
		e.assert(Imp(Ge0(SubP(a.args[0], oneP)), Ge0(SubP(t(), oneP))))
	}
}

// FreshNamed interns an auxiliary integer variable by name.
func FreshNamed(name string) *Atom {
	return internAtom("v:"+name, func() *Atom { return &Atom{name: name, isInt: true} })
}

// shifted writes p as b*10^k with an integer b without power of ten.
func shifted(p *Poly) (b, k *Poly) {
	if len(p.ms) != 1 || p.ms[0].m == unit || len(p.ms[0].m.fac) == 0 {
		return nil, nil
	}
	t := p.ms[0]
	j, ok := log10Rat(t.c)
	if !ok || (t.m.pe == nil && j == 0) {
		return nil, nil
	}
	b = t.m.base()
	if !b.isInt() {
		return nil, nil
	}
	return b, AddP(t.m.peP(), Num(j))
}

// log10Rat reports whether r is a power of ten.
func log10Rat(r *big.Rat) (int64, bool) {
	if r.Sign() <= 0 {
		return 0, false
	}
	pow := func(n *big.Int) (int64, bool) {
		s := n.String()
		return int64(len(s) - 1), strings.TrimRight(s, "0") == "1"
	}
	a, ok1 := pow(r.Num())
	b, ok2 := pow(r.Denom())
	return a - b, ok1 && ok2
}

// commonP returns -e when some monomial of p carries P(e).
func commonP(p *Poly) *Poly {
	for _, t := range p.ms {
		if t.m.pe != nil {
			return NegP(t.m.pe)
		}
	}
	return nil
}

func (m *mono) peP() *Poly {
	if m.pe == nil {
		return zeroPoly()
	}
	return m.pe
}

func facKey(fs []fac) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%d^%d.", f.a.id, f.n)
	}
	return b.String()
}

func (m *mono) poly() *Poly { return mkPoly([]mterm{{ratOne, m}}) }
func (m *mono) base() *Poly {
	return mkPoly([]mterm{{ratOne, mkMono(append([]fac(nil), m.fac...), nil)}})
}
func (m *mono) pureP() bool { return len(m.fac) == 0 }
func (m *mono) linear() bool {
	return m.pe == nil && len(m.fac) == 1 && m.fac[0].n == 1
}
func (m *mono) intFacs() bool {
	for _, f := range m.fac {
		if !f.a.isInt {
			return false
		}
	}
	return true
}

var specialExps = []int64{1, 2, 19, 20, 21}

func (e *encoder) powLemmas() {
	ms := append([]*mono(nil), e.mlist...)
	groups := map[string][]*mono{}
	for _, m := range ms {
		groups[facKey(m.fac)] = append(groups[facKey(m.fac)], m)
		// the bare base joins its group
	}
	keys := make([]string, 0, len(groups))
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	ten := big.NewRat(10, 1)
	for _, k := range keys {
		g := groups[k]
		pure := k == ""
		hasPE := false
		for _, m := range g {
			if m.pe != nil {
				hasPE = true
			}
		}
		if !hasPE {
			continue
		}
		if pure {
			g = append(g, unit)
		}
		for _, m := range g {
			if m == unit {
				continue
			}
			if pure {
				e.assert(Gt0pure(m))
				for k := int64(-2); k <= 45; k++ {
					if f := Eq(m.pe, Num(k)); e.lits[f] {
						e.assert(Or(Not(f), eqRaw(SubP(m.poly(), NumRat(pow10Rat(k))))))
					}
				}
				if e.level >= 2 && len(m.pe.ms) <= 2 {
					if lo, hi, ok := smallRange(m.pe); ok {
						for k := lo; k <= hi; k++ {
							e.assert(Or(Not(Eq(m.pe, Num(k))), eqRaw(SubP(m.poly(), NumRat(pow10Rat(k))))))
						}
					}
				}
				for _, s := range specialExps {
					p10 := NumRat(pow10Rat(s))
					e.assert(Imp(Ge0(SubP(m.pe, Num(s))), Ge0raw(SubP(m.poly(), p10))))
					if s > 1 {
						e.assert(Imp(Ge0(SubP(Num(s), m.pe)), Ge0raw(SubP(p10, m.poly()))))
					}
				}
			} else if m.pe != nil {
				b := m.base()
				e.assert(Imp(Ge0(b), Ge0raw(m.poly())))
				e.assert(Imp(Gt0(b), Gt0(m.poly())))
				e.assert(Imp(Lt(b, zeroP), Lt(m.poly(), zeroP)))
				e.assert(Imp(eqAny(b), eqRaw(m.poly())))
			}
		}
		for i := 0; i < len(g); i++ {
			for j := i + 1; j < len(g); j++ {
				a, b := g[i], g[j]
				d := SubP(a.peP(), b.peP())
				var guard *Fm = tTrue
				if !pure {
					guard = Ge0(a.base())
				}
				pa, pb := a.poly(), b.poly()
				if a == unit {
					pa = oneP
				}
				if b == unit {
					pb = oneP
				}
				if c, ok := d.Const(); ok {
					_ = c // same symbolic part: constants were extracted, cannot happen
					continue
				}
				e.assert(Imp(And(guard, Ge0(d)), Ge0raw(SubP(pa, pb))))
				e.assert(Imp(And(guard, Ge0(SubP(d, oneP))), Ge0raw(SubP(pa, ScaleP(ten, pb)))))
				e.assert(Imp(And(guard, Ge0(NegP(d))), Ge0raw(SubP(pb, pa))))
				e.assert(Imp(And(guard, Ge0(SubP(NegP(d), oneP))), Ge0raw(SubP(pb, ScaleP(ten, pa)))))
			}
		}
	}
}

// Ge0raw keeps p >= 0 as a literal without P-specific folding.
func Ge0raw(p *Poly) *Fm {
	if c, ok := p.Const(); ok {
		return BoolConst(c.Sign() >= 0)
	}
	g := contentOf(p)
	return internFm(&Fm{op: opGe, p: ScaleP(new(big.Rat).Inv(g), p)})
}
func Gt0pure(m *mono) *Fm {
	return Not(internFm(&Fm{op: opGe, p: NegP(m.poly())}))
}
func eqAny(p *Poly) *Fm { return Eq0(p) }
func eqRaw(p *Poly) *Fm {
	if c, ok := p.Const(); ok {
		return BoolConst(c.Sign() == 0)
	}
	return internFm(&Fm{op: opEq, p: p})
}

// productLemmas: sign and size of products of two or more atoms (no P), and of B*P.
func (e *encoder) productLemmas() {
	for _, m := range append([]*mono(nil), e.mlist...) {
		n := 0
		for _, f := range m.fac {
			n += f.n
		}
		if n != 2 || m.pe != nil {
			continue
		}
		var x, y *Atom
		if len(m.fac) == 1 {
			x, y = m.fac[0].a, m.fac[0].a
		} else {
			x, y = m.fac[0].a, m.fac[1].a
		}
		X, Y, XY := V(x), V(y), m.poly()
		e.assert(Imp(And(Ge0(X), Ge0(Y)), Ge0raw(XY)))
		e.assert(Imp(eqAny(X), eqRaw(XY)))
		e.assert(Imp(eqAny(Y), eqRaw(XY)))
		if x.isInt && y.isInt {
			x1, y1 := Ge0(SubP(X, oneP)), Ge0(SubP(Y, oneP))
			e.assert(Imp(And(x1, y1), Ge0raw(SubP(XY, X))))
			e.assert(Imp(And(x1, y1), Ge0raw(SubP(XY, Y))))
			e.assert(Imp(And(x1, y1), Ge0raw(SubP(XY, SubP(AddP(X, Y), oneP)))))
		}
	}
}

type cand struct {
	lit   *Fm
	k     *Poly // multiplier
	base  *Poly // non-nil when the multiplier is a product with atoms needing a sign guard
	score float64
}

// closure multiplies literals by powers of ten (and by atoms) when the product
// mentions monomials already present.
func (e *encoder) closure(round, limit int) {
	var cs []cand
	type ms struct{ m *mono }
	byFac := map[string][]*mono{}
	for _, m := range e.mlist {
		byFac[facKey(m.fac)] = append(byFac[facKey(m.fac)], m)
	}
	byFac[""] = append(byFac[""], unit)
	seen := map[string]bool{}
	lits := append([]*Fm(nil), e.llist...)
	work := []int{0, 3000, 8000, 20000}[e.level]
	for _, l := range lits {
		if len(l.p.ms) > 6 {
			continue
		}
		if work < 0 {
			break
		}
		// candidate multipliers
		type km struct {
			k    *Poly
			base *Poly
		}
		ks := map[string]km{}
		for _, t := range l.p.ms {
			for _, m2 := range byFac[facKey(t.m.fac)] {
				k := SubP(m2.peP(), t.m.peP())
				if k.IsZero() {
					continue
				}
				if _, ok := k.Const(); ok {
					continue
				}
				K := Pow10P(k)
				ks[K.key] = km{K, nil}
			}
			// atom multipliers
			for _, m2 := range e.mlist {
				if len(m2.fac) != len(t.m.fac)+1 {
					continue
				}
				if r := ratioAtom(m2, t.m); r != nil {
					k := SubP(m2.peP(), t.m.peP())
					K := MulP(V(r), Pow10P(k))
					ks[K.key] = km{K, V(r)}
				}
			}
		}
		var kk []string
		for s := range ks {
			kk = append(kk, s)
		}
		sort.Strings(kk)
		for _, s := range kk {
			c := ks[s]
			prod := MulP(l.p, c.k)
			if seen[fmt.Sprint(l.id, ":", s)] {
				continue
			}
			seen[fmt.Sprint(l.id, ":", s)] = true
			work--
			matched, total := 0, 0
			for _, t := range prod.ms {
				total++
				if t.m == unit || e.monos[t.m] {
					matched++
				}
			}
			miss := total - matched
			ok := miss == 0 || matched >= 2 && miss <= 1
			if c.base == nil && total <= 2 && matched >= 1 {
				ok = true
			}
			if c.base == nil && total <= 3 && matched >= 2 {
				ok = true
			}
			if !ok {
				continue
			}
			cs = append(cs, cand{l, c.k, c.base, float64(miss) + 0.05*float64(total)})
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].score < cs[j].score })
	if len(cs) > limit {
		cs = cs[:limit]
	}
	for _, c := range cs {
		e.emitScaled(c.lit, c.k, c.base)
		if c.lit.op == opGe && c.lit.p.isInt() {
			e.emitScaled(Not(c.lit), c.k, c.base)
		}
	}
}

func ratioAtom(big, small *mono) *Atom {
	// big.fac == small.fac + one atom with power 1
	var extra *Atom
	i := 0
	for _, f := range big.fac {
		if i < len(small.fac) && small.fac[i] == f {
			i++
			continue
		}
		if extra != nil || f.n != 1 {
			return nil
		}
		extra = f.a
	}
	if i != len(small.fac) {
		return nil
	}
	return extra
}

func (e *encoder) emitScaled(l *Fm, k *Poly, base *Poly) {
	if l.op != opGe && l.op != opEq {
		return
	}
	q := MulP(l.p, k)
	e.nlem++
	if l.op == opEq {
		r := eqRaw(q)
		if base == nil {
			e.assert(Iff(l, r))
		} else {
			e.assert(Imp(l, r))
			e.assert(Imp(And(r, Gt0(base)), l))
		}
		return
	}
	r := Ge0raw(q)
	if base == nil {
		e.assert(Iff(l, r))
		return
	}
	e.assert(Imp(And(l, Ge0(base)), r))
	e.assert(Imp(And(r, Gt0(base)), l))
}

// log10 of two, bracketed by rationals (checked numerically by the self test)
var log2lo, _ = new(big.Rat).SetString("0.30102999566398119")
var log2hi, _ = new(big.Rat).SetString("0.30102999566398120")

// bitlen lemmas: 2^(b-1) <= x < 2^b compared with powers of ten.
func (e *encoder) bitlenLemmas() {
	for _, a := range append([]*Atom(nil), e.alist...) {
		if a.fn != "bitlen" {
			continue
		}
		x := a.args[0]
		b := V(a)
		pos := Ge0(SubP(x, oneP))
		for _, m := range append([]*mono(nil), e.mlist...) {
			if !m.pureP() {
				continue
			}
			// integer exponent m.pe + shift; e <= (b-1)*lo -> P(e) <= x ; e >= b*hi -> x < P(e)
			for s := int64(-2); s <= 2; s++ {
				ex := AddP(m.pe, Num(s))
				pm := Pow10P(ex)
				e.assert(Imp(And(pos, Le(ex, ScaleP(log2lo, SubP(b, oneP)))), Ge0raw(SubP(x, pm))))
				e.assert(Imp(And(pos, Le(ScaleP(log2hi, b), ex)), Gt0(SubP(pm, x))))
			}
		}
		// against constants
		for _, k := range []int64{1, 63, 64} {
			two := new(big.Int).Lsh(big.NewInt(1), uint(k))
			e.assert(Imp(Le(b, Num(k)), Lt(x, NumBig(two))))
			e.assert(Imp(Ge0(SubP(b, Num(k+1))), Le(NumBig(two), x)))
		}
	}
}

// ---------------------------------------------------------------- printing

func ratSMT(r *big.Rat, real bool) string {
	s := new(big.Int).Abs(r.Num()).String()
	if real {
		s += ".0"
	}
	if !r.IsInt() {
		s = "(/ " + s + " " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func (e *encoder) monoName(m *mono) (name string, isInt bool) {
	if m.linear() {
		return "|" + m.fac[0].a.name + "|", m.fac[0].a.isInt
	}
	if m.pe == nil && m.intFacs() {
		return fmt.Sprintf("|m%d|", m.id), true
	}
	if e.whole[m] > 0 {
		return fmt.Sprintf("|i%d|", m.id), true
	}
	return fmt.Sprintf("|m%d|", m.id), false
}

// findWhole notes the monomials B*P(e) whose exponent is non-negative (1) or
// positive (2) by some asserted fact, or the sum of two: they are declared as
// integers, which helps the solvers.
func (e *encoder) findWhole() {
	var facts []*Poly
	var unit1 func(f *Fm)
	unit1 = func(f *Fm) {
		switch f.op {
		case opAnd:
			for _, g := range f.args {
				unit1(g)
			}
		case opGe:
			if !hasPow(f.p) {
				facts = append(facts, f.p)
			}
		case opEq:
			if !hasPow(f.p) {
				facts = append(facts, f.p, NegP(f.p))
			}
		}
	}
	for _, f := range e.asrt {
		unit1(f)
	}
	for _, a := range e.alist {
		if a.lo != nil {
			facts = append(facts, SubP(V(a), NumRat(a.lo)))
		}
	}
	// by the part without the constant: the largest lower bound
	best := map[string]*big.Rat{}
	for _, f := range facts {
		k, c := polyKey(f), f.constPart()
		c = new(big.Rat).Neg(c) // part >= c
		if o, ok := best[k]; !ok || o.Cmp(c) < 0 {
			best[k] = c
		}
	}
	e.whole = map[*mono]int{}
	seen := map[*Poly]int{}
	for _, m := range e.mlist {
		if m.linear() || m.pe == nil || !m.intFacs() {
			continue
		}
		lvl, ok := seen[m.pe]
		if !ok {
			see := func(k string, c *big.Rat) {
				lo, ok := best[k]
				if k == "" && !ok {
					lo, ok = new(big.Rat), true
				}
				if ok {
					t := new(big.Rat).Add(lo, c)
					if t.Sign() >= 0 && lvl < 1 {
						lvl = 1
					}
					if t.Cmp(ratOne) >= 0 {
						lvl = 2
					}
				}
			}
			see(polyKey(m.pe), m.pe.constPart())
			if lvl < 2 {
				for _, f := range facts {
					if len(f.ms) > 4 || !shares(f, m.pe) {
						continue
					}
					d := SubP(m.pe, f)
					if len(d.ms) <= 3 {
						see(polyKey(d), d.constPart())
					}
				}
			}
			seen[m.pe] = lvl
		}
		if lvl > 0 {
			e.whole[m] = lvl
		}
	}
}

func polyKey(p *Poly) string {
	var b []byte
	for _, t := range p.ms {
		if t.m == unit {
			continue
		}
		b = strconv.AppendInt(b, int64(t.m.id), 10)
		b = append(b, '*')
		b = append(b, t.c.RatString()...)
		b = append(b, ' ')
	}
	return string(b)
}

func shares(p, q *Poly) bool {
	for _, t := range p.ms {
		if t.m == unit {
			continue
		}
		for _, u := range q.ms {
			if u.m == t.m {
				return true
			}
		}
	}
	return false
}

func hasPow(p *Poly) bool {
	for _, t := range p.ms {
		if t.m != unit && t.m.pe != nil {
			return true
		}
	}
	return false
}

func (e *encoder) polyCmp(op string, p *Poly) string {
	// move negatives to the right; decide sort
	isInt := true
	for _, t := range p.ms {
		if !t.c.IsInt() {
			isInt = false
		}
		if t.m != unit {
			if _, i := e.monoName(t.m); !i {
				isInt = false
			}
		}
	}
	var l, r []string
	for _, t := range p.ms {
		c := new(big.Rat).Abs(t.c)
		var s string
		if t.m == unit {
			s = ratSMT(c, !isInt)
		} else {
			n, i := e.monoName(t.m)
			if !isInt && i {
				n = "(to_real " + n + ")"
			}
			if c.Cmp(ratOne) == 0 {
				s = n
			} else {
				s = "(* " + ratSMT(c, !isInt) + " " + n + ")"
			}
		}
		if t.c.Sign() > 0 {
			l = append(l, s)
		} else {
			r = append(r, s)
		}
	}
	sum := func(x []string) string {
		switch len(x) {
		case 0:
			if isInt {
				return "0"
			}
			return "0.0"
		case 1:
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return "(" + op + " " + sum(l) + " " + sum(r) + ")"
}

func (e *encoder) fmSMT(f *Fm) string {
	switch f.op {
	case opTrue:
		return "true"
	case opFalse:
		return "false"
	case opVar:
		return "|" + f.a.name + "|"
	case opNot:
		return "(not " + e.fmSMT(f.args[0]) + ")"
	case opAnd, opOr, opIff:
		op := map[fop]string{opAnd: "and", opOr: "or", opIff: "="}[f.op]
		s := make([]string, len(f.args))
		for i, g := range f.args {
			s[i] = e.fmSMT(g)
		}
		return "(" + op + " " + strings.Join(s, " ") + ")"
	case opGe:
		return e.polyCmp(">=", f.p)
	case opEq:
		return e.polyCmp("=", f.p)
	}
	panic("fmSMT")
}

func (e *encoder) text() string {
	e.findWhole()
	var b strings.Builder
	for _, a := range e.alist {
		sort := "Real"
		if a.isBool {
			sort = "Bool"
		} else if a.isInt {
			sort = "Int"
		}
		fmt.Fprintf(&b, "(declare-const |%s| %s)\n", a.name, sort)
	}
	for _, m := range e.mlist {
		if m.linear() {
			continue
		}
		n, i := e.monoName(m)
		if i {
			fmt.Fprintf(&b, "(declare-const %s Int)\n", n)
			if m.pe != nil {
				j := fmt.Sprintf("|j%d|", m.id)
				fmt.Fprintf(&b, "(declare-const %s Int)\n", j)
				if e.whole[m] == 2 {
					fmt.Fprintf(&b, "(assert (= %s (* 10 %s)))\n", n, j)
				} else {
					fmt.Fprintf(&b, "(assert (=> %s (= %s (* 10 %s))))\n", e.fmSMT(Ge0(SubP(m.pe, oneP))), n, j)
				}
				if len(m.fac) == 0 {
					fmt.Fprintf(&b, "(declare-const |l%d| Int)\n(assert (=> %s (= %s (* 10 |l%d|))))\n", m.id, e.fmSMT(Ge0(SubP(m.pe, Num(2)))), j, m.id)
				}
			}
			continue
		}
		fmt.Fprintf(&b, "(declare-const %s Real)\n", n)
		if m.intFacs() && m.pe != nil {
			// integrality of B*P(e) for e >= 0, divisibility by ten for e >= 1
			fmt.Fprintf(&b, "(declare-const |i%d| Int)\n(declare-const |j%d| Int)\n", m.id, m.id)
			fmt.Fprintf(&b, "(assert (=> %s (= %s (to_real |i%d|))))\n", e.fmSMT(Ge0(m.pe)), n, m.id)
			fmt.Fprintf(&b, "(assert (=> %s (= |i%d| (* 10 |j%d|))))\n", e.fmSMT(Ge0(SubP(m.pe, oneP))), m.id, m.id)
			if len(m.fac) == 0 {
				fmt.Fprintf(&b, "(declare-const |l%d| Int)\n(assert (=> %s (= |j%d| (* 10 |l%d|))))\n", m.id, e.fmSMT(Ge0(SubP(m.pe, Num(2)))), m.id, m.id)
			}
		}
	}
	for i, p := range e.ints {
		// p is an integer
		fmt.Fprintf(&b, "(declare-const |z%d| Int)\n", i)
		k := FreshNamed(fmt.Sprintf("z%d", i))
		q := SubP(p, V(k))
		fmt.Fprintf(&b, "(assert %s)\n", e.polyCmp("=", q))
	}
	for _, f := range e.asrt {
		fmt.Fprintf(&b, "(assert %s)\n", e.fmSMT(f))
	}
	return b.String()
}

// encode builds the SMT text. level 0: no lemma; 1: basic; 2,3: more closure.
func encode(q *Query, level int) string {
	e := newEncoder()
	e.level = level
	for _, f := range q.Facts {
		e.assert(f)
	}
	e.assert(Not(q.Goal))
	for _, p := range q.Ints {
		ok := true
		for _, t := range p.ms {
			if t.m != unit && !e.monos[t.m] {
				ok = false
			}
		}
		if ok && !p.isInt() {
			e.ints = append(e.ints, p)
			e.scanPoly(p)
		}
	}
	if level >= 1 {
		e.productLemmas()
		lim := []int{0, 60, 200, 600}[level]
		e.closure(1, lim)
		e.bitlenLemmas()
		e.powLemmas()
		if level >= 2 {
			e.closure(2, lim)
			e.productLemmas()
			e.powLemmas()
		}
		if level >= 3 {
			e.closure(3, lim)
			e.powLemmas()
		}
	}
	return e.text()
}
