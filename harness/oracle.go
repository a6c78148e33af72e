package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
)

// Condition bits, from the package documentation.
const (
	fClamped   = uint32(decimal.Clamped)
	fSyntax    = uint32(decimal.ConversionSyntax)
	fDivZero   = uint32(decimal.DivisionByZero)
	fDivImp    = uint32(decimal.DivisionImpossible)
	fDivUndef  = uint32(decimal.DivisionUndefined)
	fInexact   = uint32(decimal.Inexact)
	fInvCtx    = uint32(decimal.InvalidContext)
	fInvalid   = uint32(decimal.InvalidOperation)
	fOverflow  = uint32(decimal.Overflow)
	fRounded   = uint32(decimal.Rounded)
	fSubnormal = uint32(decimal.Subnormal)
	fUnderflow = uint32(decimal.Underflow)
)

type mctx struct {
	p          int64
	unlim      bool
	mode       int
	gda        bool
	emax, emin int64
}

func (c *Case) m() mctx {
	m := mctx{p: int64(c.Prec), mode: c.Mode, gda: c.OM == 0, emax: int64(c.Emax), emin: int64(c.Emin)}
	if m.p == 0 {
		m.p = 16
	}
	m.unlim = c.Prec == decimal.UnlimitedPrecision
	if m.emax == 0 {
		m.emax = decimal.MaxScale
	}
	if m.emin == 0 {
		m.emin = -decimal.MaxScale
	}
	return m
}

func (m mctx) etiny() int64 { return m.emin - m.p + 1 }
func (m mctx) etop() int64  { return m.emax - m.p + 1 }

func (c *Case) badctx() bool {
	return c.Prec < 0 || c.Prec > decimal.UnlimitedPrecision || c.Mode > 6 || c.OM > 1 || c.Emax > decimal.MaxScale || c.Emin < -decimal.MaxScale
}

// Want is what the statement of the property demands.
type Want struct {
	num   Num
	how   string // exact, value, nan, none, full
	flags uint32 // raised conditions
	fhow  string // exact, atleast, none
	quiet bool   // a NaN result does not go through an error (no panic in Go mode)
	maxd  int64  // most digits a "value" may have (0: any)
	class string // special, limits, ctx, ""
}

func (m mctx) over(neg bool) (Num, uint32) {
	tomax := m.mode == mZero || m.mode == mCeil && neg || m.mode == mFloor && !neg
	if tomax && !m.unlim {
		return finite(neg, new(big.Int).Sub(pow10(m.p), big.NewInt(1)), m.etop()), fOverflow | fInexact | fRounded
	}
	return infn(neg), fOverflow | fInexact | fRounded
}

// outcome is V * 10^e rounded to the context, with the exponent limits applied.
func (m mctx) outcome(neg bool, V *big.Int, e int64, always bool) (Num, uint32) {
	var fl uint32
	if V.Sign() == 0 {
		e2 := e
		if e2 < m.etiny() {
			e2 = m.etiny()
		}
		if e2 > m.emax {
			e2 = m.emax
		}
		if e2 != e {
			fl |= fClamped
		}
		return finite(neg, V, e2), fl
	}
	d := digits(V)
	if e+d-1 < m.emin {
		fl |= fSubnormal
		if e >= m.etiny() {
			return finite(neg, V, e), fl
		}
		k := m.etiny() - e
		if k > d+1 {
			k = d + 1 // the value is below a tenth of a unit either way
		}
		q, exact := divRound(V, pow10(k), m.mode, neg)
		fl |= fRounded
		if !exact {
			fl |= fUnderflow | fInexact
		}
		if q.Sign() == 0 {
			fl |= fClamped
		}
		return finite(neg, q, m.etiny()), fl
	}
	if (always || m.gda) && !m.unlim && d > m.p {
		k := d - m.p
		q, exact := divRound(V, pow10(k), m.mode, neg)
		e += k
		fl |= fRounded
		if !exact {
			fl |= fInexact
		}
		if digits(q) > m.p {
			q.Quo(q, big.NewInt(10))
			e++
		}
		V = q
	}
	if e+digits(V)-1 > m.emax {
		return m.over(neg)
	}
	return finite(neg, V, e), fl
}

func (m mctx) want(neg bool, V *big.Int, e int64, always bool) Want {
	n, f := m.outcome(neg, V, e, always)
	return Want{num: n, how: "exact", flags: f, fhow: "exact"}
}

func (m mctx) fin(n Num, always bool) Want { return m.want(n.Neg, n.coef(), n.Exp, always) }

func nan2(x, y Num) Want {
	w := Want{how: "nan", fhow: "exact", class: "special"}
	if x.Kind == "S" || y.Kind == "S" {
		w.flags = fInvalid
	}
	switch {
	case x.Kind == "S":
		w.num = nann(x.Neg)
	case y.Kind == "S":
		w.num = nann(y.Neg)
	case x.Kind == "Q":
		w.num = nann(x.Neg)
	default:
		w.num = nann(y.Neg)
	}
	return w
}

func invalid(f uint32) Want {
	return Want{num: nann(false), how: "nan", flags: f, fhow: "exact", class: "special"}
}

func datum(n Num, f uint32) Want { return Want{num: n, how: "exact", flags: f, fhow: "exact"} }

const spread = 1500

// exactAdd is the finite sum; an operand far below the other is replaced by a
// nonzero one just as negligible.
func exactAdd(x, y Num, m mctx) Num {
	if !x.zero() && !y.zero() {
		for i := 0; i < 2; i++ {
			if x.Exp-adjusted(y) > spread && m.gda && !m.unlim {
				// every digit of y lies below x's last rounded digit
				y = finite(y.Neg, big.NewInt(1), x.Exp-spread)
			}
			x, y = y, x
		}
	}
	if m.gda && !m.unlim { // a zero far below only pads up to the precision
		if x.zero() && !y.zero() && y.Exp-x.Exp > spread {
			x.Exp = y.Exp - spread
		}
		if y.zero() && !x.zero() && x.Exp-y.Exp > spread {
			y.Exp = x.Exp - spread
		}
	}
	e := x.Exp
	if y.Exp < e {
		e = y.Exp
	}
	if x.zero() && x.Exp-e > spread || y.zero() && y.Exp-e > spread {
		if x.zero() {
			x.Exp = e
		}
		if y.zero() {
			y.Exp = e
		}
	}
	a := mulPow(x.scoef(), x.Exp-e)
	b := mulPow(y.scoef(), y.Exp-e)
	s := new(big.Int).Add(a, b)
	neg := s.Sign() < 0
	if s.Sign() == 0 {
		neg = x.Neg && y.Neg || x.Neg != y.Neg && m.mode == mFloor
	}
	return finite(neg, s.Abs(s), e)
}

func exactMul(x, y Num) Num {
	return finite(x.Neg != y.Neg, new(big.Int).Mul(x.coef(), y.coef()), x.Exp+y.Exp)
}

func (m mctx) add(x, y Num) Want {
	if x.nan() || y.nan() {
		return nan2(x, y)
	}
	if x.inf() && y.inf() && x.Neg != y.Neg {
		return invalid(fInvalid)
	}
	if x.inf() {
		w := datum(infn(x.Neg), 0)
		w.class = "special"
		return w
	}
	if y.inf() {
		w := datum(infn(y.Neg), 0)
		w.class = "special"
		return w
	}
	return m.fin(exactAdd(x, y, m), false)
}

func (m mctx) mul(x, y Num) Want {
	if x.nan() || y.nan() {
		return nan2(x, y)
	}
	if x.inf() && y.zero() || y.inf() && x.zero() {
		return invalid(fInvalid)
	}
	if x.inf() || y.inf() {
		w := datum(infn(x.Neg != y.Neg), 0)
		w.class = "special"
		return w
	}
	return m.fin(exactMul(x, y), false)
}

func stripTwosFives(n *big.Int) *big.Int {
	n = new(big.Int).Set(n)
	for _, p := range []int64{2, 5} {
		b := big.NewInt(p)
		for {
			q, r := new(big.Int).QuoRem(n, b, new(big.Int))
			if r.Sign() != 0 {
				break
			}
			n = q
		}
	}
	return n
}

func (m mctx) quo(x, y Num) Want {
	neg := x.Neg != y.Neg
	sp := func(w Want) Want { w.class = "special"; return w }
	if x.nan() || y.nan() {
		return nan2(x, y)
	}
	if x.inf() && y.inf() {
		return invalid(fInvalid)
	}
	if x.inf() {
		return sp(datum(infn(neg), 0))
	}
	if y.inf() {
		return sp(datum(finite(neg, new(big.Int), m.etiny()), fClamped))
	}
	if y.zero() {
		if x.zero() {
			return invalid(fInvalid | fDivUndef)
		}
		return sp(datum(infn(neg), fDivZero))
	}
	if x.zero() {
		return m.want(neg, new(big.Int), x.Exp-y.Exp, true)
	}
	cx, cy := x.coef(), y.coef()
	if m.unlim {
		g := new(big.Int).GCD(nil, nil, cx, cy)
		d := stripTwosFives(new(big.Int).Quo(cy, g))
		if d.Cmp(big.NewInt(1)) != 0 {
			return Want{num: nann(false), how: "nan", flags: fInvalid, fhow: "atleast"}
		}
		s := int64(cy.BitLen()) + 1
		q := new(big.Int).Quo(mulPow(cx, s), cy)
		n := finite(neg, q, x.Exp-y.Exp-s)
		if adjusted(n) > m.emax {
			w := Want{how: "exact", fhow: "exact"}
			w.num, w.flags = m.over(neg)
			return w
		}
		if adjusted(n) < m.emin {
			return Want{how: "none", fhow: "none"}
		}
		return Want{num: n, how: "value", flags: 0, fhow: "exact"}
	}
	s := m.p + digits(cy) - digits(cx)
	for {
		a, b := cx, cy
		if s >= 0 {
			a = mulPow(cx, s)
		} else {
			b = mulPow(cy, -s)
		}
		q0 := new(big.Int).Quo(a, b)
		d := digits(q0)
		if q0.Sign() == 0 || d < m.p {
			s++
			continue
		}
		if d > m.p {
			s--
			continue
		}
		q, exact := divRound(a, b, m.mode, neg)
		n := finite(neg, q, x.Exp-y.Exp-s)
		var f uint32
		if !exact {
			f = fInexact | fRounded
		}
		if s < 0 {
			f |= fRounded
		}
		if adj := adjusted(n); adj > m.emax {
			w := Want{how: "exact", fhow: "exact"}
			w.num, w.flags = m.over(neg)
			return w
		}
		if x.Exp-y.Exp-s+digits(q0)-1 < m.emin {
			return Want{how: "none", fhow: "none", class: "subquo"}
		}
		return Want{num: n, how: "value", flags: f, fhow: "exact", maxd: m.p}
	}
}

// quoremExact needs y nonzero and modest exponents.
func quoremExact(x, y Num) (q, r Num) {
	e := x.Exp
	if y.Exp < e {
		e = y.Exp
	}
	a := mulPow(x.coef(), x.Exp-e)
	b := mulPow(y.coef(), y.Exp-e)
	qq, rr := new(big.Int).QuoRem(a, b, new(big.Int))
	return finite(x.Neg != y.Neg, qq, 0), finite(x.Neg, rr, e)
}

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (m mctx) divint(op string, x, y Num) (Want, *Num) {
	neg := x.Neg != y.Neg
	sp := func(w Want) Want { w.class = "special"; return w }
	if x.nan() || y.nan() {
		w := nan2(x, y)
		return w, &w.num
	}
	if x.inf() {
		if y.inf() {
			w := invalid(fInvalid)
			return w, &w.num
		}
		if op == "rem" {
			return invalid(fInvalid), nil
		}
		r := infn(x.Neg)
		return sp(datum(infn(neg), 0)), &r
	}
	if y.inf() {
		switch op {
		case "rem":
			return sp(m.fin(x, false)), nil
		case "quoint":
			return sp(datum(finite(neg, new(big.Int), 0), 0)), nil
		}
		return Want{how: "none", fhow: "none"}, nil
	}
	if y.zero() {
		if x.zero() {
			w := invalid(fInvalid | fDivUndef)
			return w, &w.num
		}
		if op == "rem" {
			return invalid(fInvalid | fDivZero), nil
		}
		r := infn(x.Neg)
		return sp(datum(infn(neg), fDivZero)), &r
	}
	q, r := quoremExact(x, y)
	if x.zero() {
		switch op {
		case "rem":
			return datum(finite(x.Neg, new(big.Int), minI(x.Exp, y.Exp)), 0), nil
		case "quorem":
			rn, _ := m.outcome(x.Neg, new(big.Int), minI(x.Exp, y.Exp), true)
			return datum(q, 0), &rn
		}
		return datum(q, 0), nil
	}
	imp := digits(q.coef()) > m.p && !m.unlim
	if imp {
		if op == "quorem" && adjusted(x)-adjusted(y) <= m.p {
			return Want{how: "none", fhow: "none"}, nil
		}
		n := nann(false)
		return Want{num: n, how: "nan", flags: fDivImp, fhow: "exact"}, &n
	}
	switch op {
	case "rem":
		return m.fin(r, false), nil
	case "quorem":
		return datum(q, 0), &r
	}
	return datum(q, 0), nil
}

func (m mctx) quantize(x Num, e int64) Want {
	if x.nan() {
		return nan2(x, x)
	}
	if x.inf() {
		return invalid(fInvalid)
	}
	bad := Want{num: nann(false), how: "nan", flags: fInvalid, fhow: "atleast"}
	if e > m.emax || e < m.etiny() {
		return bad
	}
	if x.zero() {
		return datum(finite(x.Neg, new(big.Int), e), 0)
	}
	var q *big.Int
	var f uint32
	if x.Exp >= e {
		q = mulPow(x.coef(), x.Exp-e)
	} else {
		var exact bool
		k := e - x.Exp
		if k > digits(x.coef())+1 {
			k = digits(x.coef()) + 1
		}
		q, exact = divRound(x.coef(), pow10(k), m.mode, x.Neg)
		f = fRounded
		if !exact {
			f |= fInexact
		}
	}
	if digits(q) > m.p && !m.unlim {
		return bad
	}
	return datum(finite(x.Neg, q, e), f)
}

func (m mctx) toint(x Num) Want {
	if !x.fin() || x.Exp >= 0 {
		w := datum(x, 0)
		w.how, w.quiet = "full", true
		return w
	}
	m.p = digits(x.coef())
	m.unlim = false
	return m.quantize(x, 0)
}

func (m mctx) floor(x Num) Want {
	if x.nan() {
		return nan2(x, x)
	}
	m.mode = mFloor
	return m.toint(x)
}

func reduceNum(n Num) Num {
	if n.zero() {
		n.Exp = 0
		return n
	}
	c := new(big.Int).Set(n.coef())
	for {
		q, r := new(big.Int).QuoRem(c, big.NewInt(10), new(big.Int))
		if r.Sign() != 0 {
			break
		}
		c = q
		n.Exp++
	}
	return finite(n.Neg, c, n.Exp)
}

// expect gives the demanded result of a receiver operation.
func expect(c *Case, x, y, u Num) Want {
	m := c.m()
	bad := c.badctx()
	ctxw := Want{num: nann(false), how: "nan", flags: fInvCtx, fhow: "exact", class: "ctx"}
	none := Want{how: "none", fhow: "none"}
	switch c.Op {
	case "add", "sub", "mul", "quo", "quoint", "rem", "quorem", "fma", "abs", "neg", "quantize", "reduce":
		if bad {
			return ctxw
		}
	case "round":
		if c.Via != "ctx" {
			if c.N <= 0 {
				return Want{num: x, how: "full", fhow: "exact", quiet: true}
			}
			d := *c
			d.Prec = int(c.N)
			m, bad = d.m(), d.badctx()
		}
		if bad {
			return ctxw
		}
	case "set", "roundtoint", "floor", "ceil", "nextplus", "nextminus":
		if bad {
			return none
		}
	}
	if (c.Op == "floor" || c.Op == "ceil") && (c.ZPrec < 0 || c.ZMode > 6 || c.ZOM > 1) {
		return none
	}
	switch c.Op {
	case "add":
		return m.add(x, y)
	case "sub":
		if x.nan() || y.nan() {
			return nan2(x, y)
		}
		y.Neg = !y.Neg
		return m.add(x, y)
	case "mul":
		return m.mul(x, y)
	case "quo":
		return m.quo(x, y)
	case "quoint", "rem", "quorem":
		w, _ := m.divint(c.Op, x, y)
		return w
	case "fma":
		if x.nan() || y.nan() {
			w := nan2(x, y)
			if w.flags&fInvalid == 0 {
				return nan2(Num{Kind: "Q", Neg: w.num.Neg}, u)
			}
			return w
		}
		if x.inf() && y.zero() || y.inf() && x.zero() {
			return invalid(fInvalid)
		}
		if x.inf() || y.inf() {
			return m.add(infn(x.Neg != y.Neg), u)
		}
		return m.add(exactMul(x, y), u)
	case "abs", "neg", "set":
		if x.nan() {
			if c.Op == "set" {
				return Want{num: x, how: "full", fhow: "exact", quiet: true, class: "special"}
			}
			return nan2(x, x)
		}
		switch c.Op {
		case "abs":
			x.Neg = false
		case "neg":
			x.Neg = !x.Neg
			if x.zero() {
				x.Neg = m.mode == mFloor && x.Neg
			}
		}
		if x.inf() {
			w := datum(x, 0)
			w.class = "special"
			return w
		}
		return m.fin(x, false)
	case "round":
		if !x.fin() {
			return Want{num: x, how: "full", fhow: "exact", quiet: true, class: "special"}
		}
		return m.fin(x, true)
	case "quantize":
		return m.quantize(x, -c.N)
	case "roundtoint":
		return m.toint(x)
	case "floor":
		return m.floor(x)
	case "ceil":
		if x.nan() {
			return nan2(x, x)
		}
		x.Neg = !x.Neg
		w := m.floor(x)
		w.num.Neg = !w.num.Neg
		return w
	case "reduce":
		if x.nan() {
			return nan2(x, x)
		}
		if x.inf() {
			w := datum(x, 0)
			w.class = "special"
			return w
		}
		w := m.fin(x, true)
		if w.num.fin() {
			w.num = reduceNum(w.num)
		}
		return w
	case "nextplus", "nextminus":
		if x.nan() {
			return nan2(x, x)
		}
		up := c.Op == "nextplus"
		if x.inf() {
			if x.Neg != up {
				return datum(x, 0)
			}
			return datum(finite(x.Neg, new(big.Int).Sub(pow10(m.p), big.NewInt(1)), m.etop()), 0)
		}
		if !m.gda || m.unlim {
			return none
		}
		m.mode = mFloor
		if up {
			m.mode = mCeil
		}
		w := m.add(x, finite(!up, big.NewInt(1), m.etiny()-1))
		w.flags = 0
		return w
	}
	return none
}

// Fail is one broken demand.
type Fail struct {
	Aspect string // value, flags, wf, frame, panic, special, limits, ctx
	Msg    string
}

func (c *Case) nums() (x, y, u Num) {
	get := func(n *Num) Num {
		if n == nil {
			return Num{}
		}
		m := *n
		if m.Raw0 {
			return finite(false, new(big.Int), 0)
		}
		if m.Kind == "F" {
			m.big = n.coef()
		}
		return m
	}
	x, y, u = get(c.X), get(c.Y), get(c.U)
	switch c.Alias {
	case "x=y", "z=x=y":
		y = x
	case "z=x=u", "x=u":
		u = x
	case "z=y=u", "y=u":
		u = y
	case "x=y=u", "z=x=y=u":
		y, u = x, x
	}
	return
}

func sameCtx(a, b decimal.Context, conds bool) bool {
	if !conds {
		a.Conditions, b.Conditions = 0, 0
	}
	return a == b
}

// check runs the case and compares with the demands.
func check(c *Case) (fails []Fail, o Out) {
	add := func(asp, f string, a ...interface{}) { fails = append(fails, Fail{asp, fmt.Sprintf(f, a...)}) }
	x, y, u := c.nums()
	o = run(c)
	if handled := checkOther(c, x, y, &o, add); handled {
		c.frames(x, y, u, &o, add)
		return
	}
	w := expect(c, x, y, u)
	val := func(f string, a ...interface{}) {
		add("value", f, a...)
		if w.class != "" {
			add(w.class, f, a...)
		}
		if !x.fin() || c.Y != nil && !y.fin() || c.U != nil && !u.fin() {
			add("special", f, a...)
		}
		if c.Emax != 0 || c.Emin != 0 {
			add("limits", f, a...)
		}
	}
	mustPanic := c.zGo() && w.how == "nan" && !w.quiet
	switch {
	case o.Panic != "" && w.how == "none":
		return
	case o.Panic != "" && (!mustPanic || !o.ErrNaN):
		add("panic", "unexpected panic: %s (wanted %v)", o.Panic, w.num)
		if w.class != "" {
			add(w.class, "unexpected panic: %s", o.Panic)
		}
		return
	case o.Panic == "" && mustPanic:
		add("panic", "no ErrNaN panic in Go mode (wanted %v, got %v)", w.num, o.ZNum)
		add("special", "no ErrNaN panic in Go mode (wanted %v, got %v)", w.num, o.ZNum)
		return
	case o.Panic != "":
		return
	}
	if o.Ret != o.Z {
		add("frame", "the receiver is not returned")
		return
	}
	switch w.how {
	case "exact":
		if !same(w.num, o.ZNum) {
			val("result %v, wanted %v", o.ZNum, w.num)
		}
	case "full":
		if !sameFull(w.num, o.ZNum) {
			val("result %v, wanted %v", o.ZNum, w.num)
		}
	case "value":
		if !sameValue(w.num, o.ZNum) {
			val("result %v, wanted the value %v", o.ZNum, w.num)
		} else if w.maxd > 0 && o.ZNum.fin() && digits(o.ZNum.coef()) > w.maxd {
			val("result %v has more than %d digits", o.ZNum, w.maxd)
		}
	case "nan":
		if o.ZNum.Kind != "Q" || o.ZNum.Neg != w.num.Neg {
			val("result %v, wanted %v", o.ZNum, w.num)
		}
	}
	got, entry := o.Conds, c.Cond
	switch w.fhow {
	case "exact":
		if got != entry|w.flags {
			add("flags", "conditions %v, wanted %v (result %v)", decimal.Condition(got), decimal.Condition(entry|w.flags), o.ZNum)
			if w.class != "" {
				add(w.class, "conditions %v, wanted %v (result %v)", decimal.Condition(got), decimal.Condition(entry|w.flags), o.ZNum)
			}
			if c.Emax != 0 || c.Emin != 0 {
				add("limits", "conditions %v, wanted %v (result %v)", decimal.Condition(got), decimal.Condition(entry|w.flags), o.ZNum)
			}
		}
	case "atleast":
		if got&(entry|w.flags) != entry|w.flags {
			add("flags", "conditions %v, wanted at least %v (result %v)", decimal.Condition(got), decimal.Condition(entry|w.flags), o.ZNum)
		}
	}
	if got&entry != entry {
		add("flags", "conditions %v lost, entry %v", decimal.Condition(got), decimal.Condition(entry))
	}
	if c.Op == "quorem" && w.how != "none" {
		m := c.m()
		if _, r := m.divint("quorem", x, y); r != nil && w.class != "ctx" {
			if r.nan() {
				if o.RNum.Kind != "Q" {
					val("remainder %v, wanted %v", o.RNum, *r)
				}
			} else if !same(*r, o.RNum) {
				val("remainder %v, wanted %v", o.RNum, *r)
			}
		}
	}
	c.frames(x, y, u, &o, add)
	return
}

// frames: representation, operands and contexts.
func (c *Case) frames(x, y, u Num, o *Out, add func(string, string, ...interface{})) {
	if o.Panic != "" {
		return
	}
	if o.Z != nil {
		if s := wfCheck(o.Z); s != "" {
			add("wf", "result: %s", s)
		}
		if !sameCtx(o.Z.Context, c.zctx(), false) && c.Op != "new" && c.Op != "class" && c.Op != "string" {
			add("frame", "the receiver's context settings changed")
		}
	}
	if o.R != nil {
		if s := wfCheck(o.R); s != "" {
			add("wf", "second result: %s", s)
		}
	}
	verify := func(when string) {
		for i, p := range []*decimal.Big{o.X, o.Y, o.U} {
			if p == nil || p == o.Z || p == o.R {
				continue
			}
			n := []Num{x, y, u}[i]
			name := "xyu"[i : i+1]
			if v := view(p); !sameFull(v, n) {
				add("frame", "operand %s changed%s: %v, was %v", name, when, v, n)
			}
			if s := wfCheck(p); s != "" {
				add("frame", "operand %s%s: %s", name, when, s)
			}
			if !sameCtx(p.Context, o.opctx, true) {
				add("frame", "the context of operand %s changed", name)
			}
		}
	}
	verify("")
	if o.Z != nil && c.Op != "class" && c.Op != "string" {
		undo := scribble(o.Z)
		verify(" when the result is overwritten")
		if o.R != nil && o.R != o.Z && c.Op == "quorem" {
			if !sameFull(view(o.R), o.RNum) {
				add("frame", "the remainder shares storage with the quotient")
			}
		}
		undo()
	}
}

func cmpWant(x, y Num, abs bool) int {
	if x.nan() || y.nan() {
		return 0
	}
	if abs {
		x.Neg, y.Neg = false, false
	}
	rank := func(n Num) int {
		if n.inf() {
			if n.Neg {
				return -1
			}
			return 1
		}
		return 0
	}
	a, b := rank(x), rank(y)
	if a != 0 || b != 0 {
		switch {
		case a < b:
			return -1
		case a > b:
			return 1
		}
		return 0
	}
	return cmpNum(x, y)
}

func totalRank(n Num, abs bool) int {
	r := 0
	switch n.Kind {
	case "Q":
		r = 2
	case "S":
		r = 1
	}
	if n.Neg && !abs {
		r = -r
	}
	return r
}

// sci is the scientific string of the General Decimal Arithmetic
// specification (to-scientific-string).
func sci(n Num, om int) string {
	s := ""
	if n.Neg {
		s = "-"
	}
	if om == 1 {
		switch {
		case n.nan():
			return "NaN"
		case n.inf():
			if n.Neg {
				return "-Inf"
			}
			return "+Inf"
		case n.zero():
			return "0"
		}
	}
	pay := func(p string) string {
		if n.Pay != 0 {
			p += fmt.Sprint(n.Pay)
		}
		return s + p
	}
	switch n.Kind {
	case "I":
		return s + "Infinity"
	case "Q":
		return pay("NaN")
	case "S":
		return pay("sNaN")
	}
	d := n.coef().String()
	adj := n.Exp + int64(len(d)) - 1
	if n.Exp <= 0 && adj >= -6 {
		if n.Exp == 0 {
			return s + d
		}
		k := int(-n.Exp)
		if len(d) <= k {
			d = strings.Repeat("0", k-len(d)+1) + d
		}
		return s + d[:len(d)-k] + "." + d[len(d)-k:]
	}
	out := d[:1]
	if len(d) > 1 {
		out += "." + d[1:]
	}
	e := "E"
	if om == 1 {
		e = "e"
	}
	sg := ""
	if adj >= 0 {
		sg = "+"
	}
	return s + out + e + sg + fmt.Sprint(adj)
}

// parse reads s by the grammar in the package documentation.
func parse(s string) (Num, bool) {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	l := strings.ToLower(s)
	switch l {
	case "inf", "infinity":
		return infn(neg), true
	}
	for _, p := range []string{"nan", "qnan", "snan"} {
		if strings.HasPrefix(l, p) {
			d := l[len(p):]
			k := "Q"
			if p == "snan" {
				k = "S"
			}
			v := new(big.Int)
			for _, ch := range d {
				if ch < '0' || ch > '9' {
					return Num{}, false
				}
				v.Add(v.Mul(v, big.NewInt(10)), big.NewInt(int64(ch-'0')))
			}
			if !v.IsUint64() {
				return Num{}, false
			}
			return Num{Kind: k, Neg: neg, Pay: v.Uint64()}, true
		}
	}
	mant, ex := l, ""
	hasE := false
	if i := strings.IndexByte(l, 'e'); i >= 0 {
		mant, ex, hasE = l[:i], l[i+1:], true
	}
	dig := ""
	frac := 0
	seen := false
	for _, ch := range mant {
		switch {
		case ch == '.':
			if seen {
				return Num{}, false
			}
			seen = true
		case ch >= '0' && ch <= '9':
			dig += string(ch)
			if seen {
				frac++
			}
		default:
			return Num{}, false
		}
	}
	if dig == "" {
		return Num{}, false
	}
	e := new(big.Int)
	if hasE {
		es := ex
		if es != "" && (es[0] == '+' || es[0] == '-') {
			es = es[1:]
		}
		if es == "" {
			return Num{}, false
		}
		for _, ch := range es {
			if ch < '0' || ch > '9' {
				return Num{}, false
			}
		}
		e.SetString(es, 10)
		if ex[0] == '-' {
			e.Neg(e)
		}
	}
	e.Sub(e, big.NewInt(int64(frac)))
	if e.BitLen() > 60 {
		return Num{Kind: "huge", Neg: neg}, true
	}
	c, _ := new(big.Int).SetString(dig, 10)
	return finite(neg, c, e.Int64()), true
}

func classOf(c *Case, x Num) string {
	m := c.m()
	sg := "+"
	if x.Neg {
		sg = "-"
	}
	cl := ""
	sub, norm := false, false
	sign := 1
	switch {
	case x.Kind == "Q":
		cl = "NaN"
		sign = 0
	case x.Kind == "S":
		cl = "sNaN"
		sign = 0
	case x.inf():
		cl = sg + "Infinity"
	default:
		sub = adjusted(x) < m.emin
		norm = !sub
		switch {
		case x.zero():
			cl = sg + "Zero"
			sign = 0
		case sub:
			cl = sg + "Subnormal"
		default:
			cl = sg + "Normal"
		}
	}
	if x.Neg {
		sign = -sign
	}
	i, n := x.inf(), x.nan()
	return fmt.Sprintf("%s fin=%v normal=%v sub=%v inf=%v%v%v nan=%v%v%v sign=%d neg=%v", cl, x.fin(), norm, sub,
		i, i && !x.Neg, i && x.Neg, n, x.Kind == "Q", x.Kind == "S", sign, x.Neg)
}

func ratOf(x Num) *big.Rat {
	r := new(big.Rat).SetInt(x.scoef())
	if x.Exp >= 0 {
		return r.Mul(r, new(big.Rat).SetInt(pow10(x.Exp)))
	}
	return r.Quo(r, new(big.Rat).SetInt(pow10(-x.Exp)))
}

// checkOther handles everything that is not a rounding operation.
func checkOther(c *Case, x, y Num, o *Out, add func(string, string, ...interface{})) bool {
	entry := c.Cond
	val := func(f string, a ...interface{}) {
		add("value", f, a...)
		if x.Kind != "" && !x.fin() {
			add("special", f, a...)
		}
	}
	if isReceiverOp(c.Op) {
		return false
	}
	if o.Panic != "" {
		switch c.Op {
		case "setstring", "unmarshal", "unmarshaljson":
			return true
		case "setrat", "setfloat64":
			if o.ErrNaN && (c.Op == "setrat" || math.IsNaN(math.Float64frombits(c.Bits))) {
				return true
			}
		case "decompose":
			if x.fin() && (x.Exp > math.MaxInt32 || x.Exp < math.MinInt32) {
				return true
			}
		}
		add("panic", "unexpected panic: %s", o.Panic)
		return true
	}
	expectNum := func(w Num) {
		if !sameFull(w, o.ZNum) {
			val("result %v, wanted %v", o.ZNum, w)
		}
		if o.Conds != entry && c.Op != "new" {
			add("flags", "conditions %v, wanted %v", decimal.Condition(o.Conds), decimal.Condition(entry))
		}
	}
	abs := strings.HasSuffix(c.Op, "abs")
	switch c.Op {
	case "cmp", "cmpabs":
		if w := cmpWant(x, y, abs); w != o.Int {
			val("%d, wanted %d", o.Int, w)
		}
	case "cmptotal", "cmptotalabs":
		a, b := totalRank(x, abs), totalRank(y, abs)
		w := 0
		switch {
		case a < b:
			w = -1
		case a > b:
			w = 1
		case a == 0:
			w = cmpWant(x, y, abs)
		}
		if w != o.Int {
			val("%d, wanted %d", o.Int, w)
		}
	case "max", "min", "maxabs", "minabs":
		if x.nan() || y.nan() {
			break
		}
		w := cmpWant(x, y, abs)
		if strings.HasPrefix(c.Op, "min") {
			w = -w
		}
		ok := w > 0 && o.Int == 1 || w < 0 && o.Int == 2 || w == 0 && o.Int != 0
		if c.Alias == "x=y" {
			ok = o.Int == 1
		}
		if !ok {
			val("argument %d returned, comparison %d", o.Int, w)
		}
	case "samequantum":
		if x.fin() && y.fin() && o.Bool != (x.Exp == y.Exp) {
			val("%v", o.Bool)
		}
	case "copy", "canonical", "copyabs", "copyneg", "copysign", "setsignbit":
		w := x
		switch c.Op {
		case "copyabs":
			w.Neg = false
		case "copyneg":
			w.Neg = !w.Neg
		case "copysign":
			w.Neg = y.Neg
		case "setsignbit":
			w.Neg = c.B
		}
		expectNum(w)
	case "setscale":
		if x.fin() {
			x.Exp = -c.N
			expectNum(x)
		}
	case "setinf":
		expectNum(infn(c.B))
	case "setnan":
		w := Num{Kind: "Q"}
		if c.B {
			w.Kind = "S"
		}
		expectNum(w)
	case "setuint64":
		expectNum(finite(false, new(big.Int).SetUint64(c.Bits), 0))
	case "setmantscale", "new":
		v := big.NewInt(int64(c.Bits))
		expectNum(finite(v.Sign() < 0, new(big.Int).Abs(v), -c.N))
	case "setbigmantscale":
		w := finite(x.Neg && x.coef().Sign() != 0, x.coef(), -c.N)
		expectNum(w)
		if !o.Bool {
			add("frame", "the argument changed")
		}
	case "setfloat64":
		f := math.Float64frombits(c.Bits)
		switch {
		case math.IsNaN(f):
			if o.ZNum.Kind != "Q" {
				val("result %v, wanted NaN", o.ZNum)
			}
		case math.IsInf(f, 0):
			expectNum(infn(f < 0))
		default:
			w := new(big.Rat).SetFloat64(f)
			if !o.ZNum.fin() || o.ZNum.Neg != math.Signbit(f) || ratOf(o.ZNum).Cmp(w) != 0 {
				val("result %v, wanted %v", o.ZNum, f)
			}
			if o.Conds != entry {
				add("flags", "conditions %v, wanted %v", decimal.Condition(o.Conds), decimal.Condition(entry))
			}
		}
	case "setfloat":
		f := c.float()
		if f.IsInf() {
			expectNum(infn(f.Signbit()))
			break
		}
		w, _ := f.Rat(nil)
		if !o.ZNum.fin() || o.ZNum.Neg != f.Signbit() || ratOf(o.ZNum).Cmp(w) != 0 {
			val("result %v, wanted %v", o.ZNum, f.Text('g', 40))
		}
		if !o.Bool {
			add("frame", "the argument changed")
		}
	case "setrat":
		m := c.m()
		if c.badctx() {
			break
		}
		r := c.rat()
		var w Want
		num := finite(r.Sign() < 0, new(big.Int).Abs(r.Num()), 0)
		if r.IsInt() {
			w = m.fin(num, false)
		} else {
			w = m.quo(num, finite(false, r.Denom(), 0))
		}
		if w.how == "none" || w.how == "nan" {
			break
		}
		if w.how == "value" && !sameValue(w.num, o.ZNum) || w.how == "exact" && !same(w.num, o.ZNum) {
			val("result %v, wanted %v", o.ZNum, w.num)
		}
		if o.Conds != entry|w.flags {
			add("flags", "conditions %v, wanted %v", decimal.Condition(o.Conds), decimal.Condition(entry|w.flags))
		}
		if !o.Bool {
			add("frame", "the argument changed")
		}
	case "compose":
		if !o.Bool {
			add("frame", "the coefficient buffer changed")
		}
		switch c.N {
		case 0:
			if o.Err != nil {
				val("error %v", o.Err)
				break
			}
			e := int64(int32(c.Bits))
			expectNum(finite(c.B, new(big.Int).SetBytes([]byte(c.S)), e))
		case 1:
			expectNum(infn(c.B))
		case 2:
			if o.Err != nil || o.ZNum.Kind != "Q" {
				val("result %v %v, wanted NaN", o.ZNum, o.Err)
			}
		default:
			if o.Err == nil {
				val("form %d accepted", c.N)
			}
		}
	case "decompose":
		wf := byte(0)
		if x.inf() {
			wf = 1
		} else if x.nan() {
			wf = 2
		}
		if o.Form != wf {
			val("form %d, wanted %d", o.Form, wf)
		}
		if x.nan() {
			break
		}
		if o.Bool != (x.Neg && !x.zero()) {
			val("negative %v", o.Bool)
		}
		if x.fin() {
			if int64(o.E32) != x.Exp || new(big.Int).SetBytes(o.Coef).Cmp(x.coef()) != 0 {
				val("parts %x %d, wanted %v", o.Coef, o.E32, x)
			}
		}
	case "setstring", "unmarshal", "unmarshaljson":
		s := c.S
		if c.Op == "unmarshaljson" && len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
			s = s[1 : len(s)-1]
		}
		w, ok := parse(s)
		failed := o.Err != nil || c.Op == "setstring" && !o.Bool
		if !ok {
			if !failed && !(o.ZNum.Kind == "Q" && o.Conds&fSyntax != 0) {
				val("%q accepted as %v", c.S, o.ZNum)
			}
			if c.Op == "setstring" && failed && o.Ret != nil {
				val("SetString(%q) failed but returned a value", c.S)
			}
			break
		}
		if w.Kind == "huge" {
			break
		}
		if failed {
			val("%q rejected", c.S)
			break
		}
		if c.Op == "setstring" && c.Via == "ctx" {
			if c.badctx() {
				break
			}
			if w.fin() {
				ww := c.m().fin(w, false)
				if !same(ww.num, o.ZNum) {
					val("%q gives %v, wanted %v", c.S, o.ZNum, ww.num)
				}
				if o.Conds != entry|ww.flags {
					add("flags", "conditions %v, wanted %v", decimal.Condition(o.Conds), decimal.Condition(entry|ww.flags))
				}
				break
			}
		}
		if !sameFull(w, o.ZNum) {
			val("%q gives %v, wanted %v", c.S, o.ZNum, w)
		}
		if o.Conds != entry {
			add("flags", "conditions %v, wanted %v", decimal.Condition(o.Conds), decimal.Condition(entry))
		}
	case "string":
		if o.Err != nil {
			val("%v", o.Err)
		}
		if w := sci(x, c.OM); w != o.Str {
			val("%q, wanted %q", o.Str, w)
		}
		if c.OM == 0 && !sameFull(x, o.RNum) {
			val("%v reads back as %v (%q)", x, o.RNum, o.Str)
		}
	case "int64", "uint64", "int", "isint", "rat":
		if !x.fin() {
			if c.Op != "int" && c.Op != "rat" && o.Bool {
				val("ok for %v", x)
			}
			break
		}
		r := ratOf(x)
		t := new(big.Int).Quo(r.Num(), r.Denom())
		switch c.Op {
		case "int64":
			if o.Bool != t.IsInt64() || o.Bool && o.I64 != t.Int64() {
				val("%d %v, wanted %v", o.I64, o.Bool, t)
			}
		case "uint64":
			w := t.IsUint64() && !x.Neg
			if o.Bool != w || o.Bool && o.U64 != t.Uint64() {
				val("%d %v, wanted %v", o.U64, o.Bool, t)
			}
		case "int":
			if o.BI.Cmp(t) != 0 {
				val("%v, wanted %v", trunc(o.BI.String()), trunc(t.String()))
			}
			w := o.BI.Bits()
			w = w[:cap(w)]
			for i := range w {
				w[i] = ^w[i]
			}
		case "rat":
			if o.BR.Cmp(r) != 0 {
				val("%v, wanted %v", trunc(o.BR.String()), trunc(r.String()))
			}
		case "isint":
			if o.Bool != r.IsInt() {
				val("%v", o.Bool)
			}
		}
	case "class":
		if w := classOf(c, x); w != o.Str {
			val("%q, wanted %q", o.Str, w)
		}
	case "err":
		m := c.Cond & c.Traps
		if (o.Err != nil) != (m != 0) {
			val("Err() = %v with conditions %x and traps %x", o.Err, c.Cond, c.Traps)
		}
		if m != 0 {
			if k, ok := o.Err.(decimal.Condition); !ok || uint32(k) != m {
				val("Err() = %v, wanted %x", o.Err, m)
			}
		}
	default:
		panic("no oracle for " + c.Op)
	}
	return true
}

func isReceiverOp(op string) bool {
	switch op {
	case "add", "sub", "mul", "quo", "quoint", "rem", "quorem", "fma", "abs", "neg", "set", "round", "roundtoint", "quantize", "reduce", "floor", "ceil", "nextplus", "nextminus":
		return true
	}
	return false
}
