package main

// Exact reference numbers. Everything here is computed with math/big integers
// from the text of the property statements; no function under test is called.

import (
	"fmt"
	"math/big"

	"github.com/ericlagergren/decimal"
)

// Num is an exact decimal datum: kind F (finite), I (infinity), Q, S (NaNs).
type Num struct {
	Kind string `json:"k"`
	Neg  bool   `json:"neg,omitempty"`
	Coef string `json:"c,omitempty"` // decimal digits, finite only
	Exp  int64  `json:"e,omitempty"` // value = Coef * 10^Exp
	Pay  uint64 `json:"p,omitempty"` // NaN payload
	Raw0 bool   `json:"raw0,omitempty"` // the Go zero value of Big
	big  *big.Int
}

func (n Num) fin() bool { return n.Kind == "F" }
func (n Num) nan() bool { return n.Kind == "Q" || n.Kind == "S" }
func (n Num) inf() bool { return n.Kind == "I" }
func (n Num) zero() bool { return n.fin() && n.coef().Sign() == 0 }

func (n Num) coef() *big.Int {
	if n.big != nil {
		return n.big
	}
	c, ok := new(big.Int).SetString(n.Coef, 10)
	if !ok {
		return new(big.Int)
	}
	return c
}

func (n Num) String() string {
	s := ""
	if n.Neg {
		s = "-"
	}
	switch n.Kind {
	case "I":
		return s + "Inf"
	case "Q":
		return fmt.Sprintf("%sNaN%d", s, n.Pay)
	case "S":
		return fmt.Sprintf("%ssNaN%d", s, n.Pay)
	case "F":
		return fmt.Sprintf("%s%sE%d", s, trunc(n.coef().String()), n.Exp)
	}
	return "?"
}

func finite(neg bool, c *big.Int, e int64) Num {
	return Num{Kind: "F", Neg: neg, big: c, Exp: e}
}

// freeze fills the JSON form.
func (n *Num) freeze() {
	if n != nil && n.Kind == "F" && n.Coef == "" {
		n.Coef = n.coef().String()
	}
}

func infn(neg bool) Num { return Num{Kind: "I", Neg: neg} }
func nann(neg bool) Num { return Num{Kind: "Q", Neg: neg} }

// fill makes z hold n through the public API.
func fill(z *decimal.Big, n Num) {
	switch n.Kind {
	case "I":
		z.SetInf(n.Neg)
	case "Q", "S":
		z.SetNaN(n.Kind == "S")
		if n.Pay != 0 {
			c, _ := decimal.Raw(z)
			*c = n.Pay
		}
		z.SetSignbit(n.Neg)
	default:
		if n.Raw0 {
			return
		}
		c := n.coef()
		if c.IsUint64() && n.Exp%2 == 0 {
			if n.Exp%4 == 0 && c.Bit(1) == 1 { // leave an earlier coefficient behind
				z.SetBigMantScale(stale, 0)
			}
			z.SetUint64(c.Uint64())
			z.SetScale(int(-n.Exp))
		} else {
			z.SetBigMantScale(c, int(-n.Exp))
		}
		z.SetSignbit(n.Neg)
	}
}

var stale, _ = new(big.Int).SetString("340282366920938463463374607431768211459123456789", 10)

// view reads back the datum a *decimal.Big holds.
func view(x *decimal.Big) Num {
	neg := x.Signbit()
	if x.IsNaN(0) {
		k := "S"
		if x.IsNaN(+1) {
			k = "Q"
		}
		return Num{Kind: k, Neg: neg, Pay: uint64(x.Payload())}
	}
	if x.IsInf(0) {
		return Num{Kind: "I", Neg: neg}
	}
	if !x.IsFinite() {
		return Num{Kind: "?"}
	}
	return finite(neg, rawCoef(x), int64(-x.Scale()))
}

func rawCoef(x *decimal.Big) *big.Int {
	c, u := decimal.Raw(x)
	if *c == 1<<64-1 {
		return new(big.Int).Set(u)
	}
	return new(big.Int).SetUint64(*c)
}

// same: identical datum (kind, sign, coefficient and exponent).
func same(a, b Num) bool {
	if a.Kind != b.Kind || a.Neg != b.Neg {
		return false
	}
	if a.Kind != "F" {
		return true
	}
	return a.Exp == b.Exp && a.coef().Cmp(b.coef()) == 0
}

func sameFull(a, b Num) bool { return same(a, b) && (!a.nan() || a.Pay == b.Pay) }

// sameValue: numerically equal (sign of zero included).
func sameValue(a, b Num) bool {
	if a.Kind != b.Kind || a.Neg != b.Neg {
		return false
	}
	if a.Kind != "F" {
		return true
	}
	return cmpNum(a, b) == 0
}

var powTab = func() []*big.Int {
	t := make([]*big.Int, 3000)
	t[0] = big.NewInt(1)
	for i := 1; i < len(t); i++ {
		t[i] = new(big.Int).Mul(t[i-1], big.NewInt(10))
	}
	return t
}()

func pow10(n int64) *big.Int {
	if n < 0 || n > 2000000 {
		panic(fmt.Sprintf("oracle: pow10(%d)", n))
	}
	if n < int64(len(powTab)) {
		return powTab[n]
	}
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil)
}

func mulPow(c *big.Int, n int64) *big.Int { return new(big.Int).Mul(c, pow10(n)) }

func digits(c *big.Int) int64 {
	if c.Sign() == 0 {
		return 1
	}
	l := int64(c.BitLen())
	n := l * 30103 / 100000
	if n < 1 {
		n = 1
	}
	for new(big.Int).Abs(c).Cmp(pow10(n)) >= 0 {
		n++
	}
	for n > 1 && new(big.Int).Abs(c).Cmp(pow10(n-1)) < 0 {
		n--
	}
	return n
}

func adjusted(n Num) int64 { return n.Exp + digits(n.coef()) - 1 }

// scoef is the signed coefficient.
func (n Num) scoef() *big.Int {
	c := new(big.Int).Set(n.coef())
	if n.Neg {
		c.Neg(c)
	}
	return c
}

// cmpNum compares the numerical values of finite a and b.
func cmpNum(a, b Num) int {
	ca, cb := a.scoef(), b.scoef()
	if ca.Sign() != cb.Sign() {
		if ca.Sign() < cb.Sign() {
			return -1
		}
		return 1
	}
	if ca.Sign() == 0 {
		return 0
	}
	aa, ab := adjusted(a), adjusted(b)
	if aa != ab {
		r := 1
		if aa < ab {
			r = -1
		}
		return r * ca.Sign()
	}
	if a.Exp > b.Exp {
		ca = mulPow(ca, a.Exp-b.Exp)
	} else {
		cb = mulPow(cb, b.Exp-a.Exp)
	}
	return ca.Cmp(cb)
}

// Rounding modes, in the package's own numbering.
const (
	mEven = iota
	mAway
	mZero
	mAwayZero
	mFloor
	mCeil
	mHalfDown
)

var modeNames = []string{"ToNearestEven", "ToNearestAway", "ToZero", "AwayFromZero", "ToNegativeInf", "ToPositiveInf", "ToNearestTowardZero"}

func incr(mode int, odd bool, half int, neg bool) bool {
	switch mode {
	case mEven:
		return half > 0 || half == 0 && odd
	case mAway:
		return half >= 0
	case mHalfDown:
		return half > 0
	case mZero:
		return false
	case mAwayZero:
		return true
	case mFloor:
		return neg
	case mCeil:
		return !neg
	}
	panic("mode")
}

// divRound returns n/d (n >= 0, d > 0) rounded to an integer, and exactness.
func divRound(n, d *big.Int, mode int, neg bool) (*big.Int, bool) {
	q, r := new(big.Int).QuoRem(n, d, new(big.Int))
	if r.Sign() == 0 {
		return q, true
	}
	half := new(big.Int).Lsh(r, 1).Cmp(d)
	if incr(mode, q.Bit(0) == 1, half, neg) {
		q.Add(q, big.NewInt(1))
	}
	return q, false
}

// wfCheck verifies the representation: Precision is the digit count and the
// compact form is used exactly when the coefficient fits.
func wfCheck(x *decimal.Big) string {
	if x.IsNaN(0) || x.IsInf(0) {
		return ""
	}
	if !x.IsFinite() {
		return "neither finite, infinite nor NaN"
	}
	c, u := decimal.Raw(x)
	if *c == 1<<64-1 {
		if u.Sign() < 0 {
			return "negative magnitude stored"
		}
		if u.IsUint64() && u.Uint64() != 1<<64-1 {
			return "inflated representation of a value that fits compactly: " + u.String()
		}
	}
	co := rawCoef(x)
	if int64(x.Precision()) != digits(co) {
		return fmt.Sprintf("Precision()=%d but the coefficient %s has %d digits", x.Precision(), trunc(co.String()), digits(co))
	}
	return ""
}

func trunc(s string) string {
	if len(s) > 200 {
		return s[:100] + "..." + s[len(s)-50:] + fmt.Sprintf("(%d chars)", len(s))
	}
	return s
}
