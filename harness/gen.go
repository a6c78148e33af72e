package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/ericlagergren/decimal"
)

// bias steers the generator towards what a property talks about.
type bias struct {
	special, limits, badctx, alias, gomode, ctx float64
}

type gen struct {
	*rand.Rand
	b bias
}

func (g *gen) p(f float64) bool { return g.Float64() < f }

func (g *gen) digits(n int) *big.Int {
	if n <= 0 {
		return new(big.Int)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.Intn(10))
	}
	switch g.Intn(6) {
	case 0: // runs of nines or zeros
		d := byte("09"[g.Intn(2)])
		for i := 1 + g.Intn(n); i < n; i++ {
			b[i] = d
		}
	case 1: // exactly a half somewhere
		i := g.Intn(n)
		b[i] = '5'
		for i++; i < n; i++ {
			b[i] = '0'
		}
	}
	if b[0] == '0' {
		b[0] = '1' + byte(g.Intn(9))
	}
	c, _ := new(big.Int).SetString(string(b), 10)
	return c
}

func (g *gen) coef(prec int) *big.Int {
	one := big.NewInt(1)
	pert := func(c *big.Int) *big.Int {
		c = new(big.Int).Set(c)
		switch g.Intn(4) {
		case 0:
			c.Add(c, one)
		case 1:
			c.Sub(c, one)
		}
		if c.Sign() < 0 {
			c.Neg(c)
		}
		return c
	}
	switch g.Intn(18) {
	case 0:
		return new(big.Int)
	case 16:
		return g.words(1 + g.Intn(5))
	case 17:
		if prec > 0 && prec < 200 { // discarded parts near powers of two
			k := int64(15 + g.Intn(40))
			r := g.near2(k)
			c := new(big.Int).Set(mulPow(g.digits(prec), k))
			return c.Add(c, r)
		}
	case 1:
		return big.NewInt(int64(g.Intn(20)))
	case 2, 3:
		return g.digits(1 + g.Intn(6))
	case 4:
		return pert(pow10(int64(g.Intn(45))))
	case 5:
		return pert(new(big.Int).Lsh(one, uint(g.Intn(130))))
	case 6:
		return pert(pert(new(big.Int).Lsh(one, uint(63+g.Intn(2)))))
	case 7:
		return g.digits(18 + g.Intn(4))
	case 8, 9, 10:
		if prec > 0 && prec < 200 {
			return g.digits(prec + g.Intn(5) - 1)
		}
		return g.digits(1 + g.Intn(30))
	case 11:
		if prec > 0 && prec < 200 { // half way at the rounding position
			c := g.digits(prec)
			k := 1 + g.Intn(24)
			c = mulPow(c, int64(k))
			c.Add(c, mulPow(big.NewInt(5), int64(k-1)))
			return pert(c)
		}
	case 12:
		if prec > 0 && prec < 200 { // nines that carry
			c := new(big.Int).Sub(pow10(int64(prec)), one)
			k := int64(g.Intn(22))
			c = mulPow(c, k)
			if k > 0 {
				c.Add(c, mulPow(big.NewInt(int64(g.Intn(10))), k-1))
			}
			return pert(c)
		}
	case 13:
		return mulPow(g.digits(1+g.Intn(8)), int64(g.Intn(25)))
	case 14:
		return new(big.Int).SetUint64(g.Uint64())
	}
	return g.digits(1 + g.Intn(60))
}

// words is a number whose machine words are extreme.
func (g *gen) words(n int) *big.Int {
	c := new(big.Int)
	for i := 0; i < n; i++ {
		var w uint64
		switch g.Intn(7) {
		case 0, 1:
		case 2:
			w = 1
		case 3:
			w = 1 << 63
		case 4:
			w = 1<<64 - 1
		case 5:
			w = g.Uint64() >> uint(g.Intn(64))
		default:
			w = g.Uint64()
		}
		c.Lsh(c, 64).Or(c, new(big.Int).SetUint64(w))
	}
	return c
}

// near2 is a number below 10^k, a power of two away from 0, 10^k/2 or 10^k.
func (g *gen) near2(k int64) *big.Int {
	w := new(big.Int).Lsh(big.NewInt(1), uint([]int{63, 64, 62, 32, 31, 65}[g.Intn(6)]))
	w.Add(w, big.NewInt(int64(g.Intn(3)-1)))
	c := new(big.Int)
	switch g.Intn(4) {
	case 0:
		c.Set(mulPow(big.NewInt(5), k-1))
	case 1:
		c.Set(pow10(k))
	}
	if g.p(.5) {
		c.Add(c, w)
	} else {
		c.Sub(c, w)
	}
	return c.Mod(c.Abs(c), pow10(k))
}

func (g *gen) num(prec int) Num {
	if g.p(g.b.special) {
		n := Num{Kind: "IQS"[g.Intn(3):][:1], Neg: g.p(.5)}
		if n.Kind != "I" && g.p(.3) {
			n.Pay = uint64(g.Intn(1000))
		}
		return n
	}
	if g.p(.02) {
		return Num{Kind: "F", Coef: "0", Raw0: true, big: new(big.Int)}
	}
	n := finite(g.p(.5), g.coef(prec), g.exp())
	return n
}

func (g *gen) exp() int64 {
	switch g.Intn(8) {
	case 0, 1, 2:
		return 0
	case 3, 4:
		return int64(g.Intn(9) - 4)
	case 5, 6:
		return int64(g.Intn(61) - 30)
	}
	return int64(g.Intn(401) - 200)
}

func hugeOK(op string) bool {
	switch op {
	case "add", "sub", "mul", "fma", "quo", "cmp", "cmpabs", "set", "abs", "neg", "round", "reduce":
		return true
	}
	return false
}

func (g *gen) related(x Num, prec int, op string) Num {
	if !x.fin() {
		return g.num(prec)
	}
	cx := x.coef()
	switch g.Intn(9) {
	case 0: // cohort member
		k := int64(g.Intn(25))
		return finite(x.Neg != g.p(.5), mulPow(cx, k), x.Exp-k)
	case 1: // a unit away
		c := new(big.Int).Add(cx, big.NewInt(int64(g.Intn(5)-2)))
		neg := x.Neg != g.p(.5)
		if c.Sign() < 0 {
			c.Neg(c)
		}
		k := int64(g.Intn(25) * g.Intn(2))
		return finite(neg, mulPow(c, k), x.Exp-k)
	case 2: // tiny next to x, around the precision boundary
		d := int64(prec + 4 - g.Intn(9))
		if prec > 200 {
			d = int64(g.Intn(40))
		}
		c := g.digits(1 + g.Intn(6))
		if g.p(.4) {
			c = mulPow(big.NewInt(int64(1+g.Intn(9))), int64(g.Intn(3)))
		}
		top := x.Exp + digits(cx) - 1
		e := top - d - digits(c) + 1
		return finite(g.p(.5), c, e)
	case 3: // divides x
		f := big.NewInt(int64(1 + g.Intn(40)))
		return finite(g.p(.5), f, x.Exp+int64(g.Intn(9)-4))
	case 4: // product near 2^64
		if cx.Sign() > 0 {
			t := new(big.Int).Lsh(big.NewInt(1), uint(63+g.Intn(2)))
			t.Quo(t, cx)
			t.Add(t, big.NewInt(int64(g.Intn(3))))
			return finite(g.p(.5), t, g.exp())
		}
	case 5: // x is a multiple of y
		y := g.coef(prec)
		return finite(g.p(.5), y, x.Exp+int64(g.Intn(5)-2))
	case 6: // same exponent, big difference
		return finite(x.Neg != g.p(.5), g.coef(prec), x.Exp)
	}
	return g.num(prec)
}

func (g *gen) mkprec() int {
	switch g.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1 + g.Intn(5)
	case 2:
		return 7 + g.Intn(3)
	case 3:
		return 16
	case 4:
		return 18 + g.Intn(4)
	case 5:
		return 34
	case 6:
		if g.p(.4) {
			return decimal.UnlimitedPrecision
		}
	}
	return 1 + g.Intn(45)
}

func (g *gen) cond() uint32 {
	if g.p(.6) {
		return 0
	}
	return uint32(g.Intn(1 << 14))
}

var ops2 = map[string]bool{"add": true, "sub": true, "mul": true, "quo": true, "quoint": true, "rem": true, "quorem": true}

// gen builds one case of op.
func (g *gen) make(op string) *Case {
	c := &Case{Op: op}
	c.Prec = g.mkprec()
	c.Mode = g.Intn(7)
	c.Cond = g.cond()
	if g.p(.3) {
		c.Traps = uint32(g.Intn(1 << 14))
	}
	if g.p(g.b.gomode) {
		c.OM = 1
	}
	if g.p(g.b.ctx) {
		c.Via = "ctx"
		c.ZPrec = g.mkprec()
		c.ZMode = g.Intn(7)
		if g.p(.1) {
			c.ZOM = 1
		}
	}
	switch op {
	case "floor", "ceil", "nextplus", "nextminus":
		c.Via = "ctx"
		if op == "nextplus" || op == "nextminus" {
			// an exact sum would have 10^18 digits
			c.OM = 0
			if c.Prec == decimal.UnlimitedPrecision {
				c.Prec = 25
			}
		}
	case "roundtoint", "setuint64", "setmantscale", "setbigmantscale", "setfloat64", "setfloat", "copy", "copyabs", "copyneg", "copysign", "canonical", "setsignbit", "setscale", "setinf", "setnan", "compose", "decompose", "unmarshal", "unmarshaljson", "new":
		if op != "roundtoint" {
			c.Via = ""
		}
	}
	x := g.num(c.Prec)
	y := g.related(x, c.Prec, op)
	if g.p(.3) {
		y = g.num(c.Prec)
	}
	u := g.num(c.Prec)
	if op == "fma" && x.fin() && y.fin() && g.p(.6) {
		u = g.related(exactMul(x, y), c.Prec, op)
	}
	if g.p(.5) && op != "cmp" && op != "cmpabs" && op != "rem" && op != "quoint" {
		if ops2[op] && g.p(.3) {
			x, y = y, x
		}
	}
	if hugeOK(op) && g.p(.04) {
		k := int64(g.Intn(2_000_000_000) - 1_000_000_000)
		if x.fin() && !x.Raw0 {
			x.Exp += k
		}
		if y.fin() && !y.Raw0 && g.p(.7) {
			y.Exp += k
			if op == "fma" && x.fin() && !x.Raw0 {
				x.Exp -= k
			}
		}
		if u.fin() && !u.Raw0 && g.p(.7) && op == "fma" {
			u.Exp += k
		}
		if op == "add" || op == "sub" || op == "fma" {
			if c.OM == 1 || c.Prec == decimal.UnlimitedPrecision {
				// an exact sum would have a billion digits
				return g.make(op)
			}
		}
	}
	two, three := mustOps(op)
	c.X = &x
	if two {
		c.Y = &y
	}
	if three {
		c.U = &u
	}
	if g.p(.5) {
		z := g.num(c.Prec)
		c.Z = &z
	}
	switch op {
	case "set", "neg", "abs", "copyabs", "copyneg", "copy", "floor", "ceil", "nextplus", "nextminus", "canonical":
		if g.p(g.b.alias) {
			c.Alias = "z=x"
		}
	case "add", "sub", "mul", "quo", "quoint", "rem", "copysign":
		if g.p(g.b.alias) {
			c.Alias = []string{"z=x", "z=y", "x=y", "z=x=y"}[g.Intn(4)]
		}
	case "quorem":
		if g.p(g.b.alias) {
			c.Alias = []string{"z=x", "z=y", "x=y", "z=x=y", "r=x", "r=y"}[g.Intn(6)]
		}
	case "fma":
		if g.p(g.b.alias) {
			c.Alias = []string{"z=x", "z=y", "x=y", "z=x=y", "z=u", "x=u", "y=u", "z=x=u", "z=y=u", "x=y=u", "z=x=y=u"}[g.Intn(11)]
		}
	case "cmp", "cmpabs", "cmptotal", "cmptotalabs", "max", "min", "maxabs", "minabs", "samequantum":
		if g.p(.05) {
			c.Alias = "x=y"
		}
	}
	switch op {
	case "round":
		c.N = int64(g.Intn(30) - 1)
	case "roundtoint":
	case "quantize", "setscale", "setmantscale", "new", "setbigmantscale":
		c.N = int64(g.Intn(60) - 30)
		if op == "quantize" && x.fin() && g.p(.7) {
			c.N = -(x.Exp + int64(g.Intn(2+int(digits(x.coef())))) - 1)
			if g.p(.5) && c.Prec < 200 {
				c.N = -(adjusted(x) - int64(c.m().p) + 1 + int64(g.Intn(4)-1))
			}
		}
	case "compose":
		c.N = int64(g.Intn(3))
		if g.p(.1) {
			c.N = int64(g.Intn(256))
		}
		c.B = g.p(.5)
		c.S = string(g.coef(c.Prec).Bytes())
		if g.p(.2) {
			c.S = string(make([]byte, g.Intn(4))) + c.S
		}
		c.Bits = uint64(uint32(int32(g.exp())))
		if g.p(.1) {
			c.Bits = uint64(g.Uint32())
		}
	case "decompose":
		if g.p(.7) {
			c.N = int64(g.Intn(24))
			c.Bits = uint64(g.Intn(12))
		}
	case "setsignbit", "setinf", "setnan":
		c.B = g.p(.5)
	case "int", "rat":
		c.B = g.p(.5)
		c.Bits = g.Uint64()
	case "setfloat64":
		c.Bits = g.f64()
	case "setfloat":
		c.N = int64(g.Intn(200) - 120)
		c.Bits2 = uint64(g.Intn(300))
		if g.p(.05) {
			c.B = true
		}
		if !x.fin() {
			x = finite(x.Neg, g.coef(c.Prec), 0)
			x.Exp = 0
			c.X = &x
		}
	case "setrat":
		if !x.fin() {
			x = finite(x.Neg, g.coef(c.Prec), 0)
			c.X = &x
		}
		y := finite(false, g.coef(c.Prec), 0)
		if g.p(.4) {
			y = finite(false, new(big.Int).Mul(new(big.Int).Lsh(big.NewInt(1), uint(g.Intn(8))), new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(g.Intn(6))), nil)), 0)
		}
		c.Y = &y
	case "setstring", "unmarshal", "unmarshaljson":
		c.S = g.text(x)
	}
	if op == "setbigmantscale" && !x.fin() {
		x = finite(x.Neg, g.coef(c.Prec), 0)
		c.X = &x
	}
	if op == "setuint64" || op == "setmantscale" || op == "new" {
		co := g.coef(c.Prec)
		c.Bits = new(big.Int).And(co, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
		if g.p(.5) {
			c.Bits = -c.Bits
		}
	}
	if g.p(g.b.limits) {
		g.limit(c)
	}
	if g.p(g.b.badctx) {
		switch op {
		case "nextplus", "nextminus", "floor", "ceil", "roundtoint", "set", "string", "class", "setstring", "setrat":
			// no demand is made for these
		default:
			g.bad(c)
		}
	}
	return c
}

func (g *gen) f64() uint64 {
	switch g.Intn(6) {
	case 0:
		return g.Uint64()
	case 1:
		return math.Float64bits(float64(g.Intn(2000)-1000) / float64(int64(1)<<uint(g.Intn(20))))
	case 2:
		return math.Float64bits(float64(g.Uint64()))
	case 3:
		return math.Float64bits([]float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 63, 1 << 64, -(1 << 63), 1<<63 - 1024}[g.Intn(11)])
	case 4:
		return math.Float64bits(math.Ldexp(float64(g.Uint32()), g.Intn(200)-100))
	}
	return g.Uint64() & (1<<63 | 1<<52 - 1) // subnormal
}

func (g *gen) text(x Num) string {
	if g.p(.25) { // near the grammar
		toks := []string{"+", "-", ".", "0", "1", "9", "12", "E", "e", "00", "Inf", "infinity", "NaN", "snan", "qnan", "1e", "e5", "e-3", "e+", " ", "_", "x", "\"", "5", "18446744073709551615", "18446744073709551616", "99999999999999999999"}
		s := ""
		for i := g.Intn(6); i >= 0; i-- {
			s += toks[g.Intn(len(toks))]
		}
		return s
	}
	var s string
	switch x.Kind {
	case "I":
		s = []string{"Inf", "inf", "Infinity", "INFINITY", "iNF"}[g.Intn(5)]
	case "Q":
		s = []string{"NaN", "nan", "qNaN"}[g.Intn(3)]
		if x.Pay > 0 {
			s += fmt.Sprint(x.Pay)
		}
	case "S":
		s = []string{"sNaN", "snan"}[g.Intn(2)]
		if x.Pay > 0 {
			s += fmt.Sprint(x.Pay)
		}
	default:
		d := x.coef().String()
		e := x.Exp
		if g.p(.3) {
			d = "000"[:g.Intn(4)] + d
		}
		if g.p(.5) {
			i := g.Intn(len(d) + 1)
			e += int64(len(d) - i)
			d = d[:i] + "." + d[i:]
		}
		s = d
		if e != 0 || g.p(.3) {
			ee := fmt.Sprint(e)
			if e >= 0 && g.p(.5) {
				ee = "+" + ee
			}
			s += "eE"[g.Intn(2):][:1] + ee
		}
	}
	if x.Neg {
		return "-" + s
	}
	if g.p(.2) {
		return "+" + s
	}
	return s
}

// limit places the exponent limits next to the result.
func (g *gen) limit(c *Case) {
	a := int64(g.Intn(40) - 20)
	func() {
		defer func() { recover() }()
		x, y, u := c.nums()
		d := *c
		d.Emax, d.Emin = 0, 0
		if w := expect(&d, x, y, u); w.how != "none" && w.num.fin() {
			a = adjusted(w.num)
		} else if x.fin() {
			a = adjusted(x)
		}
	}()
	j := int64(g.Intn(5) - 2)
	k := int64(g.Intn(int(c.m().p%50) + 4))
	if g.p(.6) {
		if v := a + j; v > 0 && v < decimal.MaxScale {
			c.Emax = int(v)
		} else if g.p(.3) {
			c.Emax = 1 + g.Intn(300)
		}
	}
	if g.p(.6) {
		if v := a + k + j; v < 0 && v > -decimal.MaxScale {
			c.Emin = int(v)
		} else if g.p(.3) {
			c.Emin = -1 - g.Intn(300)
		}
	}
}

func (g *gen) bad(c *Case) {
	switch g.Intn(7) {
	case 0:
		c.Prec = -1 - g.Intn(100)
	case 1:
		c.Prec = decimal.UnlimitedPrecision + 1 + g.Intn(100)
	case 2:
		c.Mode = 7 + g.Intn(248)
	case 3:
		c.OM = 2 + g.Intn(253)
	case 4:
		c.Emax = decimal.MaxScale + 1 + g.Intn(3)
	case 5:
		c.Emin = -decimal.MaxScale - 1 - g.Intn(3)
	case 6:
		c.Prec = math.MinInt64
	}
}
