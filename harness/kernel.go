package main

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/ericlagergren/decimal/internal/arith"
	"github.com/ericlagergren/decimal/internal/c"
)

// kernel checks the integer kernel against math/big.
func (g *gen) kcase() *Case {
	k := &Case{Op: "karith", S: kops[g.Intn(len(kops))]}
	x := finite(g.p(.5), g.coef(30), 0)
	y := finite(g.p(.5), g.coef(30), 0)
	if g.p(.4) {
		y = g.related(x, 30, "mul")
		y.Exp = 0
	}
	k.Bits = g.u64(x)
	k.Bits2 = g.u64(y)
	k.N = int64(g.Intn(48) - 2)
	if g.p(.02) {
		k.N = int64(g.Intn(1500))
	}
	k.B = g.p(.4)
	k.X, k.Y = &x, &y
	k.Prec = g.Intn(1 << 10)
	return k
}

// dirty is zero, with leftovers of an earlier value in its storage.
func dirty(n int) *big.Int {
	z := new(big.Int)
	w := make([]big.Word, n)
	for i := range w {
		w[i] = big.Word(0xdeadbeef<<32 | uint64(i+1))
	}
	z.SetBits(w)
	return z.SetUint64(uint64(n % 2))
}

func (g *gen) u64(n Num) uint64 {
	if g.p(.2) {
		return g.words(1).Uint64()
	}
	if g.p(.6) {
		return new(big.Int).And(n.coef(), new(big.Int).SetUint64(1<<64-1)).Uint64()
	}
	if g.p(.3) {
		return pow10(int64(g.Intn(20))).Uint64() + uint64(g.Intn(3)) - 1
	}
	return g.Uint64() >> uint(g.Intn(64))
}

var kops = []string{"length", "pow10", "mulpow10", "biglength", "cmp", "cmpshift", "powoftenbig", "add", "sub", "mul", "set", "mulbigpow10", "cmpbits", "powoften", "bigpow10", "safe", "abs"}

func kernel(k *Case) (fails []Fail) {
	defer func() {
		if e := recover(); e != nil {
			fails = append(fails, Fail{"panic", fmt.Sprintf("%s: %v", k.S, e)})
		}
	}()
	bad := func(f string, a ...interface{}) { fails = append(fails, Fail{"value", k.S + ": " + fmt.Sprintf(f, a...)}) }
	bx, by := new(big.Int).SetUint64(k.Bits), new(big.Int).SetUint64(k.Bits2)
	X, Y := new(big.Int).Set(k.X.coef()), new(big.Int).Set(k.Y.coef())
	z := new(big.Int)
	if k.Prec%2 == 1 { // used storage
		z = dirty((k.Prec >> 1) % 9)
	}
	if k.B {
		z = X
	}
	intact := func() {
		if z != X && X.Cmp(k.X.coef()) != 0 {
			fails = append(fails, Fail{"frame", k.S + ": first operand changed"})
		}
		if Y.Cmp(k.Y.coef()) != 0 {
			fails = append(fails, Fail{"frame", k.S + ": second operand changed"})
		}
	}
	res := func(w *big.Int) {
		if z.Cmp(w) != 0 {
			bad("%v, wanted %v (x=%v y=%v u=%d v=%d)", z, w, k.X.coef(), k.Y.coef(), k.Bits, k.Bits2)
		}
		intact()
	}
	switch k.S {
	case "length":
		if got := arith.Length(k.Bits); int64(got) != digits(bx) {
			bad("Length(%d) = %d", k.Bits, got)
		}
	case "biglength":
		if got := arith.BigLength(X); int64(got) != digits(X) {
			bad("BigLength(%v) = %d", X, got)
		}
		intact()
	case "pow10":
		if k.N < 0 {
			return
		}
		got, ok := arith.Pow10(uint64(k.N))
		w := pow10(k.N)
		if ok != w.IsUint64() || ok && got != w.Uint64() {
			bad("Pow10(%d) = %d, %v", k.N, got, ok)
		}
	case "mulpow10":
		if k.N < 0 {
			return
		}
		got, ok := arith.MulPow10(k.Bits, uint64(k.N))
		w := mulPow(bx, k.N)
		if ok && (!w.IsUint64() || got != w.Uint64()) || !ok && w.IsUint64() && k.Bits != 0 {
			bad("MulPow10(%d, %d) = %d, %v", k.Bits, k.N, got, ok)
		}
	case "cmp":
		if got := arith.Cmp(k.Bits, k.Bits2); got != bx.Cmp(by) {
			bad("Cmp(%d, %d) = %d", k.Bits, k.Bits2, got)
		}
	case "cmpshift":
		sh := uint64(k.N + 3)
		if got := arith.CmpShift(k.Bits, k.Bits2, sh); got != bx.Cmp(new(big.Int).Mul(by, new(big.Int).SetUint64(sh))) {
			bad("CmpShift(%d, %d, %d) = %d", k.Bits, k.Bits2, sh, got)
		}
	case "powoftenbig":
		if X.Sign() == 0 {
			return
		}
		w := X.Cmp(pow10(digits(X)-1)) == 0
		if got := arith.PowOfTenBig(X); got != w {
			bad("PowOfTenBig(%v) = %v", k.X.coef(), got)
		}
		intact()
	case "cmpbits":
		wb := X.Bits()
		if got := arith.CmpBits(wb, Y.Bits()); got != X.Cmp(Y) {
			bad("CmpBits(%v, %v) = %d", X, Y, got)
		}
	case "abs":
		v := int64(k.Bits)
		if got := arith.Abs(v); new(big.Int).SetUint64(got).Cmp(new(big.Int).Abs(big.NewInt(v))) != 0 {
			bad("Abs(%d) = %d", v, got)
		}
	case "add":
		arith.Add(z, X, k.Bits)
		res(new(big.Int).Add(k.X.coef(), bx))
	case "sub":
		if X.Cmp(bx) < 0 {
			return
		}
		w := new(big.Int).Sub(k.X.coef(), bx)
		arith.Sub(z, X, k.Bits)
		res(w)
	case "mul":
		arith.Mul(z, X, k.Bits)
		res(new(big.Int).Mul(k.X.coef(), bx))
	case "set":
		arith.Set(z, k.Bits2, k.Bits)
		if w := new(big.Int).Add(new(big.Int).Lsh(by, 64), bx); z.Cmp(w) != 0 {
			bad("Set(%d, %d) = %v", k.Bits2, k.Bits, z)
		}
	case "mulbigpow10":
		if k.N < 0 {
			return
		}
		arith.MulBigPow10(z, X, uint64(k.N))
		res(mulPow(k.X.coef(), k.N))
	case "powoften":
		if k.Bits == 0 {
			return
		}
		w := bx.Cmp(pow10(digits(bx)-1)) == 0
		if got := arith.PowOfTen(k.Bits); got != w {
			bad("PowOfTen(%d) = %v", k.Bits, got)
		}
	case "safe":
		s := new(big.Int).Add(bx, by)
		if got, ok := safe(k.Bits, k.Bits2); ok != s.IsUint64() || ok && got != s.Uint64() {
			bad("add64 %d %d", k.Bits, k.Bits2)
		}
	case "bigpow10":
		if k.N < 0 {
			return
		}
		n := k.N
		if k.B {
			n *= 40
		}
		var wg sync.WaitGroup
		vals := make([]*big.Int, 3)
		for i := range vals {
			wg.Add(1)
			go func(i int) { defer wg.Done(); vals[i] = arith.BigPow10(uint64(n)) }(i)
		}
		wg.Wait()
		for _, v := range vals {
			if v.Cmp(pow10(n)) != 0 {
				bad("BigPow10(%d)", n)
			}
		}
	}
	_ = c.Inflated
	return
}

func safe(a, b uint64) (uint64, bool) { s := a + b; return s, s >= a }
