package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"

	"github.com/ericlagergren/decimal"
)

// Case is one concrete call replayed on the real code.
type Case struct {
	Op    string `json:"op"`
	X     *Num   `json:"x,omitempty"`
	Y     *Num   `json:"y,omitempty"`
	U     *Num   `json:"u,omitempty"`
	Z     *Num   `json:"z,omitempty"` // receiver contents before the call
	Prec  int    `json:"prec"`
	Mode  int    `json:"mode"`
	OM    int    `json:"om,omitempty"` // 0 GDA, 1 Go
	Emax  int    `json:"emax,omitempty"`
	Emin  int    `json:"emin,omitempty"`
	Cond  uint32 `json:"cond,omitempty"`
	Traps uint32 `json:"traps,omitempty"`
	Alias string `json:"alias,omitempty"` // e.g. "z=x", "z=y", "x=y", "z=x=y", "z=u"
	Via   string `json:"via,omitempty"`   // "ctx": Context method, else Big method
	ZPrec int    `json:"zprec,omitempty"` // receiver's own context (via ctx only)
	ZMode int    `json:"zmode,omitempty"`
	ZOM   int    `json:"zom,omitempty"`
	N     int64  `json:"n,omitempty"`
	S     string `json:"s,omitempty"`
	Bits  uint64 `json:"bits,omitempty"`
	Bits2 uint64 `json:"bits2,omitempty"`
	B     bool   `json:"b,omitempty"`
}

func (c *Case) ctx() decimal.Context {
	return decimal.Context{
		Precision: c.Prec, RoundingMode: decimal.RoundingMode(c.Mode),
		OperatingMode: decimal.OperatingMode(c.OM),
		MaxScale:      c.Emax, MinScale: c.Emin,
		Traps: decimal.Condition(c.Traps),
	}
}

// zctx is the receiver's context.
func (c *Case) zctx() decimal.Context {
	ctx := c.ctx()
	if c.Via == "ctx" {
		ctx = decimal.Context{Precision: c.ZPrec, RoundingMode: decimal.RoundingMode(c.ZMode), OperatingMode: decimal.OperatingMode(c.ZOM), Traps: decimal.Condition(c.Traps)}
	}
	ctx.Conditions = decimal.Condition(c.Cond)
	return ctx
}

func (c *Case) zGo() bool { return c.zctx().OperatingMode == decimal.Go }

// Out is what the real call produced.
type Out struct {
	Panic         string
	ErrNaN        bool
	Z, R, X, Y, U *decimal.Big
	Ret           *decimal.Big
	Int           int
	Bool          bool
	I64           int64
	U64           uint64
	Str           string
	Err           error
	BI            *big.Int
	BR            *big.Rat
	Form          byte
	Coef          []byte
	E32           int32
	ZNum, RNum    Num
	Conds         uint32
	opctx         decimal.Context
}

func mustOps(op string) (y, u bool) {
	switch op {
	case "add", "sub", "mul", "quo", "quoint", "rem", "quorem", "cmp", "cmpabs", "cmptotal", "cmptotalabs", "copysign", "max", "min", "maxabs", "minabs", "samequantum":
		return true, false
	case "fma":
		return true, true
	}
	return false, false
}

// inplace operations have no operand besides the receiver.
func inplace(op string) bool {
	switch op {
	case "round", "roundtoint", "quantize", "reduce", "setsignbit", "setscale":
		return true
	}
	return false
}

// run executes the case on the real code.
func run(c *Case) (o Out) {
	defer func() {
		if e := recover(); e != nil {
			o.Panic = "panic: " + fmt.Sprint(e)
			if _, ok := e.(decimal.ErrNaN); ok {
				o.ErrNaN = true
			}
			if o.Z != nil {
				o.ZNum = view(o.Z)
				o.Conds = uint32(o.Z.Context.Conditions)
			}
		}
	}()
	ctx, zctx := c.ctx(), c.zctx()
	// operands carry contexts of their own
	o.opctx = decimal.Context{Precision: 5, RoundingMode: decimal.ToZero, Conditions: decimal.Clamped, Traps: decimal.Overflow}
	if c.Op == "class" || c.Op == "string" || c.Op == "err" {
		o.opctx = ctx
		o.opctx.Conditions = decimal.Condition(c.Cond)
	}
	mk := func(n *Num) *decimal.Big {
		if n == nil {
			return nil
		}
		z := new(decimal.Big)
		z.Context = o.opctx
		fill(z, *n)
		return z
	}
	x, y, u := mk(c.X), mk(c.Y), mk(c.U)
	var z *decimal.Big
	switch c.Alias {
	case "":
	case "x=y":
		y = x
	case "z=x":
		z = x
	case "z=y":
		z = y
	case "z=u":
		z = u
	case "z=x=y":
		y, z = x, x
	case "z=x=u":
		u, z = x, x
	case "z=y=u":
		u, z = y, y
	case "x=u":
		u = x
	case "y=u":
		u = y
	case "x=y=u":
		y, u = x, x
	case "z=x=y=u":
		y, u, z = x, x, x
	case "r=x", "r=y":
	default:
		panic("bad alias " + c.Alias)
	}
	if inplace(c.Op) {
		z = x
	}
	if z == nil {
		z = new(decimal.Big)
		if c.Z != nil {
			fill(z, *c.Z)
		}
	}
	if c.Op != "class" && c.Op != "string" {
		z.Context = zctx
	}
	o.X, o.Y, o.U, o.Z = x, y, u, z
	v := c.Via == "ctx"
	n := int(c.N)
	switch c.Op {
	case "add":
		if v {
			o.Ret = ctx.Add(z, x, y)
		} else {
			o.Ret = z.Add(x, y)
		}
	case "sub":
		if v {
			o.Ret = ctx.Sub(z, x, y)
		} else {
			o.Ret = z.Sub(x, y)
		}
	case "mul":
		if v {
			o.Ret = ctx.Mul(z, x, y)
		} else {
			o.Ret = z.Mul(x, y)
		}
	case "quo":
		if v {
			o.Ret = ctx.Quo(z, x, y)
		} else {
			o.Ret = z.Quo(x, y)
		}
	case "fma":
		if v {
			o.Ret = ctx.FMA(z, x, y, u)
		} else {
			o.Ret = z.FMA(x, y, u)
		}
	case "quoint":
		if v {
			o.Ret = ctx.QuoInt(z, x, y)
		} else {
			o.Ret = z.QuoInt(x, y)
		}
	case "rem":
		if v {
			o.Ret = ctx.Rem(z, x, y)
		} else {
			o.Ret = z.Rem(x, y)
		}
	case "quorem":
		r := new(decimal.Big)
		if c.Alias == "r=x" {
			r = x
		}
		if c.Alias == "r=y" {
			r = y
		}
		r.Context = zctx
		o.R = r
		if v {
			o.Ret, o.R = ctx.QuoRem(z, x, y, r)
		} else {
			o.Ret, o.R = z.QuoRem(x, y, r)
		}
		o.RNum = view(o.R)
	case "set":
		if v {
			o.Ret = ctx.Set(z, x)
		} else {
			o.Ret = z.Set(x)
		}
	case "neg":
		if v {
			o.Ret = ctx.Neg(z, x)
		} else {
			o.Ret = z.Neg(x)
		}
	case "abs":
		if v {
			o.Ret = ctx.Abs(z, x)
		} else {
			o.Ret = z.Abs(x)
		}
	case "copy":
		o.Ret = z.Copy(x)
	case "copyabs":
		o.Ret = z.CopyAbs(x)
	case "copyneg":
		o.Ret = z.CopyNeg(x)
	case "canonical":
		o.Ret = z.Canonical(x)
	case "copysign":
		o.Ret = z.CopySign(x, y)
	case "setsignbit":
		o.Ret = z.SetSignbit(c.B)
	case "setscale":
		o.Ret = z.SetScale(n)
	case "setinf":
		o.Ret = z.SetInf(c.B)
	case "setnan":
		o.Ret = z.SetNaN(c.B)
	case "round":
		if v {
			o.Ret = ctx.Round(z)
		} else {
			o.Ret = z.Round(n)
		}
	case "roundtoint":
		if v {
			o.Ret = ctx.RoundToInt(z)
		} else {
			o.Ret = z.RoundToInt()
		}
	case "quantize":
		if v {
			o.Ret = ctx.Quantize(z, n)
		} else {
			o.Ret = z.Quantize(n)
		}
	case "reduce":
		if v {
			o.Ret = ctx.Reduce(z)
		} else {
			o.Ret = z.Reduce()
		}
	case "floor":
		o.Ret = ctx.Floor(z, x)
	case "ceil":
		o.Ret = ctx.Ceil(z, x)
	case "nextplus":
		o.Ret = ctx.NextPlus(z, x)
	case "nextminus":
		o.Ret = ctx.NextMinus(z, x)
	case "setuint64":
		o.Ret = z.SetUint64(c.Bits)
	case "setmantscale":
		o.Ret = z.SetMantScale(int64(c.Bits), n)
	case "new":
		o.Ret = decimal.New(int64(c.Bits), n)
		z = o.Ret
		o.Z = z
	case "setbigmantscale":
		v := c.X.scoef()
		keep := new(big.Int).Set(v)
		o.Ret = z.SetBigMantScale(v, n)
		o.Bool = keep.Cmp(v) == 0
		v.SetInt64(77) // the argument stays the caller's
	case "setfloat64":
		o.Ret = z.SetFloat64(math.Float64frombits(c.Bits))
	case "setfloat":
		f := c.float()
		o.Ret = z.SetFloat(f)
		o.Bool = f.Cmp(c.float()) == 0 && f.Signbit() == c.float().Signbit() && f.Prec() == c.float().Prec()
	case "setrat":
		r := c.rat()
		if v {
			o.Ret = ctx.SetRat(z, r)
		} else {
			o.Ret = z.SetRat(r)
		}
		o.Bool = r.Cmp(c.rat()) == 0
	case "compose":
		b := append([]byte(nil), []byte(c.S)...)
		o.Err = z.Compose(byte(c.N), c.B, b, int32(c.Bits))
		o.Ret = z
		o.Bool = string(b) == c.S
		for i := range b {
			b[i] ^= 0xff
		}
	case "decompose":
		var buf []byte
		if c.N > 0 {
			buf = make([]byte, c.N, c.N+int64(c.Bits))
			for i := range buf {
				buf[i] = 0xa5
			}
		}
		o.Form, o.Bool, o.Coef, o.E32 = x.Decompose(buf)
		o.Coef = append([]byte(nil), o.Coef...)
	case "setstring":
		if v {
			o.Ret, o.Bool = ctx.SetString(z, c.S)
		} else {
			o.Ret, o.Bool = z.SetString(c.S)
		}
	case "unmarshal":
		o.Err = z.UnmarshalText([]byte(c.S))
		o.Ret = z
	case "unmarshaljson":
		o.Err = z.UnmarshalJSON([]byte(c.S))
		o.Ret = z
	case "string":
		o.Str = x.String()
		b, err := x.MarshalText()
		o.Err = err
		if string(b) != o.Str {
			o.Err = fmt.Errorf("MarshalText %q differs from String %q (%v)", b, o.Str, err)
		}
		w := new(decimal.Big)
		w.Context = decimal.Context{}
		fill(w, Num{Kind: "F", Coef: "12345678901234567890123", Exp: 3})
		w.SetString(o.Str)
		o.RNum = view(w)
		o.R = w
	case "cmp":
		o.Int = x.Cmp(y)
	case "cmpabs":
		o.Int = x.CmpAbs(y)
	case "cmptotal":
		o.Int = x.CmpTotal(y)
	case "cmptotalabs":
		o.Int = x.CmpTotalAbs(y)
	case "max":
		o.Int = which(decimal.Max(x, y), x, y)
	case "min":
		o.Int = which(decimal.Min(x, y), x, y)
	case "maxabs":
		o.Int = which(decimal.MaxAbs(x, y), x, y)
	case "minabs":
		o.Int = which(decimal.MinAbs(x, y), x, y)
	case "samequantum":
		o.Bool = x.SameQuantum(y)
	case "int64":
		o.I64, o.Bool = x.Int64()
	case "uint64":
		o.U64, o.Bool = x.Uint64()
	case "int":
		if c.B {
			o.BI = x.Int(new(big.Int).SetUint64(c.Bits))
		} else {
			o.BI = x.Int(nil)
		}
	case "rat":
		if c.B {
			o.BR = x.Rat(big.NewRat(7, 3))
		} else {
			o.BR = x.Rat(nil)
		}
	case "isint":
		o.Bool = x.IsInt()
	case "class":
		o.Str = fmt.Sprintf("%s fin=%v normal=%v sub=%v inf=%v%v%v nan=%v%v%v sign=%d neg=%v", x.Class(), x.IsFinite(), x.IsFinite() && x.IsNormal(), x.IsFinite() && x.IsSubnormal(),
			x.IsInf(0), x.IsInf(1), x.IsInf(-1), x.IsNaN(0), x.IsNaN(1), x.IsNaN(-1), sgn(x), x.Signbit())
	case "err":
		o.Err = z.Context.Err()
	default:
		panic("unknown op " + c.Op)
	}
	if o.Ret != nil {
		o.ZNum = view(o.Ret)
	}
	o.Conds = uint32(z.Context.Conditions)
	return o
}

func sgn(x *decimal.Big) int {
	if x.IsNaN(0) {
		return 0
	}
	return x.Sign()
}

func which(r, x, y *decimal.Big) int {
	if r == x {
		return 1
	}
	if r == y {
		return 2
	}
	return 0
}

func (c *Case) float() *big.Float {
	f := new(big.Float)
	if c.B {
		f.SetInf(c.N%2 == 0)
		return f
	}
	f.SetPrec(uint(1 + c.Bits2%300))
	f.SetInt(c.X.scoef())
	f.SetMantExp(f, int(c.N))
	if c.X.Neg && f.Sign() == 0 {
		f.Neg(f)
	}
	return f
}

func (c *Case) rat() *big.Rat {
	d := new(big.Int).Set(c.Y.coef())
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	return new(big.Rat).SetFrac(c.X.scoef(), d)
}

// scribble overwrites the storage the result owns; nothing else may change.
func scribble(z *decimal.Big) func() {
	_, u := decimal.Raw(z)
	w := u.Bits()
	w = w[:cap(w)]
	old := append([]big.Word(nil), w...)
	for i := range w {
		w[i] ^= 0x5555555555555555
	}
	return func() { copy(w, old) }
}

var _ = bytes.Equal
