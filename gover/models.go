package main

import (
	"go/types"
	"math/big"
)

// Trusted models of standard-library functions. *big.Int is a mathematical
// integer plus the identity of its backing array.

type model func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val))

var models map[string]model

func (ex *Exec) bigOf(st *State, v Val, pos string) (*Poly, bool) {
	p, ok := v.(PtrV)
	if !ok {
		return V(Fresh("opqbig", true)), true
	}
	ex.nonNil(st, p, pos)
	if st.dead {
		return nil, false
	}
	b, ok := ex.load(st, p).(BigV)
	if !ok {
		return V(Fresh("opqbig", true)), true
	}
	return st.simpP(b.v), true
}

func (ex *Exec) setBig(st *State, z Val, v *Poly) {
	if p, ok := z.(PtrV); ok {
		ex.storeBig(st, p, v)
	}
}

func cmp3(a, b *Poly) *Poly {
	return Ite(Lt(a, b), Num(-1), Ite(Eq(a, b), zeroP, oneP))
}

func (ex *Exec) absT(st *State, p *Poly) *Poly {
	p = st.simpP(p)
	if st.simp(Ge0(p)) == tTrue {
		return p
	}
	if ex.provable(st, Ge0(p)) {
		st.assume(Ge0(p))
		return p
	}
	return AbsP(p)
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)
var two63 = new(big.Int).Lsh(big.NewInt(1), 63)

func init() {
	B := "(*math/big.Int)."
	bin := func(f func(ex *Exec, st *State, a, b *Poly, pos string) *Poly) model {
		return func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			a, ok := ex.bigOf(st, args[1], pos)
			if !ok {
				return
			}
			b, ok := ex.bigOf(st, args[2], pos)
			if !ok {
				return
			}
			if p, ok := args[0].(PtrV); ok {
				ex.nonNil(st, p, pos)
				if st.dead {
					return
				}
			}
			r := f(ex, st, a, b, pos)
			if st.dead {
				return
			}
			ex.setBig(st, args[0], r)
			k(st, []Val{args[0]})
		}
	}
	un := func(f func(ex *Exec, st *State, a *Poly) *Poly) model {
		return func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			a, ok := ex.bigOf(st, args[1], pos)
			if !ok {
				return
			}
			if p, ok := args[0].(PtrV); ok {
				ex.nonNil(st, p, pos)
				if st.dead {
					return
				}
			}
			ex.setBig(st, args[0], f(ex, st, a))
			k(st, []Val{args[0]})
		}
	}
	get := func(f func(ex *Exec, st *State, a *Poly) Val) model {
		return func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			a, ok := ex.bigOf(st, args[0], pos)
			if !ok {
				return
			}
			k(st, []Val{f(ex, st, a)})
		}
	}
	cmp := func(f func(ex *Exec, st *State, a, b *Poly) Val) model {
		return func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			a, ok := ex.bigOf(st, args[0], pos)
			if !ok {
				return
			}
			b, ok := ex.bigOf(st, args[1], pos)
			if !ok {
				return
			}
			k(st, []Val{f(ex, st, a, b)})
		}
	}
	pure := func(f func(ex *Exec, st *State, args []Val) []Val) model {
		return func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			k(st, f(ex, st, args))
		}
	}
	nop := func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) { k(st, nil) }
	models = map[string]model{
		B + "Add": bin(func(ex *Exec, st *State, a, b *Poly, pos string) *Poly { return AddP(a, b) }),
		B + "Sub": bin(func(ex *Exec, st *State, a, b *Poly, pos string) *Poly { return SubP(a, b) }),
		B + "Mul": bin(func(ex *Exec, st *State, a, b *Poly, pos string) *Poly { return MulP(a, b) }),
		B + "Quo": bin(func(ex *Exec, st *State, a, b *Poly, pos string) *Poly {
			ex.oblige(st, "panic", "big.Int division by zero at "+pos, Ne(b, zeroP))
			return ex.truncDiv(st, a, ex.absIfKnown(st, b), true)
		}),
		B + "Rem": bin(func(ex *Exec, st *State, a, b *Poly, pos string) *Poly {
			ex.oblige(st, "panic", "big.Int division by zero at "+pos, Ne(b, zeroP))
			return SubP(a, MulP(b, ex.truncDiv(st, a, b, true)))
		}),
		B + "Set":      un(func(ex *Exec, st *State, a *Poly) *Poly { return a }),
		B + "Neg":      un(func(ex *Exec, st *State, a *Poly) *Poly { return NegP(a) }),
		B + "Abs":      un(func(ex *Exec, st *State, a *Poly) *Poly { return ex.absT(st, a) }),
		B + "Sign":     get(func(ex *Exec, st *State, a *Poly) Val { return IntV{cmp3(a, zeroP)} }),
		B + "BitLen":   get(func(ex *Exec, st *State, a *Poly) Val { return IntV{BitLenT(ex.absT(st, a))} }),
		B + "IsUint64": get(func(ex *Exec, st *State, a *Poly) Val { return BoolV{And(Ge0(a), Lt(a, NumBig(two64)))} }),
		B + "IsInt64": get(func(ex *Exec, st *State, a *Poly) Val {
			return BoolV{And(Le(NegP(NumBig(two63)), a), Lt(a, NumBig(two63)))}
		}),
		B + "Uint64": get(func(ex *Exec, st *State, a *Poly) Val { return IntV{ex.low(st, a, types.Typ[types.Uint64])} }),
		B + "Int64":  get(func(ex *Exec, st *State, a *Poly) Val { return IntV{ex.low(st, a, types.Typ[types.Int64])} }),
		B + "Cmp":    cmp(func(ex *Exec, st *State, a, b *Poly) Val { return IntV{cmp3(a, b)} }),
		B + "CmpAbs": cmp(func(ex *Exec, st *State, a, b *Poly) Val { return IntV{cmp3(ex.absT(st, a), ex.absT(st, b))} }),
		B + "SetUint64": func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			if p, ok := args[0].(PtrV); ok {
				ex.nonNil(st, p, pos)
				if st.dead {
					return
				}
			}
			ex.setBig(st, args[0], ex.intOf(args[1]))
			k(st, []Val{args[0]})
		},
		B + "Bit": func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			a, ok := ex.bigOf(st, args[0], pos)
			if !ok {
				return
			}
			if c, ok := ex.intOf(args[1]).ConstInt(); ok && c.Sign() == 0 {
				k(st, []Val{IntV{Mod2(ex.absT(st, a))}})
				return
			}
			k(st, []Val{IntV{Ite(FreshBool("bit"), oneP, zeroP)}})
		},
		B + "Exp": func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			x, ok := ex.bigOf(st, args[1], pos)
			if !ok {
				return
			}
			y, ok := ex.bigOf(st, args[2], pos)
			if !ok {
				return
			}
			m, isP := args[3].(PtrV)
			c, isC := x.ConstInt()
			if isP && m.obj == 0 && isC && c.Cmp(big.NewInt(10)) == 0 {
				r := Pow10P(y)
				if !ex.provable(st, Ge0(y)) {
					r = Ite(Ge0(y), r, oneP)
				}
				ex.setBig(st, args[0], r)
			} else {
				ex.setBig(st, args[0], V(Fresh("exp", true)))
			}
			k(st, []Val{args[0]})
		},
		B + "QuoRem": func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			x, ok := ex.bigOf(st, args[1], pos)
			if !ok {
				return
			}
			y, ok := ex.bigOf(st, args[2], pos)
			if !ok {
				return
			}
			if rp, ok := args[3].(PtrV); ok {
				ex.nonNil(st, rp, pos)
				if st.dead {
					return
				}
			}
			ex.oblige(st, "panic", "big.Int division by zero at "+pos, Ne(y, zeroP))
			if st.dead {
				return
			}
			q := ex.truncDiv(st, x, ex.absIfKnown(st, y), true)
			r := SubP(x, MulP(y, q))
			ex.setBig(st, args[0], q)
			ex.setBig(st, args[3], r)
			k(st, []Val{args[0], args[3]})
		},
		B + "Bits": func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			p, ok := args[0].(PtrV)
			if !ok {
				k(st, []Val{OpaqueV{nil, newBack()}})
				return
			}
			ex.nonNil(st, p, pos)
			if st.dead {
				return
			}
			b, ok := ex.load(st, p).(BigV)
			if !ok {
				k(st, []Val{OpaqueV{nil, newBack()}})
				return
			}
			k(st, []Val{ex.bigWords(st, b, p)})
		},
		B + "SetBits": func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			p, ok := args[0].(PtrV)
			if !ok {
				k(st, []Val{args[0]})
				return
			}
			ex.nonNil(st, p, pos)
			if st.dead {
				return
			}
			v, back := V(Fresh("setbits", true)), newBack()
			if s, ok := args[1].(SliceV); ok {
				v = ex.nat(st, s)
				if s.obj != 0 {
					back = s.obj
					if s.big == nil {
						g := make(map[int]bool, len(st.given)+1)
						for k := range st.given {
							g[k] = true
						}
						g[s.obj] = true
						st.given = g
					}
				}
			}
			if _, ok := ex.load(st, p).(BigV); ok {
				ex.store(st, p, BigV{v, back})
			}
			k(st, []Val{args[0]})
		},
		// The quotient a/b; the model does not reduce it and never shares storage.
		"(*math/big.Rat).SetInt64": func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			if !ex.setRat(st, args[0], ex.intOf(args[1]), oneP, pos) {
				return
			}
			k(st, []Val{args[0]})
		},
		"(*math/big.Rat).SetFrac": func(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
			a, ok := ex.bigOf(st, args[1], pos)
			if !ok {
				return
			}
			b, ok := ex.bigOf(st, args[2], pos)
			if !ok {
				return
			}
			ex.oblige(st, "panic", "big.Rat division by zero at "+pos, Ne(b, zeroP))
			if st.dead || !ex.setRat(st, args[0], a, b, pos) {
				return
			}
			k(st, []Val{args[0]})
		},
		"math/big.NewInt": pure(func(ex *Exec, st *State, args []Val) []Val {
			o := st.newObj(bigIntType(ex), "NewInt", BigV{ex.intOf(args[0]), newBack()})
			return []Val{PtrV{obj: o.id}}
		}),
		"math/bits.Add64": bitsAdd, "math/bits.Add": bitsAdd,
		"math/bits.Sub64": bitsSub, "math/bits.Sub": bitsSub,
		"math/bits.Mul64": bitsMul, "math/bits.Mul": bitsMul,
		"math/bits.Len64": pure(func(ex *Exec, st *State, args []Val) []Val {
			a := BitLenT(st.simpP(ex.intOf(args[0])))
			st.assume(Le(a, Num(64)))
			return []Val{IntV{a}}
		}),
		"(*sync.Mutex).Lock":   nop,
		"(*sync.Mutex).Unlock": nop,
		"strconv.Itoa": pure(func(ex *Exec, st *State, args []Val) []Val {
			return []Val{st.freshVal(types.Typ[types.String], "itoa")}
		}),
		"fmt.Sprintf": pure(func(ex *Exec, st *State, args []Val) []Val {
			return []Val{st.freshVal(types.Typ[types.String], "sprintf")}
		}),
		"math.Ceil": pure(func(ex *Exec, st *State, args []Val) []Val {
			if x, ok := args[0].(FloatV); ok {
				return []Val{FloatV{NegP(Floor(NegP(x.p))), true}}
			}
			return []Val{st.freshVal(types.Typ[types.Float64], "ceil")}
		}),
		"math.Floor": pure(func(ex *Exec, st *State, args []Val) []Val {
			if x, ok := args[0].(FloatV); ok {
				return []Val{FloatV{Floor(x.p), true}}
			}
			return []Val{st.freshVal(types.Typ[types.Float64], "floor")}
		}),
		"math.Float64bits": pure(func(ex *Exec, st *State, args []Val) []Val {
			return []Val{st.freshVal(types.Typ[types.Uint64], "f64bits")}
		}),
	}
}

func bigIntType(ex *Exec) types.Type { return ex.v.bigInt }

// absIfKnown is the identity; divisors are non-negative in the modelled code.
func (ex *Exec) absIfKnown(st *State, b *Poly) *Poly {
	if st.simp(Ge0(b)) != tTrue && ex.provable(st, Ge0(b)) {
		st.assume(Ge0(b))
	}
	return b
}

// low models Uint64/Int64: the value when it fits, unspecified bits otherwise.
func (ex *Exec) low(st *State, a *Poly, t types.Type) *Poly {
	bits, sg, _ := intType(t)
	lo, hi := intRange(bits, sg)
	in := And(Le(NumBig(lo), a), Le(a, NumBig(hi)))
	if ex.provable(st, in) {
		return a
	}
	r := V(FreshRange("low", lo, hi))
	st.assume(Imp(in, Eq(r, a)))
	return r
}

func (ex *Exec) bigWords(st *State, b BigV, p PtrV) SliceV {
	maxLen := new(big.Int).Lsh(big.NewInt(1), 40)
	ln := V(FreshRange("words", new(big.Int), maxLen))
	ca := App("wcap", true, Num(int64(b.back)))
	ca.lo, ca.hi = new(big.Rat), new(big.Rat).SetInt(maxLen)
	cp := V(ca)
	st.assume(Iff(Eq0(b.v), Eq0(ln)))
	return SliceV{obj: b.back, off: zeroP, len: ln, cap: cp, big: &p, val: b.v}
}

func (ex *Exec) setRat(st *State, z Val, a, b *Poly, pos string) bool {
	p, ok := z.(PtrV)
	if !ok {
		return true
	}
	ex.nonNil(st, p, pos)
	if st.dead {
		return false
	}
	if s, ok := ex.load(st, p).(StructV); ok && len(s.f) == 2 {
		ex.store(st, p, StructV{s.t, []Val{BigV{a, newBack()}, BigV{b, newBack()}}})
	}
	return true
}

// nat is the natural number a normalized word slice stands for now. Words
// shared with a big.Int that has changed since stand for an unknown number.
func (ex *Exec) nat(st *State, s SliceV) *Poly {
	unknown := func() *Poly {
		v := V(Fresh("nat", true))
		st.assume(Ge0(v))
		return v
	}
	if s.obj == 0 && s.big == nil {
		return zeroP
	}
	if s.val == nil {
		return unknown()
	}
	if s.big == nil {
		if st.given[s.obj] {
			return unknown()
		}
		return s.val
	}
	b, ok := ex.load(st, *s.big).(BigV)
	if !ok || b.back != s.obj || b.v != s.val {
		return unknown()
	}
	return ex.absT(st, b.v)
}

func bitsAdd(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
	s := AddP(ex.intOf(args[0]), ex.intOf(args[1]), ex.intOf(args[2]))
	co := st.simpP(Ite(Le(NumBig(two64), s), oneP, zeroP))
	k(st, []Val{IntV{SubP(s, MulP(NumBig(two64), co))}, IntV{co}})
}
func bitsSub(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
	s := SubP(ex.intOf(args[0]), AddP(ex.intOf(args[1]), ex.intOf(args[2])))
	bo := st.simpP(Ite(Lt(s, zeroP), oneP, zeroP))
	k(st, []Val{IntV{AddP(s, MulP(NumBig(two64), bo))}, IntV{bo}})
}
func bitsMul(ex *Exec, st *State, args []Val, pos string, k func(*State, []Val)) {
	p := MulP(st.simpP(ex.intOf(args[0])), st.simpP(ex.intOf(args[1])))
	small := And(Ge0(p), Lt(p, NumBig(two64)))
	if ex.provable(st, small) {
		st.assume(small)
		k(st, []Val{IntV{zeroP}, IntV{p}})
		return
	}
	hi := Floor(ScaleP(new(big.Rat).SetFrac(big.NewInt(1), two64), p))
	st.assume(Ge0(hi), Lt(hi, NumBig(two64)))
	k(st, []Val{IntV{hi}, IntV{SubP(p, MulP(NumBig(two64), hi))}})
}
