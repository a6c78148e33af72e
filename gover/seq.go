package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// SeqV is the contents of a word array: a base sequence of unknown (or zero)
// elements, overridden by point updates and by prefix replacements.
type SeqV struct {
	el   types.Type
	base int // 0: all zero
	upd  []seqUpd
}

type seqUpd struct {
	idx  *Poly // point update
	v    *Poly
	from *Poly // range replacement [from, to) by the base sequence rep
	to   *Poly
	rep  int
}

func newSeq(el types.Type) *SeqV { return &SeqV{el: el, base: newBack()} }

func (q *SeqV) elem(base int, i *Poly) *Poly {
	if base == 0 {
		return zeroP
	}
	bits, sg, _ := intType(q.el)
	lo, hi := intRange(bits, sg)
	a := App(fmt.Sprintf("w%d", base), true, i)
	a.lo, a.hi = new(big.Rat).SetInt(lo), new(big.Rat).SetInt(hi)
	return V(a)
}

func (q *SeqV) read(ex *Exec, st *State, i *Poly) *Poly {
	i = st.simpP(i)
	type cnd struct {
		c *Fm
		v *Poly
	}
	var cs []cnd
	out := (*Poly)(nil)
	for k := len(q.upd) - 1; k >= 0 && out == nil; k-- {
		u := q.upd[k]
		var c *Fm
		var v *Poly
		if u.idx != nil {
			c, v = st.simp(Eq(i, u.idx)), u.v
		} else {
			c, v = st.simp(And(Le(u.from, i), Lt(i, u.to))), q.elem(u.rep, i)
		}
		switch {
		case c == tTrue:
			out = v
		case c == tFalse:
		default:
			if ex.provable(st, c) {
				out = v
			} else if !ex.provable(st, Not(c)) {
				cs = append(cs, cnd{c, v})
			}
		}
	}
	if out == nil {
		out = q.elem(q.base, i)
	}
	for k := len(cs) - 1; k >= 0; k-- {
		out = Ite(cs[k].c, cs[k].v, out)
	}
	return out
}

func (q *SeqV) write(ex *Exec, st *State, i, v *Poly) *SeqV {
	return &SeqV{q.el, q.base, append(q.upd[:len(q.upd):len(q.upd)], seqUpd{idx: st.simpP(i), v: v})}
}

func (q *SeqV) replace(from, to *Poly, rep int) *SeqV {
	return &SeqV{q.el, q.base, append(q.upd[:len(q.upd):len(q.upd)], seqUpd{from: from, to: to, rep: rep})}
}

// powW is (2^64)^n.
func powW(n *Poly) *Poly {
	if c, ok := n.ConstInt(); ok && c.Sign() >= 0 && c.Cmp(big.NewInt(64)) < 0 {
		return NumBig(new(big.Int).Lsh(big.NewInt(1), uint(64*c.Int64())))
	}
	// split a constant part: W(n+k) = W(n)*2^(64k)
	k := n.constPart()
	if k.Sign() > 0 && k.IsInt() && k.Num().Cmp(big.NewInt(64)) < 0 {
		rest := SubP(n, NumRat(k))
		return MulP(V(App("W", true, rest)), NumBig(new(big.Int).Lsh(big.NewInt(1), uint(64*k.Num().Int64()))))
	}
	return V(App("W", true, n))
}
