package main

import (
	"go/types"
	"math/big"
	"sort"
)

// ---------------------------------------------------------------- values

type Val interface{}

type IntV struct{ p *Poly }
type BoolV struct{ f *Fm }
type BitsV struct{ b []*Fm }
type pathEl struct {
	field int
	idx   *Poly // non-nil: slice/array element
}
type PtrV struct {
	obj  int // 0 = nil
	path []pathEl
}
type StructV struct {
	t types.Type
	f []Val
}
type ArrayV struct {
	t types.Type
	e []Val
}
type BigV struct {
	v    *Poly
	back int // identity of the backing array; distinct ids do not share storage
}
type SliceV struct {
	t        types.Type
	obj      int // 0 = nil slice
	off      *Poly
	len, cap *Poly
	big      *PtrV // set for the result of (*big.Int).Bits
	val      *Poly // the natural number the words stand for, when known
}
type StrV struct {
	s     string
	known bool
	id    int
}
type IfaceV struct {
	t   types.Type // dynamic type, nil for nil interface
	v   Val
	unk bool
	id  int
}
type FuncV struct {
	fn   interface{} // *ssa.Function or *ssa.Builtin
	bind []Val
}
type OpaqueV struct {
	t  types.Type
	id int
}

// FloatV is a float64 known to be p, or (not whole) p up to one rounding.
type FloatV struct {
	p     *Poly
	whole bool
}
type TupleV struct{ e []Val }
type IterV struct{}

// ---------------------------------------------------------------- objects

type Obj struct {
	id    int
	t     types.Type
	name  string
	ro    bool // shared constant: must never be written
	entry bool // visible to the caller on entry
	elem  Val  // for abstract backing objects
}

type State struct {
	heap   map[int]Val
	objs   map[int]*Obj
	frames []*Frame
	facts  []*Fm
	known  map[*Fm]bool
	lo, hi map[*Atom]*big.Rat
	sub    map[*Atom]*Poly
	ints   []*Poly
	dead   bool
	trace  []string
	rw     *rewriter
	lin    map[*Poly]*big.Rat
	depth  int
	unmod  bool
	named  map[*Atom]*Atom
	given  map[int]bool // word arrays handed over to a big.Int
	bsub   map[*Atom]*Fm
}

func newState() *State {
	return &State{heap: map[int]Val{}, objs: map[int]*Obj{}, known: map[*Fm]bool{},
		lo: map[*Atom]*big.Rat{}, hi: map[*Atom]*big.Rat{}, sub: map[*Atom]*Poly{}}
}

func (s *State) clone() *State {
	t := &State{
		heap: make(map[int]Val, len(s.heap)+4), objs: make(map[int]*Obj, len(s.objs)+4),
		known: make(map[*Fm]bool, len(s.known)+4),
		lo:    make(map[*Atom]*big.Rat, len(s.lo)), hi: make(map[*Atom]*big.Rat, len(s.hi)),
		sub: make(map[*Atom]*Poly, len(s.sub)), dead: s.dead, depth: s.depth, unmod: s.unmod, given: s.given,
	}
	t.bsub = make(map[*Atom]*Fm, len(s.bsub))
	for k, v := range s.bsub {
		t.bsub[k] = v
	}
	if len(s.named) > 0 {
		t.named = make(map[*Atom]*Atom, len(s.named))
		for k, v := range s.named {
			t.named[k] = v
		}
	}
	for k, v := range s.heap {
		t.heap[k] = v
	}
	for k, v := range s.objs {
		t.objs[k] = v
	}
	for k, v := range s.known {
		t.known[k] = v
	}
	for k, v := range s.lo {
		t.lo[k] = v
	}
	for k, v := range s.hi {
		t.hi[k] = v
	}
	for k, v := range s.sub {
		t.sub[k] = v
	}
	t.facts = append([]*Fm(nil), s.facts...)
	t.ints = append([]*Poly(nil), s.ints...)
	t.trace = append([]string(nil), s.trace...)
	for _, f := range s.frames {
		t.frames = append(t.frames, f.clone())
	}
	return t
}

func (s *State) newObj(t types.Type, name string, v Val) *Obj {
	id := newID()
	o := &Obj{id: id, t: t, name: name}
	s.objs[id] = o
	s.heap[id] = v
	return o
}

func newBack() int {
	return newID()
}

// ---------------------------------------------------------------- facts

func (s *State) rewriter() *rewriter {
	if s.rw != nil {
		return s.rw
	}
	s.lin = nil
	r := newRewriter()
	r.atom = func(a *Atom) *Poly {
		if p, ok := s.sub[a]; ok {
			return p
		}
		return nil
	}
	r.ge = func(p *Poly) bool { return s.linBound(p) > 0 }
	r.fm = func(f *Fm) *Fm {
		if f.op == opVar {
			if g := s.bsub[f.a]; g != nil {
				return g
			}
		}
		if s.known[f] {
			return tTrue
		}
		if s.known[Not(f)] {
			return tFalse
		}
		switch f.op {
		case opGe:
			if b := s.linBound(f.p); b != 0 {
				return BoolConst(b > 0)
			}
			lo, hi := s.interval(f.p)
			if lo != nil && lo.Sign() >= 0 {
				return tTrue
			}
			if hi != nil && hi.Sign() < 0 {
				return tFalse
			}
		case opEq:
			if s.linBound(f.p) < 0 || s.linBound(NegP(f.p)) < 0 {
				return tFalse
			}
			lo, hi := s.interval(f.p)
			if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return tFalse
			}
		}
		return nil
	}
	s.rw = r
	return r
}

// linBound compares p with the facts over the same terms: +1 if they make it
// >= 0, -1 if they make it negative.
func (s *State) linBound(p *Poly) int {
	if s.lin == nil {
		s.lin = map[*Poly]*big.Rat{}
		for _, f := range s.facts {
			if f.op == opGe {
				l, c := f.p.split()
				if o := s.lin[l]; o == nil || c.Cmp(o) < 0 {
					s.lin[l] = c // l >= -c
				}
			}
		}
	}
	l, c := p.split()
	if l.IsZero() {
		return 0
	}
	if o := s.lin[l]; o != nil && c.Cmp(o) >= 0 {
		return 1
	}
	// -l >= -o, so l + c <= c + o
	if o := s.lin[NegP(l)]; o != nil && new(big.Rat).Add(c, o).Sign() < 0 {
		return -1
	}
	return 0
}

func (s *State) simp(f *Fm) *Fm      { return s.rewriter().Fm(f) }
func (s *State) simpP(p *Poly) *Poly { return s.rewriter().Poly(p) }

func (s *State) atomBounds(a *Atom) (lo, hi *big.Rat) {
	lo, hi = a.lo, a.hi
	if l := s.lo[a]; l != nil && (lo == nil || l.Cmp(lo) > 0) {
		lo = l
	}
	if h := s.hi[a]; h != nil && (hi == nil || h.Cmp(hi) < 0) {
		hi = h
	}
	if a.fn == "floor" && lo == nil {
		if l, _ := s.interval(a.args[0]); l != nil && l.Sign() >= 0 {
			lo = new(big.Rat)
		}
	}
	if a.fn == "idiv" && lo == nil {
		l1, _ := s.interval(a.args[0])
		l2, _ := s.interval(a.args[1])
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() > 0 {
			lo = new(big.Rat)
		}
	}
	if a.fn == "mod2" {
		lo, hi = new(big.Rat), ratOne
	}
	if a.fn == "ite" {
		l1, h1 := s.interval(a.args[0])
		l2, h2 := s.interval(a.args[1])
		if l1 != nil && l2 != nil {
			l := l1
			if l2.Cmp(l) < 0 {
				l = l2
			}
			if lo == nil || l.Cmp(lo) > 0 {
				lo = l
			}
		}
		if h1 != nil && h2 != nil {
			h := h1
			if h2.Cmp(h) > 0 {
				h = h2
			}
			if hi == nil || h.Cmp(hi) < 0 {
				hi = h
			}
		}
	}
	return
}

// interval evaluates p with the bounds known in s.
func (s *State) interval(p *Poly) (lo, hi *big.Rat) {
	lo, hi = new(big.Rat), new(big.Rat)
	for _, t := range p.ms {
		var l, h *big.Rat
		if t.m == unit {
			l, h = ratOne, ratOne
		} else {
			l, h = s.monoBounds(t.m)
		}
		if t.c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo = new(big.Rat).Add(lo, new(big.Rat).Mul(t.c, l))
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi = new(big.Rat).Add(hi, new(big.Rat).Mul(t.c, h))
			}
		}
	}
	return
}

func (s *State) monoBounds(m *mono) (lo, hi *big.Rat) {
	lo, hi = ratOne, ratOne
	for _, f := range m.fac {
		l, h := s.atomBounds(f.a)
		for i := 0; i < f.n; i++ {
			if l == nil || l.Sign() < 0 || lo == nil {
				if len(m.fac) == 1 && f.n == 1 && m.pe == nil {
					return l, h
				}
				return nil, nil
			}
			lo = new(big.Rat).Mul(lo, l)
			if hi == nil || h == nil {
				hi = nil
			} else {
				hi = new(big.Rat).Mul(hi, h)
			}
		}
	}
	if m.pe != nil {
		l, h := s.interval(m.pe)
		pl, ph := new(big.Rat), (*big.Rat)(nil)
		if l != nil && l.IsInt() && l.Num().IsInt64() {
			if k := l.Num().Int64(); k > -400 {
				if k > 400 {
					k = 400
				}
				pl = pow10Rat(k)
			}
		}
		if h != nil && h.IsInt() && h.Num().IsInt64() {
			if k := h.Num().Int64(); k < 400 {
				if k < -400 {
					k = -400
				}
				ph = pow10Rat(k)
			}
		}
		lo = new(big.Rat).Mul(lo, pl)
		if hi != nil && ph != nil {
			hi = new(big.Rat).Mul(hi, ph)
		} else {
			hi = nil
		}
	}
	return
}

func (s *State) addBound(f *Fm) {
	if f.op != opGe {
		return
	}
	// c*a + k >= 0
	var a *Atom
	var c *big.Rat
	k := new(big.Rat)
	for _, t := range f.p.ms {
		if t.m == unit {
			k = t.c
			continue
		}
		if a != nil || !t.m.linear() {
			return
		}
		a, c = t.m.fac[0].a, t.c
	}
	if a == nil {
		return
	}
	b := new(big.Rat).Quo(new(big.Rat).Neg(k), c)
	if c.Sign() > 0 {
		if o := s.lo[a]; o == nil || b.Cmp(o) > 0 {
			s.lo[a] = b
		}
	} else {
		if o := s.hi[a]; o == nil || b.Cmp(o) < 0 {
			s.hi[a] = b
		}
	}
}

// assume adds f to the path condition.
func (s *State) assume(fs ...*Fm) {
	work := append([]*Fm(nil), fs...)
	for len(work) > 0 && !s.dead {
		f := s.simp(work[0])
		work = work[1:]
		switch f.op {
		case opTrue:
			continue
		case opFalse:
			s.dead = true
			return
		case opAnd:
			work = append(append([]*Fm(nil), f.args...), work...)
			continue
		}
		// new fact
		changed := map[*Atom]bool{}
		if f.op == opEq {
			if a, p := solveEq(f.p); a != nil {
				// existing substitutions mention a?
				one := newRewriter()
				one.atom = func(b *Atom) *Poly {
					if b == a {
						return p
					}
					return nil
				}
				for k, v := range s.sub {
					s.sub[k] = one.Poly(v)
				}
				s.sub[a] = p
				if a.isInt && !p.isInt() {
					s.ints = append(s.ints, p)
				}
				for i, q := range s.ints {
					s.ints[i] = one.Poly(q)
				}
				if a.lo != nil {
					work = append(work, Le(NumRat(a.lo), p))
				}
				if a.hi != nil {
					work = append(work, Le(p, NumRat(a.hi)))
				}
				if l := s.lo[a]; l != nil {
					work = append(work, Le(NumRat(l), p))
				}
				if h := s.hi[a]; h != nil {
					work = append(work, Le(p, NumRat(h)))
				}
				changed[a] = true
			} else {
				s.facts = append(s.facts, f)
				s.known[f] = true
				changed = f.atomSet()
			}
		} else if a, g := solveIff(f); a != nil {
			one := newRewriter()
			one.fm = func(h *Fm) *Fm {
				if h.op == opVar && h.a == a {
					return g
				}
				return nil
			}
			for k, v := range s.bsub {
				s.bsub[k] = one.Fm(v)
			}
			if s.bsub == nil {
				s.bsub = map[*Atom]*Fm{}
			}
			s.bsub[a] = g
			changed[a] = true
		} else {
			s.facts = append(s.facts, f)
			s.known[f] = true
			s.addBound(f)
			changed = f.atomSet()
		}
		s.rw = nil
		// revisit facts that mention changed atoms
		var keep []*Fm
		for _, g := range s.facts {
			if g == f {
				keep = append(keep, g)
				continue
			}
			hit := false
			for a := range g.atomSet() {
				if changed[a] {
					hit = true
					break
				}
			}
			if !hit {
				keep = append(keep, g)
				continue
			}
			delete(s.known, g)
			s.rw = nil
			h := s.simp(g)
			if h == g {
				s.known[g] = true
				s.rw = nil
				keep = append(keep, g)
				continue
			}
			if h == tTrue && (g.op == opGe) {
				// implied by bounds only: keep for the solver (bounds may come from it)
				s.known[g] = true
				s.rw = nil
				keep = append(keep, g)
				continue
			}
			work = append(work, h)
		}
		s.facts = keep
		s.rw = nil
	}
}

// solveIff picks a boolean variable defined by an equivalence.
func solveIff(f *Fm) (*Atom, *Fm) {
	neg := false
	if f.op == opNot {
		f, neg = f.args[0], true
	}
	if f.op != opIff {
		return nil, nil
	}
	var best *Atom
	var def *Fm
	for i, x := range f.args {
		n := neg
		if x.op == opNot {
			x, n = x.args[0], !n
		}
		y := f.args[1-i]
		if x.op != opVar || y.atomSet()[x.a] || best != nil && best.id > x.a.id {
			continue
		}
		best, def = x.a, y
		if n {
			def = Not(y)
		}
	}
	return best, def
}

// solveEq picks a variable to eliminate from p == 0.
func solveEq(p *Poly) (*Atom, *Poly) {
	type c struct {
		a *Atom
		t mterm
	}
	var cs []c
	for _, t := range p.ms {
		if t.m == unit || !t.m.linear() {
			continue
		}
		a := t.m.fac[0].a
		if a.fn != "" || a.isBool {
			continue
		}
		if a.isInt && new(big.Rat).Abs(t.c).Cmp(ratOne) != 0 {
			continue
		}
		cs = append(cs, c{a, t})
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].a.id > cs[j].a.id })
	for _, x := range cs {
		rest := SubP(p, mkPoly([]mterm{x.t}))
		set := map[*Atom]bool{}
		rest.atomsInto(set)
		if set[x.a] {
			continue
		}
		return x.a, ScaleP(new(big.Rat).Neg(new(big.Rat).Inv(x.t.c)), rest)
	}
	return nil, nil
}

// nameIte introduces a variable for an undecided conditional value.
func (s *State) nameIte(p *Poly) *Poly {
	if len(p.ms) != 1 || !p.ms[0].m.linear() || p.ms[0].c.Cmp(ratOne) != 0 {
		return p
	}
	a := p.ms[0].m.fac[0].a
	if a.fn != "ite" {
		return p
	}
	if n, ok := s.named[a]; ok {
		return s.simpP(V(n))
	}
	n := Fresh("val", a.isInt)
	if lo, hi := s.atomBounds(a); lo != nil || hi != nil {
		n.lo, n.hi = lo, hi
	}
	if s.named == nil {
		s.named = map[*Atom]*Atom{}
	}
	s.named[a] = n
	s.assume(Imp(a.cond, Eq(V(n), a.args[0])), Imp(Not(a.cond), Eq(V(n), a.args[1])))
	return s.simpP(V(n))
}

// boundFacts returns the numeric bounds as formulas for the solver.
func (s *State) allFacts() []*Fm {
	return append([]*Fm(nil), s.facts...)
}

// query builds a proof obligation in this state.
func (s *State) query(name string, goal *Fm) *Query {
	return &Query{Name: name, Facts: s.allFacts(), Ints: append([]*Poly(nil), s.ints...), Goal: s.simp(goal)}
}
