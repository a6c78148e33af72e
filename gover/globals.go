package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type globalInfo struct {
	written map[*ssa.Global]bool // stored to outside package initialisation
	init    map[*ssa.Global]map[int64]*ssa.Const
	newInt  map[*ssa.Global]*ssa.Const // *big.Int globals made by big.NewInt(const)
}

func baseGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Program) scanGlobals() *globalInfo {
	g := &globalInfo{written: map[*ssa.Global]bool{}, init: map[*ssa.Global]map[int64]*ssa.Const{}, newInt: map[*ssa.Global]*ssa.Const{}}
	var visit func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		lits := map[*ssa.Alloc]map[int64]*ssa.Const{} // composite literals under construction
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				gl := baseGlobal(s.Addr)
				if gl == nil {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isInit {
						if al, ok := ia.X.(*ssa.Alloc); ok {
							if lits[al] == nil {
								lits[al] = map[int64]*ssa.Const{}
							}
							i, ok1 := ia.Index.(*ssa.Const)
							c, ok2 := s.Val.(*ssa.Const)
							if ok1 && ok2 {
								lits[al][i.Int64()] = c
							} else {
								lits[al][-1] = nil
							}
						}
					}
					continue
				}
				if u, ok := s.Val.(*ssa.UnOp); ok && isInit && s.Addr == ssa.Value(gl) {
					if al, ok := u.X.(*ssa.Alloc); ok && lits[al] != nil {
						if _, bad := lits[al][-1]; !bad {
							g.init[gl] = lits[al]
						}
					}
				}
				if !isInit {
					g.written[gl] = true
					continue
				}
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
					i, ok1 := ia.Index.(*ssa.Const)
					c, ok2 := s.Val.(*ssa.Const)
					if ok1 && ok2 {
						if g.init[gl] == nil {
							g.init[gl] = map[int64]*ssa.Const{}
						}
						g.init[gl][i.Int64()] = c
					}
				}
				if call, ok := s.Val.(*ssa.Call); ok && s.Addr == ssa.Value(gl) {
					if f := call.Call.StaticCallee(); f != nil && f.String() == "math/big.NewInt" {
						if c, ok := call.Call.Args[0].(*ssa.Const); ok {
							g.newInt[gl] = c
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				visit(f)
			}
		}
	}
	for _, f := range p.funcs {
		visit(f)
	}
	return g
}

// globalObj returns the object id of a package variable, creating its contents
// in st on first use.
func (v *Verifier) globalObj(st *State, g *ssa.Global) int {
	v.mu.Lock()
	id, ok := v.gids[g]
	if !ok {
		id = newID()
		v.gids[g] = id
	}
	v.mu.Unlock()
	if _, ok := st.heap[id]; ok {
		return id
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := &Obj{id: id, t: t, name: g.Name()}
	st.objs[id] = o
	gi := v.p.gl
	if !gi.written[g] {
		if c := gi.newInt[g]; c != nil {
			v.mu.Lock()
			tid, ok := v.gids2()[g]
			if !ok {
				tid = newID()
				v.gids2()[g] = tid
			}
			v.mu.Unlock()
			st.objs[tid] = &Obj{id: tid, t: v.bigInt, name: g.Name(), ro: true}
			st.heap[tid] = BigV{st.constVal(c).(IntV).p, tid}
			st.heap[id] = PtrV{obj: tid}
			o.ro = true
			return id
		}
		if m := gi.init[g]; m != nil {
			if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 64 {
				av := st.zeroVal(t).(ArrayV)
				for i, c := range m {
					av.e[i] = st.constVal(c)
				}
				st.heap[id] = av
				o.ro = true
				return id
			}
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && derefs(t) && !gi.written[g] {
		v.mu.Lock()
		tid, ok := v.gids2()[g]
		if !ok {
			tid = newID()
			v.gids2()[g] = tid
		}
		v.mu.Unlock()
		st.objs[tid] = &Obj{id: tid, t: p.Elem(), name: g.Name(), ro: true}
		st.heap[tid] = st.freshVal(p.Elem(), g.Name())
		st.heap[id] = PtrV{obj: tid}
		o.ro = true
		return id
	}
	st.heap[id] = st.freshVal(t, g.Name())
	return id
}

var gids2m = map[*ssa.Global]int{}

func (v *Verifier) gids2() map[*ssa.Global]int { return gids2m }
