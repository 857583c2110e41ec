package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- maps with known history

// mapGet resolves a lookup in a map built from scratch by known updates
func mapGet(mv, k, zv *T) (v *T, has *BDD, ok bool) {
	switch {
	case mv.k == KSym && mv.op == "emptymap":
		return zv, bddFalse, true
	case mv.isOp("mapput"):
		e := eqTerm(mv.a[1], k)
		if e == bddTrue {
			return mv.a[2], bddTrue, true
		}
		rv, rh, ok := mapGet(mv.a[0], k, zv)
		if !ok {
			return nil, nil, false
		}
		if e == bddFalse {
			return rv, rh, true
		}
		return ite(e, mv.a[2], rv), bddOr(e, rh), true
	case mv.isOp("mapdel"):
		e := eqTerm(mv.a[1], k)
		if e == bddTrue {
			return zv, bddFalse, true
		}
		rv, rh, ok := mapGet(mv.a[0], k, zv)
		if !ok {
			return nil, nil, false
		}
		if e == bddFalse {
			return rv, rh, true
		}
		return ite(e, zv, rv), bddAnd(bddNot(e), rh), true
	case mv.k == KIte:
		av, ah, aok := mapGet(mv.a[1], k, zv)
		bv, bh, bok := mapGet(mv.a[2], k, zv)
		if !aok || !bok {
			return nil, nil, false
		}
		c := mv.a[0].b
		return ite(c, av, bv), bddIte(c, ah, bh), true
	}
	return nil, nil, false
}

type mapEntry struct{ k, v *T }

// mapEntries lists a map all of whose keys are known apart, oldest first
func mapEntries(mv *T) ([]mapEntry, bool) {
	switch {
	case mv.k == KSym && mv.op == "emptymap":
		return nil, true
	case mv.isOp("mapput"), mv.isOp("mapdel"):
		es, ok := mapEntries(mv.a[0])
		if !ok {
			return nil, false
		}
		var out []mapEntry
		put := mv.isOp("mapput")
		done := false
		for _, e := range es {
			switch eqTerm(e.k, mv.a[1]) {
			case bddTrue:
				if put {
					out = append(out, mapEntry{e.k, mv.a[2]})
					done = true
				}
			case bddFalse:
				out = append(out, e)
			default:
				return nil, false
			}
		}
		if put && !done {
			out = append(out, mapEntry{mv.a[1], mv.a[2]})
		}
		return out, true
	}
	return nil, false
}

// rangeMap starts an iteration over a map with known entries
func (in *Interp) rangeMap(fr *Frame, st *State, x *ssa.Range, m *T) *T {
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok || m.k != KPtr {
		return nil
	}
	mv := assume(in.objContent(st, m.obj), st.pc)
	if _, ok := mapEntries(mv); !ok {
		return nil
	}
	o := getObj(in.freshKey(fr, x, "range"), nil)
	st.heap[o] = mkStruct(mkInt(0), mv)
	return mkOp("maprange", mkPtr(o))
}

func (in *Interp) nextMap(st *State, x *ssa.Next, it *T) *T {
	if !it.isOp("maprange") {
		return nil
	}
	o := it.a[0].obj
	s := assume(st.heap[o], st.pc)
	if s.k != KStruct || s.a[0].k != KConst {
		return nil
	}
	es, ok := mapEntries(s.a[1])
	if !ok {
		return nil
	}
	tt := x.Type().(*types.Tuple)
	i := s.a[0].i
	if int(i) >= len(es) {
		var f []*T
		for j := 0; j < tt.Len(); j++ {
			if j == 0 {
				f = append(f, mkBool(false))
			} else {
				f = append(f, zeroOr(tt.At(j).Type()))
			}
		}
		return mkTuple(f...)
	}
	st.heap[o] = mkStruct(mkInt(i+1), s.a[1])
	return mkTuple(mkBool(true), es[i].k, es[i].v)
}

func zeroOr(t types.Type) *T {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tNil
	}
	return zero(t)
}
