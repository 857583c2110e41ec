package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kindUnit: every message kind and item kind travels under one number of its
// own and is received as that kind, each time in an object of its own
func (p *Program) kindUnit(rep *Report) {
	add := func(what, pos, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: "kinds", What: what, Pos: pos, Status: status, Detail: cut(detail, 400)})
	}
	decide := func(what, pos string, c *BDD, detail string) {
		switch c {
		case bddTrue:
			add(what, pos, stProved, "")
		case bddFalse:
			add(what, pos, stViolated, detail)
		default:
			if k, w := refuteCond(c, bddTrue); k == refWitness {
				add(what, pos, stViolated, detail+" ("+w+")")
			} else {
				add(what, pos, stUnresolved, detail)
			}
		}
	}
	for _, reg := range []struct {
		pk      *ssa.Package
		id      string
		methods []string
		digits  int
	}{{p.proto, "MsgID", []string{"MsgID", "Encode", "Decode"}, 4}, {p.extra, "ID", []string{"ID", "Data", "Decode"}, 2}} {
		entries := p.registry(reg.pk, "entityMapper")
		byType := map[*types.Named]bool{}
		for _, e := range entries {
			name := fmt.Sprintf("%s 0x%0*x", reg.pk.Pkg.Name(), reg.digits, e.key)
			if e.typ == nil || e.creator == nil || e.problem != "" {
				add(name+" constructor", e.pos, stUnresolved, "constructor not understood "+e.problem)
				continue
			}
			byType[e.typ] = true
			rep.Funcs = append(rep.Funcs, e.creator.String())
			in := newInterp(p)
			st := newState()
			// the number of what the constructor makes, whatever it holds
			if f := p.methodOf(e.typ, reg.id); f != nil {
				rep.Funcs = append(rep.Funcs, f.String())
				o := getObj("message", e.typ)
				st.heap[o] = in.fromAtom(mkSym("message"), e.typ)
				r := in.call(st, f, []*T{mkPtr(o)}, nil, nil, nil)
				if r != nil {
					r = assume(r, st.pc)
				}
				if r == nil || st.pc != bddTrue {
					add(name+" number", e.pos, stUnresolved, "the number is not understood")
				} else {
					decide(name+" number", e.pos, eqTerm(r, mkInt(e.key)), fmt.Sprintf("a %s is received under 0x%0*x but names itself %s", e.typ.Obj().Name(), reg.digits, e.key, r))
				}
			}
			if n, ok := nameNumber(e.typ.Obj().Name(), reg.digits); ok {
				decide(name+" type", e.pos, bddConst(n == e.key), fmt.Sprintf("what arrives under 0x%0*x is read as a %s", reg.digits, e.key, e.typ.Obj().Name()))
			}
			if why := shared(e.creator, map[*ssa.Function]bool{}); why != "" {
				add(name+" own object", e.pos, stViolated, "received messages share one object: the constructor returns "+why)
			} else {
				add(name+" own object", e.pos, stProved, "")
			}
		}
		if len(entries) == 0 {
			continue
		}
		made := map[*types.Named]bool{}
		for _, fn := range p.allFns {
			if fn.Pkg != reg.pk {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mi, ok := ins.(*ssa.MakeInterface); ok {
						t := mi.X.Type()
						if pt, ok := t.(*types.Pointer); ok {
							t = pt.Elem()
						}
						if n, ok := t.(*types.Named); ok {
							made[n] = true
						}
					}
				}
			}
		}
		for _, m := range sortedMembers(reg.pk) {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			if _, ok := nameNumber(n.Obj().Name(), reg.digits); !ok {
				continue
			}
			all := true
			for _, x := range reg.methods {
				all = all && p.methodOf(n, x) != nil
			}
			if all && !byType[n] && made[n] {
				add(n.Obj().Name()+" registered", p.pos(n.Obj().Pos()), stUnresolved, "made somewhere the registry's entries do not show")
			} else if all {
				decide(n.Obj().Name()+" registered", p.pos(n.Obj().Pos()), bddConst(byType[n]), "a message of this kind cannot be received: no number leads to it")
			}
		}
	}
}

// nameNumber: the number a type is named after
func nameNumber(name string, digits int) (int64, bool) {
	i := strings.LastIndex(name, "_0x")
	if i < 0 || len(name) != i+3+digits {
		return 0, false
	}
	v, err := strconv.ParseInt(name[i+3:], 16, 64)
	return v, err == nil
}

// shared: what a constructor returns when it is not an object made by the call
func shared(f *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[f] {
		return ""
	}
	seen[f] = true
	var of func(v ssa.Value, d int) string
	of = func(v ssa.Value, d int) string {
		if d > 20 {
			return ""
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return of(x.X, d+1)
		case *ssa.ChangeInterface:
			return of(x.X, d+1)
		case *ssa.ChangeType:
			return of(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v {
					if s := of(e, d+1); s != "" {
						return s
					}
				}
			}
		case *ssa.Global:
			return "the package variable " + x.Name()
		case *ssa.FreeVar:
			return "the captured variable " + x.Name()
		case *ssa.UnOp:
			switch y := x.X.(type) {
			case *ssa.Global:
				return "the package variable " + y.Name()
			case *ssa.FreeVar:
				return "the captured variable " + y.Name()
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && isRepoFn(g) {
				return shared(g, seen)
			}
		}
		return ""
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok && len(r.Results) > 0 {
				if s := of(r.Results[0], 0); s != "" {
					return s
				}
			}
		}
	}
	return ""
}
