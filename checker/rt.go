package main

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type rtResult struct {
	named   *types.Named
	orig    *T // symbolic entity content before Encode
	post    *T // entity content after Encode
	wire    *T
	encErr  *BDD // Encode fails
	decErr  *T
	decoded *T
	count   *T
	pc      *BDD
	st      *State
	in      *Interp
	est     *State
	ost     *State // the original entity, before Encode
}

func (p *Program) methodOf(n *types.Named, name string) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// texts that the protocol carries as BCD digits
var digitFields = map[string]bool{"T808_0x0107.Sim": true}

// roundTripEnc interprets the encoder of a message over a symbolic value
func (p *Program) roundTripEnc(n *types.Named) *rtResult {
	rtMode = true
	in := newInterp(p)
	in.rt = true
	in.rtName = n.Obj().Name()
	in.nilPolicy = func(base *T, typ types.Type) bool {
		_, isPtr := typ.Underlying().(*types.Pointer)
		return isPtr
	}
	enc := p.methodOf(n, "Encode")
	e := mkSym("e")
	st := newState()
	o := getObj("entity:"+n.Obj().Name(), n)
	o.input = true
	orig := in.fromAtom(e, n)
	st.heap[o] = orig
	r := in.call(st, enc, []*T{mkPtr(o)}, nil, nil, nil)
	res := &rtResult{named: n, orig: orig, in: in}
	ok := isNil(in.component(r, 1, nil))
	res.encErr = bddNot(ok)
	res.post = st.heap[o]
	res.est = st
	res.ost = newState()
	res.ost.heap[o] = orig
	st.pc = xall(bddAnd(st.pc, ok))
	w := assume(in.content(st, in.component(r, 0, nil)), st.pc)
	res.wire = w
	return res
}

func (p *Program) roundTrip(n *types.Named, decName string) *rtResult {
	res := p.roundTripEnc(n)
	in, st, w := res.in, res.est, res.wire
	decf := p.methodOf(n, decName)
	d := getObj("decoded:"+n.Obj().Name(), n)
	st2 := st.clone()
	st2.trace = seqEmpty
	st2.heap[d] = zero(n)
	wo := getObj("wire:"+n.Obj().Name(), types.NewSlice(types.Typ[types.Byte]))
	st2.heap[wo] = w
	data := mkSlice(mkPtr(wo), mkInt(0), seqLen(w), seqLen(w))
	in.obligs, in.obKey = nil, map[string]*Oblig{}
	r2 := in.call(st2, decf, []*T{mkPtr(d), data}, nil, nil, nil)
	if decName == "DecodePacket" {
		res.decErr = r2
	} else {
		res.count = in.component(r2, 0, types.Typ[types.Int])
		res.decErr = in.component(r2, 1, nil)
	}
	res.decoded = st2.heap[d]
	res.pc = st2.pc
	res.st = st2
	return res
}

func debugRT(P *Program, names []string) {
	reg := P.registry(P.proto, "entityMapper")
	for _, e := range reg {
		if e.typ == nil {
			fmt.Println("no type", e.key)
			continue
		}
		if len(names) > 0 && names[0] != "all" {
			f := false
			for _, x := range names {
				if e.typ.Obj().Name() == x {
					f = true
				}
			}
			if !f {
				continue
			}
		}
		fmt.Printf("=== %04x %s\n", e.key, e.typ.Obj().Name())
		t0 := time.Now()
		defer func() { fmt.Println("  time", time.Since(t0)) }()
		dn := "Decode"
		if P.methodOf(e.typ, "DecodePacket") != nil {
			dn = "DecodePacket"
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if names[0] != "all" {
						panic(x)
					}
					fmt.Println("PANIC", x)
				}
			}()
			r := P.roundTrip(e.typ, dn)
			fmt.Println(" wire:", r.wire)
			fmt.Println(" encErr:", mkB(r.encErr))
			fmt.Println(" decErr:", r.decErr)
			okc := isNil(r.decErr)
			fmt.Println(" decOK:", mkB(okc))
			dv := assume(r.decoded, bddAnd(r.pc, okc))
			st := e.typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := dv
				if dv.k == KStruct {
					f = dv.a[i]
				}
				mark := "  "
				if f == r.orig.a[i] {
					mark = "= "
				}
				fmt.Printf("  %s%s: %v", mark, st.Field(i).Name(), f)
				if f.k == KSlice {
					fmt.Printf("   content %v", r.in.content(r.st, f))
				}
				fmt.Println()
			}
			if r.count != nil {
				fmt.Println("  count:", assume(r.count, bddAnd(r.pc, okc)), " of ", seqLen(r.wire))
			}
			var ns []string
			for n := range r.in.notes {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				fmt.Println("  note:", n)
			}
			for _, o := range r.in.obligs {
				if !o.ok {
					fmt.Println("  oblig:", P.pos(o.pos), o.kind, o.detail)
				}
			}
		}()
	}
}
