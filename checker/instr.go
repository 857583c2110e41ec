package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) instr(fr *Frame, st *State, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := getObj(in.freshKey(fr, x, "alloc"), derefT(x.Type()))
		if len(in.loops) > 0 {
			o.loop = in.loops[len(in.loops)-1]
		} else {
			o.loop = nil
		}
		o.site = fr.fn.String() + ":" + x.Comment
		st.heap[o] = zero(o.typ)
		fr.env[x] = mkPtr(o)
	case *ssa.BinOp:
		fr.env[x] = in.binop(fr, st, x)
	case *ssa.UnOp:
		fr.env[x] = in.unop(fr, st, x)
	case *ssa.ChangeInterface:
		fr.env[x] = in.val(fr, st, x.X)
	case *ssa.ChangeType:
		fr.env[x] = in.val(fr, st, x.X)
	case *ssa.Convert:
		fr.env[x] = in.convert(fr, st, x, in.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = in.convert(fr, st, x, in.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := in.val(fr, st, x.Tuple)
		fr.env[x] = in.component(t, x.Index, x.Type())
	case *ssa.Field:
		fr.env[x] = in.field(in.val(fr, st, x.X), x.Field, x.X.Type())
	case *ssa.FieldAddr:
		p := in.val(fr, st, x.X)
		in.nilCheck(fr, st, x, p)
		fr.env[x] = in.fieldAddr(p, x.Field, derefT(x.X.Type()))
	case *ssa.Index:
		s := in.val(fr, st, x.X)
		i := in.val(fr, st, x.Index)
		if isStringT(x.X.Type()) {
			in.bounds(fr, st, x, i, in.sliceLen(s))
			fr.env[x] = in.elemAt(st, s, i, x.Type())
		} else {
			n := x.X.Type().Underlying().(*types.Array).Len()
			in.bounds(fr, st, x, i, mkInt(n))
			fr.env[x] = in.elemAt(st, s, i, x.Type())
		}
	case *ssa.IndexAddr:
		fr.env[x] = in.indexAddr(fr, st, x, in.val(fr, st, x.X), in.val(fr, st, x.Index))
	case *ssa.Lookup:
		fr.env[x] = in.lookup(fr, st, x)
	case *ssa.MakeClosure:
		var b []*T
		for _, v := range x.Bindings {
			b = append(b, in.val(fr, st, v))
		}
		fr.env[x] = mkFn(x.Fn.(*ssa.Function), b...)
	case *ssa.MakeInterface:
		fr.env[x] = mkIface(x.X.Type(), in.val(fr, st, x.X))
	case *ssa.MakeMap:
		o := getObj(in.freshKey(fr, x, "map"), x.Type())
		o.kind = "map"
		st.heap[o] = mkSym("emptymap")
		fr.env[x] = mkPtr(o)
	case *ssa.MakeChan:
		fr.env[x] = mkOp("nonnil", mkSym(in.freshKey(fr, x, "chan")))
	case *ssa.MakeSlice:
		n := in.val(fr, st, x.Len)
		c := in.val(fr, st, x.Cap)
		in.obligC(fr, st, x, "makeslice", proveNonNeg(n, xpc(st.pc)) && proveLe0(sub(n, c), xpc(st.pc)), bddAnd(le0(neg(n)), le(n, c)), "make length "+n.String()+" cap "+c.String())
		if in.allocHook != nil && in.quiet == 0 {
			in.allocHook(in, st, x, c)
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		v := in.newSeqSlice(in.freshKey(fr, x, "make"), repConst(zero(et), n), x.Type(), st)
		if n == c {
			v = mkSlice(v.a[0], v.a[1], v.a[2], c)
		}
		fr.env[x] = v
	case *ssa.Slice:
		fr.env[x] = in.slice(fr, st, x)
	case *ssa.SliceToArrayPointer:
		s := in.val(fr, st, x.X)
		n := derefT(x.Type()).Underlying().(*types.Array).Len()
		in.obligC(fr, st, x, "slice2array", proveLe0(sub(mkInt(n), in.sliceLen(s)), xpc(st.pc)), le(mkInt(n), in.sliceLen(s)), "slice too short for array conversion")
		fr.env[x] = mkOp("arrptr", s)
	case *ssa.Store:
		p := in.val(fr, st, x.Addr)
		in.nilCheck(fr, st, x, p)
		v := in.val(fr, st, x.Val)
		if in.storeHook != nil && in.quiet == 0 {
			in.storeHook(in, st, x, p, v)
		}
		if in.memHook != nil && in.quiet == 0 {
			in.memHook(in, st, x, p)
		}
		in.store(st, p, v, derefT(x.Addr.Type()))
	case *ssa.MapUpdate:
		m := in.val(fr, st, x.Map)
		in.obligC(fr, st, x, "nilmap", in.decide(isNil(m), st) == bddFalse || !isNilable(m), bddNot(isNil(m)), "write to a map that may be nil")
		k, v := in.val(fr, st, x.Key), in.val(fr, st, x.Value)
		in.event(fr, st, x, "mapset", m, k, v)
		if m.k == KPtr {
			st.heap[m.obj] = mkOp("mapput", in.objContent(st, m.obj), k, v)
		}
	case *ssa.TypeAssert:
		fr.env[x] = in.typeAssert(fr, st, x)
	case *ssa.Range:
		m := in.val(fr, st, x.X)
		if v := in.rangeMap(fr, st, x, m); in.exactMaps && v != nil {
			fr.env[x] = v
			break
		}
		fr.env[x] = mkOp("range", m)
	case *ssa.Next:
		it := in.val(fr, st, x.Iter)
		if v := in.nextMap(st, x, it); v != nil {
			fr.env[x] = v
			break
		}
		op := mkOp("next:"+in.freshKey(fr, x, ""), append([]*T{it}, in.ks()...)...)
		fr.env[x] = in.fromAtom(op, x.Type())
	case *ssa.Defer:
		var args []*T
		for _, a := range x.Call.Args {
			args = append(args, in.val(fr, st, a))
		}
		fr.defers = append(fr.defers, deferred{cond: st.pc, call: x, args: args, fnv: in.val(fr, st, x.Call.Value)})
	case *ssa.RunDefers:
		ds := fr.defers
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			dup := false
			for j := i + 1; j < len(ds); j++ {
				if ds[j].call == d.call {
					dup = true
				}
			}
			if dup {
				continue
			}
			c := in.decide(bddConstrain(d.cond, st.pc), st)
			if c == bddFalse {
				continue
			}
			if c == bddTrue {
				in.doCall(fr, st, d.call, d.call.Common(), d.fnv, d.args)
				continue
			}
			in.fork(st, c, func(s *State) *T { in.doCall(fr, s, d.call, d.call.Common(), d.fnv, d.args); return nil },
				func(s *State) *T { return nil })
		}
	case *ssa.Go:
		var args []*T
		for _, a := range x.Call.Args {
			args = append(args, in.val(fr, st, a))
		}
		in.event(fr, st, x, "go", append([]*T{in.val(fr, st, x.Call.Value)}, args...)...)
		if in.goHook != nil {
			in.goHook(in, st, x, in.val(fr, st, x.Call.Value), args)
		}
	case *ssa.Send:
		if in.blockHook != nil {
			in.blockHook(in, st, x)
		}
		in.event(fr, st, x, "send", in.val(fr, st, x.Chan))
	case *ssa.Select:
		if in.blockHook != nil && x.Blocking {
			in.blockHook(in, st, x)
		}
		in.event(fr, st, x, "select")
		op := mkOp("select:"+in.freshKey(fr, x, ""), in.ks()...)
		v := in.fromAtom(op, x.Type())
		if v.k == KTuple && len(v.a) > 0 {
			v.a[0].setRange(0, true, int64(len(x.States)-1), true)
			if !x.Blocking {
				v.a[0].setRange(-1, true, int64(len(x.States)-1), true)
			}
			if x.Blocking && len(x.States) == 1 {
				f := append([]*T(nil), v.a...)
				f[0] = mkInt(0)
				v = mkTuple(f...)
			}
			if in.recvVal != nil {
				f := append([]*T(nil), v.a...)
				k := 2
				for _, s := range x.States {
					if s.Dir != types.RecvOnly {
						continue
					}
					if ct, ok := s.Chan.Type().Underlying().(*types.Chan); ok && k < len(f) {
						if g := in.recvVal(st, ct.Elem()); g != nil {
							f[k] = g
							if len(x.States) == 1 {
								f[1] = mkBool(true)
							}
						}
					}
					k++
				}
				v = mkTuple(f...)
			}
		}
		fr.env[x] = v
	case *ssa.Call:
		var args []*T
		for _, a := range x.Call.Args {
			args = append(args, in.val(fr, st, a))
		}
		r := in.doCall(fr, st, x, x.Common(), in.val(fr, st, x.Call.Value), args)
		fr.env[x] = r
	default:
		in.note("unhandled instruction %T in %s", ins, fr.fn)
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = in.fromAtom(mkOp("opaque:"+in.freshKey(fr, ins, ""), in.ks()...), v.Type())
		}
	}
}

func isNilable(t *T) bool { return t.k == KNil || t.k == KIte }

func (in *Interp) component(t *T, i int, typ types.Type) *T {
	switch t.k {
	case KTuple:
		return t.a[i]
	case KIte:
		return ite(t.a[0].b, in.component(t.a[1], i, typ), in.component(t.a[2], i, typ))
	}
	return in.fromAtom(mkOp(fmt.Sprintf("res%d", i), t), typ)
}

func (in *Interp) nilCheck(fr *Frame, st *State, ins ssa.Instruction, p *T) {
	switch p.k {
	case KPtr:
		return
	case KNil:
		in.oblig(fr, st, ins, "nilderef", false, "nil pointer dereference")
		return
	case KIte:
		c := in.decide(isNil(p), st)
		in.obligC(fr, st, ins, "nilderef", c == bddFalse, bddNot(c), "pointer may be nil when "+mkB(bddConstrain(c, bddTrue)).String())
		if c != bddFalse && c != bddTrue {
			st.pc = bddAnd(st.pc, bddNot(c)) // execution continues only if non-nil
		}
	}
}

func (in *Interp) bounds(fr *Frame, st *State, ins ssa.Instruction, i, n *T) {
	pc := xpc(st.pc)
	ok := proveNonNeg(i, pc) && proveLe0(addc(sub(i, n), 1), pc)
	if !ok {
		i, n := assume(i, pc), assume(n, pc)
		ok = proveNonNeg(i, pc) && proveLe0(addc(sub(i, n), 1), pc)
	}
	in.obligC(fr, st, ins, "index", ok, bddAnd(le0(neg(i)), lt(i, n)), "index "+i.String()+" of length "+n.String())
	if !ok {
		c := bddAnd(le0(neg(i)), lt(i, n))
		if np := bddAnd(st.pc, c); np != bddFalse {
			st.pc = np
		}
	}
}

// definite takes a number apart by the conditions it depends on
func definite(i *T, pc *BDD) *T {
	i = assume(i, pc)
	if i.k == KIte {
		c := i.a[0].b
		return ite(c, definite(i.a[1], bddAnd(pc, c)), definite(i.a[2], bddAnd(pc, bddNot(c))))
	}
	l := linOf(i)
	for _, a := range l.atoms() {
		if a.k == KIte {
			k := l.m[a]
			base := l.addScaled(linOf(a), -k).term()
			c := a.a[0].b
			return ite(c, definite(addScaled(base, a.a[1], k), bddAnd(pc, c)), definite(addScaled(base, a.a[2], k), bddAnd(pc, bddNot(c))))
		}
	}
	return i
}

func (in *Interp) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr, s, i *T) *T {
	if in.splitHeap {
		if d := definite(i, st.pc); d.k == KIte {
			c := in.decide(d.a[0].b, st)
			a, b := *st, *st
			a.pc, b.pc = bddAnd(st.pc, c), bddAnd(st.pc, bddNot(c))
			return ite(c, in.indexAddr(fr, &a, x, s, d.a[1]), in.indexAddr(fr, &b, x, s, d.a[2]))
		}
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer: // *array
		n := u.Elem().Underlying().(*types.Array)
		in.nilCheck(fr, st, x, s)
		in.bounds(fr, st, x, i, mkInt(n.Len()))
		return mkElem(s, i, n.Elem())
	case *types.Slice:
		in.bounds(fr, st, x, i, in.sliceLen(s))
		return in.sliceElem(st, s, i, u.Elem())
	}
	return mkOp("elem", s, i)
}

func (in *Interp) sliceElem(st *State, s, i *T, et types.Type) *T {
	switch s.k {
	case KSlice:
		return mkElem(s.a[0], add(s.a[1], i), et)
	case KIte:
		c := in.decide(s.a[0].b, st)
		return ite(c, in.sliceElem(st, s.a[1], i, et), in.sliceElem(st, s.a[2], i, et))
	case KNil:
		return tNil
	}
	o := getObj(fmt.Sprintf("[%d]", s.id), nil)
	o.kind = "seq"
	o.base = s
	o.input = true
	return mkElem(mkPtr(o), i, et)
}

func (in *Interp) slice(fr *Frame, st *State, x *ssa.Slice) *T {
	s := in.val(fr, st, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = in.val(fr, st, x.Low)
	}
	pc := xpc(st.pc)
	chk := func(hi, cp *T) {
		ok := proveNonNeg(lo, pc) && proveLe0(sub(lo, hi), pc) && proveLe0(sub(hi, cp), pc)
		if !ok {
			lo, hi, cp := assume(lo, pc), assume(hi, pc), assume(cp, pc)
			ok = proveNonNeg(lo, pc) && proveLe0(sub(lo, hi), pc) && proveLe0(sub(hi, cp), pc)
		}
		in.obligC(fr, st, x, "slice", ok, bddAnd(le0(neg(lo)), bddAnd(le(lo, hi), le(hi, cp))), "slice ["+lo.String()+":"+hi.String()+"] of length "+cp.String())
		if !ok {
			c := bddAnd(le0(neg(lo)), bddAnd(le(lo, hi), le(hi, cp)))
			if np := bddAnd(st.pc, c); np != bddFalse {
				st.pc = np
			}
		}
	}
	if isStringT(x.X.Type()) {
		n := in.sliceLen(s)
		hi := n
		if x.High != nil {
			hi = in.val(fr, st, x.High)
		}
		chk(hi, n)
		return sliceOrOpaque(in.content(st, s), lo, sub(hi, lo), xpc(st.pc))
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := mkInt(p.Elem().Underlying().(*types.Array).Len())
		in.nilCheck(fr, st, x, s)
		hi := n
		if x.High != nil {
			hi = in.val(fr, st, x.High)
		}
		chk(hi, n)
		return mkSlice(s, lo, sub(hi, lo), sub(n, lo))
	}
	return in.reslice(fr, st, x, s, lo, chk)
}

func (in *Interp) reslice(fr *Frame, st *State, x *ssa.Slice, s, lo *T, chk func(hi, cp *T)) *T {
	n := in.sliceLen(s)
	hi := n
	if x.High != nil {
		hi = in.val(fr, st, x.High)
	}
	// slices may be re-extended up to their capacity; requiring the bound to be
	// the length is stronger, except when the capacity itself is known
	cp := n
	if s.k == KSlice {
		if _, ok := proveCap(hi, s.a[3], xpc(st.pc)); ok {
			cp = s.a[3]
		}
	}
	if x.High == nil {
		chk(hi, n)
	} else {
		chk(hi, cp)
	}
	return reSlice1(s, lo, hi)
}

func proveCap(hi, cp *T, pc *BDD) (bool, bool) {
	return true, proveLe0(sub(hi, cp), pc)
}

func reSlice1(s, lo, hi *T) *T {
	switch s.k {
	case KSlice:
		return mkSlice(s.a[0], add(s.a[1], lo), sub(hi, lo), sub(s.a[3], lo))
	case KIte:
		return ite(s.a[0].b, reSlice1(s.a[1], lo, assume(hi, s.a[0].b)), reSlice1(s.a[2], lo, assume(hi, bddNot(s.a[0].b))))
	case KNil:
		return nilSlice
	}
	o := getObj(fmt.Sprintf("[%d]", s.id), nil)
	o.kind = "seq"
	o.base = s
	o.input = true
	return mkSlice(mkPtr(o), lo, sub(hi, lo), mkOpR(0, true, 0, false, "cap", s))
}

func (in *Interp) unop(fr *Frame, st *State, x *ssa.UnOp) *T {
	v := in.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		if _, elem := x.X.(*ssa.IndexAddr); !elem { // checked where the address was taken
			in.nilCheck(fr, st, x, v)
		}
		if in.memHook != nil && in.quiet == 0 {
			in.memHook(in, st, x, v)
		}
		return in.load(st, v, x.Type())
	case token.NOT:
		if v.k == KBool {
			return mkB(bddNot(v.b))
		}
		return mkB(bddNot(bddVar(v)))
	case token.SUB:
		if intWidth(x.Type()) != 0 {
			return wrapInt(neg(v), clampW(intWidth(x.Type())))
		}
		return mkOp("fneg", v)
	case token.XOR:
		w := intWidth(x.Type())
		if w > 0 && w <= 32 {
			return bitOp('^', v, mkInt(int64(1)<<uint(w)-1), w)
		}
		if v.k == KConst {
			return mkInt(^v.i)
		}
		return addc(neg(v), -1)
	case token.ARROW:
		if in.blockHook != nil {
			in.blockHook(in, st, x)
		}
		in.event(fr, st, x, "recv", v)
		r := in.fromAtom(mkOp("recv:"+in.freshKey(fr, x, ""), in.ks()...), x.Type())
		if in.recvVal != nil {
			if ct, ok := x.X.Type().Underlying().(*types.Chan); ok {
				if g := in.recvVal(st, ct.Elem()); g != nil {
					if x.CommaOk {
						return mkTuple(g, mkBool(true))
					}
					return g
				}
			}
		}
		return r
	}
	return in.fromAtom(mkOp("un"+x.Op.String(), v), x.Type())
}

func clampW(w int) int {
	if w == 64 || w == -64 {
		return -64
	}
	return w
}

func (in *Interp) binop(fr *Frame, st *State, x *ssa.BinOp) *T {
	a, b := in.val(fr, st, x.X), in.val(fr, st, x.Y)
	return in.arith(fr, st, x, x.Op, a, b, x.X.Type(), x.Type())
}

func (in *Interp) arith(fr *Frame, st *State, ins ssa.Instruction, op token.Token, a, b *T, xt, rt types.Type) *T {
	w := intWidth(xt)
	switch op {
	case token.EQL, token.NEQ:
		var c *BDD
		if isBoolT(xt) {
			c = bddNot(bddXor(asB(a), asB(b)))
		} else {
			c = eqTerm(a, b)
		}
		if op == token.NEQ {
			c = bddNot(c)
		}
		return mkB(c)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if w != 0 {
			switch op {
			case token.LSS:
				return mkB(lt(a, b))
			case token.LEQ:
				return mkB(le(a, b))
			case token.GTR:
				return mkB(lt(b, a))
			default:
				return mkB(le(b, a))
			}
		}
		if isStringT(xt) {
			x, y := in.content(st, a), in.content(st, b)
			switch op {
			case token.GTR:
				return mkB(textLess(y, x))
			case token.GEQ:
				return mkB(bddNot(textLess(x, y)))
			case token.LSS:
				return mkB(textLess(x, y))
			default:
				return mkB(bddNot(textLess(y, x)))
			}
		}
		switch op {
		case token.GTR:
			return mkB(bddVar(mkOp("flt", b, a)))
		case token.GEQ:
			return mkB(bddNot(bddVar(mkOp("flt", a, b))))
		case token.LSS:
			return mkB(bddVar(mkOp("flt", a, b)))
		default:
			return mkB(bddNot(bddVar(mkOp("flt", b, a))))
		}
	}
	if isStringT(xt) && op == token.ADD {
		return seqCat(in.content(st, a), in.content(st, b))
	}
	if w == 0 {
		if isBoolT(xt) {
			x, y := asB(a), asB(b)
			switch op {
			case token.AND, token.LAND:
				return mkB(bddAnd(x, y))
			case token.OR, token.LOR:
				return mkB(bddOr(x, y))
			}
		}
		return mkOp("f"+op.String(), a, b)
	}
	cw := clampW(w)
	uw := w
	if uw < 0 {
		uw = -uw
	}
	switch op {
	case token.ADD:
		return wrapInt(add(a, b), cw)
	case token.SUB:
		if w == 64 {
			in.note("uint64 subtraction treated as exact")
		}
		return wrapInt(sub(a, b), cw)
	case token.MUL:
		return wrapInt(mul(a, b), cw)
	case token.QUO, token.REM:
		ok := in.decide(eq0(b), st) == bddFalse
		in.obligC(fr, st, ins, "divzero", ok, bddNot(eq0(b)), "division by "+b.String())
		if op == token.QUO {
			return wrapInt(divInt(a, b), cw)
		}
		return modInt(a, b)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if op == token.AND {
			// masking with a constant: only the masked bits matter
			if b.k == KConst && b.i >= 0 {
				return bitOp('&', a, b, maxI(bitLen(b.i), 1))
			}
			if a.k == KConst && a.i >= 0 {
				return bitOp('&', b, a, maxI(bitLen(a.i), 1))
			}
		}
		if uw <= 32 && w > 0 || inBits(a) && inBits(b) {
			ww := uw
			if ww > 62 {
				ww = 62
			}
			switch op {
			case token.AND:
				return bitOp('&', a, b, ww)
			case token.OR:
				return bitOp('|', a, b, ww)
			case token.XOR:
				return bitOp('^', a, b, ww)
			default:
				return bitOp('n', a, b, ww)
			}
		}
		return in.fromAtom(mkOp("b"+op.String(), a, b), rt)
	case token.SHL, token.SHR:
		if b.k == KConst && b.i >= 0 {
			n := int(b.i)
			if n >= uw {
				if op == token.SHL || w > 0 {
					return mkInt(0)
				}
			}
			if op == token.SHL {
				if w > 0 && w <= 32 {
					return shl(a, n, w)
				}
				if n < 40 {
					return wrapInt(mulc(a, int64(1)<<uint(n)), cw)
				}
			} else {
				lo, lk, _, _ := rng(a)
				if lk && lo >= 0 {
					ww := uw
					if ww > 62 {
						ww = 62
					}
					return shr(a, n, ww)
				}
			}
		} else if b.k != KConst {
			lo, lk, _, _ := rng(b)
			if wy := lk && lo >= 0; !wy {
				in.obligC(fr, st, ins, "shift", proveNonNeg(b, xpc(st.pc)), le0(neg(b)), "shift by a possibly negative count")
			}
		}
		r := mkOp("b"+op.String(), a, b)
		return in.fromAtom(r, rt)
	}
	return in.fromAtom(mkOp("b"+op.String(), a, b), rt)
}

func inBits(t *T) bool {
	lo, lk, _, hk := rng(t)
	return lk && hk && lo >= 0
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func asB(t *T) *BDD {
	if t.k == KBool {
		return t.b
	}
	return bddVar(t)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (in *Interp) convert(fr *Frame, st *State, ins ssa.Instruction, v *T, from, to types.Type) *T {
	fw, tw := intWidth(from), intWidth(to)
	switch {
	case fw != 0 && tw != 0:
		lo, lk, hi, hk := rng(v)
		fits := false
		switch {
		case tw == -64:
			fits = true
		case tw == 64:
			fits = true
		case tw > 0:
			fits = lk && hk && lo >= 0 && hi <= int64(1)<<uint(tw)-1
		default:
			m := int64(1)<<uint(-tw-1) - 1
			fits = lk && hk && lo >= -m-1 && hi <= m
		}
		if fits {
			return v
		}
		if tw > 0 && tw < 64 {
			max := int64(1)<<uint(tw) - 1
			pc := xpc(st.pc)
			if proveNonNeg(v, pc) && proveLe0(addc(v, -max), pc) {
				return narrowed(v, max)
			}
			if in.quiet == 0 {
				in.narrow = append(in.narrow, narrowing{pos: ins.Pos(), fn: fr.fn, term: v, w: tw, pc: st.pc})
			}
			if in.rt && !(v.isOp("fit") && fw > 0 && fw < 64) && (lengthLike(v) || fw == -64 && v.isOp("fld:"+fieldName(v))) {
				in.assumed["fits"] = "element counts and lengths fit the width of the prefix that carries them"
				return narrowed(v, max)
			}
		}
		return wrapInt(v, tw)
	case isStringT(to) && isByteSlice(from):
		return in.content(st, v)
	case isByteSlice(to) && isStringT(from):
		return in.newSeqSlice(in.freshKey(fr, ins, "bytes"), in.content(st, v), to, st)
	case isStringT(to) && isStringT(from):
		return v
	case fw != 0 && isStringT(to) && v.k == KConst:
		return constString(string(rune(v.i)))
	case fw != 0 && isFloatT(to):
		return mkOp("float", v)
	case isFloatT(from) && tw != 0:
		r := mkOp("trunc", v)
		if s := simplifyTrunc(v, tw); s != nil {
			return s
		}
		n := intern(&T{k: KOp, op: r.op, i: int64(tw), a: r.a})
		typeRange(n, tw)
		return n
	case isFloatT(from) && isFloatT(to):
		return v
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	return in.fromAtom(mkOp("conv:"+types.TypeString(to, shortQual), v), to)
}

// narrowed returns v itself: its value was shown (or assumed) to fit
func narrowed(v *T, max int64) *T {
	if v.k == KConst || v.isOp("fit") && v.i <= max {
		return v
	}
	if lo, lk, hi, hk := rng(v); lk && hk && lo >= 0 && hi <= max {
		return v
	}
	t := intern(&T{k: KOp, op: "fit", i: max, a: []*T{v}})
	t.setRange(0, true, max, true)
	return t
}

func fieldName(v *T) string {
	if v.k == KOp && strings.HasPrefix(v.op, "fld:") {
		return v.op[4:]
	}
	return "\x00"
}

// lengthLike: a sum of lengths (plus constants)
func lengthLike(v *T) bool {
	l := linOf(v)
	if len(l.m) == 0 {
		return false
	}
	for a := range l.m {
		if a.isOp("len") || a.isOp("psum") || a.isOp("div") {
			continue
		}
		if a.k == KIte && (lengthLike(a.a[1]) || a.a[1].k == KConst) && (lengthLike(a.a[2]) || a.a[2].k == KConst) {
			continue
		}
		return false
	}
	return true
}

func (in *Interp) lookup(fr *Frame, st *State, x *ssa.Lookup) *T {
	m, k := in.val(fr, st, x.X), in.val(fr, st, x.Index)
	if isStringT(x.X.Type()) {
		in.bounds(fr, st, x, k, in.sliceLen(m))
		return in.elemAt(st, m, k, x.Type())
	}
	in.event(fr, st, x, "mapget", m, k)
	var mv *T = m
	if m.k == KPtr {
		mv = in.objContent(st, m.obj)
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	if reg := in.regs[mv.op]; mv.k == KSym && reg != nil && k.k == KConst {
		var v *T = zero(vt)
		f, ok := reg[k.i]
		if ok && f != nil {
			v = mkFn(f)
		}
		if !ok || f != nil {
			if x.CommaOk {
				return mkTuple(v, mkB(bddConst(ok)))
			}
			return v
		}
	}
	if in.exactMaps {
		if v, has, ok := mapGet(assume(mv, st.pc), k, zero(vt)); ok {
			if x.CommaOk {
				return mkTuple(v, mkB(has))
			}
			return v
		}
	}
	op := mkOp("lookup", mv, k)
	v := in.fromAtom(op, vt)
	if x.CommaOk {
		okv := bddVar(mkOp("haskey", mv, k))
		return mkTuple(ite(okv, v, zero(vt)), mkB(okv))
	}
	if isNilableType(vt) {
		return ite(bddVar(mkOp("haskey", mv, k)), v, zero(vt))
	}
	return v
}

func (in *Interp) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) *T {
	v := in.val(fr, st, x.X)
	r, ok := in.assertTo(st, v, x.AssertedType)
	if x.CommaOk {
		return mkTuple(r, mkB(ok))
	}
	c := in.decide(ok, st)
	in.obligC(fr, st, x, "typeassert", c == bddTrue, c, "type assertion to "+types.TypeString(x.AssertedType, shortQual)+" may fail")
	if c != bddFalse {
		st.pc = bddAnd(st.pc, c)
	}
	return r
}

func (in *Interp) assertTo(st *State, v *T, to types.Type) (*T, *BDD) {
	switch v.k {
	case KNil:
		return zero(to), bddFalse
	case KIface:
		if types.IsInterface(to) {
			if types.Implements(v.typ, to.Underlying().(*types.Interface)) {
				return v, bddTrue
			}
			return zero(to), bddFalse
		}
		if types.Identical(v.typ, to) {
			return v.a[0], bddTrue
		}
		return zero(to), bddFalse
	case KIte:
		a, ca := in.assertTo(st, v.a[1], to)
		b, cb := in.assertTo(st, v.a[2], to)
		c := v.a[0].b
		return ite(c, a, b), bddIte(c, ca, cb)
	}
	ok := bddVar(mkOp("is:"+types.TypeString(to, nil), v))
	if types.IsInterface(to) {
		return ite(ok, v, tNil), ok
	}
	r := in.fromAtom(mkOp("as:"+types.TypeString(to, nil), v), to)
	if _, isp := to.Underlying().(*types.Pointer); isp {
		// pointer payload of an interface value
		if r.k == KIte && r.a[1].k == KNil {
			r = ite(bddNot(ok), tNil, r)
		} else {
			r = ite(ok, r, tNil)
		}
		return r, ok
	}
	return ite(ok, r, zero(to)), ok
}

// ---------------------------------------------------------------- events

func (in *Interp) event(fr *Frame, st *State, ins ssa.Instruction, name string, args ...*T) {
	e := intern(&T{k: KOp, op: "ev:" + name + "@" + fr.fn.String() + "/" + instrID(ins), a: args})
	in.evSites[e] = ins.Pos()
	st.trace = seqCat(st.trace, unit(e))
}

func evName(e *T) string {
	if e.k != KOp || !strings.HasPrefix(e.op, "ev:") {
		return ""
	}
	s := e.op[3:]
	if i := strings.Index(s, "@"); i >= 0 {
		return s[:i]
	}
	return s
}

// textLess: a comes before b in byte order
func textLess(a, b *T) *BDD {
	xs, ok1 := unitsOf(a)
	ys, ok2 := unitsOf(b)
	if !ok1 || !ok2 {
		return bddVar(mkOp("tlt", a, b))
	}
	c := bddFalse
	if len(xs) < len(ys) {
		c = bddTrue
	}
	n := len(xs)
	if len(ys) < n {
		n = len(ys)
	}
	for i := n - 1; i >= 0; i-- {
		c = bddOr(lt(xs[i], ys[i]), bddAnd(eqTerm(xs[i], ys[i]), c))
	}
	return c
}

// unitsOf lists the elements of a sequence of known length
func unitsOf(s *T) ([]*T, bool) {
	var out []*T
	if s.k != KSeq {
		return nil, false
	}
	for _, g := range s.a {
		if g.op != "unit" || len(out) > 200 {
			return nil, false
		}
		out = append(out, g.a[0])
	}
	return out, true
}
