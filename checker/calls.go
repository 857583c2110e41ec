package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fr   *Frame
	ins  ssa.CallInstruction
	name string
	args []*T
	sig  *types.Signature
	recv *T // invoke receiver
}

func (c *callCtx) key(in *Interp, tag string) string { return in.freshKey(c.fr, c.ins, tag) }

func fnName(f *ssa.Function) string {
	if f.Object() != nil {
		return f.Object().(*types.Func).FullName()
	}
	return f.String()
}

func (in *Interp) doCall(fr *Frame, st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, fnv *T, args []*T) *T {
	r := in.doCall1(fr, st, ins, cc, fnv, args)
	if in.failCalls[ins] && r != nil && st.pc != bddFalse {
		e := r
		if n := cc.Signature().Results().Len(); n > 1 {
			e = in.component(r, n-1, nil)
		}
		c := in.decide(isNil(e), st)
		in.obligC(fr, st, ins, "failure", c == bddTrue, c, "fails")
	}
	return r
}

func (in *Interp) doCall1(fr *Frame, st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, fnv *T, args []*T) *T {
	rt := resultType(cc.Signature())
	if cc.IsInvoke() {
		recv := fnv
		return in.invoke(fr, st, ins, cc, recv, args, rt)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, st, ins, cc, b, args)
	}
	return in.callFn(fr, st, ins, cc, fnv, args, rt)
}

func (in *Interp) callFn(fr *Frame, st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, fnv *T, args []*T, rt types.Type) *T {
	switch fnv.k {
	case KFn:
		return in.callStatic(fr, st, ins, fnv.fn, fnv.a, args, cc.Signature(), rt)
	case KIte:
		c := in.decide(fnv.a[0].b, st)
		if c == bddTrue {
			return in.callFn(fr, st, ins, cc, fnv.a[1], args, rt)
		}
		if c == bddFalse {
			return in.callFn(fr, st, ins, cc, fnv.a[2], args, rt)
		}
		return in.fork(st, c, func(s *State) *T { return in.callFn(fr, s, ins, cc, fnv.a[1], args, rt) },
			func(s *State) *T { return in.callFn(fr, s, ins, cc, fnv.a[2], args, rt) })
	case KNil:
		in.oblig(fr, st, ins, "nilcall", false, "call of a nil function")
		st.pc = bddFalse
		return in.fromAtom(mkSym("noreturn"), rt)
	}
	// dynamic call of an unknown function value
	nilc := in.decide(isNil(fnv), st)
	in.obligC(fr, st, ins, "nilcall", nilc == bddFalse || fnv.k == KOp && fnv.op != "isnil" && !nilCallable(fnv), bddNot(nilc), "call of a possibly nil function "+fnv.String())
	c := &callCtx{fr: fr, ins: ins, name: "dynamic", args: args, sig: cc.Signature()}
	if h, ok := in.hooks["dynamic"]; ok {
		c.recv = fnv
		if v, done := h(in, st, c); done {
			return v
		}
	}
	in.event(fr, st, ins, "dyncall", append([]*T{fnv}, args...)...)
	return in.opaqueCall(st, c, "dyn", append([]*T{fnv}, args...), rt, true)
}

func nilCallable(t *T) bool {
	// values for which nil is a normal state: fields and parameters
	return t.k == KOp && strings.HasPrefix(t.op, "fld:") || t.k == KSym
}

func (in *Interp) fork(st *State, c *BDD, f, g func(*State) *T) *T {
	a, b := st.clone(), st.clone()
	a.pc = bddAnd(st.pc, c)
	b.pc = bddAnd(st.pc, bddNot(c))
	va := f(a)
	vb := g(b)
	if a.pc == bddFalse {
		*st = *b
		return vb
	}
	if b.pc == bddFalse {
		*st = *a
		return va
	}
	in.fillHeap(a, b)
	in.fillHeap(b, a)
	pc := bddOr(a.pc, b.pc)
	cc := bddConstrain(a.pc, pc)
	m := mergeStates(a, b)
	*st = *m
	if va == nil || vb == nil {
		return nil
	}
	return ite(cc, va, vb)
}

func (in *Interp) callStatic(fr *Frame, st *State, ins ssa.CallInstruction, fn *ssa.Function, bind, args []*T, sig *types.Signature, rt types.Type) *T {
	name := fnName(fn)
	c := &callCtx{fr: fr, ins: ins, name: name, args: args, sig: sig}
	if in.calls != nil && in.quiet == 0 {
		in.calls(in, st, c)
	}
	if h, ok := in.hooks[name]; ok {
		if v, done := h(in, st, c); done {
			return v
		}
	}
	if m, ok := models[name]; ok {
		if v, done := m(in, st, c); done {
			return v
		}
	}
	if len(fn.Blocks) > 0 && (isRepoFn(fn) || fn.Pkg != nil && in.follow[fn.Pkg.Pkg.Path()] || fn.Synthetic != "" && len(fn.Blocks) == 1) {
		if fr.depth < maxDepth && !in.recursive(fr, fn) {
			if in.splitHeap {
				for i, a := range args {
					if a == nil || a.typ != nil && a.k != KIte {
						continue
					}
					d := a
					if i < len(fn.Params) && isIntT(fn.Params[i].Type()) {
						d = definite(a, st.pc)
					} else {
						d = assume(a, st.pc)
					}
					if d.k != KIte || isBoolT(fn.Params[i].Type()) {
						if d != a {
							args = append([]*T{}, args...)
							args[i] = d
						}
						continue
					}
					if c := in.decide(d.a[0].b, st); c == bddTrue || c == bddFalse {
						args = append([]*T{}, args...)
						args[i] = d.a[1]
						if c == bddFalse {
							args[i] = d.a[2]
						}
					} else {
						alt := func(v *T) []*T {
							n := append([]*T{}, args...)
							n[i] = v
							return n
						}
						return in.fork(st, c, func(s *State) *T { return in.callStatic(fr, s, ins, fn, bind, alt(d.a[1]), sig, rt) },
							func(s *State) *T { return in.callStatic(fr, s, ins, fn, bind, alt(d.a[2]), sig, rt) })
					}
				}
			}
			v := in.call(st, fn, args, bind, fr, ins)
			if st.pc == bddFalse && v == nil {
				v = in.fromAtom(mkSym("noreturn"), rt)
			}
			return v
		}
		in.note("recursion cut at %s", name)
	}
	return in.opaqueCall(st, c, name, args, rt, !pureFn(name))
}

func (in *Interp) recursive(fr *Frame, fn *ssa.Function) bool {
	n := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	return n >= 2
}

var purePkgs = map[string]bool{"strconv": true, "strings": true, "time": true, "math": true, "bytes": true,
	"github.com/shopspring/decimal": true, "errors": true, "fmt": true, "path/filepath": true, "math/big": true,
	"reflect": true, "encoding/hex": true, "unicode": true, "encoding/binary": true, "unicode/utf8": true}

func pureFn(name string) bool {
	if name == "time.Now" {
		return false
	}
	if strings.HasPrefix(name, "fmt.P") || strings.HasPrefix(name, "fmt.F") || name == "time.NewTicker" || name == "time.Sleep" || name == "time.After" {
		return false
	}
	n := strings.TrimLeft(name, "(*")
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 {
		return false
	}
	return purePkgs[n[:i+1+j]]
}

// argument as a pure value (slices by content, pointers by content)
func (in *Interp) pureArg(st *State, a *T) *T {
	switch a.k {
	case KSlice:
		c := in.content(st, a)
		if c.k == KSeq {
			segs := make([]*T, len(c.a))
			ch := false
			for i, s := range c.a {
				segs[i] = s
				if s.isOp("unit") {
					v := in.pureArg(st, s.a[0])
					if v != s.a[0] {
						segs[i] = unit(v)
						ch = true
					}
				}
			}
			if ch {
				return seqCat(segs...)
			}
		}
		return c
	case KIte:
		return iteNoAssume(a.a[0].b, in.pureArg(st, a.a[1]), in.pureArg(st, a.a[2]))
	case KIface:
		return mkIface(a.typ, in.pureArg(st, a.a[0]))
	}
	return a
}

func (in *Interp) opaqueCall(st *State, c *callCtx, name string, args []*T, rt types.Type, impure bool) *T {
	var pa []*T
	for _, a := range args {
		pa = append(pa, in.pureArg(st, a))
	}
	if impure {
		pa = append(pa, in.ks()...)
		name = name + "@" + in.freshKey(c.fr, c.ins, "")
		// an unknown function may modify what its pointer arguments reach
		if !isLogCall(c.name) {
			for _, a := range args {
				in.havocArg(st, c, a)
			}
		}
	}
	if rt == nil {
		return nil
	}
	if t, ok := rt.(*types.Tuple); ok && t.Len() == 0 {
		return nil
	}
	op := mkOp("call:"+name, pa...)
	if s := simplifyOp(op); s != nil {
		return s
	}
	r := in.callResult(op, rt)
	in.readCount(st, c, args, r)
	return r
}

func (in *Interp) callResult(op *T, rt types.Type) *T {
	switch u := rt.Underlying().(type) {
	case *types.Pointer:
		// external constructors return non-nil pointers
		o := getObj(fmt.Sprintf("*%d", op.id), u.Elem())
		o.base = op
		return mkPtr(o)
	case *types.Tuple:
		f := make([]*T, u.Len())
		for i := range f {
			x := mkOp(fmt.Sprintf("res%d", i), op)
			f[i] = in.callResult(x, u.At(i).Type())
		}
		return mkTuple(f...)
	}
	return in.fromAtom(op, rt)
}

func isLogCall(name string) bool {
	return strings.Contains(name, "sirupsen/logrus") || strings.HasPrefix(name, "runtime/debug.") || strings.HasPrefix(name, "fmt.")
}

func (in *Interp) havocArg(st *State, c *callCtx, a *T) {
	switch a.k {
	case KPtr:
		old := in.objContent(st, a.obj)
		if len(a.path) == 0 && old.k != KSeq {
			if _, exp := asStructSafe(a.obj.typ); exp && isRepoType(a.obj.typ) {
				return // repo structures are not modified by external packages
			}
			st.heap[a.obj] = mkOp("eff:"+c.key(in, ""), append([]*T{old}, in.ks()...)...)
		}
	case KSlice:
		if a.a[0].k == KPtr && len(a.a[0].path) == 0 {
			o := a.a[0].obj
			old := in.objContent(st, o)
			if old.k == KSeq {
				n := mkOp("eff:"+c.key(in, ""), append([]*T{old}, in.ks()...)...)
				st.heap[o] = seqCat(subSeg(n, mkInt(0), seqLen(old)))
			}
		}
	case KIface:
		in.havocArg(st, c, a.a[0])
	}
}

func asStructSafe(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	return asStruct(t)
}

func isRepoType(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return isRepoPkg(n.Obj().Pkg())
	}
	return false
}

// ---------------------------------------------------------------- interface calls

func (in *Interp) invoke(fr *Frame, st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, recv *T, args []*T, rt types.Type) *T {
	switch recv.k {
	case KIface:
		if v, done := in.ifaceModel(fr, st, ins, cc, recv, args); done {
			return v
		}
		sel := in.P.prog.MethodSets.MethodSet(recv.typ).Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel != nil {
			if fn := in.P.prog.MethodValue(sel); fn != nil {
				return in.callStatic(fr, st, ins, fn, nil, append([]*T{recv.a[0]}, args...), cc.Signature(), rt)
			}
		}
	case KIte:
		c := in.decide(recv.a[0].b, st)
		if c == bddTrue {
			return in.invoke(fr, st, ins, cc, recv.a[1], args, rt)
		}
		if c == bddFalse {
			return in.invoke(fr, st, ins, cc, recv.a[2], args, rt)
		}
		if recv.a[1].k == KNil || recv.a[2].k == KNil {
			nn := recv.a[2]
			cnil := c
			if recv.a[2].k == KNil {
				nn = recv.a[1]
				cnil = bddNot(c)
			}
			in.obligC(fr, st, ins, "nilinvoke", false, bddNot(cnil), "method "+cc.Method.Name()+" called on an interface that is nil when "+mkB(cnil).String())
			st.pc = bddAnd(st.pc, bddNot(cnil))
			return in.invoke(fr, st, ins, cc, nn, args, rt)
		}
		return in.fork(st, c, func(s *State) *T { return in.invoke(fr, s, ins, cc, recv.a[1], args, rt) },
			func(s *State) *T { return in.invoke(fr, s, ins, cc, recv.a[2], args, rt) })
	case KNil:
		in.oblig(fr, st, ins, "nilinvoke", false, "method "+cc.Method.Name()+" called on nil interface")
		st.pc = bddFalse
		return in.fromAtom(mkSym("noreturn"), rt)
	}
	nilc := in.decide(isNil(recv), st)
	in.obligC(fr, st, ins, "nilinvoke", nilc == bddFalse, bddNot(nilc), "method "+cc.Method.Name()+" called on an interface that may be nil: "+recv.String())
	name := "invoke:" + cc.Method.FullName()
	c := &callCtx{fr: fr, ins: ins, name: name, args: args, sig: cc.Signature(), recv: recv}
	if in.calls != nil && in.quiet == 0 {
		in.calls(in, st, c)
	}
	if h, ok := in.hooks[name]; ok {
		if v, done := h(in, st, c); done {
			return v
		}
	}
	if m, ok := models[name]; ok {
		if v, done := m(in, st, c); done {
			return v
		}
	}
	pure := false
	if cc.Method.Pkg() != nil && isRepoPkg(cc.Method.Pkg()) {
		switch cc.Method.Name() {
		case "Decode", "DecodePacket", "SetReader", "Encode":
		default:
			pure = true
		}
	}
	in.event(fr, st, ins, name, append([]*T{recv}, args...)...)
	return in.opaqueCall(st, c, name, append([]*T{recv}, args...), rt, !pure)
}

func (in *Interp) ifaceModel(fr *Frame, st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, recv *T, args []*T) (*T, bool) {
	// concrete external receiver: dispatch to the model of the concrete method
	sel := in.P.prog.MethodSets.MethodSet(recv.typ).Lookup(cc.Method.Pkg(), cc.Method.Name())
	if sel == nil {
		return nil, false
	}
	f := sel.Obj().(*types.Func).FullName()
	if h, ok := in.hooks[f]; ok {
		return h(in, st, &callCtx{fr: fr, ins: ins, name: f, args: append([]*T{recv.a[0]}, args...), sig: cc.Signature()})
	}
	if m, ok := models[f]; ok {
		return m(in, st, &callCtx{fr: fr, ins: ins, name: f, args: append([]*T{recv.a[0]}, args...), sig: cc.Signature()})
	}
	return nil, false
}

// ---------------------------------------------------------------- builtins

func (in *Interp) builtin(fr *Frame, st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, b *ssa.Builtin, args []*T) *T {
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			in.event(fr, st, ins, "maplen", args[0])
			mv := args[0]
			if mv.k == KPtr {
				mv = in.objContent(st, mv.obj)
			}
			if in.exactMaps {
				if es, ok := mapEntries(assume(mv, st.pc)); ok {
					return mkInt(int64(len(es)))
				}
			}
			return mkOpR(0, true, 0, false, "maplen", mv)
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return mkInt(p.Elem().Underlying().(*types.Array).Len())
		}
		return in.sliceLen(args[0])
	case "cap":
		if args[0].k == KSlice {
			return args[0].a[3]
		}
		return mkOpR(0, true, 0, false, "cap", args[0])
	case "append":
		return in.appendSlice(fr, st, ins, cc, args)
	case "copy":
		return in.copySlice(fr, st, ins, args)
	case "delete":
		in.event(fr, st, ins, "mapdel", args...)
		if args[0].k == KPtr {
			st.heap[args[0].obj] = mkOp("mapdel", in.objContent(st, args[0].obj), args[1])
		}
		return nil
	case "recover":
		return tNil
	case "close":
		in.event(fr, st, ins, "chanclose", args...)
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			r = minMax(b.Name(), r, x, xpc(st.pc))
		}
		return r
	}
	in.note("builtin %s", b.Name())
	return in.fromAtom(mkOp("builtin:"+b.Name(), args...), resultType(cc.Signature()))
}

func minMax(op string, a, b *T, pc *BDD) *T {
	if proveLe0(sub(a, b), pc) {
		if op == "min" {
			return a
		}
		return b
	}
	if proveLe0(sub(b, a), pc) {
		if op == "min" {
			return b
		}
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	r := mkOp(op, a, b)
	la, ka, _, _ := rng(a)
	lb, kb, _, _ := rng(b)
	if ka && kb {
		if la > lb {
			la = lb
		}
		r.setRange(la, true, 0, false)
	}
	return r
}

func (in *Interp) appendSlice(fr *Frame, st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, args []*T) *T {
	a := in.content(st, args[0])
	b := seqEmpty
	if len(args) > 1 {
		b = in.content(st, args[1])
	}
	if in.allocHook != nil && in.quiet == 0 {
		in.allocHook(in, st, ins, add(seqLen(a), seqLen(b)))
	}
	n := seqCat(a, b)
	if len(n.a) == 0 {
		return args[0]
	}
	v := in.newSeqSlice(in.freshKey(fr, ins, "append"), n, cc.Args[0].Type(), st)
	if o := sliceObj(args[0]); o != nil {
		v.a[0].obj.alias = o
	}
	return v
}

func sliceObj(s *T) *Obj {
	if s.k == KSlice && s.a[0].k == KPtr {
		return s.a[0].obj
	}
	return nil
}

func (in *Interp) copySlice(fr *Frame, st *State, ins ssa.CallInstruction, args []*T) *T {
	dst, src := args[0], args[1]
	if dst.k == KIte {
		// split on the destination
		c := dst.a[0].b
		return in.fork(st, in.decide(c, st), func(s *State) *T {
			return in.copySlice(fr, s, ins, []*T{dst.a[1], src})
		}, func(s *State) *T { return in.copySlice(fr, s, ins, []*T{dst.a[2], src}) })
	}
	dl, sl := in.sliceLen(dst), in.sliceLen(src)
	pc := xpc(st.pc)
	n := minMax("min", dl, sl, pc)
	if dst.k != KSlice || dst.a[0].k == KNil {
		return n
	}
	base := in.load(st, dst.a[0], nil)
	sc := in.content(st, src)
	part := sliceOrOpaque(sc, mkInt(0), n, pc)
	if base.k == KSeq {
		l, r, ok := cutAt(base.a, dst.a[1], pc)
		if ok {
			rs := seqCat(r...)
			_, r2, ok2 := cutAt(rs.a, n, pc)
			if ok2 {
				in.store(st, dst.a[0], seqCat(append(append(append([]*T{}, l...), part), r2...)...), nil)
				return n
			}
		}
		op := mkOp("copied", base, dst.a[1], part)
		in.store(st, dst.a[0], seqCat(subSeg(op, mkInt(0), seqLen(base))), nil)
	}
	return n
}
