package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- additional items

// resolveRegistry lets look-ups of constant keys in the message registries find
// the registered constructors
func (p *Program) resolveRegistry(in *Interp) {
	in.regs = map[string]map[int64]*ssa.Function{}
	for _, pk := range []*ssa.Package{p.proto, p.extra} {
		m := map[int64]*ssa.Function{}
		for _, e := range p.registry(pk, "entityMapper") {
			m[e.key] = e.creator
		}
		in.regs[pk.Pkg.Path()+".entityMapper"] = m
	}
}

// ctorOf finds the exported constructor of an additional item
func (p *Program) ctorOf(n *types.Named) *ssa.Function {
	for _, m := range p.extra.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.Signature.Params().Len() == 0 || f.Signature.Results().Len() != 1 {
			continue
		}
		if pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), n) {
			return f
		}
	}
	return nil
}

type extraVal struct {
	args []*T
	ptr  *T
	data *T // content of Data()
	val  *T // Value()
}

func (p *Program) extraMake(in *Interp, st *State, n *types.Named, tag string) (*extraVal, string) {
	f := p.ctorOf(n)
	if f == nil {
		return nil, "no exported constructor"
	}
	var args []*T
	for i, q := range f.Params {
		args = append(args, in.fromAtom(mkSym(fmt.Sprintf("%s%d", tag, i)), q.Type()))
	}
	in.topCtx = tag
	ptr := in.call(st, f, args, nil, nil, nil)
	in.topCtx = ""
	if ptr == nil || ptr.k != KPtr {
		return nil, "constructor result not understood"
	}
	v, why := p.extraRead(in, st, n, ptr)
	if v != nil {
		v.args = args
	}
	return v, why
}

func (p *Program) extraRead(in *Interp, st *State, n *types.Named, ptr *T) (*extraVal, string) {
	df, vf := p.methodOf(n, "Data"), p.methodOf(n, "Value")
	if df == nil || vf == nil {
		return nil, "no Data or Value method"
	}
	d := in.call(st, df, []*T{ptr}, nil, nil, nil)
	v := in.call(st, vf, []*T{ptr}, nil, nil, nil)
	if d == nil || v == nil {
		return nil, "Data or Value not understood"
	}
	return &extraVal{nil, ptr, in.content(st, d), v}, ""
}

// extraDomain: an item with an optional part (a pointer) and a kind (its first
// field) has the part exactly when the kind is not zero
func extraDomain(ctor *ssa.Function, args []*T, dom map[string]bool) *BDD {
	r := bddTrue
	for ai, a := range args {
		if a.k != KStruct {
			continue
		}
		st, ok := ctor.Params[ai].Type().Underlying().(*types.Struct)
		if !ok || st.NumFields() < 2 || !isIntT(st.Field(0).Type()) {
			continue
		}
		for i := 1; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
				dom["the optional part of an item is given exactly when its kind is not zero"] = true
				r = bddAnd(r, bddNot(bddXor(eqTerm(a.a[0], mkInt(0)), isNil(a.a[i]))))
			}
		}
	}
	return r
}

// domCases splits pc along the domain's first condition
func domCases(pc, domc *BDD) []*BDD {
	if domc == bddTrue {
		return []*BDD{pc}
	}
	var out []*BDD
	v := bddVar(bddSupport(domc)[0])
	for _, q := range []*BDD{bddAnd(pc, v), bddAnd(pc, bddNot(v))} {
		if q != bddFalse {
			out = append(out, q)
		}
	}
	return out
}

// xtJobs: every registered item alone, in a report, next to another item, and
// next to an item of an unregistered kind
func xtJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	var ks []int64
	used := map[int64]bool{}
	for _, e := range P.registry(P.extra, "entityMapper") {
		ks = append(ks, e.key)
		used[e.key] = true
	}
	free := int64(0xe1)
	for used[free] {
		free++
	}
	h := func(k int64) string { return fmt.Sprintf("%02x", k) }
	add := func(a ...string) { out = append(out, unitJob{args: a}) }
	add("xl", fmt.Sprintf("?%02x", free))
	for i, k := range ks {
		n := ks[(i+1)%len(ks)]
		add("xt", h(k))
		add("xl", h(k))
		add("xl", h(k)+","+h(n))
		add("xl", h(k)+","+h(k))
		add("xl", fmt.Sprintf("%02x,?%02x,%02x", k, free, n))
		if tier == "thorough" {
			for _, m := range ks {
				if m != n && m != k {
					add("xl", h(k)+","+h(m))
				}
			}
			add("xl", h(n)+","+h(k)+","+h(ks[(i+2)%len(ks)]))
		}
	}
	return out
}

func (p *Program) extraUnit(key int64, rep *Report) {
	rtMode = true
	var e regEntry
	for _, x := range p.registry(p.extra, "entityMapper") {
		if x.key == key {
			e = x
		}
	}
	if e.typ == nil {
		rep.Obs = append(rep.Obs, Ob{Rule: "round-trip", What: fmt.Sprintf("item 0x%02x", key), Pos: e.pos, Status: stUnresolved, Detail: "constructor type unknown"})
		return
	}
	n := e.typ
	name := n.Obj().Name()
	decf := p.methodOf(n, "Decode")
	pos := p.pos(n.Obj().Pos())
	if decf != nil {
		pos = p.pos(decf.Pos())
		rep.Funcs = append(rep.Funcs, decf.String())
	}
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	in := newInterp(p)
	in.rtName = name
	in.nilPolicy = func(base *T, typ types.Type) bool {
		_, isPtr := typ.Underlying().(*types.Pointer)
		return isPtr
	}
	st := newState()
	ov, why := p.extraMake(in, st, n, "v")
	if ov == nil {
		add("round-trip", name, stUnresolved, why)
	} else {
		dom := map[string]bool{}
		domc := extraDomain(p.ctorOf(n), ov.args, dom)
		st.pc = bddAnd(st.pc, domc)
		ov.data = assume(ov.data, st.pc)
		ost := st.clone()
		d := getObj("decoded:"+name, n)
		st.heap[d] = zero(n)
		wo := getObj("wire:"+name, types.NewSlice(types.Typ[types.Byte]))
		st.heap[wo] = ov.data
		sl := mkSlice(mkPtr(wo), mkInt(0), seqLen(ov.data), seqLen(ov.data))
		r := in.call(st, decf, []*T{mkPtr(d), sl}, nil, nil, nil)
		count, err := in.component(r, 0, nil), in.component(r, 1, nil)
		okc := isNil(err)
		c := &cmp{r: &rtResult{in: in, ost: ost, st: st, wire: ov.data, pc: st.pc, named: n}, st: st, pos: pos, dom: dom, geo: map[string]string{}}
		acc := bddNot(bddAnd(st.pc, bddNot(okc)))
		switch {
		case acc == bddTrue:
			add("decodes", name, stProved, "")
		case !resolved(mkB(acc)):
			add("decodes", name, stUnresolved, mkB(acc).String())
		default:
			if k, w := refuteCond(acc, bddTrue); k == refWitness {
				add("decodes", name, stViolated, "Decode refuses what the constructor produced: "+w)
			} else {
				add("decodes", name, stUnresolved, w)
			}
		}
		pc := bddAnd(st.pc, okc)
		if pc != bddFalse {
			dv, why := p.extraRead(in, st, n, mkPtr(d))
			if dv == nil {
				add("round-trip", name, stUnresolved, why)
			} else {
				if ov.val.k == KIface && dv.val.k == KIface && types.Identical(ov.val.typ, dv.val.typ) {
					c.eq(name+".Value", ov.val.typ, ov.val.a[0], dv.val.a[0], pc)
				} else {
					c.add("round-trip", name+".Value", stUnresolved, "value not understood")
				}
				for _, q := range domCases(pc, domc) {
					c.seq(name+".Data", types.Typ[types.Byte], assume(ov.data, q), assume(dv.data, q), q)
				}
				rep.Obs = append(rep.Obs, c.obs...)
			}
			n := assume(count, pc)
			if w := seqLen(ov.data); c.sameLen(n, assume(w, pc), pc) {
				add("consumed", name, stProved, "")
			} else if k, m := refuteEq(w, n, pc); k == refWitness && resolved(n) {
				add("consumed", name, stViolated, fmt.Sprintf("Decode reports %v consumed of %v written: %s", n, w, m))
			} else {
				add("consumed", name, stUnresolved, m)
			}
		}
	}
	// arbitrary data: what was consumed is what Data gives back
	rtMode = false
	in2 := newInterp(p)
	st2 := newState()
	d2 := getObj("decoded2:"+name, n)
	st2.heap[d2] = zero(n)
	in2.nilPolicy = func(base *T, typ types.Type) bool { return true }
	data := in2.fromAtom(mkSym("data"), types.NewSlice(types.Typ[types.Byte]))
	r := in2.call(st2, decf, []*T{mkPtr(d2), data}, nil, nil, nil)
	count, err := in2.component(r, 0, nil), in2.component(r, 1, nil)
	pc := bddAnd(st2.pc, isNil(err))
	if pc != bddFalse {
		if dv, _ := p.extraRead(in2, st2, n, mkPtr(d2)); dv != nil {
			c := &cmp{r: &rtResult{in: in2, ost: st2, st: st2, pc: pc, named: n}, st: st2, pos: pos, dom: map[string]bool{}, geo: map[string]string{}}
			want := sliceOrOpaque(seqAtom(mkSym("data")), mkInt(0), assume(count, pc), xpc(pc))
			c.seq(name+".Data of received bytes", types.Typ[types.Byte], want, assume(dv.data, pc), pc)
			for i := range c.obs {
				c.obs[i].Rule = "keeps-bytes"
			}
			rep.Obs = append(rep.Obs, c.obs...)
		}
	}
}

// extraListUnit: a position report carrying the given items comes back with
// the same items in the same order; an item of kind unknown is skipped
func (p *Program) extraListUnit(keys []string, rep *Report) {
	rtMode = true
	unrollMax = 8
	tag := strings.Join(keys, ",")
	var rt *types.Named
	for _, e := range p.registry(p.proto, "entityMapper") {
		if e.key == 0x0200 {
			rt = e.typ
		}
	}
	if rt == nil {
		rep.Obs = append(rep.Obs, Ob{Rule: "items", What: "[" + tag + "]", Status: stUnresolved, Detail: "no position report message"})
		return
	}
	encf, decf := p.methodOf(rt, "Encode"), p.methodOf(rt, "Decode")
	pos := p.pos(decf.Pos())
	rep.Funcs = append(rep.Funcs, encf.String(), decf.String())
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: "[" + tag + "] " + what, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	in := newInterp(p)
	p.resolveRegistry(in)
	in.rtName = rt.Obj().Name()
	in.nilPolicy = func(base *T, typ types.Type) bool {
		_, isPtr := typ.Underlying().(*types.Pointer)
		return isPtr
	}
	su := rt.Underlying().(*types.Struct)
	xi := -1
	for i := 0; i < su.NumFields(); i++ {
		if sl, ok := su.Field(i).Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
			xi = i
		}
	}
	if xi < 0 {
		add("items", "list", stUnresolved, "no list of items in the report")
		return
	}
	xt := su.Field(xi).Type()
	st := newState()
	type item struct {
		dom *BDD
		n   *types.Named
		v   *extraVal
		key int64
	}
	var items []item
	entity := func(name string, xs []item, atom string) *T {
		o := getObj(name, rt)
		o.input = true
		v := in.fromAtom(mkSym(atom), rt)
		a := append([]*T(nil), v.a...)
		var units []*T
		for _, x := range xs {
			units = append(units, unit(mkIface(types.NewPointer(x.n), x.v.ptr)))
		}
		lo := getObj("items:"+name, xt)
		st.heap[lo] = seqCat(units...)
		nn := mkInt(int64(len(xs)))
		a[xi] = mkSlice(mkPtr(lo), mkInt(0), nn, nn)
		st.heap[o] = mkStruct(a...)
		return mkPtr(o)
	}
	encode := func(ptr *T) *T {
		r := in.call(st, encf, []*T{ptr}, nil, nil, nil)
		st.pc = xall(bddAnd(st.pc, isNil(in.component(r, 1, nil))))
		return assume(in.content(st, in.component(r, 0, nil)), st.pc)
	}
	dom := map[string]bool{}
	for i, k := range keys {
		if strings.HasPrefix(k, "?") {
			// an item whose kind nobody registered, with two bytes of data
			id, _ := strconv.ParseInt(k[1:], 16, 64)
			items = append(items, item{key: id})
			continue
		}
		key, _ := strconv.ParseInt(k, 16, 64)
		var n *types.Named
		for _, x := range p.registry(p.extra, "entityMapper") {
			if x.key == key {
				n = x.typ
			}
		}
		if n == nil {
			add("items", k, stUnresolved, "kind not registered")
			return
		}
		v, why := p.extraMake(in, st, n, fmt.Sprintf("v%d_", i))
		if v == nil {
			add("items", k, stUnresolved, why)
			return
		}
		domc := extraDomain(p.ctorOf(n), v.args, dom)
		st.pc = bddAnd(st.pc, domc)
		v.data = assume(v.data, st.pc)
		items = append(items, item{domc, n, v, key})
	}
	var wire *T
	var known []item
	unknown := false
	for _, x := range items {
		if x.n == nil {
			unknown = true
		} else {
			known = append(known, x)
		}
	}
	if !unknown {
		wire = encode(entity("report:"+tag, items, "e"))
	} else {
		wire = encode(entity("report:"+tag, nil, "e"))
		for _, x := range items {
			if x.n == nil {
				wire = seqCat(wire, unit(mkInt(x.key)), unit(mkInt(2)), unit(in.fromAtom(mkSym("u0"), types.Typ[types.Byte])), unit(in.fromAtom(mkSym("u1"), types.Typ[types.Byte])))
			} else {
				wire = seqCat(wire, unit(mkInt(x.key)), unit(seqLen(x.v.data)), x.v.data)
			}
		}
	}
	d := getObj("decoded:"+tag, rt)
	st.heap[d] = zero(rt)
	wo := getObj("wire:"+tag, types.NewSlice(types.Typ[types.Byte]))
	st.heap[wo] = wire
	r := in.call(st, decf, []*T{mkPtr(d), mkSlice(mkPtr(wo), mkInt(0), seqLen(wire), seqLen(wire))}, nil, nil, nil)
	count, err := in.component(r, 0, types.Typ[types.Int]), in.component(r, 1, nil)
	okc := isNil(err)
	acc := domainTrue(bddNot(xall(bddAnd(st.pc, bddNot(okc)))), dom)
	switch {
	case acc == bddTrue:
		add("items", "accepted", stProved, "")
	case !resolved(mkB(acc)):
		add("items", "accepted", stUnresolved, "depends on "+unresolvedAtom(mkB(acc)))
	default:
		if k, w := refuteCond(acc, bddTrue); k == refWitness || acc == bddFalse {
			add("items", "accepted", stViolated, "a report carrying the items is refused: "+w)
		} else {
			add("items", "accepted", stUnresolved, w)
		}
	}
	pc := bddAnd(st.pc, okc)
	if pc == bddFalse {
		return
	}
	c := &cmp{r: &rtResult{in: in, ost: st, st: st, wire: wire, pc: pc, named: rt}, st: st, pos: pos, dom: dom, geo: map[string]string{}}
	dv := assume(st.heap[d], pc)
	if dv.k != KStruct {
		add("items", "list", stUnresolved, "decoded report not understood")
		return
	}
	var decide func(lst *T, pc *BDD)
	decide = func(lst *T, pc *BDD) {
		lst = assume(lst, pc)
		if lst.k == KIte {
			for _, v := range []*BDD{lst.a[0].b, bddNot(lst.a[0].b)} {
				if q := bddAnd(pc, v); q != bddFalse {
					decide(lst, q)
				}
			}
			return
		}
		n := assume(in.sliceLen(lst), pc)
		if !n.isInt(int64(len(known))) {
			if n.k == KConst {
				add("items", "list", stViolated, fmt.Sprintf("%d of %d items come back", n.i, len(known)))
			} else {
				add("items", "list", stUnresolved, "number of items "+n.String())
			}
			return
		}
		add("items", "list", stProved, "")
		con := assume(in.content(st, lst), pc)
		if lst.k == KNil {
			con = seqEmpty
		}
		for i, x := range known {
			g := seqIdx(con, mkInt(int64(i)), pc)
			what := fmt.Sprintf("item %d", i)
			if g == nil || g.k != KIface {
				add("items", what, stUnresolved, fmt.Sprint("item not understood: ", g))
				continue
			}
			if !types.Identical(derefSafe(g.typ), x.n) {
				add("items", what, stViolated, fmt.Sprintf("comes back as %s", types.TypeString(g.typ, shortQual)))
				continue
			}
			dv, why := p.extraRead(in, st, x.n, g.a[0])
			if dv == nil {
				add("items", what, stUnresolved, why)
				continue
			}
			k := len(c.obs)
			for _, q := range domCases(pc, x.dom) {
				c.seq("["+tag+"] "+what, types.Typ[types.Byte], assume(x.v.data, q), assume(dv.data, q), q)
			}
			for ; k < len(c.obs); k++ {
				c.obs[k].Rule = "items"
			}
			// its own identifier
			if f := p.methodOf(x.n, "ID"); f != nil {
				id := in.call(st, f, []*T{g.a[0]}, nil, nil, nil)
				if id != nil && id.isInt(x.key) {
					add("identifier", x.n.Obj().Name(), stProved, "")
				} else if id != nil && id.k == KConst {
					add("identifier", x.n.Obj().Name(), stViolated, fmt.Sprintf("registered as 0x%02x but calls itself 0x%02x", x.key, id.i))
				} else {
					add("identifier", x.n.Obj().Name(), stUnresolved, fmt.Sprint(id))
				}
			}
		}
	}
	decide(dv.a[xi], pc)
	rep.Obs = append(rep.Obs, c.obs...)
	n := assume(count, pc)
	if c.sameLen(n, assume(seqLen(wire), pc), pc) {
		add("consumed", "", stProved, "")
	} else if k, m := refuteEq(seqLen(wire), n, pc); k == refWitness && resolved(n) {
		add("consumed", "", stViolated, fmt.Sprintf("%v reported consumed of %v: %s", n, seqLen(wire), m))
	} else {
		add("consumed", "", stUnresolved, m)
	}
}
