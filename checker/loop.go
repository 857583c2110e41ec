package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- loops
//
// A loop is summarised by a fixpoint over its header cells (phis and heap
// objects).  Every cell that changes becomes a function of the iteration
// number K: in closed form when the recurrence can be solved (counters,
// appends, reader offsets that walk a repetition, fills, xor folds), as an
// opaque mu(K) otherwise, with invariants found by induction.

type muVar struct{}

type muFact struct {
	params []*T
	fact   *T // fact <= 0
}

var muFacts = map[string][]muFact{}

type leaf struct {
	path    string
	kind    string // int seq bool opaque slice content
	typ     types.Type
	init    *T
	mu      *T // opaque atom
	tm      *T // template while unsolved
	cf      *T // closed form
	guess   bool
	back    *T
	fixed   bool
	base    *T   // slice
	tied    bool // slice: off+len invariant
	capTied bool
	obj     *Obj // content
}

type loopRun struct {
	in      *Interp
	fr      *Frame
	n       *loopNode
	init    *State
	iphis   map[*ssa.Phi]*T
	key     string
	K       *T
	outer   []*T
	leaves  map[string]*leaf
	prefix  map[string]bool
	reject  map[string]int
	changed bool
	inst    *loopInst
	live    map[string]bool
}

// unrollMax: loops are unrolled up to this often before being summarised
var unrollMax int64

func (in *Interp) execLoop(fr *Frame, n *loopNode, s *State, ph map[*ssa.Phi]*T) map[*ssa.BasicBlock][]*edge {
	key := fmt.Sprintf("%s/L%d", fr.ctx, n.header.Index)
	outer := in.ks()
	K := mkOpR(0, true, 0, false, "K:"+key, outer...)
	lp := &loopRun{in: in, fr: fr, n: n, init: s, iphis: ph, key: key, K: K, outer: outer,
		leaves: map[string]*leaf{}, prefix: map[string]bool{}, reject: map[string]int{}}
	lp.inst = &loopInst{key: key, K: K}
	// what is known where the loop is entered selects the gated values it works on
	if s.pc != bddTrue && s.pc != bddFalse {
		for o, v := range s.heap {
			if w := assume(v, s.pc); w != v {
				s.heap[o] = w
			}
		}
	}

	if (specLen >= 0 || unrollMax > 0) && !in.noUnroll[key] {
		nr, nd := len(fr.rets), len(fr.defers)
		lim := unrollMax
		if lim == 0 {
			lim = 12
		}
		if out, ok := lp.unroll2(lim); ok {
			return out
		}
		fr.rets, fr.defers = fr.rets[:nr], fr.defers[:nd]
		in.noUnroll[key] = true
	}

	in.quiet++
	stable := false
	var exits []*lexit
	var back []*edge
	for round := 0; round < 30; round++ {
		lp.changed = false
		exits, back = lp.pass()
		if len(back) == 0 {
			stable = true
			break
		}
		lp.join(back)
		for _, l := range lp.unsolved() {
			if l.kind == "int" {
				// elements of varying size: no recurrence to solve, so try at once
				if g, n := lp.guesses(l); n > 0 && strings.Contains(sub(g[0], l.init).op+"", "psum") {
					l.cf, l.guess = g[0], true
				}
			}
		}
		if !lp.changed {
			stable = true
			break
		}
	}
	if !stable {
		in.note("loop at %s did not stabilise", key)
	}
	if len(back) == 0 && len(lp.leaves) == 0 {
		in.quiet--
		return lp.once()
	}
	lp.solve()
	lp.houdini()
	exits, back = lp.pass()
	in.quiet--
	if c, ok := lp.constBound(exits, back); ok && c <= 40 {
		return lp.unroll(c)
	}
	exits, back = lp.pass()
	if debugTrace {
		for _, b := range back {
			fmt.Printf("LOOP %s back pc %v\n", lp.key, mkB(b.st.pc))
		}
		for _, b := range exits {
			fmt.Printf("LOOP %s exit pc %v\n", lp.key, mkB(b.st.pc))
		}
	}
	return lp.finish(exits, back)
}

type lexit struct {
	target *ssa.BasicBlock // nil: return
	e      *edge
	ret    retEdge
	env    map[ssa.Value]*T
	st     *State
}

// pass runs the body once from the current header template
func (lp *loopRun) pass() ([]*lexit, []*edge) {
	st, ph := lp.header()
	return lp.runBody(st, ph)
}

func (lp *loopRun) runBody(st *State, ph map[*ssa.Phi]*T) ([]*lexit, []*edge) {
	in, fr := lp.in, lp.fr
	savedRets, savedDefers := fr.rets, fr.defers
	fr.rets = nil
	in.loops = append(in.loops, lp.inst)
	ex, back := in.region(fr, lp.n, lp.n.header, st, ph, "")
	in.loops = in.loops[:len(in.loops)-1]
	rets := fr.rets
	fr.rets = savedRets
	fr.defers = fr.defers[:len(savedDefers):len(fr.defers)]
	return lp.collect(ex, rets), back
}

func (lp *loopRun) collect(ex map[*ssa.BasicBlock][]*edge, rets []retEdge) []*lexit {
	var r []*lexit
	var ts []*ssa.BasicBlock
	for t := range ex {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].Index < ts[j].Index })
	for _, t := range ts {
		for _, e := range ex[t] {
			x := &lexit{target: t, e: e, st: e.st, env: map[ssa.Value]*T{}}
			for _, v := range lp.n.liveOut {
				if val, ok := lp.fr.env[v]; ok {
					x.env[v] = val
				}
			}
			r = append(r, x)
		}
	}
	for _, q := range rets {
		r = append(r, &lexit{ret: q, st: q.st})
	}
	return r
}

// once: the body never repeats
func (lp *loopRun) once() map[*ssa.BasicBlock][]*edge {
	in, fr := lp.in, lp.fr
	ex, _ := in.region(fr, lp.n, lp.n.header, lp.init.clone(), lp.iphis, "")
	return ex
}

func (lp *loopRun) unroll(c int64) map[*ssa.BasicBlock][]*edge {
	r, _ := lp.unroll2(c)
	return r
}

func (lp *loopRun) unroll2(c int64) (map[*ssa.BasicBlock][]*edge, bool) {
	in, fr := lp.in, lp.fr
	base := fr.ctx
	type work struct {
		st *State
		ph map[*ssa.Phi]*T
	}
	cur := []work{{lp.init.clone(), lp.iphis}}
	out := map[*ssa.BasicBlock][]*edge{}
	var all []*lexit
	for it := int64(0); it <= c+1; it++ {
		var backs []*edge
		for j, w := range cur {
			fr.ctx = fmt.Sprintf("%s#%d", base, it)
			if j > 0 {
				fr.ctx += fmt.Sprintf(".%d", j)
			}
			ex, back := in.region(fr, lp.n, lp.n.header, w.st, w.ph, "")
			all = append(all, lp.collect(ex, nil)...)
			backs = append(backs, back...)
		}
		if len(backs) == 0 {
			break
		}
		if it == c+1 {
			fr.ctx = base
			return nil, false
		}
		cur = nil
		for _, g := range groupEdges(backs) {
			st, ph := in.mergeEdges(g)
			if !in.splitHeap {
				cur = append(cur, work{st, ph})
				continue
			}
			for _, s := range splitState(st, 32) {
				q := map[*ssa.Phi]*T{}
				for k, v := range ph {
					q[k] = assume(v, s.pc)
				}
				cur = append(cur, work{s, q})
			}
		}
	}
	fr.ctx = base
	for _, x := range all {
		out[x.target] = append(out[x.target], x.e)
	}
	lp.mergeEnv(all)
	return out, true
}

// splitCond: a condition some number or length in the state depends on, so that
// what follows can work on definite ones
func splitCond(st *State) *BDD {
	var objs []*Obj
	for o := range st.heap {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	var find func(t *T, d int) *BDD
	find = func(t *T, d int) *BDD {
		if d == 0 || t == nil {
			return nil
		}
		switch t.k {
		case KIte:
			return t.a[0].b
		case KStruct, KSlice, KTuple, KIface:
			for _, a := range t.a {
				if c := find(a, d-1); c != nil {
					return c
				}
			}
		case KSeq:
			for _, g := range t.a {
				if g.isOp("ites") && g.a[0].k == KBool {
					return g.a[0].b
				}
				for _, a := range g.a {
					if c := find(a, d-1); c != nil && a.k != KSeq {
						return c
					}
				}
			}
		}
		return nil
	}
	for _, o := range objs {
		if o.input {
			continue
		}
		v := assume(st.heap[o], st.pc)
		if v != st.heap[o] {
			st.heap[o] = v
		}
		if c := find(v, 4); c != nil {
			return c
		}
	}
	return nil
}

// splitState takes a state apart by such conditions
func splitState(st *State, limit int) []*State {
	c := splitCond(st)
	if c == nil {
		return []*State{st}
	}
	var out []*State
	for _, x := range []*BDD{c, bddNot(c)} {
		pc := bddAnd(st.pc, x)
		if pc == bddFalse {
			continue
		}
		if k, _ := feasible(pc); k == feasNone {
			continue
		}
		n := st.clone()
		n.pc = pc
		for o, v := range n.heap {
			n.heap[o] = assume(v, pc)
		}
		if limit <= 1 {
			out = append(out, n)
			continue
		}
		out = append(out, splitState(n, limit/2)...)
	}
	return out
}

// groupEdges keeps apart the ways back to the loop head on which counters have
// different constant values
func groupEdges(es []*edge) [][]*edge {
	if unrollMax == 0 {
		return [][]*edge{es}
	}
	var split []*edge
	for _, e := range es {
		split = append(split, splitEdge(e, 0)...)
	}
	idx := map[string]int{}
	var out [][]*edge
	for _, e := range split {
		var ks []string
		for p, v := range e.phis {
			switch {
			case v.k == KConst && isIntT(p.Type()):
				ks = append(ks, fmt.Sprint(p.Name(), "=", v.i))
			case v.k == KSlice && v.a[2].k == KConst:
				ks = append(ks, fmt.Sprint(p.Name(), "#", v.a[2].i))
			}
		}
		sort.Strings(ks)
		k := strings.Join(ks, ",")
		n, ok := idx[k]
		if !ok {
			if len(out) >= 48 {
				return [][]*edge{es}
			}
			n = len(out)
			idx[k] = n
			out = append(out, nil)
		}
		out[n] = append(out[n], e)
	}
	return out
}

func splitEdge(e *edge, d int) []*edge {
	if d > 4 {
		return []*edge{e}
	}
	for p, v := range e.phis {
		if v.k != KIte || !isIntT(p.Type()) {
			continue
		}
		var out []*edge
		for _, c := range []*BDD{v.a[0].b, bddNot(v.a[0].b)} {
			pc := bddAnd(e.st.pc, c)
			if pc == bddFalse {
				continue
			}
			n := &edge{from: e.from, st: e.st.clone(), phis: map[*ssa.Phi]*T{}}
			n.st.pc = pc
			for q, x := range e.phis {
				n.phis[q] = assume(x, pc)
			}
			out = append(out, splitEdge(n, d+1)...)
		}
		return out
	}
	return []*edge{e}
}

func (lp *loopRun) mergeEnv(all []*lexit) {
	for _, v := range lp.n.liveOut {
		var r *T
		for i := len(all) - 1; i >= 0; i-- {
			x, ok := all[i].env[v]
			if !ok {
				continue
			}
			if r == nil {
				r = x
			} else {
				r = ite(bddConstrain(all[i].st.pc, lp.init.pc), x, r)
			}
		}
		if r != nil {
			lp.fr.env[v] = r
		}
	}
}

// ---------------------------------------------------------------- header template

func (lp *loopRun) hasLeaf(path string) bool { return lp.prefix[path] }

func (lp *loopRun) addLeaf(l *leaf) {
	lp.leaves[l.path] = l
	lp.changed = true
	p := l.path
	for {
		lp.prefix[p] = true
		i := strings.LastIndex(p, "/")
		if i < 0 {
			break
		}
		p = p[:i]
	}
}

func (lp *loopRun) header() (*State, map[*ssa.Phi]*T) {
	st := lp.init.clone()
	st.trace = seqEmpty
	ph := map[*ssa.Phi]*T{}
	for o, v := range lp.init.heap {
		p := heapPath(o)
		if lp.hasLeaf(p) {
			st.heap[o] = lp.build(p, v, o.typ, st)
		}
	}
	for p, v := range lp.iphis {
		pp := phiPath(p)
		if lp.hasLeaf(pp) {
			ph[p] = lp.build(pp, v, p.Type(), st)
		} else {
			ph[p] = v
		}
	}
	return st, ph
}

func heapPath(o *Obj) string    { return fmt.Sprintf("h%d", o.id) }
func phiPath(p *ssa.Phi) string { return "p" + p.Name() }

func fieldT(typ types.Type, i int) types.Type {
	if typ == nil {
		return nil
	}
	st, exp := asStruct(typ)
	if st == nil || !exp || i >= st.NumFields() {
		return nil
	}
	return st.Field(i).Type()
}

func (lp *loopRun) build(path string, ini *T, typ types.Type, st *State) *T {
	if l := lp.leaves[path]; l != nil {
		switch l.kind {
		case "slice":
			off := lp.build(path+"/off", l.init.a[1], nil, st)
			var ln, cp *T
			if l.tied {
				ln = sub(add(l.init.a[1], l.init.a[2]), off)
			} else {
				ln = lp.build(path+"/len", l.init.a[2], nil, st)
			}
			if l.capTied {
				cp = sub(add(l.init.a[1], l.init.a[3]), off)
			} else {
				cp = lp.build(path+"/cap", l.init.a[3], nil, st)
			}
			return mkSlice(l.base, off, ln, cp)
		case "content":
			c := lp.build(path+"/c", lp.in.content(lp.init, l.init), nil, st)
			st.heap[l.obj] = c
			return mkSlice(mkPtr(l.obj), mkInt(0), seqLen(c), mkOpR(0, true, 0, false, "cap", mkPtr(l.obj)))
		}
		if l.cf != nil {
			return l.cf
		}
		return l.tm
	}
	if !lp.hasLeaf(path) {
		return ini
	}
	if ini.k == KStruct {
		f := make([]*T, len(ini.a))
		for i := range f {
			f[i] = lp.build(fmt.Sprintf("%s/%d", path, i), ini.a[i], fieldT(typ, i), st)
		}
		return mkStruct(f...)
	}
	return ini
}

func (lp *loopRun) mu(path string) *T {
	return mkOp("mu:"+lp.key+":"+path, append([]*T{lp.K}, lp.outer...)...)
}

// ---------------------------------------------------------------- join

func (lp *loopRun) mergedBack(back []*edge) (*State, map[*ssa.Phi]*T) {
	return lp.in.mergeEdges(back)
}

func (lp *loopRun) join(back []*edge) (*State, map[*ssa.Phi]*T) {
	in := lp.in
	bs, bph := in.mergeEdges(back)
	in.fillHeap(lp.init, bs)
	in.fillHeap(bs, lp.init)
	var objs []*Obj
	for o := range lp.init.heap {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		if v, ok := bs.heap[o]; ok {
			lp.walk(heapPath(o), lp.init.heap[o], v, o.typ, bs)
		}
	}
	var phs []*ssa.Phi
	for p := range lp.iphis {
		phs = append(phs, p)
	}
	sort.Slice(phs, func(i, j int) bool { return phs[i].Name() < phs[j].Name() })
	for _, p := range phs {
		lp.walk(phiPath(p), lp.iphis[p], bph[p], p.Type(), bs)
	}
	return bs, bph
}

func (lp *loopRun) walk(path string, ini, bk *T, typ types.Type, bs *State) {
	in := lp.in
	if l := lp.leaves[path]; l != nil {
		l.back = bk
		switch l.kind {
		case "slice":
			if bk.k == KSlice && bk.a[0] == l.base {
				lp.walk(path+"/off", l.init.a[1], bk.a[1], nil, bs)
				if l.tied && add(bk.a[1], bk.a[2]) != add(l.init.a[1], l.init.a[2]) {
					l.tied = false
					lp.changed = true
				}
				if !l.tied {
					lp.walk(path+"/len", l.init.a[2], bk.a[2], nil, bs)
				}
				if l.capTied && add(bk.a[1], bk.a[3]) != add(l.init.a[1], l.init.a[3]) {
					l.capTied = false
					lp.changed = true
				}
				if !l.capTied {
					lp.walk(path+"/cap", l.init.a[3], bk.a[3], nil, bs)
				}
				return
			}
			lp.makeContent(path, l.init, bk, typ, bs)
		case "content":
			lp.walk(path+"/c", in.content(lp.init, l.init), lp.box(in.content(bs, bk), bs), nil, bs)
		case "seq":
			bk = lp.box(bk, bs)
			l.back = bk
			if bk.k == KSeq {
				if l.fixed && l.cf == nil && !proveEq(seqLen(bk), seqLen(l.init), xpc(bs.pc)) {
					l.fixed = false
					l.tm = seqAtom(l.mu)
					lp.changed = true
				}
			} else {
				l.kind = "opaque"
				l.tm = l.mu
				lp.changed = true
			}
		case "int":
			if !isIntLike(bk) {
				l.kind = "opaque"
				l.tm = l.mu
				lp.changed = true
			}
		}
		return
	}
	if lp.hasLeaf(path) && ini.k == KStruct && bk.k == KStruct {
		for i := range ini.a {
			lp.walk(fmt.Sprintf("%s/%d", path, i), ini.a[i], bk.a[i], fieldT(typ, i), bs)
		}
		return
	}
	if ini == bk {
		return
	}
	if ini.k == KStruct && bk.k == KStruct && len(ini.a) == len(bk.a) {
		for i := range ini.a {
			lp.walk(fmt.Sprintf("%s/%d", path, i), ini.a[i], bk.a[i], fieldT(typ, i), bs)
		}
		return
	}
	mu := lp.mu(path)
	switch {
	case ini.k == KSlice && bk.k == KSlice && ini.a[0] == bk.a[0] && ini.a[0].k != KNil:
		l := &leaf{path: path, kind: "slice", typ: typ, init: ini, base: ini.a[0], back: bk}
		l.tied = add(bk.a[1], bk.a[2]) == add(ini.a[1], ini.a[2])
		l.capTied = add(bk.a[1], bk.a[3]) == add(ini.a[1], ini.a[3])
		lp.addLeaf(l)
		lp.walk(path+"/off", ini.a[1], bk.a[1], nil, bs)
		if !l.tied {
			lp.walk(path+"/len", ini.a[2], bk.a[2], nil, bs)
		}
		if !l.capTied {
			lp.walk(path+"/cap", ini.a[3], bk.a[3], nil, bs)
		}
	case (ini.k == KSlice || sliceIte(ini)) && (bk.k == KSlice || sliceIte(bk)):
		lp.makeContent(path, ini, bk, typ, bs)
	case ini.k == KSeq && bk.k == KSeq:
		l := &leaf{path: path, kind: "seq", typ: typ, init: ini, mu: mu, back: lp.box(bk, bs)}
		l.fixed = proveEq(seqLen(bk), seqLen(ini), xpc(bs.pc))
		if l.fixed {
			l.tm = seqCat(subSeg(mu, mkInt(0), seqLen(ini)))
		} else {
			l.tm = seqAtom(mu)
		}
		lp.addLeaf(l)
	case ini.k == KBool && bk.k == KBool:
		lp.addLeaf(&leaf{path: path, kind: "bool", typ: typ, init: ini, mu: mu, tm: mkB(bddVar(mu)), back: bk})
	case isIntLike(ini) && isIntLike(bk):
		w := -64
		if typ != nil {
			if x := intWidth(typ); x != 0 {
				w = x
			}
		}
		if strings.HasSuffix(path, "/len") || strings.HasSuffix(path, "/cap") || strings.HasSuffix(path, "/off") {
			mu.setRange(0, true, 0, false)
		}
		typeRange(mu, w)
		lp.addLeaf(&leaf{path: path, kind: "int", typ: typ, init: ini, mu: mu, tm: mu, back: bk})
	default:
		tm := mu
		if typ != nil {
			tm = lp.in.fromAtom(mu, typ)
		}
		lp.addLeaf(&leaf{path: path, kind: "opaque", typ: typ, init: ini, mu: mu, tm: tm, back: bk})
	}
}

func sliceIte(t *T) bool {
	return t.k == KIte && (t.a[1].k == KSlice || sliceIte(t.a[1])) && (t.a[2].k == KSlice || sliceIte(t.a[2]))
}

func (lp *loopRun) makeContent(path string, ini, bk *T, typ types.Type, bs *State) {
	for p := range lp.leaves {
		if strings.HasPrefix(p, path+"/") {
			delete(lp.leaves, p)
		}
	}
	o := getObj(lp.key+":"+path+":cont", typ)
	lp.addLeaf(&leaf{path: path, kind: "content", typ: typ, init: ini, obj: o, back: bk})
	ic := lp.in.content(lp.init, ini)
	bc := lp.box(lp.in.content(bs, bk), bs)
	lp.walk(path+"/c", ic, bc, nil, bs)
	if lp.leaves[path+"/c"] == nil {
		// contents agree so far
		return
	}
}

// box replaces pointers to objects allocated in this loop's body by their
// contents, so that the value survives the iteration
func (lp *loopRun) box(t *T, bs *State) *T {
	return boxTerm(t, bs, lp.inst, 0)
}

func boxTerm(t *T, bs *State, inst *loopInst, depth int) *T {
	if depth > 6 {
		return t
	}
	ptrs := map[*T]bool{}
	collectPtrs(t, ptrs, map[*T]bool{})
	m := map[*T]*T{}
	for p := range ptrs {
		if p.obj.loop == inst && len(p.path) == 0 {
			if c, ok := bs.heap[p.obj]; ok {
				m[p] = mkBox(boxTerm(c, bs, inst, depth+1))
			}
		}
	}
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}

func mkBox(c *T) *T { return mkOp("box", c) }

func collectPtrs(t *T, out, seen map[*T]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.k == KPtr {
		out[t] = true
		return
	}
	for _, x := range t.a {
		collectPtrs(x, out, seen)
	}
}

// ---------------------------------------------------------------- solving

func (lp *loopRun) unsolved() []*leaf {
	var r []*leaf
	for _, l := range lp.leaves {
		if l.kind != "slice" && l.kind != "content" && l.cf == nil {
			r = append(r, l)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if a, b := r[i].kind == "int", r[j].kind == "int"; a != b {
			return a
		}
		return r[i].path < r[j].path
	})
	return r
}

func (lp *loopRun) mentionsMu(t *T) bool {
	for _, l := range lp.leaves {
		if l.mu != nil && l.cf == nil && mentions(t, l.mu) {
			return true
		}
	}
	return false
}

func (lp *loopRun) solve() {
	for iter := 0; iter < 40; iter++ {
		_, back := lp.pass()
		if len(back) == 0 {
			return
		}
		lp.changed = false
		bs, _ := lp.join(back)
		if lp.changed {
			continue
		}
		// verify guesses
		bad := false
		for _, l := range lp.leaves {
			if l.guess && l.cf != nil {
				want := subst(l.cf, map[*T]*T{lp.K: addc(lp.K, 1)})
				if !proveEq(l.back, want, xpc(bs.pc)) {
					if debugTrace {
						fmt.Printf("LOOP %s guess %s rejected:\n   back %v\n   want %v\n  pc %v\n", lp.key, l.path, l.back, want, mkB(bs.pc))
					}
					lp.reject[l.path+"|"+fmt.Sprint(l.cf.id)]++
					bad = true
				}
			}
		}
		if bad {
			for _, l := range lp.leaves {
				l.cf, l.guess = nil, false
			}
			continue
		}
		progress := false
		var fresh []*T
		for _, l := range lp.unsolved() {
			if progress && l.kind != "int" {
				continue // counters first: contents are simpler once they are known
			}
			if cf := lp.derive(l, bs); cf != nil {
				stale := false
				for _, x := range fresh {
					stale = stale || mentions(cf, x) || mentions(l.back, x)
				}
				if stale {
					continue // expressed by a cell that has a closed form now
				}
				l.cf = cf
				if debugTrace {
					fmt.Printf("LOOP %s iter %d solved %s: %.300v\n", lp.key, iter, l.path, cf)
				}
				if l.mu != nil {
					fresh = append(fresh, l.mu)
				}
				progress = true
			}
		}
		if progress {
			continue
		}
		for _, l := range lp.unsolved() {
			if l.kind != "int" {
				continue
			}
			gs, _ := lp.guesses(l)
			for _, g := range gs {
				if lp.reject[l.path+"|"+fmt.Sprint(g.id)] == 0 {
					l.cf, l.guess = g, true
					progress = true
					break
				}
			}
		}
		if !progress {
			if debugTrace {
				for _, l := range lp.unsolved() {
					fmt.Printf("LOOP %s unsolved %s %s: init %v back %v\n", lp.key, l.path, l.kind, l.init, l.back)
				}
			}
			return
		}
	}
	lp.in.note("loop %s: solving did not settle", lp.key)
}

func (lp *loopRun) derive(l *leaf, bs *State) *T {
	K := lp.K
	bk := l.back
	if bk == nil {
		return nil
	}
	switch l.kind {
	case "int":
		d := sub(bk, l.mu)
		if d.k == KConst {
			return add(l.init, mulc(K, d.i))
		}
		if !mentions(d, l.mu) && !lp.mentionsMu(d) {
			if !mentions(d, K) {
				return add(l.init, mul(K, d))
			}
		}
		// xor fold
		if w := intWidthOf(l.typ); w > 0 && w <= 32 && bk.k == KBits {
			mb := toBits(l.mu, w)
			bb := toBits(bk, w)
			g := make([]*BDD, w)
			for i := range g {
				g[i] = bddXor(bb[i], mb[i])
			}
			x := mkBits(g)
			if !mentions(x, l.mu) && !lp.mentionsMu(x) {
				return bitOp('^', l.init, xorFold(seqCat(mkRep(K, K2(K), seqCat(unit(x)))), w), w)
			}
		}
		// flags that only ever get set (or only ever get cleared)
		if w := intWidthOf(l.typ); w > 0 && w <= 32 {
			mb := toBits(l.mu, w)
			bb := toBits(bk, w)
			ib := toBits(l.init, w)
			g := make([]*BDD, w)
			ok := true
			for i := range g {
				if mb[i].atom == nil {
					ok = false
					break
				}
				f1 := bddCofactor(bb[i], mb[i].atom, true)
				f0 := bddCofactor(bb[i], mb[i].atom, false)
				if mentions(mkB(f0), l.mu) || mentions(mkB(f1), l.mu) || lp.mentionsMu(mkB(f0)) || lp.mentionsMu(mkB(f1)) {
					ok = false
					break
				}
				switch {
				case f1 == bddTrue:
					g[i] = bddOr(ib[i], anyOf(seqCat(mkRep(K, K, seqCat(unit(mkB(f0)))))))
				case f0 == bddFalse:
					g[i] = bddAnd(ib[i], bddNot(anyOf(seqCat(mkRep(K, K, seqCat(unit(mkB(bddNot(f1)))))))))
				case f0 == f1:
					g[i] = bddIte(le0(K), ib[i], subst(mkB(f0), map[*T]*T{K: addc(K, -1)}).b)
				default:
					ok = false
				}
				if !ok {
					break
				}
			}
			if ok {
				return mkBits(g)
			}
		}
	case "seq":
		if bk.k != KSeq {
			return nil
		}
		if !l.fixed {
			pre := l.tm
			if len(bk.a) >= len(pre.a) && len(pre.a) == 1 && len(bk.a) > 0 && bk.a[0] == pre.a[0] {
				y := seqCat(bk.a[1:]...)
				if !mentions(y, l.mu) && !lp.mentionsMu(y) {
					return seqCat(l.init, mkRepN(K, K, y))
				}
			}
		} else if r := lp.gatedFill(l, bs); r != nil {
			return r
		} else if len(bk.a) > 0 {
			// fill: mu[0:p] ++ Y ++ mu[p+c:]
			i := 0
			p := mkInt(0)
			if bk.a[0].isOp("sub") && bk.a[0].a[0] == l.mu && bk.a[0].a[1].isInt(0) {
				p = bk.a[0].a[2]
				i = 1
			}
			j := i
			for j < len(bk.a) && !mentions(bk.a[j], l.mu) {
				j++
			}
			y := seqCat(bk.a[i:j]...)
			c := seqLen(y)
			rest := bk.a[j:]
			okRest := len(rest) == 0 || len(rest) == 1 && rest[0].isOp("sub") && rest[0].a[0] == l.mu && rest[0].a[1] == add(p, c)
			if okRest && c.k == KConst && c.i > 0 && !lp.mentionsMu(y) {
				p0 := sub(p, mulc(K, c.i))
				if !mentions(p0, K) && !lp.mentionsMu(p0) {
					pre, ok1 := seqSlice(l.init, mkInt(0), p0, lp.init.pc)
					if ok1 {
						tot := seqLen(l.init)
						done := add(p0, mulc(K, c.i))
						if len(rest) == 0 && tot == done {
							return nil
						}
						post := sliceOrOpaque(l.init, done, sub(tot, done), xpc(bs.pc))
						return seqCat(pre, mkRepN(K, K, y), post)
					}
				}
			}
		}
	}
	// value of the previous iteration
	if l.mu != nil && !mentions(bk, l.mu) && !lp.mentionsMu(bk) && l.kind != "seq" {
		bb := lp.box(bk, bs)
		if l.kind == "opaque" && (l.init.k == KPtr || bb.k == KPtr) {
			// pointer cells: only if it does not point into the loop any more
		}
		prev := subst(bb, map[*T]*T{K: addc(K, -1)})
		return ite(le0(K), l.init, prev)
	}
	return nil
}

// gatedFill: the element at a position that advances with K is replaced,
// possibly on some paths only, possibly by a value computed from its old value
func (lp *loopRun) gatedFill(l *leaf, bs *State) *T {
	K := lp.K
	var et types.Type = types.Typ[types.Byte]
	if l.typ != nil {
		switch u := l.typ.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		case *types.Basic:
		default:
			return nil
		}
	}
	var p *T
	var split func(s *T) (y *T, id, ok bool)
	split = func(s *T) (*T, bool, bool) {
		if len(s.a) == 1 && s.a[0].isOp("ites") {
			g := s.a[0]
			y1, id1, ok1 := split(g.a[1])
			y2, id2, ok2 := split(g.a[2])
			if !ok1 || !ok2 {
				return nil, false, false
			}
			if id1 && id2 {
				return nil, true, true
			}
			if p == nil {
				return nil, false, false
			}
			old := lp.in.elemAt(bs, seqCat(subSeg(l.mu, mkInt(0), seqLen(l.init))), p, et)
			if id1 {
				y1 = old
			}
			if id2 {
				y2 = old
			}
			return ite(g.a[0].b, y1, y2), false, true
		}
		if s == l.tm || len(s.a) == 1 && s.a[0].isOp("sub") && s.a[0].a[0] == l.mu && s.a[0].a[1].isInt(0) && s.a[0].a[2] == seqLen(l.init) {
			return nil, true, true
		}
		i := 0
		q := mkInt(0)
		if len(s.a) > 0 && s.a[0].isOp("sub") && s.a[0].a[0] == l.mu && s.a[0].a[1].isInt(0) {
			q = s.a[0].a[2]
			i = 1
		}
		if i >= len(s.a) || !s.a[i].isOp("unit") || p != nil && p != q {
			return nil, false, false
		}
		rest := s.a[i+1:]
		if len(rest) > 1 || len(rest) == 1 && !(rest[0].isOp("sub") && rest[0].a[0] == l.mu && rest[0].a[1] == addc(q, 1)) {
			return nil, false, false
		}
		p = q
		return s.a[i].a[0], false, true
	}
	y, id, ok := split(l.back)
	if !ok {
		// the position may only be known after the first branch
		y, id, ok = split(l.back)
	}
	if !ok || id || p == nil {
		if debugTrace {
			fmt.Printf("GF no split %v %v\n", ok, l.back)
		}
		return nil
	}
	p0 := sub(p, K)
	if mentions(p0, K) || lp.mentionsMu(p0) {
		return nil
	}
	// what has not been reached yet still has its initial value
	m := map[*T]*T{}
	collectIdx(mkTuple(y), l.mu, func(x *T) {
		if m[x] == nil && proveLe0(sub(p, x.a[1]), xpc(bs.pc)) {
			if v := seqIdx(l.init, x.a[1], xpc(bs.pc)); v != nil {
				m[x] = v
			} else if len(l.init.a) == 1 && l.init.a[0].isOp("sub") && l.init.a[0].a[1].isInt(0) {
				m[x] = mkOp("idx", l.init.a[0].a[0], x.a[1])
			}
		}
	})
	y = subst(y, m)
	if mentions(y, l.mu) || lp.mentionsMu(y) {
		if debugTrace {
			fmt.Printf("GF stuck %v\n", y)
		}
		return nil
	}
	pre, ok1 := seqSlice(l.init, mkInt(0), p0, lp.init.pc)
	if !ok1 {
		return nil
	}
	tot := seqLen(l.init)
	post := sliceOrOpaque(l.init, p, sub(tot, p), xpc(bs.pc))
	return seqCat(pre, mkRepN(K, K, seqCat(unit(y))), post)
}

func collectIdx(t, base *T, f func(*T)) {
	seen := map[*T]bool{}
	bseen := map[*BDD]bool{}
	var walk func(t *T)
	var walkB func(b *BDD)
	walkB = func(b *BDD) {
		if b.atom == nil || bseen[b] {
			return
		}
		bseen[b] = true
		walk(b.atom)
		walkB(b.lo)
		walkB(b.hi)
	}
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.isOp("idx") && t.a[0] == base {
			f(t)
		}
		if t.b != nil {
			walkB(t.b)
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	walk(t)
}

func K2(k *T) *T { return k }

// mkRepN builds the repetition of body (a function of k) for k in [0,n)
func mkRepN(k, n, body *T) *T {
	return seqCat(mkRep(k, n, body))
}

func intWidthOf(t types.Type) int {
	if t == nil {
		return 0
	}
	return intWidth(t)
}

// xorFold of a sequence of w-bit values
func xorFold(s *T, w int) *T {
	r := mkInt(0)
	for _, g := range s.a {
		switch {
		case g.isOp("unit"):
			r = bitOp('^', r, g.a[0], w)
		case g.isOp("ites"):
			a, b := xorFold(g.a[1], w), xorFold(g.a[2], w)
			r = bitOp('^', r, ite(g.a[0].b, a, b), w)
		default:
			x := intern(&T{k: KOp, op: "xorfold", i: int64(w), a: []*T{seqCat(g)}})
			x.setRange(0, true, int64(1)<<uint(w)-1, true)
			r = bitOp('^', r, x, w)
		}
	}
	return r
}

// guesses: an offset that starts where a repetition starts walks it
func (lp *loopRun) guesses(l *leaf) ([]*T, int) {
	var out []*T
	seen := map[*T]bool{}
	var late []*T
	add1 := func(s *T) {
		if s.k != KSeq || seen[s] {
			return
		}
		seen[s] = true
		pos := mkInt(0)
		tot := seqLen(s)
		for _, g := range s.a {
			if g.isOp("rep") {
				up, down := add(l.init, psum(g, lp.K)), sub(l.init, psum(g, lp.K))
				if pos == l.init || proveEq(pos, l.init, lp.init.pc) {
					out = append(out, up)
				} else {
					late = append(late, up)
				}
				// remaining length
				if r := sub(tot, pos); r == l.init {
					out = append(out, down)
				} else {
					late = append(late, down)
				}
			}
			pos = add(pos, segLen(g))
		}
	}
	var objs []*Obj
	for o := range lp.init.heap {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		add1(lp.init.heap[o])
	}
	if len(late) > 24 {
		late = late[:24]
	}
	return append(out, late...), len(out)
}

// ---------------------------------------------------------------- invariants

func (lp *loopRun) houdini() {
	un := lp.unsolved()
	type cand struct {
		l *leaf
		f *T
	}
	var cs []cand
	_, back := lp.pass()
	if len(back) == 0 {
		return
	}
	ok := func(t *T) bool {
		if mentions(t, lp.K) {
			// only through the mu atoms themselves
			m := map[*T]*T{}
			for _, l := range un {
				if l.mu != nil {
					m[l.mu] = mkInt(0)
				}
			}
			return !mentions(subst(t, m), lp.K)
		}
		return true
	}
	for _, l := range un {
		if l.kind != "int" {
			continue
		}
		cs = append(cs, cand{l, sub(l.init, l.mu)}, cand{l, sub(l.mu, l.init)})
		if !l.init.isInt(0) {
			cs = append(cs, cand{l, neg(l.mu)})
		}
		for _, e := range back {
			for _, f := range pcFacts(e.st.pc) {
				if v := f.m[l.mu]; v == 0 {
					continue
				}
				t := f.term()
				if !ok(t) {
					continue
				}
				for c := int64(0); c < 4; c++ {
					cs = append(cs, cand{l, addc(t, -c)})
				}
				if f.c > 3 {
					cs = append(cs, cand{l, addc(t, -f.c)})
				}
			}
		}
	}
	if len(cs) == 0 {
		return
	}
	params := append([]*T{lp.K}, lp.outer...)
	install := func() {
		for _, l := range un {
			if l.mu != nil {
				delete(muFacts, l.mu.op)
			}
		}
		for _, c := range cs {
			muFacts[c.l.mu.op] = append(muFacts[c.l.mu.op], muFact{params, c.f})
		}
		clearFactMemo()
	}
	// base case
	var keep []cand
	im := map[*T]*T{}
	for _, l := range un {
		if l.mu != nil && l.kind == "int" {
			im[l.mu] = l.init
		}
	}
	dedup := map[string]bool{}
	for _, c := range cs {
		k := fmt.Sprint(c.l.path, c.f.id)
		if dedup[k] {
			continue
		}
		dedup[k] = true
		if proveLe0(subst(c.f, im), xpc(lp.init.pc)) {
			keep = append(keep, c)
		}
	}
	cs = keep
	for iter := 0; iter < 10; iter++ {
		install()
		if len(cs) == 0 {
			return
		}
		_, back := lp.pass()
		if len(back) == 0 {
			return
		}
		keep = nil
		for _, c := range cs {
			good := true
			for _, e := range back {
				bm := map[*T]*T{}
				lp.changed = false
				for _, l := range un {
					if l.kind == "int" {
						if b := lp.backOf(l, e); b != nil {
							bm[l.mu] = b
						}
					}
				}
				if !proveLe0(subst(c.f, bm), xpc(e.st.pc)) {
					good = false
					break
				}
			}
			if good {
				keep = append(keep, c)
			}
		}
		if len(keep) == len(cs) {
			return
		}
		cs = keep
	}
	cs = nil
	install()
}

// backOf finds the value of an int leaf on one back edge
func (lp *loopRun) backOf(l *leaf, e *edge) *T {
	parts := strings.Split(l.path, "/")
	var t *T
	for o := range lp.init.heap {
		if heapPath(o) == parts[0] {
			t = e.st.heap[o]
		}
	}
	for p := range lp.iphis {
		if phiPath(p) == parts[0] {
			t = e.phis[p]
		}
	}
	for _, s := range parts[1:] {
		if t == nil {
			return nil
		}
		switch s {
		case "off":
			if t.k != KSlice {
				return nil
			}
			t = t.a[1]
		case "len":
			if t.k != KSlice {
				return nil
			}
			t = t.a[2]
		case "cap":
			if t.k != KSlice {
				return nil
			}
			t = t.a[3]
		case "c":
			return nil
		default:
			var i int
			fmt.Sscanf(s, "%d", &i)
			if t.k != KStruct || i >= len(t.a) {
				return nil
			}
			t = t.a[i]
		}
	}
	return t
}

// ---------------------------------------------------------------- exits

// counter finds N such that exit x happens exactly when K reaches N
func (lp *loopRun) counter(x *lexit, exits []*lexit, back []*edge) *T {
	K := lp.K
	var others []*BDD
	for _, y := range exits {
		if y != x {
			others = append(others, xpc(y.st.pc))
		}
	}
	for _, b := range back {
		others = append(others, xpc(b.st.pc))
	}
	try := func(N *T, stay func(pc *BDD) bool) bool {
		if mentions(N, K) || lp.mentionsMu(N) {
			return false
		}
		for _, o := range others {
			if !stay(o) {
				return false
			}
		}
		return true
	}
	for _, l := range bddLits(x.st.pc) {
		switch {
		case l.atom.isOp("le0"):
			f := linOf(l.atom.a[0])
			if !l.pos {
				f = lin{c: 1, m: map[*T]int64{}}.addScaled(f, -1)
			}
			v := f.m[K]
			if v >= 0 {
				continue
			}
			// N' - c*K <= 0, c>0
			c := -v
			rest := f.addScaled(lin{m: map[*T]int64{K: v}}, -1).term()
			var N *T
			if c == 1 {
				N = rest
			} else {
				// K >= ceil(rest/c)
				rl := linOf(rest)
				div := true
				for _, w := range rl.m {
					if w%c != 0 {
						div = false
					}
				}
				if div {
					n := lin{c: ceilDiv(rl.c, c), m: map[*T]int64{}}
					for a, w := range rl.m {
						n.m[a] = w / c
					}
					N = n.term()
				} else if lo, lk, _, _ := rng(rest); lk && lo >= 0 {
					N = divInt(addc(rest, c-1), mkInt(c))
				} else {
					continue
				}
			}
			if try(N, func(pc *BDD) bool { return proveLe0(addc(sub(K, N), 1), pc) || stayLit(pc, l) }) {
				if proveNonNeg(N, xpc(lp.init.pc)) {
					return N
				}
				return minMax("max", N, mkInt(0), xpc(lp.init.pc))
			}
		case l.atom.isOp("eq") && l.atom.a[1].isInt(0) && l.pos:
			f := linOf(l.atom.a[0])
			v := f.m[K]
			if v != 1 && v != -1 {
				continue
			}
			N := mulc(f.addScaled(lin{m: map[*T]int64{K: v}}, -1).term(), -v)
			if try(N, func(pc *BDD) bool { return stayLit(pc, l) }) && proveNonNeg(N, xpc(lp.init.pc)) {
				return N
			}
		}
	}
	return nil
}

func stayLit(pc *BDD, l lit) bool {
	v := bddVar(l.atom)
	if !l.pos {
		v = bddNot(v)
	}
	return bddAnd(pc, v) == bddFalse
}

func (lp *loopRun) constBound(exits []*lexit, back []*edge) (int64, bool) {
	for _, x := range exits {
		if N := lp.counter(x, exits, back); N != nil && N.k == KConst {
			return N.i, true
		}
	}
	return 0, false
}

func (lp *loopRun) finish(exits []*lexit, back []*edge) map[*ssa.BasicBlock][]*edge {
	in, fr := lp.in, lp.fr
	K := lp.K
	Y := seqEmpty
	if len(back) > 0 {
		bs, _ := in.mergeEdges(back)
		Y = bs.trace
	}
	P0 := lp.init.pc
	Kx := mkOpR(0, true, 0, false, "Kx:"+lp.key, lp.outer...)
	kind := "opaque"
	out := map[*ssa.BasicBlock][]*edge{}
	rest := bddTrue
	// the loop-exit conditions that do not depend on the iteration can be kept
	for i, x := range exits {
		var m map[*T]*T
		cnt := Kx
		N := lp.counter(x, exits, back)
		if N != nil {
			m = map[*T]*T{K: N}
			cnt = N
			kind = "counted"
		} else {
			m = map[*T]*T{K: Kx}
		}
		cond := subst(mkB(bddConstrain(x.st.pc, P0)), m).b
		st := x.st
		for o, v := range st.heap {
			if mentions(v, K) {
				st.heap[o] = subst(v, m)
			}
		}
		st.trace = seqCat(lp.init.trace, mkRepN(K, cnt, Y), subst(st.trace, m))
		if len(exits) == 1 {
			st.pc = P0
			if N == nil {
				for _, f := range pcFactsRaw(cond) {
					for a := range f.m {
						atomFacts[a] = append(atomFacts[a], f.term())
					}
				}
				if !mentions(mkB(cond), Kx) {
					st.pc = bddAnd(P0, cond)
				}
			}
		} else {
			var ch *BDD
			if i < len(exits)-1 {
				a := mkOp(fmt.Sprintf("exit:%s:%d", lp.key, i), lp.outer...)
				ch = bddVar(a)
				sideBDD[lit{a, true}] = cond
				g := bddAnd(rest, ch)
				sideAll[a] = append(sideAll[a], bddOr(bddNot(g), cond))
				st.pc = bddAnd(P0, bddAnd(rest, ch))
				rest = bddAnd(rest, bddNot(ch))
			} else {
				a := mkOp(fmt.Sprintf("exit:%s:%d", lp.key, i-1), lp.outer...)
				sideBDD[lit{a, false}] = cond
				sideAll[a] = append(sideAll[a], bddOr(bddNot(rest), cond))
				st.pc = bddAnd(P0, rest)
			}
			xpcMemo = map[int]*BDD{}
		}
		if x.target == nil {
			v := x.ret.val
			if v != nil {
				v = subst(v, m)
			}
			fr.rets = append(fr.rets, retEdge{st, v})
			continue
		}
		for p, v := range x.e.phis {
			x.e.phis[p] = subst(v, m)
		}
		for v, t := range x.env {
			x.env[v] = subst(t, m)
		}
		out[x.target] = append(out[x.target], x.e)
	}
	var ne []*lexit
	for _, x := range exits {
		if x.target != nil {
			ne = append(ne, x)
		}
	}
	lp.mergeEnv(ne)
	if in.quiet == 0 {
		in.loopLog = append(in.loopLog, &loopReport{fn: fr.fn, pos: headerPos(lp.n.header), kind: kind})
	}
	if len(exits) == 0 && in.quiet == 0 {
		in.note("loop without exit in %s", fr.fn)
	}
	return out
}

func pcFactsRaw(pc *BDD) []lin { return pcFacts(pc) }

func headerPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return 0
}
