package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------- sequences

var seqEmpty = intern(&T{k: KSeq})

func unit(e *T) *T { return mkOp("unit", e) }

// opaque sequence atom as a full sequence
func seqAtom(s *T) *T { return seqCat(subSeg(s, mkInt(0), lenOf(s))) }

// list lengths fixed for a specialised analysis
var fixedLen = map[*T]int64{}
var specLen, specText int64 = -1, -1

func lenOf(s *T) *T {
	if s.k == KSeq {
		return seqLen(s)
	}
	if n, ok := fixedLen[s]; ok {
		return mkInt(n)
	}
	if specLen >= 0 && s.isOp("tenc") {
		if n := seqLen(s.a[1]); n.k == KConst {
			if n.i == 0 {
				return n
			}
			return addc(n, 1) // a text may grow when it is encoded
		}
	}
	return mkOpR(0, true, 0, false, "len", s)
}

func subSeg(s, off, ln *T) *T { return mkOp("sub", s, off, ln) }

func mkRep(k, n, body *T) *T {
	d := body.height
	kv := mkSymR(fmt.Sprintf("κ%d", d), 0, 0, false)
	if k != kv {
		body = subst(body, map[*T]*T{k: kv})
	}
	return mkOp("rep", kv, n, body)
}

func instBody(rep, k *T) *T {
	if rep.a[0] == k {
		return rep.a[2]
	}
	return subst(rep.a[2], map[*T]*T{rep.a[0]: k})
}

func segLen(s *T) *T {
	switch s.op {
	case "unit":
		return mkInt(1)
	case "sub":
		return s.a[2]
	case "rep":
		return psum(s, s.a[1])
	case "ites":
		return ite(s.a[0].b, seqLen(s.a[1]), seqLen(s.a[2]))
	}
	panic("segLen " + s.op)
}

// total length of the first k bodies of rep
func psum(rep, k *T) *T {
	bl := seqLen(rep.a[2])
	if bl.k == KConst {
		return mulc(k, bl.i)
	}
	if k.isInt(0) {
		return mkInt(0)
	}
	l := linOf(k)
	if l.c > 0 && l.c < 4 && len(l.m) > 0 || k.k == KConst && k.i <= 4 && k.i > 0 {
		p := addc(k, -1)
		return add(psum(rep, p), subst(bl, map[*T]*T{rep.a[0]: p}))
	}
	return mkOpR(0, true, 0, false, "psum", rep, k)
}

func repMinBody(rep *T) int64 {
	lo, ok, _, _ := rng(seqLen(rep.a[2]))
	if !ok {
		return 0
	}
	return lo
}

// predicates on the remaining length of a repetition are predicates on the
// number of remaining elements
func psumLe0(l lin) (*BDD, bool) {
	if len(l.m) != 2 {
		return nil, false
	}
	at := l.atoms()
	x, y := at[0], at[1]
	if !x.isOp("psum") || !y.isOp("psum") || x.a[0] != y.a[0] {
		return nil, false
	}
	rep := x.a[0]
	if x.a[1] != rep.a[1] {
		x, y = y, x
	}
	if x.a[1] != rep.a[1] || l.m[x] != -l.m[y] {
		return nil, false
	}
	k, n := y.a[1], rep.a[1]
	m := repMinBody(rep)
	if m < 1 {
		return nil, false
	}
	switch l.m[x] {
	case 1: // diff <= -c
		t := -l.c
		if t < 0 {
			return bddFalse, true
		}
		if t < m {
			return le0(sub(n, k)), true
		}
	case -1: // diff >= c
		c := l.c
		if c <= 0 {
			return bddTrue, true
		}
		if c <= m {
			return bddNot(le0(sub(n, k))), true
		}
	}
	return nil, false
}

func seqLen(s *T) *T {
	if s.slen != nil {
		return s.slen
	}
	r := mkInt(0)
	for _, x := range s.a {
		r = add(r, segLen(x))
	}
	s.slen = r
	return r
}

func rebuildSeqOp(t *T, args []*T) *T {
	switch t.op {
	case "unit":
		return unit(args[0])
	case "sub":
		if args[0].k == KSeq {
			if r, ok := seqSlice(args[0], args[1], args[2], bddTrue); ok {
				return r
			}
		}
		return seqCat(subSeg(args[0], args[1], args[2]))
	case "rep":
		return seqCat(mkOp("rep", args[0], args[1], args[2]))
	case "ites":
		return seqIte(args[0].b, args[1], args[2])
	case "psum":
		// args[0] may have become a sequence (normalised rep)
		r := args[0]
		if r.k == KSeq {
			if len(r.a) == 1 && r.a[0].isOp("rep") {
				r = r.a[0]
			} else {
				n := mkOp("psum", r, args[1])
				n.setRange(0, true, 0, false)
				return n
			}
		}
		return psum(r, args[1])
	case "len":
		return lenOf(args[0])
	case "idx":
		if args[0].k == KSeq {
			if r := seqIdx(args[0], args[1], bddTrue); r != nil {
				return r
			}
		}
		n := mkOp("idx", args[0], args[1])
		n.setRange(t.lo, t.hasLo, t.hi, t.hasHi)
		return n
	case "isnil":
		return mkB(isNil(args[0]))
	}
	panic("rebuildSeqOp")
}

func seqCat(parts ...*T) *T {
	var segs []*T
	var push func(s *T)
	push = func(s *T) {
		if s.k == KSeq {
			for _, x := range s.a {
				push(x)
			}
			return
		}
		switch s.op {
		case "sub":
			if s.a[2].isInt(0) {
				return
			}
			if s.a[0].k == KSeq && s.a[1].isInt(0) && s.a[2] == seqLen(s.a[0]) {
				push(s.a[0])
				return
			}
			if n := len(segs); n > 0 && segs[n-1].isOp("sub") && segs[n-1].a[0] == s.a[0] && add(segs[n-1].a[1], segs[n-1].a[2]) == s.a[1] {
				p := segs[n-1]
				segs = segs[:n-1]
				push(subSeg(p.a[0], p.a[1], add(p.a[2], s.a[2])))
				return
			}
		case "rep":
			if s.a[1].isInt(0) || len(s.a[2].a) == 0 {
				return
			}
			if s.a[1].k == KConst && s.a[1].i > 0 && s.a[1].i*int64(len(s.a[2].a)) <= 24 {
				for k := int64(0); k < s.a[1].i; k++ {
					push(instBody(s, mkInt(k)))
				}
				return
			}
			if n := len(segs); n > 0 && segs[n-1].isOp("rep") && segs[n-1].a[2] == s.a[2] && seqClosed(s) {
				p := segs[n-1]
				segs = segs[:n-1]
				push(mkOp("rep", s.a[0], add(p.a[1], s.a[1]), s.a[2]))
				return
			}
			// eta: elements of an opaque sequence in order
			if b := s.a[2].a; len(b) == 1 {
				if b[0].isOp("unit") && b[0].a[0].isOp("idx") {
					ix := b[0].a[0]
					off := sub(ix.a[1], s.a[0])
					if !mentions(off, s.a[0]) && !mentions(ix.a[0], s.a[0]) {
						push(subSeg(ix.a[0], off, s.a[1]))
						return
					}
				}
				if b[0].isOp("sub") && b[0].a[2].k == KConst {
					c := b[0].a[2].i
					off := sub(b[0].a[1], mulc(s.a[0], c))
					if !mentions(off, s.a[0]) && !mentions(b[0].a[0], s.a[0]) {
						push(subSeg(b[0].a[0], off, mulc(s.a[1], c)))
						return
					}
				}
			}
		case "ites":
			if s.a[1] == s.a[2] {
				push(s.a[1])
				return
			}
		}
		segs = append(segs, s)
	}
	for _, p := range parts {
		push(p)
	}
	return intern(&T{k: KSeq, a: segs})
}

func seqClosed(rep *T) bool { return !mentions(rep.a[2], rep.a[0]) }

type mentKey struct{ t, s int }

var mentMemo = map[mentKey]bool{}

func mentions(t, s *T) bool {
	if t == s {
		return true
	}
	switch t.k {
	case KConst, KNil, KSym, KPtr, KFloat:
		return false
	}
	k := mentKey{t.id, s.id}
	if r, ok := mentMemo[k]; ok {
		return r
	}
	r := false
	if t.k == KBool {
		for _, a := range bddSupport(t.b) {
			if mentions(a, s) {
				r = true
				break
			}
		}
	}
	for _, x := range t.a {
		if r {
			break
		}
		r = mentions(x, s)
	}
	mentMemo[k] = r
	return r
}

func seqIte(c *BDD, a, b *T) *T {
	if c == bddTrue || a == b {
		return a
	}
	if c == bddFalse {
		return b
	}
	i := 0
	for i < len(a.a) && i < len(b.a) && a.a[i] == b.a[i] {
		i++
	}
	j := 0
	for j < len(a.a)-i && j < len(b.a)-i && a.a[len(a.a)-1-j] == b.a[len(b.a)-1-j] {
		j++
	}
	pre := a.a[:i]
	post := a.a[len(a.a)-j:]
	am, bm := a.a[i:len(a.a)-j], b.a[i:len(b.a)-j]
	var mid *T
	allUnits := len(am) == len(bm) && len(am) > 0
	for x := 0; allUnits && x < len(am); x++ {
		if !am[x].isOp("unit") || !bm[x].isOp("unit") {
			allUnits = false
		}
	}
	parts := append([]*T{}, pre...)
	if allUnits {
		for x := range am {
			parts = append(parts, unit(ite(c, am[x].a[0], bm[x].a[0])))
		}
	} else {
		A, B := seqCat(am...), seqCat(bm...)
		// a text that is chosen exactly when it is not empty
		if len(A.a) == 0 && len(B.a) == 1 && B.a[0].isOp("sub") && le0(B.a[0].a[2]) == c ||
			len(B.a) == 0 && len(A.a) == 1 && A.a[0].isOp("sub") && le0(A.a[0].a[2]) == bddNot(c) {
			parts = append(parts, A.a...)
			parts = append(parts, B.a...)
			return seqCat(append(parts, post...)...)
		}
		n := bddNot(c)
		if n.id < c.id {
			c, A, B = n, B, A
		}
		mid = mkOp("ites", mkB(c), A, B)
		parts = append(parts, mid)
	}
	parts = append(parts, post...)
	return seqCat(parts...)
}

// locate finds the segment containing position p; returns index and offset in it
func locate(segs []*T, p *T, pc *BDD, wantElem bool) (int, *T, bool) {
	rem := p
	for i, s := range segs {
		L := segLen(s)
		d := sub(rem, L)
		if d.k == KConst {
			if d.i < 0 {
				return i, rem, true
			}
			rem = d
			continue
		}
		if rem.isInt(0) && !wantElem {
			return i, rem, true
		}
		if s.isOp("rep") {
			if _, _, ok := repSplit(s, rem, pc, wantElem); ok {
				return i, rem, true
			}
		}
		if proveNonNeg(d, pc) {
			rem = d
			continue
		}
		if proveLe0(addc(d, 1), pc) {
			return i, rem, true
		}
		if !wantElem && (s.isOp("sub") || s.isOp("ites")) && proveLe0(d, pc) {
			return i, rem, true
		}
		if rem.isInt(0) && i == len(segs)-1 {
			return i, rem, true
		}
		return i, rem, false
	}
	if rem.isInt(0) || proveEq(rem, mkInt(0), pc) {
		return len(segs), mkInt(0), true
	}
	return len(segs), rem, false
}

// repSplit: position rem = start of body(k) + j
func repSplit(s, rem *T, pc *BDD, wantElem bool) (k, j *T, ok bool) {
	n := s.a[1]
	bl := seqLen(s.a[2])
	l := linOf(rem)
	if bl.k == KConst {
		c := bl.i
		if c <= 0 {
			return nil, nil, false
		}
		q := lin{m: map[*T]int64{}}
		for a, v := range l.m {
			if v%c != 0 {
				if c == 1 {
					break
				}
				return nil, nil, false
			}
			q.m[a] = v / c
		}
		jj := ((l.c % c) + c) % c
		q.c = (l.c - jj) / c
		k = q.term()
		if !proveNonNeg(k, pc) {
			return nil, nil, false
		}
		lim := k
		if jj > 0 || wantElem {
			lim = addc(k, 1)
		}
		if !proveLe0(sub(lim, n), pc) {
			return nil, nil, false
		}
		return k, mkInt(jj), true
	}
	for _, a := range l.atoms() {
		if a.isOp("psum") && a.a[0] == s && l.m[a] == 1 && a.a[1] != n {
			return a.a[1], sub(rem, a), true
		}
	}
	if rem.k == KConst && rem.i >= 0 {
		if proveLe0(sub(mkInt(1), n), pc) {
			return mkInt(0), rem, true
		}
	}
	return nil, nil, false
}

// seqIdx returns element i of s, or nil when it cannot be resolved
func gatedUnder(s *T, pc *BDD) *T {
	if pc == bddTrue || pc == bddFalse {
		return s
	}
	for _, g := range s.a {
		if g.isOp("ites") {
			return assume(s, pc)
		}
	}
	return s
}

func seqIdx(s, i *T, pc *BDD) *T {
	if r := seqIdx1(s, i, pc); r != nil {
		return r
	}
	if a := gatedUnder(s, pc); a != s {
		return seqIdx1(a, i, pc)
	}
	return nil
}

func seqIdx1(s, i *T, pc *BDD) *T {
	n, rem, ok := locate(s.a, i, pc, true)
	if !ok || n >= len(s.a) {
		return nil
	}
	g := s.a[n]
	switch g.op {
	case "unit":
		if rem.isInt(0) || proveEq(rem, mkInt(0), pc) {
			return g.a[0]
		}
		return nil
	case "sub":
		if g.a[0].k == KSeq {
			if r := seqIdx(g.a[0], add(g.a[1], rem), pc); r != nil {
				return r
			}
		}
		return mkOp("idx", g.a[0], add(g.a[1], rem))
	case "rep":
		k, j, ok := repSplit(g, rem, pc, true)
		if !ok {
			return nil
		}
		return seqIdx(instBody(g, k), j, pc)
	case "ites":
		a := seqIdx(g.a[1], rem, bddAnd(pc, g.a[0].b))
		b := seqIdx(g.a[2], rem, bddAnd(pc, bddNot(g.a[0].b)))
		if a != nil && b != nil {
			return ite(g.a[0].b, a, b)
		}
	}
	return nil
}

// cutAt splits segs at position p
func cutAt(segs []*T, p *T, pc *BDD) (left, right []*T, ok bool) {
	if p.isInt(0) {
		return nil, segs, true
	}
	tot := seqLen(seqCat(segs...))
	if p == tot {
		return segs, nil, true
	}
	n, rem, ok := locate(segs, p, pc, false)
	if !ok {
		return nil, nil, false
	}
	if n >= len(segs) {
		return segs, nil, true
	}
	left = append(left, segs[:n]...)
	g := segs[n]
	if rem.isInt(0) {
		return left, segs[n:], true
	}
	switch g.op {
	case "sub":
		left = append(left, subSeg(g.a[0], g.a[1], rem))
		right = append(right, subSeg(g.a[0], add(g.a[1], rem), sub(g.a[2], rem)))
	case "rep":
		k, j, ok := repSplit(g, rem, pc, false)
		if !ok {
			return nil, nil, false
		}
		left = append(left, mkOp("rep", g.a[0], k, g.a[2]))
		if j.isInt(0) {
			right = append(right, shiftRep(g, k))
		} else {
			bl, br, ok := cutAt(instBody(g, k).a, j, pc)
			if !ok {
				return nil, nil, false
			}
			left = append(left, bl...)
			right = append(right, br...)
			right = append(right, shiftRep(g, addc(k, 1)))
		}
	case "ites":
		c := g.a[0].b
		al, ar, ok1 := cutAt(g.a[1].a, rem, bddAnd(pc, c))
		bl, br, ok2 := cutAt(g.a[2].a, rem, bddAnd(pc, bddNot(c)))
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		left = append(left, seqIte(c, seqCat(al...), seqCat(bl...)))
		right = append(right, seqIte(c, seqCat(ar...), seqCat(br...)))
	default:
		return nil, nil, false
	}
	right = append(right, segs[n+1:]...)
	return left, right, true
}

func shiftRep(g, k *T) *T {
	if k.isInt(0) {
		return g
	}
	return mkOp("rep", g.a[0], sub(g.a[1], k), subst(g.a[2], map[*T]*T{g.a[0]: add(g.a[0], k)}))
}

// seqSlice returns s[off:off+ln]
func seqSlice(s, off, ln *T, pc *BDD) (*T, bool) {
	if r, ok := seqSlice1(s, off, ln, pc); ok {
		return r, ok
	}
	if a := gatedUnder(s, pc); a != s {
		return seqSlice1(a, off, ln, pc)
	}
	return nil, false
}

func seqSlice1(s, off, ln *T, pc *BDD) (*T, bool) {
	if ln.isInt(0) {
		return seqEmpty, true
	}
	if off.isInt(0) && (ln == seqLen(s) || proveEq(ln, seqLen(s), pc)) {
		return s, true
	}
	// the usual special case: a single element of a repetition
	_, r, ok := cutAt(s.a, off, pc)
	if !ok {
		return nil, false
	}
	rs := seqCat(r...)
	if ln == seqLen(rs) {
		return rs, true
	}
	l, _, ok := cutAt(rs.a, ln, pc)
	if !ok {
		return nil, false
	}
	return seqCat(l...), true
}

func sliceOrOpaque(s, off, ln *T, pc *BDD) *T {
	if r, ok := seqSlice(s, off, ln, pc); ok {
		return r
	}
	base := s
	if len(s.a) == 1 && s.a[0].isOp("sub") {
		g := s.a[0]
		return seqCat(subSeg(g.a[0], add(g.a[1], off), ln))
	}
	return seqCat(subSeg(base, off, ln))
}

// seqStore writes element i
func seqStore(s, i, v *T, pc *BDD) *T {
	if i = assume(i, pc); i.k == KIte && len(s.a) < 16 {
		c := i.a[0].b
		return seqIte(c, seqStore(s, i.a[1], v, bddAnd(pc, c)), seqStore(s, i.a[2], v, bddAnd(pc, bddNot(c))))
	}
	l, r, ok := cutAt(s.a, i, pc)
	if ok {
		rs := seqCat(r...)
		_, r2, ok2 := cutAt(rs.a, mkInt(1), pc)
		if ok2 {
			return seqCat(append(append(append([]*T{}, l...), unit(v)), r2...)...)
		}
	}
	n := mkOp("upd", s, i, v)
	return seqCat(subSeg(n, mkInt(0), seqLen(s)))
}

func constString(s string) *T {
	segs := make([]*T, len(s))
	for i := 0; i < len(s); i++ {
		segs[i] = unit(mkInt(int64(s[i])))
	}
	return intern(&T{k: KSeq, a: segs})
}

// asConstString recovers a constant string
func asConstString(t *T) (string, bool) {
	if t.k != KSeq {
		return "", false
	}
	b := make([]byte, 0, len(t.a))
	for _, s := range t.a {
		if !s.isOp("unit") || s.a[0].k != KConst {
			return "", false
		}
		b = append(b, byte(s.a[0].i))
	}
	return string(b), true
}

// ---------------------------------------------------------------- nilness, equality

func isNil(t *T) *BDD {
	switch t.k {
	case KNil:
		return bddTrue
	case KPtr, KFn, KStruct:
		return bddFalse
	case KIface:
		return bddFalse
	case KIte:
		return bddIte(t.a[0].b, isNil(t.a[1]), isNil(t.a[2]))
	case KSlice:
		if t.a[0].k == KNil {
			return bddTrue
		}
		if t.a[0].k == KPtr && !t.a[0].obj.input || t.a[0].isOp("box") {
			return bddFalse
		}
		return bddVar(mkOp("isnil", t.a[0]))
	case KOp:
		if t.op == "nonnil" || t.op == "elem" || t.op == "box" || strings.HasPrefix(t.op, "call:create@") || strings.HasPrefix(t.op, "user:") {
			return bddFalse
		}
	case KSym:
		if nonNilSyms[t] {
			return bddFalse
		}
	}
	return bddVar(mkOp("isnil", t))
}

var nonNilSyms = map[*T]bool{}

func eqTerm(a, b *T) *BDD {
	if a == b {
		return bddTrue
	}
	if a.k == KNil {
		return isNil(b)
	}
	if b.k == KNil {
		return isNil(a)
	}
	if a.k == KBool && b.k == KBool {
		return bddNot(bddXor(a.b, b.b))
	}
	if a.k == KIte {
		return bddIte(a.a[0].b, eqTerm(a.a[1], b), eqTerm(a.a[2], b))
	}
	if b.k == KIte {
		return bddIte(b.a[0].b, eqTerm(a, b.a[1]), eqTerm(a, b.a[2]))
	}
	if isIntLike(a) && isIntLike(b) {
		return eq0(sub(a, b))
	}
	if a.k == KSeq && b.k == KSeq {
		if len(b.a) == 0 {
			return eq0(seqLen(a))
		}
		if len(a.a) == 0 {
			return eq0(seqLen(b))
		}
		d := sub(seqLen(a), seqLen(b))
		if d.k == KConst && d.i != 0 {
			return bddFalse
		}
		if lo, lk, hi, hk := rng(d); lk && lo > 0 || hk && hi < 0 {
			return bddFalse
		}
		// unit-wise
		if len(a.a) == len(b.a) {
			all := true
			r := bddTrue
			for i := range a.a {
				if a.a[i] == b.a[i] {
					continue
				}
				if !a.a[i].isOp("unit") || !b.a[i].isOp("unit") {
					all = false
					break
				}
				r = bddAnd(r, eqTerm(a.a[i].a[0], b.a[i].a[0]))
			}
			if all {
				return r
			}
		}
	}
	if a.k == KIface && b.k == KIface {
		if !types.Identical(a.typ, b.typ) {
			return bddFalse
		}
		return eqTerm(a.a[0], b.a[0])
	}
	if a.k == KPtr && b.k == KPtr && a.obj != b.obj {
		return bddFalse
	}
	if a.k == KSym && b.k == KSym && nonNilSyms[a] && nonNilSyms[b] {
		return bddFalse // distinct package-level error values
	}
	if (a.k == KSym && nonNilSyms[a] && b.isOp("nonnil")) || (b.k == KSym && nonNilSyms[b] && a.isOp("nonnil")) {
		return bddFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bddVar(mkOp("eq", a, b))
}
