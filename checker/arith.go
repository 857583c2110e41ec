package main

import (
	"sort"
)

// ---------------------------------------------------------------- linear forms

type lin struct {
	c int64
	m map[*T]int64
}

func linOf(t *T) lin {
	l := lin{m: map[*T]int64{}}
	switch t.k {
	case KConst:
		l.c = t.i
	case KLin:
		l.c = t.i
		for j, x := range t.a {
			l.m[x] = t.co[j]
		}
	default:
		if t.isOp("fit") {
			return linOf(t.a[0])
		}
		l.m[t] = 1
	}
	return l
}

func (l lin) addScaled(o lin, k int64) lin {
	r := lin{c: l.c + k*o.c, m: make(map[*T]int64, len(l.m)+len(o.m))}
	for a, v := range l.m {
		r.m[a] = v
	}
	for a, v := range o.m {
		n := r.m[a] + k*v
		if n == 0 {
			delete(r.m, a)
		} else {
			r.m[a] = n
		}
	}
	return r
}

func (l lin) atoms() []*T {
	r := make([]*T, 0, len(l.m))
	for a := range l.m {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (l lin) term() *T {
	if len(l.m) == 0 {
		return mkInt(l.c)
	}
	at := l.atoms()
	// gated summands under the same condition are one gated sum
	var byCond map[*T]*T
	for _, a := range at {
		if a.k != KIte || !isIntLike(a.a[1]) || !isIntLike(a.a[2]) {
			continue
		}
		if o := byCond[a.a[0]]; o != nil {
			n := l.addScaled(lin{m: map[*T]int64{o: l.m[o], a: l.m[a]}}, -1)
			x := linOf(mulc(o.a[1], l.m[o])).addScaled(linOf(a.a[1]), l.m[a]).term()
			y := linOf(mulc(o.a[2], l.m[o])).addScaled(linOf(a.a[2]), l.m[a]).term()
			d := sub(x, y)
			if d.k == KConst {
				return n.addScaled(linOf(y), 1).addScaled(linOf(ite(a.a[0].b, d, mkInt(0))), 1).term()
			}
			return n.addScaled(linOf(ite(a.a[0].b, x, y)), 1).term()
		}
		if byCond == nil {
			byCond = map[*T]*T{}
		}
		byCond[a.a[0]] = a
	}
	if len(at) == 1 && l.c == 0 && l.m[at[0]] == 1 {
		return at[0]
	}
	co := make([]int64, len(at))
	for i, a := range at {
		co[i] = l.m[a]
	}
	t := intern(&T{k: KLin, i: l.c, a: at, co: co})
	return t
}

func add(a, b *T) *T                { return linOf(a).addScaled(linOf(b), 1).term() }
func sub(a, b *T) *T                { return linOf(a).addScaled(linOf(b), -1).term() }
func addc(a *T, c int64) *T         { return linOf(a).addScaled(lin{c: c}, 1).term() }
func mulc(a *T, c int64) *T         { return lin{m: map[*T]int64{}}.addScaled(linOf(a), c).term() }
func neg(a *T) *T                   { return mulc(a, -1) }
func addScaled(a, b *T, k int64) *T { return linOf(a).addScaled(linOf(b), k).term() }

func mul(a, b *T) *T {
	if a.k == KConst {
		return mulc(b, a.i)
	}
	if b.k == KConst {
		return mulc(a, b.i)
	}
	if a.id > b.id {
		a, b = b, a
	}
	r := mkOp("mul", a, b)
	alo, aok, _, _ := rng(a)
	blo, bok, _, _ := rng(b)
	if aok && bok && alo >= 0 && blo >= 0 {
		r.setRange(0, true, 0, false)
	}
	return r
}

// rng gives an interval for an integer term
// characters of texts whose domain restricts them
var charRange = map[*T][2]int64{}

func rng(t *T) (lo int64, hasLo bool, hi int64, hasHi bool) {
	switch t.k {
	case KOp:
		if t.op == "idx" && len(charRange) > 0 {
			if r, ok := charRange[t.a[0]]; ok {
				return r[0], true, r[1], true
			}
		}
	case KConst:
		return t.i, true, t.i, true
	case KLin:
		lo, hi = t.i, t.i
		hasLo, hasHi = true, true
		for j, x := range t.a {
			l, lk, h, hk := rng(x)
			c := t.co[j]
			if c < 0 {
				l, lk, h, hk = h, hk, l, lk
			}
			if lk && hasLo {
				lo += c * l
			} else {
				hasLo = false
			}
			if hk && hasHi {
				hi += c * h
			} else {
				hasHi = false
			}
		}
		return
	case KBits:
		return 0, true, int64(1)<<uint(len(t.a)) - 1, len(t.a) < 62
	case KIte:
		l1, a1, h1, b1 := rng(t.a[1])
		l2, a2, h2, b2 := rng(t.a[2])
		if a1 && a2 {
			hasLo = true
			lo = l1
			if l2 < lo {
				lo = l2
			}
		}
		if b1 && b2 {
			hasHi = true
			hi = h1
			if h2 > hi {
				hi = h2
			}
		}
		return
	}
	return t.lo, t.hasLo, t.hi, t.hasHi
}

// ---------------------------------------------------------------- bit vectors

func bitAtom(x *T, i int) *BDD {
	if x.k == KConst {
		if (x.i>>uint(i))&1 == 1 {
			return bddTrue
		}
		return bddFalse
	}
	t := intern(&T{k: KOp, op: "bit", i: int64(i), a: []*T{x}})
	return bddVar(t)
}

func bitLen(h int64) int {
	n := 0
	for h > 0 {
		n++
		h >>= 1
	}
	return n
}

// toBits yields the low w bits of t; ok=false when t may be negative
func toBits(t *T, w int) []*BDD {
	r := make([]*BDD, w)
	switch t.k {
	case KConst:
		for i := range r {
			if (t.i>>uint(i))&1 == 1 {
				r[i] = bddTrue
			} else {
				r[i] = bddFalse
			}
		}
		return r
	case KBits:
		for i := range r {
			if i < len(t.a) {
				r[i] = t.a[i].b
			} else {
				r[i] = bddFalse
			}
		}
		return r
	case KIte:
		a, b := toBits(t.a[1], w), toBits(t.a[2], w)
		for i := range r {
			r[i] = bddIte(t.a[0].b, a[i], b[i])
		}
		return r
	}
	lo, lk, hi, hk := rng(t)
	n := w
	if lk && hk && lo >= 0 {
		if b := bitLen(hi); b < n {
			n = b
		}
	}
	for i := range r {
		if i < n {
			r[i] = bitAtom(t, i)
		} else {
			r[i] = bddFalse
		}
	}
	return r
}

func mkBits(b []*BDD) *T {
	n := len(b)
	for n > 0 && b[n-1] == bddFalse {
		n--
	}
	b = b[:n]
	allc := true
	var v int64
	for i, x := range b {
		if x.atom != nil {
			allc = false
			break
		}
		if x == bddTrue {
			v |= int64(1) << uint(i)
		}
	}
	if allc && n < 63 {
		return mkInt(v)
	}
	// identity?
	if n > 0 && b[0].atom != nil && b[0].atom.isOp("bit") && b[0].atom.i == 0 && b[0] == bddVar(b[0].atom) {
		x := b[0].atom.a[0]
		lo, lk, hi, hk := rng(x)
		if lk && hk && lo >= 0 && bitLen(hi) == n {
			same := true
			for i := range b {
				if b[i] != bitAtom(x, i) {
					same = false
					break
				}
			}
			if same {
				return x
			}
		}
	}
	// common gate?  all bits of an Ite of identities
	a := make([]*T, n)
	for i := range b {
		a[i] = mkB(b[i])
	}
	return intern(&T{k: KBits, a: a})
}

func bitOp(op byte, x, y *T, w int) *T {
	a, b := toBits(x, w), toBits(y, w)
	r := make([]*BDD, w)
	for i := range r {
		switch op {
		case '&':
			r[i] = bddAnd(a[i], b[i])
		case '|':
			r[i] = bddOr(a[i], b[i])
		case '^':
			r[i] = bddXor(a[i], b[i])
		case 'n': // and not
			r[i] = bddAnd(a[i], bddNot(b[i]))
		}
	}
	return mkBits(r)
}

func shl(x *T, n, w int) *T {
	a := toBits(x, w)
	r := make([]*BDD, w)
	for i := range r {
		if i >= n {
			r[i] = a[i-n]
		} else {
			r[i] = bddFalse
		}
	}
	return mkBits(r)
}
func shr(x *T, n, w int) *T {
	a := toBits(x, w)
	r := make([]*BDD, w)
	for i := range r {
		if i+n < w {
			r[i] = a[i+n]
		} else {
			r[i] = bddFalse
		}
	}
	return mkBits(r)
}

// byteAt gives byte n (0 = least significant) of x
func byteAt(x *T, n, w int) *T {
	a := toBits(x, w)
	return mkBits(a[n*8 : n*8+8])
}

// ---------------------------------------------------------------- comparisons

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) == (b > 0) {
		q++
	}
	return q
}

// bits value <= c
func bitsLe(b []*BDD, c int64) *BDD {
	if c < 0 {
		return bddFalse
	}
	r := bddTrue
	for i := 0; i < len(b); i++ {
		if (c>>uint(i))&1 == 1 {
			// x_i=0 -> true ; x_i=1 -> r
			r = bddOr(bddNot(b[i]), r)
		} else {
			r = bddAnd(bddNot(b[i]), r)
		}
	}
	if len(b) < 62 && c >= int64(1)<<uint(len(b))-1 {
		return bddTrue
	}
	return r
}

func bitsEq(b []*BDD, c int64) *BDD {
	if c < 0 || (len(b) < 62 && c >= int64(1)<<uint(len(b))) {
		return bddFalse
	}
	r := bddTrue
	for i := range b {
		if (c>>uint(i))&1 == 1 {
			r = bddAnd(r, b[i])
		} else {
			r = bddAnd(r, bddNot(b[i]))
		}
	}
	return r
}

// le0 builds the predicate t <= 0
func le0(t *T) *BDD {
	if _, _, hi, hk := rng(t); hk && hi <= 0 {
		return bddTrue
	}
	if lo, lk, _, _ := rng(t); lk && lo > 0 {
		return bddFalse
	}
	l := linOf(t)
	for _, a := range l.atoms() {
		if a.k == KIte {
			c := l.m[a]
			base := l.addScaled(linOf(a), -c).term()
			return bddIte(a.a[0].b, le0(addScaled(base, a.a[1], c)), le0(addScaled(base, a.a[2], c)))
		}
	}
	for _, a := range l.atoms() {
		// max(x,y)+r <= 0 exactly when both are, min when one is
		if c := l.m[a]; (a.isOp("max") || a.isOp("min")) && len(a.a) == 2 {
			base := l.addScaled(linOf(a), -c).term()
			x, y := le0(addScaled(base, a.a[0], c)), le0(addScaled(base, a.a[1], c))
			if a.isOp("max") == (c > 0) {
				return bddAnd(x, y)
			}
			return bddOr(x, y)
		}
	}
	if len(l.m) == 1 {
		a := l.atoms()[0]
		c := l.m[a]
		if a.k == KBits && (c == 1 || c == -1) {
			if c == 1 { // x + k <= 0
				return bitsLe(toBits(a, len(a.a)), -l.c)
			}
			// -x + k <= 0  <=> x >= k  <=> !(x <= k-1)
			return bddNot(bitsLe(toBits(a, len(a.a)), l.c-1))
		}
	}
	if r, ok := psumLe0(l); ok {
		return r
	}
	if len(l.m) == 1 {
		// an encoded text is empty exactly when the text is
		a := l.atoms()[0]
		if a.isOp("len") && (a.a[0].isOp("tenc") || a.a[0].isOp("tdec")) {
			n := seqLen(a.a[0].a[1])
			if l.m[a] == 1 && l.c == 0 {
				return le0(n)
			}
			if l.m[a] == -1 && l.c == 1 {
				return bddNot(le0(n))
			}
		}
	}
	var g int64
	for _, v := range l.m {
		g = gcd(g, v)
	}
	if g > 1 {
		n := lin{c: ceilDiv(l.c, g), m: map[*T]int64{}}
		for a, v := range l.m {
			n.m[a] = v / g
		}
		l = n
	}
	at := l.atoms()
	if l.m[at[0]] < 0 {
		// !(1 - t <= 0)
		n := lin{c: 1 - l.c, m: map[*T]int64{}}
		for a, v := range l.m {
			n.m[a] = -v
		}
		return bddNot(bddVar(mkOp("le0", n.term())))
	}
	return bddVar(mkOp("le0", l.term()))
}

func le(a, b *T) *BDD { return le0(sub(a, b)) }
func lt(a, b *T) *BDD { return le0(addc(sub(a, b), 1)) }

// eq0 builds t == 0
func eq0(t *T) *BDD {
	if t.k == KConst {
		if t.i == 0 {
			return bddTrue
		}
		return bddFalse
	}
	lo, lk, hi, hk := rng(t)
	if lk && lo > 0 || hk && hi < 0 {
		return bddFalse
	}
	if lk && lo == 0 {
		return le0(t)
	}
	if hk && hi == 0 {
		return le0(neg(t))
	}
	l := linOf(t)
	for _, a := range l.atoms() {
		if a.k == KIte {
			c := l.m[a]
			base := l.addScaled(linOf(a), -c).term()
			return bddIte(a.a[0].b, eq0(addScaled(base, a.a[1], c)), eq0(addScaled(base, a.a[2], c)))
		}
	}
	if l.c == 0 && len(l.m) == 2 {
		// the remaining length of a repetition (never negative) is zero
		if a := l.atoms()[0]; a.isOp("psum") && l.atoms()[1].isOp("psum") {
			full := a
			if a.a[1] != a.a[0].a[1] {
				full = l.atoms()[1]
			}
			if l.m[full] == -1 {
				l = lin{m: map[*T]int64{}}.addScaled(l, -1)
			}
			if r, ok := psumLe0(l); ok {
				return r
			}
		}
	}
	if len(l.m) == 1 {
		a := l.atoms()[0]
		c := l.m[a]
		if a.k == KBits && (c == 1 || c == -1) {
			return bitsEq(toBits(a, len(a.a)), -l.c*c)
		}
		if l.c%c != 0 {
			return bddFalse
		}
	}
	var g int64
	for _, v := range l.m {
		g = gcd(g, v)
	}
	if g > 1 {
		if l.c%g != 0 {
			return bddFalse
		}
		n := lin{c: l.c / g, m: map[*T]int64{}}
		for a, v := range l.m {
			n.m[a] = v / g
		}
		l = n
	}
	at := l.atoms()
	if l.m[at[0]] < 0 {
		n := lin{c: -l.c, m: map[*T]int64{}}
		for a, v := range l.m {
			n.m[a] = -v
		}
		l = n
	}
	// equality with a constant at the edge of the atom's range
	if len(at) == 1 && l.m[at[0]] == 1 {
		_, _, h, k := rng(at[0])
		if k && h == -l.c {
			return le0(sub(mkInt(h), at[0]))
		}
	}
	return bddVar(mkOp("eq", l.term(), mkInt(0)))
}

// ---------------------------------------------------------------- gated merge

type iteKey struct {
	c    int
	a, b int
}

var iteTMemo = map[iteKey]*T{}

func isIntLike(t *T) bool {
	switch t.k {
	case KConst, KLin, KBits:
		return true
	case KIte:
		return isIntLike(t.a[1]) && isIntLike(t.a[2])
	}
	return t.hasLo || t.hasHi
}

func ite(c *BDD, a, b *T) *T {
	if c == bddTrue || a == b {
		return a
	}
	if c == bddFalse {
		return b
	}
	k := iteKey{c.id, a.id, b.id}
	if r, ok := iteTMemo[k]; ok {
		return r
	}
	r := ite1(c, assume(a, c), assume(b, bddNot(c)))
	iteTMemo[k] = r
	return r
}

func ite1(c *BDD, a, b *T) *T {
	if a == b {
		return a
	}
	switch {
	case a.k == KBool && b.k == KBool:
		return mkB(bddIte(c, a.b, b.b))
	case a.k == KStruct && b.k == KStruct && len(a.a) == len(b.a), a.k == KTuple && b.k == KTuple && len(a.a) == len(b.a):
		f := make([]*T, len(a.a))
		for i := range f {
			f[i] = ite(c, a.a[i], b.a[i])
		}
		if a.k == KStruct {
			return mkStruct(f...)
		}
		return mkTuple(f...)
	case a.k == KSlice && b.k == KSlice && a.a[0] == b.a[0]:
		return mkSlice(a.a[0], ite(c, a.a[1], b.a[1]), ite(c, a.a[2], b.a[2]), ite(c, a.a[3], b.a[3]))
	case a.k == KIface && b.k == KIface && a.typ == b.typ:
		return mkIface(a.typ, ite(c, a.a[0], b.a[0]))
	case a.k == KSeq && b.k == KSeq:
		return seqIte(c, a, b)
	case a.k == KFn && b.k == KFn && a.fn == b.fn && len(a.a) == len(b.a):
		f := make([]*T, len(a.a))
		for i := range f {
			f[i] = ite(c, a.a[i], b.a[i])
		}
		return mkFn(a.fn, f...)
	}
	if isIntLike(a) && isIntLike(b) {
		if a.k == KBits || b.k == KBits {
			la, lka, ha, hka := rng(a)
			lb, lkb, hb, hkb := rng(b)
			if lka && lkb && la >= 0 && lb >= 0 && hka && hkb {
				w := bitLen(ha)
				if x := bitLen(hb); x > w {
					w = x
				}
				if w <= 32 && a.k != KLin && b.k != KLin {
					x, y := toBits(a, w), toBits(b, w)
					r := make([]*BDD, w)
					for i := range r {
						r[i] = bddIte(c, x[i], y[i])
					}
					return mkBits(r)
				}
			}
		}
		// factor the common linear part
		la, lb := linOf(a), linOf(b)
		com := lin{m: map[*T]int64{}}
		for x, v := range la.m {
			if lb.m[x] == v {
				com.m[x] = v
			}
		}
		if len(com.m) > 0 {
			ra := la.addScaled(com, -1).term()
			rb := lb.addScaled(com, -1).term()
			return add(com.term(), iteRaw(c, ra, rb))
		}
		return iteRaw(c, a, b)
	}
	return iteRaw(c, a, b)
}

func iteRaw(c *BDD, a, b *T) *T {
	if a == b {
		return a
	}
	// canonical polarity
	if c.atom != nil {
		n := bddNot(c)
		if n.id < c.id {
			c, a, b = n, b, a
		}
	}
	if a.k == KIte && a.a[2] == b {
		// c ? (d ? x : b) : b  ==  (c&&d) ? x : b
		return iteRaw2(bddAnd(c, a.a[0].b), a.a[1], b)
	}
	if b.k == KIte && b.a[1] == a {
		return iteRaw2(bddOr(c, b.a[0].b), a, b.a[2])
	}
	if a.k == KIte && a.a[1] == b {
		return iteRaw2(bddAnd(c, bddNot(a.a[0].b)), a.a[2], b)
	}
	if b.k == KIte && b.a[2] == a {
		return iteRaw2(bddAnd(bddNot(c), b.a[0].b), b.a[1], a)
	}
	return iteRaw2(c, a, b)
}

func iteRaw2(c *BDD, a, b *T) *T {
	if c == bddTrue || a == b {
		return a
	}
	if c == bddFalse {
		return b
	}
	n := bddNot(c)
	if n.id < c.id {
		c, a, b = n, b, a
	}
	if r := absForm(c, a, b); r != nil {
		return r
	}
	return intern(&T{k: KIte, a: []*T{mkB(c), a, b}})
}

// absForm recognises x<0 ? -x : x, also below a common truncation
func absForm(c *BDD, a, b *T) *T {
	w := int64(0)
	if a.isOp("wrap") && b.isOp("wrap") && a.i == b.i {
		w, a, b = a.i, a.a[0], b.a[0]
	}
	if neg(a) != b {
		return nil
	}
	ls := bddLits(c)
	if len(ls) != 1 || !ls[0].atom.isOp("le0") {
		return nil
	}
	q := ls[0].atom.a[0]
	if !ls[0].pos {
		a, b = b, a
	}
	// under q <= 0 the value is a, otherwise b == -a
	l := linOf(sub(q, b))
	if len(l.m) != 0 || l.c != 0 && l.c != 1 {
		return nil
	}
	if b.k == KConst {
		return nil
	}
	r := mkOpR(0, true, 0, false, "absint", b)
	if w != 0 {
		return wrapInt(r, int(w))
	}
	return r
}

// ---------------------------------------------------------------- substitution

type subster struct {
	m    map[*T]*T
	pc   *BDD // when set, Ite conditions implied by pc are resolved
	memo map[*T]*T
	bm   map[*BDD]*BDD
}

func subst(t *T, m map[*T]*T) *T {
	s := &subster{m: m, memo: map[*T]*T{}, bm: map[*BDD]*BDD{}}
	return s.t(t)
}

type assumeKey struct{ t, c int }

var assumeMemo = map[assumeKey]*T{}

// assume simplifies t knowing that c holds
func assume(t *T, c *BDD) *T {
	if c.atom == nil || t.k == KConst || t.k == KNil || t.k == KSym || t.k == KPtr && true {
		return t
	}
	k := assumeKey{t.id, c.id}
	if r, ok := assumeMemo[k]; ok {
		return r
	}
	s := &subster{pc: c, memo: map[*T]*T{}, bm: map[*BDD]*BDD{}}
	r := s.t(t)
	assumeMemo[k] = r
	return r
}

func (s *subster) t(t *T) *T {
	if r, ok := s.m[t]; ok {
		return r
	}
	switch t.k {
	case KConst, KNil, KSym, KPtr, KFloat:
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.build(t)
	s.memo[t] = r
	return r
}

func (s *subster) b(b *BDD) *BDD {
	if b.atom == nil {
		return b
	}
	if s.pc != nil {
		if bddImplies(s.pc, b) {
			return bddTrue
		}
		if bddAnd(s.pc, b) == bddFalse {
			return bddFalse
		}
		return b
	}
	if r, ok := s.bm[b]; ok {
		return r
	}
	at := s.atom(b.atom)
	r := bddIte(at, s.b(b.hi), s.b(b.lo))
	s.bm[b] = r
	return r
}

func (s *subster) atom(a *T) *BDD {
	if r, ok := s.m[a]; ok {
		return r.b
	}
	r := s.t(a)
	if r.k == KBool {
		return r.b
	}
	return bddVar(r)
}

func (s *subster) build(t *T) *T {
	switch t.k {
	case KBool:
		return mkB(s.b(t.b))
	case KIte:
		c := s.b(t.a[0].b)
		if c == bddTrue {
			return s.t(t.a[1])
		}
		if c == bddFalse {
			return s.t(t.a[2])
		}
		if s.pc != nil {
			return iteNoAssume(c, s.under(t.a[1], c), s.under(t.a[2], bddNot(c)))
		}
		return ite(c, s.t(t.a[1]), s.t(t.a[2]))
	}
	if s.pc != nil && t.isOp("ites") {
		c := s.b(t.a[0].b)
		if c == bddTrue {
			return s.t(t.a[1])
		}
		if c == bddFalse {
			return s.t(t.a[2])
		}
		return seqIte(c, s.under(t.a[1], c), s.under(t.a[2], bddNot(c)))
	}
	ch := false
	args := make([]*T, len(t.a))
	for i, x := range t.a {
		args[i] = s.t(x)
		if args[i] != x {
			ch = true
		}
	}
	if s.pc != nil && (t.isOp("min") || t.isOp("max")) {
		return minMax(t.op, args[0], args[1], s.pc)
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

// under simplifies a branch knowing its guard as well
func (s *subster) under(t *T, c *BDD) *T {
	p := bddAnd(s.pc, c)
	if p == s.pc || p == bddFalse {
		return s.t(t)
	}
	return assume(t, p)
}

func iteNoAssume(c *BDD, a, b *T) *T {
	if c == bddTrue || a == b {
		return a
	}
	if c == bddFalse {
		return b
	}
	return ite1(c, a, b)
}

func rebuild(t *T, args []*T) *T {
	switch t.k {
	case KLin:
		l := lin{c: t.i, m: map[*T]int64{}}
		for i, x := range args {
			l = l.addScaled(linOf(x), t.co[i])
		}
		return l.term()
	case KBits:
		b := make([]*BDD, len(args))
		for i := range args {
			b[i] = args[i].b
		}
		return mkBits(b)
	case KStruct:
		return mkStruct(args...)
	case KTuple:
		return mkTuple(args...)
	case KSlice:
		return mkSlice(args[0], args[1], args[2], args[3])
	case KIface:
		return mkIface(t.typ, args[0])
	case KFn:
		return mkFn(t.fn, args...)
	case KSeq:
		return seqCat(args...)
	case KOp:
		switch t.op {
		case "le0":
			return mkB(le0(args[0]))
		case "eq":
			if args[1].isInt(0) {
				return mkB(eq0(args[0]))
			}
			return mkB(eqTerm(args[0], args[1]))
		case "bit":
			return mkB(toBits(args[0], int(t.i)+1)[t.i])
		case "sub", "unit", "rep", "ites", "psum", "len", "idx", "isnil":
			return rebuildSeqOp(t, args)
		case "wrap":
			return wrapInt(args[0], int(t.i))
		case "fit":
			return narrowed(args[0], t.i)
		case "mul":
			return mul(args[0], args[1])
		case "div":
			return divInt(args[0], args[1])
		case "mod":
			return modInt(args[0], args[1])
		case "min", "max":
			return minMax(t.op, args[0], args[1], bddTrue)
		case "anyk":
			return mkB(anyOf(args[0]))
		}
		n := intern(&T{k: KOp, op: t.op, i: t.i, a: args, typ: t.typ})
		n.setRange(t.lo, t.hasLo, t.hi, t.hasHi)
		if simp := simplifyOp(n); simp != nil {
			return simp
		}
		return n
	}
	panic("rebuild " + t.String())
}

// wrapInt reduces an integer term to w bits (w<0: signed |w| bits)
func wrapInt(t *T, w int) *T {
	lo, lk, hi, hk := rng(t)
	if w > 0 {
		if w >= 63 {
			return t
		}
		max := int64(1)<<uint(w) - 1
		if lk && hk && lo >= 0 && hi <= max {
			return t
		}
		if t.isOp("absint") && w == 32 {
			if m := microOf(t.a[0]); m != nil {
				m.setRange(0, true, 1<<32-1, true)
				return m
			}
		}
		switch t.k {
		case KConst:
			return mkInt(t.i & max)
		case KBits:
			return mkBits(toBits(t, w))
		case KIte:
			return ite(t.a[0].b, wrapInt(t.a[1], w), wrapInt(t.a[2], w))
		case KLin:
			// drop whole multiples of 2^w from the constant and the coefficients
			l := linOf(t)
			n := lin{c: ((l.c % (max + 1)) + max + 1) % (max + 1), m: map[*T]int64{}}
			for a, v := range l.m {
				v %= max + 1
				if v > max/2 {
					v -= max + 1
				} else if v < -max/2 {
					v += max + 1
				}
				if v != 0 {
					n.m[a] = v
				}
			}
			nt := n.term()
			if nt != t {
				if nl, k1, nh, k2 := rng(nt); k1 && k2 && nl >= 0 && nh <= max {
					return nt
				}
			}
			r := intern(&T{k: KOp, op: "wrap", i: int64(w), a: []*T{nt}})
			r.setRange(0, true, max, true)
			return r
		default:
			if lk && lo >= 0 {
				return mkBits(toBits(t, w))
			}
			r := intern(&T{k: KOp, op: "wrap", i: int64(w), a: []*T{t}})
			r.setRange(0, true, max, true)
			return r
		}
	}
	sw := -w
	if sw >= 64 {
		return t
	}
	max := int64(1)<<uint(sw-1) - 1
	min := -max - 1
	if lk && hk && lo >= min && hi <= max {
		return t
	}
	if t.k == KConst {
		m := int64(1) << uint(sw)
		v := ((t.i % m) + m) % m
		if v > max {
			v -= m
		}
		return mkInt(v)
	}
	r := intern(&T{k: KOp, op: "wrap", i: int64(w), a: []*T{t}})
	r.setRange(min, true, max, true)
	return r
}

func divInt(a, b *T) *T {
	if a.k == KConst && b.k == KConst && b.i != 0 {
		return mkInt(a.i / b.i)
	}
	if b.isInt(1) {
		return a
	}
	if b.k == KConst && b.i > 0 {
		lo, lk, hi, hk := rng(a)
		if lk && lo >= 0 {
			l := linOf(a)
			all := true
			for _, v := range l.m {
				if v%b.i != 0 {
					all = false
				}
			}
			if all && l.c%b.i == 0 {
				n := lin{c: l.c / b.i, m: map[*T]int64{}}
				for x, v := range l.m {
					n.m[x] = v / b.i
				}
				return n.term()
			}
			return mkOpR(0, true, hi/b.i, hk, "div", a, b)
		}
	}
	return mkOp("div", a, b)
}

func modInt(a, b *T) *T {
	if a.k == KConst && b.k == KConst && b.i != 0 {
		return mkInt(a.i % b.i)
	}
	if b.k == KConst && b.i > 0 {
		lo, lk, hi, hk := rng(a)
		if lk && lo >= 0 {
			if hk && hi < b.i {
				return a
			}
			return mkOpR(0, true, b.i-1, true, "mod", a, b)
		}
		return mkOpR(-b.i+1, true, b.i-1, true, "mod", a, b)
	}
	return mkOp("mod", a, b)
}

// ---------------------------------------------------------------- entailment

// side facts attached to the choice atoms introduced at loop exits
var sideFacts = map[lit][]*T{} // each t means t <= 0
// unconditional facts about atoms (loop counters)
var atomFacts = map[*T][]*T{} // facts t<=0 mentioning the atom

var factMemo = map[int][]lin{}

func pcFacts(pc *BDD) []lin {
	if r, ok := factMemo[pc.id]; ok {
		return r
	}
	var r []lin
	var addLit func(l lit)
	addLit = func(l lit) {
		a := l.atom
		switch {
		case a.isOp("le0"):
			x := linOf(a.a[0])
			if l.pos {
				r = append(r, x)
			} else {
				r = append(r, lin{c: 1, m: map[*T]int64{}}.addScaled(x, -1))
			}
		case a.isOp("eq") && a.a[1].isInt(0):
			if l.pos {
				x := linOf(a.a[0])
				r = append(r, x, lin{m: map[*T]int64{}}.addScaled(x, -1))
			} else {
				// x != 0 with a known bound on one side is decided by eq0
			}
		}
		for _, f := range sideFacts[l] {
			r = append(r, linOf(f))
		}
	}
	for _, l := range bddLits(pc) {
		addLit(l)
	}
	factMemo[pc.id] = r
	return r
}

func clearFactMemo() { factMemo = map[int][]lin{} }

// structural facts about an atom
func (p *prover) factsOf(a *T) []lin {
	var r []lin
	for _, f := range atomFacts[a] {
		r = append(r, linOf(f))
	}
	if a.k == KOp {
		for _, mf := range muFacts[a.op] {
			m := map[*T]*T{}
			for i, p := range mf.params {
				if i < len(a.a) && a.a[i] != p {
					m[p] = a.a[i]
				}
			}
			f := mf.fact
			if len(m) > 0 {
				f = subst(f, m)
			}
			r = append(r, linOf(f))
		}
	}
	z := lin{m: map[*T]int64{}}
	switch {
	case a.isOp("min"):
		for _, x := range a.a {
			r = append(r, linOf(a).addScaled(linOf(x), -1))
		}
	case a.isOp("max"):
		for _, x := range a.a {
			r = append(r, linOf(x).addScaled(linOf(a), -1))
		}
	case a.isOp("div"):
		if a.a[1].k == KConst && a.a[1].i > 0 {
			if lo, lk, _, _ := rng(a.a[0]); lk && lo >= 0 {
				// c*q <= x ; x <= c*q + c-1
				q := z.addScaled(linOf(a), a.a[1].i)
				r = append(r, q.addScaled(linOf(a.a[0]), -1))
				r = append(r, linOf(a.a[0]).addScaled(q, -1).addScaled(lin{c: a.a[1].i - 1}, -1))
			}
		} else if lo, lk, _, _ := rng(a.a[1]); lk && lo >= 1 && p.pc != nil && !p.inLt {
			p.inLt = true
			if proveLe0Shallow(neg(a.a[0]), p.pc) {
				// 0 <= q <= x
				r = append(r, z.addScaled(linOf(a), -1), linOf(a).addScaled(linOf(a.a[0]), -1))
			}
			p.inLt = false
		}
	case a.isOp("psum"):
		// psum(R,k) <= psum(R,N)
		rep := a.a[0]
		if a.a[1] != rep.a[1] {
			if p.pc != nil && p.lt(a.a[1], rep.a[1]) {
				step := linOf(assume(subst(seqLen(rep.a[2]), map[*T]*T{rep.a[0]: a.a[1]}), p.pc))
				r = append(r, linOf(a).addScaled(step, 1).addScaled(linOf(psum(rep, rep.a[1])), -1))
			}
			r = append(r, linOf(a).addScaled(linOf(psum(rep, rep.a[1])), -1))
		}
	}
	return r
}

type prover struct {
	facts []lin
	seen  map[*T]bool
	steps int
	pc    *BDD
	inLt  bool
}

// lt: a simple strict comparison known on this path
func (p *prover) lt(a, b *T) bool {
	if p.inLt {
		return bddImplies(p.pc, lt(a, b))
	}
	p.inLt = true
	r := proveLe0Shallow(addc(sub(a, b), 1), p.pc)
	p.inLt = false
	return r
}

func proveLe0Shallow(t *T, pc *BDD) bool {
	if bddImplies(pc, le0(t)) {
		return true
	}
	q := &prover{facts: pcFacts(pc), pc: pc, inLt: true, steps: 200}
	return q.prove(linOf(t), 3)
}

// proveLe0 decides whether pc entails t <= 0 (sound, incomplete)
func proveLe0(t *T, pc *BDD) bool {
	if _, _, hi, hk := rng(t); hk && hi <= 0 {
		return true
	}
	if pc == bddFalse {
		return true
	}
	b := le0(t)
	if bddImplies(pc, b) {
		return true
	}
	l := linOf(t)
	for _, a := range l.atoms() {
		if a.k == KIte {
			c := l.m[a]
			base := l.addScaled(linOf(a), -c).term()
			p1, p2 := bddAnd(pc, a.a[0].b), bddAnd(pc, bddNot(a.a[0].b))
			return (p1 == bddFalse || proveLe0(addScaled(base, a.a[1], c), p1)) &&
				(p2 == bddFalse || proveLe0(addScaled(base, a.a[2], c), p2))
		}
	}
	p := &prover{facts: pcFacts(pc), pc: pc}
	p.steps = 4000
	return p.prove(l, 5)
}

func proveNonNeg(t *T, pc *BDD) bool { return proveLe0(neg(t), pc) }
func proveEq(a, b *T, pc *BDD) bool {
	if a == b {
		return true
	}
	d := sub(a, b)
	if d.k == KConst {
		return d.i == 0
	}
	return proveLe0(d, pc) && proveLe0(neg(d), pc)
}

func upper(l lin) (int64, bool) {
	s := l.c
	for a, v := range l.m {
		lo, lk, hi, hk := rng(a)
		if v > 0 {
			if !hk {
				return 0, false
			}
			s += v * hi
		} else {
			if !lk {
				return 0, false
			}
			s += v * lo
		}
	}
	return s, true
}

func (p *prover) prove(g lin, depth int) bool {
	if u, ok := upper(g); ok && u <= 0 {
		return true
	}
	if depth == 0 || p.steps <= 0 {
		return false
	}
	p.steps--
	// choose an atom that blocks the bound: first unbounded, else any
	try := func(a *T) bool {
		v := g.m[a]
		useFact := func(f lin) bool {
			fv := f.m[a]
			if fv == 0 || (fv > 0) != (v > 0) {
				return false
			}
			// g' = |fv|*g - |v|*f  (scaled) ; eliminates a
			x, y := fv, v
			if x < 0 {
				x, y = -x, -y
			}
			d := gcd(x, y)
			x, y = x/d, y/d
			if x > 1<<20 || y > 1<<20 {
				return false
			}
			n := lin{m: map[*T]int64{}}.addScaled(g, x).addScaled(f, -y)
			return p.prove(n, depth-1)
		}
		for _, f := range p.facts {
			if useFact(f) {
				return true
			}
		}
		for _, f := range p.factsOf(a) {
			if useFact(f) {
				return true
			}
		}
		// structural facts of other atoms that mention a (min, div)
		return false
	}
	at := g.atoms()
	// atoms with missing bounds first
	for pass := 0; pass < 2; pass++ {
		for _, a := range at {
			v := g.m[a]
			_, lk, _, hk := rng(a)
			blocked := v > 0 && !hk || v < 0 && !lk
			if (pass == 0) != blocked {
				continue
			}
			if try(a) {
				return true
			}
			if pass == 0 {
				return false // this atom must be eliminated and cannot be
			}
		}
	}
	return false
}

// decide tries to settle a condition under pc
func decide(c *BDD, pc *BDD) *BDD {
	if c.atom == nil {
		return c
	}
	if bddImplies(pc, c) {
		return bddTrue
	}
	if bddAnd(pc, c) == bddFalse {
		return bddFalse
	}
	c2 := bddConstrain(c, pc)
	// try each remaining arithmetic atom
	full := pc
	for _, a := range bddSupport(c2) {
		// the atom matters only where flipping it changes the condition
		pc := full
		if len(bddSupport(c2)) > 1 {
			if rel := bddAnd(full, bddXor(bddCofactor(c2, a, true), bddCofactor(c2, a, false))); rel != bddFalse {
				pc = rel
			}
		}
		if a.isOp("le0") {
			if proveLe0(a.a[0], pc) {
				c2 = bddCofactor(c2, a, true)
			} else if proveLe0(addc(neg(a.a[0]), 1), pc) {
				c2 = bddCofactor(c2, a, false)
			}
		} else if a.isOp("eq") && a.a[1].isInt(0) {
			x := a.a[0]
			if proveLe0(addc(x, 1), pc) || proveLe0(addc(neg(x), 1), pc) {
				c2 = bddCofactor(c2, a, false)
			} else if proveEq(x, mkInt(0), pc) {
				c2 = bddCofactor(c2, a, true)
			}
		}
	}
	return c2
}

func bddCofactor(b *BDD, a *T, v bool) *BDD {
	if v {
		return bddConstrain2(b, a, true)
	}
	return bddConstrain2(b, a, false)
}

func bddConstrain2(b *BDD, a *T, v bool) *BDD {
	memo := map[*BDD]*BDD{}
	var w func(*BDD) *BDD
	w = func(n *BDD) *BDD {
		if n.atom == nil || n.atom.id > a.id {
			return n
		}
		if n.atom == a {
			if v {
				return n.hi
			}
			return n.lo
		}
		if r, ok := memo[n]; ok {
			return r
		}
		r := bddMk(n.atom, w(n.lo), w(n.hi))
		memo[n] = r
		return r
	}
	return w(b)
}

// anyOf: some element of a sequence of booleans holds
func anyOf(s *T) *BDD {
	r := bddFalse
	for _, g := range s.a {
		switch {
		case g.isOp("unit") && g.a[0].k == KBool:
			r = bddOr(r, g.a[0].b)
		case g.isOp("rep") && len(g.a[2].a) == 1 && g.a[2].a[0].isOp("unit") && g.a[2].a[0].a[0] == tFalse:
		default:
			r = bddOr(r, bddVar(mkOp("anyk", seqCat(g))))
		}
	}
	return r
}

func bddConst(b bool) *BDD {
	if b {
		return bddTrue
	}
	return bddFalse
}
