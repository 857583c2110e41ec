package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Status of one obligation.
const (
	stProved     = "proved"
	stViolated   = "violated"
	stUnresolved = "unresolved"
)

// Ob is one obligation decided for one construct.
type Ob struct {
	Rule   string `json:"rule"`
	What   string `json:"what"` // construct, stable under line changes
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Detail string `json:"detail,omitempty"`
	Domain string `json:"domain,omitempty"` // domain restrictions used
}

// resolved: the term is built only from input fields and modelled operations
func resolved(t *T) bool { return unresolvedAtom(t) == "" }

var unresMemo = map[*T]string{}

// freeMode: results of external calls and received messages are inputs of the
// analysed function, any value is possible
var freeMode bool

func freeInput(t *T) bool {
	if !freeMode || t.k != KOp {
		return false
	}
	if strings.HasPrefix(t.op, "received@") || t.op == "perr" || t.op == "nobody" || t.op == "haskey" {
		return true
	}
	if strings.HasPrefix(t.op, "call:invoke:") || strings.HasPrefix(t.op, "call:create@") || strings.HasPrefix(t.op, "is:") && freeInput(t.a[0]) {
		return true
	}
	return !strictCalls && strings.HasPrefix(t.op, "call:") && !strings.Contains(t.op, "coco/go808") && !strings.HasPrefix(t.op, "call:dyn")
}

// strictCalls: results of calls that are not modelled decide nothing
var strictCalls bool

func unresolvedAtom(t *T) string {
	if r, ok := unresMemo[t]; ok {
		return r
	}
	unresMemo[t] = ""
	if freeInput(t) {
		return ""
	}
	r := ""
	if t.k == KOp || t.k == KSym {
		for _, p := range []string{"mu:", "exit:", "Kx:", "K:", "opaque:", "copied", "upd", "eff:", "next:", "recv:", "select:", "conv:", "enc", "dec", "un", "builtin:", "as:"} {
			if t.op == p || strings.HasSuffix(p, ":") && strings.HasPrefix(t.op, p) {
				r = t.op
			}
		}
		if strictCalls && strings.HasPrefix(t.op, "call:") {
			r = t.op
		}
		if strings.Contains(t.op, "@") {
			r = t.op
		}
		if t.k == KSym && strings.Contains(t.op, "coco/go808") && !nonNilSyms[t] {
			r = "package variable " + t.op
		}
	}
	if t.isOp("le0") || t.isOp("eq") || t.isOp("eq0") {
		for _, a := range linOf(t.a[0]).atoms() {
			if a.isOp("psum") {
				r = "an undecided comparison of running offsets"
			}
		}
	}
	if t.k == KBool {
		for _, a := range bddSupport(t.b) {
			if r == "" {
				r = unresolvedAtom(a)
			}
		}
	}
	for _, x := range t.a {
		if r != "" {
			break
		}
		r = unresolvedAtom(x)
	}
	unresMemo[t] = r
	return r
}

type cmp struct {
	r    *rtResult
	st   *State // state holding the decoded objects
	pos  string
	obs  []Ob
	dom  map[string]bool
	geo  map[string]string // coordinate path -> flag bit that carries its sign
	dead bool
}

func (c *cmp) add(rule, path, status, detail string) {
	c.obs = append(c.obs, Ob{Rule: rule, What: path, Pos: c.pos, Status: status, Detail: cut(detail, 700), Domain: strings.Join(sortedKeys(c.dom), "; ")})
}

func cut(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "…"
	}
	return s
}

func (c *cmp) fail(path string, o, d *T, pc *BDD) {
	u := unresolvedAtom(d)
	if u == "" {
		u = unresolvedAtom(mkB(pc))
	}
	if u != "" {
		c.add("round-trip", path, stUnresolved, fmt.Sprintf("decoded value depends on %s", u))
		return
	}
	c.differ("round-trip", path, o, d, pc, fmt.Sprintf("decoding the encoded form gives %v where the original is %v", d, o))
}

// differ reports a mismatch that a valuation of the two terms exhibits
func (c *cmp) differ(rule, path string, o, d *T, pc *BDD, msg string) {
	k, w := refuteEq(o, d, pc)
	switch k {
	case refWitness:
		c.add(rule, path, stViolated, w+": "+msg)
	case refUneval:
		c.add(rule, path, stViolated, msg+" ("+w+")")
	default:
		c.add(rule, path, stUnresolved, "terms not unified, but "+w)
	}
}

func (c *cmp) ok(path string) { c.add("round-trip", path, stProved, "") }

// eq decides that decoded value d equals original o, given pc
func (c *cmp) eq(path string, typ types.Type, o, d *T, pc *BDD) {
	if pc == bddFalse {
		return
	}
	d = assume(d, pc)
	o = assume(o, pc)
	if o == d {
		c.ok(path)
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if st, exp := asStruct(typ); exp {
			if d.k == KIte {
				c.split(path, typ, o, d, pc)
				return
			}
			if o.k == KStruct && d.k == KStruct {
				for i := 0; i < st.NumFields(); i++ {
					c.eq(path+"."+st.Field(i).Name(), st.Field(i).Type(), o.a[i], d.a[i], pc)
				}
				return
			}
			c.fail(path, o, d, pc)
			return
		}
		c.leaf(path, typ, o, d, pc)
	case *types.Pointer:
		c.ptr(path, u, o, d, pc)
	case *types.Slice:
		co, cd := assume(c.r.in.content(c.r.ost, o), pc), assume(c.r.in.content(c.st, d), pc)
		c.seq(path, u.Elem(), co, cd, pc)
	case *types.Array:
		c.seq(path, u.Elem(), c.r.in.content(c.r.ost, o), c.r.in.content(c.st, d), pc)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			c.seq(path, types.Typ[types.Byte], o, c.r.in.content(c.st, d), pc)
			return
		}
		c.leaf(path, typ, o, d, pc)
	case *types.Interface:
		c.iface(path, typ, o, d, pc)
	default:
		c.leaf(path, typ, o, d, pc)
	}
}

func (c *cmp) split(path string, typ types.Type, o, d *T, pc *BDD) {
	g := d.a[0].b
	c.eq(path, typ, o, d.a[1], bddAnd(pc, g))
	c.eq(path, typ, o, d.a[2], bddAnd(pc, bddNot(g)))
}

func (c *cmp) ptr(path string, u *types.Pointer, o, d *T, pc *BDD) {
	if typeName(u.Elem()) == "crypto/rsa.PublicKey" {
		c.rsaKey(path, o, d, pc)
		return
	}
	if o.k == KIte {
		g := o.a[0].b
		c.ptr(path, u, o.a[1], assume(d, bddAnd(pc, g)), bddAnd(pc, g))
		c.ptr(path, u, o.a[2], assume(d, bddAnd(pc, bddNot(g))), bddAnd(pc, bddNot(g)))
		return
	}
	if pc == bddFalse {
		return
	}
	if d.k == KIte {
		g := d.a[0].b
		c.ptr(path, u, o, assume(d.a[1], bddAnd(pc, g)), bddAnd(pc, g))
		c.ptr(path, u, o, assume(d.a[2], bddAnd(pc, bddNot(g))), bddAnd(pc, bddNot(g)))
		return
	}
	switch {
	case o.k == KNil && d.k == KNil:
		c.ok(path)
	case o.k == KPtr && d.k == KNil:
		if c.optional(path, o, pc) {
			return
		}
		c.fail(path, o, d, pc)
	case o.k == KPtr:
		ov := c.r.in.load(c.r.ost, o, u.Elem())
		var dv *T
		if d.isOp("box") {
			dv = d.a[0]
		} else if d.k == KPtr {
			dv = c.r.in.load(c.st, d, u.Elem())
		} else {
			c.fail(path, o, d, pc)
			return
		}
		c.eq(path+".*", u.Elem(), ov, dv, pc)
	default:
		if o.k == KNil && strings.HasSuffix(path, "[]") {
			c.dom["list elements are not nil"] = true
			c.ok(path)
			return
		}
		c.fail(path, o, d, pc)
	}
}

// optional: under pc the original value is not carried by the encoding at all,
// because the flag bits of the entity say the group is absent
func (c *cmp) optional(path string, o *T, pc *BDD) bool {
	leafs := fieldAtoms(o)
	ptr := o.k == KPtr
	if len(leafs) == 0 {
		return false
	}
	// the guard must be about bits of other fields of the entity
	flag := false
	for _, l := range bddLits(pc) {
		if l.atom.isOp("bit") {
			flag = true
		}
		if l.atom.isOp("isnil") && l.pos {
			flag = true
		}
	}
	if !flag {
		return false
	}
	found := false
	visitBodies(c.r.wire, pc, func(w *T) {
		for _, f := range leafs {
			if ptr {
				f = mkOp("deref", f)
			}
			if mentions(w, f) {
				found = true
			}
		}
	})
	if found {
		return false
	}
	c.dom["optional groups carry data only when their flag bit is set"] = true
	c.add("round-trip", path, stProved, "absent group")
	return true
}

// visitBodies visits a sequence and the bodies of its repetitions, simplified under pc
func visitBodies(s *T, pc *BDD, f func(*T)) {
	s = assume(s, pc)
	if s.k != KSeq {
		f(s)
		return
	}
	for _, g := range s.a {
		switch g.op {
		case "rep":
			visitBodies(g.a[2], pc, f)
		case "ites":
			f(g.a[0])
			visitBodies(g.a[1], bddAnd(pc, g.a[0].b), f)
			visitBodies(g.a[2], bddAnd(pc, bddNot(g.a[0].b)), f)
		default:
			f(g)
		}
	}
}

// fieldAtoms lists the input atoms a term is made of
func fieldAtoms(t *T) []*T {
	seen := map[*T]bool{}
	var out []*T
	var w func(*T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.k == KPtr && t.obj.base != nil {
			out = append(out, t.obj.base)
			return
		}
		if t.k == KOp && (strings.HasPrefix(t.op, "fld:") || t.op == "idx" || t.op == "deref") {
			out = append(out, t)
			return
		}
		if t.k == KBool {
			for _, a := range bddSupport(t.b) {
				w(a)
			}
		}
		for _, x := range t.a {
			w(x)
		}
	}
	w(t)
	return out
}

func (c *cmp) leaf(path string, typ types.Type, o, d *T, pc *BDD) {
	if o == d {
		c.ok(path)
		return
	}
	if c.timeLeaf(path, o, d) {
		return
	}
	if typeName(typ) == "github.com/shopspring/decimal.Decimal" {
		if c.geoLeaf(path, o, d, pc) {
			return
		}
	}
	if isIntLike(o) && intWidth(typ) != 0 {
		if c.bits(path, typ, o, d, pc) {
			return
		}
	}
	if d.k == KIte {
		g := d.a[0].b
		c.leaf(path, typ, assume(o, bddAnd(pc, g)), assume(d.a[1], bddAnd(pc, g)), bddAnd(pc, g))
		c.leaf(path, typ, assume(o, bddAnd(pc, bddNot(g))), assume(d.a[2], bddAnd(pc, bddNot(g))), bddAnd(pc, bddNot(g)))
		return
	}
	if pc == bddFalse {
		return
	}
	if isIntLike(o) && isIntLike(d) && proveEq(o, d, pc) {
		c.ok(path)
		return
	}
	if d == zero(typ) && c.optional(path, o, pc) {
		return
	}
	c.fail(path, o, d, pc)
}

func (c *cmp) timeLeaf(path string, o, d *T) bool {
	if d.isOp("sectime") && d.a[0] == o {
		c.dom["times are whole seconds of the years 2000-2099 in the local zone"] = true
		c.ok(path)
		return true
	}
	if strings.HasPrefix(d.op, "parsetime:20060102150405") && d.a[0].k == KSeq && len(d.a[0].a) == 14 {
		s := d.a[0]
		// the date digits followed by midnight
		x := timeDigits(seqCat(s.a[:8]...), 0, "20060102")
		mid := true
		for _, u := range s.a[8:] {
			mid = mid && u == unit(mkInt('0'))
		}
		if x != nil && stripSec(x) == o && mid {
			c.dom["expiry dates are midnights"] = true
			c.ok(path)
			return true
		}
	}
	// time of day rebuilt from its clock components
	if l := linOf(d); len(l.m) >= 2 && l.c == 0 {
		want := map[string]int64{"clock:hour": 3600e9, "clock:minute": 60e9, "clock:second": 1e9}
		okAll, base := true, (*T)(nil)
		got := map[string]bool{}
		for a, k := range l.m {
			if w, ok := want[a.op]; ok && len(a.a) == 1 {
				if w != k || base != nil && base != a.a[0] {
					okAll = false
				}
				base = a.a[0]
				got[a.op] = true
			} else if mentions(a, o) {
				got["sub"] = true
			} else {
				okAll = false
			}
		}
		if okAll && len(got) >= 3 && got["clock:hour"] && got["clock:minute"] && got["clock:second"] && base != nil && mentions(base, o) {
			c.dom["times of day lie within one day"] = true
			c.ok(path)
			return true
		}
	}
	return false
}

// sign atoms of a coordinate: predicates true exactly for negative values
func negAtom(a *T) *T {
	coord := func(x *T) *T {
		for x.k == KOp && (strings.HasSuffix(x.op, "Decimal).Mul") || strings.HasSuffix(x.op, "Decimal).IntPart")) {
			x = x.a[0]
		}
		return x
	}
	if strings.HasSuffix(a.op, "Decimal).IsNegative") {
		return coord(a.a[0])
	}
	if strings.HasSuffix(a.op, "Decimal).LessThan") && a.a[1].k == KSym && strings.HasSuffix(a.a[1].op, "decimal.Zero") {
		return coord(a.a[0])
	}
	if a.isOp("le0") {
		l := linOf(a.a[0])
		if len(l.m) != 1 {
			return nil
		}
		for x, k := range l.m {
			if k <= 0 || l.c != 1 && l.c != 0 {
				return nil
			}
			if strings.HasSuffix(x.op, "Decimal).IntPart") || l.c == 1 && strings.HasSuffix(x.op, "Decimal).Sign") ||
				l.c == 1 && strings.HasSuffix(x.op, "Decimal).Cmp") && x.a[1].k == KSym && strings.HasSuffix(x.a[1].op, "decimal.Zero") {
				return coord(x.a[0])
			}
		}
	}
	return nil
}

// coordinates whose sign atom forms b (a disjunction over list elements included)
func signOf(b *T, f *T) bool {
	if x := negAtom(b); x != nil {
		return x == f
	}
	if b.isOp("anyk") && b.a[0].k == KSeq && len(b.a[0].a) == 1 && b.a[0].a[0].isOp("rep") {
		body := b.a[0].a[0].a[2]
		if len(body.a) == 1 && body.a[0].isOp("unit") && body.a[0].a[0].k == KBool {
			s := bddSupport(body.a[0].a[0].b)
			if len(s) == 1 && body.a[0].a[0].b == bddVar(s[0]) {
				if x := negAtom(s[0]); x != nil {
					if x == f {
						return true
					}
					// same field of the same list at another position
					return sameShape(x, f)
				}
			}
		}
	}
	return false
}

func sameShape(x, f *T) bool {
	if x == f {
		return true
	}
	if x.k != f.k || x.op != f.op || len(x.a) != len(f.a) {
		return x.k == KSym && f.k == KSym && strings.HasPrefix(x.op, "κ") || strings.HasPrefix(x.op, "κ") && f.k != KSeq
	}
	for i := range x.a {
		if !sameShape(x.a[i], f.a[i]) {
			return false
		}
	}
	return true
}

func isSignAtom(a *T) bool {
	if negAtom(a) != nil {
		return true
	}
	if a.isOp("anyk") {
		s := a.a[0]
		return s.k == KSeq && len(s.a) == 1 && s.a[0].isOp("rep")
	}
	return false
}

func (c *cmp) geoLeaf(path string, o, d *T, pc *BDD) bool {
	neg, abs, g := (*T)(nil), (*T)(nil), bddFalse
	switch {
	case d.k == KIte && d.a[1].isOp("neggeo") && d.a[2].isOp("absgeo"):
		neg, abs, g = d.a[1], d.a[2], d.a[0].b
	case d.k == KIte && d.a[1].isOp("absgeo") && d.a[2].isOp("neggeo"):
		neg, abs, g = d.a[2], d.a[1], bddNot(d.a[0].b)
	case d.isOp("absgeo") || d.isOp("neggeo"):
		c.add("round-trip", path, stViolated, fmt.Sprintf("the sign of the coordinate is lost: decoded as %v", d))
		return true
	default:
		return false
	}
	if neg.a[0] != o || abs.a[0] != o || neg.a[1] != abs.a[1] {
		c.add("round-trip", path, stViolated, fmt.Sprintf("coordinate decoded from %v instead of %v", neg.a[0], o))
		return true
	}
	// negative coordinate -> negative branch; otherwise only the flag decides
	on, off := g, g
	for _, a := range bddSupport(g) {
		if signOf(a, o) {
			on = bddCofactor(on, a, true)
		}
		if isSignAtom(a) {
			off = bddCofactor(off, a, false)
		}
	}
	if on != bddTrue {
		c.add("round-trip", path, stViolated, fmt.Sprintf("a negative coordinate may come back positive: sign decided by %v", mkB(g)))
		return true
	}
	sup := bddSupport(off)
	if off.atom != nil && len(sup) == 1 && off == bddVar(sup[0]) && sup[0].isOp("bit") {
		c.geo[path] = sup[0].String()
		c.dom["hemisphere flags agree with the sign of the coordinate (all vertices of one area share it)"] = true
		c.dom["coordinates are multiples of 1e-6 degree"] = true
		c.ok(path)
		return true
	}
	if off == bddFalse {
		c.ok(path)
		return true
	}
	c.add("round-trip", path, stViolated, fmt.Sprintf("a non-negative coordinate may come back negative: sign decided by %v", mkB(off)))
	return true
}

// bits compares integers bit by bit; a decoded bit may be raised by the sign of
// a coordinate (hemisphere flags)
func (c *cmp) bits(path string, typ types.Type, o, d *T, pc *BDD) bool {
	w := intWidth(typ)
	if w < 0 {
		w = -w
	}
	if d.k != KBits && o.k != KBits {
		return false
	}
	if d.k == KIte || d.k == KLin {
		return false
	}
	ob, db := toBits(o, w), toBits(d, w)
	if ob == nil || db == nil || len(ob) != len(db) {
		return false
	}
	flags := false
	for i := range ob {
		if ob[i] == db[i] {
			continue
		}
		x := db[i]
		sign := false
		for _, a := range bddSupport(x) {
			if isSignAtom(a) {
				x = bddCofactor(x, a, false)
				sign = true
			}
		}
		y := db[i]
		for _, a := range bddSupport(y) {
			if isSignAtom(a) {
				y = bddCofactor(y, a, true)
			}
		}
		if sign && x == ob[i] && y == bddTrue {
			flags = true
			continue
		}
		if bddImplies(pc, bddNot(bddXor(ob[i], db[i]))) {
			continue
		}
		pres := db[i].atom != nil
		for _, a := range bddSupport(db[i]) {
			pres = pres && a.isOp("isnil")
		}
		if pres {
			c.dom["presence flags agree with the presence of the optional groups, which are complete or absent"] = true
			continue
		}
		if u := unresolvedAtom(mkB(bddAnd(db[i], pc))); u != "" {
			c.add("round-trip", path, stUnresolved, "bit depends on "+u)
			return true
		}
		c.differ("round-trip", path, mkB(ob[i]), mkB(db[i]), pc, fmt.Sprintf("bit %d comes back as %v", i, mkB(db[i])))
		return true
	}
	if flags {
		c.dom["hemisphere flags agree with the sign of the coordinate (all vertices of one area share it)"] = true
	}
	c.ok(path)
	return true
}

// seq compares two sequences (text, bytes, lists)
func (c *cmp) seq(path string, et types.Type, co, cd *T, pc *BDD) {
	if pc == bddFalse {
		return
	}
	if co == cd {
		c.ok(path)
		return
	}
	if len(cd.a) == 1 && cd.a[0].isOp("ites") {
		g := cd.a[0]
		cond, A, B := g.a[0].b, g.a[1], g.a[2]
		if c.fits(co, cond, A, B) || c.fits(co, bddNot(cond), B, A) {
			c.dom["texts fit the fixed-size fields that carry them"] = true
			c.ok(path)
			return
		}
		c.seq(path, et, assume(co, bddAnd(pc, cond)), A, bddAnd(pc, cond))
		c.seq(path, et, assume(co, bddAnd(pc, bddNot(cond))), B, bddAnd(pc, bddNot(cond)))
		return
	}
	lo, ld := seqLen(co), seqLen(cd)
	if len(cd.a) == 0 {
		if proveLe0(lo, pc) {
			c.ok(path)
			return
		}
		if co.k == KSeq && c.optional(path, co, pc) {
			return
		}
		c.fail(path, co, cd, pc)
		return
	}
	if !proveEq(lo, ld, pc) {
		if unresolvedAtom(cd) == "" && unresolvedAtom(mkB(pc)) == "" {
			c.differ("round-trip", path, co, cd, pc, fmt.Sprintf("length comes back as %v instead of %v: %v", ld, lo, cd))
		} else {
			c.fail(path, co, cd, pc)
		}
		return
	}
	if len(cd.a) == 1 && cd.a[0].isOp("rep") && len(cd.a[0].a[2].a) == 1 && cd.a[0].a[2].a[0].isOp("unit") {
		g := cd.a[0]
		k := g.a[0]
		p2 := bddAnd(pc, lt(k, g.a[1]))
		c.eq(path+"[]", et, c.r.in.expandIdx(seqIdx(co, k, p2), et), g.a[2].a[0].a[0], p2)
		return
	}
	if lo.k == KConst && lo.i <= 64 {
		for i := int64(0); i < lo.i; i++ {
			x, y := seqIdx(co, mkInt(i), pc), seqIdx(cd, mkInt(i), pc)
			c.eq(fmt.Sprintf("%s[%d]", path, i), et, c.r.in.expandIdx(x, et), c.r.in.expandIdx(y, et), pc)
		}
		return
	}
	c.fail(path, co, cd, pc)
}

// fits: cond <=> the text is short enough, A is the whole text, B its prefix
func (c *cmp) fits(co *T, cond *BDD, A, B *T) bool {
	if A != co || len(B.a) != 1 || !B.a[0].isOp("sub") || len(co.a) != 1 || !co.a[0].isOp("sub") {
		return false
	}
	b := B.a[0]
	if b.a[0] != co.a[0].a[0] || !b.a[1].isInt(0) || b.a[2].k != KConst {
		return false
	}
	k := b.a[2]
	return cond == le(seqLen(co), k) || cond == lt(seqLen(co), k)
}

func (c *cmp) iface(path string, typ types.Type, o, d *T, pc *BDD) {
	if d.k == KIface && typeName(derefSafe(d.typ)) == "bytes.Reader" {
		// a packet reader: the stream read from it must be the stream handed in
		rv := c.r.in.asReader(c.st, d.a[0])
		if rv != nil {
			q := assume(c.r.in.content(c.st, rv.a[0]), pc)
			if !rv.a[1].isInt(0) {
				var ok bool
				if q, ok = seqSlice(q, rv.a[1], sub(seqLen(q), rv.a[1]), pc); !ok {
					c.add("round-trip", path, stUnresolved, "packet content not resolved")
					return
				}
			}
			c.packet(path, o, q, pc)
			return
		}
	}
	c.fail(path, o, d, pc)
}

// packet: the content of the reader is exactly what was read from the original
func (c *cmp) packet(path string, o, q *T, pc *BDD) {
	if pc == bddFalse {
		return
	}
	if len(q.a) == 1 && q.a[0].isOp("ites") {
		g := q.a[0]
		c.packet(path, o, g.a[1], bddAnd(pc, g.a[0].b))
		c.packet(path, o, g.a[2], bddAnd(pc, bddNot(g.a[0].b)))
		return
	}
	if len(q.a) == 1 && q.a[0].isOp("sub") && q.a[0].a[1].isInt(0) && proveEq(q.a[0].a[2], lenOf(q.a[0].a[0]), pc) && mentions(q.a[0].a[0], o) {
		c.ok(path)
		return
	}
	if specLen >= 0 {
		c.add("round-trip", path, stUnresolved, "packet content at a fixed length")
		return
	}
	if len(q.a) == 0 && bddImplies(pc, isNil(o)) {
		c.ok(path)
		return
	}
	if u := unresolvedAtom(mkB(pc)); u != "" && !strings.Contains(u, "ReadAll") {
		c.add("round-trip", path, stUnresolved, "packet content under "+u)
		return
	}
	for _, g := range q.a {
		if g.isOp("sub") && !mentions(g.a[0], o) {
			c.add("round-trip", path, stUnresolved, "packet content "+g.String())
			return
		}
	}
	c.add("round-trip", path, stViolated, fmt.Sprintf("packet content comes back as %v", q))
}

func (c *cmp) rsaKey(path string, o, d *T, pc *BDD) {
	if d.k != KPtr {
		c.fail(path, o, d, pc)
		return
	}
	c.add("round-trip", path, stUnresolved, "key material is outside the model")
}
