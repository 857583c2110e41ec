package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- terms
//
// Every abstract value is a hash-consed term.  Integers are linear forms over
// atoms, or bit vectors whose bits are boolean functions; booleans are BDDs
// over atomic predicates; byte strings, arrays and lists are sequences of
// segments; control-flow merges are gated (Ite) terms.

type Kind uint8

const (
	KConst  Kind = iota // integer constant (i)
	KNil                // nil
	KSym                // opaque named atom (op)
	KLin                // i + sum co[j]*a[j]
	KBits               // a[0..w) are KBool, least significant first
	KBool               // b
	KIte                // a[0]=cond (KBool) a[1] a[2]
	KOp                 // op(a...)
	KStruct             // a = fields
	KTuple              // a = components
	KPtr                // obj + path
	KSlice              // a = base pointer, off, len ; cap in a[3]
	KIface              // typ + a[0]
	KFn                 // fn + a = bindings
	KSeq                // a = segments
	KFloat              // op = textual constant
)

type T struct {
	id   int
	k    Kind
	op   string
	i    int64
	a    []*T
	co   []int64
	b    *BDD
	typ  types.Type
	obj  *Obj
	path []int
	fn   *ssa.Function
	// integer range (valid for integer atoms)
	hasLo, hasHi bool
	lo, hi       int64
	height       int // nesting height of rep binders inside
	slen         *T  // cached length (sequences)
	size         int
}

type Obj struct {
	id    int
	key   string
	typ   types.Type // element type stored in the cell
	input bool       // belongs to the analysed input (not allocated by the code)
	loop  *loopInst  // loop in whose body it was allocated (innermost)
	site  string
	alias *Obj // append() result that may share this backing array
	base  *T   // term this object was lazily created from
	kind  string
}

var (
	internTab = map[string]*T{}
	allTerms  []*T
	objTab    = map[string]*Obj{}
)

func intern(t *T) *T {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.k))
	sb.WriteString(t.op)
	sb.WriteByte('|')
	if t.i != 0 {
		sb.WriteString(strconv.FormatInt(t.i, 10))
	}
	for j, x := range t.a {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(x.id))
		if t.co != nil {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(t.co[j], 10))
		}
	}
	if t.b != nil {
		sb.WriteString("b" + strconv.Itoa(t.b.id))
	}
	if t.typ != nil {
		sb.WriteString("t" + types.TypeString(t.typ, nil))
	}
	if t.obj != nil {
		sb.WriteString("o" + strconv.Itoa(t.obj.id))
		for _, p := range t.path {
			sb.WriteString("." + strconv.Itoa(p))
		}
	}
	if t.fn != nil {
		sb.WriteString("f" + t.fn.String())
	}
	key := sb.String()
	if r, ok := internTab[key]; ok {
		return r
	}
	t.id = len(allTerms) + 1
	sz := 1
	for _, x := range t.a {
		if x.height > t.height {
			t.height = x.height
		}
		sz += x.size
	}
	if t.k == KOp && t.op == "rep" {
		t.height++
	}
	if sz > 1<<20 {
		sz = 1 << 20
	}
	t.size = sz
	internTab[key] = t
	allTerms = append(allTerms, t)
	return t
}

func getObj(key string, typ types.Type) *Obj {
	if o, ok := objTab[key]; ok {
		return o
	}
	o := &Obj{id: len(objTab) + 1, key: key, typ: typ}
	objTab[key] = o
	return o
}

var (
	tNil   = intern(&T{k: KNil})
	tTrue  *T
	tFalse *T
)

func init() {
	tTrue = intern(&T{k: KBool, b: bddTrue})
	tFalse = intern(&T{k: KBool, b: bddFalse})
}

func mkInt(i int64) *T { return intern(&T{k: KConst, i: i, lo: i, hi: i, hasLo: true, hasHi: true}) }
func mkBool(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}
func mkB(b *BDD) *T {
	if b == bddTrue {
		return tTrue
	}
	if b == bddFalse {
		return tFalse
	}
	return intern(&T{k: KBool, b: b})
}
func mkSym(name string) *T { return intern(&T{k: KSym, op: name}) }

func mkSymR(name string, lo, hi int64, hasHi bool) *T {
	t := intern(&T{k: KSym, op: name})
	t.setRange(lo, true, hi, hasHi)
	return t
}
func (t *T) setRange(lo int64, hasLo bool, hi int64, hasHi bool) {
	if hasLo && (!t.hasLo || lo > t.lo) {
		t.hasLo, t.lo = true, lo
	}
	if hasHi && (!t.hasHi || hi < t.hi) {
		t.hasHi, t.hi = true, hi
	}
}

func mkOp(op string, args ...*T) *T { return intern(&T{k: KOp, op: op, a: args}) }

func mkOpR(lo int64, hasLo bool, hi int64, hasHi bool, op string, args ...*T) *T {
	t := mkOp(op, args...)
	t.setRange(lo, hasLo, hi, hasHi)
	return t
}
func mkStruct(f ...*T) *T { return intern(&T{k: KStruct, a: f}) }
func mkTuple(f ...*T) *T  { return intern(&T{k: KTuple, a: f}) }
func mkPtr(o *Obj, path ...int) *T {
	return intern(&T{k: KPtr, obj: o, path: append([]int(nil), path...)})
}
func mkSlice(base, off, ln, cp *T) *T { return intern(&T{k: KSlice, a: []*T{base, off, ln, cp}}) }
func mkIface(typ types.Type, v *T) *T { return intern(&T{k: KIface, typ: typ, a: []*T{v}}) }
func mkFn(fn *ssa.Function, b ...*T) *T {
	return intern(&T{k: KFn, fn: fn, a: b})
}
func mkFloat(s string) *T { return intern(&T{k: KFloat, op: s}) }

func (t *T) isOp(op string) bool { return t.k == KOp && t.op == op }
func (t *T) isInt(i int64) bool  { return t.k == KConst && t.i == i }

// ---------------------------------------------------------------- BDD

type BDD struct {
	id     int
	atom   *T
	lo, hi *BDD
}

var (
	bddFalse = &BDD{id: 0}
	bddTrue  = &BDD{id: 1}
	bddTab   = map[[3]int]*BDD{}
	bddN     = 2
	iteMemo  = map[[3]int]*BDD{}
)

func bddMk(atom *T, lo, hi *BDD) *BDD {
	if lo == hi {
		return lo
	}
	k := [3]int{atom.id, lo.id, hi.id}
	if n, ok := bddTab[k]; ok {
		return n
	}
	n := &BDD{id: bddN, atom: atom, lo: lo, hi: hi}
	bddN++
	bddTab[k] = n
	return n
}
func bddVar(atom *T) *BDD { return bddMk(atom, bddFalse, bddTrue) }
func bddTop(b *BDD) int {
	if b.atom == nil {
		return math.MaxInt
	}
	return b.atom.id
}
func bddCof(b *BDD, v int, hi bool) *BDD {
	if bddTop(b) != v {
		return b
	}
	if hi {
		return b.hi
	}
	return b.lo
}
func bddIte(f, g, h *BDD) *BDD {
	if f == bddTrue {
		return g
	}
	if f == bddFalse {
		return h
	}
	if g == h {
		return g
	}
	if g == bddTrue && h == bddFalse {
		return f
	}
	k := [3]int{f.id, g.id, h.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	v := bddTop(f)
	if x := bddTop(g); x < v {
		v = x
	}
	if x := bddTop(h); x < v {
		v = x
	}
	lo := bddIte(bddCof(f, v, false), bddCof(g, v, false), bddCof(h, v, false))
	hi := bddIte(bddCof(f, v, true), bddCof(g, v, true), bddCof(h, v, true))
	r := bddMk(allTerms[v-1], lo, hi)
	iteMemo[k] = r
	return r
}
func bddAnd(f, g *BDD) *BDD { return bddIte(f, g, bddFalse) }
func bddOr(f, g *BDD) *BDD  { return bddIte(f, bddTrue, g) }
func bddNot(f *BDD) *BDD    { return bddIte(f, bddFalse, bddTrue) }
func bddXor(f, g *BDD) *BDD { return bddIte(f, bddNot(g), g) }
func bddImplies(f, g *BDD) bool {
	return bddAnd(f, bddNot(g)) == bddFalse
}

// generalized cofactor: agrees with f wherever c holds
var consMemo = map[[2]int]*BDD{}

func bddConstrain(f, c *BDD) *BDD {
	if c == bddTrue || f.atom == nil || c == bddFalse {
		return f
	}
	if f == c {
		return bddTrue
	}
	k := [2]int{f.id, c.id}
	if r, ok := consMemo[k]; ok {
		return r
	}
	var r *BDD
	v := bddTop(f)
	cv := bddTop(c)
	if cv < v {
		// variable not in f: quantify it out of c (restrict)
		r = bddConstrain(f, bddOr(c.lo, c.hi))
	} else {
		c0, c1 := bddCof(c, v, false), bddCof(c, v, true)
		if c0 == bddFalse {
			r = bddConstrain(f.hi, c1)
		} else if c1 == bddFalse {
			r = bddConstrain(f.lo, c0)
		} else {
			r = bddMk(f.atom, bddConstrain(f.lo, c0), bddConstrain(f.hi, c1))
		}
	}
	consMemo[k] = r
	return r
}

var suppMemo = map[int][]*T{}

func bddSupport(b *BDD) []*T {
	if b.atom == nil {
		return nil
	}
	if r, ok := suppMemo[b.id]; ok {
		return r
	}
	seen := map[*BDD]bool{}
	at := map[*T]bool{}
	var w func(*BDD)
	w = func(n *BDD) {
		if n.atom == nil || seen[n] {
			return
		}
		seen[n] = true
		at[n.atom] = true
		w(n.lo)
		w(n.hi)
	}
	w(b)
	var r []*T
	for a := range at {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	suppMemo[b.id] = r
	return r
}

type lit struct {
	atom *T
	pos  bool
}

var litMemo = map[int][]lit{}

// literals implied by b
func bddLits(b *BDD) []lit {
	if b.atom == nil {
		return nil
	}
	if r, ok := litMemo[b.id]; ok {
		return r
	}
	var r []lit
	for _, a := range bddSupport(b) {
		v := bddVar(a)
		if bddAnd(b, v) == bddFalse {
			r = append(r, lit{a, false})
		} else if bddAnd(b, bddNot(v)) == bddFalse {
			r = append(r, lit{a, true})
		}
	}
	litMemo[b.id] = r
	return r
}

// ---------------------------------------------------------------- printing

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 14 {
		return "…"
	}
	args := func(sep string) string {
		var s []string
		for _, x := range t.a {
			s = append(s, x.str(d+1))
		}
		return strings.Join(s, sep)
	}
	switch t.k {
	case KConst:
		return strconv.FormatInt(t.i, 10)
	case KNil:
		return "nil"
	case KSym:
		return t.op
	case KFloat:
		return t.op
	case KLin:
		var s []string
		for j, x := range t.a {
			switch t.co[j] {
			case 1:
				s = append(s, x.str(d+1))
			case -1:
				s = append(s, "-"+x.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%d*%s", t.co[j], x.str(d+1)))
			}
		}
		if t.i != 0 {
			s = append(s, strconv.FormatInt(t.i, 10))
		}
		return "(" + strings.Join(s, "+") + ")"
	case KBits:
		return "bits" + strconv.Itoa(len(t.a)) + "{" + bitsStr(t, d) + "}"
	case KBool:
		return t.b.str(d)
	case KIte:
		return "(" + t.a[0].str(d+1) + " ? " + t.a[1].str(d+1) + " : " + t.a[2].str(d+1) + ")"
	case KStruct:
		return "{" + args(", ") + "}"
	case KTuple:
		return "<" + args(", ") + ">"
	case KPtr:
		s := "&" + t.obj.key
		for _, p := range t.path {
			s += "." + strconv.Itoa(p)
		}
		return s
	case KSlice:
		return t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + ":+" + t.a[2].str(d+1) + "]"
	case KIface:
		return "iface(" + types.TypeString(t.typ, shortQual) + " " + t.a[0].str(d+1) + ")"
	case KFn:
		return "fn:" + t.fn.Name()
	case KSeq:
		return "«" + args(" ") + "»"
	case KOp:
		switch t.op {
		case "unit":
			return "'" + t.a[0].str(d+1)
		case "sub":
			return t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + ":+" + t.a[2].str(d+1) + "]"
		case "rep":
			return "(" + t.a[2].str(d+1) + ")^{" + t.a[0].str(d+1) + "<" + t.a[1].str(d+1) + "}"
		case "bit":
			return t.a[0].str(d+1) + "." + strconv.FormatInt(t.i, 10)
		case "le0":
			return t.a[0].str(d+1) + "<=0"
		case "eq":
			return t.a[0].str(d+1) + "==" + t.a[1].str(d+1)
		case "str":
			return strconv.Quote(t.a[0].op)
		case "strc":
			return strconv.Quote(t.op)
		}
		s := t.op
		if strings.HasPrefix(s, "fld:") {
			return t.a[0].str(d+1) + "." + s[4:]
		}
		if t.i != 0 {
			s += "#" + strconv.FormatInt(t.i, 10)
		}
		return s + "(" + args(", ") + ")"
	}
	return "?"
}

func bitsStr(t *T, d int) string {
	var s []string
	for j := len(t.a) - 1; j >= 0; j-- {
		s = append(s, t.a[j].str(d+1))
	}
	return strings.Join(s, ",")
}

func (b *BDD) str(d int) string {
	if b == bddTrue {
		return "T"
	}
	if b == bddFalse {
		return "F"
	}
	if b.lo == bddFalse && b.hi == bddTrue {
		return b.atom.str(d + 1)
	}
	if b.lo == bddTrue && b.hi == bddFalse {
		return "!" + b.atom.str(d+1)
	}
	if b.lo == bddFalse {
		return "(" + b.atom.str(d+1) + " && " + b.hi.str(d+1) + ")"
	}
	if b.hi == bddFalse {
		return "(!" + b.atom.str(d+1) + " && " + b.lo.str(d+1) + ")"
	}
	if b.hi == bddTrue {
		return "(" + b.atom.str(d+1) + " || " + b.lo.str(d+1) + ")"
	}
	if b.lo == bddTrue {
		return "(!" + b.atom.str(d+1) + " || " + b.hi.str(d+1) + ")"
	}
	return "ite(" + b.atom.str(d+1) + "," + b.hi.str(d+1) + "," + b.lo.str(d+1) + ")"
}

func shortQual(p *types.Package) string { return p.Name() }
