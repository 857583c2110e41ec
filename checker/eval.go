package main

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"
)

// ---------------------------------------------------------------- witnesses
//
// Value numbering can fail to recognise two equal terms as equal.  Before a
// mismatch of two terms is reported, the terms themselves (not the program)
// are interpreted at sampled points, in the manner of random interpretation
// (Gulwani and Necula): a mismatch counts only when some valuation of the
// input atoms inside the domain tells the two terms apart.

type evErr struct {
	domain bool
	why    string
}

type seqV []interface{}
type timeV int64
type nilV struct{}
type opaqueV string

type sample struct {
	rng    *rand.Rand
	seed   int64
	pool   []int64
	ints   map[string]int64
	forceB map[string]map[int]bool // key -> bit -> value
	forceV map[string]int64
	forceN map[string]bool
	kap    map[*T]int64
	ksig   string
	memo   map[string]interface{}
	used   map[string]string
	steps  int
}

func uneval(f string, a ...interface{}) { panic(evErr{why: fmt.Sprintf(f, a...)}) }
func outside(f string, a ...interface{}) {
	panic(evErr{domain: true, why: fmt.Sprintf(f, a...)})
}

func hash64(seed int64, s string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s", seed, s)
	x := h.Sum64()
	x ^= x >> 31
	x *= 0x9e3779b97f4a7c15
	x ^= x >> 29
	return x
}

// key names the input location an opaque term denotes
func (s *sample) key(t *T) string {
	switch t.k {
	case KSym:
		if v, ok := s.kap[t]; ok {
			return fmt.Sprint(v)
		}
		return t.op
	case KConst:
		return fmt.Sprint(t.i)
	case KNil:
		return "nil"
	case KFloat:
		return t.op
	case KOp:
		switch {
		case freeInput(t):
			return fmt.Sprintf("%s#%d", cut(t.op, 60), t.id)
		case freeMode && len(t.op) > 3 && strings.HasPrefix(t.op, "res") && len(t.a) == 1:
			return s.key(t.a[0]) + "." + t.op
		case strings.HasPrefix(t.op, "fld:"):
			return s.key(t.a[0]) + "." + t.op[4:]
		case t.op == "idx":
			return s.key(t.a[0]) + "[" + fmt.Sprint(s.int(t.a[1])) + "]"
		case t.op == "deref":
			return "*" + s.key(t.a[0])
		case strings.HasPrefix(t.op, "call:") || t.op == "len" || t.op == "tenc" || strings.HasPrefix(t.op, "fmttime:") || t.op == "decimal":
			var p []string
			for _, x := range t.a {
				if x.k == KSeq || x.k == KLin || x.k == KBits || x.k == KIte {
					p = append(p, fmt.Sprint(s.val(x)))
				} else {
					p = append(p, s.key(x))
				}
			}
			return t.op + "(" + strings.Join(p, ",") + ")"
		}
	case KPtr:
		if t.obj != nil && t.obj.base != nil {
			return "&" + s.key(t.obj.base)
		}
	case KSeq, KLin, KBits, KIte, KBool:
		return fmt.Sprint(s.val(t))
	}
	uneval("location %s", cut(t.String(), 80))
	return ""
}

func opaqueAtom(t *T) bool {
	if t.k == KSym {
		return true
	}
	if t.k != KOp {
		return false
	}
	if freeInput(t) || freeMode && strings.HasPrefix(t.op, "res") && len(t.a) == 1 && freeInput(t.a[0]) {
		return true
	}
	return strings.HasPrefix(t.op, "fld:") || t.op == "idx" || t.op == "deref"
}

func (s *sample) note(k string, v interface{}) {
	if len(s.used) < 40 {
		s.used[k] = fmt.Sprint(v)
	}
}

func (s *sample) atomInt(t *T) int64 {
	k := s.key(t)
	if v, ok := s.forceV[k]; ok {
		s.note(k, v)
		return v
	}
	lo, lk, hi, hk := rng(t)
	if !lk {
		lo = -4
		if hk && hi < lo {
			lo = hi - 8
		}
	}
	if !hk {
		hi = lo + 1000
	}
	h := hash64(s.seed, k)
	var v int64
	switch h % 8 {
	case 0:
		v = lo
	case 1:
		v = hi
	case 2:
		v = lo + 1
	case 3, 4:
		if len(s.pool) > 0 {
			v = s.pool[(h>>8)%uint64(len(s.pool))]
		}
	default:
		span := uint64(hi-lo) + 1
		if span == 0 {
			v = int64(h >> 8)
		} else {
			v = lo + int64((h>>8)%span)
		}
	}
	if v < lo || v > hi {
		span := uint64(hi-lo) + 1
		if span != 0 {
			v = lo + int64((h>>9)%span)
		} else {
			v = lo
		}
	}
	for b, on := range s.forceB[k] {
		if on {
			v |= 1 << uint(b)
		} else {
			v &^= 1 << uint(b)
		}
	}
	s.note(k, v)
	return v
}

func (s *sample) lenAtom(t *T) int64 {
	if n, ok := fixedLen[t]; ok {
		return n
	}
	k := "len:" + s.key(t)
	if v, ok := s.forceV[k]; ok {
		return v
	}
	h := hash64(s.seed, k)
	v := int64(h>>8) % 5
	switch h % 12 {
	case 0:
		v = 0
	case 1:
		v = 1
	case 2:
		v = int64(h>>8) % 300
	case 3:
		if len(s.pool) > 0 {
			v = s.pool[(h>>8)%uint64(len(s.pool))]
		}
		if v < 0 || v > 1100 {
			v = 2
		}
	}
	s.note(k, v)
	return v
}

func (s *sample) bool(b *BDD) bool {
	for b.atom != nil {
		if s.atomBool(b.atom) {
			b = b.hi
		} else {
			b = b.lo
		}
	}
	return b == bddTrue
}

func (s *sample) atomBool(a *T) bool {
	if a.k == KOp {
		switch a.op {
		case "bit":
			return (uint64(s.int(a.a[0]))>>uint(a.i))&1 == 1
		case "le0":
			return s.int(a.a[0]) <= 0
		case "eq0":
			return s.int(a.a[0]) == 0
		case "eq":
			if len(a.a) == 1 {
				return s.int(a.a[0]) == 0
			}
			x, y := s.val(a.a[0]), s.val(a.a[1])
			return fmt.Sprint(x) == fmt.Sprint(y)
		case "isnil":
			x := a.a[0]
			if x.isOp("perr") && !freeMode {
				if len(x.a) > 0 && x.a[0].isOp("encerr") {
					return true
				}
				if len(x.a) > 0 && strings.HasPrefix(x.a[0].op, "parsetime:") {
					func() { s.val(x.a[0]) }()
					return true
				}
				uneval("error of %s", cut(x.String(), 80))
			}
			k := s.key(x)
			if v, ok := s.forceN[k]; ok {
				return v
			}
			v := hash64(s.seed, "nil:"+k)%4 == 0
			s.note("nil "+k, v)
			return v
		case "anyk":
			for _, v := range s.seq(a.a[0]) {
				if b, ok := v.(bool); ok && b {
					return true
				}
			}
			return false
		}
		if strings.HasPrefix(a.op, dec) {
			m := a.op[len(dec):]
			switch m {
			case "IsNegative":
				return s.dec(a.a[0]).Sign() < 0
			case "IsPositive":
				return s.dec(a.a[0]).Sign() > 0
			case "IsZero":
				return s.dec(a.a[0]).Sign() == 0
			case "LessThan":
				return s.dec(a.a[0]).Cmp(s.dec(a.a[1])) < 0
			case "GreaterThan":
				return s.dec(a.a[0]).Cmp(s.dec(a.a[1])) > 0
			case "Equal":
				return s.dec(a.a[0]).Cmp(s.dec(a.a[1])) == 0
			}
		}
		if opaqueAtom(a) {
			return s.atomInt(a)&1 == 1
		}
	}
	if a.k == KSym {
		return s.atomInt(a)&1 == 1
	}
	uneval("predicate %s", cut(a.String(), 80))
	return false
}

func (s *sample) int(t *T) int64 {
	switch v := s.val(t).(type) {
	case int64:
		return v
	case bool:
		if v {
			return 1
		}
		return 0
	case opaqueV:
		return s.atomInt(t)
	}
	uneval("integer %s", cut(t.String(), 80))
	return 0
}

func (s *sample) seq(t *T) seqV {
	if t.k == KOp && opaqueAtom(t) || t.k == KSym {
		n := s.lenAtom(t)
		out := make(seqV, 0, n)
		for i := int64(0); i < n; i++ {
			out = append(out, s.elem(t, i))
		}
		return out
	}
	switch v := s.val(t).(type) {
	case seqV:
		return v
	case nilV:
		return nil
	}
	uneval("sequence %s", cut(t.String(), 80))
	return nil
}

// element i of an opaque sequence: the same number idx(t,i) evaluates to
func (s *sample) elem(t *T, i int64) interface{} {
	x := mkOp("idx", t, mkInt(i))
	if !x.hasHi {
		// the range of the elements is not known here: texts and bytes
		y := intern(&T{k: KOp, op: "idx", a: []*T{t, mkInt(i)}})
		_, _, hi, hk := rng(y)
		if !hk || hi > 255 {
			k := s.key(y)
			if v, ok := s.forceV[k]; ok {
				return v
			}
			v := int64(hash64(s.seed, k) % 256)
			if v == 0 {
				v = 7 // texts carry no NUL
			}
			return v
		}
	}
	return s.atomInt(x)
}

func (s *sample) dec(t *T) *big.Rat {
	switch v := s.val(t).(type) {
	case *big.Rat:
		return v
	case opaqueV:
		h := hash64(s.seed, string(v))
		n := int64(h>>8)%180000000 + 1
		if h%2 == 0 {
			n = -n
		}
		if h%16 == 1 {
			n = 0
		}
		if f, ok := s.forceV[string(v)]; ok && (f < 0) != (n < 0) {
			n = -n
		}
		r := big.NewRat(n, 1000000)
		s.note(string(v), r.FloatString(6))
		return r
	}
	uneval("decimal %s", cut(t.String(), 80))
	return nil
}

func (s *sample) time(t *T) int64 {
	switch v := s.val(t).(type) {
	case timeV:
		return int64(v)
	case opaqueV:
		h := hash64(s.seed, string(v))
		x := int64(946684800) + int64((h>>8)%3155760000)
		s.note(string(v), x)
		return x
	}
	uneval("time %s", cut(t.String(), 80))
	return 0
}

func (s *sample) val(t *T) interface{} {
	s.steps++
	if s.steps > 400000 {
		uneval("too large")
	}
	switch t.k {
	case KConst:
		return t.i
	case KNil:
		return nilV{}
	case KBool:
		return s.bool(t.b)
	}
	mk := fmt.Sprintf("%d|%s", t.id, s.ksig)
	if v, ok := s.memo[mk]; ok {
		return v
	}
	v := s.val1(t)
	s.memo[mk] = v
	return v
}

func (s *sample) val1(t *T) interface{} {
	switch t.k {
	case KSym:
		if v, ok := s.kap[t]; ok {
			return v
		}
		if t.op == "github.com/shopspring/decimal.Zero" {
			return new(big.Rat)
		}
		if t.hasHi || t.hasLo {
			return s.atomInt(t)
		}
		return opaqueV(s.key(t))
	case KLin:
		r := t.i
		for j, x := range t.a {
			r += t.co[j] * s.int(x)
		}
		return r
	case KBits:
		var r int64
		for i, x := range t.a {
			if s.bool(x.b) {
				r |= 1 << uint(i)
			}
		}
		return r
	case KIte:
		if s.bool(t.a[0].b) {
			return s.val(t.a[1])
		}
		return s.val(t.a[2])
	case KSeq:
		var out seqV
		for _, g := range t.a {
			switch g.op {
			case "unit":
				out = append(out, s.val(g.a[0]))
			case "sub":
				off, n := s.int(g.a[1]), s.int(g.a[2])
				if off < 0 || n < 0 || n > 5000 {
					outside("slice")
				}
				if opaqueAtom(g.a[0]) {
					if off+n > s.lenAtom(g.a[0]) {
						outside("slice beyond the sequence")
					}
					for i := int64(0); i < n; i++ {
						out = append(out, s.elem(g.a[0], off+i))
					}
					break
				}
				q := s.seq(g.a[0])
				if off+n > int64(len(q)) {
					outside("slice beyond the sequence")
				}
				out = append(out, q[off:off+n]...)
			case "rep":
				n := s.int(g.a[1])
				if n > 2000 {
					uneval("long repetition")
				}
				old, had := s.kap[g.a[0]]
				sig := s.ksig
				for k := int64(0); k < n; k++ {
					s.kap[g.a[0]] = k
					s.ksig = fmt.Sprintf("%s;%s=%d", sig, g.a[0].op, k)
					out = append(out, s.seq(g.a[2])...)
				}
				s.ksig = sig
				if had {
					s.kap[g.a[0]] = old
				} else {
					delete(s.kap, g.a[0])
				}
			case "ites":
				if s.bool(g.a[0].b) {
					out = append(out, s.seq(g.a[1])...)
				} else {
					out = append(out, s.seq(g.a[2])...)
				}
			default:
				uneval("segment %s", g.op)
			}
		}
		return out
	case KOp:
		return s.op(t)
	case KStruct, KTuple:
		var out seqV
		for _, x := range t.a {
			out = append(out, s.val(x))
		}
		return out
	}
	uneval("term %s", cut(t.String(), 80))
	return nil
}

func (s *sample) op(t *T) interface{} {
	switch t.op {
	case "wrap":
		v := s.int(t.a[0])
		if t.i > 0 {
			if t.i >= 63 {
				return v
			}
			return v & (1<<uint(t.i) - 1)
		}
		w := uint(-t.i)
		if w >= 64 {
			return v
		}
		return v << (64 - w) >> (64 - w)
	case "fit":
		v := s.int(t.a[0])
		if v < 0 || v > t.i {
			outside("value does not fit its field")
		}
		return v
	case "byte":
		return (s.int(t.a[0]) >> uint(8*t.i)) & 0xff
	case "digit":
		return s.int(t.a[0]) / pow10(int(t.i)) % 10
	case "div", "mod":
		a, b := s.int(t.a[0]), s.int(t.a[1])
		if b == 0 {
			outside("division by zero")
		}
		if t.op == "div" {
			return a / b
		}
		return a % b
	case "mul":
		r := int64(1)
		for _, x := range t.a {
			r *= s.int(x)
		}
		return r
	case "xorfold":
		var r int64
		for _, v := range s.seq(t.a[0]) {
			n, ok := v.(int64)
			if !ok {
				uneval("xor")
			}
			r ^= n
		}
		return r
	case "len":
		if opaqueAtom(t.a[0]) {
			return s.lenAtom(t.a[0])
		}
		return int64(len(s.seq(t.a[0])))
	case "psum":
		rep, n := t.a[0], s.int(t.a[1])
		if !rep.isOp("rep") {
			uneval("psum")
		}
		r := seqCat(mkOp("rep", rep.a[0], mkInt(n), rep.a[2]))
		return int64(len(s.seq(r)))
	case "idx":
		if !opaqueAtom(t.a[0]) {
			q := s.seq(t.a[0])
			i := s.int(t.a[1])
			if i < 0 || i >= int64(len(q)) {
				outside("index beyond the sequence")
			}
			return q[i]
		}
	case "indexbyte":
		b := s.int(t.a[1])
		for i, v := range s.seq(t.a[0]) {
			if n, ok := v.(int64); ok && n == b {
				return int64(i)
			}
		}
		return int64(-1)
	case "tenc":
		q := s.seq(t.a[1])
		if len(q) == 0 {
			return seqV(nil)
		}
		h := hash64(s.seed, fmt.Sprint("tenc", q))
		out := seqV{int64(0x81)}
		if h%2 == 0 {
			out = nil
		}
		for _, v := range q {
			n, ok := v.(int64)
			if !ok {
				uneval("text")
			}
			out = append(out, n^0x80|1)
		}
		return out
	case "micro":
		r := new(big.Rat).Mul(s.dec(t.a[0]), s.dec(t.a[1]))
		q := new(big.Int).Quo(r.Num(), r.Denom())
		return q.Abs(q).Int64()
	case "absint":
		v := s.int(t.a[0])
		if v < 0 {
			v = -v
		}
		return v
	case "absgeo":
		return new(big.Rat).Abs(s.dec(t.a[0]))
	case "neggeo":
		x := new(big.Rat).Abs(s.dec(t.a[0]))
		return x.Neg(x)
	case "sectime", "sectrunc":
		return timeV(s.time(t.a[0]))
	case "unixsec":
		return s.time(t.a[0])
	case "tunix":
		return timeV(s.int(t.a[0]))
	case "decimal":
		var out seqV
		for _, c := range []byte(fmt.Sprint(s.int(t.a[0]))) {
			out = append(out, int64(c))
		}
		return out
	case "float":
		return new(big.Rat).SetInt64(s.int(t.a[0]))
	case "fabs":
		return new(big.Rat).Abs(s.dec(t.a[0]))
	case "trunc":
		r := s.dec(t.a[0])
		return new(big.Int).Quo(r.Num(), r.Denom()).Int64()
	}
	switch {
	case strings.HasPrefix(t.op, "fmttime:"):
		var out seqV
		for _, c := range []byte(time.Unix(s.time(t.a[0]), 0).UTC().Format(t.op[8:])) {
			out = append(out, int64(c))
		}
		return out
	case strings.HasPrefix(t.op, "parsetime:"):
		var b []byte
		for _, v := range s.seq(t.a[0]) {
			n, ok := v.(int64)
			if !ok {
				uneval("time text")
			}
			b = append(b, byte(n))
		}
		x, err := time.ParseInLocation(t.op[10:], string(b), time.UTC)
		if err != nil {
			outside("not a time")
		}
		return timeV(x.Unix())
	case strings.HasPrefix(t.op, "clock:"):
		x := time.Unix(s.time(t.a[0]), 0).UTC()
		switch t.op[6:] {
		case "hour":
			return int64(x.Hour())
		case "minute":
			return int64(x.Minute())
		case "second":
			return int64(x.Second())
		}
	case strings.HasPrefix(t.op, "call:github.com/shopspring/decimal."):
		switch t.op[len("call:github.com/shopspring/decimal."):] {
		case "NewFromInt", "NewFromInt32":
			return new(big.Rat).SetInt64(s.int(t.a[0]))
		case "NewFromFloat":
			if t.a[0].k == KFloat {
				if r, ok := new(big.Rat).SetString(t.a[0].op); ok {
					return r
				}
			}
			return s.dec(t.a[0])
		case "New":
			return scale10(new(big.Rat).SetInt64(s.int(t.a[0])), s.int(t.a[1]))
		}
	case strings.HasPrefix(t.op, dec):
		x := s.dec(t.a[0])
		switch t.op[len(dec):] {
		case "Mul":
			return new(big.Rat).Mul(x, s.dec(t.a[1]))
		case "Div":
			y := s.dec(t.a[1])
			if y.Sign() == 0 {
				outside("division by zero")
			}
			return new(big.Rat).Quo(x, y)
		case "Add":
			return new(big.Rat).Add(x, s.dec(t.a[1]))
		case "Sub":
			return new(big.Rat).Sub(x, s.dec(t.a[1]))
		case "Neg":
			return new(big.Rat).Neg(x)
		case "Abs":
			return new(big.Rat).Abs(x)
		case "Shift":
			return scale10(x, s.int(t.a[1]))
		case "Sign":
			return int64(x.Sign())
		case "Cmp":
			return int64(x.Cmp(s.dec(t.a[1])))
		case "IntPart":
			return new(big.Int).Quo(x.Num(), x.Denom()).Int64()
		case "Truncate", "Round", "RoundBank":
			k := s.int(t.a[1])
			y := scale10(x, k)
			if t.op[len(dec):] != "Truncate" {
				h := big.NewRat(1, 2)
				if y.Sign() < 0 {
					h.Neg(h)
				}
				y = new(big.Rat).Add(y, h)
			}
			q := new(big.Int).Quo(y.Num(), y.Denom())
			return scale10(new(big.Rat).SetInt(q), -k)
		}
	}
	if t.k == KOp && opaqueAtom(t) {
		if t.hasLo || t.hasHi {
			return s.atomInt(t)
		}
		return opaqueV(s.key(t))
	}
	uneval("operation %s", cut(t.op, 80))
	return nil
}

func scale10(x *big.Rat, n int64) *big.Rat {
	p := new(big.Rat).SetInt64(1)
	for i := int64(0); i < n || i < -n; i++ {
		p.Mul(p, big.NewRat(10, 1))
	}
	if n < 0 {
		return new(big.Rat).Quo(x, p)
	}
	return new(big.Rat).Mul(x, p)
}

func canon(v interface{}) string {
	switch x := v.(type) {
	case *big.Rat:
		return x.RatString()
	case seqV:
		var p []string
		for _, e := range x {
			p = append(p, canon(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case bool:
		if x {
			return "1"
		}
		return "0"
	}
	return fmt.Sprint(v)
}

// valuation of a typed leaf: opaque values take the kind of the other side
func (s *sample) pair(o, d *T) (string, string) {
	a, b := s.val(o), s.val(d)
	_, ao := a.(opaqueV)
	_, bo := b.(opaqueV)
	as := func(t *T, other interface{}) interface{} {
		switch other.(type) {
		case *big.Rat:
			return s.dec(t)
		case timeV:
			return timeV(s.time(t))
		case int64, bool:
			return s.atomInt(t)
		case seqV:
			return s.seq(t)
		}
		return nil
	}
	if ao && !bo {
		a = as(o, b)
	} else if bo && !ao {
		b = as(d, a)
	}
	return canon(a), canon(b)
}

// constants mentioned by comparisons inside a term
func constPool(ts []*T, bs []*BDD) []int64 {
	m := map[int64]bool{}
	seen := map[*T]bool{}
	var w func(*T)
	var wb func(*BDD)
	w = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.k == KConst {
			m[t.i] = true
		}
		if t.k == KLin {
			m[t.i], m[-t.i] = true, true
		}
		if t.isOp("fit") {
			m[t.i] = true
		}
		if t.k == KBool {
			wb(t.b)
		}
		for _, x := range t.a {
			w(x)
		}
	}
	wb = func(b *BDD) {
		for _, a := range bddSupport(b) {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	for _, b := range bs {
		wb(b)
	}
	var out []int64
	for c := range m {
		out = append(out, c, c+1, c-1)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func newSample(seed int64, pool []int64) *sample {
	return &sample{rng: rand.New(rand.NewSource(seed)), seed: seed, pool: pool,
		forceB: map[string]map[int]bool{}, forceV: map[string]int64{}, forceN: map[string]bool{},
		kap: map[*T]int64{}, memo: map[string]interface{}{}, used: map[string]string{}}
}

type steerCon struct {
	lo, hi int64
	eq     *int64
	ne     map[int64]bool
	t      *T
}

// holds: 1 surely, 0 surely not, -1 open, for the comparison "kind b0"
func (c *steerCon) holds(kind string, b0 int64) int {
	if c.eq != nil {
		v := *c.eq
		if kind == "eq" && v == b0 || kind == "le" && v <= b0 {
			return 1
		}
		return 0
	}
	switch kind {
	case "eq":
		if b0 < c.lo || b0 > c.hi || c.ne[b0] {
			return 0
		}
		if c.lo == c.hi {
			return 1
		}
	case "le":
		if c.hi <= b0 {
			return 1
		}
		if c.lo > b0 {
			return 0
		}
	}
	return -1
}

// steer biases the sample towards a random satisfying assignment of b
func (s *sample) steer(b *BDD) {
	cons := map[string]*steerCon{}
	var order []string
	for b.atom != nil {
		hi := b.lo == bddFalse || b.hi != bddFalse && s.rng.Intn(2) == 0
		a := b.atom
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(evErr); !ok {
						panic(x)
					}
				}
			}()
			switch {
			case a.isOp("bit") && opaqueAtom(a.a[0]):
				k := s.key(a.a[0])
				if s.forceB[k] == nil {
					s.forceB[k] = map[int]bool{}
				}
				s.forceB[k][int(a.i)] = hi
			case a.isOp("isnil") && (freeMode || !a.a[0].isOp("perr")):
				s.forceN[s.key(a.a[0])] = hi
			case a.isOp("le0") || a.isOp("eq0") || a.isOp("eq") && (len(a.a) == 1 || isIntLike(a.a[0]) && a.a[1].k == KConst):
				l := linOf(a.a[0])
				if len(a.a) == 2 {
					l = linOf(sub(a.a[0], a.a[1]))
				}
				if len(l.m) != 1 {
					return
				}
				for x, k := range l.m {
					if k != 1 && k != -1 {
						return
					}
					key := ""
					if x.isOp("len") && opaqueAtom(x.a[0]) {
						key = "len:" + s.key(x.a[0])
					} else if opaqueAtom(x) {
						key = s.key(x)
					} else {
						return
					}
					c := cons[key]
					if c == nil {
						c = &steerCon{lo: -1 << 40, hi: 1 << 40, ne: map[int64]bool{}, t: x}
						if lo, lk, h, hk := rng(x); true {
							if lk {
								c.lo = lo
							}
							if hk {
								c.hi = h
							}
						}
						if c.hi > c.lo+1<<40 {
							c.hi = c.lo + 1<<40
						}
						cons[key] = c
						order = append(order, key)
					}
					// k*x + c (<=|=) 0
					b0 := -l.c * k
					if !a.isOp("le0") {
						if h := c.holds("eq", b0); h >= 0 && (h == 1 && b.hi != bddFalse || h == 0 && b.lo != bddFalse) {
							hi = h == 1
						}
						if hi {
							v := b0
							c.eq = &v
						} else {
							c.ne[b0] = true
						}
						return
					}
					// k=1: x <= b0;  k=-1: x >= b0, i.e. not x <= b0-1
					le := b0
					if k == -1 {
						le = b0 - 1
					}
					if h := c.holds("le", le); h >= 0 {
						want := h == 1
						if k == -1 {
							want = !want
						}
						if want && b.hi != bddFalse || !want && b.lo != bddFalse {
							hi = want
						}
					}
					if (k == 1) == hi {
						if le < c.hi {
							c.hi = le
						}
					} else if le+1 > c.lo {
						c.lo = le + 1
					}
				}
			}
		}()
		if hi {
			b = b.hi
		} else {
			b = b.lo
		}
	}
	for _, k := range order {
		c := cons[k]
		if c.eq != nil {
			s.forceV[k] = *c.eq
			continue
		}
		if c.lo > c.hi {
			continue
		}
		for try := 0; try < 20; try++ {
			v := c.lo + int64(s.rng.Intn(4))
			if s.rng.Intn(3) == 0 && c.hi < 1<<32 {
				v = c.hi - int64(s.rng.Intn(4))
			}
			if c.lo < -1<<30 {
				v = c.hi - int64(s.rng.Intn(4))
			}
			if v < c.lo || v > c.hi {
				v = c.lo
			}
			if v < 0 && strings.HasPrefix(k, "len:") {
				v = 0
			}
			if !c.ne[v] {
				s.forceV[k] = v
				break
			}
		}
	}
}

const (
	refWitness = iota
	refNone
	refUneval
)

// refute looks for a valuation under which pc holds and test reports a
// difference
func refute(pool []int64, pc *BDD, test func(s *sample) (bool, string)) (int, string) {
	valid := 0
	for i := int64(1); i <= 1500; i++ {
		s := newSample(i, pool)
		var diff bool
		var msg, bad string
		dom := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					e, ok := x.(evErr)
					if !ok {
						panic(x)
					}
					if e.domain {
						dom = true
					} else {
						bad = e.why
					}
				}
			}()
			if i%3 != 0 {
				s.steer(pc)
			}
			if !s.bool(pc) {
				dom = true
				return
			}
			diff, msg = test(s)
		}()
		if bad != "" {
			return refUneval, bad
		}
		if dom {
			continue
		}
		valid++
		if diff {
			var ks []string
			for k, v := range s.used {
				ks = append(ks, k+"="+v)
			}
			sort.Strings(ks)
			return refWitness, cut(msg+" at "+strings.Join(firstN(ks, 12), " "), 400)
		}
		if valid >= 300 {
			break
		}
	}
	return refNone, fmt.Sprintf("no witness in %d valuations", valid)
}

// refuteEq: is there a valuation with pc where o and d differ?
func refuteEq(o, d *T, pc *BDD) (int, string) {
	return refute(constPool([]*T{o, d}, []*BDD{pc}), pc, func(s *sample) (bool, string) {
		a, b := s.pair(o, d)
		return a != b, fmt.Sprintf("%s becomes %s", cut(a, 80), cut(b, 80))
	})
}

// refuteCond: is there a valuation with pc where c is false?
func refuteCond(c, pc *BDD) (int, string) {
	bad := bddAnd(pc, bddNot(c))
	if bad == bddFalse {
		return refNone, "implied"
	}
	return refute(constPool(nil, []*BDD{bad}), bad, func(s *sample) (bool, string) { return true, "reachable" })
}
