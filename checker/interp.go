package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- abstract state

type State struct {
	pc    *BDD
	heap  map[*Obj]*T
	trace *T
}

func (s *State) clone() *State {
	h := make(map[*Obj]*T, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{pc: s.pc, heap: h, trace: s.trace}
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
	phis map[*ssa.Phi]*T // values for the target's phis
}

type retEdge struct {
	st  *State
	val *T
}

type deferred struct {
	cond *BDD
	call *ssa.Defer
	args []*T
	fnv  *T
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*T
	ctx    string
	defers []deferred
	rets   []retEdge
	parent *Frame
	depth  int
	li     *loopInfo
	caller ssa.Instruction
}

type loopInst struct {
	key string
	K   *T
}

type Oblig struct {
	kind   string
	fn     *ssa.Function
	pos    token.Pos
	ok     bool
	detail string
	stack  []string
	pc     *BDD
	bad    []*BDD // conditions under which it fails, per visit
	instr  ssa.Instruction
}

type Interp struct {
	P         *Program
	rtName    string // type whose round trip is analysed
	noUnroll  map[string]bool
	obligs    []*Oblig
	obKey     map[string]*Oblig
	quiet     int
	loops     []*loopInst
	frames    []*Frame
	rt        bool              // round-trip mode: counts assumed to fit their prefix
	assumed   map[string]string // assumptions used (key -> description)
	notes     map[string]bool   // imprecision notes
	topCtx    string            // distinguishes several top-level calls of one function
	regs      map[string]map[int64]*ssa.Function
	hooks     map[string]func(in *Interp, st *State, c *callCtx) (*T, bool)
	calls     func(in *Interp, st *State, c *callCtx)
	steps     int
	evSites   map[*T]token.Pos
	narrow    []narrowing
	mus       map[*T]*muVar
	loopLog   []*loopReport
	unitsAt   map[string]int
	nilPolicy func(base *T, typ types.Type) bool
	reached   map[*ssa.Function]bool
	exactMaps bool            // maps made by the analysed code are followed entry by entry
	splitHeap bool            // keep loop iterations with different definite heaps apart
	follow    map[string]bool // library packages interpreted like the repository's
	blockHook func(in *Interp, st *State, ins ssa.Instruction)
	recvVal   func(st *State, t types.Type) *T // what a channel of this element type gives
	goHook    func(in *Interp, st *State, ins *ssa.Go, fnv *T, args []*T)
	failCalls map[ssa.CallInstruction]bool // calls whose failure is looked for
	allocHook func(in *Interp, st *State, instr ssa.Instruction, n *T)
	memHook   func(in *Interp, st *State, ins ssa.Instruction, p *T) // before each access to memory
	storeHook func(in *Interp, st *State, instr *ssa.Store, p, v *T)
}

type narrowing struct {
	pos  token.Pos
	fn   *ssa.Function
	term *T
	w    int
	pc   *BDD
}

type loopReport struct {
	fn   *ssa.Function
	pos  token.Pos
	kind string
}

func newInterp(p *Program) *Interp {
	return &Interp{failCalls: failCallsAll, noUnroll: map[string]bool{}, P: p, obKey: map[string]*Oblig{}, assumed: map[string]string{}, notes: map[string]bool{},
		hooks: map[string]func(in *Interp, st *State, c *callCtx) (*T, bool){}, evSites: map[*T]token.Pos{}, mus: map[*T]*muVar{}, reached: map[*ssa.Function]bool{}}
}

func newState() *State {
	return &State{pc: bddTrue, heap: map[*Obj]*T{}, trace: seqEmpty}
}

func (in *Interp) note(f string, a ...interface{}) { in.notes[fmt.Sprintf(f, a...)] = true }

func (in *Interp) ks() []*T {
	var r []*T
	for _, l := range in.loops {
		r = append(r, l.K)
	}
	return r
}

var debugTrace = os.Getenv("GSA_DEBUG") != ""

// ---------------------------------------------------------------- types

func isRepoPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

func structExpands(named *types.Named, st *types.Struct) bool {
	if named == nil {
		return true
	}
	if isRepoPkg(named.Obj().Pkg()) {
		return true
	}
	if pk := named.Obj().Pkg(); pk != nil && pk.Path() == "sync/atomic" {
		return true
	}
	if st.NumFields() == 0 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return false
		}
	}
	return true
}

func asStruct(t types.Type) (*types.Struct, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	n, _ := types.Unalias(t).(*types.Named)
	return st, structExpands(n, st)
}

func isBuffer(t types.Type) bool { return typeName(t) == "bytes.Buffer" }

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}

// integer width: >0 unsigned bits, <0 signed bits, 0 not an integer
func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint, types.Uintptr:
		return 64
	case types.Int8:
		return -8
	case types.Int16:
		return -16
	case types.Int32, types.UntypedRune:
		return -32
	case types.Int64, types.Int, types.UntypedInt:
		return -64
	}
	return 0
}

func typeRange(t *T, w int) {
	switch {
	case w > 0 && w < 64:
		t.setRange(0, true, int64(1)<<uint(w)-1, true)
	case w == 64:
		t.setRange(0, true, 0, false)
	case w < 0 && w > -64:
		m := int64(1)<<uint(-w-1) - 1
		t.setRange(-m-1, true, m, true)
	case w == -64:
		// mark as integer-like: give the trivial lower bound of int64
		t.setRange(-1<<62, true, 0, false)
	}
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

var nilSlice = mkSlice(tNil, mkInt(0), mkInt(0), mkInt(0))

func zero(t types.Type) *T {
	if isBuffer(t) {
		return seqEmpty
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return seqEmpty
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsFloat != 0:
			return mkFloat("0")
		}
		return mkInt(0)
	case *types.Struct:
		st, exp := asStruct(t)
		if !exp {
			return mkSym("zero:" + typeName(t))
		}
		f := make([]*T, st.NumFields())
		for i := range f {
			f[i] = zero(st.Field(i).Type())
		}
		return mkStruct(f...)
	case *types.Array:
		return repConst(zero(u.Elem()), mkInt(u.Len()))
	case *types.Slice:
		return nilSlice
	case *types.Tuple:
		f := make([]*T, u.Len())
		for i := range f {
			f[i] = zero(u.At(i).Type())
		}
		return mkTuple(f...)
	}
	return tNil
}

func repConst(e, n *T) *T {
	return seqCat(mkRep(mkSym("κ#"), n, seqCat(unit(e))))
}

// fromAtom gives the abstract value of type typ denoted by the opaque term base
func (in *Interp) fromAtom(base *T, typ types.Type) *T {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if w := intWidth(typ); w != 0 {
			typeRange(base, w)
			return base
		}
		if u.Info()&types.IsString != 0 {
			if specLen >= 0 && in.rt {
				fixedLen[base] = specText
				if digitFields[base.String()] || digitFields[in.rtName+strings.TrimPrefix(base.String(), "e")] {
					charRange[base] = [2]int64{'1', '9'}
					if specText == 2 {
						fixedLen[base] = 20
					}
				}
			}
			return seqAtom(base)
		}
		if u.Info()&types.IsBoolean != 0 {
			return mkB(bddVar(base))
		}
		return base
	case *types.Struct:
		st, exp := asStruct(typ)
		if !exp {
			return base
		}
		f := make([]*T, st.NumFields())
		for i := range f {
			f[i] = in.fromAtom(mkOp("fld:"+st.Field(i).Name(), base), st.Field(i).Type())
		}
		return mkStruct(f...)
	case *types.Pointer:
		o := getObj(fmt.Sprintf("*%d", base.id), u.Elem())
		o.input = true
		o.base = base
		if in.nilPolicy == nil || in.nilPolicy(base, typ) {
			return ite(bddVar(mkOp("isnil", base)), tNil, mkPtr(o))
		}
		return mkPtr(o)
	case *types.Slice:
		if in.rt {
			if _, ok := u.Elem().Underlying().(*types.Interface); ok && isRepoType(u.Elem()) {
				return zero(typ) // extension lists are decided separately
			}
		}
		o := getObj(fmt.Sprintf("[%d]", base.id), typ)
		o.input = true
		o.base = base
		o.kind = "seq"
		if specLen >= 0 && in.rt {
			fixedLen[base] = specLen
			if intWidth(u.Elem()) == 8 {
				fixedLen[base] = specText
			}
		}
		return mkSlice(mkPtr(o), mkInt(0), lenOf(base), mkOpR(0, true, 0, false, "cap", base))
	case *types.Array:
		return seqCat(subSeg(base, mkInt(0), mkInt(u.Len())))
	case *types.Interface:
		if in.nilPolicy != nil && !in.nilPolicy(base, typ) {
			nonNilSyms[base] = true
		}
		return base
	case *types.Tuple:
		f := make([]*T, u.Len())
		for i := range f {
			f[i] = in.fromAtom(mkOp(fmt.Sprintf("res%d", i), base), u.At(i).Type())
		}
		return mkTuple(f...)
	}
	return base
}

// ---------------------------------------------------------------- heap

func (in *Interp) objContent(st *State, o *Obj) *T {
	if v, ok := st.heap[o]; ok {
		return v
	}
	var v *T
	switch {
	case o.kind == "seq" && o.base != nil:
		v = seqAtom(o.base)
	case o.base != nil:
		v = in.fromAtom(mkOp("deref", o.base), o.typ)
	case o.kind == "global":
		v = in.globalInit(o)
	default:
		v = zero(o.typ)
	}
	st.heap[o] = v
	return v
}

func (in *Interp) field(v *T, i int, st types.Type) *T {
	switch v.k {
	case KStruct:
		return v.a[i]
	case KIte:
		return ite(v.a[0].b, in.field(v.a[1], i, st), in.field(v.a[2], i, st))
	}
	s := st.Underlying().(*types.Struct)
	return in.fromAtom(mkOp("fld:"+s.Field(i).Name(), v), s.Field(i).Type())
}

func setField(v *T, i int, x *T, n int) *T {
	if v.k == KStruct {
		a := append([]*T(nil), v.a...)
		a[i] = x
		return mkStruct(a...)
	}
	return nil
}

func derefT(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// pointer terms: KPtr(obj,path of field indices) | elem(base,i) | fptr(base) with i
func mkElem(base, i *T, et types.Type) *T {
	return intern(&T{k: KOp, op: "elem", a: []*T{base, i}, typ: et})
}
func mkFptr(base *T, f int, st types.Type) *T {
	return intern(&T{k: KOp, op: "fptr", i: int64(f), a: []*T{base}, typ: st})
}

func (in *Interp) fieldAddr(p *T, f int, st types.Type) *T {
	switch {
	case p.k == KPtr:
		t := intern(&T{k: KPtr, obj: p.obj, path: append(append([]int(nil), p.path...), f)})
		return t
	case p.k == KIte:
		return ite(p.a[0].b, in.fieldAddr(p.a[1], f, st), in.fieldAddr(p.a[2], f, st))
	case p.k == KNil:
		return tNil
	}
	return mkFptr(p, f, st)
}

func (in *Interp) pathType(o *Obj, path []int) types.Type {
	t := o.typ
	for _, f := range path {
		t = t.Underlying().(*types.Struct).Field(f).Type()
	}
	return t
}

func (in *Interp) load(st *State, p *T, typ types.Type) *T {
	switch {
	case p.k == KPtr:
		v := in.objContent(st, p.obj)
		t := p.obj.typ
		for _, f := range p.path {
			v = in.field(v, f, t)
			t = t.Underlying().(*types.Struct).Field(f).Type()
		}
		return v
	case p.k == KIte:
		c := decide(p.a[0].b, st.pc)
		if c == bddTrue {
			return in.load(st, p.a[1], typ)
		}
		if c == bddFalse {
			return in.load(st, p.a[2], typ)
		}
		if p.a[1].k == KNil {
			return in.load(st, p.a[2], typ)
		}
		if p.a[2].k == KNil {
			return in.load(st, p.a[1], typ)
		}
		return ite(c, in.load(st, p.a[1], typ), in.load(st, p.a[2], typ))
	case p.isOp("box"):
		return p.a[0]
	case p.isOp("elem"):
		s := in.load(st, p.a[0], nil)
		return in.elemAt(st, s, p.a[1], p.typ)
	case p.isOp("fptr"):
		v := in.load(st, p.a[0], p.typ)
		return in.field(v, int(p.i), p.typ)
	case p.k == KNil:
		if typ == nil {
			return mkSym("nilderef")
		}
		return in.fromAtom(mkSym("nilderef"), typ)
	}
	// pointer of unknown origin
	o := getObj(fmt.Sprintf("*%d", p.id), typ)
	o.base = p
	o.input = true
	return in.objContent(st, o)
}

func (in *Interp) elemAt(st *State, s, i *T, et types.Type) *T {
	if s.k == KIte {
		return ite(s.a[0].b, in.elemAt(st, s.a[1], i, et), in.elemAt(st, s.a[2], i, et))
	}
	if s.k != KSeq {
		return in.fromAtom(mkOp("idx", s, i), et)
	}
	e := seqIdx(s, i, xpc(st.pc))
	if e == nil {
		if len(s.a) == 1 && s.a[0].isOp("sub") {
			e = mkOp("idx", s.a[0].a[0], add(s.a[0].a[1], i))
		} else {
			e = mkOp("idx", s, i)
		}
	}
	return in.expandIdx(e, et)
}

// expandIdx gives unread elements the shape of their type
func (in *Interp) expandIdx(e *T, et types.Type) *T {
	if e.isOp("idx") {
		return in.fromAtom(e, et)
	}
	if e.k == KIte {
		x, y := in.expandIdx(e.a[1], et), in.expandIdx(e.a[2], et)
		if x != e.a[1] || y != e.a[2] {
			return ite(e.a[0].b, x, y)
		}
	}
	return e
}

func (in *Interp) store(st *State, p, v *T, typ types.Type) {
	switch {
	case p.k == KPtr:
		old := in.objContent(st, p.obj)
		st.heap[p.obj] = in.setPath(old, p.obj.typ, p.path, v)
	case p.k == KIte:
		c := decide(p.a[0].b, st.pc)
		if c == bddTrue || p.a[2].k == KNil {
			in.store(st, p.a[1], v, typ)
			return
		}
		if c == bddFalse || p.a[1].k == KNil {
			in.store(st, p.a[2], v, typ)
			return
		}
		o1 := in.load(st, p.a[1], typ)
		o2 := in.load(st, p.a[2], typ)
		in.store(st, p.a[1], ite(c, v, o1), typ)
		in.store(st, p.a[2], ite(c, o2, v), typ)
	case p.isOp("elem"):
		s := in.load(st, p.a[0], nil)
		if s.k == KSeq {
			in.store(st, p.a[0], seqStore(s, p.a[1], v, xpc(st.pc)), nil)
		} else {
			in.store(st, p.a[0], mkOp("upd", s, p.a[1], v), nil)
		}
	case p.isOp("fptr"):
		o := in.load(st, p.a[0], p.typ)
		if n := setField(o, int(p.i), v, 0); n != nil {
			in.store(st, p.a[0], n, p.typ)
		} else {
			in.store(st, p.a[0], intern(&T{k: KOp, op: "setf", i: p.i, a: []*T{o, v}}), p.typ)
		}
	case p.k == KNil:
	case p.isOp("box"):
		in.note("store through a boxed pointer ignored")
	default:
		if in.splitHeap {
			in.note("store through an unknown pointer")
		}
		o := getObj(fmt.Sprintf("*%d", p.id), typ)
		o.base = p
		o.input = true
		st.heap[o] = v
	}
}

func (in *Interp) setPath(v *T, t types.Type, path []int, x *T) *T {
	if len(path) == 0 {
		return x
	}
	if v.k == KIte {
		return ite(v.a[0].b, in.setPath(v.a[1], t, path, x), in.setPath(v.a[2], t, path, x))
	}
	st := t.Underlying().(*types.Struct)
	f := path[0]
	if v.k != KStruct {
		a := make([]*T, st.NumFields())
		for i := range a {
			a[i] = in.fromAtom(mkOp("fld:"+st.Field(i).Name(), v), st.Field(i).Type())
		}
		v = mkStruct(a...)
	}
	a := append([]*T(nil), v.a...)
	a[f] = in.setPath(a[f], st.Field(f).Type(), path[1:], x)
	return mkStruct(a...)
}

// content of a slice value as a sequence
func (in *Interp) content(st *State, s *T) *T {
	switch s.k {
	case KSeq:
		return s
	case KNil:
		return seqEmpty
	case KSlice:
		if s.a[0].k == KNil {
			return seqEmpty
		}
		base := in.load(st, s.a[0], nil)
		if base.k != KSeq {
			base = seqAtom(base)
		}
		return sliceOrOpaque(base, s.a[1], s.a[2], xpc(st.pc))
	case KIte:
		return seqIte(s.a[0].b, in.content(st, s.a[1]), in.content(st, s.a[2]))
	}
	return seqAtom(s)
}

func (in *Interp) sliceLen(s *T) *T {
	switch s.k {
	case KSlice:
		return s.a[2]
	case KSeq:
		return seqLen(s)
	case KNil:
		return mkInt(0)
	case KIte:
		return ite(s.a[0].b, in.sliceLen(s.a[1]), in.sliceLen(s.a[2]))
	}
	return lenOf(s)
}

func (in *Interp) newSeqSlice(key string, content *T, et types.Type, st *State) *T {
	o := getObj(key, et)
	if len(in.loops) > 0 {
		o.loop = in.loops[len(in.loops)-1]
	}
	st.heap[o] = content
	n := seqLen(content)
	return mkSlice(mkPtr(o), mkInt(0), n, mkOpR(0, true, 0, false, "cap", mkPtr(o)))
}

func (in *Interp) freshKey(fr *Frame, instr ssa.Instruction, tag string) string {
	return fmt.Sprintf("%s/%s:%s", fr.ctx, instrID(instr), tag)
}

var instrIDs = map[ssa.Instruction]string{}

func instrID(i ssa.Instruction) string {
	if s, ok := instrIDs[i]; ok {
		return s
	}
	b := i.Block()
	for n, x := range b.Instrs {
		if x == i {
			s := fmt.Sprintf("%d.%d", b.Index, n)
			if v, ok := i.(*ssa.Alloc); ok && v.Comment != "" {
				s += "(" + v.Comment + ")"
			}
			instrIDs[i] = s
			return s
		}
	}
	return "?"
}

// ---------------------------------------------------------------- path conditions

var sideBDD = map[lit]*BDD{}
var xpcMemo = map[int]*BDD{}

// xpc adds to pc what the loop-exit choices it contains imply
func xpc(pc *BDD) *BDD {
	if pc.atom == nil {
		return pc
	}
	if r, ok := xpcMemo[pc.id]; ok {
		return r
	}
	r := pc
	done := map[lit]bool{}
	for ch := true; ch; {
		ch = false
		for _, l := range bddLits(r) {
			if done[l] {
				continue
			}
			if s, ok := sideBDD[l]; ok {
				done[l] = true
				n := bddAnd(r, s)
				if n != r && n != bddFalse {
					r = n
					ch = true
				}
			}
		}
	}
	xpcMemo[pc.id] = r
	return r
}

// xall conjoins everything known about the loop-exit choices pc depends on
func xall(pc *BDD) *BDD {
	r := pc
	done := map[*T]bool{}
	for ch := true; ch; {
		ch = false
		for _, a := range bddSupport(r) {
			if done[a] {
				continue
			}
			done[a] = true
			for _, c := range sideAll[a] {
				r = bddAnd(r, c)
				ch = true
			}
		}
	}
	if r == bddFalse {
		return pc
	}
	return r
}

var sideAll = map[*T][]*BDD{}

func (in *Interp) decide(c *BDD, st *State) *BDD { return decide(c, xpc(st.pc)) }

// ---------------------------------------------------------------- obligations

func (in *Interp) oblig(fr *Frame, st *State, instr ssa.Instruction, kind string, ok bool, detail string) {
	in.obligC(fr, st, instr, kind, ok, nil, detail)
}

// obligC records an obligation; good is the condition under which it is met
// (nil: it is not met at all where ok is false)
func (in *Interp) obligC(fr *Frame, st *State, instr ssa.Instruction, kind string, ok bool, good *BDD, detail string) {
	if in.quiet > 0 || st.pc == bddFalse {
		return
	}
	if !isRepoFn(fr.fn) {
		return
	}
	key := fr.fn.String() + "|" + instrID(instr) + "|" + kind
	o := in.obKey[key]
	if o == nil {
		o = &Oblig{kind: kind, fn: fr.fn, pos: instr.Pos(), ok: true, instr: instr}
		in.obKey[key] = o
		in.obligs = append(in.obligs, o)
	}
	if !ok {
		bad := xall(st.pc)
		if good != nil {
			bad = bddAnd(bad, bddNot(good))
		}
		if o.ok {
			o.ok = false
			o.detail = detail
			o.pc = st.pc
			for f := fr; f != nil; f = f.parent {
				o.stack = append(o.stack, f.fn.String())
			}
		}
		if len(o.bad) < 40 {
			o.bad = append(o.bad, bad)
		}
	}
}

func isRepoFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return isRepoPkg(f.Pkg.Pkg)
	}
	if o := f.Object(); o != nil {
		return isRepoPkg(o.Pkg())
	}
	return false
}

// ---------------------------------------------------------------- values

func (in *Interp) val(fr *Frame, st *State, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return mkPtr(in.globalObj(x))
	case *ssa.Function:
		return mkFn(x)
	case *ssa.Builtin:
		return mkSym("builtin:" + x.Name())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	in.note("value %s of %s used before definition", v.Name(), fr.fn)
	return in.fromAtom(mkSym("undef:"+fr.fn.String()+":"+v.Name()), v.Type())
}

func (in *Interp) constVal(c *ssa.Const) *T {
	if c.Value == nil {
		return zero(c.Type())
	}
	if isFloatT(c.Type()) {
		return mkFloat(c.Value.ExactString())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return constString(constant.StringVal(c.Value))
	case constant.Int:
		i, ok := constant.Int64Val(c.Value)
		if !ok {
			u, _ := constant.Uint64Val(c.Value)
			i = int64(u)
		}
		return mkInt(i)
	case constant.Float:
		return mkFloat(c.Value.ExactString())
	}
	return mkSym("const:" + c.Value.ExactString())
}

func (in *Interp) globalObj(g *ssa.Global) *Obj {
	o := getObj("global:"+g.String(), derefT(g.Type()))
	o.kind = "global"
	o.site = g.String()
	globalByObj[o] = g
	return o
}

var globalByObj = map[*Obj]*ssa.Global{}

func (in *Interp) globalInit(o *Obj) *T {
	g := globalByObj[o]
	if v, ok := in.P.constGlobals[g]; ok {
		return v
	}
	s := mkSym(g.String())
	if g.Pkg != nil && !isRepoPkg(g.Pkg.Pkg) && isNilableType(o.typ) {
		// variables of other packages are initialised by them
		nonNilSyms[s] = true
	}
	if types.Identical(o.typ, types.Universe.Lookup("error").Type()) {
		nonNilSyms[s] = true
		return s
	}
	return in.fromAtom(s, o.typ)
}

// ---------------------------------------------------------------- merging

func mergeStates(a, b *State) *State {
	pc := bddOr(a.pc, b.pc)
	c := bddConstrain(a.pc, pc)
	h := make(map[*Obj]*T, len(a.heap))
	for o, v := range a.heap {
		if w, ok := b.heap[o]; ok {
			if v == w {
				h[o] = v
			} else {
				h[o] = ite(c, v, w)
			}
		} else {
			h[o] = v
		}
	}
	for o, w := range b.heap {
		if _, ok := a.heap[o]; !ok {
			h[o] = w
		}
	}
	return &State{pc: pc, heap: h, trace: ite(c, a.trace, b.trace)}
}

func (in *Interp) mergeEdges(es []*edge) (*State, map[*ssa.Phi]*T) {
	st := es[0].st
	ph := es[0].phis
	for _, e := range es[1:] {
		pc := bddOr(st.pc, e.st.pc)
		c := bddConstrain(st.pc, pc)
		n := map[*ssa.Phi]*T{}
		for p, v := range ph {
			n[p] = ite(c, v, e.phis[p])
		}
		// objects missing on one side start from their initial content
		in.fillHeap(st, e.st)
		in.fillHeap(e.st, st)
		st = mergeStates(st, e.st)
		ph = n
	}
	if len(es) == 1 {
		st = st.clone()
	}
	return st, ph
}

// fillHeap makes lazily created input objects present in both states
func (in *Interp) fillHeap(a, b *State) {
	for o := range b.heap {
		if _, ok := a.heap[o]; !ok && (o.base != nil || o.kind == "global") {
			in.objContent(a, o)
		}
	}
}

// ---------------------------------------------------------------- function execution

const maxDepth = 40

func (in *Interp) call(st *State, fn *ssa.Function, args []*T, bind []*T, parent *Frame, site ssa.Instruction) *T {
	in.reached[fn] = true
	ctx := in.topCtx
	depth := 0
	if parent != nil {
		ctx = parent.ctx
		depth = parent.depth + 1
	}
	if site != nil {
		ctx += ">" + instrID(site)
	}
	ctx += "|" + fn.Name()
	fr := &Frame{fn: fn, env: map[ssa.Value]*T{}, ctx: ctx, parent: parent, depth: depth, caller: site, li: in.P.loops(fn)}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.env[p] = bind[i]
		}
	}
	in.frames = append(in.frames, fr)
	defer func() { in.frames = in.frames[:len(in.frames)-1] }()
	entry := st.clone()
	in.region(fr, fr.li.top, fn.Blocks[0], entry, nil, "")
	if len(fr.rets) == 0 {
		st.pc = bddFalse
		return in.fromAtom(mkSym("noreturn"), resultType(fn.Signature))
	}
	// merge returns
	r := fr.rets[0]
	for _, e := range fr.rets[1:] {
		pc := bddOr(r.st.pc, e.st.pc)
		c := bddConstrain(r.st.pc, pc)
		var v *T
		if r.val != nil && e.val != nil {
			v = ite(c, r.val, e.val)
		}
		in.fillHeap(r.st, e.st)
		in.fillHeap(e.st, r.st)
		r = retEdge{mergeStates(r.st, e.st), v}
	}
	st.pc = r.st.pc
	st.heap = r.st.heap
	st.trace = r.st.trace
	return r.val
}

func resultType(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// region executes the blocks of reg (a loop body or the whole function)
// starting at entry; it returns the edges leaving the region, keyed by target,
// and the back edges to entry.
func (in *Interp) region(fr *Frame, reg *loopNode, entry *ssa.BasicBlock, st *State, phis map[*ssa.Phi]*T, _ string) (exits map[*ssa.BasicBlock][]*edge, back []*edge) {
	pending := map[*ssa.BasicBlock][]*edge{}
	exits = map[*ssa.BasicBlock][]*edge{}
	route := func(from, to *ssa.BasicBlock, s *State) {
		if s.pc == bddFalse {
			return
		}
		e := &edge{from: from, st: s, phis: map[*ssa.Phi]*T{}}
		idx := -1
		for i, p := range to.Preds {
			if p == from {
				idx = i
			}
		}
		for _, ins := range to.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			e.phis[p] = in.val(fr, s, p.Edges[idx])
		}
		if to == entry && reg.header != nil {
			back = append(back, e)
			return
		}
		if reg.header != nil && !reg.blocks[to] {
			exits[to] = append(exits[to], e)
			return
		}
		pending[to] = append(pending[to], e)
	}
	for _, b := range reg.order {
		var s *State
		var ph map[*ssa.Phi]*T
		if b == entry {
			s = st
			ph = phis
		} else {
			es := pending[b]
			if len(es) == 0 {
				continue
			}
			s, ph = in.mergeEdges(es)
		}
		if sub := reg.child[b]; sub != nil {
			ex := in.execLoop(fr, sub, s, ph)
			// deterministic order
			var ts []*ssa.BasicBlock
			for t := range ex {
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].Index < ts[j].Index })
			for _, t := range ts {
				for _, e := range ex[t] {
					if t == entry && reg.header != nil {
						back = append(back, e)
					} else if reg.header != nil && !reg.blocks[t] {
						exits[t] = append(exits[t], e)
					} else {
						pending[t] = append(pending[t], e)
					}
				}
			}
			continue
		}
		for p, v := range ph {
			fr.env[p] = v
		}
		in.block(fr, b, s, route)
	}
	return exits, back
}

func (in *Interp) block(fr *Frame, b *ssa.BasicBlock, st *State, route func(from, to *ssa.BasicBlock, s *State)) {
	for _, ins := range b.Instrs {
		if st.pc == bddFalse {
			return
		}
		in.steps++
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := in.val(fr, st, x.Cond)
			if c.k != KBool {
				c = mkB(bddVar(c))
			}
			cb := in.decide(c.b, st)
			if cb == bddTrue {
				route(b, b.Succs[0], st)
			} else if cb == bddFalse {
				route(b, b.Succs[1], st)
			} else {
				t := st.clone()
				t.pc = bddAnd(st.pc, cb)
				f := st
				f.pc = bddAnd(st.pc, bddNot(cb))
				route(b, b.Succs[0], t)
				route(b, b.Succs[1], f)
			}
			return
		case *ssa.Jump:
			route(b, b.Succs[0], st)
			return
		case *ssa.Return:
			var v *T
			switch len(x.Results) {
			case 0:
			case 1:
				v = in.val(fr, st, x.Results[0])
			default:
				f := make([]*T, len(x.Results))
				for i, r := range x.Results {
					f[i] = in.val(fr, st, r)
				}
				v = mkTuple(f...)
			}
			fr.rets = append(fr.rets, retEdge{st, v})
			return
		case *ssa.Panic:
			in.oblig(fr, st, x, "panic", false, "explicit panic reachable")
			return
		default:
			in.instr(fr, st, ins)
		}
	}
}

func isNilableType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		return true
	}
	return false
}
