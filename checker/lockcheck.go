package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock discipline. Every function that can be entered from outside (exported
// functions and methods, the functions the transport library calls, started
// goroutines, installed callbacks) is walked path by path, callees included,
// with the set of locks held. What is recorded of each shared memory location
// (a field of a shared type, or what a field refers to) is who touches it, how
// and under which locks.

type lkMode uint8 // 1 shared, 2 exclusive

type lkState struct {
	held   map[string]lkMode
	defers []lkDefer
	facts  map[string]bool
	gone   map[ssa.Value]bool // allocations already published
}

type lkDefer struct {
	ins *ssa.Defer
}

func (s *lkState) clone() *lkState {
	n := &lkState{held: map[string]lkMode{}, facts: map[string]bool{}, gone: map[ssa.Value]bool{}}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.gone {
		n.gone[k] = v
	}
	n.defers = append(n.defers, s.defers...)
	return n
}

func heldKey(h map[string]lkMode) string {
	var ks []string
	for k, v := range h {
		ks = append(ks, fmt.Sprint(k, ":", v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s *lkState) key() string {
	var ks []string
	for k, v := range s.facts {
		ks = append(ks, fmt.Sprint(k, v))
	}
	for v := range s.gone {
		ks = append(ks, "g"+v.Name())
	}
	sort.Strings(ks)
	d := ""
	for _, x := range s.defers {
		d += fmt.Sprint(x.ins.Pos(), ";")
	}
	return heldKey(s.held) + "|" + d + "|" + strings.Join(ks, ",")
}

// a function value known to the analysis, with what its free variables and
// parameters are bound to
type lkFn struct {
	fn  *ssa.Function
	env *lkEnv
}

type lkEnv struct {
	fns   map[ssa.Value][]lkFn
	fresh map[ssa.Value]bool // parameters and free variables that are unpublished allocations
	orig  map[ssa.Value]*lkOrigin
}

type lkOrigin struct {
	loc  string
	self bool
}

func newLkEnv() *lkEnv {
	return &lkEnv{fns: map[ssa.Value][]lkFn{}, fresh: map[ssa.Value]bool{}, orig: map[ssa.Value]*lkOrigin{}}
}

func (e *lkEnv) key() string {
	var ks []string
	for v, fs := range e.fns {
		for _, f := range fs {
			ks = append(ks, v.Name()+"="+f.fn.String())
		}
	}
	for v := range e.fresh {
		ks = append(ks, "fresh "+v.Name())
	}
	for v, o := range e.orig {
		ks = append(ks, "o "+v.Name()+"="+o.loc)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

type lkAccess struct {
	loc   string
	write bool
	locks map[string]lkMode
	role  string
	pos   string
	fn    string
}

type lkEdge struct{ from, to string }

type lkExit struct {
	held   map[string]lkMode
	result string // constant boolean results, to tell exits apart
}

type lkAn struct {
	P        *Program
	acc      map[string]*lkAccess
	edges    map[lkEdge]string
	bad      map[string]Ob
	memo     map[string][]lkExit
	busy     map[string]bool
	roots    map[string]bool
	todo     []func()
	role     string
	multi    map[string]bool
	funcs    map[*ssa.Function]bool
	allocBy  map[string]map[string]bool // type → roles allocating it
	shared   map[string]bool            // types shared between goroutines
	lockOps  int
	calls    int
	trace    []string
	wraps    map[string]string
	userHeld int
	atomic64 map[string]lkField
}

type lkField struct {
	st  *types.Struct
	idx int
	pos string
}

func (p *Program) newLk() *lkAn {
	return &lkAn{P: p, acc: map[string]*lkAccess{}, edges: map[lkEdge]string{}, bad: map[string]Ob{}, memo: map[string][]lkExit{},
		busy: map[string]bool{}, roots: map[string]bool{}, multi: map[string]bool{}, funcs: map[*ssa.Function]bool{},
		allocBy: map[string]map[string]bool{}, shared: map[string]bool{}, atomic64: map[string]lkField{}}
}

func lkTypeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		pk := ""
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != modPath {
			pk = n.Obj().Pkg().Name() + "."
		}
		return pk + n.Obj().Name()
	}
	return ""
}

func isSyncType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	pp := n.Obj().Pkg().Path()
	return pp == "sync" || pp == "sync/atomic"
}

// external types whose methods change them without any lock of their own
func isStateful(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "strings.Builder", "bufio.Reader", "bufio.Writer", "bufio.Scanner", "bytes.Reader", "strings.Reader",
		"golang.org/x/text/encoding.Decoder", "golang.org/x/text/encoding.Encoder", "golang.org/x/text/transform.Reader",
		"golang.org/x/text/transform.Writer", "compress/gzip.Writer", "compress/gzip.Reader", "math/rand.Rand",
		"container/list.List", "encoding/json.Encoder", "encoding/json.Decoder":
		return true
	}
	return false
}

// locKey names the location an address denotes; root is the allocation the
// address lies in when that is local to the function
func (a *lkAn) locKey(v ssa.Value, env *lkEnv) (key string, typ types.Type, root ssa.Value) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := derefT(x.X.Type())
		f := st.Underlying().(*types.Struct).Field(x.Field)
		_, _, r := a.locKey(x.X, env)
		if n := lkTypeName(st); n != "" {
			return n + "." + f.Name(), f.Type(), r
		}
		k, _, r := a.locKey(x.X, env)
		return k + "." + f.Name(), f.Type(), r
	case *ssa.Global:
		return x.Pkg.Pkg.Name() + "." + x.Name(), derefT(x.Type()), nil
	case *ssa.Alloc:
		return "", derefT(x.Type()), x
	case *ssa.IndexAddr:
		if _, isp := x.X.Type().Underlying().(*types.Pointer); isp {
			k, _, r := a.locKey(x.X, env)
			if k != "" {
				return k + "[]", derefT(x.Type()), r
			}
			return "", derefT(x.Type()), r
		}
		return a.content(x.X, env, map[ssa.Value]bool{}), derefT(x.Type()), nil
	case *ssa.Parameter, *ssa.FreeVar:
		if o := env.orig[v]; o != nil && o.self {
			return o.loc, lkElem(v.Type()), v
		}
		return "", lkElem(v.Type()), v
	case *ssa.ChangeType:
		return a.locKey(x.X, env)
	case *ssa.Phi:
		k := ""
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			if _, ok := e.(*ssa.Phi); ok {
				continue
			}
			ek, _, _ := a.locKey(e, env)
			if ek != "" {
				k = ek
			}
		}
		return k, lkElem(x.Type()), nil
	}
	return "", lkElem(v.Type()), nil
}

func lkElem(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return nil
}

// content names what a map, slice or pointer value refers to
func (a *lkAn) content(v ssa.Value, env *lkEnv, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k, _, root := a.locKey(x.X, env); k != "" {
				if al, ok := root.(*ssa.Alloc); ok && !a.copied(al) {
					// still inside an object under construction
					return ""
				}
				return k + "[]"
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				// a local variable: what was put in it
				r := ""
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						if k := a.content(st.Val, env, seen); k != "" {
							r = k
						}
					}
				}
				return r
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if o := env.orig[fv]; o != nil {
					return o.loc
				}
			}
			if n := lkTypeName(derefT(x.X.Type())); n != "" && a.shared[n] {
				return n + "[]"
			}
		}
		return ""
	case *ssa.Slice:
		return a.content(x.X, env, seen)
	case *ssa.ChangeType:
		return a.content(x.X, env, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k := a.content(e, env, seen); k != "" {
				return k
			}
		}
		return ""
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return a.content(x.Call.Args[0], env, seen)
		}
		if f := x.Call.StaticCallee(); f != nil && isRepoFn(f) && len(f.Blocks) > 0 {
			// what the function returns
			sub := a.bindEnv(f, x.Call.Args, nil, env, &lkState{})
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ret, ok := ins.(*ssa.Return); ok && len(ret.Results) == 1 {
						if k := a.content(ret.Results[0], sub, seen); k != "" {
							return k
						}
					}
				}
			}
		}
		return ""
	case *ssa.Parameter, *ssa.FreeVar:
		if o := env.orig[v]; o != nil && !o.self {
			return o.loc
		}
		if n := lkTypeName(v.Type()); n != "" && a.shared[n] {
			return n + "[]"
		}
		return ""
	case *ssa.FieldAddr, *ssa.Global:
		k, _, _ := a.locKey(v, env)
		return k
	}
	return ""
}

// copied: the local holds a copy of a whole struct
func (a *lkAn) copied(al *ssa.Alloc) bool {
	if _, ok := derefT(al.Type()).Underlying().(*types.Struct); !ok {
		return false
	}
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
			switch v := st.Val.(type) {
			case *ssa.Parameter:
				return true
			case *ssa.UnOp:
				if v.Op == token.MUL {
					if src, ok := v.X.(*ssa.Alloc); ok && src != al && !a.copied(src) {
						continue // a literal built aside
					}
					return true
				}
			}
		}
	}
	return false
}

func (a *lkAn) fresh(root ssa.Value, env *lkEnv, s *lkState) bool {
	switch x := root.(type) {
	case *ssa.Alloc:
		return !s.gone[x]
	case *ssa.Parameter, *ssa.FreeVar:
		return env.fresh[root] && !s.gone[root]
	}
	return false
}

func (a *lkAn) record(loc string, write bool, s *lkState, fn *ssa.Function, pos token.Pos, atomically bool) {
	if loc == "" {
		return
	}
	locks := map[string]lkMode{}
	for k, v := range s.held {
		if !strings.HasPrefix(k, "local ") {
			locks[k] = v
		}
	}
	if atomically {
		locks["atomic operations"] = 2
	}
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	r := &lkAccess{loc: loc, write: write, locks: locks, role: a.role, pos: a.P.pos(pos), fn: fn.String()}
	k := fmt.Sprint(loc, write, heldKey(locks), a.role, r.pos, r.fn)
	if a.acc[k] == nil {
		a.acc[k] = r
	}
}

func (a *lkAn) alarm(what, pos, detail string) {
	if _, ok := a.bad[what]; !ok {
		a.bad[what] = Ob{Rule: "locks", What: what, Pos: pos, Status: stViolated, Detail: detail}
	}
}

// lockOf names the lock an operand denotes
func (a *lkAn) lockOf(v ssa.Value, env *lkEnv) string {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return a.lockOf(x.X, env)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k, _, root := a.locKey(x.X, env); k != "" {
				if al, ok := root.(*ssa.Alloc); ok && !a.copied(al) {
					return "local " + k
				}
				return k
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						return a.lockOf(st.Val, env)
					}
				}
			}
		}
	case *ssa.Parameter, *ssa.FreeVar:
		if o := env.orig[v]; o != nil {
			return o.loc
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k := a.lockOf(e, env); k != "" {
				return k
			}
		}
	}
	k, _, root := a.locKey(v, env)
	if al, ok := root.(*ssa.Alloc); ok {
		return "local " + k + al.Name()
	}
	if k == "" {
		return "local " + v.Name()
	}
	return k
}

// funcsOf resolves a function value
func (a *lkAn) funcsOf(v ssa.Value, env *lkEnv, s *lkState, depth int) []lkFn {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []lkFn{{fn: x, env: newLkEnv()}}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		e := newLkEnv()
		for i, b := range x.Bindings {
			a.bindOne(e, f.FreeVars[i], b, env, s, depth)
		}
		return []lkFn{{fn: f, env: e}}
	case *ssa.ChangeType:
		return a.funcsOf(x.X, env, s, depth+1)
	case *ssa.Parameter, *ssa.FreeVar:
		return env.fns[v]
	case *ssa.Phi:
		var out []lkFn
		for _, e := range x.Edges {
			out = append(out, a.funcsOf(e, env, s, depth+1)...)
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch b := x.X.(type) {
			case *ssa.Alloc:
				var out []lkFn
				for _, ref := range *b.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == b {
						out = append(out, a.funcsOf(st.Val, env, s, depth+1)...)
					}
				}
				return out
			case *ssa.FreeVar:
				return env.fns[b]
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Pkg == a.P.root {
			sub := a.bindEnv(f, x.Call.Args, nil, env, s)
			var out []lkFn
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ret, ok := ins.(*ssa.Return); ok && len(ret.Results) == 1 {
						out = append(out, a.funcsOf(ret.Results[0], sub, s, depth+1)...)
					}
				}
			}
			return out
		}
	}
	return nil
}

func (a *lkAn) bindOne(e *lkEnv, to, from ssa.Value, env *lkEnv, s *lkState, depth int) {
	if fs := a.funcsOf(from, env, s, depth+1); len(fs) > 0 {
		e.fns[to] = fs
	}
	// a variable captured by reference that holds a function
	if al, ok := from.(*ssa.Alloc); ok {
		if _, isf := derefT(al.Type()).Underlying().(*types.Signature); isf {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					e.fns[to] = append(e.fns[to], a.funcsOf(st.Val, env, s, depth+1)...)
				}
			}
		}
	}
	switch from.Type().Underlying().(type) {
	case *types.Pointer:
		k, t, root := a.locKey(from, env)
		if al, ok := root.(*ssa.Alloc); ok && !a.copied(al) || root == nil && false {
			if k == "" && !s.gone[al] {
				e.fresh[to] = true
			}
		} else if root != nil && env.fresh[root] && k == "" && !s.gone[root] {
			e.fresh[to] = true
		}
		if k != "" {
			e.orig[to] = &lkOrigin{loc: k, self: true}
		} else if u, ok := from.(*ssa.UnOp); ok && u.Op == token.MUL {
			// a pointer loaded from a location
			if lk, lt, _ := a.locKey(u.X, env); lk != "" && lt != nil {
				if isSyncType(lt) || isStateful(lt) {
					e.orig[to] = &lkOrigin{loc: lk, self: true}
				}
			}
		}
		// the contents of a captured variable
		if al, ok := from.(*ssa.Alloc); ok {
			switch t.Underlying().(type) {
			case *types.Map, *types.Slice:
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						if c := a.content(st.Val, env, map[ssa.Value]bool{}); c != "" {
							e.orig[to] = &lkOrigin{loc: c}
						}
					}
				}
			}
		}
	case *types.Map, *types.Slice:
		if k := a.content(from, env, map[ssa.Value]bool{}); k != "" {
			e.orig[to] = &lkOrigin{loc: k}
		}
	case *types.Interface:
		if k := a.lockOf(from, env); k != "" && !strings.HasPrefix(k, "local ") {
			if mi, ok := from.(*ssa.MakeInterface); ok && isSyncType(mi.X.Type()) {
				e.orig[to] = &lkOrigin{loc: k, self: true}
			}
		}
	}
}

func (a *lkAn) bindEnv(f *ssa.Function, args []ssa.Value, base *lkEnv, env *lkEnv, s *lkState) *lkEnv {
	e := newLkEnv()
	if base != nil {
		for k, v := range base.fns {
			e.fns[k] = v
		}
		for k, v := range base.fresh {
			e.fresh[k] = v
		}
		for k, v := range base.orig {
			e.orig[k] = v
		}
	}
	for i, p := range f.Params {
		if i < len(args) {
			a.bindOne(e, p, args[i], env, s, 0)
		}
	}
	return e
}

// walk explores fn from the given set of held locks and returns the sets it
// can return with
func (a *lkAn) walk(fn *ssa.Function, env *lkEnv, held map[string]lkMode) []lkExit {
	key := a.role + "#" + fn.String() + "#" + env.key() + "#" + heldKey(held)
	if r, ok := a.memo[key]; ok {
		return r
	}
	if a.busy[key] || len(a.trace) > 24 || len(fn.Blocks) == 0 {
		return []lkExit{{held: held}}
	}
	a.busy[key] = true
	defer func() { a.busy[key] = false }()
	a.funcs[fn] = true
	a.trace = append(a.trace, fn.Name())
	defer func() { a.trace = a.trace[:len(a.trace)-1] }()

	condUses := map[string]int{}
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				condUses[condKey(i.Cond)]++
			}
		}
	}
	type item struct {
		b *ssa.BasicBlock
		s *lkState
	}
	st0 := &lkState{held: map[string]lkMode{}, facts: map[string]bool{}, gone: map[ssa.Value]bool{}}
	for k, v := range held {
		st0.held[k] = v
	}
	work := []item{{fn.Blocks[0], st0}}
	seen := map[string]bool{}
	count := map[*ssa.BasicBlock]int{}
	exits := map[string]lkExit{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprint(it.b.Index, "#", it.s.key())
		if seen[k] || count[it.b] > 200 {
			continue
		}
		seen[k] = true
		count[it.b]++
		states := []*lkState{it.s.clone()}
		for _, ins := range it.b.Instrs {
			var next []*lkState
			for _, s := range states {
				next = append(next, a.step(fn, env, ins, s)...)
			}
			states = next
			if ret, ok := ins.(*ssa.Return); ok {
				for _, s := range states {
					res := ""
					for i, r := range ret.Results {
						if c, ok := r.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
							res += fmt.Sprint(i, "=", constant.BoolVal(c.Value), ";")
						}
					}
					x := lkExit{held: s.held, result: res}
					exits[heldKey(s.held)+"|"+res] = x
				}
			}
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, s := range states {
			switch x := last.(type) {
			case *ssa.If:
				ck := condKey(x.Cond)
				neg := strings.HasPrefix(ck, "!")
				bk := strings.TrimPrefix(ck, "!")
				for i, succ := range it.b.Succs {
					val := (i == 0) != neg
					if f, ok := s.facts[bk]; ok && f != val {
						continue
					}
					n := s.clone()
					if condUses[ck] > 1 || condUses["!"+ck] > 0 {
						n.facts[bk] = val
					}
					work = append(work, item{succ, n})
				}
			default:
				for _, succ := range it.b.Succs {
					work = append(work, item{succ, s.clone()})
				}
			}
		}
	}
	var out []lkExit
	for _, x := range exits {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return heldKey(out[i].held)+out[i].result < heldKey(out[j].held)+out[j].result })
	if len(out) > 1 {
		// results only matter when they separate different lock sets
		same := true
		for _, x := range out {
			same = same && heldKey(x.held) == heldKey(out[0].held)
		}
		if same {
			out = []lkExit{{held: out[0].held}}
		}
	}
	a.memo[key] = out
	return out
}

func condKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			k := condKey(x.X)
			if strings.HasPrefix(k, "!") {
				return k[1:]
			}
			return "!" + k
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok {
			switch x.Op {
			case token.EQL:
				return x.X.Name() + "==" + c.String()
			case token.NEQ:
				return "!" + x.X.Name() + "==" + c.String()
			}
		}
	}
	return v.Name()
}

func (a *lkAn) step(fn *ssa.Function, env *lkEnv, ins ssa.Instruction, s *lkState) []*lkState {
	if v, ok := ins.(ssa.Value); ok {
		// a fact about an earlier value of this register no longer holds
		for k := range s.facts {
			if k == v.Name() || strings.HasPrefix(k, v.Name()+"==") {
				delete(s.facts, k)
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		delete(s.gone, x)
		if n := lkTypeName(derefT(x.Type())); n != "" {
			if a.allocBy[n] == nil {
				a.allocBy[n] = map[string]bool{}
			}
			if !a.copied(x) {
				a.allocBy[n][a.role] = true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.touch(fn, env, x.X, false, s, x.Pos())
		}
	case *ssa.Store:
		a.touch(fn, env, x.Addr, true, s, x.Pos())
		// storing a pointer elsewhere publishes what it points to
		_, _, root := a.locKey(x.Addr, env)
		a.publish(x.Val, root, env, s)
		if _, ok := x.Val.Type().Underlying().(*types.Signature); ok {
			if _, local := x.Addr.(*ssa.Alloc); !local {
				// kept for later: called by whoever finds it there
				for _, f := range a.funcsOf(x.Val, env, s, 0) {
					a.addRoot(f.fn, lkEscaped(f.env), "callback "+f.fn.Name(), true)
				}
			}
		}
	case *ssa.MapUpdate:
		a.record(a.content(x.Map, env, map[ssa.Value]bool{}), true, s, fn, x.Pos(), false)
		a.publish(x.Value, nil, env, s)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.record(a.content(x.X, env, map[ssa.Value]bool{}), false, s, fn, x.Pos(), false)
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			if _, ok := r.X.Type().Underlying().(*types.Map); ok {
				a.record(a.content(r.X, env, map[ssa.Value]bool{}), false, s, fn, r.Pos(), false)
			}
		}
	case *ssa.Send:
		a.publish(x.X, nil, env, s)
	case *ssa.Go:
		a.spawn(fn, env, x, s)
		for _, arg := range x.Call.Args {
			a.publish(arg, nil, env, s)
		}
		if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				a.publish(b, nil, env, s)
			}
		}
	case *ssa.Defer:
		for _, d := range s.defers {
			if d.ins == x {
				return []*lkState{s}
			}
		}
		s.defers = append(s.defers, lkDefer{x})
	case *ssa.RunDefers:
		states := []*lkState{s}
		ds := s.defers
		s.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*lkState
			for _, t := range states {
				next = append(next, a.call(fn, env, &ds[i].ins.Call, nil, ds[i].ins.Pos(), t)...)
			}
			states = next
		}
		return states
	case *ssa.Call:
		return a.call(fn, env, &x.Call, x, x.Pos(), s)
	}
	return []*lkState{s}
}

func (a *lkAn) publish(v ssa.Value, into ssa.Value, env *lkEnv, s *lkState) {
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			a.publish(mi.X, into, env, s)
		}
		return
	}
	k, _, root := a.locKey(v, env)
	if root == nil || root == into || k != "" {
		return
	}
	if al, ok := into.(*ssa.Alloc); ok && !s.gone[al] {
		return // into another object under construction
	}
	s.gone[root] = true
}

// touch records a load or a store through an address
func (a *lkAn) touch(fn *ssa.Function, env *lkEnv, addr ssa.Value, write bool, s *lkState, pos token.Pos) {
	k, t, root := a.locKey(addr, env)
	if t == nil {
		return
	}
	if k == "" {
		// a whole object
		if root != nil && a.fresh(root, env, s) {
			return
		}
		if _, ok := root.(*ssa.Alloc); ok {
			return
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			if n := lkTypeName(t); n != "" && a.shared[n] {
				for i := 0; i < st.NumFields(); i++ {
					if !isSyncType(st.Field(i).Type()) {
						a.record(n+"."+st.Field(i).Name(), write, s, fn, pos, false)
					}
				}
			}
		} else if n := lkTypeName(t); n != "" && a.shared[n] {
			a.record("*"+n, write, s, fn, pos, false)
		}
		return
	}
	if isSyncType(t) {
		return
	}
	if root != nil {
		if _, ok := root.(*ssa.Alloc); ok && a.fresh(root, env, s) {
			return
		}
		if a.fresh(root, env, s) {
			return
		}
	}
	if g, ok := addr.(*ssa.Global); ok && fn.Name() == "init" && g != nil {
		return
	}
	a.record(k, write, s, fn, pos, false)
}

func (a *lkAn) heldNames(s *lkState) string {
	var ks []string
	for k := range s.held {
		if !strings.HasPrefix(k, "local ") && !strings.HasPrefix(k, "once ") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

// call advances over a call
func (a *lkAn) call(fn *ssa.Function, env *lkEnv, c *ssa.CallCommon, res *ssa.Call, pos token.Pos, s *lkState) []*lkState {
	a.calls++
	one := []*lkState{s}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// may write into the spare room of what it extends
			a.record(a.content(c.Args[0], env, map[ssa.Value]bool{}), true, s, fn, pos, false)
			if len(c.Args) > 1 {
				a.record(a.content(c.Args[1], env, map[ssa.Value]bool{}), false, s, fn, pos, false)
			}
		case "copy":
			a.record(a.content(c.Args[0], env, map[ssa.Value]bool{}), true, s, fn, pos, false)
			a.record(a.content(c.Args[1], env, map[ssa.Value]bool{}), false, s, fn, pos, false)
		case "delete", "clear":
			a.record(a.content(c.Args[0], env, map[ssa.Value]bool{}), true, s, fn, pos, false)
		case "len", "cap":
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				a.record(a.content(c.Args[0], env, map[ssa.Value]bool{}), false, s, fn, pos, false)
			}
		}
		return one
	}
	callee := c.StaticCallee()
	name := ""
	if callee != nil {
		name = callee.String()
	}
	args := c.Args
	if c.IsInvoke() {
		name = c.Method.Name()
		if name == "Lock" || name == "Unlock" {
			if k := a.lockOf(c.Value, env); !strings.HasPrefix(k, "local ") {
				if name == "Lock" {
					return a.acquire(fn, k, 2, pos, s)
				}
				return a.release(fn, k, 2, pos, s)
			}
		}
		return a.external(fn, env, c, name, pos, s)
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return a.acquire(fn, a.lockOf(args[0], env), 2, pos, s)
	case "(*sync.RWMutex).RLock", "(*sync.RWMutex).TryRLock":
		return a.acquire(fn, a.lockOf(args[0], env), 1, pos, s)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return a.release(fn, a.lockOf(args[0], env), 2, pos, s)
	case "(*sync.RWMutex).RUnlock":
		return a.release(fn, a.lockOf(args[0], env), 1, pos, s)
	case "(*sync.Once).Do":
		k := "once " + a.lockOf(args[0], env)
		t := s.clone()
		t.held[k] = 2
		for _, f := range a.funcsOf(args[1], env, s, 0) {
			a.enter(f, nil, env, t)
		}
		s.held[k] = 1
		return one
	}
	if callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "sync/atomic" && len(args) > 0 {
		if callee.Signature.Recv() == nil {
			k, _, root := a.locKey(args[0], env)
			if o := env.orig[args[0]]; k == "" && o != nil {
				k = o.loc
			}
			if k != "" && (root == nil || !a.fresh(root, env, s)) {
				a.record(k, !strings.HasPrefix(callee.Name(), "Load"), s, fn, pos, true)
			}
			if strings.HasSuffix(callee.Name(), "64") {
				if fa, ok := args[0].(*ssa.FieldAddr); ok {
					a.atomic64[k] = lkField{derefT(fa.X.Type()).Underlying().(*types.Struct), fa.Field, a.P.pos(pos)}
				}
			}
		}
		return one
	}
	// the receiver of a method of an external type that is not safe for
	// concurrent use
	if callee != nil && callee.Signature.Recv() != nil && len(args) > 0 && isStateful(callee.Signature.Recv().Type()) {
		loc := ""
		if u, ok := args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
			loc = a.content(u, env, map[ssa.Value]bool{})
		} else if k, _, root := a.locKey(args[0], env); k != "" && (root == nil || !a.fresh(root, env, s)) {
			loc = k + "[]"
		}
		if o := env.orig[args[0]]; loc == "" && o != nil {
			loc = o.loc + "[]"
		}
		if loc != "" {
			a.record(loc, true, s, fn, pos, false)
		}
	}
	if callee != nil && isRepoFn(callee) && len(callee.Blocks) > 0 {
		var base *lkEnv
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			base = a.funcsOf(mc, env, s, 0)[0].env
		}
		return a.enterStates(lkFn{callee, base}, args, env, s, res)
	}
	if callee != nil {
		return a.external(fn, env, c, name, pos, s)
	}
	// a function value
	fs := a.funcsOf(c.Value, env, s, 0)
	if len(fs) == 0 {
		a.userHeld++
		if h := a.heldNames(s); h != "" {
			a.alarm("a function value is called in "+fnLabel(fn)+" while "+h+" is held", a.P.pos(pos), strings.Join(a.trace, " → "))
		}
		return one
	}
	var out []*lkState
	for _, f := range fs {
		if f.fn.Pkg != a.P.root && !isRepoFn(f.fn) && f.fn.Synthetic == "" {
			out = append(out, s.clone())
			continue
		}
		out = append(out, a.enterStates(f, args, env, s, res)...)
	}
	return out
}

func fnLabel(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.RelString(f.Pkg.Pkg)
}

func (a *lkAn) enter(f lkFn, args []ssa.Value, env *lkEnv, s *lkState) []lkExit {
	return a.walk(f.fn, a.bindEnv(f.fn, args, f.env, env, s), s.held)
}

func (a *lkAn) enterStates(f lkFn, args []ssa.Value, env *lkEnv, s *lkState, res *ssa.Call) []*lkState {
	var out []*lkState
	for _, x := range a.enter(f, args, env, s) {
		n := s.clone()
		n.held = map[string]lkMode{}
		for k, v := range x.held {
			n.held[k] = v
		}
		if res != nil && x.result != "" {
			for _, r := range strings.Split(strings.TrimSuffix(x.result, ";"), ";") {
				var i int
				var v string
				kv := strings.SplitN(r, "=", 2)
				fmt.Sscan(kv[0], &i)
				v = kv[1]
				if _, isT := res.Type().(*types.Tuple); !isT {
					n.facts[res.Name()] = v == "true"
				} else if refs := res.Referrers(); refs != nil {
					for _, ref := range *refs {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
							n.facts[e.Name()] = v == "true"
						}
					}
				}
			}
		}
		out = append(out, n)
	}
	return out
}

func (a *lkAn) acquire(fn *ssa.Function, k string, m lkMode, pos token.Pos, s *lkState) []*lkState {
	a.lockOps++
	if !strings.HasPrefix(k, "local ") {
		for h := range s.held {
			if strings.HasPrefix(h, "local ") || strings.HasPrefix(h, "once ") {
				continue
			}
			if h == k {
				a.alarm(k+" is acquired in "+fnLabel(fn)+" while it is already held", a.P.pos(pos), strings.Join(a.trace, " → "))
				return nil
			}
			e := lkEdge{h, k}
			if a.edges[e] == "" {
				a.edges[e] = fnLabel(fn) + " (" + strings.Join(a.trace, " → ") + ") at " + a.P.pos(pos)
			}
		}
	}
	s.held[k] = m
	return []*lkState{s}
}

func (a *lkAn) release(fn *ssa.Function, k string, m lkMode, pos token.Pos, s *lkState) []*lkState {
	h, ok := s.held[k]
	if !ok || h != m {
		if !strings.HasPrefix(k, "local ") && len(a.trace) == 1 {
			a.alarm(k+" is released in "+fnLabel(fn)+" though it is not held that way", a.P.pos(pos), strings.Join(a.trace, " → "))
		}
		if ok {
			delete(s.held, k)
		}
		return []*lkState{s}
	}
	delete(s.held, k)
	return []*lkState{s}
}

// external: a call that leaves the package
func (a *lkAn) external(fn *ssa.Function, env *lkEnv, c *ssa.CallCommon, name string, pos token.Pos, s *lkState) []*lkState {
	switch name {
	case "(*github.com/funny/link.Server).Serve", "(*github.com/funny/link.Server).Stop", "(*github.com/funny/link.Session).Receive":
		if h := a.heldNames(s); h != "" {
			a.alarm(name[strings.LastIndex(name, "/")+1:]+" is called in "+fnLabel(fn)+" while "+h+" is held", a.P.pos(pos), strings.Join(a.trace, " → "))
		}
	}
	inline := false
	for _, p := range []string{"container/heap.", "sort.", "slices.", "strings.", "bytes.", "path/filepath.Walk", "io/ioutil.", "os.", "(*sync.Map).", "(*sync.Pool)."} {
		if strings.HasPrefix(name, p) {
			inline = true
		}
	}
	if strings.HasPrefix(name, "time.AfterFunc") {
		inline = false
	}
	for _, arg := range c.Args {
		if mi, ok := arg.(*ssa.MakeInterface); ok {
			n, isN := derefOrSelf(mi.X.Type()).(*types.Named)
			if !isN || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
				continue
			}
			iface, ok := arg.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for i := 0; i < iface.NumMethods(); i++ {
				m := iface.Method(i)
				sel := a.P.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				f := a.P.prog.MethodValue(sel)
				if f == nil {
					continue
				}
				if inline {
					a.walk(f, newLkEnv(), s.held)
				} else {
					a.addRoot(f, newLkEnv(), lkRoleOf(m.Name(), f), m.Name() != "HandleSession" || true)
				}
			}
			continue
		}
		if _, ok := arg.Type().Underlying().(*types.Signature); ok {
			for _, f := range a.funcsOf(arg, env, s, 0) {
				if inline {
					a.walk(f.fn, f.env, s.held)
				} else {
					role := "callback " + f.fn.Name()
					if strings.HasSuffix(name, "AddCloseCallback") {
						role = "close"
					}
					a.addRoot(f.fn, lkEscaped(f.env), role, true)
				}
			}
		}
	}
	return []*lkState{s}
}

// lkEscaped: what a function run later captures is published by then
func lkEscaped(e *lkEnv) *lkEnv {
	n := newLkEnv()
	n.fns, n.orig = e.fns, e.orig
	return n
}

func derefOrSelf(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func lkRoleOf(m string, f *ssa.Function) string {
	switch m {
	case "HandleSession", "Receive":
		return "loop"
	case "Send":
		return "send"
	case "NewCodec":
		return "connect"
	}
	return "api"
}

func (a *lkAn) addRoot(f *ssa.Function, env *lkEnv, role string, multi bool) {
	if f == nil || len(f.Blocks) == 0 || !isRepoFn(f) && f.Synthetic == "" {
		return
	}
	k := role + "#" + f.String() + "#" + env.key()
	if a.roots[k] {
		return
	}
	a.roots[k] = true
	if multi {
		a.multi[role] = true
	}
	a.todo = append(a.todo, func() {
		a.role = role
		a.trace = nil
		for _, x := range a.walk(f, env, map[string]lkMode{}) {
			var ks []string
			for l := range x.held {
				if !strings.HasPrefix(l, "local ") && !strings.HasPrefix(l, "once ") {
					ks = append(ks, l)
				}
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				a.alarm(strings.Join(ks, ", ")+" is still held when "+fnLabel(f)+" returns", a.P.pos(f.Pos()), "")
			}
		}
	})
}

func (a *lkAn) spawn(fn *ssa.Function, env *lkEnv, g *ssa.Go, s *lkState) {
	inLoop := blockInLoop(g.Block())
	single := false
	for _, arg := range g.Call.Args {
		if _, _, root := a.locKey(arg, env); root != nil && a.fresh(root, env, s) && !inLoop {
			single = true
		}
	}
	var fs []lkFn
	if callee := g.Call.StaticCallee(); callee != nil {
		var base *lkEnv
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			base = a.funcsOf(mc, env, s, 0)[0].env
			for _, b := range mc.Bindings {
				if _, _, root := a.locKey(b, env); root != nil && a.fresh(root, env, s) && !inLoop {
					single = true
				}
			}
			if inLoop {
				a.loopCapture(fn, g, mc)
			}
		}
		if isRepoFn(callee) {
			e := a.bindEnv(callee, g.Call.Args, base, env, s)
			fs = append(fs, lkFn{callee, e})
		}
	} else {
		fs = a.funcsOf(g.Call.Value, env, s, 0)
	}
	for _, f := range fs {
		role := "goroutine " + fnLabel(f.fn)
		e := f.env
		if e == nil {
			e = newLkEnv()
		}
		a.addRoot(f.fn, lkEscaped(e), role, !single)
	}
}

// loopCapture: goroutines started in a loop that all write one captured variable
func (a *lkAn) loopCapture(fn *ssa.Function, g *ssa.Go, mc *ssa.MakeClosure) {
	f := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		al, ok := b.(*ssa.Alloc)
		if !ok || blockInLoop(al.Block()) {
			continue
		}
		fv := f.FreeVars[i]
		locked := false
		var w *ssa.Store
		for _, bl := range f.Blocks {
			for _, ins := range bl.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if x.Addr == fv {
						w = x
					}
				case *ssa.Call:
					if c := x.Call.StaticCallee(); c != nil && strings.HasSuffix(c.Name(), "Lock") {
						locked = true
					}
				}
			}
		}
		if w != nil && !locked {
			a.alarm("goroutines started in a loop of "+fnLabel(fn)+" all write the variable "+al.Comment, a.P.pos(w.Pos()), "")
		}
	}
}

func blockInLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	work = append(work, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// sharedTypes: the types of this package reachable from the server, a
// session, the protocol and its codec
func (a *lkAn) sharedTypes() {
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch x := t.(type) {
		case *types.Named:
			if x.Obj().Pkg() == nil || x.Obj().Pkg().Path() != modPath {
				return
			}
			if a.shared[x.Obj().Name()] {
				return
			}
			if _, ok := x.Underlying().(*types.Interface); ok {
				return
			}
			if _, ok := x.Underlying().(*types.Basic); ok {
				return
			}
			a.shared[x.Obj().Name()] = true
			visit(x.Underlying())
		case *types.Pointer:
			visit(x.Elem())
		case *types.Slice:
			visit(x.Elem())
		case *types.Array:
			visit(x.Elem())
		case *types.Chan:
			visit(x.Elem())
		case *types.Map:
			visit(x.Key())
			visit(x.Elem())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				visit(x.Field(i).Type())
			}
		}
	}
	for _, n := range []string{"Server", "Session", "Protocol", "ProtocolCodec", "CountdownTimer"} {
		if m, ok := a.P.root.Members[n].(*ssa.Type); ok {
			visit(m.Type())
		}
	}
}

func (p *Program) lockUnit(rep *Report) {
	a := p.newLk()
	a.sharedTypes()
	for _, m := range sortedMembers(p.root) {
		switch x := m.(type) {
		case *ssa.Function:
			if token.IsExported(x.Name()) {
				a.addRoot(x, newLkEnv(), "api", true)
			}
		case *ssa.Type:
			if !token.IsExported(x.Name()) {
				continue
			}
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.prog.MethodValue(ms.At(i))
					if f == nil || !token.IsExported(f.Name()) || f.Synthetic != "" {
						continue
					}
					role := "api"
					if !a.shared[x.Name()] {
						role = "user of " + x.Name()
					} else if x.Name() == "ProtocolCodec" || x.Name() == "Protocol" {
						role = lkRoleOf(f.Name(), f)
					}
					a.addRoot(f, newLkEnv(), role, a.shared[x.Name()])
				}
			}
		}
	}
	// functions of the package handed to the transport library as methods of an
	// unexported type
	for _, f := range p.allFns {
		if f.Name() == "HandleSession" && f.Pkg == p.root && f.Signature.Recv() != nil && f.Synthetic == "" {
			a.addRoot(f, newLkEnv(), "loop", true)
		}
	}
	// encoders and decoders run on any number of connections at once
	for _, pk := range []*ssa.Package{p.proto, p.extra} {
		for _, m := range sortedMembers(pk) {
			x, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := p.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						a.addRoot(f, newLkEnv(), "codec", true)
					}
				}
			}
		}
	}
	for len(a.todo) > 0 {
		f := a.todo[0]
		a.todo = a.todo[1:]
		f()
	}
	a.judge(rep)
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var ns []string
	for n := range p.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []ssa.Member
	for _, n := range ns {
		out = append(out, p.Members[n])
	}
	return out
}

// owner is the type a location belongs to
func lkOwner(loc string) string {
	loc = strings.TrimPrefix(loc, "*")
	if i := strings.Index(loc, "."); i >= 0 {
		return loc[:i]
	}
	return strings.TrimSuffix(loc, "[]")
}

// isGlobal: the location is a package-level variable of the repository, or what
// one refers to
func (a *lkAn) isGlobal(l string) bool {
	l = strings.TrimSuffix(l, "[]")
	i := strings.Index(l, ".")
	if i < 0 {
		return false
	}
	for _, p := range a.P.repo {
		if p.Pkg.Name() == l[:i] {
			if _, ok := p.Members[l[i+1:]].(*ssa.Global); ok {
				return true
			}
		}
	}
	return false
}

func (a *lkAn) judge(rep *Report) {
	perConn := func(typ string) bool {
		rs := a.allocBy[typ]
		if len(rs) == 0 {
			return false
		}
		for r := range rs {
			if r != "loop" && r != "connect" {
				return false
			}
		}
		return true
	}
	by := map[string][]*lkAccess{}
	var keys []string
	for k := range a.acc {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r := a.acc[k]
		by[r.loc] = append(by[r.loc], r)
	}
	var locs []string
	for l := range by {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	if os.Getenv("GSA_DEBUG") != "" {
		for _, l := range locs {
			for _, r := range by[l] {
				fmt.Fprintln(os.Stderr, l, map[bool]string{true: "W", false: "R"}[r.write], heldKey(r.locks), "|", r.role, "|", r.pos)
			}
		}
		for e, w := range a.edges {
			fmt.Fprintln(os.Stderr, "edge", e.from, "→", e.to, w)
		}
	}
	for _, l := range locs {
		own := lkOwner(l)
		if !a.shared[own] && !a.isGlobal(l) {
			continue
		}
		as := by[l]
		single := func(r string) bool {
			switch r {
			case "loop", "send", "connect", "close":
				return perConn(own)
			}
			return !a.multi[r]
		}
		var w, o *lkAccess
		for _, x := range as {
			for _, y := range as {
				if !x.write || x.role == y.role && single(x.role) {
					continue
				}
				ok := false
				for k, m := range x.locks {
					if n, has := y.locks[k]; has && m == 2 && (n == 2 || !y.write) {
						ok = true
					}
				}
				if !ok && w == nil {
					w, o = x, y
				}
			}
		}
		st, d, pos := stProved, fmt.Sprint(len(as), " accesses"), as[0].pos
		if w != nil {
			st = stViolated
			lw, lo := heldKey(w.locks), heldKey(o.locks)
			d = fmt.Sprintf("written at %s (%s, holding {%s}) and accessed at %s (%s, holding {%s}) with no lock in common", w.pos, w.role, lw, o.pos, o.role, lo)
			pos = w.pos
		} else {
			n := 0
			for _, x := range as {
				if x.write {
					n++
				}
			}
			if n > 0 {
				d += fmt.Sprintf(", %d of them writes, all under a common lock or by one goroutine", n)
			} else {
				d += ", no write once shared"
			}
		}
		rep.Obs = append(rep.Obs, Ob{Rule: "locks", What: "accesses to " + l + " exclude one another", Pos: pos, Status: st, Detail: d})
	}
	// order
	next := map[string][]string{}
	for e := range a.edges {
		next[e.from] = append(next[e.from], e.to)
	}
	var ls []string
	for l := range next {
		sort.Strings(next[l])
		ls = append(ls, l)
	}
	sort.Strings(ls)
	cyc := ""
	for _, l := range ls {
		seen := map[string]bool{}
		var dfs func(x string, path []string)
		dfs = func(x string, path []string) {
			for _, y := range next[x] {
				if y == l && cyc == "" {
					var parts []string
					full := append(append([]string{}, path...), y)
					for i := 0; i+1 < len(full); i++ {
						parts = append(parts, full[i]+" then "+full[i+1]+" in "+a.edges[lkEdge{full[i], full[i+1]}])
					}
					cyc = strings.Join(parts, "; ")
				}
				if !seen[y] {
					seen[y] = true
					dfs(y, append(append([]string{}, path...), y))
				}
			}
		}
		dfs(l, []string{l})
	}
	ob := Ob{Rule: "locks", What: "locks are acquired in one order", Status: stProved, Detail: fmt.Sprint(len(a.edges), " nested acquisitions")}
	if cyc != "" {
		ob.Status, ob.Detail = stViolated, cyc
	}
	rep.Obs = append(rep.Obs, ob)
	var bs []string
	for k := range a.bad {
		bs = append(bs, k)
	}
	sort.Strings(bs)
	for _, k := range bs {
		rep.Obs = append(rep.Obs, a.bad[k])
	}
	if len(bs) == 0 {
		rep.Obs = append(rep.Obs, Ob{Rule: "locks", What: "no lock is leaked, acquired twice or held over a user's function", Status: stProved,
			Detail: fmt.Sprintf("%d roots, %d functions, %d acquisitions, %d calls, %d calls of unknown functions", len(a.roots), len(a.funcs), a.lockOps, a.calls, a.userHeld)})
	}
	// 64-bit atomics on 32-bit machines
	sizes := types.SizesFor("gc", "386")
	var fs []string
	for k := range a.atomic64 {
		fs = append(fs, k)
	}
	sort.Strings(fs)
	for _, k := range fs {
		x := a.atomic64[k]
		var vars []*types.Var
		for i := 0; i < x.st.NumFields(); i++ {
			vars = append(vars, x.st.Field(i))
		}
		off := sizes.Offsetsof(vars)[x.idx]
		st := stProved
		if off%8 != 0 {
			st = stViolated
		}
		rep.Obs = append(rep.Obs, Ob{Rule: "locks", What: "64-bit atomic operations on " + k + " are aligned on 32-bit machines", Pos: x.pos, Status: st, Detail: fmt.Sprint("offset ", off)})
	}
	var names []string
	for f := range a.funcs {
		names = append(names, f.String())
	}
	sort.Strings(names)
	rep.Funcs = append(rep.Funcs, names...)
}
