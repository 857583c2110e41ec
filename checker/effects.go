package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: which memory that existed before a call does the call
// write? The depth of a value says how many loads separate it from the foreign
// memory (what the chosen arguments refer to): 0 when it refers to foreign
// memory itself, 1 when it refers to memory of the call's own that holds
// references to foreign memory, and so on. A store, copy, append or map update
// through a value of depth 0 is an effect. Flow-insensitive per function, local
// variables field by field, one summary per assignment of depths to parameters.

type effect struct {
	fn   *ssa.Function
	pos  token.Pos
	what string
	// the parameter whose pointee is written, or -1
	param int
	field string // the field written, when it is known
}

type effSummary struct {
	effects []effect
	result  []int // depth of each result
	out     []int // depth of what each parameter refers to, after the call
}

type effAn struct {
	p     *Program
	memo  map[string]*effSummary
	named []*types.Named
	funcs map[*ssa.Function]bool
	sites int
	// follow references stored through parameters and into values of calls
	keep bool
	// interface calls reach the methods of this message kind only
	only *types.Named
	// package variables whose bytes are written
	scratches map[*ssa.Global]bool
}

func (p *Program) newEff() *effAn {
	a := &effAn{p: p, memo: map[string]*effSummary{}, funcs: map[*ssa.Function]bool{}}
	for _, pk := range p.repo {
		for _, m := range pk.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					a.named = append(a.named, n)
				}
			}
		}
	}
	sort.Slice(a.named, func(i, j int) bool { return a.named[i].String() < a.named[j].String() })
	return a
}

func hasPointers(t types.Type) bool {
	return ptrIn(t, map[types.Type]bool{})
}

func ptrIn(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if ptrIn(x.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return ptrIn(x.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if ptrIn(x.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

const effNone = 9

type effSlot struct {
	v     ssa.Value
	field int
}

// analyze fn with the given depths of its parameters (free variables after them)
func (a *effAn) analyze(fn *ssa.Function, depths []int) *effSummary {
	key := fn.String() + fmt.Sprint(depths)
	if s, ok := a.memo[key]; ok {
		return s
	}
	sum := &effSummary{}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		sum.result = append(sum.result, effNone)
	}
	a.memo[key] = sum
	sum.out = make9(len(fn.Params) + len(fn.FreeVars))
	if len(fn.Blocks) == 0 {
		return sum
	}
	a.funcs[fn] = true
	changed := true
	depth := map[ssa.Value]int{}
	slots := map[effSlot]int{} // depth of the address of a field of a local variable
	get := func(v ssa.Value) int {
		if d, ok := depth[v]; ok {
			return d
		}
		return effNone
	}
	set := func(v ssa.Value, d int) {
		if d < get(v) && hasPointers(v.Type()) {
			depth[v] = d
			changed = true
		}
	}
	for i, p := range fn.Params {
		if i < len(depths) {
			set(p, depths[i])
		}
	}
	for i, f := range fn.FreeVars {
		if j := len(fn.Params) + i; j < len(depths) {
			set(f, depths[j])
		}
	}
	// the slot an address inside a local variable belongs to
	var slot func(v ssa.Value) (effSlot, bool)
	slot = func(v ssa.Value) (effSlot, bool) {
		switch x := v.(type) {
		case *ssa.Alloc:
			return effSlot{x, -1}, true
		case *ssa.FieldAddr:
			if al, ok := x.X.(*ssa.Alloc); ok {
				return effSlot{al, x.Field}, true
			}
			return slot(x.X)
		case *ssa.IndexAddr:
			return slot(x.X)
		case *ssa.Slice:
			return slot(x.X)
		case *ssa.ChangeType:
			return slot(x.X)
		}
		return effSlot{}, false
	}
	// depth of an address, local variables included
	var addr func(v ssa.Value) int
	addr = func(v ssa.Value) int {
		d := get(v)
		if s, ok := slot(v); ok {
			for k, e := range slots {
				if k.v == s.v && (s.field == -1 || k.field == -1 || k.field == s.field) && e < d {
					d = e
				}
			}
		}
		return d
	}
	setSlot := func(s effSlot, d int) {
		if o, ok := slots[s]; !ok || d < o {
			slots[s] = d
			changed = true
		}
	}
	down := func(d int) int {
		if d == effNone {
			return d
		}
		if d > 0 {
			return d - 1
		}
		return 0
	}
	up := func(d int) int {
		if d < effNone {
			return d + 1
		}
		return d
	}
	min := func(x, y int) int {
		if x < y {
			return x
		}
		return y
	}
	eff := map[string]effect{}
	add := func(pos token.Pos, what string, target ssa.Value) {
		e := effect{fn: fn, pos: pos, what: what}
		e.param, e.field = effTarget(target)
		k := fmt.Sprint(pos, what)
		if _, ok := eff[k]; !ok {
			eff[k] = e
			changed = true
		}
	}
	merge := func(s *effSummary, c *ssa.CallCommon) {
		for _, e := range s.effects {
			if e.param >= 0 {
				i := e.param
				e.param = -1
				if i < len(c.Args) {
					var f string
					if e.param, f = effTarget(c.Args[i]); e.field == "" {
						e.field = f
					}
				}
			}
			k := fmt.Sprint(e.pos, e.what, e.field)
			if _, ok := eff[k]; !ok {
				eff[k] = e
				changed = true
			}
		}
	}
	// a reference of depth d-1 was stored at an address
	var raise func(v ssa.Value, d int, seen map[ssa.Value]bool)
	raise = func(v ssa.Value, d int, seen map[ssa.Value]bool) {
		if d >= effNone || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			raise(x.X, d, seen)
		case *ssa.IndexAddr:
			raise(x.X, d, seen)
		case *ssa.Slice:
			raise(x.X, d, seen)
		case *ssa.ChangeType:
			raise(x.X, d, seen)
		case *ssa.ChangeInterface:
			raise(x.X, d, seen)
		case *ssa.MakeInterface:
			raise(x.X, d, seen)
		case *ssa.TypeAssert:
			raise(x.X, d, seen)
		case *ssa.Extract:
			raise(x.Tuple, d, seen)
			set(x, d)
		case *ssa.Phi:
			for _, e := range x.Edges {
				raise(e, d, seen)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if s, ok := slot(x.X); ok {
					setSlot(s, up(d))
				} else {
					raise(x.X, up(d), seen)
				}
				set(x, d)
			}
		case *ssa.Alloc:
			setSlot(effSlot{x, -1}, d)
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == x && d < sum.out[i] {
					sum.out[i] = d
					changed = true
				}
			}
			set(x, d)
		case *ssa.FreeVar:
			for i, p := range fn.FreeVars {
				if i += len(fn.Params); p == x && d < sum.out[i] {
					sum.out[i] = d
					changed = true
				}
			}
			set(x, d)
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		default:
			set(v, d)
		}
	}
	after := func(c *ssa.CallCommon, s *effSummary, shift int) {
		if !a.keep {
			return
		}
		for i, d := range s.out {
			switch j := i - shift; {
			case j < 0:
				raise(c.Value, d, map[ssa.Value]bool{})
			case j < len(c.Args):
				raise(c.Args[j], d, map[ssa.Value]bool{})
			default:
				if mc, ok := c.Value.(*ssa.MakeClosure); ok && j-len(c.Args) < len(mc.Bindings) {
					raise(mc.Bindings[j-len(c.Args)], d, map[ssa.Value]bool{})
				}
			}
		}
	}
	for round := 0; changed && round < 40; round++ {
		changed = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					set(x, addr(x))
					set(x, get(x.X))
				case *ssa.IndexAddr:
					set(x, addr(x.X))
				case *ssa.Field:
					set(x, get(x.X))
				case *ssa.Index:
					set(x, get(x.X))
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if g, ok := x.X.(*ssa.Global); ok && a.keep && a.scratch(g) {
							set(x, 0)
						}
						set(x, down(addr(x.X)))
					}
				case *ssa.Slice:
					if g, ok := x.X.(*ssa.Global); ok && a.keep && a.scratch(g) {
						set(x, 0)
					}
					set(x, addr(x.X))
				case *ssa.ChangeType:
					set(x, get(x.X))
				case *ssa.ChangeInterface:
					set(x, get(x.X))
				case *ssa.MakeInterface:
					set(x, addr(x.X))
				case *ssa.TypeAssert:
					set(x, get(x.X))
				case *ssa.Extract:
					if c, ok := x.Tuple.(*ssa.Call); ok {
						if rs := a.callResult(c, get, addr); rs != nil {
							if x.Index < len(rs) {
								set(x, rs[x.Index])
							}
							continue
						}
					}
					set(x, get(x.Tuple))
				case *ssa.Phi:
					for _, e := range x.Edges {
						set(x, addr(e))
					}
				case *ssa.Range:
					set(x, get(x.X))
				case *ssa.Next:
					set(x, down(get(x.Iter)))
				case *ssa.Lookup:
					set(x, down(get(x.X)))
				case *ssa.Store:
					a.sites++
					if get(x.Addr) == 0 {
						add(x.Pos(), "a store to "+addrText(x.Addr), x.Addr)
						continue
					}
					d := addr(x.Val)
					if d == effNone || !hasPointers(x.Val.Type()) {
						continue
					}
					if s, ok := slot(x.Addr); ok {
						if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL && s.field == -1 {
							// one local variable copied into another: field by field
							if from, ok := slot(u.X); ok && from.field == -1 {
								for k, e := range slots {
									if k.v == from.v {
										setSlot(effSlot{s.v, k.field}, e)
									}
								}
								continue
							}
						}
						setSlot(s, up(d))
					} else if r := effRoot(x.Addr); r != nil {
						set(r, up(d))
					} else if a.keep {
						raise(x.Addr, up(d), map[ssa.Value]bool{})
					}
				case *ssa.MapUpdate:
					a.sites++
					if get(x.Map) == 0 {
						add(x.Pos(), "an update of a map", x.Map)
					} else if d := addr(x.Value); d != effNone {
						set(x.Map, up(d))
					}
				case *ssa.MakeClosure:
					d := effNone
					for _, bd := range x.Bindings {
						d = min(d, addr(bd))
					}
					set(x, d)
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "ssa:wrapnilchk":
							if v := x.Value(); v != nil {
								set(v, addr(c.Args[0]))
							}
						case "append":
							if get(c.Args[0]) == 0 {
								add(x.Pos(), "an append to a list of the message", c.Args[0])
							}
							d := addr(c.Args[0])
							if len(c.Args) > 1 {
								if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && hasPointers(sl.Elem()) {
									if e := addr(c.Args[1]); e != effNone {
										d = min(d, up(down(e)))
									}
								}
							}
							if v := x.Value(); v != nil {
								set(v, d)
							}
						case "copy", "clear":
							if get(c.Args[0]) == 0 {
								add(x.Pos(), "a copy into the message", c.Args[0])
							}
						case "delete":
							if get(c.Args[0]) == 0 {
								add(x.Pos(), "a deletion from a map", c.Args[0])
							}
						}
						continue
					}
					if call, ok := x.(*ssa.Call); ok {
						if rs := a.callResult(call, get, addr); len(rs) == 1 {
							set(call, rs[0])
						} else if rs == nil {
							set(call, a.external(c, addr))
						}
					}
					if c.IsInvoke() && a.keep {
						ds, any := effArgs(c, addr)
						if d := addr(c.Value); any || d < effNone {
							for _, f := range a.implementations(c) {
								after(c, a.analyze(f, append([]int{d}, ds...)), 1)
							}
						}
					}
					callee := c.StaticCallee()
					if callee == nil {
						continue
					}
					if isRepoFn(callee) && len(callee.Blocks) > 0 {
						if ds, any := effArgs(c, addr); any {
							s := a.analyze(callee, ds)
							merge(s, c)
							after(c, s, 0)
						}
						continue
					}
					n := callee.String()
					i := -1
					switch {
					case strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "sort.Search") && !strings.HasPrefix(n, "sort.IsSorted") && !strings.Contains(n, "AreSorted"),
						strings.HasPrefix(n, "slices.Sort"), strings.HasPrefix(n, "slices.Reverse"), strings.HasPrefix(n, "container/heap."):
						i = 0
					case n == "io.ReadFull" || n == "io.ReadAtLeast":
						i = 1
					case strings.Contains(n, "encoding/binary.") && strings.HasPrefix(callee.Name(), "Put"):
						i = 0
						if callee.Signature.Recv() != nil {
							i = 1
						}
					case n == "encoding/hex.Encode" || n == "encoding/hex.Decode":
						i = 0
					}
					if i >= 0 && i < len(c.Args) && get(c.Args[i]) == 0 {
						add(x.Pos(), "a call of "+callee.Name()+" on a part of the message", c.Args[i])
					}
				case *ssa.Return:
					for i, r := range x.Results {
						if d := addr(r); i < len(sum.result) && d < sum.result[i] && hasPointers(r.Type()) {
							sum.result[i] = d
						}
					}
				}
			}
		}
	}
	var ks []string
	for k := range eff {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		sum.effects = append(sum.effects, eff[k])
	}
	return sum
}

// effRoot finds the list made by this function an address lies in
func effRoot(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return effRoot(x.X)
	case *ssa.IndexAddr:
		return effRoot(x.X)
	case *ssa.Slice:
		return effRoot(x.X)
	case *ssa.MakeSlice:
		return x
	}
	return nil
}

// effTarget names the field an address lies in, or the parameter it is
func effTarget(v ssa.Value) (int, string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return -1, derefT(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return effTarget(x.X)
	case *ssa.Slice:
		return effTarget(x.X)
	case *ssa.ChangeType:
		return effTarget(x.X)
	case *ssa.MakeInterface:
		return effTarget(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return effTarget(x.X)
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return i, ""
			}
		}
	}
	return -1, ""
}

// effArgs lists the depths of a call's arguments and, for a closure, bindings
func effArgs(c *ssa.CallCommon, addr func(ssa.Value) int) ([]int, bool) {
	var ds []int
	any := false
	for _, x := range c.Args {
		d := effNone
		if hasPointers(x.Type()) {
			d = addr(x)
		}
		ds = append(ds, d)
		any = any || d != effNone
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, bd := range mc.Bindings {
			d := addr(bd)
			ds = append(ds, d)
			any = any || d != effNone
		}
	}
	return ds, any
}

// callResult gives the depths of the results of a call whose callees are known
func (a *effAn) callResult(call *ssa.Call, get, addr func(ssa.Value) int) []int {
	c := call.Common()
	if c.IsInvoke() {
		d := get(c.Value)
		rest, any := effArgs(c, addr)
		if d == effNone && (!any || !a.keep) {
			return nil
		}
		var out []int
		for _, f := range a.implementations(c) {
			ds := append([]int{d}, rest...)
			for i, r := range a.analyze(f, ds).result {
				if i == len(out) {
					out = append(out, r)
				} else if r < out[i] {
					out[i] = r
				}
			}
		}
		return out
	}
	callee := c.StaticCallee()
	if callee == nil || !isRepoFn(callee) || len(callee.Blocks) == 0 {
		return nil
	}
	ds, any := effArgs(c, addr)
	if !any {
		return make9(callee.Signature.Results().Len())
	}
	return a.analyze(callee, ds).result
}

func make9(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, effNone)
	}
	return out
}

// external: what a function outside the repository hands back of its arguments
func (a *effAn) external(c *ssa.CallCommon, addr func(ssa.Value) int) int {
	f := c.StaticCallee()
	if f == nil || len(c.Args) == 0 {
		return effNone
	}
	n := f.String()
	d := addr(c.Args[0])
	switch {
	case strings.HasPrefix(n, "bytes.Trim"), n == "bytes.Cut", n == "slices.Grow", n == "slices.Clip", n == "slices.Compact":
		return d
	case a.keep && strings.HasPrefix(n, "(*bytes.Buffer).") && isScratchArg(a, c.Args[0]):
		return 0
	case n == "(*bytes.Buffer).Bytes", n == "(*bytes.Buffer).Next", n == "(*bytes.Buffer).AvailableBuffer":
		if d == 0 {
			return 0
		}
		if d < effNone {
			return d - 1
		}
	case n == "(*sync.Pool).Get":
		if a.keep && a.pooled() {
			return 0
		}
	case n == "bytes.NewReader", n == "bytes.NewBuffer", n == "bufio.NewReader", n == "bufio.NewReaderSize", n == "bufio.NewScanner", n == "io.LimitReader", n == "io.TeeReader", n == "io.NopCloser", n == "io/ioutil.NopCloser":
		if d < effNone {
			return d + 1
		}
	case n == "io.MultiReader":
		if d < effNone {
			return d
		}
	case strings.HasPrefix(n, "bytes.Split"), strings.HasPrefix(n, "bytes.Fields"):
		if d < effNone {
			return d + 1
		}
	}
	return effNone
}

func isScratchArg(a *effAn, v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	g, ok := v.(*ssa.Global)
	return ok && a.scratch(g)
}

// isEntityLike: n has the methods that make a message kind of the other
func isEntityLike(n, only *types.Named) bool {
	has := func(t *types.Named, m string) bool {
		return types.NewMethodSet(types.NewPointer(t)).Lookup(t.Obj().Pkg(), m) != nil
	}
	return n.Obj().Pkg() == only.Obj().Pkg() && has(n, "MsgID") && has(n, "Decode")
}

// scratch: does the repository write into the bytes a package variable holds?
func (a *effAn) scratch(g *ssa.Global) bool {
	if a.scratches == nil {
		a.scratches = map[*ssa.Global]bool{}
		for _, f := range a.p.allFns {
			if isRepoFn(f) {
				a.findScratch(f)
			}
		}
	}
	return a.scratches[g]
}

func (a *effAn) findScratch(f *ssa.Function) {
	if f.Name() == "init" {
		return
	}
	from := map[ssa.Value]*ssa.Global{}
	for changed := true; changed; {
		changed = false
		flow := func(v, o ssa.Value) {
			g := from[o]
			if gg, ok := o.(*ssa.Global); ok {
				g = gg
			}
			if g != nil && from[v] == nil {
				from[v] = g
				changed = true
			}
		}
		wrote := func(v ssa.Value) {
			if g := from[v]; g != nil {
				a.scratches[g] = true
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && hasPointers(x.Type()) {
						flow(x, x.X)
					}
				case *ssa.Slice:
					flow(x, x.X)
				case *ssa.IndexAddr:
					flow(x, x.X)
				case *ssa.FieldAddr:
					flow(x, x.X)
				case *ssa.ChangeType:
					flow(x, x.X)
				case *ssa.Phi:
					for _, e := range x.Edges {
						flow(x, e)
					}
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.IndexAddr); ok {
						wrote(x.Addr)
					}
				case *ssa.Call:
					c := x.Common()
					if len(c.Args) == 0 {
						continue
					}
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" || bi.Name() == "copy" {
							wrote(c.Args[0])
							flow(x, c.Args[0])
						}
					} else if s := c.StaticCallee(); s != nil && strings.HasPrefix(s.String(), "(*bytes.Buffer).") && s.Name() != "Bytes" {
						wrote(c.Args[0])
					} else if s != nil && s.String() == "(*bytes.Buffer).Bytes" {
						flow(x, c.Args[0])
					}
				}
			}
		}
	}
}

// pooled: does the repository give anything back to a pool?
func (a *effAn) pooled() bool {
	for _, f := range a.p.allFns {
		if !isRepoFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.String() == "(*sync.Pool).Put" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *effAn) implementations(c *ssa.CallCommon) []*ssa.Function {
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, n := range a.named {
		pt := types.NewPointer(n)
		if a.only != nil && n != a.only && isEntityLike(n, a.only) {
			continue
		}
		if types.IsInterface(n) || !types.Implements(pt, iface) {
			continue
		}
		if f := a.p.methodOf(n, c.Method.Name()); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

func addrText(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := derefT(x.X.Type())
		f := st.Underlying().(*types.Struct).Field(x.Field).Name()
		if p, ok := x.X.(*ssa.Parameter); ok && p.Parent().Signature.Recv() != nil && p == p.Parent().Params[0] {
			return "field of the receiver " + lkTypeName(st) + "." + f
		}
		return "field " + lkTypeName(st) + "." + f
	case *ssa.IndexAddr:
		return "an element of a list of the message"
	case *ssa.Parameter:
		return "what " + x.Name() + " points to"
	}
	return "the message"
}

// effectUnit: encoding a message leaves it as it was
func (p *Program) effectUnit(rep *Report) {
	a := p.newEff()
	check := func(f *ssa.Function, what string) {
		if f == nil {
			return
		}
		fo := make9(len(f.Params))
		fo[0] = 0
		s := a.analyze(f, fo)
		if len(s.effects) == 0 {
			rep.Obs = append(rep.Obs, Ob{Rule: "unchanged", What: what + " leaves it as it was", Pos: p.pos(f.Pos()), Status: stProved})
			return
		}
		for _, e := range s.effects {
			rep.Obs = append(rep.Obs, Ob{Rule: "unchanged", What: what + " leaves " + or(e.field, "it") + " as it was", Pos: p.pos(e.pos), Status: stViolated,
				Detail: e.what + " in " + fnLabel(e.fn)})
		}
	}
	for _, e := range p.registry(p.proto, "entityMapper") {
		if e.typ != nil {
			n := e.typ.Obj().Name()
			check(p.methodOf(e.typ, "Encode"), "encoding "+n)
			check(p.methodOf(e.typ, "MsgID"), "asking the identifier of "+n)
		}
	}
	for _, e := range p.registry(p.extra, "entityMapper") {
		if e.typ != nil {
			n := e.typ.Obj().Name()
			check(p.methodOf(e.typ, "Data"), "encoding item "+n)
			check(p.methodOf(e.typ, "ID"), "asking the identifier of item "+n)
			check(p.methodOf(e.typ, "Value"), "asking the value of item "+n)
		}
	}
	var names []string
	for f := range a.funcs {
		names = append(names, f.String())
	}
	sort.Strings(names)
	rep.Funcs = append(rep.Funcs, names...)
	rep.Notes = append(rep.Notes, fmt.Sprint(a.sites, " stores classified"))
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// retainUnit: nothing in a received message refers to memory that existed
// before it was received
func (p *Program) retainUnit(rep *Report) {
	funcs := map[string]bool{}
	recv := p.methodOf(p.typ(p.root, "ProtocolCodec"), "Receive")
	dec := p.methodOf(p.typ(p.proto, "Message"), "Decode")
	for _, e := range p.registry(p.proto, "entityMapper") {
		if e.typ == nil {
			continue
		}
		n := e.typ.Obj().Name()
		ob := func(what, detail string, pos token.Pos, bad bool) {
			o := Ob{Rule: "separate", What: what, Pos: p.pos(pos), Status: stProved}
			if bad {
				o.Status, o.Detail = stViolated, detail
			}
			rep.Obs = append(rep.Obs, o)
		}
		run := func(f *ssa.Function, ds []int) *effSummary {
			a := p.newEff()
			a.keep, a.only = true, e.typ
			s := a.analyze(f, ds)
			for g := range a.funcs {
				funcs[g.String()] = true
			}
			return s
		}
		if recv != nil {
			ds := make9(len(recv.Params))
			ds[0] = 0
			s := run(recv, ds)
			ob("a received "+n+" is separate from the connection's memory", "the message handed over refers to memory the connection goes on using (receive buffer or other storage of the codec)", recv.Pos(), len(s.result) > 0 && s.result[0] != effNone)
		}
		if dec != nil {
			ds := make9(len(dec.Params))
			ds[1] = 0
			s := run(dec, ds)
			ob("a decoded "+n+" is separate from the bytes it was decoded from", "the message keeps references into the caller's bytes", dec.Pos(), s.out[0] != effNone)
		}
		for _, m := range []string{"Decode", "DecodePacket"} {
			own := p.methodOf(e.typ, m)
			if own == nil {
				continue
			}
			ds := make9(len(own.Params))
			ds[1] = 0
			if run(own, ds).out[0] != effNone {
				rep.Notes = append(rep.Notes, n+"."+m+" keeps a part of the body it is given")
			}
		}
	}
	var names []string
	for f := range funcs {
		names = append(names, f)
	}
	sort.Strings(names)
	rep.Funcs = append(rep.Funcs, names...)
}
