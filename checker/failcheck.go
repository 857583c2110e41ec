package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Failure-propagation analysis: for every call that may fail, each path of the
// calling function on which it has failed must end in a failure of the caller
// (or in a test against a particular sentinel, a hand-over of the error, or a
// panic). Paths are walked over the control-flow graph with the nil-ness of
// error values; branches on anything else go both ways, except branches on the
// other results of the failed call, which end the walk undecided.

type failAn struct {
	p     *Program
	ea    *effAn
	fails map[*ssa.Function]int // 1 may fail, 2 never fails
	funcs map[*ssa.Function]bool
}

var errType = types.Universe.Lookup("error").Type()

func isErrT(t types.Type) bool { return types.Identical(t, errType) }

// errIndex: position of the error among the results, or -1
func errIndex(s *types.Signature) int {
	n := s.Results().Len()
	if n > 0 && isErrT(s.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// calls that make or wrap an error instead of failing
func errMaker(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return false
	}
	if isRepoFn(f) {
		return false
	}
	if f.Object() == nil || f.Object().Pkg() == nil {
		return false
	}
	switch path := f.Object().Pkg().Path(); {
	case path == "errors", strings.HasSuffix(path, "/errors"):
		return true
	case path == "fmt":
		return f.Name() == "Errorf"
	}
	return false
}

func recvName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		return r.Type().String()
	}
	return ""
}

// library calls that cannot fail, or whose failure loses nothing here
func neverFails(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		if c.Method.Name() == "Close" {
			return true
		}
		if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "hash" {
			return true
		}
		return false
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Name() == "Close" {
		return true
	}
	r := recvName(f)
	switch r {
	case "*bytes.Buffer", "*strings.Builder":
		return strings.HasPrefix(f.Name(), "Write")
	case "*bytes.Reader", "*strings.Reader":
		return f.Name() == "Seek" || strings.HasPrefix(f.Name(), "Unread")
	case "*bufio.Writer":
		return f.Name() != "Flush"
	}
	if f.Object() == nil || f.Object().Pkg() == nil {
		return false
	}
	path := f.Object().Pkg().Path()
	if path == "fmt" && (strings.HasPrefix(f.Name(), "Print")) {
		return true
	}
	if strings.Contains(path, "logrus") {
		return true
	}
	if len(c.Args) > 0 && (path == "encoding/binary" && f.Name() == "Write" || path == "fmt" && strings.HasPrefix(f.Name(), "Fprint") || path == "io" && f.Name() == "WriteString") {
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			t := mi.X.Type().String()
			return t == "*bytes.Buffer" || t == "*strings.Builder"
		}
	}
	if path == "crypto/rand" && f.Name() == "Read" {
		return true
	}
	return false
}

// mayFail: can the module's function return an error?
func (a *failAn) mayFail(f *ssa.Function) bool {
	switch a.fails[f] {
	case 1:
		return true
	case 2:
		return false
	}
	a.fails[f] = 2 // a cycle adds nothing
	i := errIndex(f.Signature)
	if i < 0 {
		return false
	}
	r := false
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ret, ok := ins.(*ssa.Return); ok && len(ret.Results) > i && a.canBeErr(ret.Results[i], map[ssa.Value]bool{}) {
				r = true
			}
		}
	}
	if r {
		a.fails[f] = 1
	}
	return r
}

func (a *failAn) canBeErr(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if a.canBeErr(e, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.callFails(&c.Call)
		}
	case *ssa.Call:
		return errMaker(&x.Call) || a.callFails(&x.Call)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					if y.Addr == al && a.canBeErr(y.Val, seen) {
						return true
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return true
				}
			}
			return false
		}
	}
	return true
}

func (a *failAn) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return a.ea.implementations(c)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

// callFails: may this call fail (not: make an error)?
func (a *failAn) callFails(c *ssa.CallCommon) bool {
	if errIndex(c.Signature()) < 0 || errMaker(c) || neverFails(c) {
		return false
	}
	if f := c.StaticCallee(); f != nil && isRepoFn(f) {
		if !a.mayFail(f) {
			return false
		}
		return !keepsError(f)
	}
	return true
}

// keepsError: the function stores an error where the caller may find it later
func keepsError(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && isErrT(s.Val.Type()) {
				if _, ok := s.Addr.(*ssa.FieldAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

const (
	nilUnknown = iota
	nilYes
	nilNo
)

type failWalk struct {
	a      *failAn
	fn     *ssa.Function
	call   *ssa.Call
	e      ssa.Value // the failed call's error, or nil if it is dropped
	tested bool
	seen   map[string]bool
	bad    token.Pos
	badWhy string
	steps  int
	undec  bool
	body   bool // the call makes a message body
}

type failEnv map[ssa.Value]int

func (env failEnv) key() string {
	var ks []string
	for v, n := range env {
		ks = append(ks, fmt.Sprint(v.Name(), n))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (w *failWalk) nilness(v ssa.Value, env failEnv) int {
	if n, ok := env[v]; ok {
		return n
	}
	if v == w.e && v != nil {
		return nilNo
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return nilYes
		}
	case *ssa.Extract:
		if x.Tuple == ssa.Value(w.call) && w.body && nilWhenFailed(w.call.Call.StaticCallee(), x.Index) {
			return nilYes
		}
	case *ssa.MakeInterface:
		return nilNo
	case *ssa.ChangeInterface:
		return w.nilness(x.X, env)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch y := x.X.(type) {
			case *ssa.Global:
				return nilNo
			case *ssa.Alloc:
				if n, ok := env[y]; ok {
					return n
				}
			}
		}
	case *ssa.Call:
		if errMaker(&x.Call) {
			if f := x.Call.StaticCallee(); f.Name() == "New" || f.Name() == "Errorf" {
				return nilNo
			}
		}
		for _, arg := range x.Call.Args {
			if isErrT(arg.Type()) && w.nilness(arg, env) == nilNo {
				return nilNo
			}
		}
	}
	return nilUnknown
}

// fromCall: is the value made from other results of the failed call?
func (w *failWalk) fromCall(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	if ex, ok := v.(*ssa.Extract); ok {
		return ex.Tuple == ssa.Value(w.call) && v != w.e
	}
	if v == ssa.Value(w.call) {
		return v != w.e
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return w.fromCall(x.X, d+1) || w.fromCall(x.Y, d+1)
	case *ssa.UnOp:
		return w.fromCall(x.X, d+1)
	case *ssa.Convert:
		return w.fromCall(x.X, d+1)
	case *ssa.ChangeType:
		return w.fromCall(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.fromCall(e, d+2) {
				return true
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if w.fromCall(a, d+1) {
				return true
			}
		}
	case *ssa.FieldAddr:
		return w.fromCall(x.X, d+1)
	case *ssa.IndexAddr:
		return w.fromCall(x.X, d+1)
	case *ssa.Slice:
		return w.fromCall(x.X, d+1)
	}
	return false
}

// aboutErr: is the condition a question about the error other than nil-ness?
func (w *failWalk) aboutErr(v ssa.Value, d int) bool {
	if v == w.e && v != nil {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return w.aboutErr(x.X, d+1) || w.aboutErr(x.Y, d+1)
	case *ssa.UnOp:
		return w.aboutErr(x.X, d+1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if w.aboutErr(a, d+1) {
				return true
			}
		}
		return x.Call.IsInvoke() && w.aboutErr(x.Call.Value, d+1)
	case *ssa.TypeAssert:
		return w.aboutErr(x.X, d+1)
	case *ssa.Extract:
		return w.aboutErr(x.Tuple, d+1)
	case *ssa.ChangeInterface:
		return w.aboutErr(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.aboutErr(e, d+2) {
				return true
			}
		}
	}
	return false
}

func (w *failWalk) walk(b *ssa.BasicBlock, from int, prev *ssa.BasicBlock, env failEnv, tested bool) {
	if w.bad != token.NoPos || w.undec {
		return
	}
	if w.steps++; w.steps > 20000 {
		w.undec = true
		return
	}
	if from == 0 {
		k := fmt.Sprint(b.Index, "<", env.key(), tested)
		if prev != nil {
			k += fmt.Sprint(" ", prev.Index)
		}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	ne := failEnv{}
	for k, v := range env {
		ne[k] = v
	}
	if from == 0 && prev != nil {
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			delete(ne, phi)
			if !isErrT(phi.Type()) && !(w.body && types.IsInterface(phi.Type())) {
				continue
			}
			for i, p := range b.Preds {
				if p == prev {
					if n := w.nilness(phi.Edges[i], env); n != nilUnknown {
						ne[phi] = n
					}
				}
			}
		}
	}
	for _, ins := range b.Instrs[from:] {
		switch x := ins.(type) {
		case *ssa.Call:
			if x == w.call {
				// the call again, in a later round of a loop: the earlier
				// failure went unnoticed unless it is still held by something
				delete(ne, x)
				held := false
				for _, n := range ne {
					held = held || n == nilNo
				}
				if !held && !tested {
					w.bad, w.badWhy = x.Pos(), "and the next round goes on"
				}
				return
			}
			delete(ne, x)
			for _, a := range x.Call.Args {
				if isErrT(a.Type()) && a == w.e && !isLogging(&x.Call) && !isErrT(x.Type()) {
					return // handed over
				}
			}
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && w.body && types.IsInterface(x.Val.Type()) && fa.Pos() != token.NoPos {
				if n, ok := x.Val.Type().(*types.Named); ok && n.Obj().Name() == "Entity" {
					ne[w.fn] = nilYes // a body is given nevertheless
					if w.nilness(x.Val, ne) == nilYes {
						ne[w.fn] = nilNo
					}
				}
			}
			if isErrT(x.Val.Type()) {
				if al, ok := x.Addr.(*ssa.Alloc); ok && localAlloc(al) {
					delete(ne, al)
					if n := w.nilness(x.Val, ne); n != nilUnknown {
						ne[al] = n
					}
				} else if w.nilness(x.Val, ne) == nilNo {
					return // kept somewhere
				}
			}
		case *ssa.Send, *ssa.Go, *ssa.MapUpdate:
			for _, op := range ins.Operands(nil) {
				if *op == w.e && w.e != nil {
					return
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && isErrT(x.Type()) {
				delete(ne, x)
				if n := w.nilness(x, ne); n != nilUnknown {
					ne[x] = n
				}
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			i := errIndex(w.fn.Signature)
			if i < 0 {
				if tested {
					w.undec = true
				} else {
					w.bad, w.badWhy = x.Pos(), "and the caller is not told"
				}
				return
			}
			switch w.nilness(x.Results[i], ne) {
			case nilNo:
				return
			case nilYes:
				if w.body && ne[w.fn] != nilYes {
					return // a message without a body
				}
				w.bad, w.badWhy = x.Pos(), "and the caller is told that all went well"
				return
			}
			if _, ok := x.Results[i].(*ssa.Call); ok {
				w.bad, w.badWhy = x.Pos(), "and the caller hears only of a later step"
				return
			}
			if ex, ok := x.Results[i].(*ssa.Extract); ok && ex.Tuple != ssa.Value(w.call) {
				w.bad, w.badWhy = x.Pos(), "and the caller hears only of a later step"
				return
			}
			w.undec = true
			return
		case *ssa.If:
			if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isErrT(bo.X.Type()) {
				l, r := w.nilness(bo.X, ne), w.nilness(bo.Y, ne)
				v, n := bo.X, l
				if l == nilYes {
					v, n = bo.Y, r
				}
				if l == nilYes || r == nilYes {
					eq, neq := b.Succs[0], b.Succs[1]
					if bo.Op == token.NEQ {
						eq, neq = neq, eq
					}
					if n != nilYes {
						e2 := failEnv{}
						for k, vv := range ne {
							e2[k] = vv
						}
						e2[v] = nilNo
						if n == nilUnknown {
							w.walk(neq, 0, b, e2, tested)
						} else {
							w.walk(neq, 0, b, e2, true)
						}
					}
					if n != nilNo {
						e2 := failEnv{}
						for k, vv := range ne {
							e2[k] = vv
						}
						e2[v] = nilYes
						w.walk(eq, 0, b, e2, tested)
					}
					return
				}
				if l == nilNo && r == nilNo {
					// a particular error: dealt with on the equal side
					neq := b.Succs[1]
					if bo.Op == token.NEQ {
						neq = b.Succs[0]
					}
					w.walk(neq, 0, b, ne, true)
					return
				}
			}
			if w.fromCall(x.Cond, 0) && calleeName(&w.call.Call) != "Read" || w.aboutErr(x.Cond, 0) {
				w.undec = true
				return
			}
			w.walk(b.Succs[0], 0, b, ne, tested)
			w.walk(b.Succs[1], 0, b, ne, tested)
			return
		case *ssa.Jump:
			w.walk(b.Succs[0], 0, b, ne, tested)
			return
		}
	}
}

func isLogging(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return false
	}
	p := f.Object().Pkg().Path()
	return strings.Contains(p, "logrus") || p == "log" || p == "fmt" && strings.HasPrefix(f.Name(), "Print")
}

// localAlloc: a local variable only loaded and stored
func localAlloc(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		switch y := ref.(type) {
		case *ssa.Store:
			if y.Val == ssa.Value(al) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// reach: the module's functions reachable from the roots
func (a *failAn) reach(roots []*ssa.Function) {
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || a.funcs[f] || len(f.Blocks) == 0 || !isRepoFn(f) {
			return
		}
		a.funcs[f] = true
		for _, an := range f.AnonFuncs {
			visit(an)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range a.callees(c.Common()) {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
}

type failRoot struct {
	f    *ssa.Function
	name string // how a unit names it
}

func (p *Program) failRoots() []failRoot {
	var roots []failRoot
	add := func(f *ssa.Function, name string) {
		if f != nil {
			roots = append(roots, failRoot{f, name})
		}
	}
	for _, pk := range []struct {
		pk  *ssa.Package
		tag string
	}{{p.proto, "msg"}, {p.extra, "extra"}} {
		for _, e := range p.registry(pk.pk, "entityMapper") {
			if e.typ != nil {
				for _, m := range []string{"Encode", "Decode", "DecodePacket", "Data"} {
					add(p.methodOf(e.typ, m), fmt.Sprintf("%s:%04x:%s", pk.tag, e.key, m))
				}
			}
		}
	}
	for _, x := range [][2]string{{"Message", "Encode"}, {"Message", "Decode"}, {"Header", "Encode"}, {"Header", "Decode"}} {
		if n := p.typ(p.proto, x[0]); n != nil {
			add(p.methodOf(n, x[1]), "fn:protocol."+x[0]+"."+x[1]+":")
		}
	}
	// what the connection layer offers its user
	for _, f := range p.allFns {
		if f.Pkg == p.root && f.Synthetic == "" && f.Parent() == nil && f.Object() != nil && f.Object().Exported() && errIndex(f.Signature) >= 0 {
			name := "root." + f.Name()
			if r := f.Signature.Recv(); r != nil {
				pt, ok := r.Type().(*types.Pointer)
				if !ok {
					continue
				}
				n, ok := pt.Elem().(*types.Named)
				if !ok || !n.Obj().Exported() {
					continue
				}
				name = "root." + n.Obj().Name() + "." + f.Name()
			}
			add(f, "fn:"+name+":")
		}
	}
	return roots
}

// certain: library calls that fail for some contents whatever precedes them
func certain(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		// a stream given from outside, or a message or item of any kind
		switch c.Method.Name() {
		case "Read", "Write", "Decode", "DecodePacket":
			return true
		}
		return false
	}
	f := c.StaticCallee()
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return false
	}
	switch f.Object().Pkg().Path() {
	case "github.com/funny/link":
		return true
	case "strconv":
		return true
	case "time":
		return strings.HasPrefix(f.Name(), "Parse")
	case "compress/gzip":
		return f.Name() == "NewReader" || f.Name() == "Read"
	}
	return false
}

// failObs walks every call that may fail; the calls whose failure goes
// unreported on some path are returned as well
func (p *Program) failObs(rep *Report) map[ssa.CallInstruction]Ob {
	a := &failAn{p: p, ea: p.newEff(), fails: map[*ssa.Function]int{}, funcs: map[*ssa.Function]bool{}}
	var roots []*ssa.Function
	for _, r := range p.failRoots() {
		roots = append(roots, r.f)
	}
	a.reach(roots)
	bad := map[ssa.CallInstruction]Ob{}
	var fs []*ssa.Function
	for f := range a.funcs {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		rep.Funcs = append(rep.Funcs, f.String())
		n := map[string]int{}
		for _, b := range f.Blocks {
			for i, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || !a.callFails(&c.Call) {
					continue
				}
				name := calleeLabel(&c.Call)
				n[name]++
				w := &failWalk{a: a, fn: f, call: c, seen: map[string]bool{}}
				o := Ob{Rule: "failures", What: fmt.Sprintf("%s: failure of %s #%d", fnLabel(f), name, n[name]), Pos: p.pos(c.Pos()), Status: stProved}
				whole := false
				if isErrT(c.Type()) {
					w.e = c
				} else {
					ei := errIndex(c.Call.Signature())
					for _, ref := range *c.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == ei {
							w.e = ex
						}
						if _, ok := ref.(*ssa.Return); ok {
							whole = true
						}
					}
				}
				if whole {
					rep.Obs = append(rep.Obs, o)
					continue
				}
				if w.e != nil && len(*w.e.Referrers()) == 0 {
					w.e = nil
				}
				w.body = givesBody(p, c.Call.Signature())
				w.walk(b, i+1, nil, failEnv{}, false)
				if w.bad != token.NoPos {
					o.Detail = fmt.Sprintf("%s can fail %s (%s)", name, w.badWhy, p.pos(w.bad))
					if certain(&c.Call) || w.body {
						o.Status = stViolated
					} else {
						o.Status = stUnresolved
						bad[c] = o
					}
				} else if w.undec {
					o.Status = stUnresolved
				}
				rep.Obs = append(rep.Obs, o)
			}
		}
	}
	return bad
}

// givesBody: the call makes a message body; a message without a body tells
// that it failed
func givesBody(p *Program, s *types.Signature) bool {
	ent := p.typ(p.proto, "Entity")
	for i := 0; ent != nil && i < s.Results().Len(); i++ {
		if types.Identical(s.Results().At(i).Type(), ent) {
			return true
		}
	}
	return false
}

func (p *Program) failUnit(args []string, rep *Report) {
	if len(args) == 0 {
		p.failObs(rep)
		return
	}
	// confirm: can the calls really fail, starting from this root?
	var tmp Report
	bad := p.failObs(&tmp)
	failCallsAll = map[ssa.CallInstruction]bool{}
	for c := range bad {
		failCallsAll[c] = true
	}
	L := int64(-1)
	fmt.Sscan(args[1], &L)
	sp := strings.SplitN(args[0], ":", 3)
	freeMode = true
	var in *Interp
	if sp[0] == "fn" {
		if L >= 0 {
			unrollMax = L + 2
		}
		f := p.entry(sp[1])
		if f == nil {
			return
		}
		in = p.runAny(f, L)
	} else {
		reg := p.registry(p.proto, "entityMapper")
		if sp[0] == "extra" {
			reg = p.registry(p.extra, "entityMapper")
		}
		for _, e := range reg {
			if fmt.Sprintf("%04x", e.key) != sp[1] || e.typ == nil {
				continue
			}
			if strings.HasPrefix(sp[2], "Decode") {
				if L >= 0 {
					unrollMax = L + 2
				}
				in = p.decodeAny(e.typ, sp[2], L)
			} else {
				if L >= 0 {
					specLen, specText, unrollMax = L%10, L/10, 0
				}
				in = p.encodeAny(e.typ, sp[2])
			}
		}
	}
	if in == nil {
		return
	}
	var keep []*Oblig
	for _, o := range in.obligs {
		if o.kind == "failure" {
			keep = append(keep, o)
		}
	}
	in.obligs = keep
	for i, o := range p.obOf(in, "failures", args[0]) {
		b := bad[keep[i].instr.(ssa.CallInstruction)]
		if o.Status == stViolated {
			b.Status = stViolated
			b.Detail += "; " + strings.TrimPrefix(o.Detail, "panics: ")
		} else {
			b.Status = o.Status
		}
		b.What += " from " + args[0]
		if L >= 0 {
			b.What += fmt.Sprintf("{%d}", L)
		}
		rep.Obs = append(rep.Obs, b)
	}
}

// encodeAny analyses one encoder on any message
func (p *Program) encodeAny(n *types.Named, m string) *Interp {
	in := newInterp(p)
	in.nilPolicy = func(base *T, typ types.Type) bool {
		_, isPtr := typ.Underlying().(*types.Pointer)
		return isPtr && !base.isOp("idx") || mentionsCall(base)
	}
	in.rt = specLen >= 0
	st := newState()
	o := getObj("entity:"+n.Obj().Name(), n)
	o.input = true
	st.heap[o] = in.fromAtom(mkSym("e"), n)
	in.call(st, p.methodOf(n, m), []*T{mkPtr(o)}, nil, nil, nil)
	return in
}

var failCallsAll map[ssa.CallInstruction]bool

// failRefine: for each call whose failure goes unreported on a path, analyse
// the functions it is reached from
func failRefine(P *Program, reps []Report, tier string) []unitJob {
	var tmp Report
	bad := P.failObs(&tmp)
	per := map[*ssa.Function]bool{}
	for c := range bad {
		per[c.Parent()] = true
	}
	var fs []*ssa.Function
	for f := range per {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	use := map[string]bool{}
	var names []string
	for _, f := range fs {
		n := 0
		for _, r := range P.failRoots() {
			a := &failAn{p: P, ea: P.newEff(), funcs: map[*ssa.Function]bool{}}
			a.reach([]*ssa.Function{r.f})
			if a.funcs[f] {
				if n++; n > 6 {
					break
				}
				if !use[r.name] {
					use[r.name] = true
					names = append(names, r.name)
				}
			}
		}
	}
	var out []unitJob
	for _, r := range names {
		ls := []string{"-1", "0", "1", "2", "21", "52"}
		if strings.Contains(r, ":Decode") || strings.HasSuffix(r, "Header.Decode:") {
			ls = []string{"-1"}
			for i := 0; i <= 20; i++ {
				ls = append(ls, fmt.Sprint(i))
			}
			ls = append(ls, "24", "28", "32", "40", "48", "64")
		} else if strings.HasPrefix(r, "fn:") {
			ls = []string{"-1"}
		}
		for _, l := range ls {
			out = append(out, unitJob{args: []string{"fl", r, l}, timeout: 40 * 1e9})
		}
	}
	return out
}

// nilWhenFailed: is result i nil whenever the function returns an error?
func nilWhenFailed(f *ssa.Function, i int) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	ei := errIndex(f.Signature)
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok && ei >= 0 && i < ei {
				c, ok := r.Results[i].(*ssa.Const)
				e, ok2 := r.Results[ei].(*ssa.Const)
				if !(ok && c.IsNil()) && !(ok2 && e.IsNil()) {
					return false
				}
			}
		}
	}
	return true
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

func calleeLabel(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if isRepoFn(f) {
			return fnLabel(f)
		}
		return f.String()
	}
	return "a function value"
}
