package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- the server in its environment
//
// A world is the server under abstract interpretation together with models of
// what surrounds it: the connection library's sessions, the clock, the ticker,
// the user's handlers. What the environment observes is kept as events, each
// with the condition under which it happens; on one path, list order is
// program order.

type sev struct {
	name  string
	pc    *BDD
	args  []*T
	st    *State // state at the event (not to be modified)
	ins   ssa.Instruction
	held  []heldLock
	guard int // frames between the event and the innermost recovering frame (-1: none)
	loop  bool
	tick  int64
	stack []string
}

type heldLock struct {
	lock *T
	c    *BDD
	name string
}

type recvItem struct {
	msg    *T // message value, nil: error
	before func(st *State)
}

type world struct {
	complete *BDD // all packets are there
	p        *Program
	in       *Interp
	evs      []sev
	server   *T
	srvT     *types.Named
	handler  *T // what the server hands to the connection library
	closers  map[*T]*T
	script   map[*T][]recvItem // per connection
	counter  map[*T]*Obj
	closed   map[*T]*T
	syncs    map[string][]mapEntry
	onSend   func(st *State, sess, msg *T)
	clockCnt *Obj
	ordered  bool // assume the clock never goes back
	goFns    []sev
	ticks    int64
	tickCnt  *Obj
	sendErr  func(n int) *T
	uniq     int
	sends    int
	unclear  []string
	mt       *types.Named
	isLoop   map[*ssa.Function]bool
	split    bool
	gap      *gap
}

const linkSess = "(*github.com/funny/link.Session)."

func (w *world) fail(f string, a ...interface{}) { w.unclear = append(w.unclear, fmt.Sprintf(f, a...)) }

func (w *world) ev(st *State, c *callCtx, name string, args ...*T) {
	if w.in.quiet > 0 || st.pc == bddFalse {
		return
	}
	if debugTrace {
		fmt.Fprintln(os.Stderr, "EV", name, cut(mkB(st.pc).String(), 300), cut(fmt.Sprint(args), 300))
	}
	e := sev{name: name, pc: st.pc, args: args, st: st.clone(), guard: -1}
	if c != nil {
		e.ins = c.ins
	}
	e.held = w.heldAt(st)
	e.tick = -1
	if v, ok := st.heap[w.tickCnt]; ok {
		if v = assume(v, st.pc); v.k == KConst {
			e.tick = v.i
		}
	}
	// innermost frame that recovers from a panic of what is called now
	for i := len(w.in.frames) - 1; i >= 0; i-- {
		f := w.in.frames[i]
		e.stack = append(e.stack, f.fn.Name())
		if w.recovers(f, st) {
			e.guard = len(w.in.frames) - 1 - i
			break
		}
		if w.isLoop[f.fn] {
			e.loop = true // the panic would leave the session loop
		}
	}
	if e.guard >= 0 && w.isLoop[w.in.frames[len(w.in.frames)-1-e.guard].fn] {
		e.loop = true
	}
	w.evs = append(w.evs, e)
}

// recovers: a deferred call installed on this path recovers
func (w *world) recovers(f *Frame, st *State) bool {
	for _, d := range f.defers {
		if !bddImplies(st.pc, d.cond) || d.fnv == nil || d.fnv.k != KFn {
			continue
		}
		if callsRecover(d.fnv.fn) {
			return true
		}
	}
	return false
}

// callsRecover: on every path through the function body recover is called, and
// nothing panics anew
func callsRecover(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	// blocks reachable from the entry without passing a recover call
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	found := false
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		stop := false
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					stop, found = true, true
					break
				}
			}
			if _, ok := ins.(*ssa.Return); ok {
				return false
			}
		}
		if !stop {
			work = append(work, b.Succs...)
		}
	}
	if !found {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Panic); ok {
				return false
			}
		}
	}
	return true
}

// heldAt: the locks held at a point, from the lock state kept per lock
func (w *world) heldAt(st *State) []heldLock {
	var out []heldLock
	for o, v := range st.heap {
		if !strings.HasPrefix(o.key, "lockstate:") {
			continue
		}
		if v.k != KBool {
			v = assume(v, st.pc)
		}
		if v.k == KBool {
			if c := bddAnd(v.b, st.pc); c != bddFalse {
				out = append(out, heldLock{c: c, name: strings.TrimPrefix(o.key, "lockstate:")})
			}
		}
	}
	return out
}

func lockName(p *T) string {
	if p.k == KPtr {
		t := p.obj.typ
		s := ""
		if t != nil {
			s = typeName(t)
		}
		for _, i := range p.path {
			if u, ok := asStructSafe(t); ok && i < u.NumFields() {
				s += "." + u.Field(i).Name()
				t = u.Field(i).Type()
			}
		}
		return s + fmt.Sprintf("#%d", p.obj.id)
	}
	return p.String()
}

func (w *world) lockHook(acquire bool, what string) func(in *Interp, st *State, c *callCtx) (*T, bool) {
	return func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if acquire {
			w.atGap(st)
		}
		o := getObj("lockstate:"+lockName(c.args[0]), nil)
		cur, ok := st.heap[o]
		if !ok {
			cur = mkBool(false)
		}
		cur = assume(cur, st.pc)
		if cur.k == KBool {
			bad := bddAnd(st.pc, cur.b)
			if !acquire {
				bad = bddAnd(st.pc, bddNot(cur.b))
			}
			if bad != bddFalse {
				s := st.clone()
				s.pc = bad
				w.ev(s, c, what+"-bad", c.args[0])
			}
			if acquire && bad != bddFalse && !strings.HasPrefix(what, "r") {
				st.pc = bddAnd(st.pc, bddNot(cur.b)) // the rest never happens
			}
		}
		st.heap[o] = mkBool(acquire)
		return nil, true
	}
}

// A gap is a place between two critical sections of one operation. What is
// shared is only touched under its lock (that is checked separately), so
// another operation that comes in between need only be tried there.
type gap struct {
	cell *Obj
	at   int64
	do   func(st *State)
	hit  *BDD
	busy bool
}

func (w *world) atGap(st *State) {
	g := w.gap
	if g == nil || g.busy || w.in.quiet > 0 || st.pc == bddFalse || len(w.heldAt(st)) > 0 {
		return
	}
	v, ok := st.heap[g.cell]
	if !ok {
		return
	}
	n := assume(v, st.pc)
	if n.k != KConst {
		return
	}
	if n.i == g.at {
		g.busy = true
		g.hit = bddOr(g.hit, st.pc)
		g.do(st)
		g.busy = false
	}
	st.heap[g.cell] = mkInt(n.i + 1)
}

// interrupted runs op and lets other come in before op enters its at-th
// critical section (from 0); the condition under which that happened
func (w *world) interrupted(st *State, at int64, op, other func(st *State)) *BDD {
	g := &gap{cell: getObj("criticalsections", nil), at: at, do: other, hit: bddFalse}
	w.gap = g
	st.heap[g.cell] = mkInt(0)
	op(st)
	delete(st.heap, g.cell)
	w.gap = nil
	return g.hit
}

func (p *Program) newWorld() *world {
	strictCalls = true
	w := &world{p: p, in: newInterp(p), closers: map[*T]*T{}, script: map[*T][]recvItem{}, counter: map[*T]*Obj{}, closed: map[*T]*T{},
		syncs: map[string][]mapEntry{}, mt: p.typ(p.proto, "Message"), srvT: p.typ(p.root, "Server"), isLoop: map[*ssa.Function]bool{}}
	unrollMax = 14
	freeMode = true
	in := w.in
	in.exactMaps = true
	in.splitHeap = true
	in.nilPolicy = func(base *T, typ types.Type) bool { return mentionsCall(base) }
	in.follow = map[string]bool{"container/heap": true}
	in.hooks[linkSess+"ID"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		return in.load(st, c.args[0], nil).a[0], true
	}
	in.hooks[linkSess+"Codec"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		v := in.load(st, c.args[0], nil).a[1]
		if v.k == KNil {
			return nil, false
		}
		return v, true
	}
	in.hooks[linkSess+"IsClosed"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if v, ok := w.closed[c.args[0]]; ok {
			return v, true
		}
		return mkBool(false), true
	}
	in.hooks[linkSess+"AddCloseCallback"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		w.ev(st, c, "onclose", c.args[0], c.args[3])
		w.closers[c.args[0]] = c.args[3]
		return nil, true
	}
	in.hooks[linkSess+"Close"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		w.ev(st, c, "close", c.args[0])
		return mkOp("perr", mkSym("close")), true
	}
	in.hooks[linkSess+"Send"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		n := w.sends
		var res *T
		if w.sendErr != nil {
			res = w.sendErr(n)
		} else {
			res = mkOp("perr", mkSym(fmt.Sprint("send", n)))
		}
		w.ev(st, c, "send", c.args[0], c.args[1], res)
		if w.onSend != nil && in.quiet == 0 {
			w.onSend(st, c.args[0], c.args[1])
		}
		if in.quiet == 0 {
			w.sends++
		}
		return res, true
	}
	in.hooks[linkSess+"Receive"] = w.receive
	in.hooks["github.com/funny/link.NewServer"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		w.ev(st, c, "newserver", c.args...)
		if w.handler == nil && len(c.args) == 4 {
			w.handler = c.args[3]
		}
		return nil, false
	}
	for _, l := range []string{"Mutex", "RWMutex"} {
		in.hooks["(*sync."+l+").Lock"] = w.lockHook(true, "lock")
		in.hooks["(*sync."+l+").Unlock"] = w.lockHook(false, "unlock")
	}
	in.hooks["(*sync.RWMutex).RLock"] = w.lockHook(true, "rlock")
	in.hooks["(*sync.RWMutex).RUnlock"] = w.lockHook(false, "runlock")
	w.atomics()
	w.syncMaps()
	w.clocks()
	in.hooks["dynamic"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if strings.HasPrefix(c.recv.op, "user:") {
			w.ev(st, c, c.recv.op, c.args...)
			if rt := resultType(c.sig); rt != nil {
				if t, ok := rt.(*types.Tuple); !ok || t.Len() > 0 {
					return nil, false
				}
			}
			return nil, true
		}
		if c.recv.k != KFn && in.quiet == 0 && st.pc != bddFalse {
			w.fail("call of an unknown function %s", cut(c.recv.String(), 300))
		}
		return nil, false
	}
	in.goHook = func(in *Interp, st *State, ins *ssa.Go, fnv *T, args []*T) {
		if in.quiet == 0 {
			w.goFns = append(w.goFns, sev{pc: st.pc, args: append([]*T{fnv}, args...), ins: ins})
		}
	}
	return w
}

// now: the number of the current step
func (w *world) now(st *State) int64 {
	v, ok := st.heap[w.clockCnt]
	if !ok {
		return 0
	}
	if v = assume(v, st.pc); v.k != KConst {
		w.fail("steps not counted")
		return 0
	}
	return v.i
}

// step: the environment acts, at a time of its own
func (w *world) step(st *State) int64 {
	k := w.now(st) + 1
	st.heap[w.clockCnt] = mkInt(k)
	if k > 1 && w.ordered {
		st.pc = bddAnd(st.pc, le(clockSym(k-1), clockSym(k)))
	}
	return k
}

// clockSym: the time of the k-th step
func clockSym(k int64) *T {
	n := mkSym(fmt.Sprintf("clock%d", k))
	n.setRange(0, true, 1<<40, true)
	return n
}

// userFn: a function the user supplies
func userFn(name string) *T {
	return intern(&T{k: KOp, op: "user:" + name, a: []*T{mkSym("user")}})
}

func (w *world) atomics() {
	h := w.in.hooks
	access := func(in *Interp, st *State, c *callCtx, p *T) {
		if in.memHook != nil && in.quiet == 0 {
			in.memHook(in, st, c.ins, p)
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		// the operand of the functions, and of the methods of the atomic types
		for _, form := range []struct {
			pre, post string
			op        func(c *callCtx) *T
		}{
			{"sync/atomic.", t, func(c *callCtx) *T { return c.args[0] }},
			{"(*sync/atomic." + t + ").", "", atomicField},
		} {
			op := form.op
			wd := intWidthName(t)
			h[form.pre+"Load"+form.post] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
				p := op(c)
				if p == nil {
					return nil, false
				}
				access(in, st, c, p)
				return in.load(st, p, resType(c, 0)), true
			}
			h[form.pre+"Store"+form.post] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
				p := op(c)
				if p == nil {
					return nil, false
				}
				access(in, st, c, p)
				in.store(st, p, c.args[1], nil)
				return nil, true
			}
			h[form.pre+"Add"+form.post] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
				p := op(c)
				if p == nil {
					return nil, false
				}
				access(in, st, c, p)
				v := wrapInt(add(in.load(st, p, resType(c, 0)), c.args[1]), clampW(wd))
				in.store(st, p, v, nil)
				return v, true
			}
			h[form.pre+"Swap"+form.post] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
				p := op(c)
				if p == nil {
					return nil, false
				}
				access(in, st, c, p)
				v := in.load(st, p, resType(c, 0))
				in.store(st, p, c.args[1], nil)
				return v, true
			}
			h[form.pre+"CompareAndSwap"+form.post] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
				p := op(c)
				if p == nil {
					return nil, false
				}
				access(in, st, c, p)
				ps := c.sig.Params()
				v := in.load(st, p, ps.At(ps.Len()-1).Type())
				e := in.decide(eqTerm(v, c.args[1]), st)
				in.store(st, p, ite(e, c.args[2], v), nil)
				return mkB(e), true
			}
		}
	}
}

// atomicField: the value inside an atomic.Uint32 and the like
func atomicField(c *callCtx) *T {
	p := c.args[0]
	if p.k != KPtr || c.sig.Recv() == nil {
		return nil
	}
	s, ok := derefT(c.sig.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "v" {
			return mkPtr(p.obj, append(append([]int{}, p.path...), i)...)
		}
	}
	return nil
}

func intWidthName(t string) int {
	switch t {
	case "Int32":
		return -32
	case "Int64":
		return -64
	case "Uint32":
		return 32
	}
	return 64
}

func (w *world) syncMaps() {
	h := w.in.hooks
	place := func(c *callCtx) string { return mapPlace(c.ins.Common().Args[0]) }
	h["(*sync.Map).Store"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		p := place(c)
		if st.pc != bddTrue || p == "" {
			w.fail("conditional store into a concurrent map")
		}
		w.syncs[p] = append(w.syncs[p], mapEntry{c.args[1], c.args[2]})
		return nil, true
	}
	h["(*sync.Map).Load"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		p := place(c)
		r := mkTuple(tNil, mkBool(false))
		v, ok := tNil, bddFalse
		for _, e := range w.syncs[p] {
			k := eqTerm(ifaceVal(e.k), ifaceVal(c.args[1]))
			if e.k.k == KIface && c.args[1].k == KIface && !types.Identical(e.k.typ, c.args[1].typ) {
				k = bddFalse
			}
			v = ite(k, e.v, v)
			ok = bddOr(k, ok)
		}
		r = mkTuple(v, mkB(ok))
		return r, true
	}
}

func ifaceVal(t *T) *T {
	if t.k == KIface {
		return t.a[0]
	}
	return t
}

// clocks: every step of the environment has its own time, which does not go back
func (w *world) clocks() {
	w.clockCnt = getObj("clocksteps", nil)
	h := w.in.hooks
	h["time.Now"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		n := clockSym(w.now(st))
		w.ev(st, c, "now", n)
		return mkOp("instant", n), true
	}
	w.in.recvVal = func(st *State, t types.Type) *T {
		if t.String() == "time.Time" {
			return mkOp("instant", clockSym(w.now(st)))
		}
		return nil
	}
	h["(time.Time).Unix"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if c.args[0].isOp("instant") {
			return c.args[0].a[0], true
		}
		return nil, false
	}
	w.tickCnt = getObj("ticks", nil)
	tick := func(in *Interp, st *State, c *callCtx) {
		n, ok := st.heap[w.tickCnt]
		if !ok {
			return
		}
		n = assume(n, st.pc)
		if n.k != KConst {
			w.fail("ticks not counted")
			return
		}
		w.ev(st, c, "tick", n)
		if n.i >= w.ticks {
			st.pc = bddFalse
			return
		}
		st.heap[w.tickCnt] = mkInt(n.i + 1)
	}
	w.in.blockHook = func(in *Interp, st *State, ins ssa.Instruction) {
		tick(in, st, &callCtx{ins: nil})
	}
	h["time.Sleep"] = func(in *Interp, st *State, c *callCtx) (*T, bool) { tick(in, st, c); return nil, true }
}

// receive: the messages of the script, then the end of the connection
func (w *world) receive(in *Interp, st *State, c *callCtx) (*T, bool) {
	sess := c.args[0]
	o, ok := w.counter[sess]
	if !ok {
		w.fail("receive on an unknown connection")
		return nil, false
	}
	n := assume(st.heap[o], st.pc)
	if n.k != KConst {
		w.fail("number of receives not decided")
		return nil, false
	}
	w.ev(st, c, "receive", sess, n)
	sc := w.script[sess]
	if int(n.i) > len(sc) {
		st.pc = bddFalse // receives again after the connection failed: reported as an event
		return mkTuple(tNil, errSym("io.EOF")), true
	}
	st.heap[o] = mkInt(n.i + 1)
	if int(n.i) == len(sc) {
		return mkTuple(tNil, mkOp("nonnil", mkSym("connection error"))), true
	}
	it := sc[n.i]
	if it.before != nil && in.quiet == 0 {
		it.before(st)
	}
	w.step(st)
	w.ev(st, c, "received", sess, n)
	return mkTuple(mkIface(w.mt, it.msg), tNil), true
}

// connect makes a connection with the given number
func (w *world) connect(st *State, id int64, script ...recvItem) *T {
	var lt types.Type
	if f := w.p.sessionLoop(); f != nil {
		lt = derefT(f.Params[len(f.Params)-1].Type())
	}
	o := getObj(fmt.Sprintf("link%d", id), lt)
	st.heap[o] = mkStruct(mkInt(id), tNil)
	s := mkPtr(o)
	w.script[s] = script
	w.counter[s] = getObj(fmt.Sprintf("received%d", id), nil)
	st.heap[w.counter[s]] = mkInt(0)
	return s
}

// start makes a server and lets it run as far as accepting connections
func (w *world) start(st *State, opt func(name string, t types.Type) *T) bool {
	p, in := w.p, w.in
	f := p.fn(p.root, "NewServer")
	if f == nil || len(f.Params) != 1 {
		w.fail("server constructor not found")
		return false
	}
	os, ok := f.Params[0].Type().Underlying().(*types.Struct)
	if !ok {
		w.fail("server options not understood")
		return false
	}
	var fs []*T
	for i := 0; i < os.NumFields(); i++ {
		v := opt(os.Field(i).Name(), os.Field(i).Type())
		if v == nil {
			v = zero(os.Field(i).Type())
		}
		fs = append(fs, v)
	}
	r := in.call(st, f, []*T{mkStruct(fs...)}, nil, nil, nil)
	s := assume(in.component(r, 0, nil), st.pc)
	if st.pc == bddFalse || s.k != KPtr {
		w.fail("server not constructed: %v", s)
		return false
	}
	w.server = s
	return true
}

// api calls a method of the server's or session's public interface
func (w *world) api(st *State, recv *T, typ *types.Named, name string, args ...*T) *T {
	f := w.p.methodOf(typ, name)
	if f == nil {
		w.fail("method %s not found", name)
		return nil
	}
	if _, ptr := f.Signature.Recv().Type().(*types.Pointer); !ptr && recv.k == KPtr {
		recv = w.in.load(st, recv, typ)
	}
	if w.in.splitHeap && !w.split {
		w.split = true
		r, done := w.splitCall(st, 6, func(s *State) *T { return w.api(s, recv, typ, name, args...) })
		w.split = false
		if done {
			return r
		}
	}
	inner := w.split
	w.split = false
	defer func() { w.split = inner }()
	save := w.in.topCtx
	w.uniq++ // distinct names for what happens in this call
	w.in.topCtx = fmt.Sprintf("%s/%s%d", save, name, w.uniq)
	fs := w.in.frames
	w.in.frames = nil
	ls := w.in.loops
	w.in.loops = nil
	r := w.in.call(st, f, append([]*T{recv}, args...), nil, nil, nil)
	w.in.frames, w.in.loops = fs, ls
	w.in.topCtx = save
	return r
}

// splitCall makes a call in each of the definite states a state consists of
func (w *world) splitCall(st *State, depth int, f func(*State) *T) (*T, bool) {
	c := splitCond(st)
	if c == nil || depth == 0 {
		return nil, false
	}
	sub := func(s *State) *T {
		if s.pc == bddFalse {
			return nil
		}
		if k, _ := feasible(s.pc); k == feasNone {
			s.pc = bddFalse
			return nil
		}
		for o, v := range s.heap {
			s.heap[o] = assume(v, s.pc)
		}
		if r, done := w.splitCall(s, depth-1, f); done {
			return r
		}
		return f(s)
	}
	return w.in.fork(st, c, sub, sub), true
}

// callFn calls a function value the way the environment would
func (w *world) callFn(st *State, fnv *T, name string, args ...*T) {
	if fnv == nil || fnv.k != KFn {
		w.fail("%s is not a known function", name)
		return
	}
	save := w.in.topCtx
	w.uniq++
	w.in.topCtx = fmt.Sprintf("%s/%s%d", save, name, w.uniq)
	fs, ls := w.in.frames, w.in.loops
	w.in.frames, w.in.loops = nil, nil
	w.in.call(st, fnv.fn, args, fnv.a, nil, nil)
	w.in.frames, w.in.loops = fs, ls
	w.in.topCtx = save
}

// listen runs the server's Run so far that its handler becomes known
func (w *world) listen(st *State) bool {
	s := st.clone()
	w.api(s, w.server, w.srvT, "Run", constString("tcp"), mkInt(8808))
	if w.handler == nil || w.handler.k != KIface {
		w.fail("what handles connections is not known")
		return false
	}
	return true
}

// serve runs the handler of one connection to its end
func (w *world) serve(st *State, conn *T) bool {
	w.step(st)
	recv := w.handler.a[0]
	sel := w.p.prog.MethodSets.MethodSet(w.handler.typ).Lookup(nil, "HandleSession")
	if sel == nil {
		w.fail("handler of connections not found")
		return false
	}
	f := w.p.prog.MethodValue(sel)
	w.isLoop[f] = true
	save := w.in.topCtx
	w.uniq++
	w.in.topCtx = fmt.Sprintf("%s/serve%d", save, w.uniq)
	fs, ls := w.in.frames, w.in.loops
	w.in.frames, w.in.loops = nil, nil
	w.in.call(st, f, []*T{recv, conn}, nil, nil, nil)
	w.in.frames, w.in.loops = fs, ls
	w.in.topCtx = save
	return st.pc != bddFalse
}

// followed: nothing essential was lost on the way
func (w *world) followed() bool {
	if len(w.in.noUnroll) > 0 {
		w.fail("loop not followed: %v", firstKey(w.in.noUnroll))
	}
	if w.in.notes["store through an unknown pointer"] {
		w.fail("store through an unknown pointer")
	}
	return len(w.unclear) == 0
}

// events of one name
func (w *world) all(name string) []sev {
	var out []sev
	for _, e := range w.evs {
		if e.name == name {
			out = append(out, e)
		}
	}
	return out
}

// when: the condition under which at least one, and under which more than one, of the events happens
func when(es []sev) (any, twice *BDD) {
	any, twice = bddFalse, bddFalse
	for _, e := range es {
		twice = bddOr(twice, bddAnd(any, e.pc))
		any = bddOr(any, e.pc)
	}
	return
}

// session: what the server knows under a number
func (w *world) session(st *State, id int64) (*T, *BDD) {
	r := w.api(st, w.server, w.srvT, "GetSession", mkInt(id))
	if r == nil || r.k != KTuple {
		return tNil, bddFalse
	}
	ok := assume(r.a[1], st.pc)
	if ok.k != KBool {
		w.fail("session lookup not understood")
		return tNil, bddFalse
	}
	return assume(r.a[0], bddAnd(st.pc, ok.b)), ok.b
}

// options as symbols
func symOpts(keep *T, merge *T, closeH *T) func(name string, t types.Type) *T {
	return func(name string, t types.Type) *T {
		switch name {
		case "Keepalive":
			return keep
		case "AutoMergePacket":
			return merge
		case "CloseHandler":
			return closeH
		}
		return nil
	}
}
