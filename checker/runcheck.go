package main

import (
	"fmt"
	"go/types"
	"strings"
)

// runUnit: starting and stopping the server. Scenarios:
//
//	run   a stop before anything; a start that may fail to listen; while
//	      serving a second start and two stops; then another start
//	keys  the keys given to the server and to sessions
func (p *Program) runUnit(sc string, rep *Report) {
	w := p.newWorld()
	in := w.in
	tag := "{" + sc + "}"
	pos := ""
	if f := p.methodOf(w.srvT, "Run"); f != nil {
		pos = p.pos(f.Pos())
	}
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	cond := func(what string, bad *BDD, m string) { p.condOb(add, "run", what, bddNot(bad), m) }
	h := in.hooks
	listens := 0
	h["net.Listen"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if in.quiet > 0 {
			return nil, false
		}
		n := listens
		listens++
		err := mkOp("perr", mkSym(fmt.Sprint("listen", n)))
		w.ev(st, c, "listen", c.args[0], in.content(st, c.args[1]), err)
		l := mkOp("nonnil", mkSym(fmt.Sprint("listener", n)))
		return mkTuple(ite(isNil(err), l, tNil), err), true
	}
	servers := 0
	h["github.com/funny/link.NewServer"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		n := servers
		servers++
		r := mkPtr(getObj(fmt.Sprint("linkserver", n), derefT(c.sig.Results().At(0).Type())))
		w.ev(st, c, "newserver", append([]*T{r}, c.args...)...)
		if w.handler == nil {
			w.handler = c.args[3]
		}
		return r, true
	}
	var serving func(st *State)
	serves := 0
	h["(*github.com/funny/link.Server).Serve"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		r := mkOp("nonnil", mkSym(fmt.Sprint("served", serves)))
		serves++
		w.ev(st, c, "serve", c.args[0], r)
		if f := serving; f != nil && in.quiet == 0 {
			serving = nil
			f(st)
			serving = f
		}
		return r, true
	}
	h["(*github.com/funny/link.Server).Stop"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		w.ev(st, c, "stop", c.args[0])
		return nil, true
	}
	pk := mkPtr(getObj("privatekey", nil))
	h["(*crypto/rsa.PrivateKey).Size"] = func(in *Interp, st *State, c *callCtx) (*T, bool) { return mkInt(128), true }
	h["(*crypto/rsa.PublicKey).Size"] = h["(*crypto/rsa.PrivateKey).Size"]
	h["(crypto/rsa.PublicKey).Size"] = h["(*crypto/rsa.PrivateKey).Size"]
	opts := func(name string, t types.Type) *T {
		if name == "PrivateKey" {
			pk.obj.typ = derefT(t)
			return pk
		}
		return symOpts(mkInt(60), mkB(bddFalse), tNil)(name, t)
	}
	st := newState()
	if !w.start(st, opts) {
		add("run", "server", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	port := mkSym("port")
	port.setRange(0, true, 65535, true)
	run := func(st *State) *T {
		r := w.api(st, w.server, w.srvT, "Run", constString("network"), port)
		if r == nil {
			w.fail("result of a start not understood")
			return tNil
		}
		return r
	}
	stop := func(st *State) { w.api(st, w.server, w.srvT, "Stop") }
	since := func(n int, name string) []sev {
		var out []sev
		for _, e := range w.evs[n:] {
			if e.name == name {
				out = append(out, e)
			}
		}
		return out
	}
	finish := func() bool {
		w.addNotes(rep)
		if !w.followed() {
			rep.Obs = nil
			add("run", "followed", stUnresolved, strings.Join(w.unclear, "; "))
			return false
		}
		for _, o := range p.obOf(in, "run", "run"+tag) {
			if o.Status == stViolated {
				rep.Obs = append(rep.Obs, o)
			}
		}
		return true
	}
	// one start: what was listened on and served
	check := func(name string, n0 int, pc *BDD, res *T) *BDD {
		ls, ss := since(n0, "listen"), since(n0, "serve")
		listened, twice := when(ls)
		cond(name+" listens", bddAnd(pc, bddNot(listened)), "a start does not listen")
		cond(name+" listens once", twice, "a start listens twice")
		okL := bddFalse
		for _, e := range ls {
			okL = bddOr(okL, bddAnd(e.pc, isNil(e.args[2])))
			if x, ok := asConstString(assume(e.args[0], e.pc)); !ok {
				add("run", name+" network", stUnresolved, e.args[0].String())
			} else if x != "network" {
				add("run", name+" network", stViolated, "listens on another network: "+x)
			} else {
				add("run", name+" network", stProved, "")
			}
			a := assume(e.args[1], e.pc)
			dec := decimalOf(port)
			if a.k == KSeq && dec != nil && len(a.a) > 0 && len(dec.a) > 0 && a.a[len(a.a)-1] == dec.a[len(dec.a)-1] {
				add("run", name+" port", stProved, "")
			} else if g := tailSeg(a); g != nil && g.isOp("sub") && g.a[0].isOp("decimal") {
				cond(name+" port", bddAnd(e.pc, bddNot(eqTerm(g.a[0].a[0], port))), "listens on another port")
			} else if _, ok := asConstString(a); ok {
				add("run", name+" port", stViolated, "listens on a fixed address")
			} else {
				add("run", name+" port", stUnresolved, a.String())
			}
		}
		served, stwice := when(ss)
		cond(name+" serves", bddAnd(okL, bddNot(served)), "a start that listens does not serve")
		cond(name+" serves once", stwice, "a start serves twice")
		cond(name+" serves only when listening", bddAnd(served, bddNot(okL)), "serves without listening")
		bad := bddAnd(pc, bddNot(okL))
		cond(name+" reports failure", bddAnd(bad, isNil(assume(res, bad))), "a start that cannot listen reports success")
		for i, e := range ss {
			r := assume(res, bddAnd(e.pc, pc))
			if r == e.args[1] {
				add("run", fmt.Sprintf("%s result %d", name, i), stProved, "")
			} else if r.k == KNil || r.isOp("nonnil") {
				add("run", fmt.Sprintf("%s result %d", name, i), stViolated, "the end of serving is not reported as it came")
			} else {
				add("run", fmt.Sprintf("%s result %d", name, i), stUnresolved, r.String())
			}
			for _, l := range e.held {
				cond(fmt.Sprintf("%s unlocked %d", name, i), l.c, "serves while "+l.name+" is locked")
			}
		}
		for i, e := range since(n0, "newserver") {
			if len(e.args) != 5 {
				continue
			}
			if l := assume(e.args[1], e.pc); l.isOp("nonnil") {
				add("run", fmt.Sprintf("%s listener %d", name, i), stProved, "")
			} else if l.k == KNil {
				add("run", fmt.Sprintf("%s listener %d", name, i), stViolated, "serves no listener")
			}
		}
		return served
	}
	gapAt := int64(0)
	if i := strings.IndexByte(sc, '@'); i > 0 {
		fmt.Sscan(sc[i+1:], &gapAt)
		sc = sc[:i]
	}
	switch sc {
	case "raced":
		// two starts at once: the second comes in before the first enters its
		// critical section k, and is left serving
		n0 := len(w.evs)
		w.interrupted(st, gapAt, func(st *State) { run(st) }, func(st *State) {
			var left *State
			serving = func(s *State) {
				left = s.clone()
				s.pc = bddFalse
			}
			run(st)
			serving = nil
			if left != nil {
				st.heap, st.pc = left.heap, left.pc
			}
		})
		_, twice := when(since(n0, "serve"))
		cond("starts at once", twice, "two starts at the same time both serve")
		finish()
	case "run":
		stop(st)
		if s, _ := when(since(0, "stop")); s != bddFalse {
			cond("stop before start", s, "stops what was not started")
		}
		n0 := len(w.evs)
		var insideN int
		inside := func(st *State) {
			n := len(w.evs)
			own := assume(w.evs[n-1].args[0], st.pc)
			pc := st.pc
			r := run(st)
			again, _ := when(since(n, "listen"))
			cond("second start listens", again, "a server that runs is started again")
			sv, _ := when(since(n, "serve"))
			cond("second start serves", sv, "a server that runs is started again")
			cond("second start refused", bddAnd(pc, isNil(assume(r, pc))), "a second start reports success")
			cond("second start returns", bddAnd(pc, bddNot(st.pc)), "a second start does not return")
			pc = st.pc
			n = len(w.evs)
			stop(st)
			es := since(n, "stop")
			any, twice := when(es)
			cond("stops", bddAnd(pc, bddNot(any)), "a stop does not stop the server that runs")
			cond("stops once", twice, "a stop stops twice")
			for i, e := range es {
				if a := assume(e.args[0], e.pc); a == own {
					add("run", fmt.Sprintf("stops the right one %d", i), stProved, "")
				} else if a.k == KPtr && own.k == KPtr {
					add("run", fmt.Sprintf("stops the right one %d", i), stViolated, "another server is stopped")
				}
				for _, l := range e.held {
					cond(fmt.Sprintf("stops unlocked %d", i), l.c, "stops, and waits for sessions, while "+l.name+" is locked")
				}
			}
			n = len(w.evs)
			stop(st)
			any, _ = when(since(n, "stop"))
			cond("stopped once", any, "a second stop stops again")
			insideN = len(w.evs)
		}
		serving = inside
		pc := st.pc
		n1 := len(w.evs)
		res := run(st)
		if insideN == 0 {
			w.fail("nothing is served")
		}
		evs := w.evs
		// leave out what happened while serving
		var own []sev
		depth := 0
		for i, e := range evs[n1:] {
			if e.name == "serve" && depth == 0 {
				own = append(own, e)
				depth = 1
				continue
			}
			if depth == 1 && n1+i < insideN {
				continue
			}
			own = append(own, e)
		}
		w.evs = own
		serving = nil
		check("start", 0, pc, res)
		cond("start returns", bddAnd(pc, bddNot(st.pc)), "a start does not return")
		// and once more, whatever became of the first
		w.evs = nil
		pc = st.pc
		res = run(st)
		check("restart", 0, pc, res)
		_ = n0
		finish()
	case "keys":
		serving = nil
		run(st)
		ns := since(0, "newserver")
		if len(ns) == 0 || len(ns[0].args) != 5 {
			w.fail("connection server not found")
			finish()
			return
		}
		proto := assume(ns[0].args[2], ns[0].pc)
		st = newState()
		w.evs = nil
		if !w.start(st, opts) {
			return
		}
		if proto.k != KIface {
			w.fail("protocol not understood")
			finish()
			return
		}
		st.heap = ns[0].st.clone().heap
		st.pc = ns[0].pc
		codec := func(n int) *T {
			pt := proto.typ
			f := p.methodOf(namedOf(pt), "NewCodec")
			if f == nil {
				w.fail("codec constructor not found")
				return nil
			}
			recv := proto.a[0]
			if _, ptr := f.Signature.Recv().Type().(*types.Pointer); !ptr {
				if _, is := pt.(*types.Pointer); is {
					recv = in.load(st, recv, derefT(pt))
				}
			}
			in.topCtx = fmt.Sprint("codec", n)
			r := in.call(st, f, []*T{recv, mkOp("nonnil", mkSym(fmt.Sprint("conn", n)))}, nil, nil, nil)
			if r == nil || r.k != KTuple {
				w.fail("codec constructor not understood")
				return nil
			}
			cond(fmt.Sprintf("codec %d made", n), bddAnd(st.pc, bddNot(isNil(assume(r.a[1], st.pc)))), "no codec for a connection")
			c := assume(r.a[0], st.pc)
			if c.k != KIface || c.a[0].k != KPtr {
				w.fail("codec not understood")
				return nil
			}
			return c
		}
		c1 := codec(1)
		c2 := codec(2)
		if c1 == nil || c2 == nil {
			finish()
			return
		}
		if c1.a[0] == c2.a[0] {
			add("run", "codecs", stViolated, "two connections share their state")
		} else {
			add("run", "codecs", stProved, "")
		}
		if cs, ok := derefT(c1.typ).Underlying().(*types.Struct); ok && types.Identical(c1.typ, c2.typ) {
			v1, v2 := in.load(st, c1.a[0], derefT(c1.typ)), in.load(st, c2.a[0], derefT(c2.typ))
			for i := 0; i < cs.NumFields() && v1.k == KStruct && v2.k == KStruct; i++ {
				if typeName(derefSafe(cs.Field(i).Type())) != "bytes.Buffer" {
					continue
				}
				if v1.a[i].k == KPtr && v1.a[i] == v2.a[i] {
					add("run", "buffers", stViolated, "two connections share a buffer: "+cs.Field(i).Name())
				} else {
					add("run", "buffers", stProved, "")
				}
			}
		}
		for i, c := range []*T{c1, c2} {
			ct := derefT(c.typ)
			v := in.load(st, c.a[0], ct)
			k := structField(v, ct, "privateKey")
			switch {
			case k == nil:
				add("run", fmt.Sprint("private key ", i), stUnresolved, "field not found")
			case assume(k, st.pc) == pk:
				add("run", fmt.Sprint("private key ", i), stProved, "")
			case assume(k, st.pc).k == KNil:
				add("run", fmt.Sprint("private key ", i), stViolated, "connections do not get the server's private key")
			default:
				add("run", fmt.Sprint("private key ", i), stUnresolved, k.String())
			}
		}
		if r := w.api(st, w.server, w.srvT, "GetPrivateKey"); r != nil {
			if assume(r, st.pc) == pk {
				add("run", "private key told", stProved, "")
			} else if assume(r, st.pc).k == KNil {
				add("run", "private key told", stViolated, "the server does not tell its private key")
			}
		}
		// public keys are the sessions' own
		sessT := p.typ(p.root, "Session")
		ctor := p.fn(p.root, "newSession")
		conns := []*T{w.connect(st, 7), w.connect(st, 8)}
		var sess []*T
		for i, c := range []*T{c1, c2} {
			st.heap[conns[i].obj] = mkStruct(mkInt(int64(7+i)), c)
			if ctor == nil || len(ctor.Params) != 2 {
				w.fail("session constructor not found")
				finish()
				return
			}
			in.topCtx = fmt.Sprint("session", i)
			s := assume(in.call(st, ctor, []*T{w.server, conns[i]}, nil, nil, nil), st.pc)
			sess = append(sess, s)
			if s.k != KPtr {
				w.fail("session not understood")
				finish()
				return
			}
		}
		key := mkPtr(getObj("publickey", nil))
		key2 := mkPtr(getObj("publickey2", nil))
		is := func(name string, s, want *T) {
			r := w.api(st, s, sessT, "GetPublicKey")
			if r == nil {
				return
			}
			switch r = assume(r, st.pc); {
			case r == want:
				add("run", name, stProved, "")
			case r.k == KNil || r.k == KPtr:
				add("run", name, stViolated, "the key of a session is not the one set for it")
			default:
				add("run", name, stUnresolved, r.String())
			}
		}
		is("no key", sess[0], tNil)
		w.api(st, sess[0], sessT, "SetPublicKey", key)
		is("key set", sess[0], key)
		is("other without key", sess[1], tNil)
		w.api(st, sess[1], sessT, "SetPublicKey", key2)
		is("key kept", sess[0], key)
		is("other key set", sess[1], key2)
		w.api(st, sess[0], sessT, "SetPublicKey", tNil)
		is("key taken back", sess[0], tNil)
		finish()
	}
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func tailSeg(t *T) *T {
	if t.k != KSeq || len(t.a) == 0 {
		return nil
	}
	return t.a[len(t.a)-1]
}
