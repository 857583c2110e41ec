package main

import (
	"fmt"
	"go/types"
	"strings"
)

// lifeUnit: the life of connections under the server. Scenarios:
//
//	one       one connection with one message, then the end; its close callback
//	          runs, and runs again
//	closed    the connection may be closed before the callback is installed
//	raced@k   as one, with two notices at once: the second comes in before the
//	          first enters its critical section k
//	two       a second connection comes and goes while the first one waits
//	cast      broadcasts with no, one and two connections
//	silent    the checker of silent connections runs before any message
//	active    ... after a message
//	gone@k    the connection ends by itself while the checker is about to close it
//	other     ... after another connection has been heard
func (p *Program) lifeUnit(sc string, key int64, rep *Report) {
	w := p.newWorld()
	in := w.in
	tag := fmt.Sprintf("{%s 0x%04x}", sc, key)
	gapAt := int64(0)
	if i := strings.IndexByte(sc, '@'); i > 0 {
		fmt.Sscan(sc[i+1:], &gapAt)
		sc = sc[:i]
	}
	pos := ""
	if f := p.sessionLoop(); f != nil {
		pos = p.pos(f.Pos())
	}
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	cond := func(rule, what string, bad *BDD, m string) { p.condOb(add, rule, what, bddNot(bad), m) }
	st := newState()
	hasClose := bddVar(mkSym("hasclosehandler"))
	merge := bddVar(mkSym("automerge"))
	keep := mkInt(60)
	timed := sc == "timeout" || sc == "silent" || sc == "active" || sc == "other" || sc == "gone"
	if timed {
		w.ordered = true
		keep = mkSym("keepalive")
		keep.setRange(-1<<40, true, 1<<40, true)
	}
	eff := ite(le(keep, mkInt(0)), mkInt(60), keep)
	if !w.start(st, symOpts(keep, mkB(merge), ite(hasClose, userFn("closed"), tNil))) || !w.listen(st) {
		add("life", "server", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	w.packetFiles()
	stT := p.typ(p.root, "Session")
	bt := p.entityType(key)
	msg := func(tag string) *T { return w.received(key, bt, tag) }
	conn := w.connect(st, 7)
	const id2 = 7 + 1<<32 // the same number in its low bits
	conn2 := w.connect(st, id2)
	var first *BDD
	finish := func() bool {
		w.addNotes(rep)
		if !w.followed() {
			add("life", "followed", stUnresolved, strings.Join(w.unclear, "; "))
			return false
		}
		return true
	}
	known := func(st *State, rule, what string, id int64, m string) *T {
		s, ok := w.session(st, id)
		cond(rule, what, bddAnd(st.pc, bddNot(ok)), m)
		if s.k == KPtr && stT != nil {
			n := w.api(st, s, stT, "ID")
			if n != nil {
				cond(rule, what+" number", bddAnd(bddAnd(st.pc, ok), bddNot(eqTerm(assume(n, st.pc), mkInt(id)))), "the session found under a number has another one")
			}
		}
		return s
	}
	gone := func(st *State, rule, what string, id int64, m string) {
		_, ok := w.session(st, id)
		cond(rule, what, bddAnd(st.pc, ok), m)
	}
	var sess *T
	switch sc {
	case "one", "closed", "raced":
		early := bddFalse
		if sc == "closed" {
			early = bddVar(mkSym("closedearly"))
			w.closed[conn] = mkB(early)
		}
		w.script[conn] = []recvItem{{msg: msg("m"), before: func(st *State) {
			if sc != "closed" {
				sess = known(st, "life", "registered", 7, "a session is not known to the server when its first message arrives")
				first = st.pc
			}
		}}}
		if !w.serve(st, conn) {
			cond("life", "ends", bddTrue, "the session loop does not end when the connection fails")
			return
		}
		ends := st.pc
		if sc == "closed" {
			any, _ := when(w.all("user:closed"))
			cond("life", "closed early, told", bddAnd(bddAnd(ends, bddAnd(early, hasClose)), bddNot(any)), "nobody is told of a connection that was closed before its callback was installed")
			s := st.clone()
			s.pc = bddAnd(s.pc, early)
			gone(s, "life", "closed early, removed", 7, "a connection closed before its callback was installed stays registered")
			st.pc = bddAnd(st.pc, early) // the callback may still come
		} else {
			any, _ := when(w.all("user:closed"))
			cond("life", "not told early", any, "the close handler runs although the connection is not closed")
			cl, _ := when(w.evsOn("close", conn))
			cond("life", "closes", bddAnd(ends, bddNot(cl)), "a connection that failed is not closed")
			again := bddFalse
			for _, e := range w.all("receive") {
				if e.args[0] == conn && e.args[1].k == KConst && e.args[1].i > 1 {
					again = bddOr(again, e.pc)
				}
			}
			cond("life", "stops receiving", again, "a failed connection is read again")
		}
		cb := w.closers[conn]
		if cb == nil {
			add("life", "callback", stViolated, "nothing is done when a connection is closed")
			return
		}
		if sc == "raced" {
			// two notices at once
			w.interrupted(st, gapAt, func(st *State) { w.callFn(st, cb, "onclose") }, func(st *State) { w.callFn(st, cb, "onclose") })
		} else {
			w.callFn(st, cb, "onclose")
		}
		gone(st, "life", "removed", 7, "a closed session stays registered")
		told, _ := when(w.all("user:closed"))
		cond("life", "told", bddAnd(bddAnd(st.pc, hasClose), bddNot(told)), "the close handler is not told of a closed session")
		w.callFn(st, cb, "onclose")
		_, twice := when(w.all("user:closed"))
		cond("life", "told once", twice, "the close handler is told twice of one session")
		for i, e := range w.all("user:closed") {
			a := assume(e.args[0], e.pc)
			switch {
			case sess != nil && a == sess:
				add("life", fmt.Sprintf("told which %d", i), stProved, "")
			case sess != nil && a.k == KPtr:
				add("life", fmt.Sprintf("told which %d", i), stViolated, "the close handler gets another session")
			case sess != nil:
				add("life", fmt.Sprintf("told which %d", i), stUnresolved, a.String())
			}
		}
		_ = first
	case "two":
		var s7 *T
		w.script[conn] = []recvItem{{msg: msg("m"), before: func(st *State) {
			s7 = known(st, "life", "first registered", 7, "a session is not known to the server")
			w.script[conn2] = []recvItem{{msg: msg("n"), before: func(st *State) {
				a := known(st, "life", "first while second", 7, "a session is forgotten when another connects")
				b := known(st, "life", "second registered", id2, "a session is not known to the server")
				if a.k == KPtr && b.k == KPtr {
					cond("life", "distinct", bddAnd(st.pc, eqTerm(a, b)), "two connections share a session")
				}
			}}}
			w.serve(st, conn2)
			if cb := w.closers[conn2]; cb != nil {
				w.callFn(st, cb, "onclose")
			}
			gone(st, "life", "second removed", id2, "a closed session stays registered")
			x := known(st, "life", "first after second", 7, "a session is forgotten when another one closes")
			if x.k == KPtr && s7.k == KPtr {
				cond("life", "first is the same", bddAnd(st.pc, bddNot(eqTerm(x, s7))), "a session changes when another one closes")
			}
		}}}
		w.serve(st, conn)
		for _, e := range w.all("user:closed") {
			if s7 != nil && assume(e.args[0], e.pc) == s7 {
				cond("life", "first not told", e.pc, "the close handler gets a session that is still open")
			}
		}
	case "timeout":
		// the checker of silent connections runs once, then the close notice comes
		if len(w.goFns) == 0 {
			add("life", "checker", stUnresolved, "no checker of silent connections")
			return
		}
		chk := w.goFns[0]
		w.script[conn] = []recvItem{{msg: msg("m"), before: func(st *State) {
			cb := w.closers[conn]
			if cb == nil {
				return
			}
			st.heap[w.tickCnt] = mkInt(0)
			w.ticks = 1
			n0 := len(w.evs)
			s := st.clone()
			w.step(s)
			w.callFn(s, chk.args[0], "checker", chk.args[1:]...)
			delete(st.heap, w.tickCnt)
			closed := bddFalse
			var ends []*State
			for _, e := range w.evs[n0:] {
				if e.name == "tick" && e.args[0].isInt(1) {
					ends = append(ends, e.st)
				}
				if e.name == "close" && e.args[0] == conn {
					closed = bddOr(closed, e.pc)
				}
			}
			if len(ends) == 0 || len(w.unclear) > 0 {
				w.fail("tick not understood")
				return
			}
			for i, e := range ends {
				delete(e.heap, w.tickCnt)
				open := e.clone()
				open.pc = bddAnd(open.pc, bddNot(closed))
				if open.pc != bddFalse {
					known(open, "life", fmt.Sprintf("kept %d", i), 7, "a session whose connection stays open is forgotten")
				}
				e.pc = bddAnd(e.pc, closed)
				if e.pc == bddFalse {
					continue
				}
				n1 := len(w.evs)
				before, _ := when(w.all("user:closed"))
				w.callFn(e, cb, "onclose")
				told := bddFalse
				for _, x := range w.evs[n1:] {
					if x.name == "user:closed" {
						told = bddOr(told, x.pc)
					}
				}
				gone(e, "life", fmt.Sprintf("removed after silence %d", i), 7, "a session closed for its silence stays registered")
				cond("life", fmt.Sprintf("told after silence %d", i), bddAnd(bddAnd(e.pc, hasClose), bddNot(bddOr(before, told))), "the close handler is not told of a session closed for its silence")
				cond("life", fmt.Sprintf("told once after silence %d", i), bddAnd(before, told), "the close handler is told twice of a session closed for its silence")
			}
		}}}
		w.serve(st, conn)
	case "cast":
		ent := p.entityType(0x8103)
		if ent == nil {
			ent = p.entityType(0x8001)
		}
		eo := getObj("broadcast", ent)
		eo.input = true
		body := mkIface(types.NewPointer(ent), mkPtr(eo))
		cast := func(st *State, name string, conns ...*T) {
			n0 := len(w.evs)
			r := w.api(st, w.server, w.srvT, "Broadcast", body)
			pc := st.pc
			var okSum *T = mkInt(0)
			sent := map[*T][]sev{}
			for _, e := range w.evs[n0:] {
				if e.name != "send" {
					continue
				}
				sent[e.args[0]] = append(sent[e.args[0]], e)
				hdr, b, _ := w.sent(e)
				if b == ent {
					add("broadcast", name+" entity", stProved, "")
					p.condOb(add, "broadcast", name+" identifier", eqTerm(assume(hdr("MsgID"), e.pc), w.msgID(st, body)), "a broadcast message carries another identifier")
				} else {
					add("broadcast", name+" entity", stUnresolved, "sent body not understood")
				}
			}
			for _, c := range conns {
				any, twice := when(sent[c])
				cond("broadcast", name+" reaches "+c.String(), bddAnd(pc, bddNot(any)), "a broadcast misses a registered session")
				cond("broadcast", name+" once "+c.String(), twice, "a broadcast reaches a session twice")
				delete(sent, c)
			}
			for c := range sent {
				any, _ := when(sent[c])
				cond("broadcast", name+" only "+c.String(), any, "a broadcast reaches a session that is not registered")
			}
			for _, e := range w.evs[n0:] {
				if e.name == "send" {
					okSum = add2(okSum, ite(bddAnd(e.pc, isNil(e.args[2])), mkInt(1), mkInt(0)))
				}
			}
			if r == nil {
				add("broadcast", name+" count", stUnresolved, "sends not counted")
				return
			}
			cond("broadcast", name+" count", bddAnd(pc, bddNot(eqTerm(assume(r, pc), okSum))), "the number reported is not the number of successful sends")
		}
		cast(st, "empty")
		w.script[conn] = []recvItem{{msg: msg("m"), before: func(st *State) {
			cast(st, "one", conn)
			w.script[conn2] = []recvItem{{msg: msg("n"), before: func(st *State) {
				cast(st, "two", conn, conn2)
			}}}
			w.serve(st, conn2)
			if cb := w.closers[conn2]; cb != nil {
				w.callFn(st, cb, "onclose")
			}
			cast(st, "after", conn)
		}}}
		w.serve(st, conn)
	case "gone":
		// the connection ends by itself while the checker is closing it
		if len(w.goFns) == 0 {
			add("keepalive", "checker", stUnresolved, "no checker of silent connections")
			return
		}
		chk := w.goFns[0]
		w.script[conn] = []recvItem{{msg: msg("m"), before: func(st *State) {
			cb := w.closers[conn]
			if cb == nil {
				return
			}
			st.heap[w.tickCnt] = mkInt(0)
			w.ticks = 1
			n0 := len(w.evs)
			s := st.clone()
			w.step(s)
			start := s.pc
			hit := w.interrupted(s, gapAt, func(s *State) { w.callFn(s, chk.args[0], "checker", chk.args[1:]...) }, func(s *State) { w.callFn(s, cb, "onclose") })
			delete(st.heap, w.tickCnt)
			run := bddFalse
			nr := 0
			for _, e := range w.evs[n0:] {
				if e.name == "tick" && e.args[0].isInt(1) {
					run = bddOr(run, e.pc)
					nr++
				}
			}
			if nr == 0 || len(w.unclear) > 0 {
				w.fail("tick not understood")
				return
			}
			if hit != bddFalse {
				cond("keepalive", "goes on", bddAnd(start, bddNot(run)), "the checker of silent connections does not survive a connection that ends while it is being closed")
			}
		}}}
		w.serve(st, conn)
	case "silent", "active", "other":
		if len(w.goFns) == 0 {
			add("keepalive", "checker", stUnresolved, "no checker of silent connections")
			return
		}
		chk := w.goFns[0]
		// one tick: which connections are closed
		tick := func(st *State, name string, last map[*T]*T) {
			st.heap[w.tickCnt] = mkInt(0)
			w.ticks = 1
			n0 := len(w.evs)
			s := st.clone()
			now := clockSym(w.step(s))
			w.callFn(s, chk.args[0], "checker", chk.args[1:]...)
			delete(st.heap, w.tickCnt)
			run := bddFalse
			nr := 0
			cl := map[*T]*BDD{}
			for _, e := range w.evs[n0:] {
				switch e.name {
				case "tick":
					if e.args[0].isInt(1) {
						run = bddOr(run, e.pc)
						nr++
					}
				case "close":
					if cl[e.args[0]] == nil {
						cl[e.args[0]] = bddFalse
					}
					cl[e.args[0]] = bddOr(cl[e.args[0]], e.pc)
				}
			}
			if nr == 0 || len(w.unclear) > 0 {
				w.fail("tick not understood")
				return
			}
			for c, l := range last {
				got := cl[c]
				if got == nil {
					got = bddFalse
				}
				due := le(add2(l, eff), now)
				cond("keepalive", name+" closed "+c.String(), bddAnd(run, bddAnd(due, bddNot(got))), "a connection silent for the whole keepalive time is not closed")
				cond("keepalive", name+" kept "+c.String(), bddAnd(run, bddAnd(bddNot(due), got)), "a connection heard within the keepalive time is closed")
			}
		}
		w.script[conn] = []recvItem{{msg: msg("m"), before: func(st *State) {
			switch sc {
			case "silent":
				tick(st, "silent", map[*T]*T{conn: clockSym(1)})
			case "other":
				w.script[conn2] = []recvItem{{msg: msg("n")}, {msg: msg("o"), before: func(st *State) {
					tick(st, "two", map[*T]*T{conn: clockSym(1), conn2: clockSym(3)})
				}}}
				w.serve(st, conn2)
			}
		}}}
		if sc == "active" {
			w.script[conn] = append(w.script[conn], recvItem{msg: msg("n"), before: func(st *State) {
				tick(st, "active", map[*T]*T{conn: clockSym(2)})
			}})
		}
		w.serve(st, conn)
	}
	if !finish() {
		return
	}
	w.isolation(add)
	for _, o := range p.obOf(in, "no-panic", "session"+tag) {
		if o.Status == stViolated {
			o.Rule = "life"
			if sc == "gone" {
				o.Rule = "keepalive"
			}
			rep.Obs = append(rep.Obs, o)
		}
	}
}

func (w *world) evsOn(name string, c *T) []sev {
	var out []sev
	for _, e := range w.all(name) {
		if e.args[0] == c {
			out = append(out, e)
		}
	}
	return out
}

// msgID: the identifier an entity names itself by
func (w *world) msgID(st *State, body *T) *T {
	n, _ := derefT(body.typ).(*types.Named)
	if n == nil {
		return mkSym("?")
	}
	s := st.clone()
	return w.api(s, body.a[0], n, "MsgID")
}

func lifeJobs(scs ...string) func(P *Program, tier string) []unitJob {
	return func(P *Program, tier string) []unitJob {
		var out []unitJob
		for _, s := range scs {
			for _, k := range []string{"0001", "0200", "0801", "0fff"} {
				if (s == "cast" || s == "two" || s == "timeout" || s == "closed" || strings.Contains(s, "@")) && k != "0200" {
					continue
				}
				out = append(out, unitJob{args: []string{"lf", s, k}})
			}
		}
		return out
	}
}
