package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// answerKinds: the messages by which a terminal answers a request, naming the
// request's serial number
var answerKinds = map[int64]bool{0x0001: true, 0x0104: true, 0x0201: true, 0x0302: true, 0x0500: true, 0x0700: true, 0x0802: true, 0x0805: true}

// request makes one request of a session
type reqMade struct {
	pc      *BDD
	serial  *T // as returned
	err     *T
	sent    *T // serial number in the message handed to the connection
	ok      *BDD
	atSend  *State
	held    bool
	deliver *T
}

func (w *world) entity(key int64, name string) *T {
	ent := w.p.entityType(key)
	if ent == nil {
		return nil
	}
	o := getObj("entity"+name, ent)
	o.input = true
	return mkIface(types.NewPointer(ent), mkPtr(o))
}

func (w *world) request(st *State, sess *T, body, cb *T) *reqMade {
	sessT := w.p.typ(w.p.root, "Session")
	n0 := len(w.evs)
	r := &reqMade{pc: st.pc}
	res := w.api(st, sess, sessT, "Request", body, cb)
	if res == nil || res.k != KTuple {
		w.fail("result of a request not understood")
		return nil
	}
	r.serial, r.err = res.a[0], res.a[1]
	r.ok = bddFalse
	for _, e := range w.evs[n0:] {
		if e.name != "send" {
			continue
		}
		hdr, _, _ := w.sent(e)
		s := hdr("MsgSerialNo")
		if s == nil {
			w.fail("a message sent is not understood")
			return nil
		}
		s = assume(s, e.pc)
		if r.sent == nil {
			r.sent = s
		} else {
			r.sent = ite(e.pc, s, r.sent)
		}
		r.ok = bddOr(r.ok, bddAnd(e.pc, isNil(e.args[2])))
		r.atSend = e.st
		r.held = r.held || len(e.held) > 0
	}
	if r.sent == nil {
		w.fail("a request is not sent")
		return nil
	}
	return r
}

// requestUnit: requests and the answers to them. Scenarios:
//
//	one    one request, then two answers
//	two-xy two requests of different kinds, then two answers; x and y say
//	       whether sending them works
//	early  the answer is received while the request is being sent
//	nil    a request without a callback, then an answer
//	same   two requests of one kind, then an answer to the later one
//	raced@k two requests, then an answer, then another; a third request of the
//	       first one's kind comes in before the loop enters its critical
//	       section k while it handles the first answer
//	wrap   the serial numbers have gone round between two requests
func (p *Program) requestUnit(sc string, key int64, rep *Report) {
	w := p.newWorld()
	in := w.in
	tag := fmt.Sprintf("{%s 0x%04x}", sc, key)
	pos := ""
	if f := p.methodOf(p.typ(p.root, "Session"), "Request"); f != nil {
		pos = p.pos(f.Pos())
	}
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	cond := func(what string, bad *BDD, m string) { p.condOb(add, "answer", what, bddNot(bad), m) }
	st := newState()
	merge := bddVar(mkSym("automerge"))
	if !w.start(st, symOpts(mkInt(60), mkB(merge), tNil)) || !w.listen(st) {
		add("answer", "server", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	w.packetFiles()
	bt := p.entityType(key)
	A, B := userFn("cbA"), userFn("cbB")
	conn := w.connect(st, 7)
	m, n := w.received(key, bt, "m"), w.received(key, bt, "n")
	var ra, rb, rc *reqMade
	gapAt, g := int64(0), (*gap)(nil)
	if i := strings.IndexByte(sc, '@'); i > 0 {
		fmt.Sscan(sc[i+1:], &gapAt)
		sc = sc[:i]
	}
	bodyA, bodyB := w.entity(0x8103, "A"), w.entity(0x8104, "B")
	if sc == "same" {
		bodyB = w.entity(0x8103, "B2")
	}
	if bodyA == nil || bodyB == nil || bt == nil {
		add("answer", "entities", stUnresolved, "message types not found")
		return
	}
	sessT := p.typ(p.root, "Session")
	if i := strings.IndexByte(sc, '-'); i > 0 {
		// what becomes of the two sends
		out := sc[i+1:]
		sc = sc[:i]
		w.sendErr = func(n int) *T {
			if n < len(out) {
				if out[n] == 'o' {
					return tNil
				}
				return mkOp("nonnil", mkSym(fmt.Sprint("senderror", n)))
			}
			return mkOp("perr", mkSym(fmt.Sprint("send", n)))
		}
	}
	if sc == "wrap" {
		w.sendErr = func(n int) *T {
			if n < 256 {
				return tNil
			}
			return mkOp("perr", mkSym(fmt.Sprint("send", n)))
		}
	}
	before := func(st *State) {
		s, ok := w.session(st, 7)
		if !bddImplies(st.pc, ok) || s.k != KPtr {
			w.fail("session not found")
			return
		}
		switch sc {
		case "one":
			ra = w.request(st, s, bodyA, A)
		case "early":
			ra = w.request(st, s, bodyA, A)
			if ra != nil {
				// what the receiver sees when the answer overtakes the return of the request
				if ra.held {
					add("answer", "early", stUnresolved, "a lock is held while sending")
					st.pc = bddFalse
					return
				}
				st.heap = ra.atSend.clone().heap
				st.pc = bddAnd(ra.atSend.pc, ra.ok)
			}
		case "two", "same":
			ra = w.request(st, s, bodyA, A)
			rb = w.request(st, s, bodyB, B)
		case "raced":
			ra = w.request(st, s, bodyA, A)
			rb = w.request(st, s, bodyB, B)
			g = &gap{cell: getObj("criticalsections", nil), at: gapAt, hit: bddFalse, do: func(st *State) {
				pc := st.pc
				r := w.request(st, s, w.entity(0x8103, "C"), userFn("cbC"))
				if rc != nil && r != nil {
					// reached on another path as well
					r.sent, r.serial, r.err = ite(pc, r.sent, rc.sent), ite(pc, r.serial, rc.serial), ite(pc, r.err, rc.err)
					r.ok, r.pc = bddOr(r.ok, rc.ok), bddOr(r.pc, rc.pc)
				}
				rc = r
			}}
			w.gap = g
			st.heap[g.cell] = mkInt(0)
		case "nil":
			ra = w.request(st, s, bodyA, tNil)
		case "wrap":
			ra = w.request(st, s, bodyA, A)
			if ra == nil || ra.sent.k != KConst {
				w.fail("serial number not known")
				return
			}
			// as many messages as it takes for the same number to come up again
			for i := 0; i < 254; i++ {
				w.api(st, s, sessT, "Send", w.entity(0x8104, "F"))
				w.evs = w.evs[:len(w.evs)-1]
			}
			rb = w.request(st, s, bodyB, B)
			if rb != nil && rb.sent != ra.sent {
				w.fail("numbers not reused after 255 messages")
			}
		}
	}
	w.script[conn] = []recvItem{{msg: m, before: before}, {msg: n, before: func(st *State) { w.gap = nil }}}
	if !w.serve(st, conn) && sc != "early" {
		w.fail("the session loop does not end")
	}
	w.addNotes(rep)
	if sc == "early" && ra != nil && ra.held {
		return
	}
	if !w.followed() || ra == nil {
		add("answer", "followed", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	at := func(name string, step int64) []sev {
		var out []sev
		for _, e := range w.all("user:" + name) {
			if w.now(e.st) == step {
				out = append(out, e)
			}
		}
		return out
	}
	got := func(tag string) *BDD {
		r := bddFalse
		for _, e := range w.all("received") {
			if e.args[1].isInt(map[string]int64{"m": 0, "n": 1}[tag]) {
				r = bddOr(r, e.pc)
			}
		}
		return r
	}
	reply := func(msg *T, tag string) *T {
		b := assume(structField(msg, w.mt, "Body"), bddNot(nobody(tag)))
		if b.k != KIface {
			return nil
		}
		v := in.load(newState(), b.a[0], bt)
		return structField(v, bt, "ReplyMsgSerialNo")
	}
	rm, rn := reply(m, "m"), reply(n, "n")
	isAns := answerKinds[key]
	if isAns && (rm == nil || rn == nil) {
		add("answer", "answers", stUnresolved, "answered serial number not found")
		return
	}
	if sc == "nil" {
		for _, o := range p.obOf(in, "answer", "answer"+tag) {
			if o.Status == stViolated {
				rep.Obs = append(rep.Obs, o)
			}
		}
		add("answer", "no callback", stProved, "")
		return
	}
	w.isolation(add)
	match := func(r *reqMade, tag string, reply *T) *BDD {
		if !isAns {
			return bddFalse
		}
		return bddAnd(bddAnd(r.ok, bddNot(nobody(tag))), eqTerm(reply, r.sent))
	}
	// ---- the result of the request
	result := func(name string, r *reqMade) {
		cond(name+" returns its number", bddAnd(r.ok, bddNot(eqTerm(assume(r.serial, r.ok), r.sent))), "the number returned is not the number sent")
		cond(name+" accepted", bddAnd(r.ok, bddNot(isNil(assume(r.err, r.ok)))), "a request that was sent is reported as failed")
		bad := bddAnd(r.pc, bddNot(r.ok))
		cond(name+" refused", bddAnd(bad, isNil(assume(r.err, bad))), "a request that was not sent is reported as sent")
	}
	if sc != "early" {
		result("first", ra)
		if rb != nil {
			result("second", rb)
		}
	}
	args := func(name string, msg *T, es []sev) {
		for i, e := range es {
			what := fmt.Sprintf("%s argument %d", name, i)
			if len(e.args) != 1 || assume(e.args[0], e.pc).k != KPtr {
				add("answer", what, stUnresolved, "argument not understood")
				continue
			}
			v := in.load(e.st, assume(e.args[0], e.pc), w.mt)
			h, wh := structField(v, w.mt, "Header"), structField(msg, w.mt, "Header")
			b, wb := structField(v, w.mt, "Body"), structField(msg, w.mt, "Body")
			if h == nil || b == nil {
				add("answer", what, stUnresolved, v.String())
				continue
			}
			p.condOb(add, "answer", what+" header", bddNot(bddAnd(e.pc, bddNot(eqDeep(assume(h, e.pc), assume(wh, e.pc))))), "the callback gets another header than was received")
			if x, y := assume(b, e.pc), assume(wb, e.pc); x == y {
				add("answer", what+" body", stProved, "")
			} else if x.k == KIface || x.k == KNil {
				add("answer", what+" body", stViolated, "the callback gets another body than was received")
			} else {
				add("answer", what+" body", stUnresolved, x.String())
			}
			for _, h := range e.held {
				p.condOb(add, "answer", what+" unlocked", bddNot(h.c), "the callback runs while "+h.name+" is locked")
			}
		}
	}
	gm, gn := got("m"), got("n")
	check := func(name, cb string, r *reqMade, mm, mn *BDD) {
		am, an := at(cb, 2), at(cb, 3)
		any, twice := when(am)
		cond(name+" called", bddAnd(gm, bddAnd(mm, bddNot(any))), "the answer to a request does not reach its callback")
		cond(name+" called only for its answer", bddAnd(any, bddNot(mm)), "a callback gets a message that does not answer its request")
		cond(name+" called once", twice, "a callback is called twice for one answer")
		any2, twice2 := when(an)
		want := bddAnd(mn, bddNot(mm))
		cond(name+" called later", bddAnd(gn, bddAnd(want, bddNot(any2))), "the answer to a request does not reach its callback after another message")
		cond(name+" not called again", bddAnd(any2, bddNot(want)), "a callback gets a second answer or a message that does not answer its request")
		cond(name+" called once later", twice2, "a callback is called twice for one answer")
		args(name, m, am)
		args(name+" later", n, an)
	}
	switch sc {
	case "one", "early":
		check("request", "cbA", ra, match(ra, "m", rm), match(ra, "n", rn))
	case "two":
		cond("numbers differ", bddAnd(bddAnd(ra.ok, rb.ok), eqTerm(ra.sent, rb.sent)), "two requests carry the same number")
		check("first", "cbA", ra, match(ra, "m", rm), match(ra, "n", rn))
		check("second", "cbB", rb, match(rb, "m", rm), match(rb, "n", rn))
	case "raced":
		if rc == nil {
			add("answer", "no such place", stProved, "")
			return
		}
		mb, mc := match(rb, "m", rm), match(rc, "m", rm)
		any, twice := when(at("cbB", 2))
		cond("answered meanwhile", bddAnd(bddAnd(gm, g.hit), bddAnd(mb, bddNot(any))), "the answer to a request does not reach its callback when another request is made meanwhile")
		cond("answered meanwhile only for its answer", bddAnd(any, bddNot(mb)), "a callback gets a message that does not answer its request")
		cond("answered meanwhile once", twice, "a callback is called twice for one answer")
		later := bddAnd(bddAnd(gn, g.hit), bddNot(bddOr(mb, mc)))
		any, _ = when(at("cbB", 3))
		cond("still waiting", bddAnd(bddAnd(later, match(rb, "n", rn)), bddNot(any)), "a request is forgotten when another is made while an answer is handled")
		cond("not again", bddAnd(any, mb), "a callback gets a second answer")
		later = bddAnd(bddAnd(gn, g.hit), bddNot(mc))
		any, _ = when(at("cbC", 3))
		cond("made meanwhile", bddAnd(bddAnd(later, match(rc, "n", rn)), bddNot(any)), "the answer to a request made while another answer was handled does not reach its callback")
		cond("made meanwhile only for its answer", bddAnd(any, bddNot(match(rc, "n", rn))), "a callback gets a message that does not answer its request")
	case "same":
		check("second", "cbB", rb, match(rb, "m", rm), match(rb, "n", rn))
		any, _ := when(w.all("user:cbA"))
		ok := bddAnd(match(ra, "m", rm), gm)
		ok = bddOr(ok, bddAnd(match(ra, "n", rn), gn))
		cond("first not mistaken", bddAnd(any, bddNot(ok)), "a callback gets the answer to another request of its kind")
	case "wrap":
		mm, mn := match(rb, "m", rm), match(rb, "n", rn)
		check("second", "cbB", rb, mm, mn)
		any, _ := when(at("cbA", 2))
		cond("first not mistaken", bddAnd(any, mm), "a callback gets the answer to a later request that reuses its number")
	}
	for _, o := range p.obOf(in, "answer", "answer"+tag) {
		if o.Status == stViolated {
			rep.Obs = append(rep.Obs, o)
		}
	}
}

func reqJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	for _, k := range []string{"0001", "0104", "0201", "0302", "0500", "0700", "0802", "0805", "0200", "0801"} {
		for _, s := range []string{"one", "two", "early", "nil", "same"} {
			out = append(out, unitJob{args: []string{"rq", s, k}})
		}
	}
	for _, k := range []string{"0001", "0104"} {
		for g := 0; g < 5; g++ {
			out = append(out, unitJob{args: []string{"rq", fmt.Sprint("raced-ooo@", g), k}})
		}
	}
	return append(out, unitJob{args: []string{"rq", "wrap", "0001"}})
}

// cells: the numbers in memory that differ between two states
func changedCells(a, b *State) []*T {
	var out []*T
	var walk func(o *Obj, path []int, x, y *T)
	walk = func(o *Obj, path []int, x, y *T) {
		if x == y || x == nil || y == nil {
			return
		}
		if x.k == KStruct && y.k == KStruct && len(x.a) == len(y.a) {
			for i := range x.a {
				walk(o, append(append([]int{}, path...), i), x.a[i], y.a[i])
			}
			return
		}
		if x.k == KConst && y.k == KConst {
			out = append(out, mkPtr(o, path...))
		}
	}
	for o, v := range a.heap {
		if strings.HasPrefix(o.key, "lockstate:") || o.key == "clocksteps" {
			continue
		}
		walk(o, nil, v, b.heap[o])
	}
	return out
}

// serialUnit: the numbers and terminal numbers of the messages a session sends.
//
//	count  the numbers count up, from every state of the counter
//	request the same with requests
//	race   two sends at the same time, one interrupted at every access to the counter
//	icc    the terminal number, after messages of a kind
func (p *Program) serialUnit(sc string, key int64, rep *Report) {
	w := p.newWorld()
	in := w.in
	tag := fmt.Sprintf("{%s", sc)
	if sc == "icc" {
		tag += fmt.Sprintf(" 0x%04x", key)
	}
	tag += "}"
	pos := ""
	if f := p.methodOf(p.typ(p.root, "Session"), "Send"); f != nil {
		pos = p.pos(f.Pos())
	}
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	cond := func(what string, bad *BDD, m string) { p.condOb(add, "serial", what, bddNot(bad), m) }
	st := newState()
	if !w.start(st, symOpts(mkInt(60), mkB(bddVar(mkSym("automerge"))), tNil)) || !w.listen(st) {
		add("serial", "server", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	w.packetFiles()
	sessT := p.typ(p.root, "Session")
	conn := w.connect(st, 7)
	body := w.entity(0x8103, "A")
	if body == nil {
		add("serial", "entities", stUnresolved, "message types not found")
		return
	}
	// one send: number and terminal number in the message, success, what was returned
	type sendMade struct {
		no, icc, ret, err *T
		ok, made          *BDD
	}
	send := func(st *State, s *T) *sendMade {
		n0 := len(w.evs)
		var res *T
		if sc == "request" {
			res = w.api(st, s, sessT, "Request", body, tNil)
		} else {
			res = w.api(st, s, sessT, "Send", body)
		}
		if res == nil || res.k != KTuple {
			w.fail("result of a send not understood")
			return nil
		}
		r := &sendMade{ret: res.a[0], err: res.a[1], ok: bddFalse, made: bddFalse}
		for _, e := range w.evs[n0:] {
			if e.name != "send" {
				continue
			}
			hdr, bt, _ := w.sent(e)
			no, icc := hdr("MsgSerialNo"), hdr("IccID")
			if no == nil || icc == nil || bt == nil {
				w.fail("a message sent is not understood")
				return nil
			}
			no, icc = assume(no, e.pc), assume(icc, e.pc)
			if r.no == nil {
				r.no, r.icc = no, icc
			} else {
				r.no, r.icc = ite(e.pc, no, r.no), ite(e.pc, icc, r.icc)
			}
			r.made = bddOr(r.made, e.pc)
			r.ok = bddOr(r.ok, bddAnd(e.pc, isNil(e.args[2])))
			p.condOb(add, "serial", "identifier", bddNot(bddAnd(e.pc, bddNot(eqTerm(assume(hdr("MsgID"), e.pc), w.msgID(st, body))))), "a message is sent under another identifier")
		}
		if r.no == nil {
			w.fail("nothing is sent")
			return nil
		}
		return r
	}
	session := func(st *State) *T {
		s, ok := w.session(st, 7)
		if !bddImplies(st.pc, ok) || s.k != KPtr {
			w.fail("session not found")
			return nil
		}
		return s
	}
	// a counter in an arbitrary state
	counter := func(st *State, s *T) (*T, *State, int64) {
		s0 := st.clone()
		send(s0, s)
		s1 := s0.clone()
		send(s1, s)
		cs := changedCells(s0, s1)
		if len(cs) != 1 || len(w.unclear) > 0 {
			w.fail("%d counters found", len(cs))
			return nil, nil, 0
		}
		for _, max := range []int64{0xff, 0xffff, 0xffffffff} {
			x := mkSym(fmt.Sprintf("counter%x", max))
			x.setRange(0, true, max, true)
			t := st.clone()
			in.store(t, cs[0], x, nil)
			start := t.clone()
			send(t, s)
			v := assume(in.load(t, cs[0], nil), t.pc)
			out := bddAnd(t.pc, bddNot(bddAnd(le(mkInt(0), v), le(v, mkInt(max)))))
			if k, _ := feasible(out); out == bddFalse || k == feasNone {
				return cs[0], start, max
			}
		}
		w.fail("no bound of the counter found")
		return nil, nil, 0
	}
	notes := func(what string) bool {
		w.addNotes(rep)
		if !w.followed() {
			add("serial", what, stUnresolved, strings.Join(w.unclear, "; "))
			return false
		}
		return true
	}
	switch sc {
	case "count", "race", "request":
		w.script[conn] = []recvItem{{msg: w.received(0x0200, p.entityType(0x0200), "m"), before: func(st *State) {
			s := session(st)
			if s == nil {
				return
			}
			n0 := len(rep.Obs)
			cell, t, _ := counter(st, s)
			if cell == nil {
				return
			}
			rep.Obs = rep.Obs[:n0]
			if sc == "count" {
				a := send(t, s)
				b := send(t, s)
				if a == nil || b == nil || len(w.unclear) > 0 {
					return
				}
				cond("not zero", bddAnd(a.made, eqTerm(a.no, mkInt(0))), "a message is numbered zero")
				both := bddAnd(a.made, b.made)
				next := bddOr(eqTerm(b.no, addc(a.no, 1)), bddAnd(eqTerm(b.no, mkInt(1)), le(mkInt(255), a.no)))
				cond("counts up", bddAnd(both, bddNot(next)), "the next message is not numbered one higher or, after the highest number, one")
				cond("returned", bddAnd(a.ok, bddNot(eqTerm(assume(a.ret, a.ok), a.no))), "the number returned is not the number sent")
				cond("accepted", bddAnd(a.ok, bddNot(isNil(assume(a.err, a.ok)))), "a message that was sent is reported as failed")
				bad := bddAnd(a.made, bddNot(a.ok))
				cond("refused", bddAnd(bad, isNil(assume(a.err, bad))), "a message that was not sent is reported as sent")
				return
			}
			// places where a send touches the counter without a lock
			sites := map[ssa.Instruction]bool{}
			var order []ssa.Instruction
			in.memHook = func(in *Interp, st *State, ins ssa.Instruction, q *T) {
				if q == cell && len(w.heldAt(st)) == 0 && !sites[ins] {
					sites[ins] = true
					order = append(order, ins)
				}
			}
			send(t.clone(), s)
			in.memHook = nil
			if len(order) == 0 {
				add("serial", "counter under a lock", stProved, "")
			}
			// places between critical sections
			for k := int64(1); k <= 3; k++ {
				u := t.clone()
				var own, other *sendMade
				hit := w.interrupted(u, k, func(st *State) { own = send(st, s) }, func(st *State) {
					n := len(w.evs)
					other = send(st, s)
					w.evs = w.evs[:n]
				})
				if hit == bddFalse || own == nil || other == nil {
					break
				}
				c := bddAnd(bddAnd(own.made, other.made), hit)
				cond(fmt.Sprintf("interrupted at gap %d", k), bddAnd(c, eqTerm(assume(own.no, c), assume(other.no, c))), "two messages sent at the same time get the same number")
				cond(fmt.Sprintf("interrupted at gap %d returned", k), bddAnd(bddAnd(own.ok, u.pc), bddNot(eqTerm(assume(own.ret, own.ok), own.no))), "the number returned is not the number sent when another message is sent meanwhile")
			}
			flag := getObj("interrupted", nil)
			for i, site := range order {
				u := t.clone()
				u.heap[flag] = mkInt(0)
				var others []*sendMade
				in.memHook = func(in *Interp, st *State, ins ssa.Instruction, q *T) {
					if ins != site || q != cell {
						return
					}
					f := assume(st.heap[flag], st.pc)
					if !f.isInt(0) {
						return
					}
					st.heap[flag] = mkInt(1)
					h := in.memHook
					in.memHook = nil
					n := len(w.evs)
					if o := send(st, s); o != nil {
						others = append(others, o)
					}
					w.evs = w.evs[:n]
					in.memHook = h
				}
				own := send(u, s)
				in.memHook = nil
				if own == nil || len(w.unclear) > 0 {
					return
				}
				what := fmt.Sprintf("interrupted at access %d", i)
				rep.Obs = rep.Obs[:len(rep.Obs):len(rep.Obs)]
				mine := assume(own.ret, own.ok)
				cond(what+" returned", bddAnd(bddAnd(own.ok, u.pc), bddNot(eqTerm(mine, own.no))), "the number returned is not the number sent when another message is sent meanwhile ("+p.pos(site.Pos())+")")
				for _, o := range others {
					c := bddAnd(bddAnd(own.made, o.made), u.pc)
					cond(what, bddAnd(c, eqTerm(assume(own.no, c), assume(o.no, c))), "two messages sent at the same time get the same number ("+p.pos(site.Pos())+")")
				}
			}
		}}}
		if !w.serve(st, conn) {
			w.fail("the session loop does not end")
		}
		notes("followed")
	case "icc":
		bt := p.entityType(key)
		m, n := w.received(key, bt, "m"), w.received(key, bt, "n")
		want := mkInt(0)
		heard := func(prev, msg *T) *T {
			x := structField(msg, w.mt, "Header", "IccID")
			return ite(eqTerm(x, mkInt(0)), prev, x)
		}
		check := func(name string, want *T) func(st *State) {
			return func(st *State) {
				s := session(st)
				if s == nil {
					return
				}
				if r := send(st, s); r != nil {
					cond(name, bddAnd(r.made, bddNot(eqDeep(assume(r.icc, r.made), assume(want, r.made)))), "a message does not carry the terminal's number")
				}
			}
		}
		w.script[conn] = []recvItem{{msg: m, before: check("before any message", want)}, {msg: n, before: check("after a message", heard(want, m))},
			{msg: m, before: check("after two messages", heard(heard(want, m), n))}}
		w.serve(st, conn)
		if !notes("followed") {
			return
		}
		// the server's own answers
		for i, e := range w.all("send") {
			if w.now(e.st) != 2 || len(e.stack) == 0 || e.ins == nil {
				continue
			}
			hdr, bt, _ := w.sent(e)
			if bt == nil || bt.Obj().Name() != "T808_0x8001" {
				continue
			}
			wi := heard(want, m)
			if x := hdr("IccID"); x != nil {
				cond(fmt.Sprintf("answer %d", i), bddAnd(e.pc, bddNot(eqDeep(assume(x, e.pc), assume(wi, e.pc)))), "an answer does not carry the terminal's number")
			}
		}
	}
}

func serialJobs(P *Program, tier string) []unitJob {
	out := []unitJob{{args: []string{"sn", "count", "0"}}, {args: []string{"sn", "race", "0"}}, {args: []string{"sn", "request", "0"}}}
	for _, e := range P.registry(P.proto, "entityMapper") {
		if e.key < 0x8000 {
			out = append(out, unitJob{args: []string{"sn", "icc", fmt.Sprintf("%04x", e.key)}})
		}
	}
	return append(out, unitJob{args: []string{"sn", "icc", "0fff"}})
}
