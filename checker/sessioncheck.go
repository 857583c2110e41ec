package main

import (
	"fmt"
	"go/types"
	"strings"
)

// received makes a message of the given kind the way the decoder does
func (w *world) received(key int64, bt *types.Named, tag string) *T {
	op := mkOp("received@"+tag, mkSym("env"))
	m := w.in.fromAtom(op, w.mt)
	return w.p.withBody(w.in, m, w.mt, key, bt, op)
}

func nobody(tag string) *BDD {
	return bddVar(mkOp("nobody", mkOp("received@"+tag, mkSym("env"))))
}

func structField(t *T, typ types.Type, names ...string) *T {
	for _, n := range names {
		s, ok := typ.Underlying().(*types.Struct)
		if !ok || t.k != KStruct {
			return nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				t, typ, found = t.a[i], s.Field(i).Type(), true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return t
}

func (p *Program) entityType(key int64) *types.Named {
	for _, e := range p.registry(p.proto, "entityMapper") {
		if e.key == key {
			return e.typ
		}
	}
	return nil
}

func implements(p *Program, t *types.Named, iface string) bool {
	n := p.typ(p.proto, iface)
	if n == nil || t == nil {
		return false
	}
	i, ok := n.Underlying().(*types.Interface)
	return ok && types.Implements(types.NewPointer(t), i)
}

// body of a sent message: type and field values at the time of sending
func (w *world) sent(e sev) (hdr func(string) *T, body *types.Named, field func(string) *T) {
	m := assume(e.args[1], e.pc)
	if m.k == KIface {
		m = m.a[0]
	}
	if m.k == KPtr {
		m = w.in.load(e.st, m, w.mt)
	}
	hdr = func(n string) *T { return structField(m, w.mt, "Header", n) }
	b := structField(m, w.mt, "Body")
	field = func(string) *T { return nil }
	if b == nil {
		return
	}
	b = assume(b, e.pc)
	if b.k != KIface {
		return
	}
	v, t := b.a[0], b.typ
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
		v = w.in.load(e.st, v, t)
	}
	body, _ = t.(*types.Named)
	field = func(n string) *T {
		if r := structField(v, t, n); r != nil {
			return assume(r, e.pc)
		}
		return nil
	}
	return
}

func (w *world) addNotes(rep *Report) {
	for n := range w.in.notes {
		rep.Notes = append(rep.Notes, n)
	}
	for f := range w.in.reached {
		rep.Funcs = append(rep.Funcs, f.String())
	}
}

// replyUnit: what the session loop answers and whom it hands one message to
func (p *Program) replyUnit(key int64, rep *Report) {
	w := p.newWorld()
	in := w.in
	tag := fmt.Sprintf("{message 0x%04x}", key)
	pos := ""
	if f := p.sessionLoop(); f != nil {
		pos = p.pos(f.Pos())
	}
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	st := newState()
	merge := bddVar(mkSym("automerge"))
	if !w.start(st, symOpts(mkInt(60), mkB(merge), tNil)) || !w.listen(st) {
		add("reply", "server", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	bt := p.entityType(key)
	H, H0, G := userFn("handler"), userFn("replaced"), userFn("other")
	w.api(st, w.server, w.srvT, "AddHandler", mkInt(key), H0)
	w.api(st, w.server, w.srvT, "AddHandler", mkInt(key), H)
	w.api(st, w.server, w.srvT, "AddHandler", mkInt(key^1), G)
	pf := w.packetFiles()
	if pf == nil {
		add("reply", "packets", stUnresolved, "packet files not found")
		return
	}
	rdErr, wrErr, mgErr, full, data, merged := pf.rdErr, pf.wrErr, pf.mgErr, pf.full, pf.data, pf.merged
	msg := w.received(key, bt, "m")
	var sess *T
	conn := w.connect(st, 7)
	w.script[conn] = []recvItem{{msg: msg, before: func(st *State) {
		s, ok := w.session(st, 7)
		if bddImplies(st.pc, ok) {
			sess = s
		}
	}}}
	if !w.serve(st, conn) {
		w.fail("the session loop does not end")
	}
	w.addNotes(rep)
	if !w.followed() || sess == nil {
		add("reply", "session", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	rcv := w.all("received")
	got, _ := when(rcv)
	if got == bddFalse {
		add("reply", "received", stUnresolved, "no message received")
		return
	}
	B := bddTrue
	if bt != nil {
		B = nobody("m")
	}
	prop := structField(msg, w.mt, "Header", "Property")
	isPk := implements(p, bt, "EntityPacket")
	pk := bddFalse
	if isPk && prop != nil {
		pk = bddAnd(merge, bitAtom(prop, 13))
	}
	pk = bddAnd(pk, bddNot(B))
	plain := bddAnd(bddNot(B), bddNot(pk))
	rdOK, wrOK, mgOK := isNil(rdErr), isNil(wrErr), isNil(mgErr)
	stored := bddAnd(pk, bddAnd(rdOK, wrOK))
	// ---- replies
	sends := w.all("send")
	any, twice := when(sends)
	ob := func(rule, what string, bad *BDD, m string) {
		p.condOb(add, rule, what, bddNot(bddAnd(got, bad)), m)
	}
	want := bddOr(B, pk)
	ob("reply", "answered", bddAnd(want, bddNot(any)), "a message that calls for an answer gets none")
	ob("reply", "answered once", twice, "a message is answered more than once")
	ob("reply", "not answered", bddAnd(plain, any), "a message the handlers are to answer is answered by the server")
	serial := structField(msg, w.mt, "Header", "MsgSerialNo")
	resC := func(n string) *T {
		if c := p.proto.Const("T808_0x8001Result" + n); c != nil {
			return in.constVal(c.Value)
		}
		return nil
	}
	for i, e := range sends {
		hdr, body, field := w.sent(e)
		at := ""
		if e.ins != nil {
			at = p.pos(e.ins.Pos())
		}
		chk := func(what string, got, want *T, cond *BDD, m string) {
			cond = bddAnd(cond, e.pc)
			if cond == bddFalse {
				return
			}
			if got == nil || want == nil {
				add("reply", fmt.Sprintf("%s %d", what, i), stUnresolved, "answer not understood")
				return
			}
			p.condOb(add, "reply", fmt.Sprintf("%s %d", what, i), bddNot(bddAnd(cond, bddNot(eqTerm(assume(got, cond), want)))), m+" ("+at+")")
		}
		chk("identifier", hdr("MsgID"), mkInt(0x8001), bddTrue, "the answer is not a general response")
		if body == nil || body.Obj().Name() != "T808_0x8001" {
			add("reply", fmt.Sprintf("kind %d", i), stUnresolved, "answer of another type")
			continue
		}
		if assume(e.args[0], e.pc) == conn {
			add("reply", fmt.Sprintf("connection %d", i), stProved, "")
		} else {
			add("reply", fmt.Sprintf("connection %d", i), stUnresolved, e.args[0].String())
		}
		chk("serial number", field("ReplyMsgSerialNo"), serial, bddTrue, "the answer does not carry the message's serial number")
		chk("message number", field("ReplyMsgID"), mkInt(key), bddTrue, "the answer does not name the message")
		chk("unsupported", field("Result"), resC("Unsupported"), B, "a message nobody can decode is not answered as unsupported")
		chk("failure", field("Result"), resC("Fail"), bddAnd(pk, bddOr(bddNot(rdOK), bddNot(wrOK))), "a packet that could not be kept is not answered as failed")
		chk("success", field("Result"), resC("Success"), stored, "a packet that was kept is not answered as success")
	}
	// ---- dispatch
	hs := w.all("user:handler")
	hany, htwice := when(hs)
	wantH := bddOr(plain, bddAnd(stored, bddAnd(full, mgOK)))
	ob("dispatch", "delivered", bddAnd(wantH, bddNot(hany)), "a message does not reach its handler")
	ob("dispatch", "delivered once", htwice, "a message reaches its handler twice")
	ob("dispatch", "not delivered", bddAnd(bddNot(wantH), hany), "an undecoded or incomplete message reaches the handler")
	oany, _ := when(append(w.all("user:other"), w.all("user:replaced")...))
	ob("dispatch", "right handler", oany, "a message reaches a handler that is not registered for it")
	for i, e := range hs {
		name := fmt.Sprintf("arguments %d", i)
		if len(e.args) != 2 || assume(e.args[0], e.pc) != sess {
			s := "unknown"
			if len(e.args) > 0 {
				s = e.args[0].String()
			}
			status := stUnresolved
			if len(e.args) > 0 && assume(e.args[0], e.pc).k == KPtr {
				status = stViolated
			}
			add("dispatch", name, status, "handler called with a session that is not the connection's: "+s)
			continue
		}
		mv := assume(e.args[1], e.pc)
		if mv.k != KPtr {
			add("dispatch", name, stUnresolved, "message argument "+mv.String())
			continue
		}
		v := in.load(e.st, mv, w.mt)
		h, wh := structField(v, w.mt, "Header"), structField(msg, w.mt, "Header")
		b, wb := structField(v, w.mt, "Body"), structField(msg, w.mt, "Body")
		if h == nil || b == nil {
			add("dispatch", name, stUnresolved, "message argument "+v.String())
			continue
		}
		p.condOb(add, "dispatch", name+" header", bddNot(bddAnd(e.pc, bddNot(eqDeep(assume(h, e.pc), assume(wh, e.pc))))), "the handler gets another header than was received")
		wbv, bv := assume(wb, e.pc), assume(b, e.pc)
		if wbv == bv {
			add("dispatch", name+" body", stProved, "")
			if bv.k == KIface {
				w.bodyKept(add, name, e, bv, isPk && bddImplies(e.pc, pk))
			}
		} else {
			st := stUnresolved
			if bv.k == KIface || bv.k == KNil {
				st = stViolated
			}
			add("dispatch", name+" body", st, "the handler gets another body than was received: "+bv.String())
		}
	}
	w.isolation(add)
	// ---- packets
	if isPk {
		w.packetObs(add, ob, msg, bt, pk, stored, bddAnd(stored, bddAnd(full, mgOK)), data, merged, hs)
	}
}

// bodyKept: the body's fields are what was received
func (w *world) bodyKept(add func(rule, what, status, detail string), name string, e sev, b *T, packet bool) {
	pt, ok := b.typ.(*types.Pointer)
	if !ok || b.a[0].k != KPtr {
		return
	}
	o := b.a[0].obj
	old := w.in.load(newState(), b.a[0], pt.Elem())
	cur := w.in.load(e.st, b.a[0], pt.Elem())
	s, ok := o.typ.Underlying().(*types.Struct)
	if !ok || cur.k != KStruct || old.k != KStruct {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if packet && types.IsInterface(f.Type()) {
			continue // the packet reader
		}
		g := assume(cur.a[i], e.pc)
		switch {
		case g == old.a[i] || g == assume(old.a[i], e.pc):
			add("dispatch", name+" field "+f.Name(), stProved, "")
		case resolved(g):
			add("dispatch", name+" field "+f.Name(), stViolated, "field changed before the handler sees it: "+g.String())
		default:
			add("dispatch", name+" field "+f.Name(), stUnresolved, g.String())
		}
	}
}

func (w *world) packetObs(add func(rule, what, status, detail string), ob func(rule, what string, bad *BDD, m string), msg *T, bt *types.Named, pk, stored, mergedC *BDD, data, merged *T, hs []sev) {
	p, in := w.p, w.in
	mf := p.typ(p.root, "MultipartFile")
	// what the parts are filed under
	tagf := p.methodOf(bt, "GetTag")
	var wantTag *T
	if tagf != nil {
		o := getObj(fmt.Sprintf("body%d", mkOp("received@m", mkSym("env")).id), bt)
		s := newState()
		wantTag = in.call(s, tagf, []*T{mkPtr(o)}, nil, nil, nil)
	}
	pkt := structField(msg, w.mt, "Header", "Packet")
	hf := func(n string) *T {
		if pkt == nil {
			return nil
		}
		pv := assume(pkt, pk)
		if pv.k != KPtr {
			return nil
		}
		v := in.load(newState(), pv, pv.obj.typ)
		return structField(v, pv.obj.typ, n)
	}
	same := func(what string, e sev, got, want *T, m string) {
		if got == nil || want == nil {
			add("packet", what, stUnresolved, "not understood")
			return
		}
		p.condOb(add, "packet", what, bddNot(bddAnd(e.pc, bddNot(eqTerm(assume(got, e.pc), assume(want, e.pc))))), m)
	}
	for _, n := range []string{"Write", "IsFull", "Merge"} {
		for i, e := range w.all("file" + n) {
			at := fmt.Sprintf("%s %d ", n, i)
			same(at+"terminal", e, structField(e.args[0], mf, "IccID"), structField(msg, w.mt, "Header", "IccID"), "packets are filed under another terminal")
			same(at+"message", e, structField(e.args[0], mf, "MsgID"), structField(msg, w.mt, "Header", "MsgID"), "packets are filed under another message")
			same(at+"tag", e, structField(e.args[0], mf, "Tag"), wantTag, "packets are filed under another tag")
			if n != "Write" {
				same(at+"count", e, structField(e.args[0], mf, "Sum"), hf("Sum"), "the number of packets is not the announced one")
			} else if len(e.args) == 3 {
				same(at+"number", e, e.args[1], hf("Seq"), "a packet is kept under another number")
				if assume(e.args[2], e.pc) == data {
					add("packet", at+"data", stProved, "")
				} else {
					add("packet", at+"data", stUnresolved, e.args[2].String())
				}
			}
		}
	}
	wany, wtwice := when(w.all("fileWrite"))
	ob("packet", "kept", bddAnd(stored, bddNot(wany)), "an acknowledged packet is not kept")
	ob("packet", "kept once", wtwice, "a packet is kept twice")
	ob("packet", "kept only packets", bddAnd(bddNot(pk), wany), "a message that is no packet is filed as one")
	// completeness is judged after the packet is kept
	lastWrite := -1
	for i, e := range w.evs {
		if e.name == "fileWrite" {
			lastWrite = i
		}
	}
	early := bddFalse
	for i, e := range w.evs {
		if (e.name == "fileIsFull" || e.name == "fileMerge") && i < lastWrite {
			early = bddOr(early, e.pc)
		}
	}
	if fs := w.all("fileIsFull"); len(fs) > 0 {
		many, _ := when(w.all("fileMerge"))
		ob("packet", "merged when complete", bddAnd(many, bddNot(w.complete)), "packets are merged before all are there")
	}
	ob("packet", "order", early, "packets are counted or merged before the new one is kept")
	// the merged content reaches the handler and is released afterwards
	rd := p.methodOf(bt, "GetReader")
	last := map[int]bool{}
	for i, e := range hs {
		c := bddAnd(e.pc, mergedC)
		if c == bddFalse || rd == nil {
			continue
		}
		s := e.st.clone()
		o := getObj(fmt.Sprintf("body%d", mkOp("received@m", mkSym("env")).id), bt)
		in.topCtx = fmt.Sprintf("reader%d", i)
		r := in.call(s, rd, []*T{mkPtr(o)}, nil, nil, nil)
		switch g := assume(r, c); {
		case g == merged:
			add("packet", fmt.Sprintf("content %d", i), stProved, "")
		case resolved(g):
			add("packet", fmt.Sprintf("content %d", i), stViolated, "the handler does not get the merged content: "+g.String())
		default:
			add("packet", fmt.Sprintf("content %d", i), stUnresolved, g.String())
		}
		last[i] = true
	}
	cl := bddFalse
	seen := bddFalse
	tooEarly := bddFalse
	for _, e := range w.evs {
		switch e.name {
		case "user:handler":
			tooEarly = bddOr(tooEarly, bddAnd(e.pc, cl))
			seen = bddOr(seen, e.pc)
		case "closereader":
			cl = bddOr(cl, e.pc)
		}
	}
	_ = seen
	ob("packet", "released", bddAnd(mergedC, bddNot(cl)), "the merged file is never closed")
	ob("packet", "readable", bddAnd(mergedC, tooEarly), "the merged file is closed before the handler reads it")
}

func replyJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	for _, e := range P.registry(P.proto, "entityMapper") {
		out = append(out, unitJob{args: []string{"ss", fmt.Sprintf("%04x", e.key)}})
	}
	return append(out, unitJob{args: []string{"ss", "0fff"}})
}

type packetModel struct {
	rdErr, wrErr, mgErr, data, merged *T
	full                              *BDD
}

// packetFiles models reading, storing and merging packets: each can fail
func (w *world) packetFiles() *packetModel {
	p, in := w.p, w.in
	// packets: reading, storing and merging them
	rdErr, wrErr, mgErr := mkOp("perr", mkSym("readpacket")), mkOp("perr", mkSym("writepacket")), mkOp("perr", mkSym("mergepacket"))
	full := bddVar(mkSym("complete"))
	data := seqAtom(mkSym("packetdata"))
	merged := mkOp("nonnil", mkSym("mergedreader"))
	bytesT := types.NewSlice(types.Typ[types.Byte])
	readAll := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		w.ev(st, c, "readall", c.args[0])
		return mkTuple(in.newSeqSlice(c.key(in, "data"), data, bytesT, st), rdErr), true
	}
	in.hooks["io/ioutil.ReadAll"], in.hooks["io.ReadAll"] = readAll, readAll
	mf := p.typ(p.root, "MultipartFile")
	if mf == nil {
		return nil
	}
	mfHook := func(name string, h func(in *Interp, st *State, c *callCtx) *T) {
		f := p.methodOf(mf, name)
		if f == nil {
			w.fail("packet file method %s not found", name)
			return
		}
		in.hooks[f.Object().(*types.Func).FullName()] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
			a := append([]*T{}, c.args...)
			if a[0].k == KPtr {
				a[0] = in.load(st, a[0], mf)
			}
			if len(a) > 2 {
				a[2] = in.content(st, a[2])
			}
			w.ev(st, c, "file"+name, a...)
			return h(in, st, c), true
		}
	}
	mfHook("Write", func(in *Interp, st *State, c *callCtx) *T { return wrErr })
	mfHook("IsFull", func(in *Interp, st *State, c *callCtx) *T { return mkB(full) })
	mfHook("Merge", func(in *Interp, st *State, c *callCtx) *T {
		return mkTuple(ite(isNil(mgErr), merged, tNil), mgErr)
	})
	closeHook := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		w.ev(st, c, "closereader", c.recv)
		return mkOp("perr", mkSym("closereader")), true
	}
	for _, n := range []string{"io.Closer", "io.ReadCloser"} {
		in.hooks["invoke:("+n+").Close"] = closeHook
	}
	w.complete = full
	return &packetModel{rdErr, wrErr, mgErr, data, merged, full}
}

// eqDeep: equality of values, records field by field
func eqDeep(a, b *T) *BDD {
	switch {
	case a == b:
		return bddTrue
	case a.k == KIte:
		return bddIte(a.a[0].b, eqDeep(a.a[1], b), eqDeep(a.a[2], b))
	case b.k == KIte:
		return bddIte(b.a[0].b, eqDeep(a, b.a[1]), eqDeep(a, b.a[2]))
	case a.k == KStruct && b.k == KStruct && len(a.a) == len(b.a):
		r := bddTrue
		for i := range a.a {
			r = bddAnd(r, eqDeep(a.a[i], b.a[i]))
		}
		return r
	case a.k == KPtr && b.k == KPtr:
		return bddFalse
	case a.k == KNil:
		return isNil(b)
	case b.k == KNil:
		return isNil(a)
	}
	return eqTerm(a, b)
}
