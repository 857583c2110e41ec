package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// upload: the identity of a message sent in parts
type upload struct {
	icc, msg, tag, sum int64
}

type partRun struct {
	p     *Program
	w     *world
	m     *fsModel
	st    *State
	sc    string
	add   func(rule, what, status, detail string)
	n     int
	calls int
}

func (r *partRun) cond(what string, bad *BDD, msg string) {
	r.p.condOb(r.add, "parts", what, bddNot(bad), msg)
}

func (r *partRun) value(u upload) *T {
	t := r.p.typ(r.p.root, "MultipartFile")
	v := zero(t)
	for name, x := range map[string]int64{"IccID": u.icc, "MsgID": u.msg, "Tag": u.tag, "Sum": u.sum} {
		s, ok := t.Underlying().(*types.Struct)
		i := -1
		for n := 0; ok && n < s.NumFields(); n++ {
			if s.Field(n).Name() == name {
				i = n
			}
		}
		if i < 0 {
			r.w.fail("field %s not found", name)
			return v
		}
		v = setField(v, i, mkInt(x), 0)
	}
	return v
}

func (r *partRun) api(u upload, name string, args ...*T) *T {
	t := r.p.typ(r.p.root, "MultipartFile")
	f := r.p.methodOf(t, name)
	if f == nil {
		r.w.fail("method %s not found", name)
		return nil
	}
	v := r.value(u)
	recv := v
	if _, ptr := f.Signature.Recv().Type().Underlying().(*types.Pointer); ptr {
		r.n++
		o := getObj(fmt.Sprint("upload", r.n), t)
		r.st.heap[o] = v
		recv = mkPtr(o)
	}
	return r.w.api(r.st, recv, t, name, args...)
}

func data(name string) *T { return seqAtom(mkSym("content " + name)) }

// sized: a content of known length
func sized(name string, n int) *T {
	var us []*T
	for i := 0; i < n; i++ {
		b := mkSym(fmt.Sprintf("content %s byte %d", name, i))
		b.setRange(0, true, 255, true)
		us = append(us, unit(b))
	}
	return seqCat(us...)
}

// write stores a part; the error
func (r *partRun) write(u upload, seq int64, d *T) *T {
	r.n++
	return r.api(u, "Write", mkInt(seq), r.w.in.newSeqSlice(fmt.Sprint("partdata", r.n), d, bytesType, r.st))
}

func (r *partRun) stored(u upload, seq int64, d *T) {
	e := r.write(u, seq, d)
	if e == nil {
		return
	}
	r.n++
	r.cond(fmt.Sprintf("stored %d", r.n), bddAnd(r.st.pc, bddNot(isNil(assume(e, r.st.pc)))), fmt.Sprintf("storing part %d fails though nothing failed", seq))
}

func (r *partRun) full(u upload) *BDD {
	v := r.api(u, "IsFull")
	if v == nil {
		return bddFalse
	}
	return truth(assume(v, r.st.pc))
}

func (r *partRun) isFull(u upload, want bool, why string) {
	r.n++
	f := r.full(u)
	if want {
		r.cond(fmt.Sprintf("complete %d", r.n), bddAnd(r.st.pc, bddNot(f)), "not taken for complete "+why)
	} else {
		r.cond(fmt.Sprintf("incomplete %d", r.n), bddAnd(r.st.pc, f), "taken for complete "+why)
	}
}

// merge: what the reader of the merged message gives, and the error
func (r *partRun) merge(u upload) (content *T, err *T, ok bool) {
	n0 := len(r.m.opened)
	t := r.api(u, "Merge")
	if t == nil || t.k != KTuple {
		r.w.fail("result of a merge not understood")
		return nil, nil, false
	}
	err = assume(t.a[1], r.st.pc)
	good := isNil(err)
	var res *fdesc
	content = seqEmpty
	if pc := bddAnd(r.st.pc, good); pc != bddFalse {
		v := assume(t.a[0], pc)
		s := r.st.clone()
		s.pc = pc
		res = r.m.fd(s, v)
		if v.k == KNil {
			if bddAnd(r.st.pc, bddNot(good)) != bddFalse {
				r.w.fail("whether a merge works is not understood")
				return nil, nil, false
			}
			r.add("parts", "reader", stViolated, "a merge that works gives no reader")
			return nil, nil, false
		}
		if res == nil {
			r.w.fail("reader not understood: %s", cut(v.String(), 80))
			return nil, nil, false
		}
		r.n++
		r.cond(fmt.Sprintf("reader open %d", r.n), bddAnd(pc, r.m.closed(s, res)), "the reader of the merged message is already closed")
		if res.flag&3 == 1 {
			r.add("parts", "reader", stViolated, "the merged message is not readable")
		}
		content = r.m.rest(s, res)
	}
	for _, d := range r.m.opened[n0:] {
		if d != res {
			r.n++
			r.cond(fmt.Sprintf("closed %d", r.n), bddAnd(bddAnd(r.st.pc, d.pc), bddNot(r.m.closed(r.st, d))), "a file stays open: "+d.path)
		} else {
			r.cond(fmt.Sprintf("closed %d", r.n), bddAnd(bddAnd(bddAnd(r.st.pc, bddNot(good)), d.pc), bddNot(r.m.closed(r.st, d))), "a file stays open: "+d.path)
		}
	}
	return content, err, true
}

func (r *partRun) same(what string, pc *BDD, got, want *T, msg string) {
	a, b := assume(got, pc), assume(want, pc)
	if a == b {
		r.add("parts", what, stProved, "")
		return
	}
	c := eqTerm(a, b)
	if c == bddTrue {
		r.add("parts", what, stProved, "")
		return
	}
	if pc == bddFalse {
		return
	}
	if a.k == KSeq && resolved(a) && c == bddFalse || a.k == KSeq && resolved(a) && resolved(b) && wordsDiffer(a, b) {
		if k, _ := feasible(pc); k != feasNone && resolved(mkB(pc)) {
			r.add("parts", what, stViolated, msg+": "+a.String())
			return
		}
	}
	r.add("parts", what, stUnresolved, a.String())
}

// wordsDiffer: different sequences of independent contents
func wordsDiffer(a, b *T) bool {
	word := func(t *T) ([]string, bool) {
		var out []string
		for _, g := range t.a {
			if g.isOp("unit") && g.a[0].k == KSym {
				out = append(out, g.a[0].String())
				continue
			}
			if !g.isOp("sub") || !g.a[1].isInt(0) || g.a[2] != lenOf(g.a[0]) || g.a[0].k != KSym && g.a[0].k != KOp {
				return nil, false
			}
			out = append(out, g.a[0].String())
		}
		return out, true
	}
	x, ok := word(a)
	y, ok2 := word(b)
	return ok && ok2 && strings.Join(x, "|") != strings.Join(y, "|")
}

func (r *partRun) merged(u upload, want ...*T) {
	got, err, ok := r.merge(u)
	if !ok {
		return
	}
	r.n++
	r.cond(fmt.Sprintf("merges %d", r.n), bddAnd(r.st.pc, bddNot(isNil(err))), "merging fails though nothing failed")
	r.same(fmt.Sprintf("merged %d", r.n), bddAnd(r.st.pc, isNil(err)), got, seqCat(cat(want)...), "the merged content is not that of the parts in order")
}

func cat(ts []*T) []*T {
	var out []*T
	for _, t := range ts {
		out = append(out, t.a...)
	}
	return out
}

func (p *Program) partUnit(sc string, k int64, rep *Report) {
	w := p.newWorld()
	in := w.in
	m := p.fsOf(w)
	in.follow["sort"] = true
	unrollMax = 600
	tag := fmt.Sprintf("{%s %d}", sc, k)
	pos := ""
	if f := p.methodOf(p.typ(p.root, "MultipartFile"), "Merge"); f != nil {
		pos = p.pos(f.Pos())
	}
	var obs []Ob
	add := func(rule, what, status, detail string) {
		obs = append(obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	r := &partRun{p: p, w: w, m: m, st: newState(), sc: sc, add: add}
	defer func() {
		w.addNotes(rep)
		if !w.followed() {
			add = nil
			rep.Obs = append(rep.Obs, Ob{Rule: "parts", What: "followed" + tag, Pos: pos, Status: stUnresolved, Detail: cut(strings.Join(w.unclear, "; "), 500)})
			return
		}
		rep.Obs = append(rep.Obs, obs...)
	}()
	A := upload{13812345678, 0x801, 23, k}
	switch sc {
	case "order":
		// k parts in three orders, each followed by a second upload under the same tag
		orders := [][]int64{nil, nil, nil}
		for i := int64(1); i <= k; i++ {
			orders[0] = append(orders[0], i)
			orders[1] = append([]int64{i}, orders[1]...)
			orders[2] = append(orders[2], i)
		}
		sort.Slice(orders[2], func(i, j int) bool { return (orders[2][i]*7)%(k+1) < (orders[2][j]*7)%(k+1) })
		for n, o := range orders {
			want := make([]*T, k)
			for i, s := range o {
				d := data(fmt.Sprintf("%d/%d", n, s))
				if i == 0 && k > 1 {
					// sent twice
					r.stored(A, s, data(fmt.Sprintf("%d/%d old", n, s)))
				}
				r.isFull(A, false, fmt.Sprintf("with %d of %d parts", i, k))
				r.stored(A, s, d)
				want[s-1] = d
			}
			r.isFull(A, true, "with all parts")
			r.merged(A, want...)
			r.isFull(A, false, "before the next upload under the same tag begins")
		}
	case "sizes":
		// uploads of different sizes under the same tag
		for n, l := range []int{3, 2, 5, 0, 1} {
			d1, d2 := sized(fmt.Sprint(n, "/1"), l), sized(fmt.Sprint(n, "/2"), l+1)
			r.stored(A, 1, sized(fmt.Sprint(n, "/old"), 4))
			r.stored(A, 1, d1)
			r.stored(A, 2, d2)
			r.isFull(A, true, "with all parts")
			r.merged(A, d1, d2)
		}
	case "apart":
		// uploads that differ in one respect do not mix
		B := []upload{{1381234567, 0x801, 23, k}, {138123456780, 0x801, 23, k}, {13812345678, 0x80, 23, k}, {13812345678, 0x102, 23, k}, {13812345678, 204, 23, k}, {13812345678, 20490, 23, k}, {13812345678, 49, 23, k}, {13812345678, 12049, 23, k}, {13812345678, 0x801, 2, k}, {13812345678, 0x801, 3, k}, {13812345678, 0x801, 0xffffffff, k}, {13812345678, 0x801, 0x80000017, k}, {13812345678, 0x801, 0x10017, k}, {0, 0x801, 23, k}, {13812345678 + 1<<32, 0x801, 23, k}, {13812345678, 0x801, 232, k}, {13812345678, 0x801, 0, k}}
		want := map[int][]*T{}
		for s := int64(1); s <= k; s++ {
			for i, b := range B {
				d := data(fmt.Sprintf("%d/%d", i, s))
				r.stored(b, s, d)
				want[i] = append(want[i], d)
			}
		}
		r.isFull(A, false, "with the parts of other uploads")
		var wa []*T
		for s := int64(1); s <= k; s++ {
			d := data(fmt.Sprintf("A/%d", s))
			r.stored(A, s, d)
			wa = append(wa, d)
		}
		r.isFull(A, true, "with all parts")
		r.merged(A, wa...)
		for i, b := range B {
			r.isFull(b, true, "after another upload was merged")
			r.merged(b, want[i]...)
		}
	case "range":
		// numbers that are no part of the upload
		A.sum = 2
		r.stored(A, 1, data("1"))
		r.stored(A, 0, data("0"))
		r.stored(A, 3, data("3"))
		r.stored(A, 258, data("258"))
		r.stored(A, 65535, data("65535"))
		r.isFull(A, false, "without part 2")
		r.stored(A, 2, data("2"))
		r.isFull(A, true, "with all parts")
		r.merged(A, data("1"), data("2"))
		A.sum = 0
		r.isFull(A, false, "with no parts announced")
	case "many":
		A.sum = 257
		for s := int64(2); s <= 257; s++ {
			r.stored(A, s, data(fmt.Sprint(s)))
		}
		r.isFull(A, false, "without part 1")
	case "fault":
		// the operation number k fails
		r.fault(A, int(k))
	case "crash":
		r.crash(A, int(k))
	}
}

// fault: two parts; one operation of the file system fails, everything is tried again
func (r *partRun) fault(A upload, k int) {
	A.sum = 2
	w, m := r.w, r.m
	bad := mkOp("nonnil", mkSym("ioerror"))
	m.policy = func(n int, op, path string) *T {
		if n == k {
			return bad
		}
		return tNil
	}
	d1, d2 := data("1"), data("2")
	try := func(seq int64, d *T) {
		e := r.write(A, seq, d)
		if e == nil {
			return
		}
		e = assume(e, r.st.pc)
		if e.k == KNil {
			return
		}
		if !e.isOp("nonnil") {
			w.fail("outcome of storing not known")
			return
		}
		r.isFull(A, false, "though storing a part failed")
		r.stored(A, seq, d)
	}
	try(1, d1)
	try(2, d2)
	full := r.full(A)
	if full == bddFalse && m.ops > k {
		full = r.full(A) // the check itself failed
	}
	r.cond("complete", bddAnd(r.st.pc, bddNot(full)), "not taken for complete with all parts stored")
	got, err, ok := r.merge(A)
	if !ok {
		return
	}
	if !isDefinite(err) {
		w.fail("outcome of merging not known")
		return
	}
	if err.k != KNil {
		if m.ops <= k {
			r.add("parts", "merges", stViolated, "merging fails though nothing failed")
		}
		// the last part comes again
		r.stored(A, 2, d2)
		r.isFull(A, true, "after merging failed")
		r.merged(A, d1, d2)
		return
	}
	r.same("merged despite fault", r.st.pc, got, seqCat(cat([]*T{d1, d2})...), "a merge in which an operation failed gives wrong content without an error")
}

func isDefinite(e *T) bool { return e.k == KNil || e.isOp("nonnil") }

// crash: the process ends before operation k of an upload of two parts, or in
// the middle of it; after a restart the terminal sends both again
func (r *partRun) crash(A upload, k int) {
	A.sum = 2
	d1, d2 := data("1"), data("2")
	m := r.m
	m.crash = k
	r.write(A, 1, d1)
	if r.st.pc != bddFalse {
		r.write(A, 2, d2)
	}
	if r.st.pc != bddFalse {
		r.full(A)
	}
	if r.st.pc != bddFalse {
		r.api(A, "Merge")
	}
	if m.crashed == nil {
		return
	}
	m.crash = -1
	r.w.unclear = nil
	r.st = m.crashed
	for i, s := range []int64{1, 2} {
		if f := r.full(A); f == bddTrue {
			r.merged(A, d1, d2) // what was stored before is still good
			return
		} else if f != bddFalse {
			r.w.fail("completeness not known")
			return
		}
		r.stored(A, s, []*T{d1, d2}[i])
	}
	r.isFull(A, true, "with all parts sent again")
	r.merged(A, d1, d2)
}

// deliverUnit: the session loop receives the parts of uploads; the handler gets
// each upload once, when its last part has come, with the content of all
func (p *Program) deliverUnit(sc string, rep *Report) {
	w := p.newWorld()
	in := w.in
	in.follow["sort"] = true
	unrollMax = 600
	tag := "{" + sc + "}"
	pos := ""
	if f := p.sessionLoop(); f != nil {
		pos = p.pos(f.Pos())
	}
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	const key = 0x0801
	st := newState()
	if !w.start(st, symOpts(mkInt(60), mkB(bddTrue), tNil)) || !w.listen(st) {
		add("parts", "server", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	w.api(st, w.server, w.srvT, "AddHandler", mkInt(key), userFn("handler"))
	m := p.fsOf(w)
	readFs := in.hooks["io.ReadAll"]
	contents := map[*T]*T{}
	readAll := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if d, ok := contents[assume(c.args[0], st.pc)]; ok {
			m.nfd++
			return mkTuple(in.newSeqSlice(fmt.Sprint(c.key(in, "data"), m.nfd), d, bytesType, st), tNil), true
		}
		return readFs(in, st, c)
	}
	in.hooks["io.ReadAll"], in.hooks["io/ioutil.ReadAll"] = readAll, readAll
	bt := p.entityType(key)
	if bt == nil {
		add("parts", "entities", stUnresolved, "message types not found")
		return
	}
	set := func(v *T, t types.Type, x *T, names ...string) *T {
		var rec func(v *T, t types.Type, names []string) *T
		rec = func(v *T, t types.Type, names []string) *T {
			s, ok := t.Underlying().(*types.Struct)
			if len(names) == 0 {
				return x
			}
			if !ok || v.k != KStruct {
				w.fail("field %s not found", names[0])
				return v
			}
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == names[0] {
					a := append([]*T{}, v.a...)
					a[i] = rec(a[i], s.Field(i).Type(), names[1:])
					return mkStruct(a...)
				}
			}
			w.fail("field %s not found", names[0])
			return v
		}
		return rec(v, t, names)
	}
	type part struct {
		icc, media, seq, sum int64
		d                    *T
	}
	var parts []part
	var items []recvItem
	send := func(icc, media, seq, sum int64) *T {
		n := len(parts)
		d := data(fmt.Sprintf("of message %d", n+1))
		parts = append(parts, part{icc, media, seq, sum, d})
		msg := in.fromAtom(mkOp(fmt.Sprint("received@part", n), mkSym("env")), w.mt)
		po := getObj(fmt.Sprint("packet", n), nil)
		msg = set(msg, w.mt, mkInt(icc), "Header", "IccID")
		msg = set(msg, w.mt, mkInt(key), "Header", "MsgID")
		msg = set(msg, w.mt, mkInt(1<<13|100), "Header", "Property")
		hp := structFieldType(w.mt, "Header", "Packet")
		if hp == nil {
			w.fail("packet header not found")
			return d
		}
		pt := derefT(hp)
		po.typ = pt
		pv := zero(pt)
		pv = set(pv, pt, mkInt(seq), "Seq")
		pv = set(pv, pt, mkInt(sum), "Sum")
		st.heap[po] = pv
		msg = set(msg, w.mt, mkPtr(po), "Header", "Packet")
		bo := getObj(fmt.Sprint("partbody", n), bt)
		rd := mkOp("nonnil", mkSym(fmt.Sprint("packetreader", n)))
		contents[rd] = d
		bv := in.fromAtom(mkSym(fmt.Sprint("partbody", n)), bt)
		bv = set(bv, bt, mkInt(media), "MediaID")
		bv = set(bv, bt, rd, "Packet")
		st.heap[bo] = bv
		msg = set(msg, w.mt, mkIface(types.NewPointer(bt), mkPtr(bo)), "Body")
		items = append(items, recvItem{msg: msg})
		return d
	}
	const icc = 1381234567890
	want := map[int][]*T{} // by message number
	switch sc {
	case "two":
		b, a := send(icc, 7, 2, 2), send(icc, 7, 1, 2)
		want[2] = []*T{a, b}
		c := send(icc, 7, 1, 1)
		want[3] = []*T{c}
	case "again":
		a, c := send(icc, 7, 1, 3), send(icc, 7, 3, 3)
		send(icc, 7, 3, 3)
		c = parts[2].d
		b := send(icc, 7, 2, 3)
		want[4] = []*T{a, b, c}
	case "mixed":
		a, x := send(icc, 7, 1, 2), send(icc, 70, 2, 2)
		y := send(icc, 70, 1, 2)
		want[3] = []*T{y, x}
		send(icc+1<<32, 7, 2, 2)
		b := send(icc, 7, 2, 2)
		want[5] = []*T{a, b}
	}
	conn := w.connect(st, 7)
	w.script[conn] = items
	if !w.serve(st, conn) {
		w.fail("the session loop does not end")
	}
	w.addNotes(rep)
	if !w.followed() {
		add("parts", "followed", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	r := &partRun{p: p, w: w, m: m, st: st, sc: sc, add: add}
	rd := p.methodOf(bt, "GetReader")
	step := map[int][]sev{}
	for _, e := range w.all("user:handler") {
		n := int(w.now(e.st)) - 1
		step[n] = append(step[n], e)
	}
	for n := 1; n <= len(parts); n++ {
		es := step[n]
		any, twice := when(es)
		rc := bddFalse
		for _, e := range w.all("received") {
			if e.args[1].isInt(int64(n - 1)) {
				rc = bddOr(rc, e.pc)
			}
		}
		if want[n] == nil {
			r.cond(fmt.Sprintf("nothing handed over at message %d", n), any, "the handler is called before all parts are there")
			continue
		}
		r.cond(fmt.Sprintf("handed over at message %d", n), bddAnd(rc, bddNot(any)), "the handler is not called though all parts are there")
		r.cond(fmt.Sprintf("handed over once at message %d", n), twice, "the handler is called twice for one upload")
		for i, e := range es {
			if rd == nil || len(e.args) < 2 {
				continue
			}
			s := e.st.clone()
			mv := in.load(s, assume(e.args[1], e.pc), w.mt)
			b := assume(structField(mv, w.mt, "Body"), e.pc)
			if b.k != KIface {
				add("parts", fmt.Sprintf("content at message %d", n), stUnresolved, b.String())
				continue
			}
			in.topCtx = fmt.Sprintf("reader%d.%d", n, i)
			g := in.call(s, rd, []*T{b.a[0]}, nil, nil, nil)
			d := m.fd(s, g)
			if d == nil {
				if x, ok := contents[assume(g, e.pc)]; ok {
					r.same(fmt.Sprintf("content at message %d", n), e.pc, x, seqCat(cat(want[n])...), "the handler does not get the content of all parts")
					continue
				}
				add("parts", fmt.Sprintf("content at message %d", n), stUnresolved, g.String())
				continue
			}
			r.cond(fmt.Sprintf("readable at message %d", n), bddAnd(e.pc, m.closed(s, d)), "the merged content is closed before the handler reads it")
			r.same(fmt.Sprintf("content at message %d", n), e.pc, m.rest(s, d), seqCat(cat(want[n])...), "the handler does not get the content of all parts")
		}
	}
	for _, d := range m.opened {
		r.n++
		r.cond(fmt.Sprintf("closed %d", r.n), bddAnd(bddAnd(st.pc, d.pc), bddNot(m.closed(st, d))), "a file stays open: "+d.path)
	}
}

func structFieldType(t types.Type, names ...string) types.Type {
	for _, n := range names {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				t, found = s.Field(i).Type(), true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return t
}

func partJobs(P *Program, tier string) []unitJob {
	out := []unitJob{{args: []string{"pe", "two"}}, {args: []string{"pe", "again"}}, {args: []string{"pe", "mixed"}}}
	for _, k := range []string{"1", "2", "3", "12"} {
		out = append(out, unitJob{args: []string{"pf", "order", k}})
	}
	if tier == "thorough" {
		out = append(out, unitJob{args: []string{"pf", "order", "25"}}, unitJob{args: []string{"pf", "apart", "4"}})
	}
	for _, s := range []string{"apart 1", "apart 2", "range 2", "sizes 2", "many 257"} {
		out = append(out, unitJob{args: append([]string{"pf"}, strings.Fields(s)...)})
	}
	for k := 0; k < 24; k++ {
		out = append(out, unitJob{args: []string{"pf", "fault", fmt.Sprint(k)}}, unitJob{args: []string{"pf", "crash", fmt.Sprint(k)}})
	}
	return out
}
