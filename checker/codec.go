package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------- connection codec

// newCodec builds a connection codec the way the server does
func (p *Program) newCodec(in *Interp, st *State) (*T, *types.Named) {
	pt := p.typ(p.root, "Protocol")
	ct := p.typ(p.root, "ProtocolCodec")
	if pt == nil || ct == nil {
		return nil, nil
	}
	f := p.methodOf(pt, "NewCodec")
	if f == nil {
		return nil, nil
	}
	po := getObj("protocol", pt)
	po.input = true
	recv := in.load(st, mkPtr(po), pt)
	if _, ptr := f.Signature.Recv().Type().(*types.Pointer); ptr {
		recv = mkPtr(po)
	}
	rw := mkOp("nonnil", mkSym("connection"))
	r := in.call(st, f, []*T{recv, rw}, nil, nil, nil)
	c := in.component(r, 0, nil)
	if c != nil && c.k == KIface && c.a[0].k == KPtr {
		if n, ok := derefT(c.typ).(*types.Named); ok {
			return c.a[0], n
		}
	}
	return nil, ct
}

type rxPart struct {
	kind byte // g: good frame, b: bad frame, x: garbage, t: unfinished frame
	n    int
	seq  *T
}

// streamUnit: a byte stream of frames and garbage, delivered in reads of the
// given size, gives the good frames in order, once each
func (p *Program) streamUnit(spec, cuts string, rep *Report) {
	unrollMax = 1200
	tag := "{" + spec + " in reads of " + cuts + "}"
	ct := p.typ(p.root, "ProtocolCodec")
	rcv := p.methodOf(ct, "Receive")
	pos := p.pos(rcv.Pos())
	rep.Funcs = append(rep.Funcs, rcv.String())
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	in := newInterp(p)
	st := newState()
	codec, _ := p.newCodec(in, st)
	if codec == nil {
		add("stream", "codec", stUnresolved, "constructor not understood")
		return
	}
	mt := p.typ(p.proto, "Message")
	var parts []*rxPart
	var all []*T
	nb := 0
	plain := func() *T {
		b := in.fromAtom(mkSym(fmt.Sprintf("s%d", nb)), types.Typ[types.Byte])
		nb++
		st.pc = bddAnd(st.pc, bddNot(eqTerm(b, mkInt(0x7e))))
		return unit(b)
	}
	for _, f := range strings.Split(spec, ",") {
		q := &rxPart{kind: f[0]}
		fmt.Sscan(f[1:], &q.n)
		var us []*T
		if q.kind != 'x' {
			us = append(us, unit(mkInt(0x7e)))
		}
		for i := 0; i < q.n; i++ {
			us = append(us, plain())
		}
		if q.kind == 'g' || q.kind == 'b' {
			us = append(us, unit(mkInt(0x7e)))
		}
		q.seq = seqCat(us...)
		all = append(all, us...)
		parts = append(parts, q)
	}
	var sizes []int64
	for _, c := range strings.Split(cuts, ",") {
		var n int64
		fmt.Sscan(c, &n)
		sizes = append(sizes, n)
	}
	// the connection: what is left of the stream, and how many reads were made
	so := getObj("stream", nil)
	total := int64(len(all))
	st.heap[so] = mkStruct(mkInt(0), mkInt(0))
	unclear := ""
	read := func(in *Interp, st *State, buf *T, min int64) (*T, *T, bool) {
		s := assume(st.heap[so], st.pc)
		if s.k != KStruct || s.a[0].k != KConst || s.a[1].k != KConst {
			unclear = "reads depend on conditions not decided"
			return nil, nil, false
		}
		ln := assume(in.sliceLen(buf), st.pc)
		if ln.k != KConst {
			unclear = "read into a buffer of unknown size"
			return nil, nil, false
		}
		if buf.k != KSlice {
			unclear = "read into an unknown buffer"
			return nil, nil, false
		}
		off, k := s.a[0].i, s.a[1].i
		got := int64(0)
		for {
			n := sizes[int(k)%len(sizes)]
			k++
			if n > total-off {
				n = total - off
			}
			if n > ln.i-got {
				n = ln.i - got
			}
			if n == 0 {
				break
			}
			dst := mkSlice(buf.a[0], addc(buf.a[1], got), mkInt(n), mkInt(n))
			in.copySlice(nil, st, nil, []*T{dst, seqCat(all[off : off+n]...)})
			off += n
			got += n
			if got >= min {
				break
			}
		}
		st.heap[so] = mkStruct(mkInt(off), mkInt(k))
		if got == 0 && ln.i > 0 {
			return mkInt(0), errSym("io.EOF"), true
		}
		if got < min {
			return mkInt(got), errSym("io.ErrUnexpectedEOF"), true
		}
		return mkInt(got), tNil, true
	}
	in.hooks["invoke:(io.Reader).Read"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		n, e, ok := read(in, st, c.args[0], 0)
		if !ok {
			return nil, false
		}
		return mkTuple(n, e), true
	}
	full := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		min := int64(-1)
		if len(c.args) == 3 && c.args[2].k == KConst {
			min = c.args[2].i
		} else if n := in.sliceLen(c.args[1]); len(c.args) == 2 && n.k == KConst {
			min = n.i
		}
		if min < 0 {
			return nil, false
		}
		n, e, ok := read(in, st, c.args[1], min)
		if !ok {
			return nil, false
		}
		return mkTuple(n, e), true
	}
	in.hooks["io.ReadAtLeast"], in.hooks["io.ReadFull"] = full, full
	bad := errSym("badframe")
	in.hooks[fnName(p.methodOf(mt, "Decode"))] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		data := assume(in.content(st, c.args[1]), st.pc)
		for i, q := range parts {
			if q.seq == data && q.kind == 'g' {
				in.store(st, c.args[0], in.fromAtom(mkSym(fmt.Sprintf("message%d", i)), mt), nil)
				return tNil, true
			}
		}
		for _, q := range parts {
			if q.seq == data && q.kind == 'b' {
				return bad, true
			}
		}
		in.note("decoder called on %v", cut(data.String(), 200))
		return bad, true
	}
	var want []string
	for i, q := range parts {
		if q.kind == 'g' {
			want = append(want, fmt.Sprintf("message%d", i))
		}
	}
	var got []string
	errs := []int{0} // errors before each message, and after the last
	eof := false
	for calls := 0; calls < int(total)+5 && !eof; calls++ {
		in.topCtx = fmt.Sprintf("receive%d", calls)
		r := in.call(st, rcv, []*T{codec}, nil, nil, nil)
		if st.pc == bddFalse {
			add("stream", "receive", stViolated, "receiving never returns")
			return
		}
		if unclear != "" {
			add("stream", "receive", stUnresolved, unclear)
			return
		}
		m, e := assume(in.component(r, 0, nil), st.pc), assume(in.component(r, 1, nil), st.pc)
		switch {
		case e.k == KNil:
			w := ""
			if m.k == KIface {
				v := m.a[0]
				if v.k == KPtr {
					v = in.load(st, v, mt)
				}
				for i := range parts {
					if n := fmt.Sprintf("message%d", i); v == in.fromAtom(mkSym(n), mt) {
						w = n
					}
				}
			}
			if m.k == KNil {
				add("stream", "message or error", stViolated, "receiving gives neither a message nor an error")
				return
			}
			if w == "" {
				add("stream", "receive", stUnresolved, "result not understood: "+m.String())
				return
			}
			got = append(got, w)
			errs = append(errs, 0)
		case e == errSym("io.EOF") || e == errSym("io.ErrUnexpectedEOF"):
			eof = true
		case isNil(e) == bddFalse:
			errs[len(errs)-1]++
		default:
			add("stream", "receive", stUnresolved, "error not understood: "+e.String())
			return
		}
	}
	detail := ""
	for n := range in.notes {
		if strings.HasPrefix(n, "decoder called") {
			detail = "; " + n
		}
	}
	name := func(l []string) string {
		var o []string
		for _, x := range l {
			var i int
			fmt.Sscanf(x, "message%d", &i)
			o = append(o, fmt.Sprintf("#%d", i+1))
		}
		return "[" + strings.Join(o, " ") + "]"
	}
	switch {
	case name(got) == name(want):
		add("stream", "delivered", stProved, "")
		bads := make([]int, len(errs))
		for k, i := 0, 0; i < len(parts); i++ {
			switch parts[i].kind {
			case 'g':
				k++
			case 'b':
				bads[k]++
			}
		}
		for k, n := range bads {
			switch {
			case n == 0:
			case errs[k] >= n:
				add("stream", fmt.Sprintf("refused %d", k), stProved, "")
			default:
				add("stream", fmt.Sprintf("refused %d", k), stViolated, "a frame the decoder refuses produces no error")
			}
		}
	default:
		add("stream", "delivered", stViolated, fmt.Sprintf("frames delivered %s, sent %s%s", name(got), name(want), detail))
	}
	if eof {
		add("stream", "ends", stProved, "")
	} else {
		add("stream", "ends", stViolated, "the end of the stream is never reported")
	}
	for _, o := range p.obOf(in, "no-panic", "receive"+tag) {
		if o.Status == stViolated {
			o.Rule = "stream"
			rep.Obs = append(rep.Obs, o)
		}
	}
}

// sendUnit: what is sent is one whole encoded frame, enciphered exactly when a
// key is set and the message asks for it, and failures are reported
func (p *Program) sendUnit(key string, rep *Report) {
	freeMode = true
	tag := "{no key set}"
	if key == "key" {
		tag = "{key set}"
	}
	ct := p.typ(p.root, "ProtocolCodec")
	snd := p.methodOf(ct, "Send")
	pos := p.pos(snd.Pos())
	rep.Funcs = append(rep.Funcs, snd.String())
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	in := newInterp(p)
	st := newState()
	codec, _ := p.newCodec(in, st)
	if codec == nil {
		add("send", "codec", stUnresolved, "constructor not understood")
		return
	}
	mt := p.typ(p.proto, "Message")
	var keyPtr *T
	if key == "key" {
		f := p.methodOf(ct, "SetPublicKey")
		ko := getObj("publickey", derefT(f.Params[1].Type()))
		ko.input = true
		keyPtr = mkPtr(ko)
		in.call(st, f, []*T{codec, keyPtr}, nil, nil, nil)
	}
	type ev struct {
		pc  *BDD
		seq *T
	}
	var encs, writes []ev
	clear, secret := seqAtom(mkSym("clearframe")), seqAtom(mkSym("cipherframe"))
	encErr := mkOp("perr", mkSym("encode"))
	wErr := mkOp("perr", mkSym("write"))
	bytesT := types.NewSlice(types.Typ[types.Byte])
	in.hooks[fnName(p.methodOf(mt, "Encode"))] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		d := clear
		if k := c.args[1]; k.k != KNil {
			n := assume(in.sliceLen(k), st.pc)
			if n.k != KConst {
				return nil, false
			}
			if n.i > 0 {
				x := assume(seqIdx(in.content(st, k), mkInt(0), st.pc), st.pc)
				switch {
				case keyPtr != nil && x == keyPtr:
					d = secret
				case x.k == KNil:
				default:
					in.note("key %v", x)
					return nil, false
				}
			}
		}
		encs = append(encs, ev{st.pc, d})
		nilc := isNil(encErr)
		return mkTuple(ite(nilc, in.newSeqSlice(in.freshKey(c.fr, c.ins, fmt.Sprint("frame", d.id)), d, bytesT, st), tNil), encErr), true
	}
	in.hooks["invoke:(io.Writer).Write"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		writes = append(writes, ev{st.pc, assume(in.content(st, c.args[0]), st.pc)})
		n := mkOp("call:written", mkSym("n"))
		n.setRange(0, true, 1<<30, true)
		return mkTuple(n, wErr), true
	}
	msg := in.fromAtom(mkSym("m"), mt)
	var prop *T
	ms := mt.Underlying().(*types.Struct)
	for i := 0; i < ms.NumFields(); i++ {
		if ms.Field(i).Name() == "Header" {
			hs := ms.Field(i).Type().Underlying().(*types.Struct)
			for j := 0; j < hs.NumFields(); j++ {
				if hs.Field(j).Name() == "Property" {
					prop = msg.a[i].a[j]
				}
			}
		}
	}
	before := st.clone()
	err := in.call(st, snd, []*T{codec, mkIface(mt, msg)}, nil, nil, nil)
	if st.pc == bddFalse || err == nil {
		add("send", "returns", stUnresolved, "sending not understood")
		return
	}
	pc := st.pc
	for n := range in.notes {
		rep.Notes = append(rep.Notes, n)
	}
	if len(encs) == 0 {
		add("send", "encoded", stUnresolved, "no call of the frame encoder seen")
		return
	}
	encOK, wOK := isNil(encErr), isNil(wErr)
	ok := isNil(assume(err, pc))
	any := bddFalse
	twice := bddFalse
	for _, w := range writes {
		twice = bddOr(twice, bddAnd(any, w.pc))
		any = bddOr(any, w.pc)
	}
	p.condOb(add, "send", "written", bddNot(bddAnd(bddAnd(pc, encOK), bddNot(any))), "an encoded message is not written")
	p.condOb(add, "send", "written once", bddNot(twice), "a message is written twice")
	p.condOb(add, "send", "encode failure", bddNot(bddAnd(any, bddNot(encOK))), "something is written although encoding failed")
	p.condOb(add, "send", "encode failure reported", bddNot(bddAnd(bddAnd(pc, bddNot(encOK)), ok)), "a failure to encode is not reported")
	p.condOb(add, "send", "write failure reported", bddNot(bddAnd(bddAnd(any, bddNot(wOK)), ok)), "a failure to write is not reported")
	p.condOb(add, "send", "success reported", bddNot(bddAnd(bddAnd(bddAnd(any, wOK), encOK), bddNot(ok))), "a written message is reported as failed")
	want := bddFalse
	if keyPtr != nil && prop != nil {
		want = bitAtom(prop, 10)
	}
	for _, w := range writes {
		q := bddAnd(w.pc, encOK)
		for _, x := range []struct {
			c    *BDD
			seq  *T
			name string
		}{{bddAnd(q, want), secret, "enciphered when asked for"}, {bddAnd(q, bddNot(want)), clear, "in the clear otherwise"}} {
			if x.c == bddFalse {
				continue
			}
			g := assume(w.seq, x.c)
			switch {
			case g == x.seq:
				add("send", x.name, stProved, "")
			case g == clear || g == secret:
				add("send", x.name, stViolated, "the wrong form is written")
			case !resolved(g) || len(g.a) == 1 && g.a[0].isOp("ites"):
				add("send", x.name, stUnresolved, g.String())
			default:
				add("send", x.name, stViolated, "what is written is not the encoded frame: "+g.String())
			}
		}
	}
	// something that is no message
	writes = nil
	in.topCtx = "other"
	st = before
	err = in.call(st, snd, []*T{codec, mkIface(types.Typ[types.Int], mkInt(1))}, nil, nil, nil)
	bad := bddAnd(st.pc, isNil(err))
	for _, w := range writes {
		bad = bddOr(bad, w.pc)
	}
	p.condOb(add, "send", "other values", bddNot(bad), "a value that is no message is sent or accepted")
}

func sdJobs(P *Program, tier string) []unitJob {
	return []unitJob{{args: []string{"sd", "nokey"}}, {args: []string{"sd", "key"}}}
}

// rxJobs: streams of frames, bad frames and garbage under many read sizes
func rxJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	add := func(a ...string) { out = append(out, unitJob{args: append([]string{"rx"}, a...)}) }
	cuts := []string{"1", "2", "3", "4", "5", "7", "128", "1,3,2", "4,1"}
	if tier == "thorough" {
		cuts = append(cuts, "6", "8", "9", "11", "2,5", "5,2,1", "3,1,1,6", "7,1", "64")
	}
	for _, s := range []string{"g3", "g2,g3", "g1,g1,g1", "g3,x2,g4", "x3,g2", "g2,b3,g2", "b2,b1,g4", "g2,t3", "b4,x1,g2,g2", "x1,x0,g2,b0,g3", "g0,g3"} {
		for _, c := range cuts {
			add(s, c)
		}
	}
	for _, s := range []string{"g124,g3", "g126,g2", "g127,g2", "g130,g3", "g200,x130,g5", "x128,g3", "g300,g254,g1"} {
		for _, c := range []string{"128", "127", "64", "129,1", "1000"} {
			add(s, c)
		}
	}
	return out
}
