package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- frames

// A frame case: how many digits the terminal number has, whether the message
// is part of several packets, which body it carries, and which of its bytes
// are special (0x7e, 0x7d); every other byte is any ordinary byte.
type frameCase struct {
	packet  bool
	body    string // "", or the key of a registered message
	length  int64  // of the body's raw data
	special map[string]int64
	free    map[string]bool
}

func (c frameCase) String() string {
	s := "no body"
	if c.body != "" {
		s = "body 0x" + c.body
	}
	if c.packet {
		s += ", packet"
	}
	if c.length > 0 {
		s += fmt.Sprintf(", %d bytes of data", c.length)
	}
	for _, k := range sortedKeys(c.free) {
		s += ", any " + k
	}
	for _, k := range sortedKeysI(c.special) {
		s += fmt.Sprintf(", %s=%02x", k, c.special[k])
	}
	return s
}

func sortedKeysI(m map[string]int64) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

func parseFrameCase(s string) frameCase {
	c := frameCase{special: map[string]int64{}, free: map[string]bool{}}
	for _, f := range strings.Split(s, ",") {
		switch {
		case f == "pkt":
			c.packet = true
		case strings.HasPrefix(f, "b") && !strings.Contains(f, "="):
			c.body = f[1:]
		case strings.Contains(f, "="):
			x := strings.SplitN(f, "=", 2)
			if x[0] == "len" {
				fmt.Sscan(x[1], &c.length)
				continue
			}
			if x[1] == "*" {
				c.free[x[0]] = true
				continue
			}
			var v int64
			fmt.Sscanf(x[1], "%x", &v)
			c.special[x[0]] = v
		}
	}
	return c
}

// afterWire, when set, judges what was encoded in place of decoding it
var afterWire func(in *Interp, ost *State, orig, wire *T, pc *BDD, tag, pos string)

func (p *Program) frameUnit(cs string, rep *Report) {
	rtMode = true
	fc := parseFrameCase(cs)
	if unrollMax = 60 + 2*fc.length; fc.length > 2000 {
		unrollMax = 0
	}
	mt := p.typ(p.proto, "Message")
	encf, decf := p.methodOf(mt, "Encode"), p.methodOf(mt, "Decode")
	rep.Funcs = append(rep.Funcs, encf.String(), decf.String())
	pos := p.pos(decf.Pos())
	tag := "{" + fc.String() + "}"
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	in := newInterp(p)
	p.resolveRegistry(in)
	in.rtName = "Message"
	st := newState()
	nconst := int64(0)
	mkByte := func(name string) *T {
		if v, ok := fc.special[name]; ok {
			return mkInt(v)
		}
		if !fc.free[name] {
			nconst++
			return mkInt(0x10 + 0x0b*nconst%0x60)
		}
		b := freeByte(name)
		st.pc = bddAnd(st.pc, bddNot(eqTerm(b, mkInt(0x7e))))
		st.pc = bddAnd(st.pc, bddNot(eqTerm(b, mkInt(0x7d))))
		return b
	}
	word := func(name string) *T {
		return bitOp('|', shl(mkByte(name+".hi"), 8, 16), mkByte(name+".lo"), 16)
	}
	ms := mt.Underlying().(*types.Struct)
	m := append([]*T(nil), zero(mt).a...)
	var hdr *T
	var hs *types.Struct
	var icc, oprop *T
	for i := 0; i < ms.NumFields(); i++ {
		switch ms.Field(i).Name() {
		case "Header":
			hs = ms.Field(i).Type().Underlying().(*types.Struct)
			h := make([]*T, hs.NumFields())
			for j := range h {
				switch hs.Field(j).Name() {
				case "MsgID":
					h[j] = word("id")
				case "Property":
					oprop = mkInt(0)
					if v, ok := fc.special["property"]; ok {
						oprop = mkInt(v)
					}
					if fc.free["property"] {
						oprop = in.fromAtom(mkSym("property"), hs.Field(j).Type())
					}
					h[j] = oprop
				case "IccID":
					icc = mkInt(13912345678)
					if fc.free["icc"] {
						icc = in.fromAtom(mkSym("icc"), hs.Field(j).Type())
					}
					h[j] = icc
				case "MsgSerialNo":
					h[j] = word("serial")
				case "Packet":
					h[j] = tNil
					if fc.packet {
						po := getObj("packet", derefT(hs.Field(j).Type()))
						ps := po.typ.Underlying().(*types.Struct)
						pf := make([]*T, ps.NumFields())
						for k := range pf {
							pf[k] = word("packet." + ps.Field(k).Name())
						}
						st.heap[po] = mkStruct(pf...)
						h[j] = mkPtr(po)
					}
				default:
					h[j] = in.fromAtom(mkSym("header."+hs.Field(j).Name()), hs.Field(j).Type())
				}
			}
			hdr = mkStruct(h...)
			m[i] = hdr
		case "Body":
			m[i] = tNil
			if fc.body != "" {
				var key int64
				fmt.Sscanf(fc.body, "%x", &key)
				for _, e := range p.registry(p.proto, "entityMapper") {
					if e.key == key {
						bo := getObj("body", e.typ)
						bo.input = true
						bs := e.typ.Underlying().(*types.Struct)
						bf := make([]*T, bs.NumFields())
						for k := range bf {
							if sl, ok := bs.Field(k).Type().Underlying().(*types.Slice); ok && sizeOfInt(sl.Elem()) == 8 {
								var us []*T
								for n := int64(0); n < fc.length && fc.length <= 2000; n++ {
									us = append(us, unit(mkByte(fmt.Sprintf("body.%s.%d", bs.Field(k).Name(), n))))
								}
								do := getObj("bodydata", bs.Field(k).Type())
								st.heap[do] = seqCat(us...)
								if fc.length > 2000 {
									fixedLen[mkSym("bigdata")] = fc.length
									st.heap[do] = seqAtom(mkSym("bigdata"))
								}
								bf[k] = mkSlice(mkPtr(do), mkInt(0), mkInt(fc.length), mkInt(fc.length))
								continue
							}
							switch sizeOfInt(bs.Field(k).Type()) {
							case 8:
								bf[k] = mkByte("body." + bs.Field(k).Name())
							case 16:
								bf[k] = word("body." + bs.Field(k).Name())
							default:
								bf[k] = in.fromAtom(mkSym("body."+bs.Field(k).Name()), bs.Field(k).Type())
							}
						}
						st.heap[bo] = mkStruct(bf...)
						m[i] = mkIface(types.NewPointer(e.typ), mkPtr(bo))
					}
				}
			}
		}
	}
	// the property word as the caller left it, without stale packet flag
	if oprop.k != KConst {
		st.pc = bddAnd(st.pc, bddNot(bitAtom(oprop, 13)))
	}
	mo := getObj("message", mt)
	st.heap[mo] = mkStruct(m...)
	ost := st.clone()
	r := in.call(st, encf, []*T{mkPtr(mo), tNil}, nil, nil, nil)
	ok := isNil(in.component(r, 1, nil))
	if fc.length >= 1023 {
		p.condOb(add, "frame", "too long", bddNot(bddAnd(st.pc, ok)), "a body longer than the length field can say is sent")
		return
	}
	if bad := bddAnd(st.pc, bddNot(ok)); bad != bddFalse {
		p.condOb(add, "frame", "encodes", bddNot(bad), "a message within the limits is refused")
	} else {
		add("frame", "encodes", stProved, "")
	}
	st.pc = bddAnd(st.pc, ok)
	if st.pc == bddFalse {
		return
	}
	wire := assume(in.content(st, in.component(r, 0, nil)), st.pc)
	frameWireOf = wire
	if afterWire != nil {
		afterWire(in, ost, mkPtr(mo), wire, st.pc, tag, p.pos(encf.Pos()))
		return
	}
	est := st.clone()
	var run func(pc *BDD, depth int)
	run = func(pc *BDD, depth int) {
		w := assume(wire, pc)
		for _, s := range w.a {
			if s.isOp("ites") && depth < 6 {
				g := s.a[0].b
				for _, v := range []*BDD{g, bddNot(g)} {
					if q := bddAnd(pc, v); q != bddFalse {
						run(q, depth+1)
					}
				}
				return
			}
		}
		st := est.clone()
		st.pc = pc
		p.frameBack(in, st, ost, mt, decf, mo, w, fc, oprop, tag, pos, rep, add)
	}
	run(st.pc, 0)
}

// condOb decides whether a condition always holds
func (p *Program) condOb(add func(rule, what, status, detail string), rule, what string, b *BDD, msg string) {
	if os.Getenv("GSA_DEBUG2") != "" {
		fmt.Fprintln(os.Stderr, what, mkB(b))
	}
	switch {
	case b == bddTrue:
		add(rule, what, stProved, "")
	case b == bddFalse:
		add(rule, what, stViolated, msg+": always")
	case !resolved(mkB(b)):
		add(rule, what, stUnresolved, "depends on "+unresolvedAtom(mkB(b)))
	default:
		if k, w := feasible(bddNot(b)); k == feasNone {
			add(rule, what, stProved, "")
			return
		} else if k == feasWitness {
			add(rule, what, stViolated, msg+": "+w)
			return
		}
		if k, w := refuteCond(b, bddTrue); k == refWitness {
			add(rule, what, stViolated, msg+": "+w)
		} else {
			add(rule, what, stUnresolved, w)
		}
	}
}

// frameBack decodes the encoded frame and compares
func (p *Program) frameBack(in *Interp, st, ost *State, mt *types.Named, decf *ssa.Function, mo *Obj, wire *T, fc frameCase, oprop *T, tag, pos string, rep *Report, add func(rule, what, status, detail string)) {
	// no delimiter inside the frame
	inner := true
	for i, s := range wire.a {
		e := bddFalse
		if s.isOp("unit") {
			e = eqTerm(s.a[0], mkInt(0x7e))
		} else {
			inner = false
		}
		if i == 0 || i == len(wire.a)-1 {
			if !bddImplies(st.pc, e) {
				p.condOb(add, "delimited", "ends", bddNot(bddAnd(st.pc, bddNot(e))), "frame does not start and end with the delimiter")
			}
		} else if x := bddAnd(st.pc, e); x != bddFalse {
			p.condOb(add, "delimited", "inside", bddNot(x), "delimiter byte inside the frame")
		}
	}
	if inner {
		add("delimited", "frame", stProved, "")
	}
	d := getObj("decodedmessage", mt)
	st.heap[d] = zero(mt)
	wo := getObj("wiremessage", types.NewSlice(types.Typ[types.Byte]))
	st.heap[wo] = wire
	err := in.call(st, decf, []*T{mkPtr(d), mkSlice(mkPtr(wo), mkInt(0), seqLen(wire), seqLen(wire)), tNil}, nil, nil, nil)
	okc := isNil(err)
	p.condOb(add, "frame", "accepted", bddNot(bddAnd(st.pc, bddNot(okc))), "the decoder refuses the encoder's frame")
	pc := bddAnd(st.pc, okc)
	if pc == bddFalse {
		return
	}
	ms := mt.Underlying().(*types.Struct)
	c := &cmp{r: &rtResult{in: in, ost: ost, st: st, wire: wire, pc: pc, named: mt}, st: st, pos: pos, dom: map[string]bool{}, geo: map[string]string{}}
	ov, dv := ost.heap[mo], assume(st.heap[d], pc)
	var blen int64
	for i := 0; i < ms.NumFields(); i++ {
		if ms.Field(i).Name() != "Body" {
			continue
		}
		o, q := ov.a[i], dv.a[i]
		if o.k == KNil {
			continue // an empty body decodes by message type
		}
		q = assume(q, pc)
		if q.k != KIface || q.a[0].k != KPtr {
			if resolved(q) && q.k == KNil {
				add("frame", "Body", stViolated, "the body does not come back")
			} else {
				add("frame", "Body", stUnresolved, fmt.Sprint(q))
			}
			continue
		}
		if !types.Identical(q.typ, o.typ) {
			add("frame", "Body", stViolated, "the body comes back as "+types.TypeString(q.typ, shortQual))
			continue
		}
		c.eq("Body", derefT(o.typ), ost.heap[o.a[0].obj], st.heap[q.a[0].obj], pc)
		blen = -1
		if r := in.call(ost.clone(), p.methodOf(derefT(o.typ).(*types.Named), "Encode"), []*T{o.a[0]}, nil, nil, nil); r != nil {
			if n := in.sliceLen(in.component(r, 0, nil)); n.k == KConst {
				blen = n.i
			}
		}
	}
	for i := 0; i < ms.NumFields(); i++ {
		if ms.Field(i).Name() != "Header" {
			continue
		}
		hs := ms.Field(i).Type().Underlying().(*types.Struct)
		for j := 0; j < hs.NumFields(); j++ {
			f := hs.Field(j)
			o, q := ov.a[i].a[j], dv.a[i].a[j]
			switch f.Name() {
			case "MsgID":
				if fc.body != "" {
					var key int64
					fmt.Sscanf(fc.body, "%x", &key)
					o = mkInt(key)
				}
			case "Property":
				if blen < 0 {
					add("frame", "Header.Property", stUnresolved, "body length unknown")
					continue
				}
				flags := int64(0)
				if fc.packet {
					flags = 1 << 13
				}
				o = bitOp('|', bitOp('&', oprop, mkInt(0xd800), 16), mkInt(flags|blen), 16)
			}
			c.eq("Header."+f.Name(), f.Type(), o, q, pc)
		}
	}
	for _, o := range c.obs {
		o.Rule = "frame"
		o.What += tag
		rep.Obs = append(rep.Obs, o)
	}
}

func sizeOfInt(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	}
	return 0
}

// headerUnit: Header.Encode then Header.Decode for terminal numbers of d digits
func (p *Program) headerUnit(d int64, packet bool, rep *Report) {
	rtMode = true
	unrollMax = 16
	ht := p.typ(p.proto, "Header")
	encf, decf := p.methodOf(ht, "Encode"), p.methodOf(ht, "Decode")
	rep.Funcs = append(rep.Funcs, encf.String(), decf.String())
	pos := p.pos(decf.Pos())
	tag := fmt.Sprintf("{%d-digit terminal number", d)
	if packet {
		tag += ", packet"
	}
	tag += "}"
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	in := newInterp(p)
	in.rtName = "Header"
	st := newState()
	hs := ht.Underlying().(*types.Struct)
	h := make([]*T, hs.NumFields())
	var prop *T
	for j := range h {
		h[j] = in.fromAtom(mkSym("header."+hs.Field(j).Name()), hs.Field(j).Type())
		switch hs.Field(j).Name() {
		case "IccID":
			lo := int64(0)
			if d > 1 {
				lo = pow10(int(d - 1))
			}
			h[j].setRange(lo, true, pow10(int(d))-1, true)
			fixedLen[mkOp("decimal", h[j])] = d
		case "Property":
			prop = h[j]
		case "Packet":
			h[j] = tNil
			if packet {
				po := getObj("packet", derefT(hs.Field(j).Type()))
				st.heap[po] = in.fromAtom(mkSym("packet"), po.typ)
				h[j] = mkPtr(po)
			}
		}
	}
	ho := getObj("header", ht)
	st.heap[ho] = mkStruct(h...)
	ost := st.clone()
	r := in.call(st, encf, []*T{mkPtr(ho)}, nil, nil, nil)
	ok := isNil(in.component(r, 1, nil))
	// a packet flag without packet information is refused
	stale := bddFalse
	if !packet {
		stale = bitAtom(prop, 13)
	}
	p.condOb(add, "header", "encodes", bddNot(bddAnd(bddAnd(st.pc, bddNot(stale)), bddNot(ok))), "a header within the limits is refused")
	p.condOb(add, "header", "packet flag without packet information", bddNot(bddAnd(bddAnd(st.pc, stale), ok)), "is encoded")
	st.pc = bddAnd(st.pc, bddAnd(ok, bddNot(stale)))
	if st.pc == bddFalse {
		return
	}
	wire := assume(in.content(st, in.component(r, 0, nil)), st.pc)
	if afterWire != nil {
		afterWire(in, ost, mkPtr(ho), wire, st.pc, tag, p.pos(encf.Pos()))
		return
	}
	want := int64(12)
	if packet {
		want = 16
	}
	if n := seqLen(wire); n.isInt(want) {
		add("header", "size", stProved, "")
	} else if n.k == KConst {
		add("header", "size", stViolated, fmt.Sprintf("%d bytes written, the protocol says %d", n.i, want))
	} else {
		add("header", "size", stUnresolved, n.String())
	}
	// rest of the frame behind the header
	wire = seqCat(wire, seqAtom(mkSym("rest")))
	do := getObj("decodedheader", ht)
	st.heap[do] = zero(ht)
	wo := getObj("wireheader", types.NewSlice(types.Typ[types.Byte]))
	st.heap[wo] = wire
	err := in.call(st, decf, []*T{mkPtr(do), mkSlice(mkPtr(wo), mkInt(0), seqLen(wire), seqLen(wire))}, nil, nil, nil)
	okc := isNil(err)
	p.condOb(add, "header", "accepted", bddNot(bddAnd(st.pc, bddNot(okc))), "the decoder refuses the encoder's header")
	pc := bddAnd(st.pc, okc)
	if pc == bddFalse {
		return
	}
	dv := assume(st.heap[do], pc)
	c := &cmp{r: &rtResult{in: in, ost: ost, st: st, wire: wire, pc: pc, named: ht}, st: st, pos: pos, dom: map[string]bool{}, geo: map[string]string{}}
	for j := range h {
		f := hs.Field(j)
		o := h[j]
		if f.Name() == "Property" {
			o = assume(o, pc)
			if packet {
				o = bitOp('|', h[j], mkInt(1<<13), 16)
			}
		}
		c.eq(f.Name(), f.Type(), o, dv.a[j], pc)
	}
	for _, o := range c.obs {
		o.Rule = "header"
		o.What += tag
		rep.Obs = append(rep.Obs, o)
	}
}

// corruptUnit: in a valid frame one byte is replaced by any other ordinary
// byte; the decoder must refuse the result
func (p *Program) corruptUnit(cs string, rep *Report) {
	rtMode = true
	fc := parseFrameCase(cs)
	var pre Report
	w := p.frameWire(cs, &pre)
	mt := p.typ(p.proto, "Message")
	decf := p.methodOf(mt, "Decode")
	rep.Funcs = append(rep.Funcs, decf.String())
	pos := p.pos(decf.Pos())
	tag := "{" + fc.String() + "}"
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	if w == nil {
		add("refuses", "frame", stUnresolved, "no constant frame")
		return
	}
	n := len(w.a)
	for i, s := range w.a {
		if !s.isOp("unit") || s.a[0].k != KConst {
			add("refuses", "frame", stUnresolved, "no constant frame")
			return
		}
		_ = i
	}
	at := func(i int) int64 { return w.a[i].a[0].i }
	for i := 0; i < n; i++ {
		if at(i) == 0x7d {
			continue
		}
		in := newInterp(p)
		p.resolveRegistry(in)
		st := newState()
		x := freeByte(fmt.Sprintf("x%d", i))
		us := append([]*T(nil), w.a...)
		us[i] = unit(x)
		for _, v := range []int64{0x7d, 0x7e} {
			st.pc = bddAnd(st.pc, bddNot(eqTerm(x, mkInt(v))))
		}
		what := fmt.Sprintf("byte %d of %d replaced", i, n)
		good := eqTerm(x, mkInt(at(i)))
		if i > 0 && at(i-1) == 0x7d {
			// the other byte of an escape pair is refused by the checksum as well
			what = fmt.Sprintf("byte %d of %d (after an escape) replaced", i, n)
		}
		wo := getObj("wiremessage", types.NewSlice(types.Typ[types.Byte]))
		st.heap[wo] = seqCat(us...)
		d := getObj("decodedmessage", mt)
		st.heap[d] = zero(mt)
		nn := mkInt(int64(n))
		err := in.call(st, decf, []*T{mkPtr(d), mkSlice(mkPtr(wo), mkInt(0), nn, nn), tNil}, nil, nil, nil)
		p.condOb(add, "refuses", what, bddNot(bddAnd(bddAnd(st.pc, isNil(err)), bddNot(good))), "the damaged frame is accepted")
	}
	// an escape byte followed by a byte that ends no escape pair, whatever the check byte
	for i := 1; i+1 < n; i++ {
		if at(i) != 0x7d {
			continue
		}
		in := newInterp(p)
		p.resolveRegistry(in)
		st := newState()
		x, y := freeByte("x"), freeByte("y")
		us := append([]*T(nil), w.a[:n-1]...)
		us[i+1] = unit(x)
		if i+1 < n-2 {
			// the check byte is free, too
			if at(n-3) == 0x7d {
				us = us[:n-2]
				us[n-3] = unit(y)
			} else {
				us[n-2] = unit(y)
			}
		}
		us = append(us, unit(mkInt(0x7e)))
		for _, v := range []int64{0x01, 0x02, 0x7e} {
			st.pc = bddAnd(st.pc, bddNot(eqTerm(x, mkInt(v))))
		}
		for _, v := range []int64{0x7d, 0x7e} {
			st.pc = bddAnd(st.pc, bddNot(eqTerm(y, mkInt(v))))
		}
		wo := getObj("wiremessage", types.NewSlice(types.Typ[types.Byte]))
		st.heap[wo] = seqCat(us...)
		d := getObj("decodedmessage", mt)
		st.heap[d] = zero(mt)
		nn := mkInt(int64(len(us)))
		err := in.call(st, decf, []*T{mkPtr(d), mkSlice(mkPtr(wo), mkInt(0), nn, nn), tNil}, nil, nil, nil)
		p.condOb(add, "refuses", fmt.Sprintf("false escape at byte %d of %d", i, n), bddNot(bddAnd(st.pc, isNil(err))), "an escape byte that begins no escape pair is accepted")
	}
	// another announced length, the check byte matching
	plain := n > 6
	for i := 1; i < n-1; i++ {
		plain = plain && at(i) != 0x7d
	}
	body := -1
	ms := mt.Underlying().(*types.Struct)
	for i := 0; i < ms.NumFields(); i++ {
		if ms.Field(i).Name() == "Body" {
			body = i
		}
	}
	if plain && body >= 0 {
		in := newInterp(p)
		p.resolveRegistry(in)
		st := newState()
		x := freeByte("x")
		var cb []*BDD
		for k, b := range toBits(x, 8) {
			if (at(4)^at(n-2))>>k&1 == 1 {
				b = bddNot(b)
			}
			cb = append(cb, b)
		}
		chk := mkBits(cb)
		us := append([]*T(nil), w.a...)
		us[4], us[n-2] = unit(x), unit(chk)
		for _, v := range []int64{0x7d, 0x7e} {
			st.pc = bddAnd(st.pc, bddAnd(bddNot(eqTerm(x, mkInt(v))), bddNot(eqTerm(chk, mkInt(v)))))
		}
		wo := getObj("wiremessage", types.NewSlice(types.Typ[types.Byte]))
		st.heap[wo] = seqCat(us...)
		d := getObj("decodedmessage", mt)
		st.heap[d] = zero(mt)
		nn := mkInt(int64(n))
		err := in.call(st, decf, []*T{mkPtr(d), mkSlice(mkPtr(wo), mkInt(0), nn, nn), tNil}, nil, nil, nil)
		got := assume(in.field(st.heap[d], body, mt), st.pc)
		p.condOb(add, "refuses", "another announced length", bddNot(bddAnd(bddAnd(st.pc, isNil(err)), bddAnd(bddNot(isNil(got)), bddNot(eqTerm(x, mkInt(at(4))))))), "a body whose length is not the announced one is taken for the message's content")
	}
	// a frame cut short
	for k := 0; k < n; k++ {
		in := newInterp(p)
		p.resolveRegistry(in)
		st := newState()
		wo := getObj("wiremessage", types.NewSlice(types.Typ[types.Byte]))
		st.heap[wo] = seqCat(w.a[:k]...)
		d := getObj("decodedmessage", mt)
		st.heap[d] = zero(mt)
		nn := mkInt(int64(k))
		err := in.call(st, decf, []*T{mkPtr(d), mkSlice(mkPtr(wo), mkInt(0), nn, nn), tNil}, nil, nil, nil)
		p.condOb(add, "refuses", fmt.Sprintf("cut to %d of %d bytes", k, n), bddNot(bddAnd(st.pc, isNil(err))), "the cut frame is accepted")
	}
}

// frameWire gives the frame of a case without free bytes
func (p *Program) frameWire(cs string, rep *Report) *T {
	p.frameUnit(cs, rep)
	w := frameWireOf
	frameWireOf = nil
	return w
}

var frameWireOf *T

// freeByte is any byte, given by its bits
func freeByte(name string) *T {
	var bs []*BDD
	for k := 0; k < 8; k++ {
		b := mkSymR(fmt.Sprintf("%s.bit%d", name, k), 0, 1, true)
		bs = append(bs, bitAtom(b, 0))
	}
	return mkBits(bs)
}

// framePositions names the bytes of a frame that vary
func (p *Program) framePositions(fc frameCase) []string {
	var out []string
	if fc.body == "" {
		out = append(out, "id.hi", "id.lo")
	}
	out = append(out, "serial.hi", "serial.lo")
	if pt := p.typ(p.proto, "Packet"); fc.packet && pt != nil {
		ps := pt.Underlying().(*types.Struct)
		for k := 0; k < ps.NumFields(); k++ {
			out = append(out, "packet."+ps.Field(k).Name()+".hi", "packet."+ps.Field(k).Name()+".lo")
		}
	}
	var key int64
	fmt.Sscanf(fc.body, "%x", &key)
	for _, e := range p.registry(p.proto, "entityMapper") {
		if e.key != key || fc.body == "" || e.typ == nil {
			continue
		}
		bs := e.typ.Underlying().(*types.Struct)
		for k := 0; k < bs.NumFields(); k++ {
			n := "body." + bs.Field(k).Name()
			switch sizeOfInt(bs.Field(k).Type()) {
			case 8:
				out = append(out, n)
			case 16:
				out = append(out, n+".hi", n+".lo")
			}
			for i := int64(0); i < fc.length; i++ {
				if _, ok := bs.Field(k).Type().Underlying().(*types.Slice); ok {
					out = append(out, fmt.Sprintf("%s.%d", n, i))
				}
			}
		}
	}
	return out
}

// frJobs: frames with every byte special in turn, with neighbouring pairs of
// special bytes, and with up to three bytes free
func frJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	add := func(a ...string) { out = append(out, unitJob{args: a}) }
	for _, base := range []string{"b0001", "none,pkt", "b0900,len=3"} {
		pos := P.framePositions(parseFrameCase(base))
		n := len(pos)
		add("fr", base)
		for i, a := range pos {
			b := pos[(i+1)%n]
			c := pos[(i+3)%n]
			add("fr", fmt.Sprintf("%s,%s=*,%s=*", base, a, b))
			for _, x := range []string{"7e", "7d"} {
				add("fr", fmt.Sprintf("%s,%s=%s,%s=*,%s=*", base, a, x, b, c))
				for j := i + 1; j < n; j++ {
					if j > i+1 && tier != "thorough" {
						break
					}
					for _, y := range []string{"7e", "7d"} {
						add("fr", fmt.Sprintf("%s,%s=%s,%s=%s", base, a, x, pos[j], y))
					}
				}
			}
			// values that look like the second half of an escape pair
			for _, x := range []string{"01", "02"} {
				add("fr", fmt.Sprintf("%s,%s=7d,%s=%s", base, a, b, x))
			}
		}
	}
	for _, n := range []string{"0", "254", "255", "256", "511", "512", "1021", "1022", "1023", "1024", "1279", "65534", "65535", "65536", "65792", "66559"} {
		add("fr", "b0900,len="+n)
	}
	add("fr", "b0900,len=40,pkt")
	// a property word left from an earlier use of the header
	for _, v := range []string{"03ff", "0155", "c000", "d81f", "0022", "0800"} {
		add("fr", "b0900,len=5,property="+v)
		add("fr", "b0001,pkt,property="+v)
		add("fr", "none,property="+v)
		add("fr", "b0900,len=600,property="+v)
	}
	for _, c := range []string{"b0001", "none", "b0001,pkt", "b0001,serial.lo=7e,body.Result=7d", "b0900,len=4,body.Data.3=7e", "b0900,len=1,body.Data.0=7d"} {
		add("fc", c)
	}
	return out
}

func hdJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	for d := 1; d <= 12; d++ {
		for _, k := range []string{"no", "pkt"} {
			out = append(out, unitJob{args: []string{"hd", fmt.Sprint(d), k}})
		}
	}
	return out
}
