package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cryptoHooks models RSA-OAEP as an injective map from texts that fit one block
// to blocks of the key size; only a whole block decrypts, to the text it was
// made from. Each block is an arbitrary fixed byte string that holds delimiter
// and escape bytes.
type cryptoModel struct {
	size   int64
	blocks map[*T]*T // block -> text
	labels map[*T]string
	used   int
}

func (p *Program) cryptoHooks(in *Interp, size int64) *cryptoModel {
	m := &cryptoModel{size: size, blocks: map[*T]*T{}, labels: map[*T]string{}}
	sz := func(in *Interp, st *State, c *callCtx) (*T, bool) { return mkInt(size), true }
	for _, n := range []string{"(*crypto/rsa.PublicKey).Size", "(crypto/rsa.PublicKey).Size", "(*crypto/rsa.PrivateKey).Size"} {
		in.hooks[n] = sz
	}
	hs := func(h *T) int64 {
		var n int64 = -1
		if h.isOp("nonnil") && strings.HasPrefix(h.a[0].op, "hash:") {
			fmt.Sscan(h.a[0].op[5:], &n)
		}
		return n
	}
	bytesT := types.NewSlice(types.Typ[types.Byte])
	in.hooks["crypto/rsa.EncryptOAEP"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		h := hs(c.args[0])
		msg := assume(in.content(st, c.args[3]), st.pc)
		n := seqLen(msg)
		if h < 0 || n.k != KConst {
			return nil, false
		}
		errv := errSym("crypto/rsa.ErrMessageTooLong")
		if n.i > size-2*h-2 {
			return mkTuple(mkSlice(tNil, mkInt(0), mkInt(0), mkInt(0)), errv), true
		}
		m.used++
		lab := fmt.Sprint(h, in.content(st, c.args[4]).id)
		var us []*T
		for i := int64(0); i < size; i++ {
			v := (int64(len(m.blocks))*53 + i*7 + 11) % 256
			if i == 3 {
				v = 0x7e
			} else if i == 5 {
				v = 0x7d
			}
			us = append(us, unit(mkInt(v)))
		}
		b := seqCat(us...)
		m.blocks[b] = msg
		m.labels[b] = lab
		return mkTuple(in.newSeqSlice(in.freshKey(c.fr, c.ins, fmt.Sprint("block", m.used)), b, bytesT, st), tNil), true
	}
	in.hooks["crypto/rsa.DecryptOAEP"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		h := hs(c.args[0])
		b := assume(in.content(st, c.args[3]), st.pc)
		lab := fmt.Sprint(h, in.content(st, c.args[4]).id)
		if h < 0 {
			return nil, false
		}
		if t, ok := m.blocks[b]; ok && m.labels[b] == lab {
			m.used++
			return mkTuple(in.newSeqSlice(in.freshKey(c.fr, c.ins, fmt.Sprint("text", m.used)), t, bytesT, st), tNil), true
		}
		for _, s := range b.a {
			if !s.isOp("unit") || s.a[0].k != KConst {
				return nil, false
			}
		}
		return mkTuple(mkSlice(tNil, mkInt(0), mkInt(0), mkInt(0)), errSym("crypto/rsa.ErrDecryption")), true
	}
	return m
}

// encryptUnit: a message encoded with a key is flagged, carries no clear text,
// comes back with the key and is refused without
func (p *Program) encryptUnit(length, size int64, rep *Report) {
	rtMode = true
	unrollMax = 4*length + 40*size
	mt := p.typ(p.proto, "Message")
	encf, decf := p.methodOf(mt, "Encode"), p.methodOf(mt, "Decode")
	rep.Funcs = append(rep.Funcs, encf.String(), decf.String())
	pos := p.pos(encf.Pos())
	tag := fmt.Sprintf("{body of %d bytes, %d-bit key}", length, size*8)
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	in := newInterp(p)
	p.resolveRegistry(in)
	cm := p.cryptoHooks(in, size)
	in.rtName = "Message"
	st := newState()
	// body: transparent data (0x8900) so that its length can be chosen
	var e regEntry
	for _, x := range p.registry(p.proto, "entityMapper") {
		if x.key == 0x8900 {
			e = x
		}
	}
	if e.typ == nil {
		add("encrypted", "frame", stUnresolved, "no transparent data message")
		return
	}
	bs := e.typ.Underlying().(*types.Struct)
	bf := make([]*T, bs.NumFields())
	left := length
	for k := range bf {
		bf[k] = in.fromAtom(mkSym("body."+bs.Field(k).Name()), bs.Field(k).Type())
		if _, ok := bs.Field(k).Type().Underlying().(*types.Slice); !ok {
			left--
		}
	}
	for k := range bf {
		if _, ok := bs.Field(k).Type().Underlying().(*types.Slice); ok {
			fixedLen[mkSym("text")] = left
			do := getObj("bodydata", bs.Field(k).Type())
			st.heap[do] = seqAtom(mkSym("text"))
			bf[k] = mkSlice(mkPtr(do), mkInt(0), mkInt(left), mkInt(left))
		}
	}
	bo := getObj("body", e.typ)
	bo.input = true
	st.heap[bo] = mkStruct(bf...)
	ms := mt.Underlying().(*types.Struct)
	m := append([]*T(nil), zero(mt).a...)
	hi, bi := -1, -1
	var hs *types.Struct
	for i := 0; i < ms.NumFields(); i++ {
		switch ms.Field(i).Name() {
		case "Header":
			hi = i
			hs = ms.Field(i).Type().Underlying().(*types.Struct)
			h := append([]*T(nil), m[i].a...)
			for j := range h {
				switch hs.Field(j).Name() {
				case "IccID":
					h[j] = mkInt(13912345678)
				case "MsgSerialNo":
					h[j] = mkInt(0x1234)
				}
			}
			m[i] = mkStruct(h...)
		case "Body":
			bi = i
			m[i] = mkIface(types.NewPointer(e.typ), mkPtr(bo))
		}
	}
	if hi < 0 || bi < 0 {
		add("encrypted", "frame", stUnresolved, "message shape")
		return
	}
	mo := getObj("message", mt)
	st.heap[mo] = mkStruct(m...)
	ost := st.clone()
	keys := func(f *ssa.Function, name string) *T {
		pt := f.Params[len(f.Params)-1].Type().Underlying().(*types.Slice)
		ko := getObj("key:"+name, derefT(pt.Elem()))
		ko.input = true
		lo := getObj("keys:"+name, pt)
		st.heap[lo] = seqCat(unit(mkPtr(ko)))
		return mkSlice(mkPtr(lo), mkInt(0), mkInt(1), mkInt(1))
	}
	r := in.call(st, encf, []*T{mkPtr(mo), keys(encf, "public")}, nil, nil, nil)
	ok := isNil(in.component(r, 1, nil))
	p.condOb(add, "encrypted", "encodes", bddNot(bddAnd(st.pc, bddNot(ok))), "a message that fits is refused")
	st.pc = bddAnd(st.pc, ok)
	if st.pc == bddFalse {
		return
	}
	wire := assume(in.content(st, in.component(r, 0, nil)), st.pc)
	// no byte of the clear text is on the wire
	if length > 0 && mentions(wire, mkSym("text")) {
		add("encrypted", "no clear text", stViolated, "the frame carries the body in the clear")
	} else {
		add("encrypted", "no clear text", stProved, "")
	}
	est := st.clone()
	for _, with := range []bool{true, false} {
		st = est.clone()
		d := getObj("decodedmessage", mt)
		st.heap[d] = zero(mt)
		wo := getObj("wiremessage", types.NewSlice(types.Typ[types.Byte]))
		st.heap[wo] = wire
		k := tNil
		if with {
			k = keys(decf, "private")
		}
		err := in.call(st, decf, []*T{mkPtr(d), mkSlice(mkPtr(wo), mkInt(0), seqLen(wire), seqLen(wire)), k}, nil, nil, nil)
		okc := isNil(err)
		if !with {
			p.condOb(add, "encrypted", "without the key", bddNot(bddAnd(st.pc, okc)), "an encrypted frame is accepted without a key")
			continue
		}
		p.condOb(add, "encrypted", "accepted", bddNot(bddAnd(st.pc, bddNot(okc))), "the decoder refuses the encrypted frame")
		pc := bddAnd(st.pc, okc)
		if pc == bddFalse {
			continue
		}
		dv := assume(st.heap[d], pc)
		for j := 0; j < hs.NumFields(); j++ {
			if hs.Field(j).Name() != "Property" {
				continue
			}
			flag := dv.a[hi].a[j]
			if flag.k != KConst {
				add("encrypted", "flag", stUnresolved, flag.String())
			} else if flag.i&(1<<10) == 0 {
				add("encrypted", "flag", stViolated, "the frame is not flagged as encrypted")
			} else {
				add("encrypted", "flag", stProved, "")
			}
		}
		c := &cmp{r: &rtResult{in: in, ost: ost, st: st, wire: wire, pc: pc, named: mt}, st: st, pos: pos, dom: map[string]bool{}, geo: map[string]string{}}
		q := dv.a[bi]
		switch {
		case q.k == KIface && q.a[0].k == KPtr && types.Identical(derefT(q.typ), e.typ):
			c.eq("Body", e.typ, ost.heap[bo], st.heap[q.a[0].obj], pc)
		case q.k == KNil:
			add("encrypted", "Body", stViolated, "the body does not come back")
		default:
			add("encrypted", "Body", stUnresolved, fmt.Sprint(q))
		}
		for _, o := range c.obs {
			o.Rule = "encrypted"
			o.What += tag
			rep.Obs = append(rep.Obs, o)
		}
	}
	if cm.used == 0 && length > 0 {
		add("encrypted", "cipher", stUnresolved, "no use of the cipher seen")
	}
}

func enJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	for _, size := range []int64{64, 128, 256} {
		lim := size - 42
		seen := map[int64]bool{}
		for _, l := range []int64{1, 2, 5, lim - 1, lim, lim + 1, 2*lim - 1, 2 * lim, 2*lim + 1, 3 * lim, 3*lim + 1} {
			if (l+lim-1)/lim*size > 1023 || l < 1 || seen[l] {
				continue
			}
			seen[l] = true
			out = append(out, unitJob{args: []string{"en", fmt.Sprint(l), fmt.Sprint(size)}})
		}
	}
	for _, j := range sdJobs(P, tier) {
		out = append(out, j)
	}
	return out
}
