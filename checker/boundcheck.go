package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- bounded memory

// boundUnit: no length or count read from a message makes its decoder set aside
// more than 65536 elements or the message's own size
func (p *Program) boundUnit(kind, key string, rep *Report) {
	var k int64
	fmt.Sscanf(key, "%x", &k)
	run := func(f *ssa.Function, what string, call func() *Interp) {
		rep.Funcs = append(rep.Funcs, f.String())
		n := 0
		add := func(rule, w, status, detail string) {
			rep.Obs = append(rep.Obs, Ob{Rule: rule, What: w, Pos: p.pos(f.Pos()), Status: status, Detail: cut(detail, 500)})
		}
		seen := map[string]int{}
		onAlloc = func(in *Interp, st *State, ins ssa.Instruction, c *T) {
			if !isRepoFn(ins.Parent()) {
				return
			}
			if call, ok := ins.(ssa.CallInstruction); ok {
				if _, app := call.Common().Value.(*ssa.Builtin); app {
					return
				}
			}
			n++
			w := what + " > " + shortFn(ins.Parent()) + ":" + stableID(ins)
			seen[w]++
			if seen[w] > 6 {
				return
			}
			if seen[w] > 1 {
				w += fmt.Sprintf(" (%d)", seen[w])
			}
			pos := p.pos(f.Pos())
			if ins.Pos().IsValid() {
				pos = p.pos(ins.Pos())
			}
			L := in.sliceLen(in.fromAtom(mkSym(boundOver), types.NewSlice(types.Typ[types.Byte])))
			pc := xall(st.pc)
			if proveLe0(addc(c, -65536), pc) || proveLe0(sub(c, addc(add2(L, L), 64)), pc) {
				rep.Obs = append(rep.Obs, Ob{Rule: "bounded", What: w, Pos: pos, Status: stProved})
				return
			}
			good := bddOr(le(c, mkInt(65536)), le(c, addc(add2(L, L), 64)))
			p.condOb(func(rule, w, status, detail string) {
				rep.Obs = append(rep.Obs, Ob{Rule: rule, What: w, Pos: pos, Status: status, Detail: cut(detail, 500)})
			}, "bounded", w, bddNot(bddAnd(pc, bddNot(good))), "space for "+cut(c.String(), 120)+" elements is set aside before they have arrived")
		}
		defer func() { onAlloc = nil }()
		call()
		add("bounded", what+" analysed", stProved, "")
	}
	switch kind {
	case "msg", "extra":
		pk := p.proto
		if kind == "extra" {
			pk = p.extra
		}
		for _, e := range p.registry(pk, "entityMapper") {
			if e.key != k || e.typ == nil {
				continue
			}
			for _, m := range []string{"Decode", "DecodePacket"} {
				if f := p.methodOf(e.typ, m); f != nil {
					boundOver = "data"
					run(f, e.typ.Obj().Name()+"."+m, func() *Interp { return p.decodeAny(e.typ, m, -1) })
				}
			}
		}
	case "fn":
		f := p.entry(key)
		if f == nil {
			return
		}
		for _, q := range f.Params {
			if isByteSlice(q.Type()) {
				boundOver = q.Name()
				run(f, key, func() *Interp { return p.runAny(f, -1) })
				return
			}
		}
	case "stream":
		p.pendingUnit(rep)
	}
}

var (
	onAlloc   func(in *Interp, st *State, instr ssa.Instruction, n *T)
	boundOver string
)

// pendingUnit: with 65535 bytes of an unfinished frame pending, the next byte
// makes receiving fail
func (p *Program) pendingUnit(rep *Report) {
	unrollMax = 70000
	ct := p.typ(p.root, "ProtocolCodec")
	rcv := p.methodOf(ct, "Receive")
	rep.Funcs = append(rep.Funcs, rcv.String())
	add := func(what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: "bounded", What: "unfinished frame " + what, Pos: p.pos(rcv.Pos()), Status: status, Detail: cut(detail, 500)})
	}
	in := newInterp(p)
	st := newState()
	codec, _ := p.newCodec(in, st)
	var buf *Obj
	for o, v := range st.heap {
		if n, ok := o.typ.(*types.Named); ok && typeName(n) == "bytes.Buffer" && v.k == KSeq {
			if buf != nil {
				add("kept", stUnresolved, "more than one buffer")
				return
			}
			buf = o
		}
	}
	if codec == nil || buf == nil {
		add("kept", stUnresolved, "what is pending is not found")
		return
	}
	st.heap[buf] = seqCat(unit(mkInt(0x7e)), repConst(mkInt(0), mkInt(65534)))
	reads := 0
	var over *BDD = bddFalse
	unclear := ""
	read := func(in *Interp, st *State, b *T) (*T, bool) {
		reads++
		if reads > 1 {
			over = bddOr(over, st.pc)
			return mkTuple(mkInt(0), errSym("io.EOF")), true
		}
		if b.k != KSlice {
			unclear = "read into an unknown buffer"
			return nil, false
		}
		in.copySlice(nil, st, nil, []*T{mkSlice(b.a[0], b.a[1], mkInt(1), mkInt(1)), seqCat(unit(mkInt(0)))})
		return mkTuple(mkInt(1), tNil), true
	}
	in.hooks["invoke:(io.Reader).Read"] = func(in *Interp, st *State, c *callCtx) (*T, bool) { return read(in, st, c.args[0]) }
	h := func(in *Interp, st *State, c *callCtx) (*T, bool) { return read(in, st, c.args[1]) }
	in.hooks["io.ReadAtLeast"], in.hooks["io.ReadFull"] = h, h
	in.hooks[fnName(p.methodOf(p.typ(p.proto, "Message"), "Decode"))] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		unclear = "a frame is found where none ends: " + cut(in.content(st, c.args[1]).String(), 200) + " when " + cut(mkB(st.pc).String(), 200)
		return errSym("badframe"), true
	}
	r := in.call(st, rcv, []*T{codec}, nil, nil, nil)
	switch {
	case unclear != "" || reads == 0:
		add("kept", stUnresolved, "reading not understood "+unclear)
	case over == bddTrue:
		add("kept", stViolated, "more than 65535 bytes of an unfinished frame are kept and reading goes on")
	case over != bddFalse:
		add("kept", stUnresolved, "under conditions not decided: "+mkB(over).String())
	default:
		e := assume(in.component(r, 1, nil), st.pc)
		switch {
		case isNil(e) == bddFalse:
			add("kept", stProved, "")
		case e.k == KNil:
			add("kept", stViolated, "receiving gives no error although more than 65535 bytes of an unfinished frame are pending")
		default:
			add("kept", stUnresolved, "error not understood: "+e.String())
		}
	}
}

func boundJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	add := func(a ...string) { out = append(out, unitJob{args: append([]string{"bd"}, a...)}) }
	add("stream", "x")
	add("fn", "protocol.Message.Decode")
	for _, e := range P.registry(P.proto, "entityMapper") {
		add("msg", fmt.Sprintf("%04x", e.key))
	}
	for _, e := range P.registry(P.extra, "entityMapper") {
		add("extra", fmt.Sprintf("%04x", e.key))
	}
	return out
}
