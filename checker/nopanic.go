package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- panic freedom

// obOf turns the interpreter's obligations into reported ones
func (p *Program) obOf(in *Interp, rule, what string) []Ob {
	var out []Ob
	for _, o := range in.obligs {
		fn := shortFn(o.fn)
		r := Ob{Rule: rule, What: what + " > " + fn + ":" + o.kind + ":" + stableID(o.instr), Pos: p.pos(o.pos), Status: stProved}
		if !o.ok {
			r.Status, r.Detail = stUnresolved, o.detail
			for _, b := range o.bad {
				if b == bddFalse {
					continue
				}
				if u := unresolvedAtom(mkB(b)); u != "" {
					r.Detail = cut(o.detail+" depends on "+u, 300)
					continue
				}
				if os.Getenv("GSA_DEBUG3") != "" {
					fmt.Fprintln(os.Stderr, "BAD", mkB(b))
				}
				k, w := refute(constPool(nil, []*BDD{b}), b, func(s *sample) (bool, string) { return true, "reachable" })
				if k == refWitness {
					r.Status, r.Detail = stViolated, cut("panics: "+o.detail+"; "+w+"; via "+strings.Join(o.stack, " < "), 900)
					break
				}
				r.Detail = cut(o.detail+": "+w, 300)
			}
		}
		out = append(out, r)
	}
	return out
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	return s[strings.LastIndex(s, "/")+1:]
}

// stableID numbers an instruction among those of its kind in its function
func stableID(i ssa.Instruction) string {
	n := 0
	want := fmt.Sprintf("%T", i)
	for _, b := range i.Parent().Blocks {
		for _, x := range b.Instrs {
			if x == i {
				return fmt.Sprintf("%s%d", strings.TrimPrefix(want, "*ssa."), n)
			}
			if fmt.Sprintf("%T", x) == want {
				n++
			}
		}
	}
	return want
}

// creators: a constructor taken from a registry gives a non-nil value (each
// registered constructor is checked to do so)
func (p *Program) creatorHook(in *Interp) {
	in.hooks["dynamic"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if c.recv.isOp("lookup") && len(c.args) == 0 && c.sig.Results().Len() == 1 && types.IsInterface(c.sig.Results().At(0).Type()) {
			op := mkOp("call:create@"+in.freshKey(c.fr, c.ins, ""), append([]*T{c.recv}, in.ks()...)...)
			return op, true
		}
		return nil, false
	}
}

// decodeAny analyses one decoder on arbitrary bytes
func (p *Program) decodeAny(n *types.Named, m string, L int64) *Interp {
	in := newInterp(p)
	p.creatorHook(in)
	f := p.methodOf(n, m)
	st := newState()
	in.allocHook = onAlloc
	d := getObj("decoded:"+n.Obj().Name(), n)
	st.heap[d] = zero(n)
	in.nilPolicy = func(base *T, typ types.Type) bool { return base == mkSym("data") }
	if L >= 0 {
		fixedLen[mkSym("data")] = L
	}
	data := in.fromAtom(mkSym("data"), types.NewSlice(types.Typ[types.Byte]))
	in.call(st, f, []*T{mkPtr(d), data}, nil, nil, nil)
	return in
}

func debugNP(P *Program, names []string) {
	for _, e := range P.registry(P.proto, "entityMapper") {
		if names[0] != "all" && e.typ.Obj().Name() != names[0] {
			continue
		}
		for _, m := range []string{"Decode", "DecodePacket"} {
			if P.methodOf(e.typ, m) == nil {
				continue
			}
			in := P.decodeAny(e.typ, m, -1)
			obs := P.obOf(in, "no-panic", e.typ.Obj().Name()+"."+m)
			n := 0
			for _, o := range obs {
				if o.Status == stProved {
					n++
				} else {
					fmt.Println("  ", o.Status, o.Pos, o.What, cut(o.Detail, 300))
				}
			}
			fmt.Println(e.typ.Obj().Name(), m, len(obs), n)
		}
	}
	_ = os.Stdout
}

func debugFn(P *Program, names []string) {
	for _, f := range P.allFns {
		if !isRepoFn(f) || f.String() != names[0] && shortFn(f) != names[0] {
			continue
		}
		in := newInterp(P)
		st := newState()
		var args []*T
		for _, p := range f.Params {
			args = append(args, in.fromAtom(mkSym(p.Name()), p.Type()))
		}
		r := in.call(st, f, args, nil, nil, nil)
		fmt.Println("result", cut(fmt.Sprint(r), 1500))
		fmt.Println("pc", cut(mkB(st.pc).String(), 300))
		for _, o := range P.obOf(in, "no-panic", "") {
			if o.Status != stProved {
				fmt.Println("  ", o.Status, o.Pos, o.What, cut(o.Detail, 300))
			}
		}
		for n := range in.notes {
			fmt.Println("  note", n)
		}
	}
}

// npUnit analyses one entry point on arbitrary bytes:
//
//	msg <key> <L>     the body decoder of a registered message
//	extra <key> <L>   the decoder of a registered additional item
//	fn <name> <L>     a named function
//
// L is the length of the data, -1 for any
func (p *Program) npUnit(args []string, rep *Report) {
	freeMode = true
	L := int64(-1)
	npPlain = strings.HasSuffix(args[2], "p")
	fmt.Sscan(strings.TrimSuffix(args[2], "p"), &L)
	tag := ""
	if L >= 0 {
		unrollMax = L + 2
		tag = fmt.Sprintf("{%d bytes}", L)
	}
	switch args[0] {
	case "msg", "extra":
		var reg []regEntry
		if args[0] == "msg" {
			reg = p.registry(p.proto, "entityMapper")
		} else {
			reg = p.registry(p.extra, "entityMapper")
		}
		var key int64
		fmt.Sscanf(args[1], "%x", &key)
		for _, e := range reg {
			if e.key != key || e.typ == nil {
				continue
			}
			for _, m := range []string{"Decode", "DecodePacket"} {
				f := p.methodOf(e.typ, m)
				if f == nil {
					continue
				}
				rep.Funcs = append(rep.Funcs, f.String())
				in := p.decodeAny(e.typ, m, L)
				rep.Obs = append(rep.Obs, p.obOf(in, "no-panic", e.typ.Obj().Name()+"."+m+tag)...)
				rep.Obs = append(rep.Obs, Ob{Rule: "no-panic", What: e.typ.Obj().Name() + "." + m + tag + " analysed", Pos: e.pos, Status: stProved})
			}
		}
	case "enc":
		var key int64
		fmt.Sscanf(args[1], "%x", &key)
		if L >= 0 {
			specLen, specText, unrollMax = L%10, L/10, 0
		}
		for _, e := range p.registry(p.proto, "entityMapper") {
			if e.key != key || e.typ == nil {
				continue
			}
			f := p.methodOf(e.typ, "Encode")
			rep.Funcs = append(rep.Funcs, f.String())
			in := p.encodeAny(e.typ, "Encode")
			rep.Obs = append(rep.Obs, p.obOf(in, "no-panic", e.typ.Obj().Name()+".Encode")...)
			rep.Obs = append(rep.Obs, Ob{Rule: "no-panic", What: e.typ.Obj().Name() + ".Encode analysed", Pos: e.pos, Status: stProved})
		}
	case "decoded":
		p.npDecoded(rep, L)
		for i := range rep.Obs {
			rep.Obs[i].What += tag
		}
	case "session":
		var key int64
		fmt.Sscanf(args[1], "%x", &key)
		p.npSession(key, rep)
	case "fn":
		f := p.entry(args[1])
		if f == nil {
			rep.Err = "no such function"
			return
		}
		rep.Funcs = append(rep.Funcs, f.String())
		in := p.runAny(f, L)
		rep.Obs = append(rep.Obs, p.obOf(in, "no-panic", args[1]+tag)...)
		rep.Obs = append(rep.Obs, Ob{Rule: "no-panic", What: args[1] + tag + " analysed", Pos: p.pos(f.Pos()), Status: stProved})
		for n := range in.notes {
			rep.Notes = append(rep.Notes, n)
		}
	}
}

// entry finds an exported method by "package.Type.Method" or function "package.Func"
func (p *Program) entry(name string) *ssa.Function {
	pk := p.root
	f := strings.Split(name, ".")
	switch f[0] {
	case "protocol":
		pk = p.proto
	case "extra":
		pk = p.extra
	}
	if len(f) == 2 {
		return pk.Func(f[1])
	}
	t, ok := pk.Members[f[1]].(*ssa.Type)
	if !ok {
		return nil
	}
	n, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	return p.methodOf(n, f[2])
}

// runAny analyses a function for all its arguments; receivers are non-nil
func (p *Program) runAny(f *ssa.Function, L int64) *Interp {
	in := newInterp(p)
	p.creatorHook(in)
	in.nilPolicy = func(base *T, typ types.Type) bool {
		n := typeName(typ)
		return !(base.k == KOp && strings.HasPrefix(base.op, "fld:") && (n == "io.Writer" || n == "io.Reader" || n == "io.ReadWriter"))
	}
	st := newState()
	in.allocHook = onAlloc
	var args []*T
	for i, q := range f.Params {
		a := mkSym(q.Name())
		if isByteSlice(q.Type()) && L >= 0 {
			fixedLen[a] = L
		}
		if pt, ok := q.Type().Underlying().(*types.Pointer); ok && i == 0 && f.Signature.Recv() != nil {
			o := getObj("recv:"+q.Name(), pt.Elem())
			o.input = true
			st.heap[o] = in.fromAtom(a, pt.Elem())
			args = append(args, mkPtr(o))
			continue
		}
		args = append(args, in.fromAtom(a, q.Type()))
	}
	if npPlain {
		p.plain(st, mkSym(f.Params[1].Name()), L)
	}
	in.call(st, f, args, nil, nil, nil)
	return in
}

var npPlain bool

// sessionLoop is the method the link library calls for every new connection
func (p *Program) sessionLoop() *ssa.Function {
	for _, f := range p.allFns {
		if f.Pkg == p.root && f.Name() == "HandleSession" && f.Signature.Recv() != nil && len(f.Params) == 2 && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

// npSession analyses the session loop for one kind of received message
func (p *Program) npSession(key int64, rep *Report) {
	f := p.sessionLoop()
	if f == nil {
		rep.Err = "session loop not found"
		return
	}
	mt := p.typ(p.proto, "Message")
	var bt *types.Named
	for _, e := range p.registry(p.proto, "entityMapper") {
		if e.key == key {
			bt = e.typ
		}
	}
	if mt == nil {
		rep.Err = "message type not found"
		return
	}
	in := newInterp(p)
	p.creatorHook(in)
	p.syncMapHook(in)
	in.nilPolicy = func(base *T, typ types.Type) bool {
		return mentionsCall(base)
	}
	st := newState()
	in.hooks["(*github.com/funny/link.Session).Receive"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		op := mkOp("received@"+in.freshKey(c.fr, c.ins, ""), in.ks()...)
		err := mkOp("call:recverr", op)
		m := in.fromAtom(op, mt)
		if m.k != KStruct {
			return nil, false
		}
		m = p.withBody(in, m, mt, key, bt, op)
		return mkTuple(mkIface(mt, m), err), true
	}
	var args []*T
	for _, q := range f.Params {
		args = append(args, in.fromAtom(mkSym(q.Name()), q.Type()))
	}
	in.call(st, f, args, nil, nil, nil)
	what := fmt.Sprintf("session loop on message 0x%04x", key)
	rep.Obs = append(rep.Obs, p.obOf(in, "no-panic", what)...)
	rep.Obs = append(rep.Obs, Ob{Rule: "no-panic", What: what + " analysed", Pos: p.pos(f.Pos()), Status: stProved})
	for g := range in.reached {
		rep.Funcs = append(rep.Funcs, g.String())
	}
}

// syncMapTypes gives, for every sync.Map held in a field or package variable,
// the one concrete type all its Stores put in (absent: not uniform)
func (p *Program) syncMapTypes() map[string]types.Type {
	out := map[string]types.Type{}
	bad := map[string]bool{}
	for _, f := range p.allFns {
		if !isRepoFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				fn := cc.StaticCallee()
				if fn == nil {
					continue
				}
				n := fnName(fn)
				vi := map[string]int{"(*sync.Map).Store": 2, "(*sync.Map).LoadOrStore": 2, "(*sync.Map).Swap": 2, "(*sync.Map).CompareAndSwap": 3}[n]
				if vi == 0 {
					continue
				}
				k := mapPlace(cc.Args[0])
				mi, ok := cc.Args[vi].(*ssa.MakeInterface)
				if k == "" {
					return nil
				}
				if !ok || out[k] != nil && !types.Identical(out[k], mi.X.Type()) {
					bad[k] = true
					continue
				}
				out[k] = mi.X.Type()
			}
		}
	}
	for k := range bad {
		delete(out, k)
	}
	return out
}

func mapPlace(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", derefT(x.X.Type()).String(), x.Field)
	case *ssa.Global:
		return x.String()
	}
	return ""
}

// syncMapHook: a loaded value is present or not; present values have the stored type
func (p *Program) syncMapHook(in *Interp) {
	tt := p.syncMapTypes()
	in.hooks["(*sync.Map).Load"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		t := tt[mapPlace(c.ins.Common().Args[0])]
		if t == nil {
			return nil, false
		}
		op := mkOp("call:sync.Map.Load@"+in.freshKey(c.fr, c.ins, ""), in.ks()...)
		has := bddVar(mkOp("haskey", op))
		v := in.fromAtom(mkOp("fld:value", op), t)
		if _, ok := t.Underlying().(*types.Signature); ok {
			v = mkOp("call:stored@"+in.freshKey(c.fr, c.ins, ""), op)
		}
		return mkTuple(ite(has, mkIface(t, v), tNil), mkB(has)), true
	}
}

func mentionsCall(t *T) bool {
	for t.k == KOp && len(t.a) > 0 {
		if strings.HasPrefix(t.op, "call:") || strings.HasPrefix(t.op, "res") {
			return true
		}
		t = t.a[0]
	}
	return false
}

func (p *Program) typ(pk *ssa.Package, name string) *types.Named {
	t, ok := pk.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// withBody gives a received message the shape the decoder produces: the body is
// absent or of the type registered for the message ID, packet information is
// present exactly when flagged
func (p *Program) withBody(in *Interp, m *T, mt *types.Named, key int64, bt *types.Named, op *T) *T {
	ms := mt.Underlying().(*types.Struct)
	f := append([]*T{}, m.a...)
	for i := range f {
		switch ms.Field(i).Name() {
		case "Body":
			if bt == nil {
				f[i] = tNil
				continue
			}
			o := getObj(fmt.Sprintf("body%d", op.id), bt)
			o.input = true
			o.base = mkOp("fld:Body", op)
			f[i] = ite(bddVar(mkOp("nobody", op)), tNil, mkIface(types.NewPointer(bt), mkPtr(o)))
		case "Header":
			hs := ms.Field(i).Type().Underlying().(*types.Struct)
			h := append([]*T{}, f[i].a...)
			var prop *T
			for j := range h {
				if hs.Field(j).Name() == "Property" {
					prop = h[j]
				}
			}
			for j := range h {
				switch hs.Field(j).Name() {
				case "MsgID":
					h[j] = mkInt(key)
				case "Packet":
					if prop != nil && h[j].k == KPtr {
						h[j] = ite(bitAtom(prop, 13), h[j], tNil)
					}
				}
			}
			f[i] = mkStruct(h...)
		}
	}
	return mkStruct(f...)
}

// npDecoded: what the session loop relies on about a decoded message
func (p *Program) npDecoded(rep *Report, L int64) {
	f := p.entry("protocol.Message.Decode")
	mt := p.typ(p.proto, "Message")
	if f == nil || mt == nil {
		rep.Err = "Message.Decode not found"
		return
	}
	in := newInterp(p)
	p.creatorHook(in)
	st := newState()
	o := getObj("recv:message", mt)
	st.heap[o] = zero(mt)
	args := []*T{mkPtr(o)}
	for _, q := range f.Params[1:] {
		args = append(args, in.fromAtom(mkSym(q.Name()), q.Type()))
	}
	if L >= 0 {
		d := mkSym(f.Params[1].Name())
		fixedLen[d] = L
		args[1] = in.fromAtom(d, f.Params[1].Type())
		p.plain(st, d, L)
	}
	r := in.call(st, f, args, nil, nil, nil)
	err := r
	if r != nil && r.k == KTuple {
		err = r.a[len(r.a)-1]
	}
	pc := bddAnd(st.pc, isNil(err))
	m := assume(st.heap[o], pc)
	get := func(v *T, t types.Type, name string) (*T, types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || v == nil || v.k != KStruct {
			return nil, nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return v.a[i], s.Field(i).Type()
			}
		}
		return nil, nil
	}
	h, ht := get(m, mt, "Header")
	body, _ := get(m, mt, "Body")
	add := func(what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: "decoded-shape", What: what, Pos: p.pos(f.Pos()), Status: status, Detail: cut(detail, 600)})
	}
	if h == nil || body == nil {
		add("decoded message", stUnresolved, "header and body not found")
		return
	}
	prop, _ := get(h, ht, "Property")
	pk, _ := get(h, ht, "Packet")
	id, _ := get(h, ht, "MsgID")
	if prop != nil && pk != nil {
		bad := bddAnd(bddAnd(pc, bitOf(prop, 13)), isNil(pk))
		bad = decide(bad, bddTrue)
		switch {
		case bad == bddFalse:
			add("packet information present when flagged", stProved, "")
		case unresolvedAtom(mkB(bad)) == "":
			add("packet information present when flagged", stViolated, "missing when "+mkB(bad).String())
		default:
			add("packet information present when flagged", stUnresolved, mkB(bad).String())
		}
	}
	var leaf func(v *T, c *BDD)
	leaf = func(v *T, c *BDD) {
		if c == bddFalse || v.k == KNil {
			return
		}
		if v.k == KIte {
			leaf(v.a[1], bddAnd(c, v.a[0].b))
			leaf(v.a[2], bddAnd(c, bddNot(v.a[0].b)))
			return
		}
		if strings.HasPrefix(v.op, "call:create@") && v.a[0].isOp("lookup") && id != nil {
			k, id := assume(v.a[0].a[1], c), assume(id, c)
			same := k == id || proveEq(k, id, c)
			if !same && inBits(k) && inBits(id) {
				same = true
				x, y := toBits(k, 16), toBits(id, 16)
				for i := 0; i < 16; i++ {
					d := bddIte(x[i], bddNot(y[i]), y[i])
					if bddAnd(c, d) != bddFalse {
						same = false
					}
				}
			}
			if same {
				add("body has the type registered for the message ID", stProved, "")
				return
			} else if resolved(k) && resolved(id) && resolved(mkB(c)) {
				if w, msg := refuteEq(k, id, c); w == refWitness {
					add("body has the type registered for the message ID", stViolated, fmt.Sprintf("body created for another ID than the header's: %s", msg))
					return
				}
			}
		}
		add("body has the type registered for the message ID", stUnresolved, v.String())
	}
	leaf(body, pc)
}

func bitOf(t *T, i int) *BDD {
	b := toBits(t, 16)
	if i < len(b) {
		return b[i]
	}
	return bddFalse
}

// plain restricts a frame to those without escape sequences
func (p *Program) plain(st *State, d *T, L int64) {
	for i := int64(1); i < L-1; i++ {
		x := mkOp("idx", d, mkInt(i))
		typeRange(x, 8)
		st.pc = bddAnd(st.pc, bddNot(eq0(addc(x, -0x7d))))
	}
}

func npJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	add := func(a ...string) { out = append(out, unitJob{args: append([]string{"np"}, a...)}) }
	for _, f := range []string{"protocol.Message.Decode", "root.ProtocolCodec.Receive", "protocol.Header.Decode"} {
		add("fn", f, "-1")
	}
	for _, l := range []string{"-1", "20p"} {
		add("decoded", "x", l)
	}
	for _, e := range P.registry(P.proto, "entityMapper") {
		add("msg", fmt.Sprintf("%04x", e.key), "-1")
	}
	for _, e := range P.registry(P.extra, "entityMapper") {
		add("extra", fmt.Sprintf("%04x", e.key), "-1")
	}
	for _, e := range P.registry(P.proto, "entityMapper") {
		add("session", fmt.Sprintf("%04x", e.key), "-1")
	}
	add("session", "fffe", "-1")
	return out
}

// npRefine re-analyses what stayed undecided for data of fixed lengths
func npRefine(P *Program, reps []Report, tier string) []unitJob {
	var out []unitJob
	for _, r := range reps {
		f := strings.Fields(r.Unit)
		und := r.Err != ""
		for _, o := range r.Obs {
			if o.Status == stUnresolved {
				und = true
			}
		}
		if !und || len(f) != 4 || f[3] != "-1" {
			continue
		}
		add := func(l ...string) {
			for _, x := range l {
				out = append(out, unitJob{args: []string{"np", f[1], f[2], x}, timeout: 40 * 1e9})
			}
		}
		switch {
		case f[1] == "enc":
			add("0", "1", "2", "21", "52")
		case f[1] == "msg" || f[1] == "extra" || f[2] == "protocol.Header.Decode":
			for i := 0; i <= 20; i++ {
				add(fmt.Sprint(i))
			}
			add("24", "28", "32", "40", "46", "48", "50", "64")
		case f[2] == "protocol.Message.Decode":
			add("2", "3", "4", "5", "6", "7", "4p", "8p", "13p", "14p", "15p", "16p", "17p", "18p", "19p", "20p", "24p", "40p")
		}
	}
	return out
}

func encJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	for _, e := range P.registry(P.proto, "entityMapper") {
		out = append(out, unitJob{args: []string{"np", "enc", fmt.Sprintf("%04x", e.key), "-1"}})
	}
	for _, f := range []string{"protocol.Message.Encode", "protocol.Header.Encode", "root.ProtocolCodec.Send"} {
		out = append(out, unitJob{args: []string{"np", "fn", f, "-1"}})
	}
	return out
}
