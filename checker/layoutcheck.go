package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The layouts the standard prescribes, written down as reference encoders in Go.
// They are type-checked together with the package that defines the messages (as
// files that exist only in the analysis) and interpreted abstractly like it.

//go:embed layout/helpers.txt
var layoutHelpers string

//go:embed layout/kinds.txt
var layoutKinds string

//go:embed layout/meanings.txt
var layoutMeanings string

//go:embed layout/frame.txt
var layoutFrame string

func layoutSections() []string {
	return strings.Split(layoutKinds+"\n==\n"+layoutMeanings+"\n==\n"+layoutFrame, "\n==\n")
}

var overlayName = regexp.MustCompile(`zz_gsa_ref_\d+\.go`)

// loadLayouts loads the program with the reference encoders; those that do not
// fit the current definitions are left out
func loadLayouts(dir string) (*Program, error) {
	ov := map[string][]byte{}
	file := func(i int) string { return filepath.Join(dir, "protocol", fmt.Sprintf("zz_gsa_ref_%d.go", i)) }
	ov[file(0)] = []byte(layoutHelpers)
	for i, s := range layoutSections() {
		h := "package protocol\n\n"
		if strings.Contains(s, "extra.") {
			h += "import \"gitee.com/coco/go808/protocol/extra\"\n\n"
		}
		if strings.Contains(s, "strconv.") {
			h += "import \"strconv\"\n\n"
		}
		ov[file(i+1)] = []byte(h + s + "\n")
	}
	for try := 0; ; try++ {
		p, err := loadProgramWith(dir, ov)
		if err == nil {
			return p, nil
		}
		n := 0
		for _, m := range overlayName.FindAllString(err.Error(), -1) {
			f := filepath.Join(dir, "protocol", m)
			if _, ok := ov[f]; ok && f != file(0) {
				delete(ov, f)
				n++
			}
		}
		if n == 0 || try > 4 {
			return nil, err
		}
	}
}

// same proves two results equal, or exhibits values for which they differ
func (p *Program) same(in *Interp, st *State, typ types.Type, want, got *T, pc *BDD) (string, string) {
	if sl, ok := typ.Underlying().(*types.Slice); ok && sl != nil {
		want, got = in.content(st, want), in.content(st, got)
	}
	want, got = assume(want, pc), assume(got, pc)
	if want == got || proveEq(want, got, pc) {
		return stProved, ""
	}
	for _, t := range []*T{want, got, mkB(pc)} {
		if u := unresolvedAtom(t); u != "" {
			return stUnresolved, "depends on " + u
		}
	}
	c, fuel := &cmp{}, 400
	if want.k == KSeq && got.k == KSeq && c.sameSeq(want, got, pc, &fuel) {
		return stProved, ""
	}
	if w := sizeOfInt(typ); w > 0 && w <= 32 && c.sameBits(want, got, w, pc) {
		return stProved, ""
	}
	if want.k == KBool && got.k == KBool && bddAnd(pc, bddOr(bddAnd(want.b, bddNot(got.b)), bddAnd(got.b, bddNot(want.b)))) == bddFalse {
		return stProved, ""
	}
	k, w := refuteEq(want, got, pc)
	if k == refWitness {
		return stViolated, fmt.Sprintf("what the standard says %s: computed %v, prescribed %v", w, got, want)
	}
	return stUnresolved, "not unified, but " + w
}

// meaningUnit compares flag words, parameters, items and codes with the standard
func (p *Program) meaningUnit(rep *Report) {
	rtMode = true
	q, err := loadLayouts(p.dir)
	if err != nil {
		rep.Obs = append(rep.Obs, Ob{Rule: "meaning", What: "all", Status: stUnresolved, Detail: cut(err.Error(), 300)})
		return
	}
	for _, m := range regexp.MustCompile(`func vpGot_(\w+)`).FindAllStringSubmatch(layoutMeanings, -1) {
		name := m[1]
		got, want := q.proto.Func("vpGot_"+name), q.proto.Func("vpWant_"+name)
		o := Ob{Rule: "meaning", What: strings.ReplaceAll(name, "_", " "), Status: stUnresolved, Detail: "no reference that fits the current definitions"}
		if got != nil && want != nil {
			o.Pos = q.usedIn(got)
			func() {
				defer func() {
					if x := recover(); x != nil {
						o.Status, o.Detail = stUnresolved, fmt.Sprint(x)
					}
				}()
				in := newInterp(q)
				in.rt = true
				in.rtName = "value"
				st := newState()
				var args []*T
				for _, v := range got.Params {
					args = append(args, in.fromAtom(mkSym("e."+v.Name()), v.Type()))
				}
				st2 := st.clone()
				x := in.call(st, got, args, nil, nil, nil)
				y := in.call(st2, want, args, nil, nil, nil)
				typ := got.Signature.Results().At(0).Type()
				if _, ok := typ.Underlying().(*types.Slice); ok {
					x = in.content(st, x)
					for k, v := range st.heap {
						if _, ok := st2.heap[k]; !ok {
							st2.heap[k] = v
						}
					}
					y = in.content(st2, y)
					typ = types.Typ[types.String]
				}
				dom := map[string]bool{}
				o.Status, o.Detail = q.same(in, st2, typ, y, x, bddAnd(st.pc, st2.pc))
				o.Domain = strings.Join(sortedKeys(dom), "; ")
				o.Detail = cut(o.Detail, 500)
			}()
			rep.Funcs = append(rep.Funcs, got.String())
		}
		rep.Obs = append(rep.Obs, o)
	}
}

// frameLayoutUnit compares headers and frames with the prescribed form
func (p *Program) frameLayoutUnit(args []string, rep *Report) {
	q, err := loadLayouts(p.dir)
	if err != nil {
		rep.Obs = append(rep.Obs, Ob{Rule: "layout", What: args[0], Status: stUnresolved, Detail: cut(err.Error(), 300)})
		return
	}
	ref := q.proto.Func("vpRef_" + args[0])
	r2 := &Report{}
	done := false
	afterWire = func(in *Interp, ost *State, orig, wire *T, pc *BDD, tag, pos string) {
		done = true
		o := Ob{Rule: "layout", What: args[0] + tag, Pos: pos, Status: stUnresolved, Detail: "no reference that fits the current definitions"}
		if ref != nil {
			st := ost.clone()
			x := in.content(st, in.call(st, ref, []*T{orig}, nil, nil, nil))
			o.Status, o.Detail = q.same(in, st, types.Typ[types.String], x, wire, bddAnd(pc, st.pc))
			o.Detail = cut(o.Detail, 500)
		}
		rep.Obs = append(rep.Obs, o)
	}
	if args[0] == "header" {
		d, _ := strconv.ParseInt(args[1], 10, 64)
		q.headerUnit(d, args[2] == "pkt", r2)
	} else {
		q.frameUnit(args[1], r2)
	}
	rep.Funcs = append(rep.Funcs, r2.Funcs...)
	rep.Obs = append(rep.Obs, r2.Obs...)
	if !done {
		rep.Obs = append(rep.Obs, Ob{Rule: "layout", What: strings.Join(args, " "), Status: stUnresolved, Detail: "not encoded"})
	}
}

// usedIn names the place of the first function of the repository f calls
func (p *Program) usedIn(f *ssa.Function) string {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && !strings.Contains(g.Name(), "vp") && isRepoFn(g) {
					return p.pos(g.Pos())
				}
			}
		}
	}
	return ""
}

// layoutUnit compares what a message's encoder writes with what the standard
// prescribes for the same value
func (p *Program) layoutUnit(key int64, rep *Report) {
	q, err := loadLayouts(p.dir)
	if err != nil {
		rep.Obs = append(rep.Obs, Ob{Rule: "layout", What: fmt.Sprintf("%04x", key), Status: stUnresolved, Detail: cut(err.Error(), 300)})
		return
	}
	for _, e := range q.registry(q.proto, "entityMapper") {
		if e.key != key || e.typ == nil {
			continue
		}
		name := e.typ.Obj().Name()
		enc := q.methodOf(e.typ, "Encode")
		if enc == nil {
			continue
		}
		pos := q.pos(enc.Pos())
		add := func(what, status, detail string, dom map[string]bool) {
			rep.Obs = append(rep.Obs, Ob{Rule: "layout", What: what, Pos: pos, Status: status, Detail: cut(detail, 700), Domain: strings.Join(sortedKeys(dom), "; ")})
		}
		rep.Funcs = append(rep.Funcs, enc.String())
		try := func(ref string) (string, string, map[string]bool) {
			f := q.proto.Func(ref)
			if f == nil {
				return stUnresolved, "no reference that fits the message's fields", nil
			}
			r := q.roundTripEnc(e.typ)
			r.pc = r.est.pc
			dom := map[string]bool{}
			ok := domainTrue(bddNot(r.encErr), dom)
			if ok == bddFalse {
				return stUnresolved, "Encode refuses", dom
			}
			o := getObj("entity:"+name, e.typ)
			st := newState()
			st.heap[o] = r.orig
			x := r.in.call(st, f, []*T{mkPtr(o)}, nil, nil, nil)
			pc := bddAnd(r.pc, st.pc)
			fs := e.typ.Underlying().(*types.Struct)
			for i := 0; i < fs.NumFields(); i++ {
				if typeName(fs.Field(i).Type()) == "io.Reader" {
					pc = bddAnd(pc, isNil(r.orig.a[i]))
					dom["without attached stream"] = true
				}
			}
			ref1 := assume(r.in.content(st, x), pc)
			wire := assume(r.wire, pc)
			if os.Getenv("GSA_DEBUG2") != "" {
				fmt.Fprintln(os.Stderr, "ref ", ref1)
				fmt.Fprintln(os.Stderr, "wire", wire)
				fmt.Fprintln(os.Stderr, "pc", mkB(pc))
			}
			if wire == ref1 {
				return stProved, "", dom
			}
			for _, t := range []*T{wire, ref1, mkB(pc)} {
				if u := unresolvedAtom(t); u != "" {
					return stUnresolved, "depends on " + u, dom
				}
			}
			c := &cmp{r: r, st: st, pos: pos, dom: map[string]bool{}, geo: map[string]string{}}
			fuel := 400
			if c.sameSeq(ref1, wire, pc, &fuel) {
				return stProved, "", dom
			}
			k, w := refuteEq(ref1, wire, pc)
			if k == refWitness {
				return stViolated, fmt.Sprintf("the standard's form %s: written %v, prescribed %v", w, wire, ref1), dom
			}
			return stUnresolved, "not unified, but " + w, dom
		}
		hex := fmt.Sprintf("%04x", key)
		s, d, dom := try("vpRef_" + hex)
		if specLen < 0 && q.proto.Func("vpStd_"+hex) != nil {
			s2, d2, dom2 := try("vpStd_" + hex)
			add(name+" as prescribed for every combination of flags", s2, d2, dom2)
			if s2 == stProved {
				s, d, dom = s2, d2, dom2
			}
		}
		add(name, s, d, dom)
		if specLen >= 0 {
			for i := range rep.Obs {
				rep.Obs[i].What += fmt.Sprintf("{lists of %d, texts of %d}", specLen, specText)
			}
		}
	}
}

// sameSeq proves two sequences equal by cases over the conditions in them
func (c *cmp) sameSeq(a, b *T, pc *BDD, fuel *int) bool {
	if pc == bddFalse {
		return true
	}
	a, b = assume(a, pc), assume(b, pc)
	if a == b {
		return true
	}
	if *fuel--; *fuel < 0 {
		return false
	}
	for _, s := range []*T{a, b} {
		for _, g := range s.a {
			if g.isOp("ites") {
				return c.sameSeq(a, b, bddAnd(pc, g.a[0].b), fuel) && c.sameSeq(a, b, bddAnd(pc, bddNot(g.a[0].b)), fuel)
			}
		}
	}
	if len(a.a) != len(b.a) {
		return false
	}
	for i, x := range a.a {
		y := b.a[i]
		switch {
		case x == y:
		case x.isOp("unit") && y.isOp("unit"):
			if !c.sameBits(x.a[0], y.a[0], 8, pc) {
				return false
			}
		case x.isOp("rep") && y.isOp("rep") && x.a[0] == y.a[0] && proveEq(x.a[1], y.a[1], pc):
			if !c.sameSeq(x.a[2], y.a[2], bddAnd(pc, lt(x.a[0], x.a[1])), fuel) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sameBits proves two numbers equal, bit by bit
func (c *cmp) sameBits(a, b *T, w int, pc *BDD) bool {
	if a == b || proveEq(a, b, pc) {
		return true
	}
	x, y := toBits(a, w), toBits(b, w)
	for i := range x {
		if bddAnd(pc, bddOr(bddAnd(x[i], bddNot(y[i])), bddAnd(y[i], bddNot(x[i])))) != bddFalse {
			return false
		}
	}
	return true
}
