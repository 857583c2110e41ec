package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// domainTrue rewrites the conditions a caller can exclude up front to true
func domainTrue(b *BDD, dom map[string]bool) *BDD {
	for _, a := range bddSupport(b) {
		switch {
		case a.isOp("isnil") && a.a[0].isOp("perr") && (strings.Contains(a.a[0].String(), "encerr(") && a.a[0].a[0].isOp("encerr")):
			dom["texts are representable in the wire character set"] = true
			b = bddCofactor(b, a, true)
		case a.isOp("isnil") && a.a[0].isOp("perr") && strings.HasPrefix(a.a[0].a[0].op, "parsetime:") && strings.Contains(a.a[0].a[0].String(), "fmttime:"):
			dom["times of the years 2000-2099"] = true
			b = bddCofactor(b, a, true)
		case a.isOp("le0"):
			// a text or list whose length fits its one- or two-byte prefix
			l := linOf(a.a[0])
			if len(l.m) == 1 && (l.c == -255 || l.c == -65535) {
				for x, k := range l.m {
					if k == 1 && x.isOp("len") {
						dom["texts and lists fit their length prefix"] = true
						b = bddCofactor(b, a, true)
					}
				}
			}
		}
	}
	return b
}

// checkRT decides the round-trip obligations of one message type
func (p *Program) checkRT(e regEntry) []Ob {
	dn := "Decode"
	if p.methodOf(e.typ, "DecodePacket") != nil {
		dn = "DecodePacket"
	}
	name := e.typ.Obj().Name()
	pos := p.pos(e.typ.Obj().Pos())
	encf, decf := p.methodOf(e.typ, "Encode"), p.methodOf(e.typ, dn)
	if encf == nil || decf == nil {
		return []Ob{{Rule: "round-trip", What: name, Pos: pos, Status: stViolated, Detail: "no Encode/" + dn + " method"}}
	}
	r := p.roundTrip(e.typ, dn)
	c := &cmp{r: r, st: r.st, pos: p.pos(decf.Pos()), dom: map[string]bool{}, geo: map[string]string{}}
	cond := func(rule, what string, b *BDD, where string, msg string) {
		d := map[string]bool{}
		b2 := domainTrue(bddNot(xall(bddNot(b))), d)
		o := Ob{Rule: rule, What: what, Pos: where, Domain: strings.Join(sortedKeys(d), "; ")}
		switch {
		case b2 == bddTrue:
			o.Status = stProved
		case b2 == bddFalse:
			o.Status, o.Detail = stViolated, msg+": always"
		default:
			t := mkB(b2)
			o.Status, o.Detail = stViolated, cut(fmt.Sprintf("%s unless %v", msg, t), 700)
			if k, w := refuteCond(b2, bddTrue); k == refWitness {
				o.Detail = w + ": " + o.Detail
			} else if k == refNone {
				o.Status, o.Detail = stUnresolved, "condition not proved, but "+w
			}
			if u := unresolvedAtom(t); u != "" {
				o.Status, o.Detail = stUnresolved, cut("condition depends on "+u, 300)
				if os.Getenv("GSA_DEBUG2") != "" {
					for _, l := range bddLits(bddNot(b2)) {
						fmt.Fprintln(os.Stderr, l.pos, l.atom)
					}
					fmt.Fprintln(os.Stderr, t)
				}
			}
		}
		c.obs = append(c.obs, o)
	}
	// 1. Encode accepts the value
	encOK := bddNot(r.encErr)
	if e.key != 0x0A00 && e.key != 0x8A00 && dn != "DecodePacket" {
		cond("encodes", name, encOK, p.pos(encf.Pos()), "a valid value is refused by Encode")
	}
	// 2. Decode accepts what Encode produced
	okc := isNil(r.decErr)
	dom := bddTrue
	_ = dom
	bad := bddAnd(r.pc, bddNot(okc))
	cond("decodes", name, bddNot(bad), p.pos(decf.Pos()), "Decode refuses what Encode produced")
	if r.pc == bddFalse {
		c.add("decodes", name, stViolated, "Decode never returns normally on what Encode produced")
		return c.obs
	}
	pc := bddAnd(r.pc, okc)
	if pc == bddFalse {
		return c.obs
	}
	// 3. fields come back
	st := e.typ.Underlying().(*types.Struct)
	dv := assume(r.decoded, pc)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if dv.k == KStruct {
			c.eq(name+"."+f.Name(), f.Type(), r.orig.a[i], dv.a[i], pc)
		} else {
			c.fail(name+"."+f.Name(), r.orig.a[i], dv, pc)
		}
	}
	// 4. the flag bits that carry the signs of different coordinates differ
	byBit := map[string]string{}
	for _, path := range sortedKeysS(c.geo) {
		b := c.geo[path]
		if o, ok := byBit[b]; ok && isLat(lastSeg(o)) != isLat(lastSeg(path)) {
			c.add("round-trip", path, stViolated, fmt.Sprintf("sign carried by the same flag bit %s as %s", b, o))
		}
		byBit[b] = path
	}
	// 5. everything that was written is reported as consumed
	if r.count != nil {
		n := assume(r.count, pc)
		s := "proved"
		det := ""
		if !c.sameLen(n, seqLen(r.wire), pc) {
			s, det = stViolated, cut(fmt.Sprintf("Decode reports %v consumed of %v written", n, seqLen(r.wire)), 500)
			if unresolvedAtom(n) != "" {
				s = stUnresolved
			} else if k, w := refuteEq(seqLen(r.wire), n, pc); k == refNone {
				s, det = stUnresolved, w
			} else if k == refWitness {
				det = w + ": " + det
			}
		}
		c.obs = append(c.obs, Ob{Rule: "consumed", What: name, Pos: p.pos(decf.Pos()), Status: s, Detail: det})
	}
	for _, o := range r.in.obligs {
		if !o.ok {
			// decoding a well-formed body must not panic
			c.add("no-panic", name+":"+o.kind, stUnresolved, p.pos(o.pos)+" "+o.detail)
		}
	}
	return c.obs
}

func isLat(s string) bool { return strings.Contains(strings.ToLower(s), "lat") }

func lastSeg(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i:]
	}
	return s
}

func sortedKeysS(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// sameLen proves a == b under pc, using that empty texts encode to nothing
func (c *cmp) sameLen(a, b *T, pc *BDD) bool {
	if proveEq(a, b, pc) {
		return true
	}
	if g := firstGate(a); g != nil {
		for _, v := range []*BDD{g, bddNot(g)} {
			q := bddAnd(pc, v)
			if q == bddFalse {
				continue
			}
			x, y := assume(a, q), assume(b, q)
			if ls := bddLits(v); len(ls) == 1 && ls[0].pos && ls[0].atom.isOp("le0") {
				if t := ls[0].atom.a[0]; t.isOp("len") {
					m := map[*T]*T{t: mkInt(0), subSeg(t.a[0], mkInt(0), t): seqEmpty}
					x, y = emptied(x, t.a[0]), emptied(y, t.a[0])
					_ = m
				}
			}
			if x == a && y == b || !c.sameLen(x, y, q) {
				return false
			}
		}
		return true
	}
	if g := firstGate(b); g != nil {
		return c.sameLen(b, a, pc)
	}
	return false
}

// emptied rewrites t for the case that the text s is empty
func emptied(t, s *T) *T {
	m := map[*T]*T{lenOf(s): mkInt(0)}
	var w func(*T)
	seen := map[*T]bool{}
	w = func(x *T) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.isOp("len") && x.a[0].isOp("tenc") && x.a[0].a[1] == seqAtom(s) {
			m[x] = mkInt(0)
		}
		for _, y := range x.a {
			w(y)
		}
	}
	w(t)
	return subst(t, m)
}

func firstGate(t *T) *BDD {
	if t.k == KIte {
		return t.a[0].b
	}
	if t.k == KLin {
		for _, x := range t.a {
			if x.k == KIte {
				return x.a[0].b
			}
		}
	}
	return nil
}
