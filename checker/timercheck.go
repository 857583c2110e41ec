package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

// timerUnit: sequences of starts, removals and ticks of the countdown timer.
// Ops: uX starts or restarts key X, rX removes it, t is a tick of the checker.
// UX starts key X while another goroutine does the same, VX starts key X while
// another starts key z, RX removes key X while another starts key z; the other
// comes in between two critical sections (number at the end of the unit).
func (p *Program) timerUnit(ops string, rep *Report) {
	w := p.newWorld()
	w.ordered = true
	in := w.in
	tag := "{" + ops + "}"
	f := p.fn(p.root, "NewCountdownTimer")
	pos := ""
	if f != nil {
		pos = p.pos(f.Pos())
	}
	add := func(rule, what, status, detail string) {
		rep.Obs = append(rep.Obs, Ob{Rule: rule, What: what + tag, Pos: pos, Status: status, Detail: cut(detail, 500)})
	}
	if f == nil || len(f.Params) != 2 {
		add("timer", "constructor", stUnresolved, "countdown timer not found")
		return
	}
	st := newState()
	secs := mkSym("secs")
	secs.setRange(1, true, 1<<30, true)
	tm := assume(in.call(st, f, []*T{secs, userFn("expired")}, nil, nil, nil), st.pc)
	if tm == nil || tm.k != KPtr || len(w.goFns) != 1 {
		add("timer", "constructor", stUnresolved, "countdown timer not understood")
		return
	}
	tt, _ := tm.obj.typ.(*types.Named)
	if tt == nil {
		add("timer", "constructor", stUnresolved, "timer type not understood")
		return
	}
	type key struct {
		alive *BDD
		exp   *T
	}
	gapAt := int64(0)
	hit := bddFalse
	if i := strings.IndexByte(ops, '@'); i > 0 {
		fmt.Sscan(ops[i+1:], &gapAt)
		ops = ops[:i]
	}
	segs := strings.Split(strings.TrimSuffix(ops, "t"), "t")
	st.heap[w.tickCnt] = mkInt(0)
	newSecs := func(k string) *T {
		s := mkSym("secs" + k)
		s.setRange(1, true, 1<<30, true)
		return s
	}
	// the environment acts between ticks; after the last one nothing happens any more
	seen := map[int]bool{}
	runs := make([]*BDD, len(segs))
	for i := range runs {
		runs[i] = bddFalse
	}
	tick := func(in *Interp, st *State) {
		if in.quiet > 0 {
			return
		}
		n := assume(st.heap[w.tickCnt], st.pc)
		if n.k != KConst {
			w.fail("ticks not counted")
			st.pc = bddFalse
			return
		}
		i := int(n.i)
		seen[i] = true
		if i > 0 {
			runs[i-1] = bddOr(runs[i-1], st.pc)
		}
		if i >= len(segs) {
			st.pc = bddFalse
			return
		}
		for j := 0; j+1 < len(segs[i]); j += 2 {
			k := segs[i][j+1 : j+2]
			w.step(st)
			switch segs[i][j] {
			case 'u':
				w.api(st, tm, tt, "Update", constString(k))
			case 'r':
				w.api(st, tm, tt, "Remove", constString(k))
			case 's':
				w.api(st, tm, tt, "SetExpiration", newSecs(k))
			case 'U', 'V', 'R':
				op, other := "Update", k
				if segs[i][j] == 'R' {
					op = "Remove"
				}
				if segs[i][j] != 'U' {
					other = "z"
				}
				c := w.interrupted(st, gapAt, func(st *State) { w.api(st, tm, tt, op, constString(k)) }, func(st *State) { w.api(st, tm, tt, "Update", constString(other)) })
				hit = bddOr(hit, c)
			}
		}
		w.step(st)
		st.heap[w.tickCnt] = mkInt(n.i + 1)
	}
	in.hooks["time.Sleep"] = func(in *Interp, st *State, c *callCtx) (*T, bool) { tick(in, st); return nil, true }
	in.blockHook = blockOf(tick)
	g := w.goFns[0]
	w.callFn(st, g.args[0], "checker", g.args[1:]...)
	w.addNotes(rep)
	if len(seen) != len(segs)+1 {
		w.fail("%d of %d ticks seen", len(seen), len(segs))
	}
	if !w.followed() {
		add("timer", "followed", stUnresolved, strings.Join(w.unclear, "; "))
		return
	}
	// the ticks against what should expire
	keys := map[string]*key{}
	ci := int64(0)
	for i, seg := range segs {
		for j := 0; j+1 < len(seg); j += 2 {
			k := seg[j+1 : j+2]
			ci++
			switch seg[j] {
			case 'u', 'U', 'V', 'R':
				if seg[j] != 'R' {
					keys[k] = &key{bddTrue, add2(clockSym(ci), secs)}
				} else {
					keys[k] = &key{bddFalse, mkInt(0)}
				}
				if seg[j] == 'V' || seg[j] == 'R' {
					// the other goroutine, if there was a place for it
					keys["z"] = &key{hit, add2(clockSym(ci), secs)}
				}
			case 'r':
				keys[k] = &key{bddFalse, mkInt(0)}
			case 's':
				secs = newSecs(k)
			}
		}
		ci++
		now := clockSym(ci)
		run := runs[i]
		got := map[string][]sev{}
		for _, e := range w.evs {
			if e.tick != int64(i)+1 {
				continue
			}
			if e.name != "user:expired" {
				continue
			}
			arg := in.content(e.st, assume(e.args[0], e.pc))
			rest := e.pc
			for k := range keys {
				c := bddAnd(e.pc, eqTerm(arg, constString(k)))
				rest = bddAnd(rest, bddNot(c))
				if c != bddFalse {
					x := e
					x.pc = c
					got[k] = append(got[k], x)
				}
			}
			if rest != bddFalse {
				x := e
				x.pc = rest
				got["?"] = append(got["?"], x)
			}
			for _, h := range e.held {
				add("timer", fmt.Sprintf("tick %d free of locks", i), stViolated, "the expiry callback runs while "+h.name+" is locked")
			}
		}
		if run == bddFalse {
			add("timer", fmt.Sprintf("tick %d", i), stUnresolved, "tick not followed")
			return
		}
		for k, s := range keys {
			any, twice := when(got[k])
			c := bddAnd(s.alive, le(s.exp, now))
			w1 := fmt.Sprintf("tick %d %s", i, k)
			p.condOb(add, "timer", w1+" expires", bddNot(bddAnd(run, bddAnd(c, bddNot(any)))), "a key whose time is up does not expire")
			p.condOb(add, "timer", w1+" not early", bddNot(bddAnd(run, bddAnd(bddNot(c), any))), "a key expires that is removed, restarted or not due")
			p.condOb(add, "timer", w1+" once", bddNot(twice), "a key expires twice")
			s.alive = bddAnd(s.alive, bddNot(c))
			delete(got, k)
		}
		for k, es := range got {
			any, _ := when(es)
			p.condOb(add, "timer", fmt.Sprintf("tick %d %s unknown", i, k), bddNot(any), "a key expires that was never started")
		}
	}
	for _, o := range p.obOf(in, "no-panic", "timer"+tag) {
		if o.Status == stViolated {
			o.Rule = "timer"
			rep.Obs = append(rep.Obs, o)
		}
	}
}

func blockOf(f func(in *Interp, st *State)) func(in *Interp, st *State, ins ssa.Instruction) {
	return func(in *Interp, st *State, ins ssa.Instruction) { f(in, st) }
}

func add2(a, b *T) *T { return add(a, b) }

func tmJobs(P *Program, tier string) []unitJob {
	var out []unitJob
	for _, o := range []string{"uat", "uaubt", "uaubuat", "uaratt", "uarauat", "uatuat", "uaubtt", "uaubucrbt", "uaubucuat", "uaubucubt", "ratuat", "uaubracct", "uasbubt", "uaubucrat", "uaubucratt", "uaubtuat",
		"uasbububt", "uasbubuat", "uasbubrat", "uaubscucubt", "uaubscucuatt", "uaubscucrbt", "uaubucudrbudtt"} {
		o = strings.ReplaceAll(o, "cc", "uc")
		out = append(out, unitJob{args: []string{"tm", o}})
	}
	// every two operations on four running keys
	for _, x := range []string{"ua", "ub", "uc", "ud", "ra", "rb", "rc", "rd"} {
		for _, y := range []string{"ua", "ub", "uc", "ud", "ra", "rb", "rc", "rd"} {
			out = append(out, unitJob{args: []string{"tm", "uaubucud" + x + y + "t"}})
		}
	}
	for _, o := range []string{"uaUat", "Uat", "uaUaubtt", "uaVat", "uaubRat", "uaUaratt", "uaUauat"} {
		for k := 1; k <= 3; k++ {
			out = append(out, unitJob{args: []string{"tm", fmt.Sprint(o, "@", k)}})
		}
	}
	return out
}

func firstKey(m map[string]bool) string {
	for k := range m {
		return k
	}
	return ""
}
