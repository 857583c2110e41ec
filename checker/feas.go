package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- linear feasibility

const (
	feasNone    = iota // no assignment satisfies the condition
	feasWitness        // one is given
	feasUnknown
)

// feasible searches the condition's cubes for one whose linear part has a solution
func feasible(b *BDD) (int, string) {
	if b == bddFalse {
		return feasNone, ""
	}
	simple := true
	for _, a := range bddSupport(b) {
		if a.isOp("le0") || a.isOp("eq") && a.a[1].isInt(0) {
			for _, x := range linOf(a.a[0]).atoms() {
				if x.k != KSym {
					simple = false
				}
			}
		} else if a.k != KSym && !(a.isOp("isnil") && a.a[0].isOp("perr")) && !a.isOp("nobody") {
			simple = false
		}
	}
	n := 0
	unknown := false
	wit := ""
	var walk func(b *BDD, facts []lin, ne []lin, path []string) bool
	walk = func(b *BDD, facts []lin, ne []lin, path []string) bool {
		n++
		if n > 20000 {
			unknown = true
			return true
		}
		if b == bddFalse {
			return false
		}
		if b == bddTrue {
			m, ok, exact := solve(facts, ne)
			if !exact {
				unknown = true
				return false
			}
			if !ok {
				return false
			}
			if !simple {
				unknown = true
				return true
			}
			var ks []string
			for a, v := range m {
				ks = append(ks, fmt.Sprintf("%s=%d", a, v))
			}
			sort.Strings(ks)
			wit = strings.Join(append(ks, path...), " ")
			return true
		}
		a := b.atom
		for _, hi := range []bool{true, false} {
			nx := b.lo
			if hi {
				nx = b.hi
			}
			if nx == bddFalse {
				continue
			}
			f, e, p := facts, ne, path
			switch {
			case a.isOp("le0"):
				x := linOf(a.a[0])
				if !hi {
					x = lin{c: 1, m: map[*T]int64{}}.addScaled(x, -1)
				}
				f = append(append([]lin{}, facts...), x)
				if _, ok, _ := solve(f, nil); !ok {
					continue
				}
			case a.isOp("eq") && a.a[1].isInt(0):
				x := linOf(a.a[0])
				if hi {
					f = append(append([]lin{}, facts...), x, lin{m: map[*T]int64{}}.addScaled(x, -1))
				} else {
					e = append(append([]lin{}, ne...), x)
				}
			default:
				p = append(append([]string{}, path...), fmt.Sprintf("%s=%v", cut(a.String(), 40), hi))
			}
			if walk(nx, f, e, p) {
				return true
			}
		}
		return false
	}
	found := walk(b, nil, nil, nil)
	switch {
	case unknown:
		return feasUnknown, ""
	case found:
		return feasWitness, wit
	}
	return feasNone, ""
}

// solve finds integers for a set of constraints l <= 0 and l != 0 (ok), or
// shows there are none (!ok); exact is false where it gives up
func solve(facts, ne []lin) (map[*T]int64, bool, bool) {
	atoms := map[*T]bool{}
	for _, f := range append(append([]lin{}, facts...), ne...) {
		for a := range f.m {
			atoms[a] = true
		}
	}
	cur := append([]lin{}, facts...)
	for a := range atoms {
		lo, lk, hi, hk := rng(a)
		if lk {
			cur = append(cur, lin{c: lo, m: map[*T]int64{a: -1}})
		}
		if hk {
			cur = append(cur, lin{c: -hi, m: map[*T]int64{a: 1}})
		}
	}
	// a disequality is one of two strict inequalities
	if len(ne) > 0 {
		x := ne[0]
		exact := true
		for _, y := range []lin{x.addScaled(lin{c: 1}, 1), lin{c: 1, m: map[*T]int64{}}.addScaled(x, -1)} {
			m, ok, e := solve(append(append([]lin{}, facts...), y), ne[1:])
			if ok && e {
				return m, true, true
			}
			exact = exact && e
		}
		return nil, false, exact
	}
	type step struct {
		a  *T
		cs []lin
	}
	var steps []step
	var order []*T
	for a := range atoms {
		order = append(order, a)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	for len(order) > 0 {
		// cheapest variable first
		best, cost := -1, 0
		for i, a := range order {
			p, n := 0, 0
			for _, l := range cur {
				if l.m[a] > 0 {
					p++
				} else if l.m[a] < 0 {
					n++
				}
			}
			if best < 0 || p*n < cost {
				best, cost = i, p*n
			}
		}
		a := order[best]
		order = append(append([]*T{}, order[:best]...), order[best+1:]...)
		var up, dn, rest []lin
		for _, l := range cur {
			switch {
			case l.m[a] > 0:
				up = append(up, l)
			case l.m[a] < 0:
				dn = append(dn, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(up)*len(dn) > 4000 {
			return nil, true, false
		}
		steps = append(steps, step{a, append(append([]lin{}, up...), dn...)})
		seen := map[string]bool{}
		for _, u := range up {
			for _, d := range dn {
				n := lin{m: map[*T]int64{}}.addScaled(u, -d.m[a]).addScaled(d, u.m[a])
				if len(n.atoms()) == 0 {
					if n.c > 0 {
						return nil, false, true
					}
					continue
				}
				k := n.term().String()
				if !seen[k] {
					seen[k] = true
					rest = append(rest, n)
				}
			}
		}
		cur = rest
	}
	for _, l := range cur {
		if len(l.atoms()) == 0 && l.c > 0 {
			return nil, false, true
		}
	}
	// back substitution
	m := map[*T]int64{}
	for i := len(steps) - 1; i >= 0; i-- {
		s := steps[i]
		lo, hi := int64(-1<<60), int64(1<<60)
		for _, l := range s.cs {
			v := l.c
			for x, k := range l.m {
				if x != s.a {
					v += k * m[x]
				}
			}
			k := l.m[s.a]
			if k > 0 { // k*a <= -v
				if q := floorDiv(-v, k); q < hi {
					hi = q
				}
			} else { // a >= v/-k
				if q := -floorDiv(-v, -k); q > lo {
					lo = q
				}
			}
		}
		if lo > hi {
			return nil, true, false
		}
		switch {
		case lo <= 0 && hi >= 0:
			m[s.a] = 0
		case lo > 0:
			m[s.a] = lo
		default:
			m[s.a] = hi
		}
	}
	return m, true, true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
