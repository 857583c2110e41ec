package main

import "strings"

// isolation: a panic of a user's function is caught below the session loop, and
// leaves no lock held
func (w *world) isolation(add func(rule, what, status, detail string)) {
	seen := map[string]bool{}
	for _, e := range w.evs {
		if !strings.HasPrefix(e.name, "user:") {
			continue
		}
		what := strings.TrimPrefix(e.name, "user:")
		at := "?"
		if e.ins != nil {
			at = e.ins.Parent().Name()
		}
		what += " called in " + at
		report := func(what, status, detail string) {
			if k := what + status; !seen[k] {
				seen[k] = true
				add("isolated", what, status, detail)
			}
		}
		switch {
		case e.guard < 0:
			report(what+" caught", stViolated, "a panic is not caught: "+strings.Join(e.stack, " < "))
		case e.loop:
			report(what+" caught", stViolated, "a panic ends the session: "+strings.Join(e.stack, " < "))
		default:
			report(what+" caught", stProved, "")
		}
		free := true
		for _, h := range e.held {
			if k, x := feasible(h.c); k == feasWitness || h.c == e.pc {
				free = false
				report(what+" without locks", stViolated, "called while "+h.name+" is locked "+x)
			} else if k == feasUnknown {
				free = false
				report(what+" without locks", stUnresolved, h.name)
			}
		}
		if free {
			report(what+" without locks", stProved, "")
		}
	}
}
