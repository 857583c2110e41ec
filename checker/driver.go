package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Report is what one analysis unit produces.
type Report struct {
	Unit  string   `json:"unit"`
	Obs   []Ob     `json:"obs"`
	Funcs []string `json:"funcs"`
	Notes []string `json:"notes,omitempty"`
	Err   string   `json:"err,omitempty"`
}

type unitJob struct {
	args    []string
	timeout time.Duration
}

var repoDir = func() string {
	if d := os.Getenv("GSA_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

var verifDir = func() string {
	if d := os.Getenv("GSA_VERIF"); d != "" {
		return d
	}
	return "/verif"
}()

// runUnits runs analysis units in parallel subprocesses
func runUnits(jobs []unitJob) []Report {
	out := make([]Report, len(jobs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j unitJob) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, append([]string{"unit"}, j.args...)...)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
			done := make(chan error, 1)
			if err := cmd.Start(); err != nil {
				out[i] = Report{Unit: strings.Join(j.args, " "), Err: err.Error()}
				return
			}
			go func() { done <- cmd.Wait() }()
			to := j.timeout
			if to == 0 {
				to = 120 * time.Second
			}
			select {
			case err := <-done:
				if e := json.Unmarshal(so.Bytes(), &out[i]); e != nil {
					out[i].Err = fmt.Sprintf("%v: %v %s", e, err, cut(se.String(), 2000))
				}
			case <-time.After(to):
				cmd.Process.Kill()
				<-done
				out[i].Err = "analysis exceeded its time limit"
			}
			out[i].Unit = strings.Join(j.args, " ")
		}(i, j)
	}
	wg.Wait()
	return out
}

// unitMain runs one unit and prints its report
func unitMain(args []string) {
	rep := Report{}
	func() {
		defer func() {
			if x := recover(); x != nil {
				rep.Err = fmt.Sprint("analysis stopped: ", x)
				if os.Getenv("GSA_PANIC") != "" {
					panic(x)
				}
			}
		}()
		P, err := loadProgram(repoDir)
		if err != nil {
			rep.Err = "load: " + err.Error()
			return
		}
		runUnit(P, args, &rep)
	}()
	b, _ := json.Marshal(rep)
	os.Stdout.Write(b)
}

type finding struct {
	prop, what, text string
	fixed            bool
}

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		// finding: property=C04 rule=<rule> what=<construct> -- text
		f := finding{}
		head, text := l, ""
		if i := strings.Index(l, " -- "); i >= 0 {
			head, text = l[:i], l[i+4:]
		}
		for _, w := range strings.Fields(head) {
			if strings.HasPrefix(w, "property=") {
				f.prop = w[9:]
			}
			if strings.HasPrefix(w, "key=") {
				f.what = w[4:]
			}
		}
		f.text = text
		out = append(out, f)
	}
	return out
}

// checkSpec is the static description of one property's check
type checkSpec struct {
	id    string
	title string
	rules []string // rules whose obligations decide the property
	jobs  func(P *Program, tier string) []unitJob
	// optional second phase: jobs for units that stayed unresolved
	refine func(P *Program, reps []Report, tier string) []unitJob
	min    int // smallest number of obligations that is believable
	rule   string
	assume []string
	keep   func(o Ob) bool
}

func (o Ob) key() string { return strings.ReplaceAll(o.Rule+":"+o.What, " ", "_") }

func checkMain(id string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var sp *checkSpec
	for i := range checks {
		if checks[i].id == id {
			sp = &checks[i]
		}
	}
	if sp == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	P, err := loadProgram(repoDir)
	if err != nil {
		fmt.Println("cannot load /repo:", err)
		return 2
	}
	reps := runUnits(sp.jobs(P, tier))
	if sp.refine != nil {
		if more := sp.refine(P, reps, tier); len(more) > 0 {
			reps = append(reps, runUnits(more)...)
		}
	}
	known := loadFindings()
	var obs []Ob
	var errs []string
	funcs := map[string]bool{}
	for _, r := range reps {
		if r.Err != "" {
			errs = append(errs, r.Unit+": "+r.Err)
			if len(sp.rules) > 0 {
				obs = append(obs, Ob{Rule: sp.rules[0], What: "unit " + r.Unit, Status: stUnresolved, Detail: r.Err})
			}
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for _, o := range r.Obs {
			if len(sp.rules) > 0 {
				in := false
				for _, x := range sp.rules {
					if x == o.Rule {
						in = true
					}
				}
				if !in {
					continue
				}
			}
			if sp.keep != nil && !sp.keep(o) {
				continue
			}
			obs = append(obs, o)
		}
	}
	nProved, nUnres := 0, 0
	var viol []Ob
	dom := map[string]bool{}
	perRule := map[string]int{}
	var unres []string
	var samples []string
	seen := map[string]bool{}
	for _, o := range obs {
		perRule[o.Rule]++
		switch o.Status {
		case stProved:
			nProved++
			if len(samples) < 12 && (len(obs) < 40 || nProved%(len(obs)/12+1) == 0) {
				samples = append(samples, fmt.Sprintf("%s %s (%s)", o.Rule, o.What, o.Pos))
			}
		case stUnresolved:
			nUnres++
			unres = append(unres, fmt.Sprintf("%s %s: %s", o.Rule, o.What, cut(o.Detail, 160)))
		case stViolated:
			k := o.key()
			kn := false
			for _, f := range known {
				if f.prop == id && f.what == k {
					kn = true
					if !seen[k] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
					}
				}
			}
			if !kn && !seen[k] {
				viol = append(viol, o)
			}
			seen[k] = true
		}
		if o.Domain != "" {
			for _, d := range strings.Split(o.Domain, "; ") {
				dom[d] = true
			}
		}
	}
	if len(obs) < sp.min {
		viol = append(viol, Ob{Rule: "coverage", What: "obligations", Status: stViolated,
			Detail: fmt.Sprintf("only %d obligations could be formed, at least %d expected: the code this property is about is gone or unrecognisable; %s", len(obs), sp.min, cut(strings.Join(errs, " | "), 1500))})
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	replay := ""
	if len(viol) > 0 {
		os.MkdirAll(filepath.Join(verifDir, "evidence", "violations"), 0755)
		replay = filepath.Join(verifDir, "evidence", "violations", id+".txt")
		var sb strings.Builder
		for _, v := range viol {
			fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", v.Pos, v.Rule, v.What, v.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
		for i, v := range viol {
			if i == 20 {
				fmt.Printf("... %d more\n", len(viol)-20)
				break
			}
			fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.What, cut(v.Detail, 500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	}
	for _, e := range errs {
		fmt.Println("note: unit not decided:", cut(e, 300))
	}
	sort.Strings(unres)
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seedOf(), "level": "other",
		"coverage": map[string]interface{}{
			"explanation":          sp.rule,
			"obligations":          len(obs),
			"discharged":           nProved,
			"unresolved":           nUnres,
			"unresolved_list":      firstN(unres, 40),
			"obligations_per_rule": perRule,
			"units_analysed":       len(reps),
			"units_not_decided":    errs,
			"functions_analysed":   len(fl),
			"functions":            firstN(fl, 400),
			"samples":              samples,
		},
		"assumptions": append(append([]string{}, sp.assume...), sortedKeys(dom)...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0644)
	fmt.Printf("%s: %d obligations, %d discharged, %d not decided, %d violated (%d units, %.1fs)\n", id, len(obs), nProved, nUnres, len(viol), len(reps), time.Since(t0).Seconds())
	if len(viol) > 0 {
		return 1
	}
	return 0
}

func firstN(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func seedOf() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}
