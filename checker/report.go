package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Ob is one obligation: a rule applied to a construct of the source.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Pos       string `json:"pos,omitempty"`
	Detail    string `json:"detail,omitempty"`
}

func (o *Ob) key() string { return o.Rule + " @ " + o.Construct }

// Report collects what a check decided.
type Report struct {
	mu     sync.Mutex
	prop   string
	tier   string
	obs    map[string]*Ob
	order  []string
	counts map[string]int
	mins   map[string]int
	funcs  map[string]bool
	notes  []string
	assume []string
}

func newReport(prop, tier string) *Report {
	return &Report{prop: prop, tier: tier, obs: map[string]*Ob{}, counts: map[string]int{}, mins: map[string]int{}, funcs: map[string]bool{}}
}

// Ob records an obligation; one that fails in any of several cases fails.
func (R *Report) Ob(rule, construct string, ok bool, pos, detail string, args ...interface{}) bool {
	R.mu.Lock()
	defer R.mu.Unlock()
	k := rule + " @ " + construct
	if len(args) > 0 {
		detail = fmt.Sprintf(detail, args...)
	}
	o := R.obs[k]
	if o == nil {
		o = &Ob{Rule: rule, Construct: construct, OK: true}
		R.obs[k] = o
		R.order = append(R.order, k)
	}
	if !ok && o.OK {
		o.OK, o.Pos, o.Detail = false, pos, detail
	}
	if ok && o.OK && o.Pos == "" {
		o.Pos = pos
	}
	return ok
}

// Undecided records that the analysis could not decide, which is a failure.
func (R *Report) Undecided(construct, why string, args ...interface{}) {
	if len(args) > 0 {
		why = fmt.Sprintf(why, args...)
	}
	R.Ob("the analysis decides", construct, false, "", "%s", why)
}

func (R *Report) Count(what string, n int) {
	R.mu.Lock()
	R.counts[what] += n
	R.mu.Unlock()
}

// AtLeast fails the check if it covered fewer instances of something than it has to.
func (R *Report) AtLeast(what string, n int) {
	R.mu.Lock()
	R.mins[what] = n
	R.mu.Unlock()
}

func (R *Report) Note(s string, a ...interface{}) {
	R.mu.Lock()
	R.notes = append(R.notes, fmt.Sprintf(s, a...))
	R.mu.Unlock()
}

// Assume records something the result rests on.
func (R *Report) Assume(s string) {
	R.mu.Lock()
	defer R.mu.Unlock()
	for _, x := range R.assume {
		if x == s {
			return
		}
	}
	R.assume = append(R.assume, s)
}

// took adds what an engine analysed and what it could not.
func (R *Report) took(E *Engine, what string) {
	for fn := range E.funcs {
		R.mu.Lock()
		R.funcs[fn.String()] = true
		R.mu.Unlock()
	}
	for _, u := range E.undecided {
		R.Undecided(what, "%s", u)
	}
}

type propInfo struct {
	ID, Title string
}

// knownFindings reads the findings of a property that are recorded and not repaired.
func knownFindings(file, prop string) map[string]bool {
	r := map[string]bool{}
	f, err := os.Open(file)
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		pre := "finding: property=" + prop + " "
		if strings.HasPrefix(l, pre) {
			r[strings.TrimSpace(strings.TrimPrefix(l, pre))] = true
		}
	}
	return r
}

func protect(R *Report, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 24 {
				st = st[:24]
			}
			R.Undecided(what, "the analysis panicked: %v\n%s", e, strings.Join(st, "\n"))
		}
	}()
	f()
}

// finish prints the result, writes the evidence and gives the exit code.
func (R *Report) finish(out, known, rule string, start time.Time) int {
	for what, n := range R.mins {
		R.Ob("enough instances were found", what, R.counts[what] >= n, "", "%d found, at least %d have to be", R.counts[what], n)
	}
	kf := knownFindings(known, R.prop)
	var bad []*Ob
	okN := 0
	rules := map[string]int{}
	for _, k := range R.order {
		o := R.obs[k]
		rules[o.Rule]++
		if o.OK {
			okN++
			continue
		}
		if kf[o.key()] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", R.prop, o.key())
			continue
		}
		bad = append(bad, o)
	}
	if len(R.order) == 0 {
		bad = append(bad, &Ob{Rule: "the analysis decides", Construct: "anything", Detail: "no obligation was generated"})
	}
	var fs []string
	for f := range R.funcs {
		fs = append(fs, strings.ReplaceAll(f, modPath, "speed"))
	}
	sort.Strings(fs)
	var viol []string
	for _, o := range bad {
		viol = append(viol, fmt.Sprintf("%s: %s [%s] %s", o.Construct, o.Rule, o.Pos, o.Detail))
	}
	var samples []string
	step := len(R.order)/12 + 1
	for i := 0; i < len(R.order); i += step {
		o := R.obs[R.order[i]]
		samples = append(samples, fmt.Sprintf("%s: %s [%s]", o.Construct, o.Rule, o.Pos))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": rule,
		"obligations": len(R.order), "discharged": okN, "obligations_by_rule": rules,
		"functions_analysed": len(fs), "functions": fs, "counts": R.counts, "samples": samples,
	}
	if len(R.notes) > 0 {
		cov["notes"] = R.notes
	}
	ev := map[string]interface{}{
		"property": R.prop, "tier": R.tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": R.assume, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	if R.assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(out, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, R.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions analysed, %.1fs\n", R.prop, len(R.order), okN, len(fs), time.Since(start).Seconds())
	var cs []string
	for k, n := range R.counts {
		cs = append(cs, fmt.Sprintf("  %s: %d", k, n))
	}
	sort.Strings(cs)
	for _, c := range cs {
		fmt.Println(c)
	}
	if len(bad) == 0 {
		return 0
	}
	replay := filepath.Join(out, R.prop+".violations.txt")
	os.WriteFile(replay, []byte(strings.Join(viol, "\n")+"\n"), 0644)
	for i, v := range viol {
		if i == 40 {
			fmt.Printf("  ... %d more\n", len(viol)-40)
			break
		}
		fmt.Println("  " + v)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", R.prop, replay)
	return 1
}
