package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one evaluation of the rules of one property.
type Run struct {
	p        *Prog
	id       string
	tier     string
	viols    []Finding
	known    []Finding
	oblig    map[string]int // obligations, by rule
	samples  []string
	funcs    map[string]bool // what was analysed
	notes    []string
	baseline map[string]string // known findings: key -> note
	mu       sync.Mutex
}

// each runs f for every name, several at a time.
func (r *Run) each(rule string, names []string, f func(name string)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for _, n := range names {
		wg.Add(1)
		sem <- struct{}{}
		go func(n string) {
			defer func() { <-sem; wg.Done() }()
			r.guard(rule, n, func() { f(n) })
		}(n)
	}
	wg.Wait()
}

// Finding is a construct that breaks a rule.
type Finding struct {
	Key  string `json:"key"` // rule and construct; no line numbers
	Pos  string `json:"pos"`
	Text string `json:"text"`
}

type property struct {
	title string
	rule  string // the rule applied, for the evidence
	run   func(*Run)
}

var properties = map[string]*property{}

func register(id, title, rule string, run func(*Run)) {
	properties[id] = &property{title, rule, run}
}

// ok records an obligation that was discharged.
func (r *Run) ok(rule, what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.oblig[rule]++
	if r.oblig[rule] <= 4 {
		r.samples = append(r.samples, rule+": "+what)
	}
}

func (r *Run) viol(rule, construct, pos, text string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.oblig[rule]++
	f := Finding{rule + " @ " + construct, pos, text}
	for _, o := range r.viols {
		if o.Key == f.Key {
			return
		}
	}
	for _, o := range r.known {
		if o.Key == f.Key {
			return
		}
	}
	if n, ok := r.baseline[f.Key]; ok {
		f.Text = n
		r.known = append(r.known, f)
		return
	}
	r.viols = append(r.viols, f)
}

// bad is the number of reports.
func (r *Run) bad() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viols) + len(r.known)
}

// check records an obligation with its verdict.
func (r *Run) check(ok bool, rule, construct, pos, text string) bool {
	if ok {
		r.ok(rule, construct)
	} else {
		r.viol(rule, construct, pos, text)
	}
	return ok
}

func (r *Run) pos(p token.Pos) string { return r.p.pos(p) }

func (r *Run) analysed(f *ssa.Function) {
	if f != nil {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.funcs[fnName(f)] = true
	}
}

// missing is a rule whose subject is not there: it cannot be decided.
func (r *Run) missing(what string) {
	r.viol("anchor", what, "?", "not found: "+what+"; the rule cannot be decided without it")
}

// guard turns a failure of the analysis into a report.
func (r *Run) guard(rule, construct string, f func()) {
	if os.Getenv("LIMCHECK_TIME") != "" {
		defer func(t time.Time) {
			if d := time.Since(t); d > 300*time.Millisecond {
				fmt.Println("  time", rule, construct, d)
			}
		}(time.Now())
	}
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(tooComplex); ok {
				r.viol(rule, construct, "?", "undecided: "+string(s))
				return
			}
			if os.Getenv("LIMCHECK_PANIC") != "" {
				panic(x)
			}
			r.viol(rule, construct, "?", fmt.Sprint("undecided: ", x))
		}
	}()
	f()
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func runProperty(p *Prog, root, id, tier string, seed int) (code int) {
	t0 := time.Now()
	pr := properties[id]
	if pr == nil {
		fmt.Println("no such property:", id)
		return 2
	}
	r := &Run{p: p, id: id, tier: tier, oblig: map[string]int{}, funcs: map[string]bool{}, baseline: map[string]string{}}
	if b, err := os.ReadFile(filepath.Join(root, "known-findings.json")); err == nil {
		var k knownFile
		if err := json.Unmarshal(b, &k); err != nil {
			r.viol("known-findings", "known-findings.json", "?", err.Error())
		}
		for _, f := range k.Findings {
			if f.Property == id {
				r.baseline[f.Key] = f.What
			}
		}
	}
	finish := func() (code int) { return r.finish(root, pr, seed, t0) }
	done := make(chan struct{})
	go r.watch(done, t0, finish)
	r.guard("analysis", id, func() { pr.run(r) })
	close(done)
	return finish()
}

// watch ends an analysis that takes too long or too much memory: what is
// not decided by then is reported.
func (r *Run) watch(done chan struct{}, t0 time.Time, finish func() int) {
	limit := 800 * time.Second
	if r.tier == "thorough" {
		limit = 3 * time.Hour
	}
	var m runtime.MemStats
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}
		runtime.ReadMemStats(&m)
		if why := ""; time.Since(t0) > limit || m.HeapAlloc > 20<<30 {
			why = "undecided: it takes too long"
			if m.HeapAlloc > 20<<30 {
				why = "undecided: it takes too much memory"
			}
			r.viol("analysis", r.id, "?", why)
			r.mu.Lock() // until the end
			os.Exit(finish())
		}
	}
}

func (r *Run) finish(root string, pr *property, seed int, t0 time.Time) int {
	id := r.id
	total := 0
	for _, n := range r.oblig {
		total += n
	}
	if total == 0 {
		r.viols = append(r.viols, Finding{"analysis @ " + id, "?", "no obligation was examined"})
	}
	sort.SliceStable(r.viols, func(i, j int) bool { return r.viols[i].Key < r.viols[j].Key })
	sort.Strings(r.samples)
	r.write(root, pr, total, seed, time.Since(t0))
	for _, f := range r.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.Key, f.Text)
	}
	for n, f := range r.viols {
		if n >= 12 {
			fmt.Printf("  … and %d more\n", len(r.viols)-n)
			break
		}
		fmt.Printf("%s: %s\n    %s\n", f.Pos, f.Key, clip(f.Text, 600))
	}
	if len(r.viols) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(root, "evidence", id+".json"))
		return 1
	}
	fmt.Printf("property %s holds: %d obligations, %d functions, %.1fs\n", id, total, len(r.funcs), time.Since(t0).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (r *Run) write(root string, pr *property, total, seed int, d time.Duration) {
	var fs []string
	for f := range r.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for n, s := range r.samples {
		r.samples[n] = clip(s, 300)
	}
	ev := map[string]any{
		"property": r.id,
		"tier":     r.tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":         pr.rule,
			"obligations":         total,
			"discharged":          total - len(r.viols) - len(r.known),
			"obligations_by_rule": r.oblig,
			"functions_analysed":  fs,
			"samples":             r.samples,
			"source_files":        len(r.p.files),
			"notes":               r.notes,
		},
		"wall_s":     d.Seconds(),
		"violations": len(r.viols),
		"findings":   r.viols,
		"known":      r.known,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", r.id+".json"), append(b, '\n'), 0o644)
}

func failLoad(root, id, tier string, seed int, err error) int {
	p := &Prog{}
	r := &Run{p: p, id: id, tier: tier, oblig: map[string]int{}, funcs: map[string]bool{}}
	r.viol("load", "repository", "?", err.Error())
	pr := properties[id]
	if pr == nil {
		pr = &property{rule: "the repository must type-check"}
	}
	r.write(root, pr, 1, seed, 0)
	fmt.Println(strings.TrimSpace(err.Error()))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(root, "evidence", id+".json"))
	return 1
}
