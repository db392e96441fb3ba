package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	syncatomic "sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects what one check analysed and found.
type Report struct {
	id       string
	tier     string
	counts   map[string]int
	fns      map[string]bool
	finds    map[string]*Finding
	order    []string
	samples  []string
	rule     string
	assume   []string
	mins     map[string]int
	steps    int
	unknown  map[string]bool
	obl      int
	oblSeen  map[string]bool
	explored []string
}

type Finding struct {
	Rule  string
	At    string // construct: function, call site
	Msg   string
	Trace []string
}

func newReport(id, tier string) *Report {
	return &Report{id: id, tier: tier, counts: map[string]int{}, fns: map[string]bool{}, finds: map[string]*Finding{}, mins: map[string]int{}, unknown: map[string]bool{}, oblSeen: map[string]bool{}}
}

// violation, keyed by rule and construct
func (r *Report) bad(rule, at, msg string, trace []string) {
	k := rule + "|" + at + "|" + msg
	if _, ok := r.finds[k]; ok {
		return
	}
	r.finds[k] = &Finding{Rule: rule, At: at, Msg: msg, Trace: trace}
	r.order = append(r.order, k)
}

// ob counts one distinct obligation that was examined
func (r *Report) ob(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if !r.oblSeen[s] {
		r.oblSeen[s] = true
		if len(r.samples) < 12 {
			r.samples = append(r.samples, s)
		}
	}
}
func (r *Report) count(k string, n int) { r.counts[k] += n }

// need fails the check when fewer than n instances were met
func (r *Report) need(k string, n int) {
	r.mins[k] = n
	if r.counts[k] < n {
		r.bad("vacuous", k, fmt.Sprintf("%d instances analysed, at least %d expected: the code this rule is about was not found", r.counts[k], n), nil)
	}
}

// take over the statistics of an engine run
func (r *Report) absorb(run *Run) {
	e := run.e
	r.steps += e.steps
	for f := range e.fnsSeen {
		r.fns[fnName(f)] = true
	}
	for n := range e.unknownExt {
		r.unknown[n] = true
	}
	for op, n := range e.ops {
		if op != "" {
			r.counts["op "+op] += n
		}
	}
	e.ops = map[string]int{}
	e.steps = 0
}

func fnName(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
		if strings.HasPrefix(f.String(), "(*") {
			s = "(*" + s
		}
	}
	return s
}

func (r *Report) finish(t0 time.Time) int {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	dir := filepath.Join(root, "evidence")
	_ = os.MkdirAll(dir, 0755)
	known := knownFindings(filepath.Join(root, "known_findings.txt"), r.id)
	var bad []*Finding
	for _, k := range r.order {
		f := r.finds[k]
		if t, ok := known[f.Rule+"|"+f.At]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, t)
			continue
		}
		bad = append(bad, f)
	}
	var vs []map[string]interface{}
	var txt strings.Builder
	for _, f := range bad {
		vs = append(vs, map[string]interface{}{"rule": f.Rule, "at": f.At, "message": f.Msg, "path": f.Trace})
		fmt.Fprintf(&txt, "rule: %s\nat:   %s\n%s\n", f.Rule, f.At, f.Msg)
		for _, t := range f.Trace {
			fmt.Fprintf(&txt, "    %s\n", t)
		}
		txt.WriteByte('\n')
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":          r.rule,
		"obligations_examined": len(r.oblSeen),
		"functions_analysed":   len(r.fns),
		"abstract_steps":       r.steps,
		"samples":              r.samples,
		"instances":            r.counts,
		"minimum_instances":    r.mins,
	}
	if len(r.unknown) > 0 {
		var u []string
		for k := range r.unknown {
			u = append(u, k)
		}
		sort.Strings(u)
		cov["externals_without_model"] = u
	}
	if vs == nil {
		vs = []map[string]interface{}{}
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "assumptions": r.assume, "violations": vs,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, r.id+".json"), b, 0644)
	fmt.Printf("%s: %d obligations, %d functions, %d steps, %.1fs\n", r.id, len(r.oblSeen), len(r.fns), r.steps, time.Since(t0).Seconds())
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(dir, r.id+".replay.txt")
	_ = os.WriteFile(rp, []byte(txt.String()), 0644)
	for i, f := range bad {
		if i >= 20 {
			break
		}
		fmt.Printf("%s: [%s] %s: %s\n", r.id, f.Rule, f.At, f.Msg)
		for j, t := range f.Trace {
			if j < 14 {
				fmt.Printf("      %s\n", t)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}

// lines "finding: property=<id> key=<rule>|<construct> :: <what fails>"
func knownFindings(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		if i := strings.Index(l, " :: "); i > 0 {
			m[l[:i]] = l[i+4:]
		}
	}
	return m
}

// parallel runs independent analyses and merges their reports in order
func (r *Report) parallel(jobs ...func(r *Report)) {
	sub := make([]*Report, len(jobs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, j := range jobs {
		sub[i] = newReport(r.id, r.tier)
		wg.Add(1)
		go func(i int, j func(r *Report)) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if len(sub[i].order) > 0 {
					anyFound.Store(1)
				}
			}()
			defer sub[i].guard()
			if halted.Load() != 0 {
				panic(budgetErr{})
			}
			if os.Getenv("LHAJOBS") != "" {
				t0 := time.Now()
				defer func() { fmt.Printf("job %d %v %v\n", i, time.Since(t0), sub[i].samples) }()
			}
			j(sub[i])
		}(i, j)
	}
	wg.Wait()
	for _, s := range sub {
		for k, n := range s.counts {
			r.counts[k] += n
		}
		for k := range s.fns {
			r.fns[k] = true
		}
		for k := range s.unknown {
			r.unknown[k] = true
		}
		for k := range s.oblSeen {
			r.oblSeen[k] = true
		}
		for _, x := range s.samples {
			if len(r.samples) < 16 {
				r.samples = append(r.samples, x)
			}
		}
		for _, k := range s.order {
			f := s.finds[k]
			r.bad(f.Rule, f.At, f.Msg, f.Trace)
		}
		r.steps += s.steps
	}
}

// halted ends the analysis of what is still under way
var halted, anyFound syncatomic.Int32

const (
	haltFound = 1 // something was found and the rest takes long
	haltTime  = 2 // no answer in time: undecided
)

// watch keeps a check from running without end: a change may make the analysis
// diverge, and what cannot be decided is reported
func watch(tier string) {
	scale := time.Second
	if tier == "thorough" {
		scale = time.Minute
	}
	go func() {
		for t := 0; ; t += 5 {
			time.Sleep(5 * scale)
			if t >= 180 && anyFound.Load() != 0 {
				halted.CompareAndSwap(0, haltFound)
			}
			if t >= 600 {
				halted.CompareAndSwap(0, haltTime)
			}
		}
	}()
}

// stopErr ends the analysis of a job with a finding
type stopErr struct{ rule, at, msg string }

func (r *Report) guard() {
	x := recover()
	if x == nil {
		return
	}
	if os.Getenv("LHACHECK_DEBUG") != "" {
		debug.PrintStack()
	}
	if _, ok := x.(budgetErr); ok {
		if halted.Load() == haltFound {
			return // not analysed further, because of what was found already
		}
		r.bad("undecided", "analysis", "the analysis did not finish within its budget", nil)
		return
	}
	if s, ok := x.(stopErr); ok {
		r.bad(s.rule, s.at, s.msg, nil)
		return
	}
	r.bad("undecided", "analysis", fmt.Sprintf("the analysis broke off: %v", x), nil)
}

type check struct {
	rule   string
	assume []string
	run    func(p *Program, r *Report)
}

var checks = map[string]*check{}

func runCheck(id, tier string) int {
	t0 := time.Now()
	r := newReport(id, tier)
	c := checks[id]
	if c == nil {
		fmt.Println("no check for", id)
		return 2
	}
	watch(tier)
	r.rule = c.rule
	r.assume = c.assume
	p, err := loadProgram()
	if err != nil {
		r.bad("load", "program", err.Error(), nil)
		return r.finish(t0)
	}
	func() {
		defer r.guard()
		c.run(p, r)
	}()
	return r.finish(t0)
}
