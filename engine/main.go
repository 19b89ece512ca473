package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type config struct {
	id      string
	tier    string
	seed    int
	only    string
	verbose bool
	budget  time.Duration
	workers int
	steps   int
	solver  string
	noEvid  bool
}

func main() {
	var c config
	flag.StringVar(&c.tier, "tier", "", "quick or thorough")
	flag.StringVar(&c.only, "h", "", "only this harness")
	flag.BoolVar(&c.verbose, "v", false, "details")
	flag.DurationVar(&c.budget, "budget", 0, "time limit")
	flag.IntVar(&c.workers, "j", 0, "workers")
	flag.IntVar(&c.steps, "steps", 0, "step bound per path")
	flag.StringVar(&c.solver, "solver", "z3-new", "solver binary")
	flag.BoolVar(&c.noEvid, "n", false, "do not write evidence")
	flag.Parse()
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: engine [flags] PROPERTY")
		os.Exit(2)
	}
	c.id = flag.Arg(0)
	if c.tier == "" {
		c.tier = os.Getenv("VERIF_TIER")
	}
	if c.tier == "" {
		c.tier = "quick"
	}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	os.Exit(check(c))
}

// Known findings: lines "known: property=<id> key=<key> <text>".
func knownFindings(id string) (map[string]bool, map[string]string) {
	m := make(map[string]bool)
	txt := make(map[string]string)
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return m, txt
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		k, t, _ := strings.Cut(rest, " ")
		m[k] = true
		txt[k] = t
	}
	return m, txt
}

func check(c config) int {
	t0 := time.Now()
	l, err := load(c.id)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	loadTime := time.Since(t0)
	tier := 0
	if c.tier == "thorough" {
		tier = 1
	}
	if c.budget == 0 {
		c.budget = 240 * time.Second
		if tier == 1 {
			c.budget = 3 * time.Hour
		}
	}
	if c.workers == 0 {
		c.workers = runtime.NumCPU()
	}
	if c.steps == 0 {
		c.steps = 3000000
	}
	known, knownText := knownFindings(c.id)
	solverTO := 10000
	if tier == 1 {
		solverTO = 60000
	}
	var workers []*Interp
	for i := 0; i < c.workers; i++ {
		args := []string{"-in"}
		if strings.Contains(c.solver, "cvc5") {
			args = []string{"--incremental", "--lang=smt2"}
		}
		in := NewInterp(l.sh, NewSolver(c.solver, args, solverTO))
		in.repo = repoPath
		in.known = known
		workers = append(workers, in)
	}
	defer func() {
		for _, w := range workers {
			w.sol.Close()
		}
	}()
	work, err := os.MkdirTemp("", "vf"+c.id)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	defer os.RemoveAll(work)
	rp := &Replayer{id: c.id, files: l.files, pkgs: l.pkgs, dirs: l.dirs, work: work, pkgOf: map[string]string{}, hs: map[string][]string{}, tier: tier, known: known}
	for _, h := range l.harnesses {
		d := "root"
		for hd, sub := range harnessDirs {
			p := repoPath
			if sub != "." {
				p += "/" + sub
			}
			if h.Pkg.Pkg.Path() == p {
				d = hd
			}
		}
		rp.pkgOf[h.Name()] = d
		rp.hs[d] = append(rp.hs[d], h.Name())
	}
	// the native build runs while the symbolic side works
	built := make(chan error, 1)
	go func() { built <- rp.buildAny() }()

	var hs []*ssa.Function
	for _, h := range l.harnesses {
		if c.only == "" || strings.Contains(h.Name(), c.only) {
			hs = append(hs, h)
		}
	}
	type hres struct {
		name  string
		st    *Stats
		viols []*Violation
		races map[string][]*Violation
	}
	var results []hres
	var samples []Sample
	deadline := t0.Add(c.budget)
	knownHit := map[string]bool{}
	for i, h := range hs {
		left := time.Until(deadline)
		share := left / time.Duration(len(hs)-i)
		// unused time is passed on; a single harness may use three shares
		if s := share * 3; s < left {
			share = s
		} else {
			share = left
		}
		e := &Explorer{sh: l.sh, fn: h, name: h.Name(), tier: tier, seed: c.seed, workers: workers, maxSteps: c.steps,
			deadline: time.Now().Add(share), samples: 12}
		st, vs, ss := e.Run()
		for _, w := range workers {
			for k := range w.knownHit {
				knownHit[k] = true
			}
		}
		results = append(results, hres{h.Name(), st, vs, e.races})
		samples = append(samples, ss...)
		if c.verbose {
			fmt.Fprintf(os.Stderr, "%s: %.1fs paths=%d assumed=%d infeasible=%d violated=%d blocked=%d asserts=%d (trivial %d, discharged %d, unknown %d) branches=%d merges=%d queries=%d solver=%.1fs steps=%d truncated=%v dropped=%d unknown=%d unwind=%d\n",
				h.Name(), st.Wall.Seconds(), st.Paths, st.Assumed, st.Infeasible, st.Violated, st.Blocked, st.Asserts, st.Trivial, st.Discharged, st.UnknownAsserts, st.Branches, st.Merges, st.Queries, st.SolverTime.Seconds(), st.Steps, st.Truncated, st.Dropped, st.UnknownPaths, st.Unwind)
			for k, v := range st.Unsupported {
				fmt.Fprintf(os.Stderr, "   unsupported x%d: %s\n", v, k)
			}
			fmt.Fprintf(os.Stderr, "   covers: %v\n", st.Covers)
			for _, k := range sortedKeys(e.races) {
				fmt.Fprintf(os.Stderr, "   %s\n", k)
			}
			var fs []string
			for k := range st.Forks {
				fs = append(fs, k)
			}
			sort.Slice(fs, func(i, j int) bool { return st.Forks[fs[i]] > st.Forks[fs[j]] })
			for i, k := range fs {
				if i < 5 && st.Forks[k] > 20 {
					fmt.Fprintf(os.Stderr, "   forks x%d at %s\n", st.Forks[k], k)
				}
			}
			for i, v := range vs {
				if i > 2 {
					break
				}
				fmt.Fprintf(os.Stderr, "   counterexample: %s at %s: %v %v\n", v.Msg, v.Where, fmtModel(v.Model), v.Events)
			}
		}
	}
	berr := <-built
	if berr != nil {
		rp.err = berr
		fmt.Fprintln(os.Stderr, "native build failed:", berr)
	}

	// native validation of sampled paths
	okTraces, bad := 0, []string(nil)
	if berr == nil {
		okTraces, bad = rp.validate(samples)
		if c.verbose {
			for _, b := range bad {
				fmt.Fprintln(os.Stderr, "   MISMATCH", b)
			}
			fmt.Fprintf(os.Stderr, "validated %d of %d sampled paths\n", okTraces, len(samples))
		}
	}

	// replay counterexamples
	total := &Stats{}
	nviol := 0
	var reports []string
	var notes []string
	for _, d := range l.dropped {
		notes = append(notes, "harness file left out, it does not compile here: "+d)
	}
	exit := 0
	report := func(v *Violation, what string) {
		nviol++
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.id, nviol))
		b, _ := json.MarshalIndent(map[string]any{"property": c.id, "harness": v.Harness, "assertion": v.Msg, "where": v.Where,
			"values": v.Model, "schedule": v.Events, "native": what}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", c.id, path)
		reports = append(reports, line)
		fmt.Println(line)
		fmt.Printf("  %s: %s\n  %s\n", v.Harness, v.Msg, strings.SplitN(what, "\n", 2)[0])
		exit = 1
	}
	for _, r := range results {
		total.add(r.st)
		seen := map[string]bool{}
		for _, v := range r.viols {
			if seen[v.Msg] || berr != nil {
				continue
			}
			ok, what := rp.reproduce(v)
			if !ok {
				notes = append(notes, fmt.Sprintf("%s: candidate %q not reproduced natively: %s", v.Harness, v.Msg, what))
				if c.verbose {
					fmt.Fprintf(os.Stderr, "   not reproduced: %s %v: %s\n", v.Msg, fmtModel(v.Model), what)
				}
				continue
			}
			seen[v.Msg] = true
			report(v, what)
		}
	}
	raced := map[string]bool{}
	for _, r := range results {
		for _, k := range sortedKeys(r.races) {
			if raced[k] || berr != nil {
				continue
			}
			ok, what := false, ""
			for _, v := range r.races[k] {
				if ok, what = rp.confirmRace(v); ok {
					report(v, what)
					raced[k] = true
					break
				}
			}
			if !ok {
				notes = append(notes, fmt.Sprintf("%s: %s: %s", r.name, k, what))
			}
		}
	}
	var kk []string
	for k := range knownHit {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, knownText[k])
	}
	for k, v := range total.Unsupported {
		notes = append(notes, fmt.Sprintf("not encoded on %d paths: %s", v, k))
	}
	if total.Truncated {
		notes = append(notes, fmt.Sprintf("time limit reached: %d branches left unexplored, the bound is reduced accordingly", total.Dropped))
	}
	if total.UnknownPaths+total.UnknownAsserts > 0 {
		notes = append(notes, fmt.Sprintf("solver gave no answer on %d branch and %d assertion queries", total.UnknownPaths, total.UnknownAsserts))
	}
	for _, b := range bad {
		notes = append(notes, "native run differs from the encoding: "+tail(b, 400))
	}
	sort.Strings(notes)
	l.sh.funcsMu.Lock()
	funcs := sortedKeys(l.sh.funcs)
	l.sh.funcsMu.Unlock()
	if !c.noEvid {
		writeEvidence(c, l, total, results2(results, func(r hres) (string, *Stats) { return r.name, r.st }), samples, okTraces, notes, funcs, nviol, time.Since(t0), loadTime)
	}
	fmt.Printf("%s tier=%s: %d paths, %d assertions (%d by solver), %d queries, %.1fs solver, %d native traces, %d functions, %d violations, %.1fs\n",
		c.id, c.tier, total.Paths, total.Asserts, total.Discharged, total.Queries, total.SolverTime.Seconds(), okTraces, len(funcs), nviol, time.Since(t0).Seconds())
	for i, n := range notes {
		if i < 8 {
			fmt.Println("  note:", tail(n, 300))
		}
	}
	return exit
}

func results2[T any](rs []T, f func(T) (string, *Stats)) map[string]*Stats {
	m := make(map[string]*Stats)
	for _, r := range rs {
		n, s := f(r)
		m[n] = s
	}
	return m
}

func fmtModel(m Model) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%d ", k, m[k])
	}
	return sb.String()
}

type harnessDoc struct {
	Bounds  string   `json:"bounds"`
	Outside string   `json:"outside"`
	Stubs   []string `json:"stubs"`
}

func writeEvidence(c config, l *loaded, total *Stats, per map[string]*Stats, samples []Sample, okTraces int, notes, funcs []string, nviol int, wall, loadTime time.Duration) {
	var hlist []map[string]any
	var names []string
	for n := range per {
		names = append(names, n)
	}
	sort.Strings(names)
	docs := harnessDocs(l)
	for _, n := range names {
		s := per[n]
		hlist = append(hlist, map[string]any{
			"harness": n, "bounds": docs[n], "paths": s.Paths, "ended_by_assumption": s.Assumed, "assertions": s.Asserts,
			"assertions_discharged_by_solver": s.Discharged, "assertions_decided_by_simplification": s.Trivial,
			"queries": s.Queries, "solver_s": round(s.SolverTime.Seconds()), "steps": s.Steps, "complete": !s.Truncated,
			"witnesses": s.Covers, "wall_s": round(s.Wall.Seconds()),
		})
	}
	var samp []any
	for i, s := range samples {
		if i >= 6 {
			break
		}
		samp = append(samp, map[string]any{"harness": s.Harness, "values": s.Model, "observed": s.Expect})
	}
	assume := []string{
		"bounded: the result covers the values, lengths and schedules named in each harness's bounds and nothing outside them",
		"logging, metrics and text formatting of messages are stubbed out; randomness and message ids are arbitrary values; the clock is the harness's",
		"the Go memory model is taken as sequentially consistent with switches at synchronisation points",
		"trusted: the go/ssa builder, the engine in /verif/engine, z3",
	}
	for _, n := range sortedKeys(l.sh.stubbed) {
		assume = append(assume, "environment: "+n+" is replaced by the harness")
	}
	assume = append(assume, notes...)
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": total.Paths + total.Assumed + total.Violated + total.Blocked, "transitions": total.Branches,
			"traces_validated_against_impl": okTraces, "samples": samp,
			"harnesses": hlist, "functions_encoded": funcs, "assertions": total.Asserts,
			"assertions_discharged_by_solver": total.Discharged, "queries": total.Queries, "sat": total.Sat, "unsat": total.Unsat,
			"unknown": total.SolverUnknown, "solver_s": round(total.SolverTime.Seconds()), "instructions": total.Steps,
			"load_s": round(loadTime.Seconds()), "solver": c.solver,
		},
		"assumptions": assume, "wall_s": round(wall.Seconds()), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

// harnessDocs reads the doc comments of the harness functions, which state
// their bounds.
func harnessDocs(l *loaded) map[string]string {
	m := make(map[string]string)
	for _, f := range l.files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		lines := strings.Split(string(b), "\n")
		for i, ln := range lines {
			if !strings.HasPrefix(ln, "func VF_") {
				continue
			}
			name := strings.TrimPrefix(ln[:strings.IndexByte(ln, '(')], "func ")
			var doc []string
			for j := i - 1; j >= 0 && strings.HasPrefix(lines[j], "//"); j-- {
				doc = append([]string{strings.TrimSpace(strings.TrimPrefix(lines[j], "//"))}, doc...)
			}
			m[name] = strings.Join(doc, " ")
		}
	}
	return m
}
