package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Stats struct {
	Paths          int // complete paths
	Assumed        int // ended by an assumption
	Infeasible     int
	Violated       int
	Blocked        int
	Unwind         int
	UnknownPaths   int
	UnknownAsserts int
	Branches       int
	Asserts        int
	Trivial        int
	Discharged     int
	Merges         int
	Steps          int
	Unsupported    map[string]int
	Covers         map[string]int
	Queries        int
	Sat            int
	Unsat          int
	SolverUnknown  int
	SolverTime     time.Duration
	Dropped        int
	Truncated      bool
	Wall           time.Duration
	Forks          map[string]int // where paths split
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Assumed += o.Assumed
	s.Infeasible += o.Infeasible
	s.Violated += o.Violated
	s.Blocked += o.Blocked
	s.Unwind += o.Unwind
	s.UnknownPaths += o.UnknownPaths
	s.UnknownAsserts += o.UnknownAsserts
	s.Branches += o.Branches
	s.Asserts += o.Asserts
	s.Trivial += o.Trivial
	s.Discharged += o.Discharged
	s.Merges += o.Merges
	s.Steps += o.Steps
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.SolverUnknown += o.SolverUnknown
	s.SolverTime += o.SolverTime
	s.Dropped += o.Dropped
	s.Truncated = s.Truncated || o.Truncated
	for k, v := range o.Unsupported {
		if s.Unsupported == nil {
			s.Unsupported = make(map[string]int)
		}
		s.Unsupported[k] += v
	}
	for k, v := range o.Forks {
		if s.Forks == nil {
			s.Forks = make(map[string]int)
		}
		s.Forks[k] += v
	}
	for k, v := range o.Covers {
		if s.Covers == nil {
			s.Covers = make(map[string]int)
		}
		s.Covers[k] += v
	}
}

type Violation struct {
	Harness string
	Msg     string
	Where   string
	Model   Model
	Vars    []string
	Events  []string
	Order   []string
}

type Sample struct {
	Harness string
	Model   Model
	Expect  []string
	Order   []string
}

type item struct {
	prefix []Dec
	model  Model
}

// Explorer runs one harness to completion over all workers.
type Explorer struct {
	sh       *Shared
	fn       *ssa.Function
	name     string
	tier     int
	seed     int
	workers  []*Interp
	deadline time.Time
	maxSteps int
	maxPaths int
	samples  int

	mu      sync.Mutex
	cond    *sync.Cond
	global  []item
	idle    int
	active  int
	stop    bool
	npaths  int
	viols   map[string][]*Violation
	nviol   int
	sampled []Sample
	smt     []string
	races   map[string][]*Violation
}

func (e *Explorer) Run() (*Stats, []*Violation, []Sample) {
	t0 := time.Now()
	e.cond = sync.NewCond(&e.mu)
	e.global = []item{{}}
	e.viols = make(map[string][]*Violation)
	var wg sync.WaitGroup
	total := &Stats{}
	e.active = len(e.workers)
	for wi := range e.workers {
		wg.Add(1)
		go func(in *Interp) {
			defer wg.Done()
			e.worker(in)
		}(e.workers[wi])
	}
	wg.Wait()
	for _, in := range e.workers {
		in.stats.Queries = in.sol.Queries - in.q0
		in.stats.Sat = in.sol.Sat - in.s0
		in.stats.Unsat = in.sol.Unsat - in.u0
		in.stats.SolverUnknown = in.sol.Unknown - in.k0
		in.stats.SolverTime = in.sol.Time - in.t0
		total.add(in.stats)
	}
	total.Dropped += len(e.global)
	total.Truncated = total.Truncated || total.Dropped > 0
	total.Wall = time.Since(t0)
	var vs []*Violation
	var keys []string
	for k := range e.viols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		vs = append(vs, e.viols[k]...)
	}
	return total, vs, e.sampled
}

func (e *Explorer) worker(in *Interp) {
	var local []item
	// labels may have other widths in another harness
	in.sol.restart()
	in.stats = &Stats{Unsupported: make(map[string]int), Covers: make(map[string]int)}
	in.q0, in.s0, in.u0, in.k0, in.t0 = in.sol.Queries, in.sol.Sat, in.sol.Unsat, in.sol.Unknown, in.sol.Time
	in.work = func(prefix []Dec, m Model) { local = append(local, item{prefix, m}) }
	in.viol = func(v *Violation) { e.violation(v) }
	in.maxSteps = e.maxSteps
	in.giveUp = e.deadline.Add(10 * time.Second)
	in.races = make(map[[2]token.Pos]int)
	in.tier = e.tier
	for {
		if len(local) == 0 {
			e.mu.Lock()
			e.active--
			for len(e.global) == 0 && e.active > 0 && !e.stop {
				e.idle++
				e.cond.Wait()
				e.idle--
			}
			if len(e.global) == 0 || e.stop {
				e.stop = true
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
			n := len(e.global) - 1
			local = append(local, e.global[n])
			e.global = e.global[:n]
			e.active++
			e.mu.Unlock()
		}
		it := local[len(local)-1]
		local = local[:len(local)-1]
		e.runPath(in, it)
		e.mu.Lock()
		e.npaths++
		if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.npaths >= e.maxPaths) || e.nviol > 60 {
			e.stop = true
		}
		if e.stop {
			in.stats.Dropped += len(local)
			if len(local) > 0 {
				in.stats.Truncated = true
			}
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		if len(local) > 1 && e.idle > len(e.global) {
			k := max(1, len(local)/2)
			if k > 8 {
				k = 8
			}
			e.global = append(e.global, local[:k]...)
			local = append([]item(nil), local[k:]...)
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}
}

func (e *Explorer) violation(v *Violation) {
	v.Harness = e.name
	e.mu.Lock()
	defer e.mu.Unlock()
	e.nviol++
	if len(e.viols[v.Msg]) < 6 {
		e.viols[v.Msg] = append(e.viols[v.Msg], v)
	}
}

func (e *Explorer) runPath(in *Interp, it item) {
	in.pc = in.pc[:0:0]
	in.facts = make(map[*Term]bool)
	in.setModel(it.model)
	if it.model == nil {
		in.setModel(Model{})
		if len(it.prefix) > 0 {
			in.modelOK = false
		}
	}
	in.prefix = it.prefix
	in.decs = make([]Dec, 0, len(it.prefix)+16)
	in.varCount = make(map[string]int)
	in.varList = nil
	in.varTerm = make(map[string]*Term)
	in.steps = 0
	in.spec = 0
	in.initing = 0
	in.opts = pathOpts{maxPreempt: 2}
	in.hashed = nil
	in.covers = make(map[string]bool)
	in.observed = nil
	in.events = nil
	in.raced = nil
	in.order = nil
	in.sched = newSched()
	in.cur = in.sched.gs[0]
	in.env0().timers = make(map[*Value]*vtimer)
	in.randN = nil
	in.snaps, in.snapIDs = nil, nil
	in.clockSec = in.tt.Const(64, 1700000000)
	in.clockNsec = in.tt.Const(64, 0)
	in.trailOn = false
	in.initPackage(e.fn.Pkg)
	in.trail = in.trail[:0]
	in.trailOn = true

	outcome := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathAbort:
					outcome = x.kind
				case unsupported:
					outcome = "unsupported"
					in.stats.Unsupported[x.reason+" at "+in.where()]++
				case *targetPanic:
					outcome = "violated"
					func() {
						defer func() {
							if r2 := recover(); r2 != nil {
								if pa, ok := r2.(pathAbort); ok {
									outcome = pa.kind
									return
								}
								panic(r2)
							}
						}()
						in.spec = 0
						in.uncaught(x)
					}()
				default:
					outcome = "unsupported"
					msg := fmt.Sprintf("internal: %v", r)
					if os.Getenv("VF_DEBUG") != "" {
						fmt.Fprintf(debugOut, "%s at %s\n%s\n", msg, in.where(), debug.Stack())
					}
					in.stats.Unsupported[msg+" at "+in.where()]++
				}
			}
		}()
		in.callFn(nil, e.fn, nil, nil)
		outcome = "done"
	}()
	if outcome == "done" && len(in.sched.gs) > 1 && in.sched.fatal != nil {
		outcome = "unsupported"
	}
	in.stats.Steps += in.steps
	if os.Getenv("VF_PATHS") != "" {
		fmt.Fprintln(os.Stderr, "path", outcome, in.steps, len(in.decs), in.stats.Queries, in.where())
	}
	if len(in.raced) > 0 && (outcome == "done" || outcome == "blocked") {
		e.raced(in)
	}
	switch {
	case outcome == "done":
		in.stats.Paths++
		for c := range in.covers {
			in.stats.Covers[c]++
		}
		e.sample(in)
	case outcome == "assume":
		in.stats.Assumed++
	case outcome == "infeasible":
		in.stats.Infeasible++
	case outcome == "violated":
		in.stats.Violated++
	case outcome == "blocked":
		in.stats.Blocked++
	case strings.HasPrefix(outcome, "step bound"):
		in.stats.Unsupported[outcome]++
	}
	in.killAll()
	in.rollback()
	in.trailOn = false
	if len(in.tt.m) > 3000000 {
		in.resetTerms()
	}
}

// sample keeps the models of some complete paths for native validation.
func (e *Explorer) sample(in *Interp) {
	e.mu.Lock()
	n := in.stats.Paths
	want := len(e.sampled) < e.samples && (n <= 2 || (n+e.seed)%7 == 0)
	e.mu.Unlock()
	if !want {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathAbort); ok {
				return
			}
			if r == errUFEval {
				return
			}
			if _, ok := r.(unsupported); ok {
				return
			}
			panic(r)
		}
	}()
	in.ensureModel()
	s := Sample{Harness: e.name, Model: make(Model), Order: in.nativeOrder()}
	for _, v := range in.varList {
		if x, ok := in.model[v]; ok {
			s.Model[v] = x
		} else {
			s.Model[v] = in.varTerm[v].lo
		}
	}
	ev := &evaluator{m: s.Model, memo: make(map[*Term]uint64)}
	for _, o := range in.observed {
		s.Expect = append(s.Expect, o.label+"="+obsString(in, ev, o.v))
	}
	e.mu.Lock()
	e.sampled = append(e.sampled, s)
	e.mu.Unlock()
}

func obsString(in *Interp, ev *evaluator, v Value) string {
	switch x := v.(type) {
	case *Term:
		r := ev.eval(x)
		if x.w == 0 {
			return fmt.Sprint(r == 1)
		}
		return fmt.Sprint(r)
	case *Str:
		b := make([]byte, x.Len())
		for i := range b {
			b[i] = byte(ev.eval(x.at(in, i)))
		}
		return fmt.Sprintf("%q", b)
	case Slice:
		var sb strings.Builder
		sb.WriteString("[")
		for i, y := range x {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(obsString(in, ev, y))
		}
		sb.WriteString("]")
		return sb.String()
	case Array:
		return obsString(in, ev, Slice(x))
	}
	return "?"
}

// resetTerms discards the term table and everything that refers to it.
func (in *Interp) resetTerms() {
	n := NewInterp(in.sh, in.sol)
	in.tt, in.qs = n.tt, n.qs
	in.globals, in.inited, in.consts, in.fnClos = n.globals, n.inited, n.consts, n.fnClos
	in.env = nil
	in.nanos = n.nanos
	in.facts = n.facts
	in.pc = nil
	in.trail = nil
	in.sol.restart()
}
