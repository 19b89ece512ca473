package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

var debugOut = os.Stderr

// Control-flow panics of the engine itself.
type (
	unsupported struct{ reason string } // construct outside the encoder
	pathAbort   struct{ kind string }   // path ends here
	specAbort   struct{}                // merge attempt failed
	targetPanic struct {                // panic of the program under analysis
		v    Value
		what string
		pos  string
	}
)

type Dec struct {
	k uint8
	v uint64
}

const (
	dFalse uint8 = iota
	dTrue
	dForcedFalse
	dForcedTrue
	dChoose
	dConcEq
	dConcNe
	dConcForced
)

type fnInfo struct {
	idx      map[ssa.Value]int
	n        int
	hasDefer bool
	ipdom    map[*ssa.BasicBlock]*mergeRegion
}

type mergeRegion struct {
	ok     bool
	join   *ssa.BasicBlock // nil: all exits return
	blocks []*ssa.BasicBlock
}

type trailEnt struct {
	p   *Value
	old Value
	fn  func()
}

type Frame struct {
	fn        *ssa.Function
	fi        *fnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	phiDone   bool
	defers    []*deferred
	caller    *Frame
	panicking *targetPanic
	result    Value
	done      bool
	depth     int
}

type deferred struct {
	fn   Value
	args []Value
	tail *deferred
}

// Shared is immutable program-wide state shared by all workers.
type Shared struct {
	prog    *ssa.Program
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	fis     sync.Map // *ssa.Function -> *fnInfo
	vfPath  string
	funcsMu sync.Mutex
	funcs   map[string]bool // functions of /repo executed
	stubbed map[string]bool // functions replaced by a harness
}

// Interp executes one path at a time.
type Interp struct {
	sh  *Shared
	tt  *TermTable
	sol *Solver
	qs  *queries

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	consts  map[*ssa.Const]Value
	fnClos  map[*ssa.Function]*Closure
	methods map[methodKey]*ssa.Function
	implsC  map[implKey]bool
	sameC   map[[2]types.Type]bool
	ptrs    map[types.Type]types.Type
	tmpls   map[*Value]*tmplState
	initing int

	trail   []trailEnt
	trailOn bool

	// path state
	pc        []*Term
	facts     map[*Term]bool
	model     Model
	modelOK   bool
	ev        *evaluator
	prefix    []Dec
	decs      []Dec
	work      func(prefix []Dec, m Model)
	varCount  map[string]int
	varList   []string
	varTerm   map[string]*Term
	steps     int
	maxSteps  int
	ticks     int
	giveUp    time.Time // when to give up within a path
	spec      int
	built     map[*ssa.Package]bool
	opts      pathOpts
	hashed    []Value
	guard     *Term
	specLog   []trailEnt
	specFresh map[*Value]bool
	nanos     map[*Term]nano
	covers    map[string]bool
	known     map[string]bool
	observed  []obs
	ghost     map[string]Value
	events    []string
	order     []string

	sched *Sched
	cur   *G

	clockSec  *Term
	clockNsec *Term
	timerVC   vclock
	fr        *Frame // executing
	owner     map[*ssa.Function]uint8
	races     map[[2]token.Pos]int
	raced     []string
	randN     *Term // bound of the last random choice
	snaps     []*snap
	snapIDs   map[string]int
	env       *envState

	repo           string // import path prefix of the code under test
	stats          *Stats
	viol           func(v *Violation)
	seenF          map[*ssa.Function]bool
	curPos         token.Pos
	callDepth      int
	tier           int
	knownHit       map[string]bool
	q0, s0, u0, k0 int
	t0             time.Duration
}

type obs struct {
	label string
	v     Value
}

type pathOpts struct {
	mapOrder    bool
	maxPreempt  int
	delayBound  bool
	delays      int
	preempts    int
	atomicYield bool
	race        bool
	noMerge     bool
	deadlockOK  bool
	panicOK     bool
	noYield     int
	tick        *Closure
	stubs       map[string]Value
	freeRun     bool // the native environment differs, its order is not prescribed
}

type methodKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}
type implKey struct {
	t types.Type
	i *types.Interface
}

func NewInterp(sh *Shared, sol *Solver) *Interp {
	in := &Interp{
		sh: sh, tt: NewTermTable(), sol: sol, qs: newQueries(),
		nanos:    make(map[*Term]nano),
		owner:    make(map[*ssa.Function]uint8),
		globals:  make(map[*ssa.Global]*Value),
		inited:   make(map[*ssa.Package]int),
		consts:   make(map[*ssa.Const]Value),
		fnClos:   make(map[*ssa.Function]*Closure),
		built:    make(map[*ssa.Package]bool),
		methods:  make(map[methodKey]*ssa.Function),
		implsC:   make(map[implKey]bool),
		sameC:    make(map[[2]types.Type]bool),
		ptrs:     make(map[types.Type]types.Type),
		seenF:    make(map[*ssa.Function]bool),
		facts:    make(map[*Term]bool),
		stats:    &Stats{},
		knownHit: make(map[string]bool),
	}
	return in
}

func (in *Interp) undo(f func()) {
	if in.trailOn {
		in.trail = append(in.trail, trailEnt{fn: f})
	}
}

func (in *Interp) rollback() {
	for i := len(in.trail) - 1; i >= 0; i-- {
		e := &in.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
		*e = trailEnt{}
	}
	in.trail = in.trail[:0]
}

// effect marks a side effect; it ends a speculative merge attempt.
func (in *Interp) effect() {
	if in.spec > 0 {
		panic(specAbort{})
	}
}

func (in *Interp) set(p *Value, v Value) {
	if in.trailOn {
		in.trail = append(in.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

// assign stores v into the cell, keeping the identity of nested fields.
func (in *Interp) assign(p *Value, v Value) {
	switch old := (*p).(type) {
	case Struct:
		nv, ok := v.(Struct)
		if ok && len(nv) == len(old) {
			for i := range old {
				in.assign(&old[i], nv[i])
			}
			return
		}
	case Array:
		nv, ok := v.(Array)
		if ok && len(nv) == len(old) {
			for i := range old {
				in.assign(&old[i], nv[i])
			}
			return
		}
	}
	in.set(p, copyVal(v))
}

func (in *Interp) store(p Value, v Value) {
	if in.spec > 0 {
		c, ok := p.(*Value)
		if !ok || c == nil {
			panic(specAbort{})
		}
		in.specStore(c, v)
		return
	}
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.nilDeref()
		}
		in.raceCell(p, true)
		in.assign(p, v)
	case *SymElem:
		i := in.concretize(p.idx)
		in.raceCell(&p.elems[i], true)
		in.assign(&p.elems[i], v)
	case Poison:
		panic(unsupported{"store to " + p.reason})
	case UnsafePtr:
		panic(unsupported{"store through unsafe pointer"})
	default:
		panic(unsupported{fmt.Sprintf("store to %T", p)})
	}
}

// specStore stores under the guard of the branch being merged.
func (in *Interp) specStore(p *Value, v Value) {
	switch old := (*p).(type) {
	case Struct:
		if nv, ok := v.(Struct); ok && len(nv) == len(old) {
			for i := range old {
				in.specStore(&old[i], nv[i])
			}
			return
		}
	case Array:
		if nv, ok := v.(Array); ok && len(nv) == len(old) {
			for i := range old {
				in.specStore(&old[i], nv[i])
			}
			return
		}
	case Poison:
		panic(specAbort{})
	}
	if !in.specFresh[p] {
		v = in.mergeVal(in.guard, v, *p)
	}
	in.specLog = append(in.specLog, trailEnt{p: p, old: *p})
	in.set(p, copyVal(v))
}

// specAlloc notes a cell that exists only on the branch being merged.
func (in *Interp) specAlloc(p *Value) {
	if in.specFresh == nil {
		in.specFresh = make(map[*Value]bool)
	}
	in.specFresh[p] = true
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			in.specAlloc(&v[i])
		}
	case Array:
		for i := range v {
			in.specAlloc(&v[i])
		}
	}
}

func (in *Interp) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.nilDeref()
		}
		in.raceCell(p, false)
		v := *p
		if v == nil {
			panic(unsupported{"load of uninitialised cell"})
		}
		if ps, ok := v.(Poison); ok && in.initing == 0 {
			panic(unsupported{"use of " + ps.reason})
		}
		return copyVal(v)
	case *SymElem:
		return in.symIndex(p.elems, p.idx)
	case Poison:
		panic(unsupported{"load of " + p.reason})
	}
	panic(unsupported{fmt.Sprintf("load of %T", p)})
}

// symIndex reads elems[idx] for an in-range symbolic index.
func (in *Interp) symIndex(elems []Value, idx *Term) Value {
	if idx.isConst() {
		return elems[idx.val]
	}
	lo, hi := idx.lo, min(idx.hi, uint64(len(elems)-1))
	var w uint8 = 255
	ok := hi-lo <= 1024
	if ok {
		for i := lo; i <= hi; i++ {
			t, isT := elems[i].(*Term)
			if !isT || (w != 255 && t.w != w) {
				ok = false
				break
			}
			w = t.w
		}
	}
	if ok {
		r := elems[hi].(*Term)
		for i := int64(hi) - 1; i >= int64(lo); i-- {
			r = in.tt.Ite(in.tt.Eq(idx, in.tt.Const(idx.w, uint64(i))), elems[i].(*Term), r)
		}
		return r
	}
	return copyVal(elems[in.concretize(idx)])
}

func (in *Interp) nilDeref() {
	in.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (in *Interp) rtPanic(msg string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{v: Iface{t: in.rtErrType(), v: concStr(msg)}, what: msg, pos: in.where()})
}

func (in *Interp) rtErrType() types.Type { return types.Typ[types.String] }

func (in *Interp) where() string {
	if !in.curPos.IsValid() {
		return "?"
	}
	p := in.sh.prog.Fset.Position(in.curPos)
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

// ---------------------------------------------------------------- decisions

func (in *Interp) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	if c.op == OpAnd {
		in.learn(c.a[0], true)
		in.learn(c.a[1], true)
	}
	in.learn(c, true)
	in.pc = append(in.pc, c)
	if in.modelOK && !in.evalBool(c) {
		in.modelOK = false
	}
}

func (in *Interp) learn(c *Term, v bool) {
	if c.op == OpNot {
		c, v = c.a[0], !v
	}
	in.facts[c] = v
	if v && c.op == OpAnd {
		in.learn(c.a[0], true)
		in.learn(c.a[1], true)
	}
	if !v && c.op == OpOr {
		in.learn(c.a[0], false)
		in.learn(c.a[1], false)
	}
}

func (in *Interp) lookupFact(c *Term) (bool, bool) {
	neg := false
	if c.op == OpNot {
		c, neg = c.a[0], true
	}
	if v, ok := in.facts[c]; ok {
		return v != neg, true
	}
	return false, false
}

func (in *Interp) evalBool(c *Term) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if e == errUFEval {
				in.modelOK = false
				r = false
				return
			}
			panic(e)
		}
	}()
	if in.ev == nil {
		in.ev = &evaluator{m: in.model, memo: make(map[*Term]uint64)}
	}
	return in.ev.eval(c) == 1
}

func (in *Interp) setModel(m Model) {
	in.model = m
	in.modelOK = m != nil
	in.ev = nil
}

func (in *Interp) ensureModel() bool {
	if in.modelOK {
		return true
	}
	r, m := in.sol.Check(in.pc, nil, in.varList)
	switch r {
	case Sat:
		in.setModel(m)
		return true
	case Unsat:
		panic(pathAbort{"infeasible"})
	}
	in.stats.UnknownPaths++
	panic(pathAbort{"unknown"})
}

func (in *Interp) decide(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if v, ok := in.lookupFact(c); ok {
		return v
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.initing > 0 {
		panic(unsupported{"symbolic branch during initialisation"})
	}
	i := len(in.decs)
	if i < len(in.prefix) {
		d := in.prefix[i]
		in.decs = append(in.decs, d)
		switch d.k {
		case dFalse:
			in.addPC(in.tt.Not(c))
			return false
		case dTrue:
			in.addPC(c)
			return true
		case dForcedFalse:
			in.learn(c, false)
			return false
		case dForcedTrue:
			in.learn(c, true)
			return true
		}
		panic(fmt.Sprintf("replay divergence: decision kind %d at %s", d.k, in.where()))
	}
	in.stats.Branches++
	in.timeUp()
	if slowDebug {
		fmt.Fprintln(debugOut, in.where(), c.String())
	}
	nc := in.tt.Not(c)
	in.ensureModel()
	first := in.evalBool(c)
	if !in.modelOK {
		// evaluation impossible: ask for both sides
		r1, m1 := in.query(c)
		if r1 == Unsat {
			in.decs = append(in.decs, Dec{k: dForcedFalse})
			in.learn(c, false)
			return false
		}
		in.setModel(m1)
		first = true
	}
	other := nc
	if !first {
		other = c
	}
	r, m := in.query(other)
	if r == Unsat {
		if first {
			in.decs = append(in.decs, Dec{k: dForcedTrue})
			in.learn(c, true)
		} else {
			in.decs = append(in.decs, Dec{k: dForcedFalse})
			in.learn(c, false)
		}
		return first
	}
	if r == Unknown {
		in.stats.UnknownPaths++
	}
	if in.stats.Forks == nil {
		in.stats.Forks = make(map[string]int)
	}
	in.stats.Forks[in.where()]++
	alt := append(append([]Dec(nil), in.decs...), Dec{})
	if first {
		alt[i].k = dFalse
		in.decs = append(in.decs, Dec{k: dTrue})
	} else {
		alt[i].k = dTrue
		in.decs = append(in.decs, Dec{k: dFalse})
	}
	in.work(alt, m)
	if first {
		in.addPC(c)
	} else {
		in.addPC(nc)
	}
	return first
}

// choose explores n alternatives of a nondeterministic choice; the choice is
// also recorded as a variable.
func (in *Interp) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	i := len(in.decs)
	var v uint64
	if i < len(in.prefix) {
		d := in.prefix[i]
		if d.k != dChoose {
			panic(fmt.Sprintf("replay divergence: want choose at %s", in.where()))
		}
		in.decs = append(in.decs, d)
		v = d.v
	} else {
		in.stats.Branches++
		for k := n - 1; k >= 1; k-- {
			alt := append(append([]Dec(nil), in.decs...), Dec{k: dChoose, v: uint64(k)})
			m := in.model
			if !in.modelOK {
				m = nil
			}
			in.work(alt, m)
		}
		in.decs = append(in.decs, Dec{k: dChoose})
	}
	x := in.freshVar(label, 32, 0, uint64(n-1))
	c := in.tt.Eq(x, in.tt.Const(32, v))
	if in.modelOK {
		nm := make(Model, len(in.model)+1)
		for k, vv := range in.model {
			nm[k] = vv
		}
		nm[x.name] = v
		in.setModel(nm)
	}
	in.addPC(c)
	return int(v)
}

// concretize forks over the feasible values of a term.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(unsupported{"too many values to enumerate"})
		}
		i := len(in.decs)
		if i < len(in.prefix) {
			d := in.prefix[i]
			in.decs = append(in.decs, d)
			c := in.tt.Eq(t, in.tt.Const(t.w, d.v))
			switch d.k {
			case dConcEq:
				in.addPC(c)
				return d.v
			case dConcNe:
				in.addPC(in.tt.Not(c))
				continue
			case dConcForced:
				in.learn(c, true)
				return d.v
			}
			panic(fmt.Sprintf("replay divergence: concretize at %s kind %d", in.where(), d.k))
		}
		in.stats.Branches++
		in.ensureModel()
		v := in.ev0(t)
		c := in.tt.Eq(t, in.tt.Const(t.w, v))
		if c.isTrue() {
			return v
		}
		r, m := in.query(in.tt.Not(c))
		if r == Unsat {
			in.decs = append(in.decs, Dec{k: dConcForced, v: v})
			in.learn(c, true)
			return v
		}
		if r == Unknown {
			in.stats.UnknownPaths++
		}
		alt := append(append([]Dec(nil), in.decs...), Dec{k: dConcNe, v: v})
		in.work(alt, m)
		in.decs = append(in.decs, Dec{k: dConcEq, v: v})
		in.addPC(c)
		return v
	}
}

func (in *Interp) ev0(t *Term) uint64 {
	if in.ev == nil {
		in.ev = &evaluator{m: in.model, memo: make(map[*Term]uint64)}
	}
	return in.ev.eval(t)
}

func (in *Interp) freshVar(label string, w uint8, lo, hi uint64) *Term {
	if in.spec > 0 {
		panic(specAbort{})
	}
	in.varCount[label]++
	name := label
	if n := in.varCount[label]; n > 1 {
		name = fmt.Sprintf("%s#%d", label, n)
	}
	t := in.tt.Var(name, w, lo, hi)
	in.varList = append(in.varList, name)
	in.varTerm[name] = t
	if w > 0 && (lo > 0 || hi < mask(w)) {
		// The bounds are part of the path condition, written without the
		// interval simplification that already assumes them.
		if lo > 0 {
			in.pc = append(in.pc, in.tt.intern(tkey{op: OpNot}, in.tt.intern(tkey{op: OpULt}, t, in.tt.Const(w, lo), nil), nil, nil))
		}
		if hi < mask(w) {
			in.pc = append(in.pc, in.tt.intern(tkey{op: OpNot}, in.tt.intern(tkey{op: OpULt}, in.tt.Const(w, hi), t, nil), nil, nil))
		}
	}
	return t
}

// assume restricts the path; it ends when the condition is infeasible.
func (in *Interp) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathAbort{"assume"})
	}
	if v, ok := in.lookupFact(c); ok {
		if v {
			return
		}
		panic(pathAbort{"assume"})
	}
	in.addPC(c)
	if !in.modelOK && len(in.decs) >= len(in.prefix) {
		r, m := in.sol.Check(in.pc, nil, in.varList)
		switch r {
		case Sat:
			in.setModel(m)
		case Unsat:
			panic(pathAbort{"assume"})
		default:
			in.stats.UnknownPaths++
			panic(pathAbort{"unknown"})
		}
	}
}

// assert decides pc && !c; a model is a counterexample.
func (in *Interp) assert(c *Term, msg string) {
	in.effect()
	in.stats.Asserts++
	if c.isTrue() {
		in.stats.Trivial++
		return
	}
	if v, ok := in.lookupFact(c); ok && v {
		in.stats.Trivial++
		return
	}
	// Within the replayed prefix the assertion was already decided by the
	// path this one was forked from.
	if len(in.decs) < len(in.prefix) {
		if c.isFalse() {
			panic(pathAbort{"violated"})
		}
		in.addPC(c)
		return
	}
	nc := in.tt.Not(c)
	if in.modelOK && in.evalBool(nc) {
		in.report(msg, in.model)
	} else {
		r, m := in.query(nc)
		switch r {
		case Unsat:
			in.stats.Discharged++
			in.learn(c, true)
			return
		case Unknown:
			in.stats.UnknownAsserts++
			return
		case Sat:
			in.report(msg, m)
		}
	}
	// continue on the rest of the path, where the assertion holds
	if c.isFalse() {
		panic(pathAbort{"violated"})
	}
	r, m := in.query(c)
	if r != Sat {
		panic(pathAbort{"violated"})
	}
	in.setModel(m)
	in.addPC(c)
}

func (in *Interp) report(msg string, m Model) { in.viol(in.violation(msg, m)) }

func (in *Interp) violation(msg string, m Model) *Violation {
	v := &Violation{Msg: msg, Model: make(Model), Where: in.where()}
	for _, n := range in.varList {
		if x, ok := m[n]; ok {
			v.Model[n] = x
		} else {
			v.Model[n] = in.varTerm[n].lo
		}
	}
	v.Vars = append([]string(nil), in.varList...)
	v.Events = append([]string(nil), in.events...)
	v.Order = in.nativeOrder()
	return v
}

// ---------------------------------------------------------------- functions

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.sh.fis.Load(fn); ok {
		return fi.(*fnInfo)
	}
	fi := &fnInfo{idx: make(map[ssa.Value]int)}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
			switch i.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.ipdom = mergeRegions(fn)
	in.sh.fis.Store(fn, fi)
	return fi
}

func (in *Interp) ensureBuilt(fn *ssa.Function) {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Pkg
	}
	// another worker may be in the middle of building the package
	if p != nil && !in.built[p] {
		p.Build()
		in.built[p] = true
	}
}

func (in *Interp) closure(fn *ssa.Function) *Closure {
	c, ok := in.fnClos[fn]
	if !ok {
		c = &Closure{fn: fn}
		in.fnClos[fn] = c
	}
	return c
}

func (in *Interp) get(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(v)
	case *ssa.Global:
		return in.globalAddr(v)
	case *ssa.Function:
		return in.closure(v)
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		panic(unsupported{"unknown value " + v.Name()})
	}
	r := fr.env[i]
	if p, bad := r.(Poison); bad {
		panic(unsupported{"use of " + p.reason})
	}
	return r
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if v, ok := in.consts[c]; ok {
		return v
	}
	v := in.mkConst(c)
	switch v.(type) {
	case Struct, Array:
		return v
	}
	in.consts[c] = v
	return v
}

func (in *Interp) mkConst(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if w, _, ok := scalar(b); ok {
			if w == 0 {
				return in.tt.Bool(constant.BoolVal(c.Value))
			}
			if b.Info()&types.IsUnsigned != 0 {
				return in.tt.Const(w, c.Uint64())
			}
			return in.tt.Const(w, uint64(c.Int64()))
		}
		switch {
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return concStr(constant.StringVal(c.Value))
			}
			return concStr(string(rune(c.Int64())))
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	panic(unsupported{"constant " + c.String()})
}

func (in *Interp) globalAddr(g *ssa.Global) *Value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	in.initPackage(g.Pkg)
	if p, ok := in.globals[g]; ok {
		return p
	}
	// global added while the initialiser is running
	p := new(Value)
	*p = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
	in.globals[g] = p
	return p
}

// initPackage runs a package's variable initialisers on first use. Anything
// that cannot be executed leaves a poisoned variable behind.
func (in *Interp) initPackage(pkg *ssa.Package) {
	if in.inited[pkg] != 0 {
		return
	}
	in.inited[pkg] = 1
	pkg.Build()
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, dup := in.globals[g]; dup {
				continue
			}
			p := new(Value)
			*p = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
			in.globals[g] = p
		}
	}
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	save, saveSpec, savePos, saveSteps := in.trailOn, in.spec, in.curPos, in.steps
	in.trailOn = false
	in.spec = 0
	in.initing++
	defer func() {
		in.initing--
		in.trailOn, in.spec, in.curPos, in.steps = save, saveSpec, savePos, saveSteps
		in.inited[pkg] = 2
	}()
	fi := in.info(fn)
	fr := &Frame{fn: fn, fi: fi, env: make([]Value, fi.n), block: fn.Blocks[0]}
	for fr.block != nil {
		b := fr.block
		fr.block = nil
		for _, ins := range b.Instrs {
			stop := in.initStep(fr, b, ins)
			if stop {
				return
			}
			if fr.block != nil {
				break
			}
		}
	}
}

func (in *Interp) initStep(fr *Frame, b *ssa.BasicBlock, ins ssa.Instruction) (stop bool) {
	defer func() {
		if r := recover(); r != nil {
			reason := fmt.Sprint(r)
			switch r := r.(type) {
			case unsupported:
				reason = r.reason
			case *targetPanic:
				reason = "panic in init: " + r.what
			case specAbort, pathAbort:
			default:
				if debugInit {
					fmt.Fprintf(debugOut, "init %s: %v: %v\n", fr.fn.Pkg.Pkg.Path(), ins, r)
				}
				panic(r)
			}
			if debugInit {
				fmt.Fprintf(debugOut, "init %s: %v: %s\n", fr.fn.Pkg.Pkg.Path(), ins, reason)
			}
			ps := Poison{fmt.Sprintf("%s (init of %s: %s)", ins, fr.fn.Pkg.Pkg.Path(), reason)}
			switch i := ins.(type) {
			case *ssa.If:
				stop = true
			case *ssa.Store:
				if g, ok := i.Addr.(*ssa.Global); ok {
					*in.globals[g] = ps
				}
			case ssa.Value:
				fr.env[fr.fi.idx[i]] = ps
			}
		}
	}()
	switch i := ins.(type) {
	case *ssa.Call:
		// initialisers of imported packages run on first use
		if f, ok := i.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != fr.fn.Pkg && f.Signature.Recv() == nil {
			return false
		}
	case *ssa.If:
		c := in.get(fr, i.Cond).(*Term)
		fr.prev = b
		if in.decide(c) {
			fr.block = b.Succs[0]
		} else {
			fr.block = b.Succs[1]
		}
		return false
	case *ssa.Jump:
		fr.prev = b
		fr.block = b.Succs[0]
		return false
	case *ssa.Return:
		return true
	case *ssa.Phi:
		for k, p := range b.Preds {
			if p == fr.prev {
				fr.env[fr.fi.idx[i]] = in.get(fr, i.Edges[k])
			}
		}
		return false
	}
	in.step(fr, ins)
	return false
}

var slowDebug = os.Getenv("VF_DEBUG_BRANCH") != ""

var debugInit = os.Getenv("VF_DEBUG_INIT") != ""

const maxDepth = 3000

type bodyMark struct{ _ int }

// useBody is returned by an intrinsic that leaves the call to the code.
var useBody Value = &bodyMark{}

func (in *Interp) callFn(caller *Frame, fn *ssa.Function, args []Value, fvs []Value) Value {
	name := fnName(fn)
	if c, ok := in.opts.stubs[name]; ok {
		if in.spec > 0 {
			panic(specAbort{})
		}
		return in.callValue(caller, c, args)
	}
	if h, ok := intrinsics[name]; ok {
		if in.spec > 0 && !pureIntrinsics[name] {
			panic(specAbort{})
		}
		if o := syncObject(name, args); o != nil {
			in.acquire(o)
			in.release(o)
			r := h(in, caller, args)
			in.acquire(o)
			in.release(o)
			if r != useBody {
				return r
			}
		} else if r := h(in, caller, args); r != useBody {
			return r
		}
	}
	in.ensureBuilt(fn)
	if fn.Blocks == nil {
		panic(unsupported{"external function " + name})
	}
	if h := in.stubFor(fn, name); h != nil {
		if in.spec > 0 {
			panic(specAbort{})
		}
		return h(in, caller, args)
	}
	if !in.seenF[fn] {
		in.seenF[fn] = true
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), in.repo) && fn.Pkg.Pkg.Path() != in.sh.vfPath {
			p := in.sh.prog.Fset.Position(fn.Pos())
			if !strings.Contains(p.Filename, "zz_verif") {
				in.sh.funcsMu.Lock()
				in.sh.funcs[name] = true
				in.sh.funcsMu.Unlock()
			}
		}
	}
	fi := in.info(fn)
	fr := &Frame{fn: fn, fi: fi, env: make([]Value, fi.n), caller: caller, block: fn.Blocks[0]}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > maxDepth {
		panic(unsupported{"call depth"})
	}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], fvs)
	pos := in.curPos
	if fi.hasDefer {
		in.runWithDefers(fr)
	} else {
		in.run(fr)
	}
	in.curPos = pos
	return fr.result
}

func (in *Interp) runWithDefers(fr *Frame) {
	for {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(*targetPanic); ok {
						fr.panicking = tp
						return
					}
					panic(r)
				}
			}()
			in.run(fr)
		}()
		if fr.panicking == nil {
			return
		}
		in.runDefers(fr)
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		// recovered
		if fr.fn.Recover == nil {
			fr.result = in.zeroResults(fr.fn)
			return
		}
		fr.block = fr.fn.Recover
		fr.prev = nil
	}
}

func (in *Interp) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return in.zero(r)
}

func (in *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			if fr.panicking == nil {
				in.callValue(fr, d.fn, d.args)
				return
			}
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(*targetPanic); ok {
						fr.panicking = tp
						return
					}
					panic(r)
				}
			}()
			in.callValue(fr, d.fn, d.args)
		}()
	}
}

func (in *Interp) callValue(fr *Frame, f Value, args []Value) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			in.nilDeref()
		}
		if f.nat != nil {
			return f.nat(in, fr, args)
		}
		return in.callFn(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return in.builtin(fr, f, nil, args)
	case Poison:
		panic(unsupported{"call of " + f.reason})
	}
	panic(unsupported{fmt.Sprintf("call of %T", f)})
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if n, ok := fnNames.Load(fn); ok {
		return n.(string)
	}
	n := fn.String()
	fnNames.Store(fn, n)
	return n
}

var fnNames sync.Map

// ---------------------------------------------------------------- execution

// timeUp gives up the path when the time is over.
func (in *Interp) timeUp() {
	if in.spec == 0 && in.initing == 0 && time.Now().After(in.giveUp) {
		in.stats.Truncated = true
		in.stats.Dropped++
		panic(pathAbort{"time"})
	}
}

func (in *Interp) run(fr *Frame) {
	for fr.block != nil {
		b := fr.block
		in.steps += len(b.Instrs)
		if in.steps > in.maxSteps && in.initing == 0 {
			in.stats.Unwind++
			panic(pathAbort{"step bound at " + in.where()})
		}
		if in.ticks++; in.ticks&1023 == 0 {
			in.timeUp()
		}
		i := 0
		if fr.phiDone {
			fr.phiDone = false
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		} else {
			var vals []Value
			for i < len(b.Instrs) {
				phi, ok := b.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range b.Preds {
					if p == fr.prev {
						vals = append(vals, in.getRaw(fr, phi.Edges[k]))
						break
					}
				}
				i++
			}
			for k, v := range vals {
				fr.env[fr.fi.idx[b.Instrs[k].(ssa.Value)]] = v
			}
		}
		next := (*ssa.BasicBlock)(nil)
	instrs:
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			switch x := ins.(type) {
			case *ssa.If:
				if p := x.Pos(); p.IsValid() {
					in.curPos = p
				}
				c := in.get(fr, x.Cond).(*Term)
				if !c.isConst() {
					if _, known := in.lookupFact(c); !known && !in.opts.noMerge {
						if j, ok := in.tryMerge(fr, b, c); ok {
							if fr.done {
								return
							}
							fr.prev = b
							next = j
							fr.phiDone = true
							break instrs
						}
					}
				}
				if in.decide(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
				fr.prev = b
				break instrs
			case *ssa.Jump:
				next = b.Succs[0]
				fr.prev = b
				break instrs
			case *ssa.Return:
				fr.result = in.returnVal(fr, x)
				fr.block = nil
				return
			case *ssa.Panic:
				if p := x.Pos(); p.IsValid() {
					in.curPos = p
				}
				if in.spec > 0 {
					panic(specAbort{})
				}
				v := in.get(fr, x.X)
				panic(&targetPanic{v: v, what: in.panicString(v), pos: in.where()})
			default:
				in.step(fr, ins)
			}
		}
		fr.block = next
	}
}

func (in *Interp) panicString(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(*Str); ok && s.b == nil {
			return s.s
		}
		if i.t != nil {
			return "panic(" + i.t.String() + ")"
		}
	}
	return "panic"
}

func (in *Interp) getRaw(fr *Frame, v ssa.Value) Value {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return in.get(fr, v)
	}
	return fr.env[fr.fi.idx[v]]
}

func (in *Interp) returnVal(fr *Frame, x *ssa.Return) Value {
	switch len(x.Results) {
	case 0:
		return nil
	case 1:
		return in.get(fr, x.Results[0])
	}
	t := make(Tuple, len(x.Results))
	for i, r := range x.Results {
		t[i] = in.get(fr, r)
	}
	return t
}

func (in *Interp) setEnv(fr *Frame, v ssa.Value, x Value) { fr.env[fr.fi.idx[v]] = x }

func (in *Interp) step(fr *Frame, ins ssa.Instruction) {
	in.fr = fr
	if p := ins.Pos(); p.IsValid() {
		in.curPos = p
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(x.Type().Underlying().(*types.Pointer).Elem())
		if in.spec > 0 {
			in.specAlloc(p)
		}
		in.setEnv(fr, x, p)
	case *ssa.UnOp:
		in.setEnv(fr, x, in.unop(fr, x))
	case *ssa.BinOp:
		in.setEnv(fr, x, in.binop(x.Op, x.X.Type(), in.get(fr, x.X), in.get(fr, x.Y), x.Y.Type()))
	case *ssa.Call:
		fn, args := in.prepCall(fr, &x.Call)
		var r Value
		if b, ok := fn.(*ssa.Builtin); ok {
			r = in.builtin(fr, b, &x.Call, args)
		} else {
			r = in.callValue(fr, fn, args)
		}
		if r != nil {
			in.setEnv(fr, x, r)
		}
	case *ssa.ChangeInterface:
		in.setEnv(fr, x, in.get(fr, x.X))
	case *ssa.ChangeType:
		in.setEnv(fr, x, in.get(fr, x.X))
	case *ssa.Convert:
		in.setEnv(fr, x, in.convert(x.X.Type(), x.Type(), in.get(fr, x.X)))
	case *ssa.MultiConvert:
		in.setEnv(fr, x, in.convert(x.X.Type(), x.Type(), in.get(fr, x.X)))
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.rtPanic("runtime error: cannot convert slice to array pointer")
		}
		if s == nil {
			in.setEnv(fr, x, (*Value)(nil))
			return
		}
		p := new(Value)
		*p = Array(s[:n:n])
		in.setEnv(fr, x, p)
	case *ssa.Defer:
		in.effect()
		fn, args := in.prepCall(fr, &x.Call)
		target := fr
		if x.DeferStack != nil {
			if ds, ok := in.get(fr, x.DeferStack).(*Frame); ok {
				target = ds
			}
		}
		target.defers = append(target.defers, &deferred{fn: fn, args: args})
	case *ssa.RunDefers:
		in.runDefers(fr)
	case *ssa.Extract:
		in.setEnv(fr, x, in.get(fr, x.Tuple).(Tuple)[x.Index])
	case *ssa.Field:
		in.setEnv(fr, x, in.get(fr, x.X).(Struct)[x.Field])
	case *ssa.FieldAddr:
		p := in.get(fr, x.X)
		pv, ok := p.(*Value)
		if !ok {
			if se, isSE := p.(*SymElem); isSE {
				pv = &se.elems[in.concretize(se.idx)]
			} else {
				panic(unsupported{fmt.Sprintf("field address of %T", p)})
			}
		}
		if pv == nil {
			in.nilDeref()
		}
		s, ok := (*pv).(Struct)
		if !ok {
			if ps, bad := (*pv).(Poison); bad {
				panic(unsupported{"use of " + ps.reason})
			}
			panic(unsupported{fmt.Sprintf("field address in %T", *pv)})
		}
		in.setEnv(fr, x, &s[x.Field])
	case *ssa.Go:
		in.effect()
		fn, args := in.prepCall(fr, &x.Call)
		in.spawn(fr, fn, args)
	case *ssa.Index:
		idx := in.toInt(in.get(fr, x.Index).(*Term), x.Index.Type())
		switch s := in.get(fr, x.X).(type) {
		case Array:
			in.boundsCheck(idx, len(s))
			in.setEnv(fr, x, in.symIndex(s, idx))
		case *Str:
			in.setEnv(fr, x, in.strIndex(s, idx))
		default:
			panic(unsupported{fmt.Sprintf("index of %T", s)})
		}
	case *ssa.IndexAddr:
		idx := in.toInt(in.get(fr, x.Index).(*Term), x.Index.Type())
		var elems []Value
		switch s := in.get(fr, x.X).(type) {
		case Slice:
			elems = s
		case *Value:
			if s == nil {
				in.nilDeref()
			}
			a, ok := (*s).(Array)
			if !ok {
				panic(unsupported{fmt.Sprintf("element address in %T", *s)})
			}
			elems = a
		default:
			panic(unsupported{fmt.Sprintf("element address of %T", s)})
		}
		in.boundsCheck(idx, len(elems))
		if idx.isConst() {
			in.setEnv(fr, x, &elems[idx.val])
		} else {
			in.setEnv(fr, x, &SymElem{elems, idx})
		}
	case *ssa.Lookup:
		in.setEnv(fr, x, in.lookup(fr, x))
	case *ssa.MakeChan:
		n := in.concretize(in.toInt(in.get(fr, x.Size).(*Term), x.Size.Type()))
		in.setEnv(fr, x, &Chan{cap: int(n), elem: x.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.env = append(c.env, in.get(fr, b))
		}
		in.setEnv(fr, x, c)
	case *ssa.MakeInterface:
		in.setEnv(fr, x, Iface{t: x.X.Type(), v: in.get(fr, x.X)})
	case *ssa.MakeMap:
		in.setEnv(fr, x, newMap())
	case *ssa.MakeSlice:
		lt := in.toInt(in.get(fr, x.Len).(*Term), x.Len.Type())
		ct := in.toInt(in.get(fr, x.Cap).(*Term), x.Cap.Type())
		if !lt.isConst() {
			if in.decide(in.tt.SLt(lt, in.tt.Const(64, 0))) {
				in.rtPanic("runtime error: makeslice: len out of range")
			}
		}
		n := in.concretize(lt)
		c := in.concretize(ct)
		if int64(n) < 0 || int64(c) < int64(n) {
			in.rtPanic("runtime error: makeslice: len out of range")
		}
		if c > 1<<22 {
			panic(unsupported{"huge allocation"})
		}
		elem := x.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		z := in.zero(elem)
		for i := range s {
			s[i] = copyVal(z)
		}
		in.setEnv(fr, x, s[:n])
	case *ssa.MapUpdate:
		m := in.get(fr, x.Map).(*Map)
		if m == nil {
			in.rtPanic("assignment to entry in nil map")
		}
		in.mapSet(m, in.get(fr, x.Key), copyVal(in.get(fr, x.Value)))
	case *ssa.Next:
		in.setEnv(fr, x, in.next(fr, x))
	case *ssa.Range:
		switch s := in.get(fr, x.X).(type) {
		case *Map:
			in.setEnv(fr, x, in.rangeMap(s))
		case *Str:
			in.setEnv(fr, x, &strIter{s: s})
		default:
			panic(unsupported{fmt.Sprintf("range over %T", s)})
		}
	case *ssa.Select:
		in.effect()
		in.setEnv(fr, x, in.doSelect(fr, x))
	case *ssa.Send:
		in.effect()
		in.chanSend(fr, in.get(fr, x.Chan).(*Chan), in.get(fr, x.X))
	case *ssa.Slice:
		in.setEnv(fr, x, in.slice(fr, x))
	case *ssa.Store:
		in.store(in.get(fr, x.Addr), in.getRaw(fr, x.Val))
	case *ssa.TypeAssert:
		in.setEnv(fr, x, in.typeAssert(x, in.get(fr, x.X)))
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", ins)})
	}
}

func (in *Interp) prepCall(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		recv := in.get(fr, c.Value)
		i, ok := recv.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", recv)})
		}
		if i.t == nil {
			in.nilDeref()
		}
		fn := in.findMethod(i.t, c.Method)
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, i.v)
		for _, a := range c.Args {
			args = append(args, in.get(fr, a))
		}
		return in.closure(fn), args
	}
	fn := in.get(fr, c.Value)
	args := make([]Value, 0, len(c.Args))
	for _, a := range c.Args {
		args = append(args, in.get(fr, a))
	}
	return fn, args
}

func (in *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Name(), m.Pkg()}
	if fn, ok := in.methods[k]; ok {
		return fn
	}
	fn := in.sh.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported{"no method " + m.Name() + " on " + t.String()})
	}
	in.methods[k] = fn
	return fn
}

func (in *Interp) methodByName(t types.Type, name string) *ssa.Function {
	ms := in.sh.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.sh.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (in *Interp) sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := [2]types.Type{a, b}
	if v, ok := in.sameC[k]; ok {
		return v
	}
	v := types.Identical(a, b)
	in.sameC[k] = v
	return v
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := in.implsC[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	in.implsC[k] = v
	return v
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported{fmt.Sprintf("type assertion on %T", v)})
	}
	var res Value
	good := false
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && in.implements(i.t, it) {
			good = true
			res = i
		}
	} else if i.t != nil && in.sameType(i.t, x.AssertedType) {
		good = true
		res = i.v
	}
	if x.CommaOk {
		if !good {
			res = in.zero(x.AssertedType)
		}
		return Tuple{res, in.tt.Bool(good)}
	}
	if !good {
		what := "nil"
		if i.t != nil {
			what = i.t.String()
		}
		in.rtPanic("interface conversion: interface is " + what + ", not " + x.AssertedType.String())
	}
	return res
}

// toInt widens an index operand to 64 bits.
func (in *Interp) toInt(t *Term, typ types.Type) *Term {
	_, signed, _ := scalar(typ)
	if t.w == 64 {
		return t
	}
	if signed {
		return in.tt.SExt(t, 64)
	}
	return in.tt.ZExt(t, 64)
}

func (in *Interp) boundsCheck(idx *Term, n int) {
	if !in.decide(in.tt.ULt(idx, in.tt.Const(64, uint64(n)))) {
		in.rtPanic(fmt.Sprintf("runtime error: index out of range [%s] with length %d", idx, n))
	}
}

func (in *Interp) strIndex(s *Str, idx *Term) *Term {
	n := s.Len()
	in.boundsCheck(idx, n)
	if idx.isConst() {
		return s.at(in, int(idx.val))
	}
	hi := min(idx.hi, uint64(n-1))
	r := s.at(in, int(hi))
	for i := int64(hi) - 1; i >= int64(idx.lo); i-- {
		r = in.tt.Ite(in.tt.Eq(idx, in.tt.Const(64, uint64(i))), s.at(in, int(i)), r)
	}
	return r
}

func (in *Interp) lookup(fr *Frame, x *ssa.Lookup) Value {
	switch s := in.get(fr, x.X).(type) {
	case *Str:
		return in.strIndex(s, in.toInt(in.get(fr, x.Index).(*Term), x.Index.Type()))
	case *Map:
		k := in.get(fr, x.Index)
		if s != nil {
			in.raceMap(s, false)
		}
		e := in.mapFind(s, k)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = in.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, in.tt.Bool(e != nil)}
		}
		return v
	default:
		panic(unsupported{fmt.Sprintf("lookup in %T", s)})
	}
}

func (in *Interp) rangeMap(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m != nil {
		in.raceMap(m, false)
		for _, e := range m.ents {
			if e.live {
				it.ents = append(it.ents, e)
			}
		}
	}
	return it
}

func (in *Interp) next(fr *Frame, x *ssa.Next) Value {
	switch it := in.get(fr, x.Iter).(type) {
	case *mapIter:
		in.effect()
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		for len(it.ents) > 0 {
			k := 0
			// drop dead entries first
			var live []*mapEntry
			for _, e := range it.ents {
				if e.live {
					live = append(live, e)
				}
			}
			it.ents = live
			if len(live) == 0 {
				break
			}
			if in.opts.mapOrder && len(live) <= 4 && in.initing == 0 {
				k = in.choose(len(live), "maporder")
			}
			e := live[k]
			it.ents = append(append([]*mapEntry(nil), live[:k]...), live[k+1:]...)
			return Tuple{in.tt.True, e.k, copyVal(e.v)}
		}
		return Tuple{in.tt.False, in.zero(mt.Key()), in.zero(mt.Elem())}
	case *strIter:
		in.effect()
		n := it.s.Len()
		if it.i >= n {
			return Tuple{in.tt.False, in.tt.Const(64, 0), in.tt.Const(32, 0)}
		}
		i := it.i
		b := it.s.at(in, i)
		if in.decide(in.tt.ULt(b, in.tt.Const(8, 0x80))) {
			it.i++
			return Tuple{in.tt.True, in.tt.Const(64, uint64(i)), in.tt.ZExt(b, 32)}
		}
		r, sz := in.decodeRune(fr, it.s.slice(i, n))
		it.i += sz
		return Tuple{in.tt.True, in.tt.Const(64, uint64(i)), r}
	}
	panic(unsupported{"next"})
}

func (in *Interp) stdFn(pkg, name string) *ssa.Function {
	p := in.sh.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported{"package " + pkg + " not loaded"})
	}
	p.Build()
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"no function " + pkg + "." + name})
	}
	return f
}

func (in *Interp) decodeRune(fr *Frame, s *Str) (*Term, int) {
	r := in.callFn(fr, in.stdFn("unicode/utf8", "DecodeRuneInString"), []Value{s}, nil).(Tuple)
	return r[0].(*Term), int(in.concretize(r[1].(*Term)))
}

func (in *Interp) slice(fr *Frame, x *ssa.Slice) Value {
	v := in.get(fr, x.X)
	opt := func(o ssa.Value, def int) *Term {
		if o == nil {
			return in.tt.Const(64, uint64(def))
		}
		return in.toInt(in.get(fr, o).(*Term), o.Type())
	}
	var ln, cp int
	switch s := v.(type) {
	case *Str:
		ln, cp = s.Len(), s.Len()
	case Slice:
		ln, cp = len(s), cap(s)
	case *Value:
		if s == nil {
			in.nilDeref()
		}
		a, ok := (*s).(Array)
		if !ok {
			panic(unsupported{fmt.Sprintf("slice of pointer to %T", *s)})
		}
		ln, cp = len(a), len(a)
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", v)})
	}
	lo, hi := opt(x.Low, 0), opt(x.High, ln)
	mx := opt(x.Max, cp)
	le := func(a, b *Term) *Term { return in.tt.ULe(a, b) }
	ok := in.tt.And(le(lo, hi), in.tt.And(le(hi, mx), le(mx, in.tt.Const(64, uint64(cp)))))
	if !in.decide(ok) {
		in.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%s:%s] with capacity %d", lo, hi, cp))
	}
	h := int(in.concretize(hi))
	l := int(in.concretize(lo))
	m := int(in.concretize(mx))
	switch s := v.(type) {
	case *Str:
		return s.slice(l, h)
	case Slice:
		if s == nil {
			return s
		}
		return s[l:h:m]
	case *Value:
		a := []Value((*s).(Array))
		return Slice(a[l:h:m])
	}
	return nil
}

// ---------------------------------------------------------------- operators

func (in *Interp) unop(fr *Frame, x *ssa.UnOp) Value {
	v := in.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		return in.load(v)
	case token.NOT:
		return in.tt.Not(v.(*Term))
	case token.SUB:
		switch v := v.(type) {
		case *Term:
			return in.tt.Neg(v)
		case float64:
			return -v
		}
	case token.XOR:
		return in.tt.BNot(v.(*Term))
	case token.ARROW:
		in.effect()
		r, ok := in.chanRecv(fr, v.(*Chan))
		if x.CommaOk {
			return Tuple{r, in.tt.Bool(ok)}
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("unary %s on %T", x.Op, v)})
}

func (in *Interp) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	tt := in.tt
	switch op {
	case token.EQL:
		return in.eq(x, y)
	case token.NEQ:
		return tt.Not(in.eq(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			break
		}
		w, signed, _ := scalar(t)
		if w == 0 {
			switch op {
			case token.AND, token.LAND:
				return tt.And(a, b)
			case token.OR, token.LOR:
				return tt.Or(a, b)
			case token.XOR:
				return tt.Not(tt.Eq(a, b))
			case token.AND_NOT:
				return tt.And(a, tt.Not(b))
			}
			break
		}
		switch op {
		case token.ADD:
			return tt.Bin(OpAdd, a, b)
		case token.SUB:
			if w == 64 && signed && !(a.isConst() && b.isConst()) {
				if x, ok := in.nanoOf(a); ok {
					if y, ok := in.nanoOf(b); ok {
						if r := in.nanoSub(x, y); r != nil {
							return r
						}
					}
				}
			}
			return tt.Bin(OpSub, a, b)
		case token.MUL:
			return in.narrow(OpMul, a, b)
		case token.QUO, token.REM:
			if in.decide(tt.Eq(b, tt.Const(w, 0))) {
				in.rtPanic("runtime error: integer divide by zero")
			}
			o := OpUDiv
			if op == token.REM {
				o = OpURem
			}
			if signed && w == 64 && op == token.QUO && b.isConst() && b.val == 1000000000 && !a.isConst() {
				return in.divNano(a)
			}
			if signed {
				h := mask(w) >> 1
				if a.hi > h || b.hi > h {
					if op == token.QUO {
						return tt.Bin(OpSDiv, a, b)
					}
					return tt.Bin(OpSRem, a, b)
				}
			}
			return in.narrow(o, a, b)
		case token.AND:
			return tt.Bin(OpBAnd, a, b)
		case token.OR:
			return tt.Bin(OpBOr, a, b)
		case token.XOR:
			return tt.Bin(OpXor, a, b)
		case token.AND_NOT:
			return tt.Bin(OpBAnd, a, tt.BNot(b))
		case token.SHL, token.SHR:
			_, ysigned, _ := scalar(yt)
			if ysigned && b.hi > mask(b.w)>>1 {
				if in.decide(tt.SLt(b, tt.Const(b.w, 0))) {
					in.rtPanic("runtime error: negative shift amount")
				}
			}
			// bring the count to the operand's width, saturating
			c := b
			if c.w < w {
				c = tt.ZExt(c, w)
			} else if c.w > w {
				big := tt.ULe(tt.Const(c.w, uint64(w)), c)
				c = tt.Ite(big, tt.Const(w, uint64(w)), tt.Extract(c, w-1, 0))
			}
			switch {
			case op == token.SHL:
				return tt.Bin(OpShl, a, c)
			case signed:
				if a.hi <= mask(w)>>1 {
					return tt.Bin(OpLShr, a, c)
				}
				return tt.Bin(OpAShr, a, c)
			default:
				return tt.Bin(OpLShr, a, c)
			}
		case token.LSS:
			if signed && w == 64 {
				if r := in.nanoLess(a, b); r != nil {
					return r
				}
			}
			if signed {
				return tt.SLt(a, b)
			}
			return tt.ULt(a, b)
		case token.LEQ:
			if signed && w == 64 {
				if r := in.nanoLess(b, a); r != nil {
					return tt.Not(r)
				}
			}
			if signed {
				return tt.SLe(a, b)
			}
			return tt.ULe(a, b)
		case token.GTR:
			if signed && w == 64 {
				if r := in.nanoLess(b, a); r != nil {
					return r
				}
			}
			if signed {
				return tt.SLt(b, a)
			}
			return tt.ULt(b, a)
		case token.GEQ:
			if signed && w == 64 {
				if r := in.nanoLess(a, b); r != nil {
					return tt.Not(r)
				}
			}
			if signed {
				return tt.SLe(b, a)
			}
			return tt.ULe(b, a)
		}
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			if a.op || b.op {
				return opaqueStr("concatenation")
			}
			if a.b == nil && b.b == nil {
				return concStr(a.s + b.s)
			}
			return mkStr(append(append([]*Term(nil), in.strBytes(a)...), in.strBytes(b)...))
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return tt.Not(in.strLess(b, a))
		case token.GEQ:
			return tt.Not(in.strLess(a, b))
		}
	case float64:
		b, ok := y.(float64)
		if !ok {
			break
		}
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(a + b)
		case token.SUB:
			return r(a - b)
		case token.MUL:
			return r(a * b)
		case token.QUO:
			return r(a / b)
		case token.LSS:
			return tt.Bool(a < b)
		case token.LEQ:
			return tt.Bool(a <= b)
		case token.GTR:
			return tt.Bool(a > b)
		case token.GEQ:
			return tt.Bool(a >= b)
		}
	case complex128:
	}
	panic(unsupported{fmt.Sprintf("binary %s on %T and %T", op, x, y)})
}

// narrow performs an expensive operation at the smallest width that holds
// both operands and the result.
func (in *Interp) narrow(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return in.tt.Bin(op, a, b)
	}
	w := a.w
	need := uint8(64)
	bl := func(x uint64) int {
		n := 0
		for x != 0 {
			n++
			x >>= 1
		}
		return n
	}
	switch op {
	case OpMul:
		if n := bl(a.hi) + bl(b.hi); n < 64 {
			need = uint8(max(n, 1))
		}
	default:
		need = uint8(max(bl(a.hi), bl(b.hi), 1))
	}
	if need+4 < w {
		return in.tt.ZExt(in.tt.Bin(op, in.tt.Extract(a, need-1, 0), in.tt.Extract(b, need-1, 0)), w)
	}
	return in.tt.Bin(op, a, b)
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	if tp, ok := to.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported{"conversion to type parameter"})
	}
	fu, tu := from.Underlying(), to.Underlying()
	tt := in.tt
	if w, _, ok := scalar(tu); ok {
		switch x := v.(type) {
		case *Term:
			_, fs, _ := scalar(fu)
			switch {
			case x.w == w:
				return x
			case x.w > w:
				return tt.Extract(x, w-1, 0)
			case fs:
				return tt.SExt(x, w)
			default:
				return tt.ZExt(x, w)
			}
		case float64:
			_, ts, _ := scalar(tu)
			if ts {
				return tt.Const(w, uint64(int64(x)))
			}
			if x < 0 {
				return tt.Const(w, uint64(int64(x)))
			}
			return tt.Const(w, uint64(x))
		case *SymFloat:
			if w < 64 {
				return tt.Extract(x.whole, w-1, 0)
			}
			return x.whole
		case UnsafePtr:
			return tt.Const(64, 1<<40)
		}
		panic(unsupported{fmt.Sprintf("conversion of %T to %s", v, to)})
	}
	switch tb := tu.(type) {
	case *types.Basic:
		switch {
		case tb.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				if tb.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Term:
				if !x.isConst() {
					return &SymFloat{whole: in.toInt(x, from)}
				}
				_, fs, _ := scalar(fu)
				f := float64(x.val)
				if fs {
					f = float64(sext(x.val, x.w))
				}
				if tb.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case *SymFloat:
				return x
			}
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case *Str:
				return x
			case Slice:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					b := make([]*Term, len(x))
					for i, e := range x {
						t, ok := e.(*Term)
						if !ok {
							panic(unsupported{"string of non-scalar bytes"})
						}
						b[i] = t
					}
					return mkStr(b)
				}
				// []rune
				var b []*Term
				for _, e := range x {
					b = append(b, in.runeBytes(e.(*Term))...)
				}
				return mkStr(b)
			case *Term:
				return mkStr(in.runeBytes(in.fitRune(x)))
			}
		case tb.Kind() == types.UnsafePointer:
			if u, ok := v.(UnsafePtr); ok {
				return u
			}
			if t, ok := v.(*Term); ok {
				_ = t
				return UnsafePtr{}
			}
			return UnsafePtr{v}
		}
	case *types.Slice:
		switch x := v.(type) {
		case *Str:
			el := tb.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				s := make(Slice, x.Len())
				for i := range s {
					s[i] = x.at(in, i)
				}
				return s
			}
			var s Slice
			s = Slice{}
			for i := 0; i < x.Len(); {
				b := x.at(in, i)
				if in.decide(tt.ULt(b, tt.Const(8, 0x80))) {
					s = append(s, tt.ZExt(b, 32))
					i++
					continue
				}
				r, sz := in.decodeRune(nil, x.slice(i, x.Len()))
				s = append(s, r)
				i += sz
			}
			return s
		case Slice:
			return x
		}
	case *types.Pointer:
		switch x := v.(type) {
		case UnsafePtr:
			if x.v == nil {
				return (*Value)(nil)
			}
			if p, ok := x.v.(*Value); ok && p != nil {
				// *(*string)(unsafe.Pointer(&bytes))
				if b, isB := tb.Elem().Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
					if s, isS := (*p).(Slice); isS {
						bs := make([]*Term, len(s))
						for i := range s {
							bs[i] = s[i].(*Term)
						}
						np := new(Value)
						*np = mkStr(bs)
						return np
					}
				}
				// (*struct)(unsafe.Pointer(&bytes[i])), a view of what the
				// bytes are now
				if st, isS := tb.Elem().Underlying().(*types.Struct); isS {
					if t, isT := (*p).(*Term); isT && t.w == 8 {
						return in.structOfBytes(p, st, tb.Elem())
					}
				}
			}
			return x.v
		case *Value:
			return x
		}
	}
	if _, ok := v.(*Closure); ok {
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion of %T (%s) to %s", v, from, to)})
}

// structOfBytes makes a structure of integers from the bytes that begin at p.
func (in *Interp) structOfBytes(p *Value, st *types.Struct, t types.Type) Value {
	sizes := types.SizesFor("gc", "amd64")
	bytes := unsafe.Slice(p, sizes.Sizeof(t))
	fields := make([]*types.Var, st.NumFields())
	for i := range fields {
		fields[i] = st.Field(i)
	}
	offs := sizes.Offsetsof(fields)
	s := in.zero(t).(Struct)
	for i, f := range fields {
		w, _, ok := scalar(f.Type().Underlying())
		if !ok || w < 8 {
			if sizes.Sizeof(f.Type()) == 0 {
				continue
			}
			panic(unsupported{"view of bytes as " + t.String()})
		}
		v := bytes[offs[i]].(*Term)
		for k := 1; k < int(w)/8; k++ {
			v = in.tt.Concat(bytes[int(offs[i])+k].(*Term), v)
		}
		s[i] = v
	}
	np := new(Value)
	*np = s
	return np
}

func (in *Interp) fitRune(x *Term) *Term {
	if x.w < 32 {
		return in.tt.ZExt(x, 32)
	}
	if x.w > 32 {
		return in.tt.Extract(x, 31, 0)
	}
	return x
}

func (in *Interp) runeBytes(r *Term) []*Term {
	if in.decide(in.tt.ULt(r, in.tt.Const(r.w, 0x80))) {
		return []*Term{in.tt.Extract(r, 7, 0)}
	}
	c := in.concretize(r)
	var out []*Term
	for _, b := range []byte(string(rune(int32(c)))) {
		out = append(out, in.tt.Const(8, uint64(b)))
	}
	return out
}

// ---------------------------------------------------------------- builtins

func (in *Interp) builtin(fr *Frame, b *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	tt := in.tt
	n64 := func(n int) *Term { return tt.Const(64, uint64(n)) }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Str:
			return n64(x.Len())
		case Slice:
			if b.Name() == "cap" {
				return n64(cap(x))
			}
			return n64(len(x))
		case Array:
			return n64(len(x))
		case *Map:
			if x == nil {
				return n64(0)
			}
			in.raceMap(x, false)
			return n64(x.nlive)
		case *Chan:
			if x == nil {
				return n64(0)
			}
			if b.Name() == "cap" {
				return n64(x.cap)
			}
			return n64(len(x.buf))
		case *Value:
			if a, ok := (*x).(Array); ok {
				return n64(len(a))
			}
		}
	case "append":
		in.effect()
		s, ok := args[0].(Slice)
		if !ok {
			panic(unsupported{fmt.Sprintf("append to %T", args[0])})
		}
		var extra []Value
		switch y := args[1].(type) {
		case Slice:
			for _, e := range y {
				extra = append(extra, copyVal(e))
			}
		case *Str:
			for i := 0; i < y.Len(); i++ {
				extra = append(extra, y.at(in, i))
			}
		default:
			panic(unsupported{fmt.Sprintf("append of %T", y)})
		}
		if len(extra) == 0 {
			return s
		}
		if len(s)+len(extra) <= cap(s) {
			full := s[:len(s)+len(extra)]
			for i, e := range extra {
				in.raceCell(&full[len(s)+i], true)
				in.set(&full[len(s)+i], e)
			}
			return full
		}
		// grow as the runtime does for small slices: double
		nc := max(2*cap(s), len(s)+len(extra))
		ns := make(Slice, len(s)+len(extra), nc)
		copy(ns, s)
		for i, e := range extra {
			ns[len(s)+i] = e
		}
		// spare capacity must hold valid zero values
		if nc > len(ns) {
			var z Value
			if call != nil {
				z = in.zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			} else {
				z = extra[0]
			}
			sp := ns[len(ns):nc]
			for i := range sp {
				sp[i] = copyVal(z)
			}
		}
		return ns
	case "copy":
		in.effect()
		dst := args[0].(Slice)
		var n int
		switch y := args[1].(type) {
		case Slice:
			n = min(len(dst), len(y))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(y[i])
			}
			for i := 0; i < n; i++ {
				in.raceCell(&dst[i], true)
				in.assign(&dst[i], tmp[i])
			}
		case *Str:
			n = min(len(dst), y.Len())
			for i := 0; i < n; i++ {
				in.set(&dst[i], y.at(in, i))
			}
		}
		return n64(n)
	case "delete":
		in.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		in.effect()
		switch m := args[0].(type) {
		case *Map:
			if m != nil {
				in.raceMap(m, true)
				for _, e := range m.ents {
					if e.live {
						e := e
						e.live = false
						m.nlive--
						in.undo(func() { e.live = true; m.nlive++ })
					}
				}
			}
		case Slice:
			z := in.zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range m {
				in.assign(&m[i], z)
			}
		}
		return nil
	case "print", "println":
		return nil
	case "close":
		in.effect()
		in.chanClose(fr, args[0].(*Chan))
		return nil
	case "recover":
		in.effect()
		if fr.caller != nil && fr.caller.panicking != nil {
			p := fr.caller.panicking
			fr.caller.panicking = nil
			return p.v
		}
		return Iface{}
	case "panic":
		panic(&targetPanic{v: args[0], what: in.panicString(args[0]), pos: in.where()})
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				_, signed, _ := scalar(call.Args[0].Type())
				var lt *Term
				if signed {
					lt = tt.SLt(y, x)
				} else {
					lt = tt.ULt(y, x)
				}
				if b.Name() == "max" {
					if signed {
						lt = tt.SLt(x, y)
					} else {
						lt = tt.ULt(x, y)
					}
				}
				r = tt.Ite(lt, y, x)
			case float64:
				if b.Name() == "min" {
					r = math.Min(x, a.(float64))
				} else {
					r = math.Max(x, a.(float64))
				}
			case *Str:
				y := a.(*Str)
				lt := in.strLess(y, x)
				if b.Name() == "max" {
					lt = in.strLess(x, y)
				}
				if in.decide(lt) {
					r = y
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "SliceData":
		return UnsafePtr{args[0]}
	case "StringData":
		return UnsafePtr{args[0]}
	case "String":
		n := int(in.concretize(args[1].(*Term)))
		if u, ok := args[0].(UnsafePtr); ok {
			switch s := u.v.(type) {
			case Slice:
				b := make([]*Term, n)
				for i := range b {
					b[i] = s[i].(*Term)
				}
				return mkStr(b)
			case *Str:
				return s.slice(0, n)
			case nil:
				return emptyStr
			}
		}
		if n == 0 {
			return emptyStr
		}
		if p, ok := args[0].(*Value); ok && p != nil {
			// elements of one backing array are adjacent in the host as well
			b := make([]*Term, n)
			for i, v := range unsafe.Slice(p, n) {
				b[i] = v.(*Term)
			}
			return mkStr(b)
		}
	case "Slice":
		n := int(in.concretize(args[1].(*Term)))
		if p, ok := args[0].(*Value); ok && p != nil {
			return Slice(unsafe.Slice(p, n))
		}
		if u, ok := args[0].(UnsafePtr); ok {
			switch s := u.v.(type) {
			case Slice:
				return s[:n]
			case *Str:
				r := make(Slice, n)
				for i := range r {
					r[i] = s.at(in, i)
				}
				return r
			}
		}
	}
	panic(unsupported{fmt.Sprintf("builtin %s on %T", b.Name(), args[0])})
}

// ---------------------------------------------------------------- merging

// mergeRegions finds, for each two-way branch, the acyclic region up to its
// immediate post-dominator.
func mergeRegions(fn *ssa.Function) map[*ssa.BasicBlock]*mergeRegion {
	res := make(map[*ssa.BasicBlock]*mergeRegion)
	n := len(fn.Blocks)
	if n == 0 {
		return res
	}
	// post-dominator sets by simple dataflow; index n is the virtual exit
	pd := make([]map[int]bool, n+1)
	all := make(map[int]bool)
	for i := 0; i <= n; i++ {
		all[i] = true
	}
	for i := 0; i < n; i++ {
		pd[i] = all
	}
	pd[n] = map[int]bool{n: true}
	succs := func(b *ssa.BasicBlock) []int {
		var s []int
		for _, x := range b.Succs {
			s = append(s, x.Index)
		}
		if len(s) == 0 {
			s = append(s, n)
		}
		return s
	}
	if n > 400 {
		return res
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			ss := succs(fn.Blocks[i])
			ns := make(map[int]bool)
			for k := range pd[ss[0]] {
				ok := true
				for _, s := range ss[1:] {
					if !pd[s][k] {
						ok = false
						break
					}
				}
				if ok {
					ns[k] = true
				}
			}
			ns[i] = true
			if len(ns) != len(pd[i]) {
				pd[i] = ns
				changed = true
			}
		}
	}
	for _, b := range fn.Blocks {
		if len(b.Succs) != 2 {
			continue
		}
		// immediate post-dominator: the one post-dominated by all others
		best := -1
		for k := range pd[b.Index] {
			if k == b.Index {
				continue
			}
			if best < 0 || len(pd[k]) > len(pd[best]) {
				best = k
			}
		}
		if best < 0 {
			continue
		}
		r := &mergeRegion{}
		if best < n {
			r.join = fn.Blocks[best]
		}
		// collect region and check it is acyclic
		seen := map[*ssa.BasicBlock]int{}
		ok := true
		var order []*ssa.BasicBlock
		var visit func(x *ssa.BasicBlock)
		visit = func(x *ssa.BasicBlock) {
			if x == r.join || !ok {
				return
			}
			if x == b {
				ok = false
				return
			}
			switch seen[x] {
			case 1:
				ok = false
				return
			case 2:
				return
			}
			seen[x] = 1
			if len(seen) > 24 {
				ok = false
				return
			}
			for _, ins := range x.Instrs {
				if !mergeable(ins) {
					ok = false
					return
				}
			}
			for _, s := range x.Succs {
				visit(s)
			}
			seen[x] = 2
			order = append(order, x)
		}
		for _, s := range b.Succs {
			visit(s)
		}
		if !ok {
			continue
		}
		// region blocks must only be entered from the region or b
		for x := range seen {
			for _, p := range x.Preds {
				if p != b && seen[p] == 0 {
					ok = false
				}
			}
		}
		if r.join == b {
			ok = false
		}
		if !ok {
			continue
		}
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
		r.blocks = order
		r.ok = true
		res[b] = r
	}
	return res
}

func mergeable(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select,
		*ssa.Panic, *ssa.Next, *ssa.Range, *ssa.MakeChan:
		return false
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		return true
	}
	return true
}

type medge struct {
	from  *ssa.BasicBlock
	guard *Term
}

// tryMerge evaluates both sides of a symbolic branch and joins them with ite
// terms when they are free of side effects.
func (in *Interp) tryMerge(fr *Frame, b *ssa.BasicBlock, c *Term) (join *ssa.BasicBlock, ok bool) {
	r := fr.fi.ipdom[b]
	if r == nil || !r.ok {
		return nil, false
	}
	saveSteps, savePos := in.steps, in.curPos
	mark, outer := len(in.specLog), in.guard
	if in.spec == 0 {
		outer = in.tt.True
	}
	defer func() {
		in.guard = outer
		if in.spec == 0 {
			in.specFresh = nil
		}
		if e := recover(); e != nil {
			_, isSpec := e.(specAbort)
			_, isUns := e.(unsupported)
			if isSpec || isUns {
				for i := len(in.specLog) - 1; i >= mark; i-- {
					*in.specLog[i].p = in.specLog[i].old
				}
				in.specLog = in.specLog[:mark]
				in.steps, in.curPos = saveSteps, savePos
				ok = false
				return
			}
			panic(e)
		}
		if !ok {
			for i := len(in.specLog) - 1; i >= mark; i-- {
				*in.specLog[i].p = in.specLog[i].old
			}
		}
		if !ok || in.spec == 0 {
			in.specLog = in.specLog[:mark]
		}
	}()
	in.spec++
	defer func() { in.spec-- }()
	edges := map[*ssa.BasicBlock][]medge{}
	edges[b.Succs[0]] = append(edges[b.Succs[0]], medge{b, c})
	edges[b.Succs[1]] = append(edges[b.Succs[1]], medge{b, in.tt.Not(c)})
	type ret struct {
		guard *Term
		v     Value
	}
	var rets []ret
	evalPhis := func(x *ssa.BasicBlock, es []medge) {
		var vals []Value
		var phis []*ssa.Phi
		for _, ins := range x.Instrs {
			phi, isPhi := ins.(*ssa.Phi)
			if !isPhi {
				break
			}
			var v Value
			for i := len(es) - 1; i >= 0; i-- {
				var ev Value
				for k, p := range x.Preds {
					if p == es[i].from {
						ev = in.getRaw(fr, phi.Edges[k])
						break
					}
				}
				if i == len(es)-1 {
					v = ev
				} else {
					v = in.mergeVal(es[i].guard, ev, v)
				}
			}
			vals = append(vals, v)
			phis = append(phis, phi)
		}
		for i, p := range phis {
			fr.env[fr.fi.idx[p]] = vals[i]
		}
	}
	for _, x := range r.blocks {
		es := edges[x]
		if len(es) == 0 {
			continue
		}
		g := in.tt.False
		for _, e := range es {
			g = in.tt.Or(g, e.guard)
		}
		if g.isFalse() {
			continue
		}
		evalPhis(x, es)
		in.guard = in.tt.And(outer, g)
		in.steps += len(x.Instrs)
		for _, ins := range x.Instrs {
			switch y := ins.(type) {
			case *ssa.Phi:
			case *ssa.If:
				cc := in.get(fr, y.Cond).(*Term)
				if v, known := in.lookupFact(cc); known {
					cc = in.tt.Bool(v)
				}
				a, d := x.Succs[0], x.Succs[1]
				if ga := in.tt.And(g, cc); !ga.isFalse() {
					edges[a] = append(edges[a], medge{x, ga})
				}
				if gd := in.tt.And(g, in.tt.Not(cc)); !gd.isFalse() {
					edges[d] = append(edges[d], medge{x, gd})
				}
			case *ssa.Jump:
				edges[x.Succs[0]] = append(edges[x.Succs[0]], medge{x, g})
			case *ssa.Return:
				rets = append(rets, ret{g, in.returnVal(fr, y)})
			default:
				in.step(fr, ins)
			}
		}
	}
	if r.join == nil {
		if len(rets) == 0 {
			return nil, false
		}
		v := rets[len(rets)-1].v
		for i := len(rets) - 2; i >= 0; i-- {
			v = in.mergeVal(rets[i].guard, rets[i].v, v)
		}
		fr.result = v
		fr.done = true
		fr.block = nil
		in.stats.Merges++
		return nil, true
	}
	if len(rets) > 0 {
		return nil, false
	}
	es := edges[r.join]
	if len(es) == 0 {
		return nil, false
	}
	evalPhis(r.join, es)
	in.stats.Merges++
	return r.join, true
}

func (in *Interp) mergeVal(c *Term, a, b Value) Value {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return in.tt.Ite(c, x, y)
		}
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			break
		}
		if x == y {
			return x
		}
		if x.Len() == y.Len() {
			r := make([]*Term, x.Len())
			for i := range r {
				r[i] = in.tt.Ite(c, x.at(in, i), y.at(in, i))
			}
			return mkStr(r)
		}
	case *Value:
		if y, ok := b.(*Value); ok && x == y {
			return x
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil && y.t == nil {
			return x
		}
		if x.t != nil && y.t != nil && in.sameType(x.t, y.t) {
			return Iface{x.t, in.mergeVal(c, x.v, y.v)}
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x) == len(y) {
			r := make(Struct, len(x))
			for i := range x {
				r[i] = in.mergeVal(c, x[i], y[i])
			}
			return r
		}
	case Array:
		if y, ok := b.(Array); ok && len(x) == len(y) {
			r := make(Array, len(x))
			for i := range x {
				r[i] = in.mergeVal(c, x[i], y[i])
			}
			return r
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range x {
				r[i] = in.mergeVal(c, x[i], y[i])
			}
			return r
		}
	case Slice:
		if y, ok := b.(Slice); ok && len(x) == len(y) && cap(x) == cap(y) {
			if x == nil && y == nil {
				return x
			}
			if x != nil && y != nil && cap(x) > 0 && &x[:1][0] == &y[:1][0] {
				return x
			}
		}
	case *Map:
		if y, ok := b.(*Map); ok && x == y {
			return x
		}
	case *Chan:
		if y, ok := b.(*Chan); ok && x == y {
			return x
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return x
		}
	case float64:
		if y, ok := b.(float64); ok && x == y {
			return x
		}
	case nil:
		if b == nil {
			return nil
		}
	}
	panic(specAbort{})
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
