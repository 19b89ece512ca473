package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G is a simulated goroutine. Each runs in a native goroutine of its own but
// only the one holding the baton (in.cur) executes.
type G struct {
	id     int
	nid    int // number in the native replay, negative if it is not followed there
	wake   chan struct{}
	exited chan struct{}
	ready  func() bool // nil: runnable
	idle   bool        // only runs when nothing else can
	done   bool
	what   string
	vc     vclock
}

type vtimer struct {
	deadSec, deadNsec *Term
	active            bool
	sleeper           bool
	fire              func()
	vc                vclock // of the goroutine that set it
	seq               int
}

type Sched struct {
	gs      []*G
	timers  []*vtimer
	fatal   any
	killing bool
	locks   map[*Value]*lockState
	onces   map[*Value]*onceState
	maps    map[*Value]*Map
	wgs     map[*Value]*int
	conds   map[*Value]*condState
	seq     int
	nids    int
	running bool
	race    raceState
}

type lockState struct {
	w  bool
	r  int
	ww int
}
type onceState struct{ state int }
type condState struct{ waiters []*bool }

type killed struct{}

func newSched() *Sched {
	s := &Sched{
		locks: make(map[*Value]*lockState), onces: make(map[*Value]*onceState),
		maps: make(map[*Value]*Map), wgs: make(map[*Value]*int), conds: make(map[*Value]*condState),
	}
	s.race = raceState{cells: make(map[any]*shadow), objs: make(map[any]*vclock)}
	s.gs = []*G{{id: 0, wake: make(chan struct{}, 1)}}
	return s
}

func (in *Interp) spawn(fr *Frame, fn Value, args []Value) {
	s := in.sched
	if len(s.gs) > 64 {
		panic(unsupported{"too many goroutines"})
	}
	g := &G{id: len(s.gs), wake: make(chan struct{}, 1), exited: make(chan struct{}), nid: -1}
	if in.ours(fr) {
		s.nids++
		g.nid = s.nids
	}
	s.gs = append(s.gs, g)
	g.vc.join(in.cur.vc)
	g.vc.join(in.timerVC)
	g.tick()
	in.cur.tick()
	in.event(fmt.Sprintf("go %d", g.id))
	go func() {
		defer close(g.exited)
		<-g.wake
		if s.killing {
			g.done = true
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killed); ok {
						return
					}
					if tp, ok := r.(*targetPanic); ok {
						func() {
							defer func() {
								if r2 := recover(); r2 != nil && s.fatal == nil {
									s.fatal = r2
								}
							}()
							in.uncaught(tp)
						}()
						return
					}
					if s.fatal == nil {
						s.fatal = r
					}
				}
			}()
			in.stamp("start")
			in.callValue(nil, fn, args)
		}()
		g.done = true
		if s.killing {
			return
		}
		if s.fatal != nil {
			in.cur = s.gs[0]
			s.gs[0].wake <- struct{}{}
			return
		}
		// hand the baton on
		func() {
			defer func() {
				if r := recover(); r != nil {
					s.fatal = r
					in.cur = s.gs[0]
					s.gs[0].wake <- struct{}{}
				}
			}()
			n := in.pickNext(true)
			in.cur = n
			n.wake <- struct{}{}
		}()
	}()
	in.point(fr, "go")
}

// ours tells whether a frame belongs to the repository or the harness. Other
// goroutines run at synchronisation points of that code only.
func (in *Interp) ours(fr *Frame) bool {
	for ; fr != nil; fr = fr.caller {
		p := pkgPath(fr.fn)
		switch {
		case p == "" || p == "sync" || p == "sync/atomic":
			continue
		case p == in.sh.vfPath:
			return false
		}
		return p == repoPath || strings.HasPrefix(p, repoPath+"/") || timedDeps[p] != ""
	}
	return false
}

// timedDeps are dependencies whose own goroutines and timers matter. They are
// treated like the code of the repository; the native run uses a copy under
// the given name.
var timedDeps = map[string]string{
	"github.com/0xERR0R/expiration-cache": "expirationcache",
}

func pkgPath(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	for fn.Pkg == nil {
		if o := fn.Origin(); o != nil && o != fn {
			fn = o
		} else if fn.Parent() != nil {
			fn = fn.Parent()
		} else {
			return ""
		}
	}
	return fn.Pkg.Pkg.Path()
}

// inHarness tells whether a frame is harness code.
func (in *Interp) inHarness(fr *Frame) bool {
	if fr == nil || fr.fn == nil {
		return false
	}
	f := in.sh.prog.Fset.File(fr.fn.Pos())
	return f != nil && strings.HasPrefix(filepath.Base(f.Name()), "zz_verif_")
}

// point is a synchronisation operation: another goroutine may run before it.
func (in *Interp) point(fr *Frame, op string) {
	in.effect()
	if in.ours(fr) {
		in.yield(op)
		in.stamp(op)
	}
}

// passed records that a blocking operation completed.
func (in *Interp) passed(fr *Frame, op string) {
	if in.ours(fr) {
		in.stamp(op)
	}
}

// stamp adds to the order of operations a native replay follows.
func (in *Interp) stamp(op string) {
	if in.initing > 0 || in.sched.nids == 0 || in.cur.nid < 0 || len(in.order) > maxOrder {
		return
	}
	in.order = append(in.order, fmt.Sprintf("%d:%s", in.cur.nid, op))
}

const maxOrder = 20000

// nativeOrder is the order of operations to follow natively, nil when there
// is nothing to follow.
func (in *Interp) nativeOrder() []string {
	if in.sched.nids == 0 || in.opts.freeRun || len(in.order) > maxOrder {
		return nil
	}
	return append([]string(nil), in.order...)
}

// uncaught reports a panic that nothing in the program recovers.
func (in *Interp) uncaught(tp *targetPanic) {
	in.effect()
	if in.opts.panicOK {
		panic(pathAbort{"panic"})
	}
	in.reportPath("panic: " + tp.what + " at " + tp.pos)
	panic(pathAbort{"violated"})
}

func (in *Interp) reportPath(msg string) {
	if len(in.decs) < len(in.prefix) {
		// reached again while replaying a prefix: cannot happen, the path
		// that created the prefix went on past this point
		return
	}
	in.ensureModel()
	in.report(msg, in.model)
}

func (in *Interp) runnable() []*G {
	var r []*G
	for _, g := range in.sched.gs {
		if !g.done && !g.idle && (g.ready == nil || g.ready()) {
			r = append(r, g)
		}
	}
	if len(r) == 0 {
		for _, g := range in.sched.gs {
			if !g.done && g.idle && (g.ready == nil || g.ready()) {
				r = append(r, g)
			}
		}
	}
	return r
}

// pickNext selects the goroutine to run when the current one cannot go on.
func (in *Interp) pickNext(finished bool) *G {
	for {
		r := in.runnable()
		if len(r) == 1 {
			return r[0]
		}
		if len(r) > 1 {
			n := len(r)
			if in.opts.delayBound {
				// round robin, except for a number of delays
				if i := slices.IndexFunc(r, func(g *G) bool { return g.id > in.cur.id }); i > 0 {
					r = append(r[i:len(r):len(r)], r[:i]...)
				}
				n = min(n, in.opts.delays+1)
			}
			k := in.choose(n, "sched")
			in.opts.delays -= k
			in.event(fmt.Sprintf("run %d", r[k].id))
			return r[k]
		}
		if !in.fireIdleTimer() {
			break
		}
	}
	if in.opts.deadlockOK {
		panic(pathAbort{"blocked"})
	}
	in.reportPath("deadlock: every goroutine is blocked")
	panic(pathAbort{"violated"})
}

func (in *Interp) fireIdleTimer() bool {
	var act []*vtimer
	for _, t := range in.sched.timers {
		if t.active && !t.sleeper {
			act = append(act, t)
		}
	}
	if len(act) == 0 {
		return false
	}
	// the earliest one; equal or symbolic deadlines are ordered by a choice
	best := act[0]
	for _, t := range act[1:] {
		if in.decide(in.timeLess(t.deadSec, t.deadNsec, best.deadSec, best.deadNsec)) {
			best = t
		}
	}
	in.event("timer")
	if in.sched.nids > 0 && len(in.order) <= maxOrder {
		in.order = append(in.order, "timer")
	}
	// advance the clock to the deadline
	later := in.timeLess(in.clockSec, in.clockNsec, best.deadSec, best.deadNsec)
	in.clockSec = in.tt.Ite(later, best.deadSec, in.clockSec)
	in.clockNsec = in.tt.Ite(later, best.deadNsec, in.clockNsec)
	best.active = false
	in.fireTimer(best)
	return true
}

func (in *Interp) timeLess(s1, n1, s2, n2 *Term) *Term {
	tt := in.tt
	return tt.Or(tt.SLt(s1, s2), tt.And(tt.Eq(s1, s2), tt.SLt(n1, n2)))
}

func (in *Interp) switchTo(g *G) {
	me := in.cur
	if g == me {
		return
	}
	pos := in.curPos
	in.cur = g
	g.wake <- struct{}{}
	<-me.wake
	in.curPos = pos
	s := in.sched
	if s.killing {
		panic(killed{})
	}
	if s.fatal != nil {
		f := s.fatal
		panic(f)
	}
}

// yield is a point where another goroutine may run.
func (in *Interp) yield(what string) {
	s := in.sched
	if s == nil || in.initing > 0 {
		return
	}
	in.effect()
	if len(s.gs) == 1 {
		return
	}
	if in.opts.preempts >= in.opts.maxPreempt || in.opts.noYield > 0 {
		return
	}
	var c []*G
	c = append(c, in.cur)
	for _, g := range s.gs {
		if g != in.cur && !g.done && !g.idle && (g.ready == nil || g.ready()) {
			c = append(c, g)
		}
	}
	if len(c) == 1 {
		return
	}
	k := in.choose(len(c), "sched")
	if k == 0 {
		return
	}
	in.opts.preempts++
	in.event(fmt.Sprintf("preempt %d at %s -> %d", in.cur.id, what, c[k].id))
	in.switchTo(c[k])
}

// block waits until ready holds.
func (in *Interp) block(what string, ready func() bool) {
	in.effect()
	if ready() {
		return
	}
	if in.initing > 0 {
		panic(unsupported{"blocking during initialisation"})
	}
	me := in.cur
	me.ready = ready
	me.what = what
	for {
		g := in.pickNext(false)
		if g == me {
			break
		}
		in.switchTo(g)
		if ready() {
			break
		}
	}
	me.ready = nil
}

func (in *Interp) event(s string) {
	if len(in.events) < 400 {
		in.events = append(in.events, s)
	}
}

// killAll ends every other goroutine of the path.
func (in *Interp) killAll() {
	s := in.sched
	s.killing = true
	for _, g := range s.gs[1:] {
		select {
		case <-g.exited:
			continue
		default:
		}
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exited
	}
}

// ---------------------------------------------------------------- channels

type Chan struct {
	cap    int
	elem   types.Type
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type selState struct {
	done  bool
	which int
	v     Value
	ok    bool
	panic bool
}

type waiter struct {
	sel *selState
	idx int
	v   Value // value to send
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

// trySend returns true when the send completed.
func (in *Interp) trySend(c *Chan, v Value) bool {
	in.timerRelease(c)
	if c.closed {
		panic(&targetPanic{v: Iface{in.rtErrType(), concStr("send on closed channel")}, what: "send on closed channel", pos: in.where()})
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.sel.done = true
		w.sel.which = w.idx
		w.sel.v = copyVal(v)
		w.sel.ok = true
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(append([]Value(nil), c.buf...), copyVal(v))
		return true
	}
	return false
}

func (in *Interp) tryRecv(c *Chan) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.sel.done = true
			w.sel.which = w.idx
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.sel.done = true
		w.sel.which = w.idx
		return w.v, true, true
	}
	if c.closed {
		return in.zero(c.elem), false, true
	}
	return nil, false, false
}

func (in *Interp) chanSend(fr *Frame, c *Chan, v Value) {
	in.point(fr, "send")
	if c == nil {
		in.block("send on nil channel", func() bool { return false })
	}
	in.release(c)
	defer in.acquire(c)
	if in.trySend(c, v) {
		in.passed(fr, "send+")
		return
	}
	st := &selState{}
	c.sendq = append(c.sendq, &waiter{sel: st, v: copyVal(v)})
	in.block("send", func() bool { return st.done })
	if st.panic {
		panic(&targetPanic{v: Iface{in.rtErrType(), concStr("send on closed channel")}, what: "send on closed channel", pos: in.where()})
	}
	in.passed(fr, "send+")
}

func (in *Interp) chanRecv(fr *Frame, c *Chan) (Value, bool) {
	in.point(fr, "recv")
	if c == nil {
		in.block("receive on nil channel", func() bool { return false })
	}
	in.release(c)
	defer in.acquire(c)
	if v, ok, done := in.tryRecv(c); done {
		in.passed(fr, "recv+")
		return v, ok
	}
	st := &selState{}
	c.recvq = append(c.recvq, &waiter{sel: st})
	in.block("receive", func() bool { return st.done })
	in.passed(fr, "recv+")
	if !st.ok {
		return in.zero(c.elem), false
	}
	return st.v, true
}

func (in *Interp) chanClose(fr *Frame, c *Chan) {
	in.point(fr, "close")
	if c == nil {
		in.rtPanic("close of nil channel")
	}
	if c.closed {
		in.rtPanic("close of closed channel")
	}
	in.release(c)
	c.closed = true
	in.undo(func() { c.closed = false })
	for w := popWaiter(&c.recvq); w != nil; w = popWaiter(&c.recvq) {
		w.sel.done = true
		w.sel.which = w.idx
		w.sel.ok = false
		w.sel.v = nil
	}
	for w := popWaiter(&c.sendq); w != nil; w = popWaiter(&c.sendq) {
		w.sel.done = true
		w.sel.which = w.idx
		w.sel.panic = true
	}
}

func (in *Interp) doSelect(fr *Frame, x *ssa.Select) Value {
	in.point(fr, "select")
	type sc struct {
		c    *Chan
		send bool
		v    Value
	}
	cases := make([]sc, len(x.States))
	for i, st := range x.States {
		cases[i].c = in.get(fr, st.Chan).(*Chan)
		if cases[i].c != nil {
			in.release(cases[i].c)
		}
		if st.Dir == types.SendOnly {
			cases[i].send = true
			cases[i].v = in.get(fr, st.Send)
		}
	}
	var ready []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send {
			if c.c.closed || hasWaiter(c.c.recvq) || len(c.c.buf) < c.c.cap {
				ready = append(ready, i)
			}
		} else if len(c.c.buf) > 0 || hasWaiter(c.c.sendq) || c.c.closed {
			ready = append(ready, i)
		}
	}
	which := -1
	var rv Value
	rok := false
	if len(ready) > 0 {
		which = ready[in.choose(len(ready), "select")]
		if cases[which].send {
			in.trySend(cases[which].c, cases[which].v)
		} else {
			rv, rok, _ = in.tryRecv(cases[which].c)
		}
	} else if x.Blocking {
		st := &selState{}
		for i, c := range cases {
			if c.c == nil {
				continue
			}
			w := &waiter{sel: st, idx: i, v: c.v}
			if c.send {
				c.c.sendq = append(c.c.sendq, w)
			} else {
				c.c.recvq = append(c.c.recvq, w)
			}
		}
		in.block("select", func() bool { return st.done })
		if st.panic {
			panic(&targetPanic{v: Iface{in.rtErrType(), concStr("send on closed channel")}, what: "send on closed channel", pos: in.where()})
		}
		which, rv, rok = st.which, st.v, st.ok
	}
	if which >= 0 {
		in.acquire(cases[which].c)
	}
	in.passed(fr, fmt.Sprintf("select+%d", which))
	res := Tuple{in.tt.Const(64, uint64(int64(which))), in.tt.Bool(rok)}
	for i, st := range x.States {
		if st.Dir == types.RecvOnly {
			if i == which && rv != nil {
				res = append(res, rv)
			} else {
				res = append(res, in.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}

// ---------------------------------------------------------------- locks

func (in *Interp) lockOf(p Value) *lockState {
	pv, ok := p.(*Value)
	if !ok {
		panic(unsupported{fmt.Sprintf("lock of %T", p)})
	}
	if pv == nil {
		in.nilDeref()
	}
	l := in.sched.locks[pv]
	if l == nil {
		l = &lockState{}
		in.sched.locks[pv] = l
	}
	return l
}

func (in *Interp) mutexLock(fr *Frame, p Value) {
	in.point(fr, "lock")
	l := in.lockOf(p)
	l.ww++
	in.block("lock", func() bool { return !l.w && l.r == 0 })
	l.ww--
	l.w = true
	in.acquire(l)
	in.acquire(readers{l})
	in.passed(fr, "lock+")
}

func (in *Interp) mutexUnlock(fr *Frame, p Value) {
	l := in.lockOf(p)
	if !l.w {
		panic(&targetPanic{v: Iface{in.rtErrType(), concStr("unlock of unlocked mutex")}, what: "fatal: unlock of unlocked mutex", pos: in.where()})
	}
	in.release(l)
	l.w = false
	in.point(fr, "unlock")
}

func (in *Interp) rLock(fr *Frame, p Value) {
	in.point(fr, "rlock")
	l := in.lockOf(p)
	in.block("rlock", func() bool { return !l.w && l.ww == 0 })
	l.r++
	in.acquire(l)
	in.passed(fr, "rlock+")
}

func (in *Interp) rUnlock(fr *Frame, p Value) {
	l := in.lockOf(p)
	if l.r == 0 {
		panic(&targetPanic{v: Iface{in.rtErrType(), concStr("RUnlock of unlocked RWMutex")}, what: "fatal: RUnlock of unlocked RWMutex", pos: in.where()})
	}
	in.release(readers{l})
	l.r--
	in.point(fr, "runlock")
}

var _ = token.NoPos
