package main

import (
	"bytes"
	"fmt"
	"go/types"
	"net"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fr *Frame, a []Value) Value

var intrinsics = map[string]intrinsic{}
var pureIntrinsics = map[string]bool{}

func reg(name string, f intrinsic)  { intrinsics[name] = f }
func regP(name string, f intrinsic) { intrinsics[name] = f; pureIntrinsics[name] = true }

const vfp = "github.com/folbricht/routedns/zzvf."

func cstr(in *Interp, v Value) string {
	s := v.(*Str)
	if s.b != nil {
		panic(unsupported{"symbolic label"})
	}
	return s.s
}

func (in *Interp) cint(v Value) int { return int(int64(in.concretize(v.(*Term)))) }

func (in *Interp) i64(n int) *Term { return in.tt.Const(64, uint64(n)) }

func noop(in *Interp, fr *Frame, a []Value) Value { return nil }

// variadic returns the elements of a ...any argument.
func variadic(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

func init() {
	// ------------------------------------------------ harness API
	for _, n := range []struct {
		name string
		w    uint8
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"Bool", 0}} {
		n := n
		reg(vfp+n.name, func(in *Interp, fr *Frame, a []Value) Value {
			return in.freshVar(cstr(in, a[0]), n.w, 0, mask(n.w))
		})
	}
	reg(vfp+"Int", func(in *Interp, fr *Frame, a []Value) Value {
		lo, hi := in.cint(a[1]), in.cint(a[2])
		if lo < 0 {
			t := in.freshVar(cstr(in, a[0]), 64, 0, uint64(hi-lo))
			return in.tt.Bin(OpAdd, t, in.tt.Const(64, uint64(int64(lo))))
		}
		return in.freshVar(cstr(in, a[0]), 64, uint64(lo), uint64(hi))
	})
	reg(vfp+"Choose", func(in *Interp, fr *Frame, a []Value) Value {
		return in.i64(in.choose(in.cint(a[1]), cstr(in, a[0])))
	})
	reg(vfp+"Bytes", func(in *Interp, fr *Frame, a []Value) Value {
		n := in.cint(a[1])
		s := make(Slice, n)
		for i := range s {
			s[i] = in.freshVar(fmt.Sprintf("%s[%d]", cstr(in, a[0]), i), 8, 0, 255)
		}
		return s
	})
	reg(vfp+"Str", func(in *Interp, fr *Frame, a []Value) Value {
		n := in.cint(a[1])
		b := make([]*Term, n)
		for i := range b {
			b[i] = in.freshVar(fmt.Sprintf("%s[%d]", cstr(in, a[0]), i), 8, 0, 255)
		}
		return mkStr(b)
	})
	// a string of n letters of the given alphabet, as one merged term per byte
	reg(vfp+"StrOf", func(in *Interp, fr *Frame, a []Value) Value {
		n := in.cint(a[1])
		alpha := cstr(in, a[2])
		b := make([]*Term, n)
		for i := range b {
			k := in.freshVar(fmt.Sprintf("%s[%d]", cstr(in, a[0]), i), 8, 0, uint64(len(alpha)-1))
			v := in.tt.Const(8, uint64(alpha[len(alpha)-1]))
			for j := len(alpha) - 2; j >= 0; j-- {
				v = in.tt.Ite(in.tt.Eq(k, in.tt.Const(8, uint64(j))), in.tt.Const(8, uint64(alpha[j])), v)
			}
			b[i] = v
		}
		return mkStr(b)
	})
	reg(vfp+"Assume", func(in *Interp, fr *Frame, a []Value) Value { in.assume(a[0].(*Term)); return nil })
	reg(vfp+"Assert", func(in *Interp, fr *Frame, a []Value) Value {
		in.assert(a[0].(*Term), cstr(in, a[1]))
		return nil
	})
	reg(vfp+"AssertKnown", func(in *Interp, fr *Frame, a []Value) Value {
		c, isKnown, key := a[0].(*Term), a[2].(*Term), cstr(in, a[3])
		if !in.known[key] {
			in.assert(c, cstr(in, a[1]))
			return nil
		}
		in.assert(in.tt.Or(c, isKnown), cstr(in, a[1]))
		if !in.knownHit[key] && len(in.decs) >= len(in.prefix) {
			hit := in.tt.And(in.tt.Not(c), isKnown)
			if r, _ := in.query(hit); r == Sat {
				in.knownHit[key] = true
			}
		}
		return nil
	})
	regP(vfp+"IsKnown", func(in *Interp, fr *Frame, a []Value) Value { return in.tt.Bool(in.known[cstr(in, a[0])]) })
	regP(vfp+"Tier", func(in *Interp, fr *Frame, a []Value) Value { return in.i64(in.tier) })
	reg(vfp+"Cover", func(in *Interp, fr *Frame, a []Value) Value { in.covers[cstr(in, a[0])] = true; return nil })
	reg(vfp+"Observe", func(in *Interp, fr *Frame, a []Value) Value {
		in.observed = append(in.observed, obs{cstr(in, a[0]), a[1].(Iface).v})
		return nil
	})
	reg(vfp+"Symbolic", func(in *Interp, fr *Frame, a []Value) Value { return in.tt.True })
	reg(vfp+"Concrete", func(in *Interp, fr *Frame, a []Value) Value {
		return in.tt.Const(64, in.concretize(a[0].(*Term)))
	})
	reg(vfp+"ConcreteStr", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(*Str)
		b := make([]*Term, s.Len())
		for i := range b {
			b[i] = in.tt.Const(8, in.concretize(s.at(in, i)))
		}
		return mkStr(b)
	})
	// If forks the path on a condition instead of merging.
	reg(vfp+"Fork", func(in *Interp, fr *Frame, a []Value) Value {
		return in.tt.Bool(in.decide(a[0].(*Term)))
	})
	reg(vfp+"MapOrder", func(in *Interp, fr *Frame, a []Value) Value { in.opts.mapOrder = in.decide(a[0].(*Term)); return nil })
	reg(vfp+"Delays", func(in *Interp, fr *Frame, a []Value) Value {
		in.opts.delayBound, in.opts.delays = true, in.cint(a[0])
		return nil
	})
	reg(vfp+"Preempt", func(in *Interp, fr *Frame, a []Value) Value { in.opts.maxPreempt = in.cint(a[0]); return nil })
	stub := func(pure bool) intrinsic {
		return func(in *Interp, fr *Frame, a []Value) Value {
			name := cstr(in, a[0])
			if in.opts.stubs == nil {
				in.opts.stubs = make(map[string]Value)
			}
			in.opts.stubs[name] = a[1].(Iface).v
			if !pure {
				in.opts.freeRun = true
			}
			in.sh.funcsMu.Lock()
			in.sh.stubbed[name] = true
			in.sh.funcsMu.Unlock()
			return nil
		}
	}
	reg(vfp+"Stub", stub(false))
	reg(vfp+"Model", stub(true))
	reg(vfp+"Env", stub(true))
	reg(vfp+"DeadlockOK", func(in *Interp, fr *Frame, a []Value) Value { in.opts.deadlockOK = true; return nil })
	reg(vfp+"Advance", func(in *Interp, fr *Frame, a []Value) Value {
		in.effect()
		in.clockSec = in.tt.Bin(OpAdd, in.clockSec, a[0].(*Term))
		return nil
	})
	reg(vfp+"AdvanceNano", func(in *Interp, fr *Frame, a []Value) Value {
		in.effect()
		n := in.tt.Bin(OpAdd, in.clockNsec, a[0].(*Term)) // < 1e9 + 1e9
		over := in.tt.ULe(in.tt.Const(64, 1000000000), n)
		in.clockNsec = in.tt.Ite(over, in.tt.Bin(OpSub, n, in.tt.Const(64, 1000000000)), n)
		in.clockSec = in.tt.Bin(OpAdd, in.clockSec, in.tt.BoolToBV(over, 64))
		return nil
	})
	reg(vfp+"SetClock", func(in *Interp, fr *Frame, a []Value) Value {
		in.effect()
		in.clockSec = a[0].(*Term)
		in.clockNsec = a[1].(*Term)
		return nil
	})
	reg(vfp+"FireTimers", func(in *Interp, fr *Frame, a []Value) Value {
		in.effect()
		ts := in.sched.timers
		for _, t := range ts {
			if t.active {
				t.active = false
				in.fireTimer(t)
			}
		}
		return nil
	})
	reg(vfp+"RandN", func(in *Interp, fr *Frame, a []Value) Value {
		n := in.randN
		in.randN = nil
		if n == nil {
			return in.tt.Const(64, 0)
		}
		return n
	})
	reg(vfp+"FireDue", func(in *Interp, fr *Frame, a []Value) Value {
		in.effect()
		ts := in.sched.timers
		for _, t := range ts {
			if t.active && !in.decide(in.timeLess(in.clockSec, in.clockNsec, t.deadSec, t.deadNsec)) {
				t.active = false
				in.fireTimer(t)
			}
		}
		return nil
	})
	reg(vfp+"Go", func(in *Interp, fr *Frame, a []Value) Value { in.spawn(fr, a[0], nil); return nil })
	// Settle runs the other goroutines until all of them are blocked or done.
	reg(vfp+"Settle", func(in *Interp, fr *Frame, a []Value) Value {
		me := in.cur
		in.block("settle", func() bool {
			for _, g := range in.sched.gs {
				if g != me && !g.done && (g.ready == nil || g.ready()) {
					return false
				}
			}
			return true
		})
		in.passed(fr, "settle")
		return nil
	})
	reg(vfp+"Yield", func(in *Interp, fr *Frame, a []Value) Value { in.point(fr, "yield"); return nil })
	reg(vfp+"Note", func(in *Interp, fr *Frame, a []Value) Value {
		in.event(describe(a[0]))
		return nil
	})
	reg(vfp+"Debug", func(in *Interp, fr *Frame, a []Value) Value {
		for _, x := range variadic(a[0]) {
			fmt.Fprint(debugOut, describe(x), " ")
		}
		fmt.Fprintln(debugOut)
		return nil
	})
	// Same tells whether two pointers/slices share memory.
	regP(vfp+"SameMem", func(in *Interp, fr *Frame, a []Value) Value {
		x, y := a[0].(Iface).v, a[1].(Iface).v
		switch p := x.(type) {
		case *Value:
			q, ok := y.(*Value)
			return in.tt.Bool(ok && p == q && p != nil)
		case Slice:
			q, ok := y.(Slice)
			return in.tt.Bool(ok && cap(p) > 0 && cap(q) > 0 && &p[:cap(p)][cap(p)-1] == &q[:cap(q)][cap(q)-1])
		}
		return in.tt.False
	})

	regP(vfp+"Equal", func(in *Interp, fr *Frame, a []Value) Value { return in.deepEq(a[0], a[1], 0) })

	// ------------------------------------------------ sync
	reg("(*sync.Mutex).Lock", func(in *Interp, fr *Frame, a []Value) Value { in.mutexLock(fr, a[0]); return nil })
	reg("(*sync.Mutex).Unlock", func(in *Interp, fr *Frame, a []Value) Value { in.mutexUnlock(fr, a[0]); return nil })
	reg("(*sync.Mutex).TryLock", func(in *Interp, fr *Frame, a []Value) Value {
		in.point(fr, "trylock")
		l := in.lockOf(a[0])
		if l.w || l.r > 0 {
			return in.tt.False
		}
		l.w = true
		return in.tt.True
	})
	reg("(*sync.RWMutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*sync.RWMutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.RWMutex).TryLock", intrinsics["(*sync.Mutex).TryLock"])
	reg("(*sync.RWMutex).RLock", func(in *Interp, fr *Frame, a []Value) Value { in.rLock(fr, a[0]); return nil })
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fr *Frame, a []Value) Value { in.rUnlock(fr, a[0]); return nil })
	reg("(*internal/sync.Mutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*internal/sync.Mutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.Once).Do", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			in.nilDeref()
		}
		in.point(fr, "once")
		o := in.sched.onces[p]
		if o == nil {
			// an Once used during package initialisation keeps its state in
			// the cell itself
			o = &onceState{}
			if (*p).(Struct)[1] == onceDone {
				o.state = 2
			}
			in.sched.onces[p] = o
		}
		switch o.state {
		case 2:
			in.passed(fr, "once+")
			return nil
		case 1:
			in.block("once", func() bool { return o.state == 2 })
			in.passed(fr, "once+")
			return nil
		}
		o.state = 1
		finish := func() {
			o.state = 2
			if in.initing > 0 {
				(*p).(Struct)[1] = onceDone
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					finish()
					panic(r)
				}
			}()
			in.callValue(fr, a[1], nil)
		}()
		finish()
		in.passed(fr, "once+")
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fr *Frame, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		nf, _ := s[len(s)-1].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return in.callValue(fr, nf, nil)
	})
	reg("(*sync.Pool).Put", noop)
	smap := func(in *Interp, p Value) *Map {
		pv := p.(*Value)
		m := in.sched.maps[pv]
		if m == nil {
			m = newMap()
			in.sched.maps[pv] = m
		}
		return m
	}
	reg("(*sync.Map).Load", func(in *Interp, fr *Frame, a []Value) Value {
		in.point(fr, "syncmap")
		if e := in.mapFind(smap(in, a[0]), a[1]); e != nil {
			return Tuple{e.v, in.tt.True}
		}
		return Tuple{Iface{}, in.tt.False}
	})
	reg("(*sync.Map).Store", func(in *Interp, fr *Frame, a []Value) Value {
		in.point(fr, "syncmap")
		in.mapSet(smap(in, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(in *Interp, fr *Frame, a []Value) Value {
		in.point(fr, "syncmap")
		m := smap(in, a[0])
		if e := in.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, in.tt.True}
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{a[2], in.tt.False}
	})
	reg("(*sync.Map).LoadAndDelete", func(in *Interp, fr *Frame, a []Value) Value {
		in.point(fr, "syncmap")
		m := smap(in, a[0])
		if e := in.mapFind(m, a[1]); e != nil {
			v := e.v
			in.mapDelete(m, a[1])
			return Tuple{v, in.tt.True}
		}
		return Tuple{Iface{}, in.tt.False}
	})
	reg("(*sync.Map).Delete", func(in *Interp, fr *Frame, a []Value) Value {
		in.point(fr, "syncmap")
		in.mapDelete(smap(in, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(in *Interp, fr *Frame, a []Value) Value {
		in.point(fr, "syncmap")
		for _, e := range append([]*mapEntry(nil), smap(in, a[0]).ents...) {
			if e.live {
				if !in.decide(in.callValue(fr, a[1], []Value{e.k, e.v}).(*Term)) {
					break
				}
			}
		}
		return nil
	})
	wg := func(in *Interp, p Value) *int {
		pv := p.(*Value)
		if in.sched.wgs[pv] == nil {
			in.sched.wgs[pv] = new(int)
		}
		return in.sched.wgs[pv]
	}
	wgAdd := func(in *Interp, p Value, n int) {
		c := wg(in, p)
		in.release(p)
		*c += n
		if *c < 0 {
			in.rtPanic("sync: negative WaitGroup counter")
		}
	}
	reg("(*sync.WaitGroup).Add", func(in *Interp, fr *Frame, a []Value) Value { wgAdd(in, a[0], in.cint(a[1])); return nil })
	reg("(*sync.WaitGroup).Done", func(in *Interp, fr *Frame, a []Value) Value {
		wgAdd(in, a[0], -1)
		in.point(fr, "wgdone")
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(in *Interp, fr *Frame, a []Value) Value {
		in.point(fr, "wait")
		c := wg(in, a[0])
		in.block("wait", func() bool { return *c == 0 })
		in.passed(fr, "wait+")
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(in *Interp, fr *Frame, a []Value) Value {
		wgAdd(in, a[0], 1)
		p, f := a[0], a[1]
		in.spawn(fr, &Closure{nat: func(in *Interp, fr *Frame, _ []Value) Value {
			in.callValue(fr, f, nil)
			wgAdd(in, p, -1)
			return nil
		}}, nil)
		return nil
	})
	cond := func(in *Interp, p Value) *condState {
		pv := p.(*Value)
		if in.sched.conds[pv] == nil {
			in.sched.conds[pv] = &condState{}
		}
		return in.sched.conds[pv]
	}
	reg("(*sync.Cond).Wait", func(in *Interp, fr *Frame, a []Value) Value {
		c := cond(in, a[0])
		s := (*a[0].(*Value)).(Struct)
		l := s[1].(Iface)
		flag := new(bool)
		c.waiters = append(c.waiters, flag)
		in.callFn(fr, in.methodByName(l.t, "Unlock"), []Value{l.v}, nil)
		in.block("cond", func() bool { return *flag })
		in.callFn(fr, in.methodByName(l.t, "Lock"), []Value{l.v}, nil)
		return nil
	})
	reg("(*sync.Cond).Signal", func(in *Interp, fr *Frame, a []Value) Value {
		c := cond(in, a[0])
		if len(c.waiters) > 0 {
			*c.waiters[0] = true
			c.waiters = c.waiters[1:]
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(in *Interp, fr *Frame, a []Value) Value {
		c := cond(in, a[0])
		for _, w := range c.waiters {
			*w = true
		}
		c.waiters = nil
		return nil
	})

	// ------------------------------------------------ sync/atomic
	for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			reg(pre+"Load"+t, func(in *Interp, fr *Frame, a []Value) Value {
				in.apoint(fr, a)
				return in.load(a[0])
			})
			reg(pre+"Store"+t, func(in *Interp, fr *Frame, a []Value) Value {
				in.apoint(fr, a)
				in.store(a[0], a[1])
				return nil
			})
			reg(pre+"Swap"+t, func(in *Interp, fr *Frame, a []Value) Value {
				in.apoint(fr, a)
				old := in.load(a[0])
				in.store(a[0], a[1])
				return old
			})
			reg(pre+"CompareAndSwap"+t, func(in *Interp, fr *Frame, a []Value) Value {
				in.apoint(fr, a)
				if in.decide(in.eq(in.load(a[0]), a[1])) {
					in.store(a[0], a[2])
					return in.tt.True
				}
				return in.tt.False
			})
			reg(pre+"Add"+t, func(in *Interp, fr *Frame, a []Value) Value {
				in.apoint(fr, a)
				v := in.tt.Bin(OpAdd, in.load(a[0]).(*Term), a[1].(*Term))
				in.store(a[0], v)
				return v
			})
			reg(pre+"And"+t, func(in *Interp, fr *Frame, a []Value) Value {
				old := in.load(a[0])
				in.store(a[0], in.tt.Bin(OpBAnd, old.(*Term), a[1].(*Term)))
				return old
			})
			reg(pre+"Or"+t, func(in *Interp, fr *Frame, a []Value) Value {
				old := in.load(a[0])
				in.store(a[0], in.tt.Bin(OpBOr, old.(*Term), a[1].(*Term)))
				return old
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, fr *Frame, a []Value) Value {
		in.apoint(fr, a)
		return (*a[0].(*Value)).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(in *Interp, fr *Frame, a []Value) Value {
		in.apoint(fr, a)
		in.set(&(*a[0].(*Value)).(Struct)[0], a[1])
		return nil
	})

	// ------------------------------------------------ time
	reg("time.Now", func(in *Interp, fr *Frame, a []Value) Value {
		if !in.inHarness(fr) {
			in.point(fr, "now")
		}
		if in.opts.tick != nil {
			in.callValue(fr, in.opts.tick, nil)
		}
		return in.nowTime()
	})
	reg(vfp+"OnNow", func(in *Interp, fr *Frame, a []Value) Value {
		in.opts.tick = nil
		if c := a[0].(*Closure); c != nil {
			in.opts.tick = c
		}
		return nil
	})
	reg("time.runtimeNano", func(in *Interp, fr *Frame, a []Value) Value { return in.tt.Const(64, 1) })
	reg("time.runtimeNow", func(in *Interp, fr *Frame, a []Value) Value {
		return Tuple{in.clockSec, in.tt.Extract(in.clockNsec, 31, 0), in.tt.Const(64, 1)}
	})
	reg("time.now", intrinsics["time.runtimeNow"])
	reg("runtime.Caller", func(in *Interp, fr *Frame, a []Value) Value {
		return Tuple{in.tt.Const(64, 0), concStr(""), in.tt.Const(64, 0), in.tt.False}
	})
	reg("time.initLocal", noop)
	regP("(*time.Location).get", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			return in.globalAddr(in.sh.prog.ImportedPackage("time").Var("utcLoc"))
		}
		return p
	})
	reg("time.Sleep", func(in *Interp, fr *Frame, a []Value) Value {
		fired := false
		t := in.addTimer(a[0].(*Term), func() { fired = true })
		t.sleeper = true
		if !in.inHarness(fr) {
			in.passed(fr, "sleep")
		}
		in.block("sleep", func() bool { return fired })
		if !in.inHarness(fr) {
			in.passed(fr, "sleep+")
		}
		return nil
	})
	mkTimer := func(in *Interp, d *Term, typ string, fire func(cell *Value), withChan bool) *Value {
		tt := in.sh.prog.ImportedPackage("time").Type(typ).Type()
		cell := new(Value)
		st := in.zero(tt).(Struct)
		if withChan {
			st[0] = &Chan{cap: 1, elem: in.sh.prog.ImportedPackage("time").Type("Time").Type()}
		}
		*cell = st
		t := in.addTimer(d, func() { fire(cell) })
		in.env.timers[cell] = t
		return cell
	}
	sendNow := func(in *Interp) func(cell *Value) {
		return func(cell *Value) {
			c := (*cell).(Struct)[0].(*Chan)
			if len(c.buf) == 0 {
				in.trySend(c, in.nowTime())
			}
		}
	}
	reg("time.NewTimer", func(in *Interp, fr *Frame, a []Value) Value {
		return mkTimer(in, a[0].(*Term), "Timer", sendNow(in), true)
	})
	reg("time.After", func(in *Interp, fr *Frame, a []Value) Value {
		c := mkTimer(in, a[0].(*Term), "Timer", sendNow(in), true)
		return (*c).(Struct)[0]
	})
	reg("time.NewTicker", func(in *Interp, fr *Frame, a []Value) Value {
		c := mkTimer(in, a[0].(*Term), "Ticker", sendNow(in), true)
		in.env.timers[c].sleeper = true
		return c
	})
	reg("(*time.Ticker).Stop", noop)
	reg("time.AfterFunc", func(in *Interp, fr *Frame, a []Value) Value {
		f := a[1]
		return mkTimer(in, a[0].(*Term), "Timer", func(*Value) { in.spawnQuiet(f) }, false)
	})
	reg("(*time.Timer).Stop", func(in *Interp, fr *Frame, a []Value) Value {
		t := in.env.timers[a[0].(*Value)]
		if t == nil {
			in.rtPanic("time: Stop called on uninitialized Timer")
		}
		was := t.active
		t.active = false
		// an unreceived tick is discarded (Go 1.23 and later)
		if c, ok := (*a[0].(*Value)).(Struct)[0].(*Chan); ok && c != nil && len(c.buf) > 0 {
			c.buf = nil
			was = true
		}
		return in.tt.Bool(was)
	})
	reg("(*time.Timer).Reset", func(in *Interp, fr *Frame, a []Value) Value {
		t := in.env.timers[a[0].(*Value)]
		if t == nil {
			in.rtPanic("time: Reset called on uninitialized Timer")
		}
		was := t.active
		if c, ok := (*a[0].(*Value)).(Struct)[0].(*Chan); ok && c != nil && len(c.buf) > 0 {
			c.buf = nil
			was = true
		}
		t.active = true
		t.vc.join(in.cur.vc)
		in.cur.tick()
		t.deadSec, t.deadNsec = in.deadline(a[1].(*Term))
		return in.tt.Bool(was)
	})
	regP("(time.Duration).Seconds", func(in *Interp, fr *Frame, a []Value) Value {
		d := a[0].(*Term)
		if d.isConst() {
			n := int64(d.val)
			return float64(n/1e9) + float64(n%1e9)/1e9
		}
		return &SymFloat{whole: in.divNano(d)}
	})
	regP("(time.Time).Sub", func(in *Interp, fr *Frame, a []Value) Value {
		return in.timeSub(a[0].(Struct), a[1].(Struct))
	})
	reg("time.Since", func(in *Interp, fr *Frame, a []Value) Value {
		if !in.inHarness(fr) {
			in.point(fr, "now")
		}
		return in.timeSub(in.nowTime(), a[0].(Struct))
	})
	reg("time.Until", func(in *Interp, fr *Frame, a []Value) Value {
		if !in.inHarness(fr) {
			in.point(fr, "now")
		}
		return in.timeSub(a[0].(Struct), in.nowTime())
	})
	regP("(time.Time).Before", func(in *Interp, fr *Frame, a []Value) Value {
		s1, n1 := in.timeParts(a[0].(Struct))
		s2, n2 := in.timeParts(a[1].(Struct))
		return in.timeLess(s1, n1, s2, n2)
	})
	regP("(time.Time).After", func(in *Interp, fr *Frame, a []Value) Value {
		s1, n1 := in.timeParts(a[0].(Struct))
		s2, n2 := in.timeParts(a[1].(Struct))
		return in.timeLess(s2, n2, s1, n1)
	})
	regP("(time.Time).Add", func(in *Interp, fr *Frame, a []Value) Value {
		return in.timeAdd(a[0].(Struct), a[1].(*Term))
	})
	regP("(time.Time).UnixNano", func(in *Interp, fr *Frame, a []Value) Value {
		s, n := in.timeParts(a[0].(Struct))
		us := in.tt.Bin(OpSub, s, in.tt.Const(64, unixToInternal))
		return in.tt.Bin(OpAdd, in.tt.Bin(OpMul, us, in.tt.Const(64, 1000000000)), n)
	})

	// ------------------------------------------------ byte order
	// whole values are taken apart and put together again without residue
	for _, w := range []uint8{16, 32, 64} {
		n := int(w / 8)
		for _, big := range []bool{true, false} {
			pre := "(encoding/binary.littleEndian)."
			if big {
				pre = "(encoding/binary.bigEndian)."
			}
			at := func(i int) uint8 {
				if big {
					i = n - 1 - i
				}
				return uint8(8 * i)
			}
			regP(pre+fmt.Sprintf("Uint%d", w), func(in *Interp, fr *Frame, a []Value) Value {
				b := a[1].(Slice)
				if len(b) < n {
					return useBody
				}
				parts := make([]*Term, n)
				for i := range parts {
					t, ok := b[i].(*Term)
					if !ok {
						return useBody
					}
					parts[at(i)/8] = t
				}
				r := parts[n-1]
				for i := n - 2; i >= 0; i-- {
					r = in.tt.Concat(r, parts[i])
				}
				return r
			})
			reg(pre+fmt.Sprintf("PutUint%d", w), func(in *Interp, fr *Frame, a []Value) Value {
				b := a[1].(Slice)
				if len(b) < n {
					return useBody
				}
				v := a[2].(*Term)
				for i := 0; i < n; i++ {
					in.set(&b[i], in.tt.Byte(v, at(i)))
				}
				return nil
			})
		}
	}

	// ------------------------------------------------ hashing
	// a hash without collisions: equal values have equal hashes
	reg("hash/maphash.MakeSeed", func(in *Interp, fr *Frame, a []Value) Value {
		return in.zero(in.sh.prog.ImportedPackage("hash/maphash").Type("Seed").Type())
	})
	hashOf := func(in *Interp, v Value) Value {
		for i, o := range in.hashed {
			if in.decide(in.eq(o, v)) {
				return in.tt.Const(64, uint64(i)*0x9e3779b97f4a7c15+77)
			}
		}
		in.hashed = append(in.hashed, copyVal(v))
		return in.tt.Const(64, uint64(len(in.hashed)-1)*0x9e3779b97f4a7c15+77)
	}
	reg("hash/maphash.Comparable", func(in *Interp, fr *Frame, a []Value) Value { return hashOf(in, a[1]) })
	reg("hash/maphash.String", func(in *Interp, fr *Frame, a []Value) Value { return hashOf(in, a[1]) })

	// ------------------------------------------------ randomness
	bounded := func(w uint8) intrinsic {
		return func(in *Interp, fr *Frame, a []Value) Value {
			n := a[len(a)-1].(*Term)
			if in.decide(in.tt.SLe(n, in.tt.Const(n.w, 0))) {
				in.rtPanic("invalid argument to Intn")
			}
			in.randN = n
			if n.isConst() {
				return in.freshVar(fmt.Sprintf("rand%d", w), w, 0, n.val-1)
			}
			v := in.freshVar(fmt.Sprintf("rand%d", w), w, 0, mask(w))
			in.assume(in.tt.ULt(v, n))
			return v
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		reg(p+"Intn", bounded(64))
		reg(p+"IntN", bounded(64))
		reg(p+"Int63n", bounded(64))
		reg(p+"Int64N", bounded(64))
		reg(p+"Int31n", bounded(32))
		reg(p+"Int32N", bounded(32))
		reg(p+"Uint32N", bounded(32))
		reg(p+"Uint64N", bounded(64))
		reg(p+"Int", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar("rand64", 64, 0, 1<<63-1) })
		reg(p+"Uint32", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar("rand32", 32, 0, mask(32)) })
		reg(p+"Uint64", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar("rand64", 64, 0, mask(64)) })
		reg(p+"Float64", func(in *Interp, fr *Frame, a []Value) Value {
			if in.tier == 0 {
				return []float64{0, 0.9999}[in.choose(2, "randf")]
			}
			return []float64{0, 0.3, 0.6, 0.9999}[in.choose(4, "randf")]
		})
		reg(p+"Shuffle", func(in *Interp, fr *Frame, a []Value) Value {
			n := in.cint(a[len(a)-2])
			f := a[len(a)-1]
			for i := n - 1; i > 0; i-- {
				j := in.choose(i+1, "shuffle")
				in.callValue(fr, f, []Value{in.i64(i), in.i64(j)})
			}
			return nil
		})
	}
	reg("github.com/miekg/dns.id", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar("dnsid", 16, 0, 65535) })
	reg("crypto/rand.Read", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		for i := range s {
			in.set(&s[i], in.freshVar("crand", 8, 0, 255))
		}
		return Tuple{in.i64(len(s)), Iface{}}
	})

	// ------------------------------------------------ logging and metrics
	for _, n := range []string{"Debug", "Info", "Warn", "Error", "DebugContext", "InfoContext", "WarnContext", "ErrorContext", "Log", "LogAttrs"} {
		reg("(*log/slog.Logger)."+n, noop)
		reg("log/slog."+n, noop)
	}
	reg("(*log/slog.Logger).With", func(in *Interp, fr *Frame, a []Value) Value { return a[0] })
	reg("(*log/slog.Logger).WithGroup", func(in *Interp, fr *Frame, a []Value) Value { return a[0] })
	reg("(*log/slog.Logger).Enabled", func(in *Interp, fr *Frame, a []Value) Value { return in.tt.False })
	regP("log/slog.StringValue", func(in *Interp, fr *Frame, a []Value) Value {
		return in.zero(in.sh.prog.ImportedPackage("log/slog").Type("Value").Type())
	})
	reg("log/slog.Default", func(in *Interp, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = in.zero(in.sh.prog.ImportedPackage("log/slog").Type("Logger").Type())
		return p
	})
	reg("log/slog.New", intrinsics["log/slog.Default"])
	reg("expvar.Publish", noop)
	reg("expvar.Get", func(in *Interp, fr *Frame, a []Value) Value { return Iface{} })
	reg("expvar.NewInt", func(in *Interp, fr *Frame, a []Value) Value { return in.newOf("expvar", "Int") })
	reg("expvar.NewString", func(in *Interp, fr *Frame, a []Value) Value { return in.newOf("expvar", "String") })
	reg("expvar.NewMap", func(in *Interp, fr *Frame, a []Value) Value { return in.newOf("expvar", "Map") })
	reg("(*expvar.Map).Init", func(in *Interp, fr *Frame, a []Value) Value { return a[0] })
	for _, m := range []string{"Add", "Set", "AddFloat", "Delete"} {
		reg("(*expvar.Map)."+m, noop)
	}
	reg("(*expvar.String).Set", noop)
	reg("(*expvar.Float).Set", noop)
	reg("(*expvar.Float).Add", noop)

	// ------------------------------------------------ fmt and errors
	reg("fmt.Sprintf", func(in *Interp, fr *Frame, a []Value) Value { return in.sprintf(fr, a[0].(*Str), variadic(a[1])) })
	reg("fmt.Sprint", func(in *Interp, fr *Frame, a []Value) Value { return in.sprint(fr, variadic(a[0]), false) })
	reg("fmt.Sprintln", func(in *Interp, fr *Frame, a []Value) Value { return in.sprint(fr, variadic(a[0]), true) })
	reg("fmt.Errorf", func(in *Interp, fr *Frame, a []Value) Value { return in.errorf(fr, a[0].(*Str), variadic(a[1])) })
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprint"} {
		reg(n, func(in *Interp, fr *Frame, a []Value) Value { return Tuple{in.i64(0), Iface{}} })
	}
	reg("errors.As", func(in *Interp, fr *Frame, a []Value) Value { return in.errorsAs(fr, a[0].(Iface), a[1].(Iface)) })
	reg("errors.Is", func(in *Interp, fr *Frame, a []Value) Value { return in.errorsIs(fr, a[0].(Iface), a[1].(Iface)) })

	reg("maps.clone", func(in *Interp, fr *Frame, a []Value) Value {
		x := a[0].(Iface)
		m := x.v.(*Map)
		c := newMap()
		for _, e := range m.ents {
			if !e.live {
				continue
			}
			n := &mapEntry{k: e.k, v: copyVal(e.v), live: true}
			c.ents = append(c.ents, n)
			c.nlive++
			var sb strings.Builder
			if concKey(&sb, e.k) {
				c.idx[sb.String()] = n
			} else {
				c.nsym++
			}
		}
		return Iface{x.t, c}
	})
	reg("strings.Join", func(in *Interp, fr *Frame, a []Value) Value {
		s, _ := a[0].(Slice)
		for i := range s {
			if s[i].(*Str).op {
				return opaqueStr("Join")
			}
		}
		return useBody
	})

	// so are questions, types and classes
	const mdns = "github.com/miekg/dns."
	for _, n := range []string{"Type", "Class"} {
		reg("("+mdns+n+").String", func(in *Interp, fr *Frame, a []Value) Value {
			if !a[0].(*Term).isConst() {
				return opaqueStr(n + ".String")
			}
			return useBody
		})
	}
	reg("(*"+mdns+"Question).String", func(in *Interp, fr *Frame, a []Value) Value { return opaqueStr("Question.String") })

	// addresses with unknown bits are only formatted for messages
	reg("(net.IP).String", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		b := make([]byte, len(s))
		if len(s) == 4 {
			// IPv4 addresses of single-digit parts
			var parts []*Term
			for i := range s {
				t := s[i].(*Term)
				if t.isConst() {
					parts = append(parts, in.strBytes(concStr(strconv.Itoa(int(t.val))))...)
				} else if t.hi > 9 {
					return opaqueStr("IP.String")
				} else {
					parts = append(parts, in.tt.Bin(OpAdd, t, in.tt.Const(8, '0')))
				}
				if i < 3 {
					parts = append(parts, in.tt.Const(8, '.'))
				}
			}
			return mkStr(parts)
		}
		for i := range s {
			t := s[i].(*Term)
			if !t.isConst() {
				return opaqueStr("IP.String")
			}
			b[i] = byte(t.val)
		}
		return concStr(net.IP(b).String())
	})

	// quoting is only used in messages
	reg("strconv.Quote", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(*Str)
		if c, ok := s.conc(); ok && !s.op {
			return concStr(strconv.Quote(c))
		}
		return opaqueStr("strconv.Quote")
	})

	// ------------------------------------------------ strings and bytes
	indexByte := func(in *Interp, n int, at func(int) *Term, c *Term) Value {
		for i := 0; i < n; i++ {
			if in.decide(in.tt.Eq(at(i), c)) {
				return in.i64(i)
			}
		}
		return in.tt.Const(64, mask(64))
	}
	regP("internal/bytealg.IndexByteString", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(*Str)
		return indexByte(in, s.Len(), func(i int) *Term { return s.at(in, i) }, a[1].(*Term))
	})
	regP("internal/bytealg.IndexByte", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		return indexByte(in, len(s), func(i int) *Term { return s[i].(*Term) }, a[1].(*Term))
	})
	regP("internal/bytealg.LastIndexByteString", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(*Str)
		for i := s.Len() - 1; i >= 0; i-- {
			if in.decide(in.tt.Eq(s.at(in, i), a[1].(*Term))) {
				return in.i64(i)
			}
		}
		return in.tt.Const(64, mask(64))
	})
	count := func(in *Interp, n int, at func(int) *Term, c *Term) Value {
		r := in.i64(0)
		for i := 0; i < n; i++ {
			r = in.tt.Bin(OpAdd, r, in.tt.BoolToBV(in.tt.Eq(at(i), c), 64))
		}
		return r
	}
	regP("internal/bytealg.CountString", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(*Str)
		return count(in, s.Len(), func(i int) *Term { return s.at(in, i) }, a[1].(*Term))
	})
	regP("internal/bytealg.Count", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		return count(in, len(s), func(i int) *Term { return s[i].(*Term) }, a[1].(*Term))
	})
	sliceStr := func(v Value) *Str {
		s := v.(Slice)
		b := make([]*Term, len(s))
		for i := range s {
			b[i] = s[i].(*Term)
		}
		return mkStr(b)
	}
	regP("bytes.Equal", func(in *Interp, fr *Frame, a []Value) Value { return in.strEq(sliceStr(a[0]), sliceStr(a[1])) })
	regP("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	cmp := func(in *Interp, x, y *Str) Value {
		if x.b == nil && y.b == nil {
			return in.tt.Const(64, uint64(int64(strings.Compare(x.s, y.s))))
		}
		return in.tt.Ite(in.strLess(x, y), in.tt.Const(64, mask(64)), in.tt.Ite(in.strEq(x, y), in.i64(0), in.i64(1)))
	}
	regP("internal/bytealg.Compare", func(in *Interp, fr *Frame, a []Value) Value { return cmp(in, sliceStr(a[0]), sliceStr(a[1])) })
	regP("internal/bytealg.CompareString", func(in *Interp, fr *Frame, a []Value) Value { return cmp(in, a[0].(*Str), a[1].(*Str)) })
	regP("bytes.Compare", intrinsics["internal/bytealg.Compare"])
	index := func(in *Interp, x, y *Str) Value {
		n, m := x.Len(), y.Len()
		for i := 0; i+m <= n; i++ {
			if in.decide(in.strEq(x.slice(i, i+m), y)) {
				return in.i64(i)
			}
		}
		return in.tt.Const(64, mask(64))
	}
	regP("internal/bytealg.IndexString", func(in *Interp, fr *Frame, a []Value) Value { return index(in, a[0].(*Str), a[1].(*Str)) })
	regP("internal/bytealg.Index", func(in *Interp, fr *Frame, a []Value) Value { return index(in, sliceStr(a[0]), sliceStr(a[1])) })
	regP("strings.Index", intrinsics["internal/bytealg.IndexString"])
	regP("strings.Contains", func(in *Interp, fr *Frame, a []Value) Value {
		x, y := a[0].(*Str), a[1].(*Str)
		r := in.tt.False
		for i := 0; i+y.Len() <= x.Len(); i++ {
			r = in.tt.Or(r, in.strEq(x.slice(i, i+y.Len()), y))
		}
		return r
	})
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *Frame, a []Value) Value {
		n := in.cint(a[0])
		s := make(Slice, n)
		for i := range s {
			s[i] = in.tt.Const(8, 0)
		}
		return s
	})
	regP("(*strings.Builder).copyCheck", noop)
	reg("(*strings.Builder).grow", func(in *Interp, fr *Frame, a []Value) Value { return nil })
	reg("(*strings.Builder).Grow", func(in *Interp, fr *Frame, a []Value) Value { return nil })
	caseMap := func(lower bool) intrinsic {
		return func(in *Interp, fr *Frame, a []Value) Value {
			s := a[0].(*Str)
			if s.b == nil {
				if lower {
					return concStr(strings.ToLower(s.s))
				}
				return concStr(strings.ToUpper(s.s))
			}
			ascii := in.tt.True
			for _, c := range s.b {
				ascii = in.tt.And(ascii, in.tt.ULt(c, in.tt.Const(8, 0x80)))
			}
			if !in.decide(ascii) {
				panic(unsupported{"case mapping of non-ASCII bytes"})
			}
			r := make([]*Term, len(s.b))
			for i, c := range s.b {
				r[i] = in.mapCase(c, lower)
			}
			return mkStr(r)
		}
	}
	regP("strings.ToLower", caseMap(true))
	regP("strings.ToUpper", caseMap(false))
	regP("strings.EqualFold", func(in *Interp, fr *Frame, a []Value) Value {
		x, y := a[0].(*Str), a[1].(*Str)
		if x.b == nil && y.b == nil {
			return in.tt.Bool(strings.EqualFold(x.s, y.s))
		}
		ascii := in.tt.True
		for _, s := range []*Str{x, y} {
			for i := 0; i < s.Len(); i++ {
				ascii = in.tt.And(ascii, in.tt.ULt(s.at(in, i), in.tt.Const(8, 0x80)))
			}
		}
		if !in.decide(ascii) {
			panic(unsupported{"case folding of non-ASCII bytes"})
		}
		if x.Len() != y.Len() {
			return in.tt.False
		}
		r := in.tt.True
		for i := 0; i < x.Len(); i++ {
			r = in.tt.And(r, in.tt.Eq(in.mapCase(x.at(in, i), true), in.mapCase(y.at(in, i), true)))
		}
		return r
	})
	// Native evaluation of pure conversions on concrete arguments.
	regP("strconv.Itoa", func(in *Interp, fr *Frame, a []Value) Value {
		return concStr(strconv.Itoa(in.cint(a[0])))
	})

	// ------------------------------------------------ sorting, unique, misc
	sortSlice := func(in *Interp, fr *Frame, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			panic(unsupported{"sort of non-slice"})
		}
		if len(s) > 12 {
			panic(unsupported{"sort.Slice of more than 12 elements"})
		}
		// the library's own algorithm for up to 12 elements
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && in.decide(in.callValue(fr, a[1], []Value{in.i64(j), in.i64(j - 1)}).(*Term)); j-- {
				x, y := copyVal(s[j]), copyVal(s[j-1])
				in.assign(&s[j], y)
				in.assign(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("unique.Make", func(in *Interp, fr *Frame, a []Value) Value {
		var sb strings.Builder
		if !concKey(&sb, a[0]) {
			panic(unsupported{"unique.Make of symbolic value"})
		}
		p := in.env0().uniq[sb.String()]
		if p == nil {
			p = new(Value)
			*p = copyVal(a[0])
			in.env0().uniq[sb.String()] = p
		}
		return Struct{p}
	})
	reg("runtime.Callers", func(in *Interp, fr *Frame, a []Value) Value { return in.i64(0) })
	reg("runtime.GC", noop)
	reg("runtime.GOMAXPROCS", func(in *Interp, fr *Frame, a []Value) Value { return in.i64(8) })
	reg("runtime.NumCPU", func(in *Interp, fr *Frame, a []Value) Value { return in.i64(8) })
	reg("runtime.KeepAlive", noop)
	reg("runtime.SetFinalizer", noop)
	reg("runtime.Gosched", func(in *Interp, fr *Frame, a []Value) Value { in.yield("gosched"); return nil })
	reg("internal/godebug.New", func(in *Interp, fr *Frame, a []Value) Value { return in.newOf("internal/godebug", "Setting") })
	reg("(*internal/godebug.Setting).Value", func(in *Interp, fr *Frame, a []Value) Value { return emptyStr })
	reg("(*internal/godebug.Setting).IncNonDefault", noop)
	reg("crypto/internal/fips140.getIndicator", func(in *Interp, fr *Frame, a []Value) Value { return in.tt.Const(8, 0) })
	reg("crypto/internal/fips140.setIndicator", noop)
	reg("internal/race.Acquire", noop)
	reg("internal/race.Release", noop)
	regP("math.Float64bits", func(in *Interp, fr *Frame, a []Value) Value {
		panic(unsupported{"math.Float64bits"})
	})
	reg("os.NewFile", func(in *Interp, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = Struct{(*Value)(nil)}
		return p
	})
	reg("os.Getenv", func(in *Interp, fr *Frame, a []Value) Value { return emptyStr })
	reg("(reflect.Value).Pointer", func(in *Interp, fr *Frame, a []Value) Value { panic(unsupported{"reflect"}) })
	reg("unicode/utf8.ValidString", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(*Str)
		ascii := in.tt.True
		for i := 0; i < s.Len(); i++ {
			ascii = in.tt.And(ascii, in.tt.ULt(s.at(in, i), in.tt.Const(8, 0x80)))
		}
		if in.decide(ascii) {
			return in.tt.True
		}
		panic(unsupported{"utf8 validity of non-ASCII bytes"})
	})
}

// deepEq compares two values structurally; nil and empty slices are equal.
func (in *Interp) deepEq(x, y Value, depth int) *Term {
	tt := in.tt
	if depth > 60 {
		panic(unsupported{"comparison of cyclic values"})
	}
	all := func(p, q []Value) *Term {
		if len(p) != len(q) {
			return tt.False
		}
		r := tt.True
		for i := range p {
			r = tt.And(r, in.deepEq(p[i], q[i], depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	}
	switch p := x.(type) {
	case Iface:
		q, ok := y.(Iface)
		if !ok {
			return tt.False
		}
		if p.t == nil || q.t == nil {
			return tt.Bool(p.t == nil && q.t == nil)
		}
		if !in.sameType(p.t, q.t) {
			return tt.False
		}
		return in.deepEq(p.v, q.v, depth+1)
	case *Value:
		q, ok := y.(*Value)
		if !ok {
			return tt.False
		}
		if p == q {
			return tt.True
		}
		if p == nil || q == nil {
			return tt.False
		}
		return in.deepEq(*p, *q, depth+1)
	case Struct:
		return all(p, y.(Struct))
	case Array:
		return all(p, y.(Array))
	case Slice:
		return all(p, y.(Slice))
	}
	return in.eq(x, y)
}

var onceDone = &Term{}

const unixToInternal = 62135596800

type envState struct {
	timers map[*Value]*vtimer
	uniq   map[string]*Value
}

func (in *Interp) env0() *envState {
	if in.env == nil {
		in.env = &envState{timers: make(map[*Value]*vtimer), uniq: make(map[string]*Value)}
	}
	return in.env
}

func (in *Interp) spawnQuiet(f Value) {
	// timer callbacks run in a goroutine of their own
	save := in.opts.noYield
	in.opts.noYield = 1
	in.spawn(nil, f, nil)
	in.opts.noYield = save
}

func (in *Interp) newOf(pkg, typ string) Value {
	p := new(Value)
	*p = in.zero(in.sh.prog.ImportedPackage(pkg).Type(typ).Type())
	return p
}

func (in *Interp) mapCase(c *Term, lower bool) *Term {
	tt := in.tt
	if lower {
		up := tt.And(tt.ULe(tt.Const(8, 'A'), c), tt.ULe(c, tt.Const(8, 'Z')))
		return tt.Ite(up, tt.Bin(OpAdd, c, tt.Const(8, 32)), c)
	}
	lo := tt.And(tt.ULe(tt.Const(8, 'a'), c), tt.ULe(c, tt.Const(8, 'z')))
	return tt.Ite(lo, tt.Bin(OpSub, c, tt.Const(8, 32)), c)
}

// ---------------------------------------------------------------- time

func (in *Interp) nowTime() Struct {
	loc := in.globalAddr(in.sh.prog.ImportedPackage("time").Var("localLoc"))
	return Struct{in.clockNsec, in.tt.Bin(OpAdd, in.clockSec, in.tt.Const(64, unixToInternal)), loc}
}

// timeParts splits a time.Time without monotonic reading into seconds since
// year 1 and nanoseconds.
func (in *Interp) timeParts(t Struct) (sec, nsec *Term) {
	w := t[0].(*Term)
	if w.hi >= 1<<63 {
		panic(unsupported{"time with monotonic reading"})
	}
	n := w
	if w.hi >= 1<<30 {
		n = in.tt.Bin(OpBAnd, w, in.tt.Const(64, 1<<30-1))
	}
	return t[1].(*Term), n
}

// nano describes a term known to equal q*1e9 + r without overflow, with
// 0 <= r < 1e9 and lo <= q <= hi (signed).
type nano struct {
	q, r   *Term
	lo, hi int64
}

const nanoMax = 1 << 33

// nanoOf recognises such terms; comparing and dividing them by parts keeps
// multiplications away from the solver.
func (in *Interp) nanoOf(t *Term) (nano, bool) {
	if t.w != 64 {
		return nano{}, false
	}
	if n, ok := in.nanos[t]; ok {
		return n, n.q != nil
	}
	q, r := in.splitNano(t)
	n := nano{}
	if q != nil && r.hi < 1000000000 {
		if q.isConst() {
			v := int64(q.val)
			if v > -nanoMax && v < nanoMax {
				n = nano{q, r, v, v}
			}
		} else if lo, hi, ok := srange(q, 0); ok && lo > -nanoMax && hi < nanoMax {
			n = nano{q, r, lo, hi}
		}
	}
	if n.q != nil && !t.isConst() {
		in.nanos[t] = n
	}
	return n, n.q != nil
}

// srange bounds a 64-bit term as a signed number.
func srange(t *Term, depth int) (lo, hi int64, ok bool) {
	const big = 1 << 60
	if depth > 12 {
		return 0, 0, false
	}
	if t.isConst() {
		v := int64(t.val)
		return v, v, v > -big && v < big
	}
	if t.hi < big {
		return int64(t.lo), int64(t.hi), true
	}
	switch t.op {
	case OpAdd, OpSub:
		l0, h0, ok := srange(t.a[0], depth+1)
		if !ok {
			return 0, 0, false
		}
		l1, h1, ok := srange(t.a[1], depth+1)
		if !ok {
			return 0, 0, false
		}
		if t.op == OpSub {
			l1, h1 = -h1, -l1
		}
		lo, hi = l0+l1, h0+h1
		return lo, hi, lo > -big && hi < big
	case OpIte:
		l0, h0, ok := srange(t.a[1], depth+1)
		if !ok {
			return 0, 0, false
		}
		l1, h1, ok := srange(t.a[2], depth+1)
		return min(l0, l1), max(h0, h1), ok
	}
	return 0, 0, false
}

// nanoSub computes x-y for two such terms.
func (in *Interp) nanoSub(x, y nano) *Term {
	tt := in.tt
	lo, hi := x.lo-y.hi, x.hi-y.lo
	if lo-1 <= -nanoMax || hi >= nanoMax {
		return nil
	}
	e9 := tt.Const(64, 1000000000)
	q := in.subTerm(x.q, y.q)
	r := tt.Const(64, 0)
	switch {
	case x.r == y.r:
	case y.r.isConst() && y.r.val == 0:
		r = x.r
	default:
		borrow := tt.SLt(x.r, y.r)
		q = tt.Bin(OpSub, q, tt.BoolToBV(borrow, 64))
		lo--
		d := tt.Bin(OpSub, x.r, y.r)
		r = tt.Ite(borrow, tt.Bin(OpAdd, d, e9), d)
		r = tt.ZExt(tt.Extract(r, 29, 0), 64)
	}
	res := tt.Bin(OpAdd, tt.Bin(OpMul, q, e9), r)
	if !res.isConst() {
		in.nanos[res] = nano{q, r, lo, hi}
	}
	return res
}

// nanoLess builds x < y.
func (in *Interp) nanoLess(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return nil
	}
	x, ok := in.nanoOf(a)
	if !ok {
		return nil
	}
	y, ok := in.nanoOf(b)
	if !ok {
		return nil
	}
	return in.timeLess(x.q, x.r, y.q, y.r)
}

func (in *Interp) divNano(d *Term) *Term {
	if n, ok := in.nanoOf(d); ok && !d.isConst() {
		if n.lo >= 0 {
			return n.q
		}
		tt := in.tt
		return tt.Ite(tt.And(tt.SLt(n.q, tt.Const(64, 0)), tt.Not(tt.Eq(n.r, tt.Const(64, 0)))), tt.Bin(OpAdd, n.q, tt.Const(64, 1)), n.q)
	}
	// (x*1e9 + y) / 1e9 with 0 <= y < 1e9
	tt := in.tt
	e9 := tt.Const(64, 1000000000)
	if q, r := in.splitNano(d); q != nil && r.hi < 1000000000 && r.lo <= r.hi {
		if q.hi < 1<<33 {
			return q
		}
		// a negative quotient truncates towards zero
		return tt.Ite(tt.And(tt.SLt(q, tt.Const(64, 0)), tt.Not(tt.Eq(r, tt.Const(64, 0)))), tt.Bin(OpAdd, q, tt.Const(64, 1)), q)
	}
	if d.hi <= mask(64)>>1 {
		return in.narrow(OpUDiv, d, e9)
	}
	return tt.Bin(OpSDiv, d, e9)
}

// splitNano recognises x*1e9 + y.
func (in *Interp) splitNano(d *Term) (q, r *Term) {
	isMul := func(t *Term) bool { return t.op == OpMul && t.a[1].isConst() && t.a[1].val == 1000000000 }
	if isMul(d) {
		return d.a[0], in.tt.Const(64, 0)
	}
	if d.op == OpAdd {
		if isMul(d.a[0]) {
			return d.a[0].a[0], d.a[1]
		}
		if isMul(d.a[1]) {
			return d.a[1].a[0], d.a[0]
		}
	}
	if d.isConst() {
		n := int64(d.val)
		s, ns := n/1e9, n%1e9
		if ns < 0 {
			s--
			ns += 1e9
		}
		return in.tt.Const(64, uint64(s)), in.tt.Const(64, uint64(ns))
	}
	return nil, nil
}

// timeSub is exact for differences that fit a Duration.
func (in *Interp) timeSub(a, b Struct) Value {
	tt := in.tt
	s1, n1 := in.timeParts(a)
	s2, n2 := in.timeParts(b)
	ds := in.subTerm(s1, s2)
	if n1 == n2 {
		return tt.Bin(OpMul, ds, tt.Const(64, 1000000000))
	}
	// keep the nanosecond part in [0,1e9)
	borrow := tt.SLt(n1, n2)
	q := tt.Bin(OpSub, ds, tt.BoolToBV(borrow, 64))
	if n2.isConst() && n2.val == 0 {
		return tt.Bin(OpAdd, tt.Bin(OpMul, ds, tt.Const(64, 1000000000)), n1)
	}
	dn := tt.Bin(OpSub, n1, n2)
	r := tt.Ite(borrow, tt.Bin(OpAdd, dn, tt.Const(64, 1000000000)), dn)
	// r is in range by construction; expose that as a bounded value
	r = tt.ZExt(tt.Extract(r, 29, 0), 64)
	return tt.Bin(OpAdd, tt.Bin(OpMul, q, tt.Const(64, 1000000000)), r)
}

// subTerm computes x-y cancelling a common summand.
func (in *Interp) subTerm(x, y *Term) *Term {
	tt := in.tt
	var flat func(t *Term, m map[*Term]int, c *uint64, sign int)
	flat = func(t *Term, m map[*Term]int, c *uint64, sign int) {
		switch {
		case t.isConst():
			*c += uint64(int64(sign)) * t.val
		case t.op == OpAdd:
			flat(t.a[0], m, c, sign)
			flat(t.a[1], m, c, sign)
		case t.op == OpSub:
			flat(t.a[0], m, c, sign)
			flat(t.a[1], m, c, -sign)
		default:
			m[t] += sign
		}
	}
	m := make(map[*Term]int)
	var c uint64
	flat(x, m, &c, 1)
	flat(y, m, &c, -1)
	var pos, neg []*Term
	for t, n := range m {
		for ; n > 0; n-- {
			pos = append(pos, t)
		}
		for ; n < 0; n++ {
			neg = append(neg, t)
		}
	}
	sortTerms(pos)
	sortTerms(neg)
	r := tt.Const(x.w, 0)
	for _, t := range pos {
		r = tt.Bin(OpAdd, r, t)
	}
	r = tt.Bin(OpAdd, r, tt.Const(x.w, c))
	for _, t := range neg {
		r = tt.Bin(OpSub, r, t)
	}
	return r
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (in *Interp) timeAdd(t Struct, d *Term) Value {
	tt := in.tt
	s, n := in.timeParts(t)
	q, r := in.splitNano(d)
	if q == nil || r.hi >= 1000000000 {
		e9 := tt.Const(64, 1000000000)
		if d.hi <= mask(64)>>1 {
			q = in.narrow(OpUDiv, d, e9)
			r = in.narrow(OpURem, d, e9)
		} else {
			q0, r0 := tt.Bin(OpSDiv, d, e9), tt.Bin(OpSRem, d, e9)
			neg := tt.SLt(r0, tt.Const(64, 0))
			q = tt.Ite(neg, tt.Bin(OpSub, q0, tt.Const(64, 1)), q0)
			r = tt.ZExt(tt.Extract(tt.Ite(neg, tt.Bin(OpAdd, r0, e9), r0), 29, 0), 64)
		}
	}
	sum := tt.Bin(OpAdd, n, r)
	over := tt.ULe(tt.Const(64, 1000000000), sum)
	ns := tt.Ite(over, tt.Bin(OpSub, sum, tt.Const(64, 1000000000)), sum)
	if ns.hi >= 1<<30 {
		ns = tt.ZExt(tt.Extract(ns, 29, 0), 64)
	}
	sec := tt.Bin(OpAdd, tt.Bin(OpAdd, s, q), tt.BoolToBV(over, 64))
	return Struct{ns, sec, t[2]}
}

func (in *Interp) deadline(d *Term) (sec, nsec *Term) {
	t := in.timeAdd(Struct{in.clockNsec, in.clockSec, nil}, d).(Struct)
	return t[1].(*Term), t[0].(*Term)
}

func (in *Interp) addTimer(d *Term, fire func()) *vtimer {
	s := in.sched
	t := &vtimer{active: true, fire: fire, seq: len(s.timers)}
	t.deadSec, t.deadNsec = in.deadline(d)
	t.vc.join(in.cur.vc)
	in.cur.tick()
	s.timers = append(s.timers, t)
	in.env0()
	return t
}

// ---------------------------------------------------------------- fmt

type natStr string

func (s natStr) String() string { return string(s) }

// native converts a concrete value for formatting; verb selects how.
func (in *Interp) native(fr *Frame, v Value, t types.Type) (any, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		if x.w == 0 {
			return x.val == 1, true
		}
		_, signed, _ := scalar(t)
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return uint8(x.val), true
			case types.Int32:
				return int32(x.val), true
			case types.Uint16:
				return uint16(x.val), true
			case types.Uint32:
				return uint32(x.val), true
			}
		}
		if signed {
			return sext(x.val, x.w), true
		}
		return x.val, true
	case *Str:
		if x.b != nil {
			return nil, false
		}
		return x.s, true
	case float64:
		return x, true
	case Array:
		// of bytes, which print like a slice of them
		if b, ok := t.Underlying().(*types.Array); ok {
			return in.native(fr, Slice(x), types.NewSlice(b.Elem()))
		}
	case Slice:
		if b, ok := t.Underlying().(*types.Slice); ok {
			if e, ok := b.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				r := make([]byte, len(x))
				for i := range x {
					y, ok := x[i].(*Term)
					if !ok || !y.isConst() {
						return nil, false
					}
					r[i] = byte(y.val)
				}
				return r, true
			}
			if e, ok := b.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.String {
				r := make([]string, len(x))
				for i := range x {
					y := x[i].(*Str)
					if y.b != nil {
						return nil, false
					}
					r[i] = y.s
				}
				return r, true
			}
		}
	}
	return nil, false
}

// textOf renders an argument of %s or %v as string bytes.
func (in *Interp) textOf(fr *Frame, a Value, verb byte) (*Str, bool) {
	i, ok := a.(Iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		if verb == 'v' {
			return concStr("<nil>"), true
		}
		return concStr("%!s(<nil>)"), true
	}
	if verb == 's' || verb == 'v' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			fn := in.methodByName(i.t, m)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if p, isP := i.v.(*Value); isP && p == nil {
				return concStr("<nil>"), true
			}
			s, ok := in.tryString(fr, fn, i.v)
			return s, ok
		}
	}
	if s, ok := i.v.(*Str); ok && (verb == 's' || verb == 'v') {
		return s, true
	}
	if n, ok := in.native(fr, i.v, i.t); ok {
		return concStr(fmt.Sprintf("%"+string(verb), n)), true
	}
	return nil, false
}

func isStructArg(a Value) bool {
	i, ok := a.(Iface)
	if !ok || i.t == nil {
		return false
	}
	_, ok = i.t.Underlying().(*types.Struct)
	return ok
}

// structText renders a value for %v or %+v; methods are not used below
// unexported fields.
func (in *Interp) structText(fr *Frame, i Iface, plus, methods bool) (*Str, bool) {
	u, ok := i.t.Underlying().(*types.Struct)
	if ok && methods && (in.methodByName(i.t, "Error") != nil || in.methodByName(i.t, "String") != nil) {
		ok = false
	}
	if !ok {
		if t, isT := i.v.(*Term); isT && !t.isConst() && (t.w == 0 || t.hi < 16) {
			if t.w == 0 {
				return concStr(strconv.FormatBool(in.concretize(t) != 0)), true
			}
			return concStr(strconv.FormatUint(in.concretize(t), 10)), true
		}
		return in.textOf(fr, i, 'v')
	}
	out := []*Term{in.tt.Const(8, '{')}
	for k := 0; k < u.NumFields(); k++ {
		pre := ""
		if k > 0 {
			pre = " "
		}
		if plus {
			pre += u.Field(k).Name() + ":"
		}
		out = append(out, in.strBytes(concStr(pre))...)
		s, ok := in.structText(fr, Iface{u.Field(k).Type(), i.v.(Struct)[k]}, plus, methods && u.Field(k).Exported())
		if !ok || s.op {
			return nil, false
		}
		out = append(out, in.strBytes(s)...)
	}
	return mkStr(append(out, in.tt.Const(8, '}'))), true
}

func (in *Interp) tryString(fr *Frame, fn *ssa.Function, recv Value) (s *Str, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, bad := r.(unsupported); bad {
				s, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	r := in.callFn(fr, fn, []Value{recv}, nil).(*Str)
	return r, !r.op
}

func (in *Interp) sprintf(fr *Frame, f *Str, args []Value) *Str {
	if f.b != nil {
		return opaqueStr("Sprintf")
	}
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, in.tt.Const(8, uint64(s[i])))
		}
	}
	format := f.s
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			lit(format[i:j])
			i = j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return opaqueStr("Sprintf")
		}
		verb := format[j]
		flags := format[i+1 : j]
		i = j + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			return opaqueStr("Sprintf")
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		if flags == "" && (verb == 's' || verb == 'v') || flags == "+" && verb == 'v' && isStructArg(a) {
			s, ok := in.textOf(fr, a, verb)
			if isStructArg(a) && verb == 'v' {
				s, ok = in.structText(fr, a.(Iface), flags == "+", true)
			}
			if !ok || s.op {
				return opaqueStr("Sprintf")
			}
			out = append(out, in.strBytes(s)...)
			continue
		}
		ia, ok := a.(Iface)
		if !ok || ia.t == nil {
			return opaqueStr("Sprintf")
		}
		if verb == 'T' {
			lit(ia.t.String())
			continue
		}
		if verb == 'd' && flags == "" {
			if t, ok := ia.v.(*Term); ok && !t.isConst() && t.hi < 16 {
				v := in.concretize(t)
				lit(strconv.FormatUint(v, 10))
				continue
			}
		}
		n, ok := in.native(fr, ia.v, ia.t)
		if !ok {
			s, ok2 := in.textOf(fr, a, verb)
			if !ok2 || s.op || s.b != nil {
				return opaqueStr("Sprintf")
			}
			n = s.s
			if verb == 'q' {
				n = s.s
			}
		}
		lit(fmt.Sprintf("%"+flags+string(verb), n))
	}
	return mkStr(out)
}

func opaqueStr(what string) *Str { return &Str{b: []*Term{}, op: true, s: what} }

func (in *Interp) sprint(fr *Frame, args []Value, ln bool) *Str {
	var out []*Term
	for k, a := range args {
		s, ok := in.textOf(fr, a, 'v')
		if !ok || s.op {
			return opaqueStr("Sprint")
		}
		if k > 0 {
			_, s1 := a.(Iface).v.(*Str)
			_, s0 := args[k-1].(Iface).v.(*Str)
			if ln || (!s1 && !s0) {
				out = append(out, in.tt.Const(8, ' '))
			}
		}
		out = append(out, in.strBytes(s)...)
	}
	if ln {
		out = append(out, in.tt.Const(8, '\n'))
	}
	return mkStr(out)
}

func (in *Interp) errorf(fr *Frame, f *Str, args []Value) Value {
	var wrapped []Iface
	if f.b == nil {
		ai := 0
		for i := 0; i < len(f.s); i++ {
			if f.s[i] == '%' && i+1 < len(f.s) {
				j := i + 1
				for j < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[j]) >= 0 {
					j++
				}
				if j >= len(f.s) {
					break
				}
				if f.s[j] != '%' {
					if f.s[j] == 'w' && ai < len(args) {
						if w, ok := args[ai].(Iface); ok && w.t != nil {
							wrapped = append(wrapped, w)
						}
					}
					ai++
				}
				i = j
			}
		}
	}
	msg := in.sprintf(fr, f, args)
	p := new(Value)
	if len(wrapped) >= 1 {
		*p = Struct{msg, wrapped[0]}
		t := in.sh.prog.ImportedPackage("fmt").Type("wrapError").Type()
		if len(wrapped) > 1 {
			s := Slice{}
			for _, w := range wrapped {
				s = append(s, w)
			}
			*p = Struct{msg, s}
			t = in.sh.prog.ImportedPackage("fmt").Type("wrapErrors").Type()
		}
		return Iface{t: in.ptrTo(t), v: p}
	}
	*p = Struct{msg}
	return Iface{t: in.ptrTo(in.sh.prog.ImportedPackage("errors").Type("errorString").Type()), v: p}
}

func (in *Interp) ptrTo(t types.Type) types.Type {
	if p, ok := in.ptrs[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	in.ptrs[t] = p
	return p
}

func (in *Interp) unwrap(fr *Frame, e Iface) []Iface {
	fn := in.methodByName(e.t, "Unwrap")
	if fn == nil {
		return nil
	}
	switch r := in.callFn(fr, fn, []Value{e.v}, nil).(type) {
	case Iface:
		if r.t != nil {
			return []Iface{r}
		}
	case Slice:
		var out []Iface
		for _, x := range r {
			if i := x.(Iface); i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (in *Interp) errorsIs(fr *Frame, e, target Iface) *Term {
	if e.t == nil || target.t == nil {
		return in.tt.Bool(e.t == nil && target.t == nil)
	}
	if in.sameType(e.t, target.t) && types.Comparable(e.t) {
		if in.decide(in.eq(e.v, target.v)) {
			return in.tt.True
		}
	}
	if fn := in.methodByName(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
		if r, ok := in.callFn(fr, fn, []Value{e.v, target}, nil).(*Term); ok && in.decide(r) {
			return in.tt.True
		}
	}
	for _, u := range in.unwrap(fr, e) {
		if r := in.errorsIs(fr, u, target); r.isTrue() {
			return r
		}
	}
	return in.tt.False
}

func (in *Interp) errorsAs(fr *Frame, e, target Iface) *Term {
	if e.t == nil {
		return in.tt.False
	}
	et := target.t.Underlying().(*types.Pointer).Elem()
	ok := false
	var v Value
	if it, isI := et.Underlying().(*types.Interface); isI {
		if in.implements(e.t, it) {
			ok, v = true, e
		}
	} else if in.sameType(e.t, et) {
		ok, v = true, e.v
	}
	if ok {
		in.store(target.v, v)
		return in.tt.True
	}
	for _, u := range in.unwrap(fr, e) {
		if r := in.errorsAs(fr, u, target); r.isTrue() {
			return r
		}
	}
	return in.tt.False
}

// stubFor returns a replacement for functions outside the code under test
// that are matched by package rather than by name.
func (in *Interp) stubFor(fn *ssa.Function, name string) intrinsic {
	return nil
}

var _ = bytes.Equal
