package zzvf

import (
	"bytes"
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// The operations of a replay follow the order found by the engine: every
// synchronisation operation of the repository and the harness is preceded (and
// followed, if it can block) by a call of Gate that returns when it is its turn.
var gate struct {
	quietMutex
	on      quietBool
	order   []string
	pos     int
	ids     map[uint64]int
	tickets int
	exited  map[int]bool
	busy    int
	blocks  bool
	since   time.Time
	strayed string
	epoch   int
}

// Order installs the order of operations of one replay.
func Order(o []string) {
	g := &gate
	g.Lock()
	defer g.Unlock()
	g.epoch++
	g.order, g.pos = o, 0
	g.ids = map[uint64]int{goid(): 0}
	g.exited = map[int]bool{}
	g.tickets, g.busy, g.blocks, g.strayed = 0, -1, false, ""
	g.since = time.Now()
	g.on.Store(len(o) > 0)
	if len(o) > 0 {
		go timers(g.epoch)
	}
}

// Strayed tells how a replay left the given order, if it did.
func Strayed() string {
	gate.Lock()
	defer gate.Unlock()
	return gate.strayed
}

// OnFail is called when an assertion fails outside the main goroutine.
var OnFail func(Failure)

func goid() uint64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.ParseUint(string(f[1]), 10, 64)
	return n
}

// free tells whether the goroutine that moved last has stopped again.
func free(id int) bool {
	g := &gate
	if g.busy == -1 || g.busy == id || g.exited[g.busy] {
		return true
	}
	d := time.Since(g.since)
	return g.blocks && d > 4*time.Millisecond || d > 150*time.Millisecond
}

func timers(epoch int) {
	g := &gate
	for {
		g.Lock()
		if g.epoch != epoch || !g.on.Load() {
			g.Unlock()
			return
		}
		if g.pos < len(g.order) && g.order[g.pos] == "timer" && g.tickets > 0 && free(-2) {
			g.pos++
			g.busy, g.since = -1, time.Now()
			FireIdle()
		}
		g.Unlock()
		time.Sleep(200 * time.Microsecond)
	}
}

func stray(format string, a ...any) {
	if gate.strayed == "" {
		gate.strayed = fmt.Sprintf(format, a...)
	}
	gate.on.Store(false)
}

// Gate waits for the turn of an operation.
func Gate(op string) {
	g := &gate
	if !g.on.Load() {
		return
	}
	g.Lock()
	defer g.Unlock()
	id, ok := g.ids[goid()]
	if !ok || g.tickets == 0 {
		return
	}
	if g.busy == id {
		g.busy = -1
	}
	epoch := g.epoch
	want := fmt.Sprintf("%d:%s", id, op)
	mine := fmt.Sprintf("%d:", id)
	for g.on.Load() && g.epoch == epoch {
		idle := time.Since(g.since)
		if g.pos >= len(g.order) {
			// the goroutine that moved last goes on to the assertion
			if g.busy == -1 || g.busy == id || idle > 300*time.Millisecond {
				if g.busy == id || idle > 100*time.Millisecond {
					g.on.Store(false)
				}
			}
		} else if head := g.order[g.pos]; head == want {
			if free(id) {
				g.pos++
				g.busy, g.since = id, time.Now()
				switch op {
				case "send", "recv", "select", "once", "sleep":
					g.blocks = true
				default:
					g.blocks = false
				}
				return
			}
		} else if strings.HasPrefix(head, mine) {
			stray("goroutine %d at %s where the order has %s", id, op, head)
		} else if idle > 3*time.Second {
			stray("no progress: goroutine %d at %s where the order has %s", id, op, head)
		}
		g.Unlock()
		time.Sleep(50 * time.Microsecond)
		g.Lock()
	}
}

// Wrap numbers a goroutine about to be started with f.
func Wrap[F any](f F) F {
	g := &gate
	g.Lock()
	g.tickets++
	id, epoch := g.tickets, g.epoch
	g.Unlock()
	v := reflect.ValueOf(f)
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		g.Lock()
		me := goid()
		if g.epoch == epoch {
			g.ids[me] = id
		}
		g.Unlock()
		defer func() {
			g.Lock()
			if g.epoch == epoch {
				delete(g.ids, me)
				g.exited[id] = true
			}
			g.Unlock()
			if r := recover(); r != nil {
				if x, ok := r.(Failure); ok && OnFail != nil {
					OnFail(x)
				}
				panic(r)
			}
		}()
		Gate("start")
		if v.Type().IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	}).Interface().(F)
}

// Go starts a goroutine.
func Go(f func()) {
	go Wrap(f)()
	Gate("go")
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	Gate("recv")
	v := <-c
	Gate("recv+")
	return v
}

// Recv2 is the form of <-c with a second result.
func Recv2[T any](c <-chan T) (T, bool) {
	Gate("recv")
	v, ok := <-c
	Gate("recv+")
	return v, ok
}

// SendTo(c)(v) is c <- v.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		Gate("send")
		c <- v
		Gate("send+")
	}
}

// Close is close(c).
func Close[T any](c chan<- T) {
	Gate("close")
	close(c)
}

// Range is the sequence of a range clause over c.
func Range[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Settle lets the other goroutines run until they block or end.
func Settle() {
	if gate.on.Load() {
		Gate("settle")
		time.Sleep(3 * time.Millisecond)
		return
	}
	time.Sleep(20 * time.Millisecond)
}

// Yield is a possible context switch.
func Yield() { Gate("yield") }
