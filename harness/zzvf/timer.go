package zzvf

import "time"

// Timer is the virtual timer behind vtime.
type Timer struct {
	C    chan time.Time
	F    func()
	when time.Time
	live bool
	due  chan struct{}
	done chan struct{}
}

func newTimer(d time.Duration, f func()) *Timer {
	mu.Lock()
	defer mu.Unlock()
	t := &Timer{C: make(chan time.Time, 1), F: f, live: true, when: time.Unix(sec, nsec).Add(d)}
	t.arm()
	vtimers = append(vtimers, t)
	return t
}

// NewTimer creates a virtual timer.
func NewTimer(d time.Duration, f func()) *Timer { return newTimer(d, f) }

func (t *Timer) Stop() bool {
	mu.Lock()
	defer mu.Unlock()
	was := t.live
	t.live = false
	select {
	case <-t.C:
		was = true
	default:
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	mu.Lock()
	defer mu.Unlock()
	t.live = true
	t.arm()
	t.when = time.Unix(sec, nsec).Add(d)
	return was
}

// arm starts what the timer does when it fires; it waits for that in a way
// hidden from the race detector, so that only what set the timer is ordered
// before it and not what fired it.
func (t *Timer) arm() {
	due, done := make(chan struct{}), make(chan struct{})
	t.due, t.done = due, done
	go func() {
		quietWait(due)
		if t.F != nil {
			quietClose(done)
			t.F()
			return
		}
		select {
		case t.C <- time.Unix(sec, nsec):
		default:
		}
		quietClose(done)
	}()
}

func (t *Timer) fire() {
	quietClose(t.due)
	quietWait(t.done)
}

// FireTimers fires every pending timer and wakes every sleeper.
func FireTimers() {
	mu.Lock()
	defer mu.Unlock()
	for _, t := range vtimers {
		if t.live {
			t.live = false
			t.fire()
		}
	}
	for _, s := range sleepers {
		quietClose(s.c)
	}
	sleepers = nil
}

// FireDue fires the timers and wakes the sleepers whose time has come.
func FireDue() {
	mu.Lock()
	defer mu.Unlock()
	now := time.Unix(sec, nsec)
	for _, t := range vtimers {
		if t.live && !now.Before(t.when) {
			t.live = false
			t.fire()
		}
	}
	var left []sleeper
	for _, s := range sleepers {
		if now.Before(s.when) {
			left = append(left, s)
		} else {
			quietClose(s.c)
		}
	}
	sleepers = left
}

// FireIdle fires the earliest pending timer, as happens when nothing else can
// run.
func FireIdle() bool {
	mu.Lock()
	defer mu.Unlock()
	var best *Timer
	for _, t := range vtimers {
		if t.live && (best == nil || t.when.Before(best.when)) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if now := time.Unix(sec, nsec); now.Before(best.when) {
		sec, nsec = best.when.Unix(), int64(best.when.Nanosecond())
	}
	best.live = false
	best.fire()
	return true
}

type sleeper struct {
	c    chan struct{}
	when time.Time
}

// Sleep blocks until FireTimers or FireDue.
func Sleep(d time.Duration) {
	c := make(chan struct{})
	mu.Lock()
	sleepers = append(sleepers, sleeper{c, time.Unix(sec, nsec).Add(d)})
	mu.Unlock()
	Gate("sleep")
	quietWait(c)
	Gate("sleep+")
}

var randN int

func SetRandN(n int) {
	mu.Lock()
	defer mu.Unlock()
	randN = n
}

// RandN tells how many values there were to choose from at the last random
// choice, 0 if there was none since the last call.
func RandN() int {
	mu.Lock()
	defer mu.Unlock()
	n := randN
	randN = 0
	return n
}

// Pack gives the modelled JSON text of a value. Symbolic only.
func Pack(v any) []byte { panic("zzvf.Pack: symbolic only") }

// Unpack reads the text back into a pointer. Symbolic only.
func Unpack(b []byte, v any) bool { panic("zzvf.Unpack: symbolic only") }
