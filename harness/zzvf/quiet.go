package zzvf

import (
	"sync"
	"sync/atomic"
)

// The replay's own synchronisation is hidden from the race detector, it must
// not order the operations of the code under test.

type quietMutex struct{ m sync.Mutex }

func (m *quietMutex) Lock() {
	raceOff()
	m.m.Lock()
	raceOn()
}

func (m *quietMutex) Unlock() {
	raceOff()
	m.m.Unlock()
	raceOn()
}

type quietBool struct{ v atomic.Bool }

func (b *quietBool) Load() bool {
	raceOff()
	defer raceOn()
	return b.v.Load()
}

func (b *quietBool) Store(v bool) {
	raceOff()
	b.v.Store(v)
	raceOn()
}

func quietClose(c chan struct{}) {
	raceOff()
	close(c)
	raceOn()
}

func quietWait(c chan struct{}) {
	raceOff()
	<-c
	raceOn()
}
