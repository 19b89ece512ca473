package main

import (
	"errors"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/zzvf"
)

// vfListener is a listener which may fail to start, and which cannot be
// stopped before it serves.
type vfListener struct {
	w      *vfHost
	fails  bool
	quit   chan bool
	serves bool
	over   bool
}

// vfHost counts the listeners that run.
type vfHost struct {
	running int
	most    int
	started int
	current *vfListener
}

func (l *vfListener) String() string { return "l" }
func (l *vfListener) Start() error {
	zzvf.Yield()
	if l.fails {
		return errors.New("address in use")
	}
	l.serves = true
	l.w.current = l
	l.w.running++
	l.w.started++
	l.w.most = max(l.w.most, l.w.running)
	<-l.quit
	l.serves = false
	l.w.running--
	return errors.New("stopped")
}
func (l *vfListener) Stop() error {
	if !l.serves || l.over {
		return errors.New("server not started")
	}
	l.over = true
	close(l.quit)
	return nil
}

// A supervisor that is told of up to 4 changes of its namespace (5 in the
// thorough tier), with listeners that fail to be made, fail to start, or end
// by themselves in between; all interleavings up to 1 preemption (2 in the thorough tier).
func VF_K03_supervisor() {
	zzvf.Preempt(1 + zzvf.Tier())
	zzvf.Delays(1)
	zzvf.DeadlockOK()
	w := new(vfHost)
	n := 4
	if zzvf.Tier() > 0 {
		n = 5
	}
	faults := 2
	events := make(chan rdns.NetNSState, 16)
	over := make(chan bool)
	waitNetNSReady = func(string, time.Duration) error {
		if faults > 0 && zzvf.Choose("ready", 2) == 1 {
			faults--
			return errors.New("not mounted")
		}
		return nil
	}
	present := false
	zzvf.Go(func() {
		runNetNSSupervisor("l", "ns1", events, func() (rdns.Listener, error) {
			fault := 0
			if faults > 0 {
				fault = zzvf.Choose("fault", 3)
			}
			if fault > 0 {
				faults--
			}
			if fault == 1 {
				return nil, errors.New("cannot bind")
			}
			return &vfListener{w: w, fails: fault == 2, quit: make(chan bool)}, nil
		})
		close(over)
	})
	rest := func() {
		for i := 0; i < 4; i++ {
			zzvf.Settle()
			zzvf.AdvanceNano(int64(time.Second))
			zzvf.FireDue()
		}
		zzvf.Settle()
	}
	for i := 0; i < n; i++ {
		switch zzvf.Choose("next", 3) {
		case 0:
			present = !present
			if present {
				events <- rdns.NetNSPresent
			} else {
				events <- rdns.NetNSAbsent
			}
		case 1:
			rest()
			want := 0
			if present {
				want = 1
			}
			zzvf.Assert(w.running == want, "the listener runs exactly while the namespace is present")
			zzvf.Cover("rest")
		case 2:
			if l := w.current; l != nil && !l.over {
				l.over = true
				close(l.quit)
			}
		}
	}
	rest()
	want := 0
	if present {
		want = 1
	}
	zzvf.Assert(w.running == want, "in the end the listener runs exactly if the namespace is present")
	zzvf.Assert(w.most <= 1, "there is never more than one listener")
	close(events)
	zzvf.Settle()
	<-over
	zzvf.Cover("done")
}
