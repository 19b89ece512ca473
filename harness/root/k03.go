package rdns

import (
	"encoding/binary"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/folbricht/routedns/zzvf"
	"golang.org/x/sys/unix"
)

// vfNamespaces stands for the directory of namespaces and what the system
// reports about changes of it.
type vfNamespaces struct {
	there  map[string]bool
	events chan []byte
}

func newVFNamespaces(there ...string) *vfNamespaces {
	nsWatcherOnce = sync.Once{}
	d := &vfNamespaces{there: make(map[string]bool), events: make(chan []byte, 64)}
	for _, n := range there {
		d.there[n] = true
	}
	zzvf.Env("golang.org/x/sys/unix.InotifyInit1", func(flags int) (int, error) { return 7, nil })
	zzvf.Env("golang.org/x/sys/unix.InotifyAddWatch", func(fd int, path string, mask uint32) (int, error) { return 1, nil })
	zzvf.Env("golang.org/x/sys/unix.Read", func(fd int, b []byte) (int, error) {
		e, ok := <-d.events
		if !ok {
			return 0, unix.EBADF
		}
		return copy(b, e), nil
	})
	zzvf.Env("os.Stat", func(name string) (os.FileInfo, error) {
		zzvf.Yield()
		if d.there[filepath.Base(name)] {
			return nil, nil
		}
		return nil, os.ErrNotExist
	})
	return d
}

// event encodes one report.
func (d *vfNamespaces) event(name string, mask uint32) []byte {
	n := (len(name) + 16) &^ 15
	b := make([]byte, 16+n)
	binary.LittleEndian.PutUint32(b, 1)
	binary.LittleEndian.PutUint32(b[4:], mask)
	binary.LittleEndian.PutUint32(b[12:], uint32(n))
	copy(b[16:], name)
	return b
}

// change creates or removes a namespace and returns the report.
func (d *vfNamespaces) change(name string, moved bool) []byte {
	mask := uint32(unix.IN_CREATE)
	if moved {
		mask = unix.IN_MOVED_TO
	}
	if d.there[name] {
		mask = unix.IN_DELETE
		if moved {
			mask = unix.IN_MOVED_FROM
		}
	}
	d.there[name] = !d.there[name]
	return d.event(name, mask)
}

// A namespace watched from before or during up to 3 changes of it or of
// another one (created, removed, renamed; reported one by one or together),
// all interleavings up to 2 preemptions.
func VF_K03_watch() {
	var d *vfNamespaces
	if zzvf.Choose("there", 2) == 1 {
		d = newVFNamespaces("ns1")
	} else {
		d = newVFNamespaces()
	}
	zzvf.DeadlockOK()
	// the directory is watched already
	_, cancel, err := SubscribeNetNS("ns0")
	zzvf.Assert(err == nil, "namespaces can be watched")
	cancel()
	zzvf.Settle()
	n := zzvf.Choose("changes", 3) + 1
	together := zzvf.Choose("together", 2) == 1
	var what []int
	for i := 0; i < n; i++ {
		what = append(what, zzvf.Choose("what", 3))
	}
	done := make(chan bool)
	go func() {
		var all []byte
		for _, w := range what {
			e := d.change([]string{"ns1", "ns1", "ns2"}[w], w == 1)
			if together {
				all = append(all, e...)
			} else {
				d.events <- e
			}
		}
		if together {
			d.events <- all
		}
		close(done)
	}()
	events, _, err := SubscribeNetNS("ns1")
	zzvf.Assert(err == nil, "namespaces can be watched")
	<-done
	zzvf.Settle()
	vfLast(d, events, false)
	zzvf.Cover("done")
}

// vfLast reads the states reported and checks that the last is current.
func vfLast(d *vfNamespaces, events <-chan NetNSState, flooded bool) {
	last := NetNSState(-1)
	for len(events) > 0 {
		s := <-events
		zzvf.Assert(s != last, "only changes are reported")
		last = s
	}
	zzvf.AssertKnown((last == NetNSPresent) == d.there["ns1"] && last >= 0, "the last state reported is the current one", flooded, "netns-overflow")
}

// Up to 18 changes of a namespace that are reported before the first is read.
func VF_K03_flood() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	zzvf.DeadlockOK()
	d := newVFNamespaces()
	events, _, err := SubscribeNetNS("ns1")
	zzvf.Assert(err == nil, "namespaces can be watched")
	n := zzvf.Choose("changes", 19)
	for i := 0; i < n; i++ {
		d.events <- d.change("ns1", false)
	}
	zzvf.Settle()
	vfLast(d, events, n > 15)
}

// Waiting for a namespace that becomes usable, disappears or fails to be
// readable after any number of 0 to 4 checks.
func VF_K03_ready() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	n := zzvf.Choose("checks", 5)
	end := zzvf.Choose("end", 3)
	k := 0
	zzvf.Env("golang.org/x/sys/unix.Statfs", func(path string, st *unix.Statfs_t) error {
		zzvf.Assert(path == "/var/run/netns/ns1", "the namespace is looked at")
		k++
		if k <= n {
			if zzvf.Choose("early", 2) == 1 {
				return unix.EACCES
			}
			st.Type = 0x01021994
			return nil
		}
		switch end {
		case 0:
			st.Type = unix.NSFS_MAGIC
			return nil
		case 1:
			return unix.ENOENT
		}
		zzvf.AdvanceNano(int64(time.Second))
		return unix.EACCES
	})
	var err error
	over := false
	zzvf.Go(func() {
		err = WaitNetNSReady("ns1", time.Second)
		over = true
	})
	for i := 0; i < 2*n+4; i++ {
		zzvf.Settle()
		zzvf.AdvanceNano(int64(10 * time.Millisecond))
		zzvf.FireDue()
	}
	zzvf.Settle()
	zzvf.Assert(over, "waiting ends")
	zzvf.Assert((err == nil) == (end == 0), "waiting ends well exactly when the namespace is usable")
	zzvf.Assert(end == 2 || k == n+1, "waiting goes on until then")
}
