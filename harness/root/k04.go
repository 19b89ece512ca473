package rdns

import (
	"context"
	"errors"
	"net"
	"os"
	"strings"

	"github.com/folbricht/routedns/zzvf"
)

// vfThread stands for the thread that runs the code: the namespace it is in
// and whether other code may come to run on it.
type vfThread struct {
	in     string
	locked int
	open   int
	fault  bool
}

var (
	errNS  = errors.New("namespace error")
	errNS2 = errors.New("socket error")
)

// newVFThread makes the system calls act on the thread, with any of them
// failing.
func newVFThread() *vfThread {
	t := &vfThread{in: "own"}
	// the main thread may be in another namespace for the moment
	mainAway := zzvf.Choose("main", 2) == 1
	names := make(map[*os.File]string)
	fails := func(what string) bool {
		if zzvf.Choose(what, 2) == 1 {
			t.fault = true
			return true
		}
		return false
	}
	zzvf.Env("runtime.LockOSThread", func() { t.locked++ })
	zzvf.Env("runtime.UnlockOSThread", func() {
		t.locked--
		zzvf.Assert(t.locked > 0 || t.in == "own", "a thread in another namespace is not used for anything else")
	})
	zzvf.Env("os.Open", func(name string) (*os.File, error) {
		if fails("open") {
			return nil, errNS
		}
		f := new(os.File)
		names[f] = name
		t.open++
		return f, nil
	})
	zzvf.Env("(*os.File).Close", func(f *os.File) error {
		t.open--
		delete(names, f)
		return nil
	})
	zzvf.Env("(*os.File).Fd", func(f *os.File) uintptr {
		switch n := names[f]; {
		case n == "/var/run/netns/ns1", n == "/run/x":
			return 11
		case n == "/proc/self/ns/net" && mainAway:
			return 13
		case strings.HasPrefix(n, "/proc/") && strings.HasSuffix(n, "/ns/net"):
			return 12
		}
		return 13
	})
	zzvf.Env("golang.org/x/sys/unix.Setns", func(fd int, kind int) error {
		zzvf.Assert(t.locked > 0, "the namespace is switched on a thread of its own")
		if fails("setns") {
			return errNS
		}
		switch fd {
		case 11:
			t.in = "ns1"
		case 12:
			t.in = "own"
		default:
			t.in = "?"
		}
		return nil
	})
	return t
}

// over checks what is left behind.
func (t *vfThread) over() {
	zzvf.Assert(t.open == 0, "no files are left open")
	zzvf.Assert(t.in == "own" || t.locked > 0, "the thread is back in its namespace or given up")
}

// Code run in no namespace, one given by name or one given by path, every
// system call failing or not, the main thread in the same namespace or not, the code failing, panicking or not.
func VF_K04_run() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	t := newVFThread()
	ns := []*NetNS{nil, {}, {Name: "ns1"}, {Name: "/run/x"}}[zzvf.Choose("ns", 4)]
	want := "own"
	if ns != nil && ns.Name != "" {
		want = "ns1"
	}
	end := zzvf.Choose("end", 3)
	ran := 0
	var err error
	func() {
		defer func() {
			r := recover()
			if r != nil && r != any("end") {
				panic(r)
			}
			zzvf.Assert((r != nil) == (end == 2 && ran == 1), "only the code itself panics")
		}()
		err = RunInNetNS(ns, func() error {
			ran++
			zzvf.Assert(t.in == want && (t.locked > 0 || want == "own"), "the code runs in the namespace")
			switch end {
			case 1:
				return errNS2
			case 2:
				panic("end")
			}
			return nil
		})
	}()
	t.over()
	zzvf.Assert(ran <= 1, "the code runs once at most")
	if ran == 0 {
		zzvf.Assert(t.fault && err != nil, "when the namespace cannot be entered, that is reported")
		zzvf.Cover("not")
	} else if end == 1 {
		zzvf.Assert(errors.Is(err, errNS2), "the code's failure is reported")
		zzvf.Cover("failed")
	} else if end == 0 && !t.fault {
		zzvf.Assert(err == nil, "success is reported")
		zzvf.Cover("ran")
	}
}

// Sockets of each kind opened for a listener or client in a namespace.
func VF_K04_sockets() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	t := newVFThread()
	ns := []*NetNS{nil, {Name: "ns1"}}[zzvf.Choose("ns", 2)]
	want := "own"
	if ns != nil {
		want = "ns1"
	}
	opened := ""
	use := func(what string) error {
		zzvf.Assert(t.in == want, "sockets are opened in the namespace")
		opened = what
		return errNS2
	}
	zzvf.Env("(*net.ListenConfig).Listen", func(c *net.ListenConfig, ctx context.Context, network, address string) (net.Listener, error) {
		return nil, use("listen " + network + " " + address)
	})
	zzvf.Env("(*net.ListenConfig).ListenPacket", func(c *net.ListenConfig, ctx context.Context, network, address string) (net.PacketConn, error) {
		return nil, use("packet " + network + " " + address)
	})
	zzvf.Env("(*net.Dialer).Dial", func(d *net.Dialer, network, address string) (net.Conn, error) {
		return nil, use("dial " + network + " " + address)
	})
	exp := ""
	var err error
	switch zzvf.Choose("kind", 4) {
	case 0:
		exp = "listen tcp 192.0.2.1:53"
		_, err = ListenInNetNS(context.Background(), ns, "tcp", "192.0.2.1:53", SocketOptions{})
	case 1:
		exp = "packet udp 192.0.2.1:53"
		_, err = ListenPacketInNetNS(context.Background(), ns, "udp", "192.0.2.1:53", SocketOptions{})
	case 2:
		exp = "packet udp 192.0.2.1:53"
		_, err = ListenUDPInNetNS(context.Background(), ns, "udp", &net.UDPAddr{IP: net.IP{192, 0, 2, 1}, Port: 53}, SocketOptions{})
	case 3:
		exp = "dial tcp 192.0.2.1:53"
		_, err = DialInNetNS(ns, "tcp", "192.0.2.1:53", &net.Dialer{})
	}
	t.over()
	zzvf.Assert(err != nil, "the failure is reported")
	zzvf.Assert(opened == exp || opened == "" && t.fault, "the socket asked for is opened")
	zzvf.Cover("done")
}
