package rdns

import (
	"io"
	"net"
	"time"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfWire is one end of a connection held in memory.
type vfWire struct {
	srv    *vfServerSide
	in     chan []byte
	gone   chan struct{} // ended by the server
	closed chan struct{} // closed by the client
	shut   bool
	ended  bool
	rest   []byte
}

func (c *vfWire) Read(b []byte) (int, error) {
	if len(c.rest) == 0 {
		select {
		case m := <-c.in:
			c.rest = append([]byte{byte(len(m) >> 8), byte(len(m))}, m...)
		case <-c.gone:
			return 0, io.EOF
		case <-c.closed:
			return 0, net.ErrClosed
		}
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *vfWire) Write(b []byte) (int, error) {
	if c.shut {
		return 0, net.ErrClosed
	}
	if err := c.srv.receive(c, b[2:]); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (c *vfWire) Close() error {
	if !c.shut {
		c.shut = true
		close(c.closed)
	}
	return nil
}

func (c *vfWire) end() {
	if !c.ended {
		c.ended = true
		close(c.gone)
	}
}

func (c *vfWire) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *vfWire) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *vfWire) SetDeadline(t time.Time) error      { return nil }
func (c *vfWire) SetReadDeadline(t time.Time) error  { return nil }
func (c *vfWire) SetWriteDeadline(t time.Time) error { return nil }

// vfServerSide is an upstream that treats each query as told: 0 answers at once,
// 1 answers when released, 2 never answers, 3 ends the connection, 4 fails the
// write, 5 answers with an unknown ID first, 6 answers twice.
type vfServerSide struct {
	plan    []int
	n       int
	open    map[uint16]byte // wire ID to the query waiting for its reply
	replied map[byte]bool
	lost    map[byte]bool // was on a connection that ended
	busy    func(byte) bool
	held    []func()
	dials   int
	refuse  int // dials that fail
	last    *vfWire
}

func (s *vfServerSide) Dial(string) (*dns.Conn, error) {
	s.dials++
	if s.dials <= s.refuse {
		return nil, errVF
	}
	s.open = map[uint16]byte{}
	s.last = &vfWire{srv: s, in: make(chan []byte, 16), gone: make(chan struct{}), closed: make(chan struct{})}
	return &dns.Conn{Conn: s.last}, nil
}

func (s *vfServerSide) lose() {
	for _, w := range s.open {
		s.lost[w] = true
	}
}

func (s *vfServerSide) receive(c *vfWire, wire []byte) error {
	id := uint16(wire[0])<<8 | uint16(wire[1])
	who := wire[13]
	for k, w := range s.open {
		zzvf.Assert(k != id || !s.busy(w), "queries in flight have distinct IDs")
	}
	s.open[id] = who
	what := 0
	if s.n < len(s.plan) {
		what = s.plan[s.n]
	}
	s.n++
	reply := append([]byte(nil), wire...)
	reply[2] |= 0x80
	send := func() {
		delete(s.open, id)
		s.replied[who] = true
		c.in <- reply
	}
	switch what {
	case 0:
		send()
	case 1:
		s.held = append(s.held, send)
	case 3:
		s.lose()
		c.end()
	case 4:
		s.lose()
		return errVF
	case 5:
		other := append([]byte(nil), reply...)
		other[0] ^= 1
		c.in <- other
		send()
	case 6:
		send()
		c.in <- append([]byte(nil), reply...)
	}
	return nil
}

type vfCall struct {
	q    *dns.Msg
	a    *dns.Msg
	err  error
	done int
}

// vfIDs picks wire IDs that are new except that one repeats the ID before it.
func vfIDs() func() {
	n, repeated := 0, false
	old := dns.Id
	dns.Id = func() uint16 {
		if n > 0 && !repeated && zzvf.Choose("repeat", 2) == 1 {
			repeated = true
			return uint16(2 * n)
		}
		n++
		return uint16(2 * n)
	}
	return func() { dns.Id = old }
}

// vfAnyIDs picks arbitrary wire IDs, a bounded number of them.
func vfAnyIDs(calls int) func() {
	n := 0
	old := dns.Id
	dns.Id = func() uint16 {
		n++
		zzvf.Assume(n <= calls)
		return zzvf.U16("wireid")
	}
	return func() { dns.Id = old }
}

// check verifies the result of a call.
func (c *vfCall) check(s *vfServerSide, calm bool) {
	zzvf.Assert(c.done == 1, "every query is completed once")
	who := c.q.Question[0].Name[0]
	if c.err == nil {
		zzvf.Assert(c.a != nil && c.a.Id == c.q.Id, "a reply carries the ID of the query")
		zzvf.Assert(len(c.a.Question) == 1 && c.a.Question[0] == c.q.Question[0], "a reply answers the query")
		zzvf.Assert(s.replied[who], "a query is completed by the reply bearing its wire ID")
	} else {
		zzvf.Assert(c.a == nil, "a failed query has no reply")
		zzvf.Assert(!calm, "a query fails only when it times out or the connection is lost")
	}
}

func vfPipe(s *vfServerSide, callers int, plan []int) (*Pipeline, []*vfCall) {
	s.plan = plan
	s.open = map[uint16]byte{}
	s.replied = map[byte]bool{}
	s.lost = map[byte]bool{}
	var calls []*vfCall
	for i := 0; i < callers; i++ {
		q := vfQueryOf(string(rune('a'+i))+".", dns.TypeA)
		calls = append(calls, &vfCall{q: q})
	}
	s.busy = func(who byte) bool {
		for _, c := range calls {
			if c.q.Question[0].Name[0] == who {
				return c.done == 0
			}
		}
		return false
	}
	return NewPipeline("p", "192.0.2.1:53", s, 0), calls
}

// vfPipelined runs two concurrent queries and a third one after them.
func vfPipelined(refuse, p0, p1 int, early bool) {
	s := &vfServerSide{refuse: refuse}
	p, calls := vfPipe(s, 3, []int{p0, p1})
	for _, c := range calls[:2] {
		zzvf.Go(func() {
			c.a, c.err = p.Resolve(c.q)
			c.done++
		})
	}
	if early {
		zzvf.FireTimers()
	}
	zzvf.Settle()
	for _, c := range calls[:2] {
		zzvf.Assert(c.done == 1 || !s.lost[c.q.Question[0].Name[0]], "a lost connection leaves no query waiting")
	}
	if len(s.held) == 2 && zzvf.Choose("reverse", 2) == 1 {
		s.held[0], s.held[1] = s.held[1], s.held[0]
	}
	for _, f := range s.held {
		f()
	}
	zzvf.Settle()
	zzvf.FireTimers()
	zzvf.Settle()
	harmless := func(k int) bool { return k == 0 || k == 1 || k == 5 }
	calm := !early && refuse == 0 && harmless(p0) && harmless(p1)
	for _, c := range calls[:2] {
		c.check(s, calm)
		if c.err == nil {
			zzvf.Cover("answered")
		} else {
			zzvf.Cover("failed")
		}
	}
	// the client goes on working
	c := calls[2]
	s.plan, s.refuse = nil, 0
	c.a, c.err = p.Resolve(c.q)
	c.done++
	c.check(s, true)
	zzvf.Settle()
	if vfInFlight != nil {
		zzvf.Assert(vfInFlight(p) == 0, "no query is counted as in flight once all are completed")
	}
}

// vfInFlight counts the queries in flight, when the state is known.
var vfInFlight func(*Pipeline) int

// Two concurrent queries with arbitrary IDs over one connection, wire IDs with up
// to one repetition, each query answered at once, when released in order or
// reverse, never, after a bogus reply, twice, or ended by the server's close or a
// failed write; then a third query. Schedules within 1 preemption and 1 (thorough:
// 2) delays of round robin.
func VF_Q02_faults() {
	zzvf.Preempt(1)
	zzvf.Delays(1 + zzvf.Tier())
	defer vfIDs()()
	vfPipelined(0, zzvf.Choose("plan0", 7), zzvf.Choose("plan1", 7), false)
}

// Two concurrent queries answered at once or when released, whose timeouts may
// fire at any moment, optionally after a failed dial; then a third query. Schedules
// within 1 preemption and 1 (thorough: 2) delays of round robin.
func VF_Q02_timeouts() {
	zzvf.Preempt(1)
	zzvf.Delays(1 + zzvf.Tier())
	defer vfIDs()()
	vfPipelined(zzvf.Choose("refuse", 2), zzvf.Choose("plan0", 2), zzvf.Choose("plan1", 2), true)
}

// Two concurrent queries answered at once over a working connection, wire IDs
// arbitrary with up to one repetition. Schedules within 2 (thorough: 3) preemptions and 1 delay of round robin.
func VF_Q02_schedule() {
	zzvf.Preempt(2 + zzvf.Tier())
	zzvf.Delays(1)
	defer vfAnyIDs(4)()
	vfPipelined(0, 0, 0, false)
}
