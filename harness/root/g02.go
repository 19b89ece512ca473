package rdns

import (
	"time"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfTurn is a group member that fails when told to.
type vfTurn struct {
	id    string
	fails bool
	slow  bool // takes a second
	log   *[]*vfTurn
}

func (m *vfTurn) String() string { return m.id }
func (m *vfTurn) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
	*m.log = append(*m.log, m)
	if m.slow {
		zzvf.Advance(1)
		zzvf.FireDue()
		zzvf.Yield()
	}
	if m.fails {
		return nil, errVF
	}
	a := new(dns.Msg)
	a.SetReply(q)
	return a, nil
}

func vfTurns(n int) ([]*vfTurn, []Resolver, *[]*vfTurn) {
	log := new([]*vfTurn)
	var ts []*vfTurn
	var rs []Resolver
	for i := 0; i < n; i++ {
		t := &vfTurn{id: string(rune('a' + i)), log: log}
		ts = append(ts, t)
		rs = append(rs, t)
	}
	return ts, rs, log
}

// Round-robin group of 1 to 3 members, some failing: a query, two concurrent
// ones (thorough: three), two more; every interleaving with two preemptions.
func VF_G02_roundrobin() {
	n := 1 + zzvf.Choose("members", 3)
	ts, rs, log := vfTurns(n)
	g := NewRoundRobin("g", rs...)
	for _, t := range ts {
		t.fails = zzvf.Bool(t.id + ".fails")
	}
	next := 0
	one := func() {
		*log = nil
		g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
		zzvf.Assert(len(*log) == 1 && (*log)[0] == ts[next%n], "members are asked in turn")
		next++
	}
	one()
	*log = nil
	k := 2 + zzvf.Tier()
	for i := 0; i < k; i++ {
		zzvf.Go(func() { g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{}) })
	}
	zzvf.Settle()
	zzvf.Assert(len(*log) == k, "each query asks one member")
	for i, t := range ts {
		want, got := 0, 0
		for j := next; j < next+k; j++ {
			if j%n == i {
				want++
			}
		}
		for _, m := range *log {
			if m == t {
				got++
			}
		}
		zzvf.Assert(got == want, "concurrent queries ask the next members")
	}
	next += k
	one()
	one()
	zzvf.Cover("done")
}

// Rotating group of 2 or 3 members: 4 (thorough: 5) queries, any members
// failing each of them.
func VF_G02_rotate() {
	zzvf.Preempt(0)
	n := 2 + zzvf.Choose("members", 2)
	ts, rs, log := vfTurns(n)
	g := NewFailRotate("g", FailRotateOptions{}, rs...)
	active := 0
	for i := 0; i < 4+zzvf.Tier(); i++ {
		for _, t := range ts {
			t.fails = zzvf.Bool(t.id + ".fails")
		}
		*log = nil
		zzvf.Advance(int64(zzvf.Int("pause", 0, 1000)))
		zzvf.FireDue()
		zzvf.Settle()
		g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
		for _, m := range *log {
			zzvf.Assert(m == ts[active], "the group stays on a member until it fails and then moves to the next")
			if m.fails {
				active = (active + 1) % n
			}
		}
		zzvf.Cover("asked")
	}
}

// Fail-back group of 2 or 3 members, reset period 1 to 100 s: 3 (thorough: 4)
// queries, any members failing each of them, 0 to 200 s passing between two of
// them.
func VF_G02_failback() {
	zzvf.Preempt(0)
	n := 2 + zzvf.Choose("members", 2)
	ts, rs, log := vfTurns(n)
	reset := zzvf.Int("reset", 1, 100)
	g := NewFailBack("g", FailBackOptions{ResetAfter: time.Duration(reset) * time.Second}, rs...)
	active, since := 0, 0
	for i := 0; i < 3+zzvf.Tier(); i++ {
		for _, t := range ts {
			t.fails = zzvf.Bool(t.id + ".fails")
		}
		*log = nil
		pause := zzvf.Int("pause", 0, 200)
		since += pause
		zzvf.Advance(int64(pause))
		zzvf.FireDue()
		zzvf.Settle()
		if zzvf.Fork(since >= reset) {
			active = 0
		}
		g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
		for _, m := range *log {
			zzvf.Assert(m == ts[active], "the group returns to the first member after the period without failure and not before")
			if m.fails {
				active = (active + 1) % n
				since = 0
			}
		}
		zzvf.Settle()
		zzvf.Cover("asked")
	}
}

// Fail-back group of 3 members, period one minute: the first member fails, 59 s
// later the second one, and while the third one answers, which takes a second,
// the minute ends; two concurrent queries, every interleaving with two
// preemptions.
func VF_G02_failback_race() {
	ts, rs, log := vfTurns(3)
	g := NewFailBack("g", FailBackOptions{ResetAfter: time.Minute}, rs...)
	ask := func() []*vfTurn {
		*log = nil
		g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
		return *log
	}
	ts[0].fails = true
	zzvf.Assert(len(ask()) == 2, "the second member is asked")
	zzvf.Settle()
	zzvf.Advance(59)
	ts[1].fails = true
	ts[2].slow = true
	for i := 0; i < 2; i++ {
		zzvf.Go(func() { g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{}) })
	}
	zzvf.Settle()
	zzvf.Preempt(0)
	zzvf.Delays(0)
	ts[0].fails, ts[1].fails, ts[2].slow = false, false, false
	zzvf.Advance(int64(zzvf.Int("pause", 0, 57)))
	zzvf.FireDue()
	zzvf.Settle()
	zzvf.Assert(ask()[0] == ts[2], "after a failure the group does not return to the first member within the period")
	zzvf.Cover("moved")
	zzvf.Advance(60)
	zzvf.FireDue()
	zzvf.Settle()
	zzvf.Assert(ask()[0] == ts[0], "the group returns to the first member")
	zzvf.Cover("returned")
}

// Random group of 1 to 3 members, period 1 to 100 s: 3 (thorough: 4) queries,
// any members failing each of them, 0 to 200 s passing between two of them,
// every random choice.
func VF_G02_random() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	n := 1 + zzvf.Choose("members", 3)
	ts, rs, log := vfTurns(n)
	reset := zzvf.Int("reset", 1, 100)
	g := NewRandom("g", RandomOptions{ResetAfter: time.Duration(reset) * time.Second}, rs...)
	now := 0
	back := make([]int, n)
	for i := 0; i < 3+zzvf.Tier(); i++ {
		for _, t := range ts {
			t.fails = zzvf.Bool(t.id + ".fails")
		}
		*log = nil
		pause := zzvf.Int("pause", 0, 200)
		now += pause
		zzvf.Advance(int64(pause))
		zzvf.FireDue()
		zzvf.Settle()
		usable := 0
		for k := range ts {
			if zzvf.Fork(back[k] <= now) {
				usable++
			}
		}
		zzvf.RandN()
		a, _ := g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
		left := zzvf.RandN()
		zzvf.Settle()
		for _, m := range *log {
			k := int(m.id[0] - 'a')
			zzvf.Assert(back[k] <= now, "a member taken out is not asked before the period is over")
			if m.fails {
				back[k] = now + reset
				usable--
			}
		}
		if a == nil {
			zzvf.Assert(usable == 0, "every member not taken out is asked")
			zzvf.Cover("none left")
		} else {
			zzvf.Assert(left == 0 || left == usable, "the choice is among the members in use, each of them once")
			zzvf.Cover("asked")
		}
	}
}

// Random group of 2 members: two concurrent queries, failing members, in every
// interleaving with two preemptions; after the period every member is in use
// once.
func VF_G02_random_race() {
	ts, rs, log := vfTurns(2)
	g := NewRandom("g", RandomOptions{ResetAfter: time.Minute}, rs...)
	ts[0].fails, ts[1].fails = true, zzvf.Bool("b.fails")
	for i := 0; i < 2; i++ {
		zzvf.Go(func() { g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{}) })
	}
	zzvf.Settle()
	zzvf.Preempt(0)
	zzvf.Delays(0)
	failed := false
	for _, m := range *log {
		failed = failed || m == ts[0]
	}
	ts[0].fails, ts[1].fails = false, true
	*log = nil
	a, _ := g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
	if failed {
		zzvf.Assert(a == nil, "a failed member is out")
		zzvf.Cover("out")
	}
	zzvf.Settle()
	zzvf.Advance(60)
	zzvf.FireDue()
	zzvf.Settle()
	ts[1].fails = false
	zzvf.RandN()
	a, _ = g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
	n := zzvf.RandN()
	zzvf.Assert(a != nil && (n == 0 || n == 2), "after the period every member is in use, each of them once")
	k := zzvf.Choose("only", 2)
	ts[1-k].fails = true
	a, _ = g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
	zzvf.Assert(a != nil, "no member is lost")
	zzvf.Cover("back")
}

// Rotating or fail-back group of 3 members of which the first one (or two)
// fail: two concurrent queries in every interleaving with two preemptions,
// then one more.
func VF_G02_rotate_race() {
	ts, rs, log := vfTurns(3)
	bad := 1 + zzvf.Choose("bad", 2)
	for i := 0; i < bad; i++ {
		ts[i].fails = true
	}
	var g Resolver = NewFailRotate("g", FailRotateOptions{}, rs...)
	if zzvf.Choose("failback", 2) == 1 {
		g = NewFailBack("g", FailBackOptions{ResetAfter: time.Minute}, rs...)
	}
	for i := 0; i < 2; i++ {
		zzvf.Go(func() { g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{}) })
	}
	zzvf.Settle()
	*log = nil
	g.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
	zzvf.Assert(len(*log) == 1 && (*log)[0] == ts[bad], "the group moves on once per failing member")
	zzvf.Cover("moved")
}
