package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Sequences of 5 (thorough: 6) queries for names out of 4, capacities 0 to 3;
// between two of them (any position) time passes so that the answers of two of
// the names have expired, with or without a clean-up run.
func VF_C04_lru() {
	zzvf.Preempt(0)
	type entry struct {
		name    string
		expires int
	}
	var model []entry // most recent first
	now := 0
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		ttl := uint32(1000)
		if q.Question[0].Name[0] < 'c' {
			ttl = 100
		}
		a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1, Ttl: ttl}, A: net.IP{192, 0, 2, q.Question[0].Name[0]}}}
		return a, nil
	}
	capacity := zzvf.Choose("capacity", 4)
	b := NewMemoryBackend(MemoryBackendOptions{Capacity: capacity})
	c := NewCache("c", up, CacheOptions{Backend: b})
	zzvf.Settle()
	n := 5 + zzvf.Tier()
	pause := 1 + zzvf.Choose("pause", n)
	gc := pause < n && zzvf.Choose("gc", 2) == 1
	for i := 0; i < n; i++ {
		if i == pause {
			now += 500
			zzvf.Advance(500)
			if gc {
				zzvf.FireTimers()
				zzvf.Settle()
				var keep []entry
				for _, e := range model {
					if e.expires > now {
						keep = append(keep, e)
					}
				}
				model = keep
				zzvf.Assert(b.Size() == len(model), "clean-up removes exactly the expired answers")
			}
		}
		name := zzvf.StrOf("name", 1, "abcd") + ".test."
		q := new(dns.Msg)
		q.SetQuestion(name, dns.TypeA)
		asked := len(up.qs)
		a, err := c.Resolve(q, ClientInfo{})
		zzvf.Assert(err == nil && len(a.Answer) == 1 && a.Answer[0].(*dns.A).A[3] == name[0], "the answer is the name's")
		found := -1
		for k, e := range model {
			if zzvf.Fork(e.name == name) {
				found = k
				break
			}
		}
		if found >= 0 {
			e := model[found]
			model = append(append([]entry(nil), model[:found]...), model[found+1:]...)
			if e.expires > now {
				zzvf.Assert(len(up.qs) == asked, "an answer that was stored and not dropped is found")
				model = append([]entry{e}, model...)
				zzvf.Cover("hit")
				continue
			}
			zzvf.Cover("expired")
		}
		zzvf.Assert(len(up.qs) == asked+1, "nothing else is found")
		ttl := 1000
		if zzvf.Fork(name[0] < 'c') {
			ttl = 100
		}
		model = append([]entry{{name, now + ttl}}, model...)
		if capacity > 0 && len(model) > capacity {
			model = model[:capacity]
			zzvf.Cover("dropped")
		}
		zzvf.Assert(b.Size() == len(model), "the cache holds as many answers as it may")
	}
}

// Two concurrent uses of a cache of 1 to 3 entries that holds the answers for
// two names, of which one may have expired: queries for these and another
// name, a flush and a clean-up run; every interleaving with two preemptions.
func VF_C04_race() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		ttl := uint32(1000)
		if q.Question[0].Name[0] == 'a' {
			ttl = 100
		}
		a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1, Ttl: ttl}, A: net.IP{192, 0, 2, q.Question[0].Name[0]}}}
		return a, nil
	}
	capacity := 1 + zzvf.Choose("capacity", 3)
	b := NewMemoryBackend(MemoryBackendOptions{Capacity: capacity})
	c := NewCache("c", up, CacheOptions{Backend: b, FlushQuery: "flush."})
	query := func(name string) *dns.Msg { return new(dns.Msg).SetQuestion(name, dns.TypeA) }
	ask := func(name string) {
		a, err := c.Resolve(query(name), ClientInfo{})
		zzvf.Assert(err == nil, "the query is answered")
		if name != "flush." {
			zzvf.Assert(len(a.Answer) == 1 && a.Answer[0].(*dns.A).A[3] == name[0], "the answer is the name's")
		}
	}
	zzvf.Settle()
	ask("a.test.")
	ask("b.test.")
	if zzvf.Choose("old", 2) == 1 {
		zzvf.Advance(500)
	}
	zzvf.Preempt(2)
	uses := []string{"a.test.", "b.test.", "c.test.", "flush.", ""}
	for i := 0; i < 2; i++ {
		name := uses[zzvf.Choose("use", len(uses)-i)]
		if name == "" {
			zzvf.FireTimers()
			continue
		}
		zzvf.Go(func() { ask(name) })
	}
	zzvf.Settle()
	zzvf.Preempt(0)
	size := b.Size()
	zzvf.Assert(size <= capacity, "the cache does not exceed its capacity")
	found := 0
	for _, name := range []string{"a.test.", "b.test.", "c.test."} {
		if a, _, ok := b.Lookup(query(name)); ok {
			zzvf.Assert(a.Answer[0].(*dns.A).A[3] == name[0], "the answer found is the name's")
			found++
		}
	}
	zzvf.Assert(found <= size && found == b.Size(), "the cache holds what it counts")
	for _, name := range uses[:3] {
		ask(name)
	}
	zzvf.Assert(b.Size() == min(3, capacity), "the cache fills up to its capacity")
	zzvf.Cover("done")
}
