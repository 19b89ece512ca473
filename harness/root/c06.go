package rdns

import (
	"bytes"
	"net"
	"time"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfStored is an answer of up to n records stored for q.
func vfStored(q *dns.Msg, n int) *cacheAnswer {
	a := vfReply(q, []string{q.Question[0].Name}, 3, zzvf.Choose("answers", n+1), 0, 0)
	if zzvf.Choose("a.edns", 2) == 1 {
		vfOpt(a, "a.opt", 1)
	}
	return &cacheAnswer{
		Timestamp:        time.Unix(1700000000, []int64{0, 1, 999999999}[zzvf.Choose("fraction", 3)]),
		Expiry:           time.Unix(1700000000+int64(zzvf.Int("expiry", 1, 1000000)), 0),
		PrefetchEligible: zzvf.Bool("prefetch"),
		Msg:              a,
	}
}

// vfMembers are queries that differ in at most one of the things that tell
// answers apart; the name is made of any two letters.
func vfMember(label string, diff int) *dns.Msg {
	q := new(dns.Msg)
	q.Id = zzvf.U16(label + ".id")
	q.CheckingDisabled = diff == 1
	q.Question = []dns.Question{{Name: zzvf.StrOf(label+".name", 2, "aAb:") + ".test.", Qtype: dns.TypeA, Qclass: dns.ClassINET}}
	switch diff {
	case 2:
		q.Question[0].Qtype = dns.TypeAAAA
	case 3:
		q.Question[0].Qtype = 65280
	case 4:
		q.Question[0].Qclass = dns.ClassCHAOS
	}
	if diff >= 5 {
		q.SetEdns0(4096, diff == 6)
	}
	if diff >= 7 {
		e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 24, Address: net.IP{10, 0, 0, 0}}
		switch diff {
		case 8:
			e.SourceNetmask = 2
		case 9:
			e.Address = net.IP{10, 0, 1, 0}
		case 10:
			e.Family, e.Address = 2, net.ParseIP("2001:db8::")
		}
		q.Extra[0].(*dns.OPT).Option = []dns.EDNS0{e}
	}
	return q
}

const vfMembers = 11

// vfServes asserts that two backends give the same answer to a query, or the
// first one none if it need not have it.
func vfServes(b, ref CacheBackend, q *dns.Msg, rounded, needed bool) bool {
	a, pre, ok := b.Lookup(q.Copy())
	want, wantPre, wantOK := ref.Lookup(q.Copy())
	if !wantOK {
		zzvf.Assert(!ok, "only what was stored is found")
		return false
	}
	if !ok {
		min, n := vfTTLs(want)
		zzvf.Assert(!needed || rounded && n > 0 && min <= 1, "what was stored is found")
		return false
	}
	zzvf.Assert(pre == wantPre, "the prefetch eligibility is kept")
	if rounded {
		for i, rr := range a.Answer {
			if i < len(want.Answer) {
				got, w := rr.Header().Ttl, want.Answer[i].Header().Ttl
				zzvf.Assert(got == w || got+1 == w, "the timestamp is kept to the second")
				rr.Header().Ttl = w
			}
		}
	}
	zzvf.Assert(vfSame(a, want), "the message is kept")
	return true
}

// Cache file with up to two answers of up to 2 records with any content, for
// any two of 11 queries differing in flags, type, class or subnet and in
// letters of the name; read back by a new process and looked up after any time
// up to 30 days by a third query.
func VF_C06_file() {
	zzvf.Preempt(0)
	vfJSON()
	vfNewFS()
	b := NewMemoryBackend(MemoryBackendOptions{Filename: "/cache/c"})
	d1 := zzvf.Choose("first", vfMembers)
	p := vfMember("p", d1)
	b.Store(p, vfStored(p, 2))
	d2 := []int{d1, 0}[zzvf.Choose("second", 2)]
	q := vfMember("q", d2)
	a := new(dns.Msg)
	a.SetReply(q)
	b.Store(q, &cacheAnswer{Timestamp: time.Unix(1700000000, 0), Expiry: time.Unix(1700001000, 0), Msg: a})
	zzvf.Assert(b.Close() == nil, "the cache is saved")
	c := NewMemoryBackend(MemoryBackendOptions{Filename: "/cache/c"})
	zzvf.Assert(c.Size() == b.Size(), "all answers are kept")
	zzvf.Advance(int64(zzvf.Int("elapsed", 0, 30*86400)))
	if vfServes(c, b, p, false, true) {
		zzvf.Cover("first")
	}
	if vfServes(c, b, q, false, true) {
		zzvf.Cover("second")
	}
}

// The same with an entry looked up for a different query, and the file cut
// short by 1 to 3 bytes or having lost its first half.
func VF_C06_damaged_file() {
	zzvf.Preempt(0)
	vfJSON()
	f := vfNewFS()
	b := NewMemoryBackend(MemoryBackendOptions{Filename: "/cache/c"})
	p, q := vfMember("p", 0), vfMember("q", 2)
	for _, m := range []*dns.Msg{p, q} {
		b.Store(m, vfStored(m, 1))
	}
	zzvf.Assert(b.Close() == nil, "the cache is saved")
	n := f.find("/cache/c")
	switch k := zzvf.Choose("damage", 6); k {
	case 0, 1, 2:
		n.data = n.data[:len(n.data)-2-k]
	case 3:
		n.data = n.data[bytes.IndexByte(n.data, '\n')/2:]
	case 4:
		n.data = append([]byte("garbage\n"), n.data...)
	case 5:
		n.data = nil
	}
	c := NewMemoryBackend(MemoryBackendOptions{Filename: "/cache/c"})
	for _, m := range []*dns.Msg{p, q} {
		a, pre, ok := c.Lookup(m.Copy())
		if !ok {
			zzvf.Cover("lost")
			continue
		}
		want, wantPre, wantOK := b.Lookup(m.Copy())
		zzvf.Assert(wantOK && pre == wantPre && vfSame(a, want), "what is found is what was stored")
		zzvf.Cover("found")
	}
}

// Shared key-value server holding an answer of up to 2 records with any content
// for one of 11 queries, looked up after any time up to 30 days.
func VF_C06_redis() {
	d := zzvf.Choose("query", vfMembers)
	p := vfMember("p", d)
	vfRedisKeeps(p, vfStored(p, 2), func() (*dns.Msg, bool) { return p, true })
}

// Shared key-value server holding an answer of one record for one of 11 queries,
// looked up for any other, in a name with letters a, b, A or ":".
func VF_C06_redis_other() {
	d1, d2 := zzvf.Choose("first", vfMembers), zzvf.Choose("second", vfMembers)
	p := vfMember("p", d1)
	a := new(dns.Msg)
	a.SetReply(p)
	a.Answer = []dns.RR{vfRR("an", p.Question[0].Name, 0)}
	item := &cacheAnswer{Timestamp: time.Unix(1700000000, 0), Expiry: time.Unix(1700001000, 0), Msg: a}
	vfRedisKeeps(p, item, func() (*dns.Msg, bool) { return vfMember("q", d2), d1 == d2 })
}

func vfRedisKeeps(p *dns.Msg, item *cacheAnswer, other func() (*dns.Msg, bool)) {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	s := new(vfRedis)
	b := NewRedisBackend(RedisBackendOptions{RedisOptions: s.options(), KeyPrefix: "p:", SyncSet: zzvf.Choose("sync", 2) == 1})
	ref := NewMemoryBackend(MemoryBackendOptions{})
	ref.Store(p, &cacheAnswer{Timestamp: item.Timestamp, Expiry: time.Unix(1900000000, 0), PrefetchEligible: item.PrefetchEligible, Msg: item.Msg.Copy()})
	b.Store(p, item)
	vfMess(item.Msg)
	vfWait(func() bool { return s.size() == 1 })
	zzvf.Assert(s.size() == 1, "the answer is stored")
	left := item.Expiry.Sub(time.Unix(1700000000, 0))
	zzvf.Assert(vfAnd(s.ttls[0] > left-time.Second, s.ttls[0] <= left), "the expiry is kept")
	zzvf.Advance(int64(zzvf.Int("elapsed", 0, 30*86400)))
	q, same := other()
	if vfServes(b, ref, q, true, same) {
		zzvf.Cover("found")
	}
}

// Shared key-value server holding an answer of one record with any format
// version, flags and timestamp, cut short at any point, or not reachable.
func VF_C06_damaged_redis() {
	zzvf.Preempt(0)
	s := new(vfRedis)
	up := &vfUp{id: "up"}
	ttl := uint32(0)
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if len(up.qs) > 1 {
			return nil, errVF
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = []dns.RR{vfRR("an", q.Question[0].Name, 0)}
		ttl = a.Answer[0].Header().Ttl
		zzvf.Assume(ttl > 0)
		return a, nil
	}
	c := NewCache("c", up, CacheOptions{Backend: NewRedisBackend(RedisBackendOptions{RedisOptions: s.options(), SyncSet: true})})
	q := vfMember("q", 0)
	first, err := c.Resolve(q.Copy(), ClientInfo{})
	zzvf.Assert(err == nil && s.size() == 1, "the answer is stored")
	v := s.vals[0]
	orig := append([]byte(nil), v...)
	missing := false
	switch zzvf.Choose("damage", 5) {
	case 0:
		v[0] = zzvf.U8("version")
		missing = v[0] != orig[0]
	case 1:
		v[1] = zzvf.U8("flags")
		copy(v[2:], zzvf.Bytes("timestamp", 8))
	case 2:
		n := zzvf.Choose("length", 22)
		s.vals[0] = v[:n]
		missing = true
	case 3:
		n := zzvf.Choose("length", len(v)-22)
		s.vals[0] = v[:22+n]
	case 4:
		s.down = true
		missing = true
	}
	a, err := c.Resolve(q.Copy(), ClientInfo{})
	if err != nil {
		zzvf.Cover("missing")
		return
	}
	zzvf.Cover("used")
	zzvf.Assert(!missing, "a damaged entry is not used")
	zzvf.Assert(a.Id == q.Id && len(a.Question) == 1 && a.Question[0] == q.Question[0], "the reply carries the query's ID and question")
	for _, rr := range a.Answer {
		zzvf.Assert(rr.Header().Ttl <= ttl, "a TTL is never increased")
		rr.Header().Ttl, rr.Header().Rdlength = ttl, first.Answer[0].Header().Rdlength
		zzvf.Assert(zzvf.Equal(rr, first.Answer[0]), "records are as they were stored")
	}
}

// vfWait waits for something a goroutine of the native run does.
func vfWait(done func() bool) {
	zzvf.Settle()
	if !zzvf.Symbolic() {
		for i := 0; i < 400 && !done(); i++ {
			time.Sleep(5 * time.Millisecond)
		}
	}
}
