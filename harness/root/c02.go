package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// One stored answer of up to 2 answer records, 1 authority record and an
// optional EDNS record with any TTLs and response code 0, 2 or 3; two lookups
// after any number of seconds (up to 68 years each) and a fraction of 0, 1
// or 999999999 ns.
func VF_C02_age() {
	zzvf.Preempt(0)
	var stored *dns.Msg
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if stored != nil {
			return nil, errVF
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Rcode = []int{dns.RcodeSuccess, dns.RcodeNameError, dns.RcodeServerFailure}[zzvf.Choose("rcode", 3)]
		for i := zzvf.Choose("nan", 3); i > 0; i-- {
			a.Answer = append(a.Answer, vfRR("an", q.Question[0].Name, 0))
		}
		for i := zzvf.Choose("nns", 2); i > 0; i-- {
			a.Ns = append(a.Ns, vfRR("ns", "test.", 5))
		}
		vfOpt(a, "a.opt", zzvf.Choose("opt", 2))
		stored = a.Copy()
		return a, nil
	}
	c := NewCache("c", up, CacheOptions{})
	q := vfQueryOf("a.test.", dns.TypeA)
	_, err := c.Resolve(q, ClientInfo{})
	zzvf.Assert(err == nil && len(up.qs) == 1, "the first query goes upstream")
	min, n := vfTTLs(stored)
	age := uint64(0)
	for round := 0; round < 2; round++ {
		frac := 0
		if round == 0 {
			frac = zzvf.Choose("frac", 3)
		}
		age += uint64(vfElapse("elapsed", frac))
		a, err := c.Resolve(q, ClientInfo{})
		if err != nil {
			zzvf.Cover("missed")
			return
		}
		zzvf.Cover("hit")
		zzvf.Assert(len(up.qs) == 1, "an answer is made from the cache or by the upstream")
		zzvf.Assert(n == 0 || age <= uint64(min), "an answer is not served after its lifetime")
		zzvf.Assert(len(a.Answer) == len(stored.Answer) && len(a.Ns) == len(stored.Ns), "all records are served")
		for i, rrs := range [][]dns.RR{a.Answer, a.Ns} {
			orig := [][]dns.RR{stored.Answer, stored.Ns}[i]
			for j, rr := range rrs {
				o := orig[j].Header().Ttl
				zzvf.Assert(uint64(rr.Header().Ttl)+age <= uint64(o), "a record's TTL is reduced by its age")
				zzvf.Assert(rr.Header().Ttl > 0 || o == 0, "a record is not served with a used-up TTL")
			}
		}
	}
}

// The clock moves backwards by up to a day after an answer with one record of
// any TTL was stored.
func VF_C02_back() {
	zzvf.Preempt(0)
	ttl := uint32(0)
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if len(up.qs) > 1 {
			return nil, errVF
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = []dns.RR{vfRR("an", q.Question[0].Name, 0)}
		ttl = a.Answer[0].Header().Ttl
		return a, nil
	}
	c := NewCache("c", up, CacheOptions{})
	q := vfQueryOf("a.test.", dns.TypeA)
	c.Resolve(q, ClientInfo{})
	zzvf.Advance(-int64(zzvf.Int("back", 0, 86400)))
	a, err := c.Resolve(q, ClientInfo{})
	if err == nil {
		zzvf.Assert(len(a.Answer) == 1 && a.Answer[0].Header().Ttl <= ttl, "a TTL never grows")
		zzvf.Cover("hit")
	}
}
