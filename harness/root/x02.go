package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfPopular is one of 3 queries with names, flags and subnets that differ.
func vfPopular(label string, k int) *dns.Msg {
	q := new(dns.Msg)
	q.Id = zzvf.U16(label + ".id")
	q.RecursionDesired = true
	q.Question = []dns.Question{{Name: zzvf.StrOf(label+".name", 1, "aAb") + ".test.", Qtype: dns.TypeA, Qclass: dns.ClassINET}}
	switch k {
	case 1:
		q.CheckingDisabled = true
	case 2:
		q.SetEdns0(4096, true)
		q.Extra[0].(*dns.OPT).Option = []dns.EDNS0{&dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 24, Address: net.IP{10, 0, 0, 0}}}
	}
	return q
}

// vfSameAsk tells whether two queries ask the same.
func vfSameAsk(p, q *dns.Msg) bool {
	if len(p.Extra) != len(q.Extra) || p.CheckingDisabled != q.CheckingDisabled {
		return false
	}
	if p.Question[0].Qtype != q.Question[0].Qtype || p.Question[0].Qclass != q.Question[0].Qclass {
		return false
	}
	if len(p.Extra) == 1 && !zzvf.Equal(p.Extra[0], q.Extra[0]) {
		return false
	}
	return vfFold(p.Question[0].Name, q.Question[0].Name)
}

// Prefetcher in front of an upstream that fails, gives nothing, an error code,
// a truncated reply or a reply with any TTL: three (thorough: four) queries out of 3 kinds for
// names a and b with threshold 2 or 3, followed by two rounds of background
// work any time up to 2 hours later.
func VF_X02_prefetch() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	threshold := 2 + zzvf.Choose("threshold", 2)
	background := false
	var last *dns.Msg
	var lastErr error
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if background {
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = []dns.RR{vfRR("refreshed", q.Question[0].Name, 0)}
			return a, nil
		}
		last, lastErr = nil, nil
		switch zzvf.Choose("outcome", 4) {
		case 0:
			lastErr = errVF
		case 1:
		case 2:
			last = new(dns.Msg)
			last.SetRcode(q, dns.RcodeServerFailure)
		case 3:
			last = new(dns.Msg)
			last.SetReply(q)
			last.Truncated = zzvf.Bool("tc")
			last.Answer = []dns.RR{vfRR("an", q.Question[0].Name, 0)}
		}
		if last == nil {
			return nil, lastErr
		}
		return last.Copy(), nil
	}
	p := NewPrefetch("p", up, PrefetchOptions{PrefetchThreshold: uint64(threshold), PrefetchMaxItems: 3, PrefetchCacheSize: 3})
	zzvf.Settle()
	var asked []*dns.Msg
	for i := 0; i < 3+zzvf.Tier(); i++ {
		q := vfPopular("q", zzvf.Choose("kind", 2)*2)
		q0 := q.Copy()
		a, err := p.Resolve(q, ClientInfo{Listener: "l"})
		zzvf.Assert(len(up.qs) == i+1 && vfSame(up.qs[i], q0), "the query is passed on once")
		zzvf.Assert(err == lastErr && (a == nil) == (last == nil), "the upstream's result is returned")
		if a != nil {
			zzvf.Assert(vfSame(a, last), "the upstream's reply is returned as it is")
		}
		asked = append(asked, q0)
	}
	background = true
	n := len(up.qs)
	for round := 0; round < 2; round++ {
		zzvf.Advance(int64(zzvf.Int("elapsed", 1, 7200)))
		zzvf.FireDue()
		zzvf.Settle()
	}
	for _, r := range up.qs[n:] {
		count := 0
		same := false
		for _, q := range asked {
			if vfSameAsk(r, q) {
				count++
				r.Id = q.Id
				same = vfOr(same, vfSame(r, q))
			}
		}
		zzvf.Assert(count >= threshold, "only what was asked for often enough is refreshed")
		zzvf.Assert(same, "the refresh asks what a client asked")
		zzvf.Cover("refreshed")
	}
}

// Cache refreshing an answer of any TTL while it serves it: trigger and
// eligibility any number of seconds, one lookup after any time, an upstream
// that fails, gives nothing or answers with any TTL the second time; the reply
// is looked at before and after the refresh, which the upstream delays.
func VF_X02_cache() {
	var first, second *dns.Msg
	block := make(chan struct{})
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if len(up.qs) > 2 {
			return nil, errVF
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = []dns.RR{vfRR("an", q.Question[0].Name, 0)}
		if len(up.qs) == 1 {
			first = a.Copy()
			return a, nil
		}
		second = a.Copy()
		<-block
		// the upstream may do as it likes with the query it was given
		q.Id++
		q.RecursionDesired = false
		return vfOutcome(q, func() *dns.Msg { return a })
	}
	zzvf.Preempt(0)
	opt := CacheOptions{PrefetchTrigger: uint32(zzvf.Int("trigger", 0, 100000)), PrefetchEligible: uint32(zzvf.Int("eligible", 0, 100000))}
	c := NewCache("c", up, opt)
	k := zzvf.Choose("kind", 3)
	q := vfPopular("q", k)
	_, err := c.Resolve(q.Copy(), ClientInfo{Listener: "l"})
	zzvf.Assert(err == nil, "the first query is answered")
	ttl := first.Answer[0].Header().Ttl
	zzvf.Assume(ttl > 0 && ttl < 1<<31)
	age := uint32(zzvf.Int("elapsed", 0, 100000))
	zzvf.Advance(int64(age))
	zzvf.Assume(age < ttl)
	r := vfPopular("r", k)
	zzvf.Assume(vfFold(r.Question[0].Name, q.Question[0].Name))
	r0 := r.Copy()
	// a reply is given although the refresh is stuck
	a, err := c.Resolve(r, ClientInfo{Listener: "l"})
	zzvf.Assert(err == nil && len(a.Answer) == 1, "the stored answer is given")
	left := a.Answer[0].Header().Ttl
	zzvf.Assert(left == ttl-age && zzvf.Equal(a.Answer[0].(*dns.A).A, first.Answer[0].(*dns.A).A), "the stored answer is given")
	a0 := a.Copy()
	zzvf.Settle()
	if len(up.qs) == 2 {
		zzvf.Cover("refresh")
		zzvf.Assert(vfAnd(opt.PrefetchTrigger > 0, left < opt.PrefetchTrigger), "an answer is refreshed near its end only")
		zzvf.Assert(ttl >= opt.PrefetchEligible, "only eligible answers are refreshed")
		up.qs[1].Id = r0.Id
		zzvf.Assert(vfSame(up.qs[1], r0), "the refresh asks what the client asked")
	} else {
		zzvf.Cover("no refresh")
	}
	close(block)
	zzvf.Settle()
	zzvf.Assert(vfSame(a, a0) && vfSame(r, r0), "the reply and the query are left alone")
	zzvf.Assert(len(up.qs) <= 2, "one refresh is made")
	b, err := c.Resolve(r0.Copy(), ClientInfo{Listener: "l"})
	zzvf.Assert(err == nil && len(b.Answer) == 1, "an answer is still given")
	got := b.Answer[0].(*dns.A)
	old := vfAnd(zzvf.Equal(got.A, a.Answer[0].(*dns.A).A), got.Hdr.Ttl == left)
	fresh := second != nil && vfAnd(zzvf.Equal(got.A, second.Answer[0].(*dns.A).A), got.Hdr.Ttl == second.Answer[0].Header().Ttl)
	zzvf.Assert(vfOr(old, fresh), "the answer is the stored or the refreshed one")
	zzvf.Settle()
}
