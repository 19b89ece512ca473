package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Answers with response codes 0-6, 9, 10 and 23, any truncation flag, up to 2
// answer records and an authority record of any TTL and an optional EDNS
// record; any negative TTL; no limit, a limit for the answer's response code
// or a limit for another one, of any value; lookup after up to 68 years.
func VF_C03_lifetime() {
	zzvf.Preempt(0)
	var stored *dns.Msg
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if stored != nil {
			return nil, errVF
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Rcode = []int{0, 1, 2, 3, 4, 5, 6, 9, 10, 23}[zzvf.Choose("rcode", 10)]
		a.Truncated = zzvf.Bool("tc")
		for i := zzvf.Choose("nan", 3); i > 0; i-- {
			a.Answer = append(a.Answer, vfRR("an", q.Question[0].Name, 0))
		}
		for i := zzvf.Choose("nns", 2); i > 0; i-- {
			a.Ns = append(a.Ns, vfRR("ns", "test.", 5))
		}
		if a.Rcode > 15 || zzvf.Choose("opt", 2) == 1 {
			vfOpt(a, "a.opt", 1)
		}
		stored = a.Copy()
		return a, nil
	}
	opt := CacheOptions{NegativeTTL: zzvf.U32("negative")}
	limit, code := uint32(0), -1
	if k := zzvf.Choose("limit", 4); k > 0 {
		code = []int{0, 2, 3}[k-1]
		limit = zzvf.U32("max")
		opt.CacheRcodeMaxTTL = map[int]uint32{code: limit}
	}
	c := NewCache("c", up, opt)
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	a, err := c.Resolve(q, ClientInfo{})
	zzvf.Assert(err == nil && len(up.qs) == 1 && a.Truncated == stored.Truncated && a.Rcode == stored.Rcode && len(a.Answer) == len(stored.Answer), "the first query is answered by the upstream")
	age := vfElapse("elapsed", zzvf.Choose("frac", 3))
	a, err = c.Resolve(q, ClientInfo{})
	if err != nil {
		zzvf.Cover("miss")
		return
	}
	zzvf.Cover("hit")
	min, n := vfTTLs(stored)
	neg := opt.NegativeTTL
	if neg == 0 {
		neg = 60
	}
	zzvf.Assert(len(up.qs) == 1 && !stored.Truncated, "a truncated answer is not stored")
	zzvf.Assert(a.Rcode == stored.Rcode, "the stored answer is served")
	zzvf.Assert(n == 0 || age <= min, "an answer is kept no longer than its smallest TTL")
	zzvf.Assert(n > 0 || stored.Rcode == dns.RcodeServerFailure || age <= neg, "an answer without TTL is kept no longer than the negative TTL")
	zzvf.Assert(stored.Rcode != dns.RcodeServerFailure || age <= 300, "a server failure is kept for at most five minutes")
	zzvf.Assert(stored.Rcode != code || age <= limit, "an answer is kept no longer than the limit of its response code")
}
