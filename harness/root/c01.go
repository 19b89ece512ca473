package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfCacheQuery is a query for a name out of a small alphabet with any type,
// class, flags and client subnet.
func vfCacheQuery(kinds int) *dns.Msg {
	q := vfQuery(zzvf.StrOf("q.name", 2, "aAb") + ".test.")
	switch zzvf.Choose("edns", kinds) {
	case 1:
		vfOpt(q, "o", 1)
	case 2, 3, 4:
		o := vfOpt(q, "o", 1)
		e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, SourceScope: zzvf.U8("scope")}
		if zzvf.Choose("family", 2) == 0 {
			e.Family = 1
			e.SourceNetmask = uint8(zzvf.Int("mask", 0, 32))
			e.Address = net.IP{byte(zzvf.Int("ip", 0, 9)), 0, 0, 1}
		} else {
			e.Family = 2
			e.SourceNetmask = uint8(zzvf.Int("mask", 0, 128))
			e.Address = net.ParseIP([]string{"2001:db8::", "2001:db8:1::", "::"}[zzvf.Choose("ip6", 3)])
		}
		o.Option = append(o.Option, e)
	}
	return q
}

// vfSubnet is the client subnet of a query.
func vfSubnet(q *dns.Msg) *dns.EDNS0_SUBNET {
	if len(q.Extra) == 1 && len(q.Extra[0].(*dns.OPT).Option) == 1 {
		return q.Extra[0].(*dns.OPT).Option[0].(*dns.EDNS0_SUBNET)
	}
	return nil
}

// vfEquivalent tells whether an answer for one query may serve the other.
func vfEquivalent(p, q *dns.Msg) bool {
	do := func(m *dns.Msg) bool { return len(m.Extra) == 1 && m.Extra[0].Header().Ttl&(1<<15) != 0 }
	x, y := p.Question[0], q.Question[0]
	ok := vfFold(x.Name, y.Name) && x.Qtype == y.Qtype && x.Qclass == y.Qclass && do(p) == do(q) && p.CheckingDisabled == q.CheckingDisabled
	s, t := vfSubnet(p), vfSubnet(q)
	if s == nil || t == nil {
		return ok && s == nil && t == nil
	}
	return ok && s.Family == t.Family && s.SourceNetmask == t.SourceNetmask && zzvf.Equal(s.Address, t.Address)
}

// Two consecutive queries for names of two letters in either case with any
// type, class, flags, with and without EDNS and with an IPv4 or IPv6 client
// subnet (one IPv4 digit and the prefix length arbitrary, three IPv6
// networks), against an empty in-memory cache.
func VF_C01_keys() {
	zzvf.Preempt(0)
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1, Ttl: 60}, A: net.IP{192, 0, 2, byte(len(up.qs))}}}
		return a, nil
	}
	c := NewCache("c", up, CacheOptions{})
	p := vfCacheQuery(3)
	if !zzvf.Symbolic() {
		zzvf.Debug(p.String())
	}
	p0 := p.Copy()
	a, err := c.Resolve(p, ClientInfo{})
	zzvf.Assert(err == nil && len(up.qs) == 1 && vfSame(up.qs[0], p0), "an empty cache forwards the query")
	zzvf.Assert(a.Id == p0.Id && len(a.Question) == 1 && a.Question[0] == p0.Question[0], "the reply carries the query's ID and question")
	q := vfCacheQuery(3)
	q0 := q.Copy()
	a, err = c.Resolve(q, ClientInfo{})
	zzvf.Assert(err == nil && a.Id == q0.Id && len(a.Question) == 1 && a.Question[0] == q0.Question[0] && a.Response, "the reply carries the query's ID and question")
	zzvf.Assert(vfSame(q, q0), "the query is not changed")
	if len(up.qs) == 1 {
		zzvf.Assert(vfEquivalent(p0, q0), "a stored answer is only used for an equivalent query")
		zzvf.Assert(len(a.Answer) == 1 && zzvf.Equal(a.Answer[0].(*dns.A).A, net.IP{192, 0, 2, 1}), "the stored answer is served")
		zzvf.Cover("hit")
	} else {
		zzvf.Assert(vfSame(up.qs[1], q0), "the upstream is asked the client's query")
		zzvf.Assert(len(a.Answer) == 1 && zzvf.Equal(a.Answer[0].(*dns.A).A, net.IP{192, 0, 2, 2}), "the upstream's answer is returned")
		zzvf.Cover("miss")
	}
}
