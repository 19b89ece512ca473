package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// UDP, TCP, TLS, DTLS, HTTPS (GET and POST), oblivious HTTPS and QUIC clients;
// a query with any ID, two letters of either case and any of types A, AAAA and
// TYPE65280; a reply with any ID, flags and code whose question is missing,
// different in any letter, type or class, or there twice.
func VF_Q01_reply() {
	zzvf.Preempt(0)
	zzvf.Stub("(*github.com/miekg/dns.Question).String", func(*dns.Question) string { return "question" })
	kind := []string{"udp", "tcp", "dot", "dtls", "doh-post", "doh-get", "odoh", "doq"}[zzvf.Choose("kind", 8)]
	byID := kind == "udp" || kind == "tcp" || kind == "dot" || kind == "dtls"
	q := new(dns.Msg)
	q.Id = zzvf.U16("id")
	q.RecursionDesired = zzvf.Bool("rd")
	q.Question = []dns.Question{{Name: zzvf.StrOf("name", 2, "abAB") + ".test.", Qtype: []uint16{1, 28, 65280}[zzvf.Choose("type", 3)], Qclass: 1}}
	q0 := q.Copy()
	other := false
	var sent *dns.Msg
	served := 0
	r := vfClient(kind, func(b []byte) []byte {
		served++
		w := new(dns.Msg)
		zzvf.Assert(w.Unpack(b) == nil && len(w.Question) == 1 && w.Question[0] == q0.Question[0], "the question is sent as it was asked")
		a := new(dns.Msg)
		a.Id = w.Id
		if zzvf.Choose("otherid", 2) == 1 {
			d := zzvf.U16("delta")
			zzvf.Assume(d != 0)
			a.Id += d
			other = true
		}
		a.Response, a.Authoritative, a.AuthenticatedData, a.Truncated = zzvf.Bool("qr"), zzvf.Bool("aa"), zzvf.Bool("ad"), zzvf.Bool("tc")
		for i := zzvf.Choose("questions", 3); i > 0; i-- {
			a.Question = append(a.Question, dns.Question{Name: zzvf.StrOf("rname", 2, "abAB") + ".test.", Qtype: zzvf.U16("rtype"), Qclass: zzvf.U16("rclass")})
		}
		a.Answer = []dns.RR{vfRR("an", "ab.test.", 0)}
		wire, err := a.Pack()
		zzvf.Assert(err == nil, "the reply can be encoded")
		sent = a
		return wire
	})
	var got *dns.Msg
	var err error
	done := false
	zzvf.Go(func() {
		got, err = r.Resolve(q, ClientInfo{})
		done = true
	})
	for i := 0; i < 20 && !done; i++ {
		zzvf.Settle()
		if served > 0 && other && byID {
			zzvf.FireTimers()
		}
	}
	zzvf.Assert(done && served == 1, "the query is sent once and completed")
	zzvf.Assert(zzvf.Equal(q, q0), "the caller's query is not modified")
	match := len(sent.Question) > 0
	if match {
		s, w := sent.Question[0], q0.Question[0]
		match = vfFold(s.Name, w.Name) && s.Qtype == w.Qtype && s.Qclass == w.Qclass
	}
	if byID {
		match = match && !other
	}
	if got == nil {
		zzvf.Assert(err != nil, "a query without a usable reply fails")
		zzvf.Assert(!match, "the reply to the query is returned")
		zzvf.Cover("refused")
		return
	}
	zzvf.Assert(err == nil, "a reply is returned without an error")
	zzvf.Assert(match, "a reply to another question is not returned")
	zzvf.Assert(got.Id == q0.Id, "the reply has the ID of the query")
	zzvf.Assert(len(got.Answer) == 1 && got.Authoritative == sent.Authoritative && got.AuthenticatedData == sent.AuthenticatedData && got.Truncated == sent.Truncated, "the reply is returned as it was sent")
	zzvf.Cover("returned")
}
