package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// UDP and TCP listeners of each network name and the DTLS listener; queries
// without EDNS or with any advertised size; replies with 0 to 64 address and
// text records in the answer and up to 8 in the additional section, with and
// without EDNS.
func VF_W03_size() {
	zzvf.Preempt(0)
	kind := []string{"udp", "udp4", "udp6", "dtls", "tcp", "dot"}[zzvf.Choose("kind", 6)]
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	limit := 512
	if zzvf.Choose("edns", 2) == 1 {
		o := vfOpt(q, "o", 1)
		limit = int(o.UDPSize())
		if limit < 512 {
			limit = 512
		}
	}
	up := &vfUp{id: "up"}
	var sent *dns.Msg
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Truncated = zzvf.Bool("tc")
		for i := []int{0, 2, 26, 40, 64}[zzvf.Choose("answers", 5)]; i > 0; i-- {
			h := dns.RR_Header{Name: q.Question[0].Name, Class: 1, Ttl: 60}
			if i%2 == 0 {
				h.Rrtype = dns.TypeA
				a.Answer = append(a.Answer, &dns.A{Hdr: h, A: net.IP{192, 0, 2, byte(i)}})
			} else {
				h.Rrtype = dns.TypeTXT
				a.Answer = append(a.Answer, &dns.TXT{Hdr: h, Txt: []string{"0123456789"}})
			}
		}
		for i := 8 * zzvf.Choose("extra", 2); i > 0; i-- {
			a.Extra = append(a.Extra, &dns.AAAA{Hdr: dns.RR_Header{Name: "ns.test.", Rrtype: dns.TypeAAAA, Class: 1, Ttl: 60}, AAAA: make(net.IP, 16)})
		}
		vfOpt(a, "ro", zzvf.Choose("redns", 2))
		sent = a.Copy()
		return a, nil
	}
	w := &vfWriter{addr: vfPeer(kind, net.IP{127, 0, 0, 1})}
	vfServer(kind, ListenOptions{}, up).ServeDNS(w, q)
	zzvf.Assert(len(w.msgs) == 1, "the query is answered")
	a := w.msgs[0]
	wire, err := a.Pack()
	zzvf.Assert(err == nil, "the reply can be sent")
	count := func(m *dns.Msg) int {
		n := len(m.Answer) + len(m.Ns) + len(m.Extra)
		if m.IsEdns0() != nil {
			n--
		}
		return n
	}
	if kind == "tcp" || kind == "dot" {
		zzvf.Assert(count(a) == count(sent) && a.Truncated == sent.Truncated, "a reply over a stream transport is complete")
		zzvf.Cover("stream")
		return
	}
	zzvf.Assert(len(wire) <= limit, "the reply fits the size the client can receive")
	zzvf.Assert(count(a) == count(sent) || a.Truncated, "a reply with records left out is marked truncated")
	zzvf.Assert(a.Truncated == sent.Truncated || count(a) < count(sent), "a complete reply is not marked truncated")
	if count(a) < count(sent) {
		zzvf.Cover("truncated")
	} else {
		zzvf.Cover("complete")
	}
}
