package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfOutcomes is a resolver that answers with a reply of any code and flags,
// an error, an error together with a reply, or nothing.
func vfOutcomes() (*vfUp, *[]*dns.Msg) {
	up := &vfUp{id: "up"}
	sent := new([]*dns.Msg)
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Rcode = zzvf.Int("rcode", 0, 15)
		a.Authoritative, a.AuthenticatedData, a.RecursionAvailable = zzvf.Bool("aa"), zzvf.Bool("ad"), zzvf.Bool("ra")
		a.Answer = []dns.RR{vfRR("an", q.Question[0].Name, 0)}
		switch zzvf.Choose("outcome", 4) {
		case 1:
			*sent = append(*sent, nil)
			return nil, nil
		case 2:
			*sent = append(*sent, vfFail(q))
			return nil, errVF
		case 3:
			*sent = append(*sent, vfFail(q))
			return a, errVF
		}
		*sent = append(*sent, a.Copy())
		return a, nil
	}
	return up, sent
}

// vfFail is the reply to a query that could not be resolved.
func vfFail(q *dns.Msg) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.Rcode = dns.RcodeServerFailure
	return a
}

// vfReplied tells whether a client got the reply an outcome calls for.
func vfReplied(a, want *dns.Msg) bool {
	if want == nil || a == nil {
		return a == nil && want == nil
	}
	if want.Rcode == dns.RcodeServerFailure && len(want.Answer) == 0 {
		// the flags of a server failure are up to the listener
		return a.Response && a.Id == want.Id && a.Rcode == dns.RcodeServerFailure && len(a.Question) == 1 && a.Question[0] == want.Question[0] && len(a.Answer) == 0
	}
	ok := a.Response && a.Id == want.Id && a.Rcode == want.Rcode && a.Authoritative == want.Authoritative && a.AuthenticatedData == want.AuthenticatedData && a.RecursionAvailable == want.RecursionAvailable && !a.Truncated
	return ok && len(a.Question) == 1 && len(a.Answer) == 1 && a.Question[0] == want.Question[0] && a.Answer[0].Header().Ttl == want.Answer[0].Header().Ttl && zzvf.Equal(a.Answer[0].(*dns.A).A.To4(), want.Answer[0].(*dns.A).A)
}

// vfAsked is a query with any ID and opcode and one question, or one that
// cannot be answered: without a question, or bytes that are no message.
func vfAsked(label string) (wire []byte, ok bool) {
	q := new(dns.Msg)
	q.Id = zzvf.U16(label + ".id")
	q.Opcode = zzvf.Int(label+".opcode", 0, 5)
	q.RecursionDesired = zzvf.Bool(label + ".rd")
	q.Question = []dns.Question{{Name: zzvf.StrOf(label+".name", 1, "aB") + ".test.", Qtype: dns.TypeA, Qclass: 1}}
	k := zzvf.Choose(label, 5)
	if k == 1 {
		q.Question = nil
	}
	wire, err := q.Pack()
	zzvf.Assert(err == nil, "the query can be encoded")
	switch k {
	case 2:
		wire = wire[:len(wire)-5]
	case 3:
		wire = zzvf.Bytes(label+".bytes", 5)
	case 4:
		wire = nil
	}
	return wire, k == 0
}

// UDP, TCP, DoT and DTLS listeners; two queries with any header and letters
// with one question, two or none; any reply header, error or drop.
func VF_W02_server() {
	zzvf.Preempt(0)
	kind := []string{"udp", "udp4", "tcp", "tcp6", "dot", "dtls"}[zzvf.Choose("kind", 6)]
	up, sent := vfOutcomes()
	h := vfServer(kind, ListenOptions{}, up)
	for i := 0; i < 2; i++ {
		q := new(dns.Msg)
		q.Id = zzvf.U16("id")
		q.Opcode = zzvf.Int("opcode", 0, 5)
		q.RecursionDesired = zzvf.Bool("rd")
		q.Question = []dns.Question{{Name: zzvf.StrOf("name", 1, "aB") + ".test.", Qtype: dns.TypeA, Qclass: 1}}
		none := zzvf.Choose("none", 2) == 1
		if none {
			q.Question = nil
		}
		id, n := q.Id, len(up.qs)
		w := &vfWriter{addr: vfPeer(kind, net.IP{127, 0, 0, 1})}
		h.ServeDNS(w, q)
		zzvf.Assert(len(w.msgs) <= 1, "there is at most one reply")
		if none {
			zzvf.Assert(len(up.qs) == n && (len(w.msgs) == 0 || w.msgs[0].Rcode != dns.RcodeSuccess), "a message without a question is not resolved")
			zzvf.Cover("no question")
			continue
		}
		zzvf.Assert(len(up.qs) == n+1 && up.qs[n].Id == id, "the query is resolved")
		var a *dns.Msg
		if len(w.msgs) == 1 {
			a = w.msgs[0]
		}
		want := (*sent)[n]
		zzvf.Assert(vfReplied(a, want), "the reply is the one the outcome calls for")
		zzvf.Cover(map[bool]string{true: "dropped", false: "answered"}[want == nil])
	}
}

// DNS-over-HTTPS listener; two requests, with GET and POST, or another method
// or no message at all for the first; messages with any ID and letters, without
// a question, cut short, of 5 arbitrary bytes and empty.
func VF_W02_doh() {
	zzvf.Preempt(0)
	up, sent := vfOutcomes()
	addr := vfAddr("tcp")
	l, err := NewDoHListener("l", addr, DoHListenerOptions{NoTLS: true}, up)
	zzvf.Assert(err == nil, "the configuration is accepted")
	wire, ok := vfAsked("q1")
	var r vfReq
	switch zzvf.Choose("method", 5) {
	case 0:
		r = vfDoH("GET", wire)
	case 1:
		r = vfDoH("POST", wire)
	case 2:
		r, ok = vfReq{method: "PUT", path: "/dns-query", body: wire}, false
	case 3:
		r, ok = vfReq{method: "GET", path: "/dns-query"}, false
	case 4:
		r, ok = vfReq{method: "GET", path: "/dns-query", query: "dns=!!"}, false
	}
	q := new(dns.Msg)
	q.Question = []dns.Question{{Name: "c.test.", Qtype: dns.TypeA, Qclass: 1}}
	last, _ := q.Pack()
	vfHTTPCheck(vfHTTP(l, addr, false, net.IP{127, 0, 0, 1}, r, vfDoH("POST", last)), up, *sent, ok)
}

// vfHTTPCheck checks the responses to a query that may be malformed and a
// well-formed one after it.
func vfHTTPCheck(out []vfResp, up *vfUp, sent []*dns.Msg, ok bool) {
	zzvf.Assert(len(out) == 2 && out[0].ok && out[1].ok, "every request gets a response")
	if !ok {
		zzvf.Assert(len(sent) == 1, "only well-formed queries are resolved")
		zzvf.Assert(out[0].status >= 400 && out[0].status < 500, "a malformed request is refused")
		zzvf.Cover("malformed")
		out = out[1:]
	}
	zzvf.Assert(len(sent) == len(out), "well-formed queries are resolved")
	for i, r := range out {
		zzvf.Assert(vfReplied(r.msg(), sent[i]), "the reply is the one the outcome calls for")
		if sent[i] == nil {
			zzvf.Assert(r.status >= 400, "a dropped query is not answered")
			zzvf.Cover("dropped")
		}
	}
	zzvf.Cover("answered")
}

// Oblivious target; two messages as above, the first possibly malformed.
func VF_W02_odoh() {
	zzvf.Preempt(0)
	up, sent := vfOutcomes()
	wire, ok := vfAsked("q1")
	q := new(dns.Msg)
	q.Question = []dns.Question{{Name: "c.test.", Qtype: dns.TypeA, Qclass: 1}}
	last, _ := q.Pack()
	out := vfODoH(ODoHListenerOptions{}, up, net.IP{127, 0, 0, 1}, wire, last)
	vfHTTPCheck(out, up, *sent, ok)
}

// DNS-over-QUIC listener; two messages as above on streams of one connection,
// the first possibly malformed.
func VF_W02_doq() {
	zzvf.Preempt(0)
	up, sent := vfOutcomes()
	wire, ok := vfAsked("q1")
	q := new(dns.Msg)
	q.Question = []dns.Question{{Name: "c.test.", Qtype: dns.TypeA, Qclass: 1}}
	last, _ := q.Pack()
	out := vfQUIC(up, ListenOptions{}, net.IP{127, 0, 0, 1}, nil, vfFrame(wire), vfFrame(last))
	if !ok {
		zzvf.Assert(len(*sent) == 1, "only well-formed queries are resolved")
		zzvf.Assert(len(out[0]) == 0, "a malformed query is not answered")
		zzvf.Cover("malformed")
		out = out[1:]
	}
	zzvf.Assert(len(*sent) == len(out), "well-formed queries are resolved")
	for i, b := range out {
		var a *dns.Msg
		if len(b) > 2 {
			a = new(dns.Msg)
			zzvf.Assert(a.Unpack(b[2:]) == nil, "the reply can be decoded")
		}
		// streams of one connection are independent, their order is not fixed
		want := (*sent)[0]
		for j, q := range up.qs {
			if (q.Question[0].Name == "c.test.") == (i == len(out)-1) {
				want = (*sent)[j]
			}
		}
		zzvf.Assert(vfReplied(a, want), "the reply is the one the outcome calls for")
		zzvf.Cover(map[bool]string{true: "dropped", false: "answered"}[want == nil])
	}
}
