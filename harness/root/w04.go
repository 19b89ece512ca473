package rdns

import (
	"strings"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfPaddings counts the padding options of a message and their bytes.
func vfPaddings(m *dns.Msg) (n, bytes int) {
	for _, rr := range m.Extra {
		if o, ok := rr.(*dns.OPT); ok {
			for _, e := range o.Option {
				if p, ok := e.(*dns.EDNS0_PADDING); ok {
					n++
					bytes += len(p.Padding)
				}
			}
		}
	}
	return
}

// vfPadded is a message with a name of the given length and optionally EDNS
// with a cookie and padding of its own.
func vfPadded(m *dns.Msg, edns int, size uint16) {
	if edns == 0 {
		return
	}
	o := vfOpt(m, "o", 1)
	o.SetUDPSize(size)
	if edns >= 2 {
		o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "24a5ac1122334455"})
	}
	if edns >= 3 {
		o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, 37)})
	}
}

// vfLong is a name of the given length.
func vfLong(n int) string {
	s := ".test."
	for n > 0 {
		k := n
		if k > 60 {
			k = 60
		}
		s = "." + strings.Repeat("x", k) + s
		n -= k + 1
	}
	return s[1:]
}

// Queries sent by the plain, DoT, DTLS and DoH clients: names of 4 lengths
// (thorough: 12), no EDNS, or EDNS with any flag, with a cookie and with
// padding of its own.
func VF_W04_query() {
	zzvf.Preempt(0)
	kind := []string{"udp", "tcp", "dot", "dtls", "doh-post"}[zzvf.Choose("kind", 5)]
	q := new(dns.Msg)
	n := []int{1, 59, 60, 200}
	if zzvf.Tier() > 0 {
		n = []int{1, 2, 30, 55, 58, 59, 60, 61, 62, 187, 200, 240}
	}
	q.SetQuestion(vfLong(n[zzvf.Choose("len", len(n))]), dns.TypeA)
	edns := zzvf.Choose("edns", 4)
	vfPadded(q, edns, 1232)
	q0 := q.Copy()
	var wire []byte
	r := vfClient(kind, func(b []byte) []byte {
		wire = b
		m := new(dns.Msg)
		if m.Unpack(b) != nil {
			return nil
		}
		a := new(dns.Msg)
		a.SetReply(m)
		out, _ := a.Pack()
		return out
	})
	_, err := r.Resolve(q, ClientInfo{})
	zzvf.Assert(err == nil && len(wire) > 0, "the query is answered")
	zzvf.Assert(vfSame(q, q0), "the caller's query is not changed")
	m := new(dns.Msg)
	zzvf.Assert(m.Unpack(wire) == nil, "the query is well-formed")
	pads, _ := vfPaddings(m)
	if edns == 0 || kind == "udp" || kind == "tcp" {
		zzvf.Assert(pads == 0, "a plain query carries no padding")
		zzvf.Assert((m.IsEdns0() != nil) == (edns > 0), "EDNS is kept")
		zzvf.Cover("plain")
		return
	}
	zzvf.Assert(len(wire)%128 == 0 && pads == 1, "a query over an encrypted transport is padded once to a multiple of 128 bytes")
	zzvf.Assert(len(m.IsEdns0().Option) == []int{0, 1, 2, 2}[edns], "other options are kept")
	zzvf.Cover("padded")
}

// Replies of UDP, TCP, DoT, DTLS and DoH listeners: queries without EDNS or
// with any advertised size; replies with 0, 18, 19 or 40 (thorough: also 5 and
// 30) address records without EDNS or with padding of their own.
func VF_W04_reply() {
	zzvf.Preempt(0)
	kind := []string{"udp", "udp4", "tcp", "tcp6", "dot", "dtls", "doh"}[zzvf.Choose("kind", 7)]
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	size := zzvf.U16("size")
	edns := zzvf.Choose("edns", 2)
	vfPadded(q, edns, size)
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		for i := []int{0, 18, 19, 40, 5, 30}[zzvf.Choose("n", 4+2*zzvf.Tier())]; i > 0; i-- {
			a.Answer = append(a.Answer, &dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: 1, Ttl: 60}, A: []byte{192, 0, 2, byte(i)}})
		}
		vfPadded(a, 3*zzvf.Choose("redns", 2), 1232)
		return a, nil
	}
	var wire []byte
	if kind == "doh" {
		addr := vfAddr("tcp")
		l, err := NewDoHListener("l", addr, DoHListenerOptions{NoTLS: true}, up)
		zzvf.Assert(err == nil, "the configuration is accepted")
		in, _ := q.Pack()
		wire = vfHTTP(l, addr, false, []byte{127, 0, 0, 1}, vfDoH("POST", in))[0].body
	} else {
		w := &vfWriter{addr: vfPeer(kind, []byte{127, 0, 0, 1})}
		vfServer(kind, ListenOptions{}, up).ServeDNS(w, q)
		zzvf.Assert(len(w.msgs) == 1, "the query is answered")
		wire, _ = w.msgs[0].Pack()
	}
	m := new(dns.Msg)
	zzvf.Assert(len(wire) > 0 && m.Unpack(wire) == nil, "the reply is well-formed")
	pads, bytes := vfPaddings(m)
	secure := kind == "dot" || kind == "dtls" || kind == "doh"
	if !secure {
		zzvf.Assert(pads == 0, "a plain reply carries no padding")
		zzvf.Cover("plain")
		return
	}
	if edns == 0 {
		return
	}
	zzvf.Assert(pads == 1, "a reply over an encrypted transport carries one padding option")
	bare := len(wire) - bytes
	next := (bare + 467) / 468 * 468
	zzvf.Assert(len(wire)%468 == 0 || next > int(size) || bare > int(size)-468, "the reply is padded to a multiple of 468 bytes")
	zzvf.Assert(bytes == 0 || len(wire) <= int(size), "padding does not exceed the size limit")
	if len(wire)%468 == 0 {
		zzvf.Cover("padded")
	} else {
		zzvf.Cover("limited")
	}
}
