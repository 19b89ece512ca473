package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfSplit is a way to cut a stream into pieces.
func vfSplit(n int) []int {
	switch zzvf.Choose("split", 5) {
	case 1:
		return []int{1 + zzvf.Choose("at", n)}
	case 2:
		return []int{1, 1, 1}
	case 3:
		return []int{2, 12, 1}
	case 4:
		var s []int
		for i := 0; i < n; i++ {
			s = append(s, 1)
		}
		return s
	}
	return nil
}

// A DNS-over-QUIC stream of a query with any ID and letters, followed by 0 to
// 2 more bytes or ending up to 3 bytes early, whose announced length is 0, up
// to 2 off or 300; delivered in one piece, cut at any place, byte by byte and
// in three and four pieces.
func VF_W06_doq() {
	zzvf.Preempt(0)
	q := new(dns.Msg)
	q.Id = zzvf.U16("id")
	q.Question = []dns.Question{{Name: zzvf.StrOf("name", 2, "ab") + ".test.", Qtype: 1, Qclass: 1}}
	wire, err := q.Pack()
	zzvf.Assert(err == nil, "the query can be encoded")
	announced := []int{len(wire), len(wire) - 1, len(wire) - 2, len(wire) + 1, len(wire) + 2, 0, 300}[zzvf.Choose("announced", 7)]
	s := append([]byte{byte(announced >> 8), byte(announced)}, wire...)
	switch k := zzvf.Choose("end", 6); k {
	case 1, 2:
		s = append(s, zzvf.Bytes("more", k)...)
	case 3, 4, 5:
		s = s[:len(s)-k+2]
	}
	// what arrived counts if the announced bytes are all there and a message
	var want *dns.Msg
	if len(s) >= 2+announced {
		if m := new(dns.Msg); m.Unpack(s[2:2+announced]) == nil {
			want = m
		}
	}
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		return a, nil
	}
	out := vfQUIC(up, ListenOptions{}, []byte{127, 0, 0, 1}, vfSplit(len(s)), s)
	if want == nil || len(want.Question) == 0 {
		zzvf.Assert(len(up.qs) == 0 && len(out[0]) == 0, "an incomplete message is not passed on")
		zzvf.Cover("incomplete")
		return
	}
	zzvf.Assert(len(up.qs) == 1 && vfSame(up.qs[0], want), "the message is passed on as it was sent")
	zzvf.Assert(len(out[0]) >= 2 && int(out[0][0])<<8+int(out[0][1]) == len(out[0])-2, "the reply is framed by its length")
	a := new(dns.Msg)
	zzvf.Assert(a.Unpack(out[0][2:]) == nil && a.Id == want.Id && a.Question[0] == want.Question[0], "the reply is complete")
	zzvf.Cover("whole")
}

// A DNS-over-QUIC client receiving a reply with any ID, letters and address,
// cut short by up to 3 bytes, with a length up to 2 off, 0 or 300.
func VF_W06_client() {
	zzvf.Preempt(0)
	q := new(dns.Msg)
	q.Id = zzvf.U16("id")
	q.Question = []dns.Question{{Name: "ab.test.", Qtype: 1, Qclass: 1}}
	a := new(dns.Msg)
	a.SetReply(q)
	a.Id = zzvf.U16("reply.id")
	a.Answer = []dns.RR{vfRR("an", "ab.test.", 0)}
	k := zzvf.Choose("cut", 8)
	r := vfClientRaw(func(b []byte) []byte {
		wire, _ := a.Pack()
		n := []int{len(wire), len(wire), len(wire), len(wire) + 1, len(wire) + 2, len(wire) - 1, 0, 300}[k]
		s := append([]byte{byte(n >> 8), byte(n)}, wire...)
		if k == 1 || k == 2 {
			s = s[:len(s)-k]
		}
		return s
	})
	b, err := r.Resolve(q, ClientInfo{})
	if k == 0 {
		zzvf.Assert(err == nil && b.Id == q.Id && len(b.Answer) == 1, "a complete reply is returned")
		zzvf.Assert(b.Answer[0].Header().Ttl == a.Answer[0].Header().Ttl && zzvf.Equal(b.Answer[0].(*dns.A).A, a.Answer[0].(*dns.A).A), "the reply is returned as it was sent")
		zzvf.Cover("whole")
		return
	}
	zzvf.Assert(err != nil && b == nil, "an incomplete reply is an error")
	zzvf.Cover("incomplete")
}
