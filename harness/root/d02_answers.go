package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfRecs is a zone's address and alias records by owner, and its wildcard.
type vfRecs struct {
	a     map[string]byte
	cname map[string]string
}

// vfContent is a zone with arbitrary but different addresses.
func vfContent() vfRecs {
	c := vfRecs{map[string]byte{}, map[string]string{"c.ve.": "www.ve.", "d.ve.": "nx.ve."}}
	for _, n := range []string{"www.ve.", "mail.ve.", "a.w.ve.", "*.w.ve."} {
		b := zzvf.U8("address")
		zzvf.Assume(b != 0)
		for _, o := range c.a {
			zzvf.Assume(b != o)
		}
		c.a[n] = b
	}
	return c
}

// truth is the last octet of the address a name resolves to, 0 if it has none,
// and if the name at the end of the chain does not exist.
func (c vfRecs) truth(name string, t uint16) (addr byte, nx bool) {
	if target, ok := c.cname[name]; ok && t != dns.TypeCNAME {
		return c.truth(target, t)
	}
	switch name {
	case "ve.", "w.ve.", "c.ve.", "d.ve.":
		return 0, false
	case "b.w.ve.":
		name = "*.w.ve."
	}
	v, ok := c.a[name]
	if t != dns.TypeA {
		v = 0
	}
	return v, !ok
}

// VF_D02_answers: replies for ten questions about the zone ve. are put together
// from up to two of its genuine record sets or their signatures alone, also
// expanded from its wildcard to other names, and up to two of its genuine
// denial records, one of them possibly expanded from the wildcard (quick: up to
// three in all); the addresses are arbitrary, the reply code is either and an empty reply may repeat another question.
func VF_D02_answers() {
	zzvf.Preempt(0)
	w := vfNewWorld()
	content := vfContent()
	cname := func(name string) dns.RR {
		return &dns.CNAME{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeCNAME, Class: 1, Ttl: 300}, Target: content.cname[name]}
	}
	set := func(name string) []dns.RR {
		return w.genuine("", "ve.", w.a(name, content.a[name]))
	}
	expand := func(set []dns.RR, name string) []dns.RR {
		var out []dns.RR
		for _, r := range set {
			r = dns.Copy(r)
			r.Header().Name = name
			out = append(out, r)
		}
		return out
	}
	types := []uint16{dns.TypeRRSIG, dns.TypeNSEC}
	a, cn := append([]uint16{dns.TypeA}, types...), append([]uint16{dns.TypeCNAME}, types...)
	nsecs := [][]dns.RR{
		w.genuine("", "ve.", w.nsec("ve.", "c.ve.", append([]uint16{dns.TypeNS, dns.TypeSOA}, types...)...)),
		w.genuine("", "ve.", w.nsec("c.ve.", "d.ve.", cn...)),
		w.genuine("", "ve.", w.nsec("d.ve.", "mail.ve.", cn...)),
		w.genuine("", "ve.", w.nsec("mail.ve.", "*.w.ve.", a...)),
		w.genuine("", "ve.", w.nsec("*.w.ve.", "a.w.ve.", a...)),
		w.genuine("", "ve.", w.nsec("a.w.ve.", "www.ve.", a...)),
		w.genuine("", "ve.", w.nsec("www.ve.", "ve.", a...)),
	}
	nsecs = append(nsecs, expand(nsecs[4], "a.w.ve."), expand(nsecs[4], "b.w.ve."))
	sets := [][]dns.RR{
		set("www.ve."), set("mail.ve."), set("a.w.ve."), w.genuine("", "ve.", cname("c.ve.")), w.genuine("", "ve.", cname("d.ve.")),
		expand(set("*.w.ve."), "a.w.ve."), expand(set("*.w.ve."), "b.w.ve."), expand(set("*.w.ve."), "b.a.w.ve."), set("www.ve.")[1:],
	}
	left := 3 + zzvf.Tier()
	pick := func(label string, pool [][]dns.RR) []dns.RR {
		var out []dns.RR
		next := 0
		for i := 0; i < 2 && left > 0; i++ {
			n := zzvf.Choose(label, len(pool)-next+1)
			if n == 0 {
				break
			}
			next += n
			left--
			out = append(out, pool[next-1]...)
		}
		return out
	}
	qs := []dns.Question{{Name: "www.ve.", Qtype: dns.TypeA}, {Name: "www.ve.", Qtype: dns.TypeTXT}, {Name: "c.ve.", Qtype: dns.TypeA}, {Name: "c.ve.", Qtype: dns.TypeCNAME}, {Name: "d.ve.", Qtype: dns.TypeA}, {Name: "nx.ve.", Qtype: dns.TypeA}, {Name: "a.w.ve.", Qtype: dns.TypeA}, {Name: "a.w.ve.", Qtype: dns.TypeTXT}, {Name: "b.w.ve.", Qtype: dns.TypeA}, {Name: "b.a.w.ve.", Qtype: dns.TypeA}}
	q := qs[zzvf.Choose("q", len(qs))]
	answer, ns := pick("answer", sets), pick("denial", nsecs)
	rcode := zzvf.Choose("rcode", 2) * dns.RcodeNameError
	other := q
	if len(answer) == 0 && zzvf.Choose("other question", 2) == 1 {
		other = qs[zzvf.Choose("repeated", len(qs))]
	}
	other.Qclass = 1
	up := &vfUp{id: "up"}
	up.fn = func(m *dns.Msg, _ ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(m)
		name := m.Question[0].Name
		switch {
		case m.Question[0].Qtype == dns.TypeDNSKEY:
			if _, ok := w.ksk[name]; ok {
				a.Answer = w.keys(name)
			}
		case m.CheckingDisabled && name == "ve.":
			a.Answer = w.ds(name)
		case m.CheckingDisabled:
			a.Ns = ns
		default:
			a.Question = []dns.Question{other}
			a.Answer, a.Ns, a.Rcode = answer, ns, rcode
		}
		return a, nil
	}
	v, err := NewDNSSECValidator("sec", up, DNSSECValidatorOptions{TrustAnchors: w.anchors()})
	zzvf.Assert(err == nil, "the validator can be set up")
	m := new(dns.Msg)
	m.SetQuestion(q.Name, q.Qtype)
	m.SetEdns0(1232, true)
	r, err := v.Resolve(m, ClientInfo{})
	zzvf.Assert(err == nil && r != nil, "every reply leads to an answer")
	if r.Rcode == dns.RcodeServerFailure {
		zzvf.Cover("rejected")
		return
	}
	zzvf.Cover("accepted")
	// what the client makes of the reply
	name, addr := q.Name, byte(0)
	alias := true
	for i := 0; i < 3 && alias; i++ {
		alias = false
		for _, x := range r.Answer {
			switch x := x.(type) {
			case *dns.A:
				if x.Hdr.Name == name && q.Qtype == dns.TypeA {
					addr = x.A[3]
				}
			case *dns.CNAME:
				if x.Hdr.Name == name && q.Qtype == dns.TypeCNAME {
					zzvf.Assert(r.Rcode == dns.RcodeSuccess, "a reply with the alias asked for says that it exists")
					return
				}
				if x.Hdr.Name == name {
					name, alias = x.Target, true
				}
			}
		}
	}
	want, nx := content.truth(q.Name, q.Qtype)
	zzvf.Assert(q.Qtype != dns.TypeCNAME, "an existing alias is not denied")
	zzvf.Assert(addr == want, "a client gets the addresses of the name it asked for or the proof that there are none")
	zzvf.Assert((r.Rcode == dns.RcodeNameError) == nx, "a name is said not to exist only if it does not")
}
