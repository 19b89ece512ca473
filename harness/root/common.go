package rdns

import (
	"errors"
	"fmt"
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

func init() {
	dns.Id = func() uint16 { return zzvf.U16("dnsid") }
}

// vfLoader is a rule list held in memory.
type vfLoader struct{ rules []string }

func (l vfLoader) Load() ([]string, error) { return l.rules, nil }

var errVF = errors.New("upstream failed")

// vfUp is an upstream resolver that records what it is asked.
type vfUp struct {
	id  string
	fn  func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error)
	qs  []*dns.Msg
	cis []ClientInfo
}

func (u *vfUp) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
	u.qs = append(u.qs, q)
	u.cis = append(u.cis, ci)
	return u.fn(q, ci)
}

func (u *vfUp) String() string { return u.id }

// vfFixed answers every query with the same result.
func vfFixed(id string, a *dns.Msg, err error) *vfUp {
	return &vfUp{id: id, fn: func(*dns.Msg, ClientInfo) (*dns.Msg, error) { return a, err }}
}

// vfQuery is a query with arbitrary ID, type, class and flags.
func vfQuery(name string) *dns.Msg {
	q := new(dns.Msg)
	q.Id = zzvf.U16("q.id")
	q.RecursionDesired = zzvf.Bool("q.rd")
	q.CheckingDisabled = zzvf.Bool("q.cd")
	q.AuthenticatedData = zzvf.Bool("q.ad")
	q.Question = []dns.Question{{Name: name, Qtype: zzvf.U16("q.type"), Qclass: zzvf.U16("q.class")}}
	return q
}

// vfQueryOf is a query with arbitrary ID and flags for a given type.
func vfQueryOf(name string, qtype uint16) *dns.Msg {
	q := vfQuery(name)
	q.Question[0].Qtype = qtype
	q.Question[0].Qclass = dns.ClassINET
	return q
}

// vfOpt adds an EDNS record: 0 none, 1 plain, 2 with a cookie, 3 with a client
// subnet, 4 with both.
func vfOpt(m *dns.Msg, label string, kind int) *dns.OPT {
	if kind == 0 {
		return nil
	}
	o := new(dns.OPT)
	o.Hdr.Name = "."
	o.Hdr.Rrtype = dns.TypeOPT
	o.Hdr.Class = zzvf.U16(label + ".size")
	if zzvf.Bool(label + ".do") {
		o.Hdr.Ttl = 1 << 15
	}
	if kind == 2 || kind == 4 {
		o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "24a5ac1122334455"})
	}
	if kind >= 3 {
		o.Option = append(o.Option, vfECS(label))
	}
	m.Extra = append(m.Extra, o)
	return o
}

// vfECS is an arbitrary well-formed client subnet option.
func vfECS(label string) *dns.EDNS0_SUBNET {
	e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, SourceScope: zzvf.U8(label + ".scope")}
	if zzvf.Choose(label+".family", 2) == 0 {
		e.Family = 1
		e.SourceNetmask = uint8(zzvf.Int(label+".mask", 0, 32))
		e.Address = net.IP(zzvf.Bytes(label+".ip", 4))
	} else {
		e.Family = 2
		e.SourceNetmask = uint8(zzvf.Int(label+".mask", 0, 128))
		e.Address = net.IP(zzvf.Bytes(label+".ip", 16))
	}
	return e
}

// vfRR is a record with arbitrary TTL and data: 0 A, 1 AAAA, 2 CNAME, 3 NS,
// 4 TXT, 5 SOA, 6 PTR, 7 MX, 8 SRV.
func vfRR(label, name string, kind int) dns.RR {
	h := dns.RR_Header{Name: name, Class: dns.ClassINET, Ttl: zzvf.U32(label + ".ttl")}
	switch kind {
	case 0:
		h.Rrtype = dns.TypeA
		return &dns.A{Hdr: h, A: net.IP(zzvf.Bytes(label+".a", 4))}
	case 1:
		h.Rrtype = dns.TypeAAAA
		return &dns.AAAA{Hdr: h, AAAA: net.IP(zzvf.Bytes(label+".aaaa", 16))}
	case 2:
		h.Rrtype = dns.TypeCNAME
		return &dns.CNAME{Hdr: h, Target: zzvf.StrOf(label+".target", 1, "abAB") + ".test."}
	case 3:
		h.Rrtype = dns.TypeNS
		return &dns.NS{Hdr: h, Ns: zzvf.StrOf(label+".target", 1, "abAB") + ".test."}
	case 4:
		h.Rrtype = dns.TypeTXT
		return &dns.TXT{Hdr: h, Txt: []string{zzvf.StrOf(label+".txt", 2, "xyz")}}
	case 5:
		h.Rrtype = dns.TypeSOA
		return &dns.SOA{Hdr: h, Ns: "ns.test.", Mbox: "m.test.", Serial: zzvf.U32(label + ".serial"), Refresh: 1, Retry: 2, Expire: 3, Minttl: zzvf.U32(label + ".minttl")}
	case 6:
		h.Rrtype = dns.TypePTR
		return &dns.PTR{Hdr: h, Ptr: zzvf.StrOf(label+".target", 1, "abAB") + ".test."}
	case 7:
		h.Rrtype = dns.TypeMX
		return &dns.MX{Hdr: h, Preference: zzvf.U16(label + ".pref"), Mx: zzvf.StrOf(label+".target", 1, "abAB") + ".test."}
	}
	h.Rrtype = dns.TypeSRV
	return &dns.SRV{Hdr: h, Priority: 1, Weight: 2, Port: zzvf.U16(label + ".port"), Target: zzvf.StrOf(label+".target", 1, "abAB") + ".test."}
}

// vfHeader makes the header of a reply arbitrary.
func vfHeader(a *dns.Msg) {
	a.Response = true
	a.Rcode = zzvf.Int("a.rcode", 0, 15)
	a.Truncated = zzvf.Bool("a.tc")
	a.Authoritative = zzvf.Bool("a.aa")
	a.RecursionAvailable = zzvf.Bool("a.ra")
	a.AuthenticatedData = zzvf.Bool("a.ad")
}

// vfReply is a reply with an arbitrary header and the given numbers of records
// of arbitrary type out of the first kinds.
func vfReply(q *dns.Msg, names []string, kinds, nAnswer, nNs, nExtra int) *dns.Msg {
	a := new(dns.Msg)
	a.Id = q.Id
	a.RecursionDesired = q.RecursionDesired
	a.CheckingDisabled = q.CheckingDisabled
	a.Question = []dns.Question{q.Question[0]}
	vfHeader(a)
	sec := func(s string, n int) []dns.RR {
		var rrs []dns.RR
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("a.%s%d", s, i)
			rrs = append(rrs, vfRR(l, names[zzvf.Choose(l+".name", len(names))], zzvf.Choose(l+".kind", kinds)))
		}
		return rrs
	}
	a.Answer = sec("an", nAnswer)
	a.Ns = sec("ns", nNs)
	a.Extra = sec("ex", nExtra)
	return a
}

// vfSame tells whether two messages are equal apart from compression.
func vfSame(a, b *dns.Msg) bool { return zzvf.Equal(a, b) }

// vfFold is ASCII case folding.
func vfFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		if x >= 'A' && x <= 'Z' {
			x += 32
		}
		if y >= 'A' && y <= 'Z' {
			y += 32
		}
		ok = ok && x == y
	}
	return ok
}

// vfOutcome is an upstream result: an error, nothing, or a reply.
func vfOutcome(q *dns.Msg, mk func() *dns.Msg) (*dns.Msg, error) {
	switch zzvf.Choose("outcome", 3) {
	case 0:
		return nil, errVF
	case 1:
		return nil, nil
	}
	return mk(), nil
}

// vfRouted tells whether a router with just this route takes the query.
func vfRouted(r *route, q *dns.Msg, ci ClientInfo) bool {
	rt := NewRouter("r")
	rt.Add(r)
	_, err := rt.Resolve(q, ci)
	return err == nil
}

// vfMess alters everything a client-side hop may alter in a reply.
func vfMess(a *dns.Msg) {
	a.Id++
	a.Rcode = 5
	a.Truncated = !a.Truncated
	a.Question[0].Name = "changed.test."
	for _, rrs := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for i, rr := range rrs {
			rr.Header().Name = "changed.test."
			rr.Header().Ttl += 7
			switch r := rr.(type) {
			case *dns.A:
				r.A[0] ^= 1
			case *dns.AAAA:
				r.AAAA[0] ^= 1
			case *dns.CNAME:
				r.Target = "changed.test."
			case *dns.TXT:
				r.Txt[0] = "changed"
			case *dns.MX:
				r.Preference++
			case *dns.OPT:
				for _, o := range r.Option {
					if e, ok := o.(*dns.EDNS0_EDE); ok {
						e.InfoCode++
						e.ExtraText = "changed"
					}
				}
			}
			rrs[i] = &dns.NULL{}
		}
	}
}

// vfElapse moves the clock by an arbitrary time and returns the whole seconds
// that passed since the clock showed no fraction.
func vfElapse(label string, frac int) uint32 {
	s := uint32(zzvf.Int(label, 0, 1<<31-1))
	zzvf.Advance(int64(s))
	if frac > 0 {
		zzvf.AdvanceNano([]int64{0, 1, 999999999}[frac])
	}
	return s
}

// vfTTLs is the smallest TTL of the records that are not options.
func vfTTLs(m *dns.Msg) (min uint32, n int) {
	min = 1<<32 - 1
	for _, rrs := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, rr := range rrs {
			if rr.Header().Rrtype == dns.TypeOPT {
				continue
			}
			n++
			if rr.Header().Ttl < min {
				min = rr.Header().Ttl
			}
		}
	}
	return min, n
}

// vfAnd and vfOr evaluate both sides, so that they do not fork.
func vfAnd(a, b bool) bool { return a && b }
func vfOr(a, b bool) bool  { return a || b }
