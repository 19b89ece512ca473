package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

type vfPfx struct {
	s  string
	ip []byte
	l  int
}

func vfPrefixes() []vfPfx {
	return []vfPfx{
		{"64:ff9b::/96", []byte{0, 0x64, 0xff, 0x9b}, 96},
		{"2001:db8::/32", []byte{0x20, 1, 0xd, 0xb8}, 32},
		{"2001:db8:100::/40", []byte{0x20, 1, 0xd, 0xb8, 1}, 40},
		{"2001:db8:122::/48", []byte{0x20, 1, 0xd, 0xb8, 1, 0x22}, 48},
		{"2001:db8:122:300::/56", []byte{0x20, 1, 0xd, 0xb8, 1, 0x22, 3}, 56},
		{"2001:db8:122:344::/64", []byte{0x20, 1, 0xd, 0xb8, 1, 0x22, 3, 0x44}, 64},
		{"2001:db8:122:344:5:6:7:8/96", []byte{0x20, 1, 0xd, 0xb8, 1, 0x22, 3, 0x44, 0, 5, 0, 6}, 96},
	}
}

// vfEmbeds is RFC 6052 section 2.2 written from the standard: the prefix, then
// the IPv4 bits skipping bits 64 to 71, then zeros.
func vfEmbeds(p vfPfx, ip6, ip4 net.IP) bool {
	if len(ip6) != 16 {
		return false
	}
	ok := true
	pos := 0
	for ; pos < p.l/8; pos++ {
		b := byte(0)
		if pos < len(p.ip) {
			b = p.ip[pos]
		}
		ok = ok && ip6[pos] == b
	}
	for i := 0; i < 4; i++ {
		if pos == 8 && p.l != 96 {
			ok = ok && ip6[pos] == 0
			pos++
		}
		ok = ok && ip6[pos] == ip4[i]
		pos++
	}
	for ; pos < 16; pos++ {
		ok = ok && ip6[pos] == 0
	}
	return ok
}

// One of the 7 prefixes (all six lengths) or two of them together; the AAAA
// reply carries up to 1 (thorough 2) records of type A/AAAA/CNAME and any header, the A
// reply up to 2 records, any header, an error or nothing; query type/class,
// DO bit, IPv4 address bits, owner names (two) and TTLs are arbitrary.
func VF_M05_dns64() {
	ps := vfPrefixes()
	var use []vfPfx
	n := zzvf.Choose("prefix", len(ps)+1)
	if n < len(ps) {
		use = ps[n : n+1]
	} else {
		use = []vfPfx{ps[1], ps[0]}
	}
	var opt DNS64Options
	for _, p := range use {
		opt.Prefixes = append(opt.Prefixes, p.s)
	}
	if n == 0 && zzvf.Choose("default", 2) == 1 {
		opt.Prefixes = nil
	}
	q := vfQuery("a.test.")
	do := vfOpt(q, "q.opt", zzvf.Choose("q.edns", 2)) != nil
	if do {
		do = q.IsEdns0().Do()
	}
	var first, second *dns.Msg
	var err1, err2 error
	switch zzvf.Choose("first", 3) {
	case 0:
		err1 = errVF
	case 1:
	default:
		first = vfReply(q, []string{"a.test."}, 3, zzvf.Choose("n1", 2+zzvf.Tier()), 0, 0)
	}
	var want *dns.Msg
	if first != nil {
		want = first.Copy()
	}
	up := &vfUp{id: "up"}
	up.fn = func(m *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if len(up.qs) == 1 {
			return first, err1
		}
		switch zzvf.Choose("second", 3) {
		case 0:
			err2 = errVF
		case 1:
		default:
			second = new(dns.Msg)
			second.SetReply(m)
			second.Rcode = zzvf.Int("b.rcode", 0, 5)
			nb := zzvf.Choose("n2", 3)
			for i := 0; i < nb; i++ {
				l := "b" + string(rune('0'+i))
				second.Answer = append(second.Answer, vfRR(l, zzvf.StrOf(l+".owner", 1, "ab")+".test.", []int{0, 2}[zzvf.Choose(l+".kind", 2)]))
			}
			return second.Copy(), nil
		}
		return nil, err2
	}
	r, err := NewDNS64("d", up, opt)
	zzvf.Assert(err == nil, "valid prefixes accepted")
	q0 := q.Copy()
	a, err := r.Resolve(q, ClientInfo{})
	zzvf.Assert(zzvf.Equal(q, q0), "the client's query is not modified")
	zzvf.Assert(len(up.qs) >= 1 && zzvf.Equal(up.qs[0], q0), "the query itself is asked first")

	native := false
	if first != nil {
		for _, rr := range want.Answer {
			native = native || rr.Header().Rrtype == dns.TypeAAAA
		}
	}
	may := q.Question[0].Qtype == dns.TypeAAAA && !do && err1 == nil && first != nil
	if may {
		may = want.Rcode == dns.RcodeSuccess && !native
	}
	if !may {
		zzvf.Cover("pass")
		zzvf.Assert(len(up.qs) == 1, "no address lookup unless synthesis is needed")
		zzvf.Assert(err == err1 && zzvf.Equal(a, want), "answer passed unchanged")
		return
	}
	zzvf.Assert(len(up.qs) == 2, "one address lookup")
	aq := q0.Copy()
	aq.Question[0].Qtype = dns.TypeA
	zzvf.Assert(zzvf.Equal(up.qs[1], aq), "the same question is asked for IPv4 addresses")
	var addrs []*dns.A
	var cn []dns.RR
	if second != nil && second.Rcode == dns.RcodeSuccess {
		for _, rr := range second.Answer {
			switch x := rr.(type) {
			case *dns.A:
				addrs = append(addrs, x)
			default:
				cn = append(cn, rr)
			}
		}
	}
	zzvf.Assert(err == nil, "no error")
	if len(addrs) == 0 {
		zzvf.Cover("nothing to synthesise")
		zzvf.Assert(zzvf.Equal(a, want), "original answer kept")
		return
	}
	zzvf.Cover("synthesised")
	zzvf.Assert(a.Id == q0.Id && zzvf.Equal(a.Question, q0.Question) && a.Rcode == 0 && a.Response, "reply belongs to the query")
	// every address is synthesised for every prefix; aliases are kept
	zzvf.Assert(len(a.Answer) == len(cn)+len(addrs)*len(use), "one record per address and prefix, aliases kept")
	used := make([]bool, len(a.Answer))
	for _, x := range addrs {
		for _, p := range use {
			found := false
			for i, rr := range a.Answer {
				s, ok := rr.(*dns.AAAA)
				if !ok || used[i] || found {
					continue
				}
				if vfEmbeds(p, s.AAAA, x.A) && s.Hdr.Name == x.Hdr.Name && s.Hdr.Ttl == x.Hdr.Ttl && s.Hdr.Rrtype == dns.TypeAAAA && s.Hdr.Class == q0.Question[0].Qclass {
					used[i] = true
					found = true
				}
			}
			zzvf.Assert(found, "each address is embedded in each prefix")
		}
	}
	for _, c := range cn {
		found := false
		for _, rr := range a.Answer {
			found = found || zzvf.Equal(rr, c)
		}
		zzvf.Assert(found, "aliases kept")
	}
	zzvf.Observe("n", len(a.Answer))
	zzvf.Observe("first", a.Answer[len(a.Answer)-1].(*dns.AAAA).AAAA)
}
