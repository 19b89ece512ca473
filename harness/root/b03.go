package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

var (
	vfHostIPs  = []string{"192.0.2.7", "0.0.0.0", "2001:db8::5", "::", "127.0.0.1"}
	vfHostRevs = []string{"7.2.0.192.in-addr.arpa.", "0.0.0.0.in-addr.arpa.", "5.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.8.b.d.0.1.0.0.2.ip6.arpa.", "", "1.0.0.127.in-addr.arpa."}
	vfHostSets = []string{"a.test", "B.test", "a.test. c.test"}
)

func vfHostLines() ([]string, [][2]int) {
	lines := []string{"# 192.0.2.7 d.test", "   "}
	var sel [][2]int
	n := 1 + zzvf.Choose("lines", 2+zzvf.Tier())
	for i := 0; i < n; i++ {
		ip, set := zzvf.Choose("ip", len(vfHostIPs)), zzvf.Choose("names", len(vfHostSets))
		lines = append(lines, vfHostIPs[ip]+" \t"+vfHostSets[set])
		sel = append(sel, [2]int{ip, set})
	}
	return lines, sel
}

// Lists of 1 or 2 (thorough: 3) lines with IPv4, IPv6 and unspecified addresses
// and one or two names each, comments and blank lines; names of one letter (a to
// d, A to D) under test.; any query type but PTR, any class and flags.
func VF_B03_names() {
	lines, sel := vfHostLines()
	db, err := NewHostsDB("h", vfLoader{lines})
	zzvf.Assert(err == nil, "the list is accepted")
	up := vfFixed("up", new(dns.Msg), nil)
	r, err := NewBlocklist("b", up, BlocklistOptions{BlocklistDB: db})
	zzvf.Assert(err == nil, "the configuration is accepted")
	q := vfQuery(zzvf.StrOf("name", 1, "abcdABCD") + ".test.")
	switch zzvf.Choose("type", 3) {
	case 0:
		q.Question[0].Qtype = dns.TypeA
	case 1:
		q.Question[0].Qtype = dns.TypeAAAA
	default:
		t := q.Question[0].Qtype
		zzvf.Assume(t != dns.TypeA && t != dns.TypeAAAA && t != dns.TypePTR)
	}
	orig := q.Copy()
	a, err := r.Resolve(q, ClientInfo{})
	zzvf.Assert(err == nil && a != nil, "there is a reply")
	var want []net.IP
	listed := false
	l := q.Question[0].Name[:1]
	for _, s := range sel {
		in := [][]string{{"a"}, {"b"}, {"a", "c"}}[s[1]]
		for _, n := range in {
			if !zzvf.Fork(vfFold(n, l)) {
				continue
			}
			listed = true
			ip := net.ParseIP(vfHostIPs[s[0]])
			four := ip.To4() != nil
			if !ip.IsUnspecified() && (q.Question[0].Qtype == dns.TypeA && four || q.Question[0].Qtype == dns.TypeAAAA && !four) {
				want = append(want, ip)
			}
		}
	}
	if !listed {
		zzvf.Assert(len(up.qs) == 1 && vfSame(up.qs[0], orig), "a name that is not listed is forwarded")
		zzvf.Cover("forwarded")
		return
	}
	zzvf.Assert(len(up.qs) == 0, "a listed name is not forwarded")
	zzvf.Assert(a.Id == q.Id && a.Response && len(a.Question) == 1 && a.Question[0] == orig.Question[0], "the reply is for the query")
	zzvf.Assert(len(a.Answer) == len(want), "exactly the listed addresses of the family are answered")
	if len(want) == 0 {
		zzvf.Assert(a.Rcode == dns.RcodeNameError, "a name without address of the family is blocked")
		zzvf.Cover("blocked")
		return
	}
	zzvf.Assert(a.Rcode == dns.RcodeSuccess, "addresses are a success")
	for i, rr := range a.Answer {
		h := rr.Header()
		zzvf.Assert(h.Name == q.Question[0].Name && h.Rrtype == q.Question[0].Qtype && h.Class == q.Question[0].Qclass, "records are for the queried name")
		switch x := rr.(type) {
		case *dns.A:
			zzvf.Assert(x.A.Equal(want[i]), "the address is the listed one")
		case *dns.AAAA:
			zzvf.Assert(x.AAAA.Equal(want[i]), "the address is the listed one")
		default:
			zzvf.Assert(false, "only address records are answered")
		}
	}
	zzvf.Cover("answered")
}

// The same lists; reverse queries for the listed and for other addresses.
func VF_B03_reverse() {
	lines, sel := vfHostLines()
	db, err := NewHostsDB("h", vfLoader{lines})
	zzvf.Assert(err == nil, "the list is accepted")
	up := vfFixed("up", new(dns.Msg), nil)
	r, err := NewBlocklist("b", up, BlocklistOptions{BlocklistDB: db})
	zzvf.Assert(err == nil, "the configuration is accepted")
	k := zzvf.Choose("rev", 6)
	rev := "9.2.0.192.in-addr.arpa."
	if k < 5 {
		if vfHostRevs[k] == "" {
			return
		}
		rev = vfHostRevs[k]
		if zzvf.Choose("upper", 2) == 1 {
			rev = rev[:len(rev)-5] + "ARPA."
		}
	}
	q := vfQueryOf(rev, dns.TypePTR)
	a, err := r.Resolve(q, ClientInfo{})
	zzvf.Assert(err == nil && a != nil, "there is a reply")
	var want []string
	for _, s := range sel {
		if s[0] == k {
			want = append(want, [][]string{{"a.test."}, {"B.test."}, {"a.test.", "c.test."}}[s[1]]...)
		}
	}
	if want == nil {
		zzvf.Assert(len(up.qs) == 1, "an address that is not listed is forwarded")
		return
	}
	zzvf.Assert(len(up.qs) == 0 && a.Id == q.Id && a.Rcode == dns.RcodeSuccess && a.Response && len(a.Question) == 1 && a.Question[0] == q.Question[0], "a listed address is answered locally")
	zzvf.Assert(len(a.Answer) == len(want), "with every listed name")
	for i, rr := range a.Answer {
		p, ok := rr.(*dns.PTR)
		zzvf.Assert(ok && p.Ptr == want[i] && p.Hdr.Name == rev, "the name is the listed one")
	}
	zzvf.Cover("reverse")
}
