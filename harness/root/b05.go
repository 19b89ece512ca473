package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfListedIP tells whether an address is in 10.0.0.0/8, 192.0.2.1/32 or
// 2001:db8::/32.
func vfListedIP(ip net.IP) bool {
	if len(ip) == 16 && zzvf.Fork(vfIn6b(ip, 0x20, 0x01, 0x0d, 0xb8)) {
		return true
	}
	return vfIn4b(ip, 10) || vfIn4b(ip, 192, 0, 2, 1)
}

func vfIn4b(ip net.IP, prefix ...byte) bool {
	ok := true
	if len(ip) == 16 {
		for i := 0; i < 12; i++ {
			want := byte(0)
			if i >= 10 {
				want = 0xff
			}
			ok = ok && ip[i] == want
		}
		ip = ip[12:]
	}
	for i := range prefix {
		ok = ok && ip[i] == prefix[i]
	}
	return ok
}

func vfIn6b(ip net.IP, prefix ...byte) bool {
	ok := true
	for i := range prefix {
		ok = ok && ip[i] == prefix[i]
	}
	return ok
}

// vfAnyIPs is a list of which only the last byte of an address decides.
type vfAnyIPs struct{}

func (vfAnyIPs) Reload() (IPBlocklistDB, error) { return vfAnyIPs{}, nil }
func (vfAnyIPs) Close() error                   { return nil }
func (vfAnyIPs) String() string                 { return "any" }
func (vfAnyIPs) Match(ip net.IP) (*BlocklistMatch, bool) {
	if zzvf.Fork(vfAnyListed(ip)) {
		return &BlocklistMatch{List: "l", Rule: "r"}, true
	}
	return nil, false
}

func vfAnyListed(ip net.IP) bool { return ip[len(ip)-1] == 1 }

func vfIPList() IPBlocklistDB {
	db, err := NewCidrDB("l", vfLoader{[]string{"10.0.0.0/8", "192.0.2.1", "2001:db8::/32"}})
	zzvf.Assert(err == nil, "the list is accepted")
	return db
}

// checkReplaced asserts the reply for a blocked response.
func vfReplaced(q, a *dns.Msg, err error, alt *vfUp, useAlt bool, orig *dns.Msg) {
	if useAlt {
		zzvf.Assert(len(alt.qs) == 1 && vfSame(alt.qs[0], orig) && a == nil && err == errVF, "a blocked reply is replaced by the alternative resolver's")
		return
	}
	zzvf.Assert(len(alt.qs) == 0 && err == nil && a != nil && a.Rcode == dns.RcodeNameError && len(a.Answer)+len(a.Ns)+len(a.Extra) == 0 &&
		a.Id == q.Id && a.Response && len(a.Question) == 1 && a.Question[0] == orig.Question[0], "a blocked reply is replaced by a name error")
}

// Replies with an arbitrary header and up to 2 answer, 1 authority and 1
// additional records of type A, AAAA and CNAME with any address, any of them
// listed or not; blocking or filtering, inverted or not, with and without an
// alternative resolver; errors and drops.
func VF_B05_ip() {
	vfB05(vfAnyIPs{}, vfAnyListed, zzvf.Choose("nan", 3), zzvf.Choose("nns", 2), zzvf.Choose("nex", 2))
}

// As before with a single record (A in 4 or 16 byte form, AAAA, CNAME) in one
// of the sections and a loaded list of an IPv4 and an IPv6 network and an IPv4
// address.
func VF_B05_cidr() {
	n := []int{0, 0, 0}
	n[zzvf.Choose("section", 3)] = 1
	vfB05(vfIPList(), vfListedIP, n[0], n[1], n[2])
}

func vfB05(db IPBlocklistDB, listed func(net.IP) bool, nan, nns, nex int) {
	q := vfQueryOf("a.test.", dns.TypeA)
	orig := q.Copy()
	var reply *dns.Msg
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		return vfOutcome(q, func() *dns.Msg {
			reply = vfReply(q, []string{"a.test."}, 3, nan, nns, nex)
			if nan+nns+nex == 1 && nan == 1 {
				if x, ok := reply.Answer[0].(*dns.A); ok && zzvf.Choose("mapped", 2) == 1 {
					x.A = x.A.To16()
				}
			}
			return reply
		})
	}
	alt := vfFixed("alt", nil, errVF)
	opt := ResponseBlocklistIPOptions{BlocklistDB: db, Filter: zzvf.Choose("filter", 2) == 1, Inverted: zzvf.Choose("inverted", 2) == 1}
	useAlt := zzvf.Choose("alt", 2) == 1
	if useAlt {
		opt.BlocklistResolver = alt
	}
	r, err := NewResponseBlocklistIP("r", up, opt)
	zzvf.Assert(err == nil, "the configuration is accepted")
	// the reply is made while resolving, so its original is kept here
	var before *dns.Msg
	inner := up.fn
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a, err := inner(q, ci)
		if a != nil {
			before = a.Copy()
		}
		return a, err
	}
	a, err := r.Resolve(q, ClientInfo{})
	zzvf.Assert(len(up.qs) == 1 && vfSame(up.qs[0], orig), "the upstream is asked once, the client's query")
	if before == nil {
		zzvf.Assert(a == nil && len(alt.qs) == 0, "errors and drops are passed on")
		return
	}
	if before.Rcode != dns.RcodeSuccess {
		zzvf.Assert(a != nil && err == nil && vfSame(a, before) && len(alt.qs) == 0, "replies that are no success are passed on")
		return
	}
	bad := 0
	keep := func(rrs []dns.RR) []dns.RR {
		var out []dns.RR
		for _, rr := range rrs {
			var ip net.IP
			switch x := rr.(type) {
			case *dns.A:
				ip = x.A
			case *dns.AAAA:
				ip = x.AAAA
			}
			if ip != nil && zzvf.Fork(listed(ip)) != opt.Inverted {
				bad++
				continue
			}
			out = append(out, rr)
		}
		return out
	}
	an, ns, ex := keep(before.Answer), keep(before.Ns), keep(before.Extra)
	switch {
	case bad == 0:
		zzvf.Assert(a != nil && err == nil && vfSame(a, before) && len(alt.qs) == 0, "a reply without listed addresses is returned unchanged")
		zzvf.Cover("unchanged")
	case !opt.Filter || len(an) == 0 && len(before.Answer) > 0:
		vfReplaced(q, a, err, alt, useAlt, orig)
		zzvf.Cover("replaced")
	default:
		want := before.Copy()
		want.Answer, want.Ns, want.Extra = an, ns, ex
		zzvf.Assert(a != nil && err == nil && vfSame(a, want) && len(alt.qs) == 0, "exactly the listed records are removed")
		zzvf.Cover("filtered")
	}
}

// Replies with any header and up to 2 answer, 1 authority and 1 additional
// records with target names of one letter out of four; list with one name;
// inverted or not, with and without an alternative resolver.
func VF_B05_name() {
	q := vfQueryOf("a.test.", dns.TypeA)
	orig := q.Copy()
	var before *dns.Msg
	up := &vfUp{id: "up"}
	kinds := []int{0, 2, 3, 5, 6, 7, 8, 9}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		return vfOutcome(q, func() *dns.Msg {
			a := vfReply(q, nil, 1, 0, 0, 0)
			for i, n := range []int{zzvf.Choose("nan", 3), zzvf.Choose("nns", 2), zzvf.Choose("nex", 2)} {
				for j := 0; j < n; j++ {
					nk := len(kinds)
					if j > 0 || i > 0 {
						nk = 3
					}
					var rr dns.RR
					if k := kinds[zzvf.Choose("kind", nk)]; k == 9 {
						rr = &dns.HTTPS{SVCB: dns.SVCB{Hdr: dns.RR_Header{Name: "a.test.", Rrtype: dns.TypeHTTPS, Class: 1}, Target: zzvf.StrOf("rr.target", 1, "abAB") + ".test."}}
					} else {
						rr = vfRR("rr", "a.test.", k)
						if s, ok := rr.(*dns.SOA); ok {
							s.Ns = zzvf.StrOf("rr.target", 1, "abAB") + ".test."
						}
					}
					switch i {
					case 0:
						a.Answer = append(a.Answer, rr)
					case 1:
						a.Ns = append(a.Ns, rr)
					case 2:
						a.Extra = append(a.Extra, rr)
					}
				}
			}
			before = a.Copy()
			return a
		})
	}
	alt := vfFixed("alt", nil, errVF)
	db, err := NewDomainDB("l", vfLoader{[]string{"b.test"}})
	zzvf.Assert(err == nil, "the list is accepted")
	opt := ResponseBlocklistNameOptions{BlocklistDB: db, Inverted: zzvf.Choose("inverted", 2) == 1}
	useAlt := zzvf.Choose("alt", 2) == 1
	if useAlt {
		opt.BlocklistResolver = alt
	}
	r, err := NewResponseBlocklistName("r", up, opt)
	zzvf.Assert(err == nil, "the configuration is accepted")
	a, err := r.Resolve(q, ClientInfo{})
	zzvf.Assert(len(up.qs) == 1 && vfSame(up.qs[0], orig), "the upstream is asked once, the client's query")
	if before == nil {
		zzvf.Assert(a == nil && len(alt.qs) == 0, "errors and drops are passed on")
		return
	}
	bad := false
	for _, rrs := range [][]dns.RR{before.Answer, before.Ns, before.Extra} {
		for _, rr := range rrs {
			t := ""
			switch x := rr.(type) {
			case *dns.CNAME:
				t = x.Target
			case *dns.NS:
				t = x.Ns
			case *dns.PTR:
				t = x.Ptr
			case *dns.MX:
				t = x.Mx
			case *dns.SRV:
				t = x.Target
			case *dns.SOA:
				t = x.Ns
			case *dns.HTTPS:
				t = x.Target
			default:
				continue
			}
			bad = bad || vfFold(t, "b.test.") != opt.Inverted
		}
	}
	if bad {
		vfReplaced(q, a, err, alt, useAlt, orig)
		zzvf.Cover("replaced")
	} else {
		zzvf.Assert(a != nil && err == nil && vfSame(a, before) && len(alt.qs) == 0, "a reply without listed names is returned unchanged")
		zzvf.Cover("unchanged")
	}
}
