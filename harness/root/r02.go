package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfIn4 tells whether an IPv4 address, in either notation, is inside a.b.0.0/16
// or whatever number of leading bytes is given.
func vfIn4(ip net.IP, prefix ...byte) bool {
	b := []byte(ip)
	if len(b) == 16 {
		m := true
		for i := 0; i < 12; i++ {
			want := byte(0)
			if i >= 10 {
				want = 0xff
			}
			m = m && b[i] == want
		}
		if !m {
			return false
		}
		b = b[12:]
	}
	if len(b) != 4 {
		return false
	}
	ok := true
	for i := range prefix {
		ok = ok && b[i] == prefix[i]
	}
	return ok
}

func vfIn6(ip net.IP, prefix ...byte) bool {
	if len(ip) != 16 {
		return false
	}
	ok := true
	for i := range prefix {
		ok = ok && ip[i] == prefix[i]
	}
	return ok
}

// Any combination of up to all conditions: types (none, A, A+TXT), class (none,
// CH), name pattern, client network (none, IPv4, IPv6), subnet option network,
// DoH path, listener, server name patterns, a window end, inverted or not. Any
// query type and class, one-character name, path, listener and server name out of
// three, any IPv4, IPv6 or no client address, no, one or two subnet options with any
// address, any minute of a Monday.
func VF_R02_match() {
	q := vfQuery(zzvf.StrOf("name", 1, "abA") + ".test.")
	ci := ClientInfo{
		Listener:      zzvf.StrOf("listener", 1, "ab"),
		DoHPath:       "/" + zzvf.StrOf("path", 1, "ab"),
		TLSServerName: zzvf.StrOf("sni", 1, "ab"),
	}
	want := true
	var types, days []string
	var class, name, source, ecs, path, listener, sni, before string
	// half of the conditions at a time unless thorough
	set := zzvf.Choose("set", 2)
	on := func(n int, label string, s int) int {
		if s != set && zzvf.Tier() == 0 {
			return 0
		}
		return zzvf.Choose(label, n)
	}
	switch on(3, "c.types", 0) {
	case 1:
		types = []string{"A"}
		want = want && q.Question[0].Qtype == dns.TypeA
	case 2:
		types = []string{"a", "TXT"}
		want = want && (q.Question[0].Qtype == dns.TypeA || q.Question[0].Qtype == dns.TypeTXT)
	}
	if on(2, "c.class", 0) == 1 {
		class = "CH"
		want = want && q.Question[0].Qclass == dns.ClassCHAOS
	}
	if on(2, "c.name", 1) == 1 {
		name = `^a\.test\.$`
		want = want && q.Question[0].Name == "a.test."
	}
	switch zzvf.Choose("client6", 3) {
	case 0:
		ci.SourceIP = net.IP(zzvf.Bytes("client", 4))
	case 1:
		ci.SourceIP = net.IP(zzvf.Bytes("client", 16))
	}
	switch on(3, "c.source", 0) {
	case 1:
		source = "10.1.0.0/16"
		want = want && vfIn4(ci.SourceIP, 10, 1)
	case 2:
		source = "2001:db8::/32"
		want = want && vfIn6(ci.SourceIP, 0x20, 0x01, 0x0d, 0xb8)
	}
	if on(2, "c.ecs", 0) == 1 {
		ecs = "10.2.0.0/16"
		var last net.IP
		switch zzvf.Choose("opts", 4) {
		case 1:
			vfOpt(q, "o", 1)
		case 2:
			last = vfOpt(q, "o", 3).Option[0].(*dns.EDNS0_SUBNET).Address
		case 3:
			o := vfOpt(q, "o", 4)
			e := vfECS("o2")
			o.Option = append(o.Option, e)
			last = e.Address
		}
		want = want && last != nil && vfIn4(last, 10, 2)
	}
	if on(2, "c.path", 1) == 1 {
		path = "^/a$"
		want = want && ci.DoHPath == "/a"
	}
	if on(2, "c.listener", 1) == 1 {
		listener = "^a$"
		want = want && ci.Listener == "a"
	}
	if on(2, "c.sni", 1) == 1 {
		sni = "^a$"
		want = want && ci.TLSServerName == "a"
	}
	now := zzvf.Int("hour", 0, 23)*60 + zzvf.Int("minute", 0, 59)
	zzvf.SetClock(int64(1699833600+now*60), 0)
	if on(2, "c.before", 1) == 1 {
		before = "12:30"
		want = want && now < 750
	}
	switch on(3, "c.day", 1) {
	case 1:
		days = []string{"mon"}
	case 2:
		days = []string{"tue"}
		want = false
	}
	r, err := NewRoute(name, class, types, days, before, "", source, ecs, path, listener, sni, vfFixed("u", nil, nil))
	zzvf.Assert(err == nil, "the route is accepted")
	inv := zzvf.Choose("invert", 2) == 1
	if inv {
		r.Invert(true)
	}
	zzvf.Assert(vfRouted(r, q, ci) == (want != inv), "the route matches exactly when all conditions do, or the opposite when inverted")
	if want {
		zzvf.Cover("match")
	} else {
		zzvf.Cover("no match")
	}
}
