package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Any IPv4 or IPv6 client address or none; no EDNS, EDNS without, with one and
// with two subnet options of any address; subnet option used or not; with and
// without alternative resolver; list of an IPv4 and an IPv6 network and an
// address.
func VF_B06_clients() {
	db, err := NewCidrDB("l", vfLoader{[]string{"10.0.0.0/8", "192.0.2.1", "2001:db8::/32"}})
	zzvf.Assert(err == nil, "the list is accepted")
	listed := func(ip net.IP) bool {
		b := []byte(ip)
		v6 := false
		mapped := true
		if len(b) == 16 {
			v6 = b[0] == 0x20 && b[1] == 0x01 && b[2] == 0x0d && b[3] == 0xb8
			for i := 0; i < 12; i++ {
				want := byte(0)
				if i >= 10 {
					want = 0xff
				}
				mapped = mapped && b[i] == want
			}
			b = b[12:]
		}
		return v6 || mapped && (b[0] == 10 || b[0] == 192 && b[1] == 0 && b[2] == 2 && b[3] == 1)
	}
	q := vfQueryOf("a.test.", dns.TypeA)
	ci := ClientInfo{Listener: "l"}
	switch zzvf.Choose("client", 3) {
	case 1:
		ci.SourceIP = net.IP(zzvf.Bytes("client", 4))
	case 2:
		ci.SourceIP = net.IP(zzvf.Bytes("client", 16))
	}
	ip := ci.SourceIP
	useECS := zzvf.Choose("use-ecs", 2) == 1
	switch k := zzvf.Choose("opts", 4); k {
	case 1:
		vfOpt(q, "o", 2)
	case 2, 3:
		o := vfOpt(q, "o", 4)
		if useECS {
			ip = o.Option[1].(*dns.EDNS0_SUBNET).Address
		}
		if k == 3 {
			o.Option = append(o.Option, vfECS("o2"))
		}
	}
	orig := q.Copy()
	normal := vfFixed("normal", new(dns.Msg), nil)
	alt := vfFixed("alt", nil, errVF)
	opt := ClientBlocklistOptions{BlocklistDB: db, UseECS: useECS}
	useAlt := zzvf.Choose("alt", 2) == 1
	if useAlt {
		opt.BlocklistResolver = alt
	}
	r, err := NewClientBlocklist("c", normal, opt)
	zzvf.Assert(err == nil, "the configuration is accepted")
	a, err := r.Resolve(q, ci)
	sent := func(u *vfUp) bool {
		return len(u.qs) == 1 && vfSame(u.qs[0], orig) && u.cis[0].Listener == "l" && zzvf.Equal(u.cis[0].SourceIP, ci.SourceIP)
	}
	zzvf.Assert(vfSame(q, orig), "the query is not changed")
	if ip != nil && zzvf.Fork(listed(ip)) {
		zzvf.Assert(len(normal.qs) == 0, "a listed client's query is not forwarded")
		if useAlt {
			zzvf.Assert(sent(alt) && a == nil && err == errVF, "a listed client's query goes to the alternative resolver")
		} else {
			zzvf.Assert(len(alt.qs) == 0 && err == nil && a.Rcode == dns.RcodeRefused && a.Id == q.Id && a.Response && len(a.Question) == 1 && a.Question[0] == q.Question[0], "a listed client is refused")
		}
		zzvf.Cover("blocked")
		return
	}
	zzvf.Assert(sent(normal) && len(alt.qs) == 0 && a != nil && err == nil, "any other client's query is forwarded unchanged")
	zzvf.Cover("served")
}
