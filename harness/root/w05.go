package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// DNS-over-HTTPS requests from 127.d.d.d without a trusted network, or with
// one of any address and prefix length 0, 8, 13, 24, 30 or 32; without a
// forwarding header or with one or two lines and entries of addresses d.d.d.d,
// an IPv6 address, a local address and things that are no address; the allowed
// networks include or exclude the result.
func VF_W05_forwarded() {
	zzvf.Preempt(0)
	ip := net.IP{127, byte(zzvf.Int("ip1", 0, 9)), byte(zzvf.Int("ip2", 0, 9)), byte(zzvf.Int("ip3", 1, 9))}
	opt := DoHListenerOptions{NoTLS: true}
	trusted := false
	if zzvf.Choose("proxy", 2) == 1 {
		opt.HTTPProxyNet = vfNet("proxynet", false, 0, 8, 13, 24, 30, 32)
		trusted = vfContains(opt.HTTPProxyNet, ip)
	}
	client := net.IP{byte(zzvf.Int("x0", 1, 9)), byte(zzvf.Int("x1", 0, 9)), byte(zzvf.Int("x2", 0, 9)), byte(zzvf.Int("x3", 0, 9))}
	entry := func(label string) (string, net.IP) {
		switch zzvf.Choose(label, 7) {
		case 0:
			return client.String(), client
		case 1:
			return " " + client.String() + "  ", client
		case 2:
			return "2001:db8::1", net.ParseIP("2001:db8::1")
		case 3:
			return "unknown", nil
		case 4:
			return "9.9.9.9:80", nil
		case 5:
			return "127.0.0.1", nil // the proxy itself
		}
		return "", nil
	}
	r := vfReq{method: "GET", path: "/dns-query"}
	var last net.IP
	switch zzvf.Choose("shape", 4) {
	case 1:
		var v string
		v, last = entry("e1")
		r.header = [][2]string{{"X-Forwarded-For", v}}
	case 2:
		v, _ := entry("e1")
		var u string
		u, last = entry("e2")
		r.header = [][2]string{{"X-Forwarded-For", v + "," + u}}
	case 3:
		v, _ := entry("e1")
		var u string
		u, last = entry("e2")
		r.header = [][2]string{{"X-Forwarded-For", v}, {"X-Forwarded-For", u}}
	}
	want := ip
	if trusted && last != nil {
		want = last
	}
	allowed := true
	if zzvf.Choose("allow", 2) == 1 {
		n := vfNet("allowed", false, 0, 8, 32)
		opt.AllowedNet = []*net.IPNet{n}
		allowed = vfContains(n, want)
	}
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		return a, nil
	}
	addr := vfAddr("tcp")
	l, err := NewDoHListener("l", addr, opt, up)
	zzvf.Assert(err == nil, "the configuration is accepted")
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	q.Id = 0
	wire, _ := q.Pack()
	d := vfDoH("GET", wire)
	r.query = d.query
	vfHTTP(l, addr, false, ip, r)
	zzvf.Assert((len(up.qs) == 1) == allowed, "access is decided by the client's address")
	if len(up.qs) == 1 {
		zzvf.Assert(up.cis[0].SourceIP.Equal(want), "the address is the connection's unless a trusted proxy names another")
		if trusted && last != nil {
			zzvf.Cover("forwarded")
		} else {
			zzvf.Cover("direct")
		}
	}
}
