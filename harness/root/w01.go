package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfServed is a resolver that answers everything and remembers the queries.
func vfServed() *vfUp {
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		return a, nil
	}
	return up
}

// UDP, TCP, DoT and DTLS listeners; any IPv4 client (in 4 and 16 byte form) or
// IPv6 client (arbitrary first and last two bytes); no list, or one or two
// networks of either family with prefix lengths 0, 1, 8, 13, 31, 32 (IPv4) and
// 0, 8, 120, 127, 128 (IPv6).
func VF_W01_server() {
	kind := []string{"udp", "udp4", "udp6", "tcp", "tcp4", "dot", "dtls"}[zzvf.Choose("kind", 7)]
	var ip net.IP
	switch zzvf.Choose("ip", 3) {
	case 0:
		ip = net.IP(zzvf.Bytes("ip4", 4))
	case 1:
		ip = append(append(net.IP{}, net.IPv4zero[:12]...), zzvf.Bytes("ip4", 4)...)
	case 2:
		ip = net.ParseIP("2001:db8::")
		ip[0], ip[14], ip[15] = zzvf.U8("ip6.0"), zzvf.U8("ip6.14"), zzvf.U8("ip6.15")
	}
	opt := ListenOptions{}
	want := true
	for i := zzvf.Choose("nets", 3); i > 0; i-- {
		var n *net.IPNet
		if zzvf.Choose("v6", 2) == 0 {
			n = vfNet("net", false, 0, 1, 8, 13, 31, 32)
		} else {
			_, n, _ = net.ParseCIDR([]string{"2001:db8::/0", "2001:db8::/8", "2001:db8::/120", "2001:db8::/127", "2001:db8::/128"}[zzvf.Choose("net6", 5)])
		}
		if len(opt.AllowedNet) == 0 {
			want = false
		}
		want = want || vfContains(n, ip)
		opt.AllowedNet = append(opt.AllowedNet, n)
	}
	up := vfServed()
	h := vfServer(kind, opt, up)
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	w := &vfWriter{addr: vfPeer(kind, ip)}
	h.ServeDNS(w, q)
	zzvf.Assert((len(up.qs) == 1) == want && len(up.qs) <= 1, "exactly the queries of allowed clients are resolved")
	if want {
		zzvf.Assert(len(w.msgs) == 1 && w.msgs[0].Rcode == dns.RcodeSuccess, "an allowed client is answered")
		zzvf.Assert(zzvf.Equal(up.cis[0].SourceIP, ip), "the resolver sees the client's address")
		zzvf.Cover("served")
	} else {
		zzvf.Assert(len(w.msgs) == 0 || w.msgs[0].Rcode == dns.RcodeRefused, "another client is refused")
		zzvf.Cover("refused")
	}
}

// vfLocal is a local client address, and vfLocalNets networks around it.
func vfLocal() net.IP {
	return net.IP{127, byte(zzvf.Int("ip1", 0, 9)), byte(zzvf.Int("ip2", 0, 9)), byte(zzvf.Int("ip3", 1, 9))}
}

func vfLocalNets(ip net.IP) (opt ListenOptions, want bool) {
	want = true
	if zzvf.Choose("nets", 2) == 1 {
		n := vfNet("net", false, 0, 8, 13, 24, 30, 32)
		opt.AllowedNet = []*net.IPNet{n}
		want = vfContains(n, ip)
	}
	return
}

// DNS-over-HTTPS listener; clients 127.d.d.d, no list or one network of any
// address and prefix length 0, 8, 13, 24, 30 or 32; GET and POST.
func VF_W01_doh() {
	zzvf.Preempt(0)
	ip := vfLocal()
	opt, want := vfLocalNets(ip)
	up := vfServed()
	addr := vfAddr("tcp")
	l, err := NewDoHListener("l", addr, DoHListenerOptions{ListenOptions: opt, NoTLS: true}, up)
	zzvf.Assert(err == nil, "the configuration is accepted")
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	wire, _ := q.Pack()
	r := vfHTTP(l, addr, false, ip, vfDoH([]string{"GET", "POST"}[zzvf.Choose("method", 2)], wire))
	zzvf.Assert((len(up.qs) == 1) == want && len(up.qs) <= 1, "exactly the queries of allowed clients are resolved")
	a := r[0].msg()
	if want {
		zzvf.Assert(a != nil && a.Rcode == dns.RcodeSuccess, "an allowed client is answered")
		zzvf.Assert(up.cis[0].SourceIP.Equal(ip), "the resolver sees the client's address")
		zzvf.Cover("served")
	} else {
		zzvf.Assert(a == nil || a.Rcode == dns.RcodeRefused, "another client is refused")
		zzvf.Cover("refused")
	}
}

// DNS-over-QUIC listener; clients and networks as above, two queries on one
// connection.
func VF_W01_doq() {
	zzvf.Preempt(0)
	ip := vfLocal()
	opt, want := vfLocalNets(ip)
	up := vfServed()
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	wire, _ := q.Pack()
	out := vfQUIC(up, opt, ip, nil, vfFrame(wire), vfFrame(wire))
	if want {
		zzvf.Assert(len(up.qs) == 2 && len(out[0]) > 2 && len(out[1]) > 2, "an allowed client is served")
		zzvf.Assert(up.cis[0].SourceIP.Equal(ip) && up.cis[1].SourceIP.Equal(ip), "the resolver sees the client's address")
		zzvf.Cover("served")
	} else {
		zzvf.Assert(len(up.qs) == 0, "the queries of other clients are not resolved")
		zzvf.Cover("refused")
	}
}

// Oblivious target; clients and networks as above.
func VF_W01_odoh() {
	zzvf.Preempt(0)
	ip := vfLocal()
	opt, want := vfLocalNets(ip)
	up := vfServed()
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	wire, _ := q.Pack()
	r := vfODoH(ODoHListenerOptions{ListenOptions: opt}, up, ip, wire)
	zzvf.Assert((len(up.qs) == 1) == want && len(up.qs) <= 1, "exactly the queries of allowed clients are resolved")
	if want {
		a := r[0].msg()
		zzvf.Assert(a != nil && a.Id == q.Id && a.Rcode == dns.RcodeSuccess, "an allowed client is answered")
		zzvf.Cover("served")
	} else {
		zzvf.Cover("refused")
	}
}
