package rdns

import (
	"context"
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

type vfProbeConn struct{ net.Conn }

func (vfProbeConn) Close() error { return nil }

// vfProbe is the end of a connection attempt.
type vfProbe struct {
	addr string
	gate chan struct{}
	ok   bool
}

// VF_G04_probe: answers to A, AAAA and MX queries with two or three (thorough:
// four) addresses and a CNAME or an address of the other kind at any place or
// none, any TTLs and minimum TTL. The connection attempts succeed or fail in every order, one or two
// at a time, or some of them never end; one deviation from the order of starting.
func VF_G04_probe() {
	zzvf.Preempt(0)
	zzvf.Delays(1)
	qtype := []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeMX}[zzvf.Choose("qtype", 3)]
	waitAll := zzvf.Choose("wait-all", 2) == 1
	min := zzvf.U32("min")
	n := 2 + zzvf.Choose("addresses", 2+zzvf.Tier())
	q := vfQueryOf("a.test.", qtype)
	up := new(dns.Msg)
	up.SetReply(q)
	record := func(t uint16, i byte) dns.RR {
		h := dns.RR_Header{Name: "a.test.", Rrtype: t, Class: 1, Ttl: zzvf.U32("ttl")}
		switch t {
		case dns.TypeA:
			return &dns.A{Hdr: h, A: net.IP{192, 0, 2, i}}
		case dns.TypeAAAA:
			return &dns.AAAA{Hdr: h, AAAA: net.IP{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, i}}
		}
		return &dns.CNAME{Hdr: h, Target: "b.test."}
	}
	number := func(rr dns.RR) int {
		switch r := rr.(type) {
		case *dns.A:
			return int(r.A[3])
		case *dns.AAAA:
			return int(r.AAAA[15])
		}
		return 0
	}
	atype := qtype
	if qtype == dns.TypeMX {
		atype = dns.TypeA
	}
	other := zzvf.Choose("other", n+2)
	otherType := dns.TypeCNAME
	if other <= n && zzvf.Choose("other.address", 2) == 1 {
		otherType = dns.TypeA + dns.TypeAAAA - atype
	}
	for i := 0; i <= n; i++ {
		if i == other {
			up.Answer = append(up.Answer, record(otherType, 99))
		}
		if i < n {
			up.Answer = append(up.Answer, record(atype, byte(i+1)))
		}
	}
	up.Ns = []dns.RR{record(atype, 50)}
	orig := up.Copy()
	var probes []*vfProbe
	zzvf.Env("(*net.Dialer).DialContext", func(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
		p := &vfProbe{addr: addr, gate: make(chan struct{}, 1)}
		probes = append(probes, p)
		select {
		case <-p.gate:
			if p.ok {
				return vfProbeConn{}, nil
			}
			return nil, errVF
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	})
	r := NewFastestTCP("f", vfFixed("up", up, nil), FastestTCPOptions{WaitAll: waitAll, SuccessTTLMin: min})
	var a *dns.Msg
	var err error
	done := make(chan struct{}, 1)
	zzvf.Go(func() {
		a, err = r.Resolve(q, ClientInfo{})
		done <- struct{}{}
	})
	zzvf.Settle()
	var order []int // addresses by time of success
	ties := false
	failed := false
	if qtype == dns.TypeMX {
		zzvf.Assert(len(probes) == 0 && len(done) == 1, "only addresses are probed")
	} else {
		zzvf.Assert(len(probes) == n && len(done) == 0, "every address is probed once")
		left := append([]*vfProbe(nil), probes...)
		take := func() *vfProbe {
			i := zzvf.Choose("next", len(left))
			p := left[i]
			left = append(append([]*vfProbe(nil), left[:i]...), left[i+1:]...)
			p.ok = zzvf.Choose("ok", 2) == 1
			return p
		}
		for len(left) > 0 && len(done) == 0 {
			if zzvf.Choose("stop", 2) == 1 {
				failed = true
				break
			}
			batch := []*vfProbe{take()}
			if len(left) > 0 && zzvf.Choose("together", 2) == 1 {
				batch = append(batch, take())
				ties = true
			}
			for _, p := range batch {
				p.gate <- struct{}{}
				if !p.ok {
					failed = true
					continue
				}
				for i := 0; i < n; i++ {
					want := net.JoinHostPort(net.IP{192, 0, 2, byte(i + 1)}.String(), "443")
					if qtype == dns.TypeAAAA {
						want = net.JoinHostPort(record(dns.TypeAAAA, byte(i+1)).(*dns.AAAA).AAAA.String(), "443")
					}
					if p.addr == want {
						order = append(order, i+1)
					}
				}
			}
			zzvf.Settle()
		}
	}
	// the time limit ends what is still waiting
	<-done
	zzvf.Assert(err == nil && a != nil, "the answer is returned")
	zzvf.Assert(len(a.Answer) == len(orig.Answer) && len(a.Ns) == 1 && len(a.Extra) == 0 && number(a.Ns[0]) == 50, "no records are added or lost")
	var got []int
	seen := make([]int, 100)
	same := true
	for i, rr := range a.Answer {
		o := orig.Answer[i]
		zzvf.Assert(rr.Header().Rrtype == o.Header().Rrtype, "other records stay where they are")
		k := number(rr)
		seen[k]++
		zzvf.Assert(seen[k] == 1, "every record is there once")
		if rr.Header().Rrtype == atype {
			got = append(got, k)
			same = same && k == number(o)
		} else {
			zzvf.Assert(k == number(o), "other records stay as they are")
		}
		for _, x := range orig.Answer {
			if x.Header().Rrtype == rr.Header().Rrtype && number(x) == k {
				t, u := rr.Header().Ttl, x.Header().Ttl
				zzvf.Assert(vfOr(t == u, vfAnd(t == min, u < min)), "the TTL is the original or the minimum")
			}
		}
	}
	if qtype == dns.TypeMX {
		zzvf.Assert(same, "answers to other queries are not changed")
		return
	}
	switch {
	case waitAll && failed:
		zzvf.Assert(same, "the order stays as it is when probing fails")
		zzvf.Cover("failed")
	case waitAll && !ties:
		for i, k := range order {
			zzvf.Assert(got[i] == k, "addresses are ordered by speed")
		}
		zzvf.Cover("all")
	case waitAll:
		// two at a time
	case !failed && !ties:
		zzvf.Assert(got[0] == order[0], "the fastest address comes first")
		zzvf.Cover("fastest")
	case !ties:
		zzvf.Assert(same, "the order stays as it is when the first attempt fails")
		zzvf.Cover("first failed")
	case len(order) == 2:
		zzvf.Assert(got[0] == order[0] || got[0] == order[1], "one of the fastest addresses comes first")
	}
}

// VF_G04_many: an answer with 34 addresses; the connection attempt to any one
// of them succeeds first, the others do not end (waiting for one) or succeed in
// the reverse order (waiting for all).
func VF_G04_many() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	const n = 34
	q := vfQueryOf("a.test.", dns.TypeA)
	up := new(dns.Msg)
	up.SetReply(q)
	for i := 0; i < n; i++ {
		up.Answer = append(up.Answer, &dns.A{Hdr: dns.RR_Header{Name: "a.test.", Rrtype: dns.TypeA, Class: 1}, A: net.IP{192, 0, 2, byte(i)}})
	}
	var probes []*vfProbe
	zzvf.Env("(*net.Dialer).DialContext", func(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
		p := &vfProbe{addr: addr, gate: make(chan struct{}, 1)}
		probes = append(probes, p)
		select {
		case <-p.gate:
			return vfProbeConn{}, nil
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	})
	waitAll := zzvf.Choose("wait-all", 2) == 1
	r := NewFastestTCP("f", vfFixed("up", up, nil), FastestTCPOptions{WaitAll: waitAll})
	var a *dns.Msg
	done := make(chan struct{}, 1)
	zzvf.Go(func() {
		a, _ = r.Resolve(q, ClientInfo{})
		done <- struct{}{}
	})
	zzvf.Settle()
	first := zzvf.Choose("first", len(probes))
	probes[first].gate <- struct{}{}
	zzvf.Settle()
	for i := len(probes) - 1; waitAll && i >= 0; i-- {
		if i != first {
			probes[i].gate <- struct{}{}
			zzvf.Settle()
		}
	}
	<-done
	zzvf.Assert(a != nil && len(a.Answer) == n, "no records are added or lost")
	seen := make([]bool, n)
	for _, rr := range a.Answer {
		k := rr.(*dns.A).A[3]
		zzvf.Assert(!seen[k], "every record is there once")
		seen[k] = true
	}
	zzvf.Assert(net.JoinHostPort(a.Answer[0].(*dns.A).A.String(), "443") == probes[first].addr, "the fastest address comes first")
	zzvf.Cover("done")
}
