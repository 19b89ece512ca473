package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfNetwork is the network of a client: its family and the leading bits.
func vfNetwork(ip net.IP, p4, p6 int) [17]byte {
	var k [17]byte
	b, n := ip.To4(), p4
	if b == nil {
		b, n = ip, p6
		k[16] = 1
	}
	for i := range b {
		switch {
		case n >= 8*(i+1):
			k[i] = b[i]
		case n > 8*i:
			k[i] = b[i] >> (8*(i+1) - n)
		}
	}
	return k
}

// vfIPText makes address texts as distinct as the addresses.
func vfIPText() {
	zzvf.Model("(net.IP).String", func(ip net.IP) string {
		if v4 := ip.To4(); v4 != nil {
			return string(v4)
		}
		return string(ip)
	})
}

func vfLimiter(opt RateLimiterOptions, alt bool) (*RateLimiter, *vfUp, *vfUp) {
	up := &vfUp{id: "up", fn: func(q *dns.Msg, _ ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		return a.SetReply(q), nil
	}}
	lim := &vfUp{id: "limit", fn: func(q *dns.Msg, _ ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		return a.SetRcode(q, dns.RcodeRefused), nil
	}}
	if alt {
		opt.LimitResolver = lim
	}
	return NewRateLimiter("rate", up, opt), up, lim
}

// Four (thorough: five) queries one after another from arbitrary IPv4 (as 4 or
// 16 bytes) and IPv6 (2000::/4) clients, with any limit up to 3, windows of 1, 7,
// 10, 60 (the default) and 86400 seconds with the prefixes 1, 8, 23, 24 (the
// default) and 32, and 1, 48, 56 (the default), 61 and 128 in turn, with and
// without alternative resolver; the clock starts at any second of two windows
// and moves by up to three windows between queries.
func VF_L01_history() {
	vfIPText()
	k := zzvf.Choose("setting", 5)
	window := []uint{10, 7, 86400, 0, 1}[k]
	w := int64(window)
	if w == 0 {
		w = 60
	}
	v6 := zzvf.Choose("family", 3)
	p4, p6 := []uint8{1, 8, 23, 0, 32}[k], []uint8{1, 48, 0, 61, 128}[k]
	n4, n6 := int(p4), int(p6)
	if n4 == 0 {
		n4 = 24
	}
	if n6 == 0 {
		n6 = 56
	}
	limit := uint(zzvf.Int("limit", 0, 3))
	alt := (k+v6)%2 == 0
	r, up, lim := vfLimiter(RateLimiterOptions{Requests: limit, Window: window, Prefix4: p4, Prefix6: p6}, alt)
	now := int64(1700000000) + int64(zzvf.Int("start", 0, 2*int(w)-1))
	type seen struct {
		win int64
		net [17]byte
	}
	var hist []seen
	for i := 0; i < 4+zzvf.Tier(); i++ {
		if i > 0 {
			now += int64(zzvf.Int("gap", 0, 3*int(w)))
		}
		zzvf.SetClock(now, 0)
		var ip net.IP
		switch {
		case v6 == 1 || v6 == 2 && i == 1:
			ip = net.IP(zzvf.Bytes("ip", 16))
			ip[0] = 0x20 | ip[0]&15
		case i%2 == 1:
			ip = net.IP(zzvf.Bytes("ip", 4)).To16()
		default:
			ip = net.IP(zzvf.Bytes("ip", 4))
		}
		s := seen{now / w, vfNetwork(ip, n4, n6)}
		var before uint
		for _, h := range hist {
			if h == s {
				before++
			}
		}
		hist = append(hist, s)
		q := vfQueryOf("a.test.", dns.TypeA)
		nu, nl := len(up.qs), len(lim.qs)
		a, err := r.Resolve(q, ClientInfo{SourceIP: ip})
		zzvf.Assert(err == nil, "limiting is not an error")
		if before < limit {
			zzvf.Assert(len(up.qs) == nu+1 && len(lim.qs) == nl && up.qs[nu] == q, "a query within the budget is forwarded")
			zzvf.Assert(a != nil && a.Rcode == dns.RcodeSuccess, "the upstream's answer is returned")
			if before > 0 {
				zzvf.Cover("within budget")
			}
		} else {
			zzvf.Assert(len(up.qs) == nu, "a query over the budget is not forwarded")
			if alt {
				zzvf.Assert(len(lim.qs) == nl+1 && a != nil && a.Rcode == dns.RcodeRefused, "the alternative resolver answers")
			} else {
				zzvf.Assert(a == nil && len(lim.qs) == nl, "the query is dropped")
			}
			if limit > 0 {
				zzvf.Cover("over budget")
			}
		}
	}
}

// One query each from two goroutines and three from the main one, all of one
// network or one goroutine's of another, limit 1 or 2, window 10 s, the clock
// moving by up to 15 s at one point of the main goroutine; three
// preemptions at any lock, clock or channel operation.
func VF_L01_concurrent() {
	vfIPText()
	zzvf.Preempt(3)
	limit := 1 + zzvf.Choose("limit", 2)
	now := int64(1700000000) + int64(zzvf.Int("start", 0, 9))
	zzvf.SetClock(now, 0)
	other := zzvf.Choose("other", 2) == 1
	r, _, _ := vfLimiter(RateLimiterOptions{Requests: uint(limit), Window: 10}, false)
	type rec struct {
		from, to int64
		ok       bool
		mine     bool
	}
	var all []*rec
	ask := func(last byte) {
		x := &rec{from: now / 10, mine: last == 1}
		a, err := r.Resolve(vfQueryOf("a.test.", dns.TypeA), ClientInfo{SourceIP: net.IP{10, 0, last, 1}})
		zzvf.Assert(err == nil, "limiting is not an error")
		x.to = now / 10
		x.ok = a != nil
		all = append(all, x)
	}
	zzvf.Go(func() { ask(1) })
	zzvf.Go(func() {
		if other {
			ask(2)
		} else {
			ask(1)
		}
	})
	ask(1)
	step := int64(zzvf.Int("step", 0, 15))
	now += step
	zzvf.Advance(step)
	ask(1)
	zzvf.Settle()
	ask(1)
	first, last := all[0].from, now/10
	for _, x := range all {
		if x.from < first {
			first = x.from
		}
	}
	for win := first; win <= last; win++ {
		in, touch, okIn := 0, 0, 0
		for _, x := range all {
			if !x.mine {
				zzvf.Assert(x.ok, "other networks do not use up the budget")
				continue
			}
			if x.from == win && x.to == win {
				in++
				if x.ok {
					okIn++
				}
			}
			if x.from <= win && x.to >= win {
				touch++
			}
		}
		zzvf.Assert(okIn <= limit, "no more than the limit is forwarded in a window")
		if touch <= limit {
			zzvf.Assert(okIn == in, "queries within the budget are forwarded")
			zzvf.Cover("within budget")
		}
		if in > limit {
			zzvf.Cover("over budget")
		}
	}
}
