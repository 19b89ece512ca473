package main

import (
	"net"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Groups that fail over, with two members of which one answers with a server
// failure, an empty answer or an error; both failure options.
func VF_K02_failover() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	var log []string
	kind := zzvf.Choose("outcome", 3)
	a := &vfUp{id: "a", log: &log, fn: func(q *dns.Msg) (*dns.Msg, error) {
		r := vfAnswer(q, "a")
		switch kind {
		case 0:
			r.Answer, r.Rcode = nil, dns.RcodeServerFailure
		case 1:
			r.Answer = nil
		case 2:
			return nil, errVF
		}
		return r, nil
	}}
	b := &vfUp{id: "b", log: &log}
	g := group{
		Type:          []string{"fail-rotate", "fail-back", "random", "load-balance", "round-robin", "fastest"}[zzvf.Choose("type", 6)],
		Resolvers:     []string{"a", "b"},
		ServfailError: zzvf.Choose("servfail", 2) == 1,
		EmptyError:    zzvf.Choose("empty", 2) == 1,
	}
	r := vfElement(g, a, b)
	m, err := r.Resolve(vfQ("a.test.", dns.TypeA), rdns.ClientInfo{})
	switch g.Type {
	case "fastest":
		zzvf.Assert(err == nil && len(log) == 2, "every member is asked")
		return
	case "round-robin":
		r.Resolve(vfQ("a.test.", dns.TypeA), rdns.ClientInfo{})
		zzvf.Assert(len(log) == 2 && log[0] == "a" && log[1] == "b", "members take turns in the configured order")
		return
	case "fail-rotate", "fail-back":
		zzvf.Assert(log[0] == "a", "the first member configured is asked first")
	}
	bad := kind == 2 || kind == 0 && (g.ServfailError || g.EmptyError) || kind == 1 && g.EmptyError
	if log[0] == "a" && bad {
		zzvf.Assert(err == nil && vfBy(m) == "b" && len(log) == 2, "a failure leads to the next member")
		zzvf.Cover("next")
	} else {
		zzvf.Assert(err == nil && vfBy(m) == log[0] && len(log) == 1, "an answer that is no failure is returned")
		zzvf.Cover("first")
	}
}

// Fail-back and random groups with a period of 1 to 1000 s or none configured
// (60 s): a member fails and is asked again only after the period.
func VF_K02_reset() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	var log []string
	fails := true
	a := &vfUp{id: "a", log: &log, fn: func(q *dns.Msg) (*dns.Msg, error) {
		if fails {
			return nil, errVF
		}
		return vfAnswer(q, "a"), nil
	}}
	b := &vfUp{id: "b", log: &log, fn: func(q *dns.Msg) (*dns.Msg, error) {
		if fails {
			return vfAnswer(q, "b"), nil
		}
		return nil, errVF
	}}
	g := group{Type: []string{"fail-back", "random"}[zzvf.Choose("type", 2)], Resolvers: []string{"a", "b"}}
	period := 60
	if zzvf.Choose("set", 2) == 1 {
		period = zzvf.Int("period", 1, 1000)
		p := period
		g.ResetAfter = &p
	}
	r := vfElement(g, a, b)
	ask := func() string {
		log = nil
		m, _ := r.Resolve(vfQ("a.test.", dns.TypeA), rdns.ClientInfo{})
		return vfBy(m)
	}
	ask()
	zzvf.Assume(log[0] == "a")
	zzvf.Settle()
	early := zzvf.Choose("early", 2) == 1
	if early {
		zzvf.Advance(int64(period) - 1)
	} else {
		zzvf.Advance(int64(period))
	}
	zzvf.FireDue()
	zzvf.Settle()
	if g.Type == "fail-back" {
		ask()
		zzvf.Assert((log[0] == "a") == !early, "the group returns to the first member after the configured period")
		return
	}
	fails = false
	zzvf.Assert((ask() == "a") == !early, "a failed member is used again after the configured period")
	zzvf.Settle()
}

// vfFormats are the formats of name lists; vfRule is a rule in one of them and
// vfMatches tells which of the names it describes.
var vfFormats = []string{"", "regexp", "domain", "domain-subdomain", "hosts"}

func vfRule(format string) string {
	if format == "hosts" {
		return "0.0.0.0 x.test"
	}
	return "x.test"
}

func vfMatches(format, name string) bool {
	switch format {
	case "domain", "hosts":
		return name == "x.test."
	case "domain-subdomain":
		return name != "xxtest.org."
	}
	return true
}

var vfNames = []string{"x.test.", "sub.x.test.", "xxtest.org."}

// Query name lists of each kind and format (and allow lists of another format)
// with and without alternative resolvers.
func VF_K02_blocklist() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	up, alt, ok := &vfUp{id: "up"}, &vfUp{id: "alt"}, &vfUp{id: "ok"}
	f := vfFormats[zzvf.Choose("format", len(vfFormats))]
	name := vfNames[zzvf.Choose("name", len(vfNames))]
	ask := func(g group) *dns.Msg {
		m, err := vfElement(g, up, alt, ok).Resolve(vfQ(name, dns.TypeA), rdns.ClientInfo{})
		zzvf.Assert(err == nil && m != nil, "the query is answered")
		return m
	}
	if zzvf.Choose("type", 2) == 0 {
		m := ask(group{Type: "blocklist", Resolvers: []string{"up"}, Format: f, Blocklist: []string{vfRule(f)}})
		zzvf.Assert((vfBy(m) == "up") == !vfMatches(f, name), "exactly the names on the list are blocked")
		zzvf.Assert(vfBy(m) == "up" || m.Rcode == dns.RcodeNameError || f == "hosts", "blocked names do not exist")
		return
	}
	g := group{Type: "blocklist-v2", Resolvers: []string{"up"}, BlocklistFormat: f, Blocklist: []string{vfRule(f)}}
	want := "up"
	if vfMatches(f, name) {
		want = ""
	}
	if zzvf.Choose("alt", 2) == 1 {
		g.BlockListResolver = "alt"
		if want == "" {
			want = "alt"
		}
	}
	if zzvf.Choose("allow", 2) == 1 {
		g.AllowlistFormat = vfFormats[zzvf.Choose("aformat", len(vfFormats))]
		g.Allowlist = []string{vfRule(g.AllowlistFormat)}
		to := "up"
		if zzvf.Choose("ok", 2) == 1 {
			g.AllowListResolver = "ok"
			to = "ok"
		}
		if vfMatches(g.AllowlistFormat, name) {
			want = to
			zzvf.Cover("allowed")
		}
	}
	m := ask(g)
	zzvf.Assert(vfBy(m) == want, "the query goes where the lists and their formats say")
	zzvf.Cover("done")
}

// Response and client lists with and without an alternative resolver, with
// each of their options.
func VF_K02_responses() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	up, alt := &vfUp{id: "up"}, &vfUp{id: "alt"}
	up.fn = func(q *dns.Msg) (*dns.Msg, error) {
		m := vfAnswer(q, "up", 10, 20)
		m.Answer = append(m.Answer, &dns.CNAME{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeCNAME, Class: dns.ClassINET}, Target: "x.test."})
		return m, nil
	}
	g := group{Resolvers: []string{"up"}, Inverted: zzvf.Choose("inverted", 2) == 1, Filter: zzvf.Choose("filter", 2) == 1, UseECS: zzvf.Choose("ecs", 2) == 1}
	if zzvf.Choose("alt", 2) == 1 {
		g.BlockListResolver = "alt"
	}
	q := vfQ("a.test.", dns.TypeA)
	q.SetEdns0(1232, false)
	q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 32, Address: net.IP{203, 0, 113, 1}})
	hit := zzvf.Choose("hit", 2) == 1
	want := "up"
	blocked := hit != g.Inverted
	switch zzvf.Choose("type", 4) {
	case 0, 1:
		g.Type = []string{"response-blocklist-ip", "response-blocklist-cidr"}[zzvf.Choose("alias", 2)]
		g.Blocklist = []string{"198.51.100.0/24"}
		if hit {
			g.Blocklist = []string{"192.0.2.0/24"}
		}
	case 2:
		g.Type = "response-blocklist-name"
		g.BlocklistFormat = "domain"
		g.Blocklist = []string{"y.test"}
		if hit {
			g.Blocklist = []string{"x.test", "up"}
		}
	case 3:
		g.Type = "client-blocklist"
		addr := "198.51.100.7/32"
		if g.UseECS {
			addr = "203.0.113.1/32"
		}
		g.Blocklist = []string{"198.51.100.99/32"}
		if hit {
			g.Blocklist = []string{addr}
		}
		blocked = hit
	}
	if blocked {
		want = ""
		if g.BlockListResolver != "" {
			want = "alt"
		}
	}
	if g.Type == "response-blocklist-ip" || g.Type == "response-blocklist-cidr" {
		zzvf.Assume(!g.Filter || !blocked)
	}
	m, err := vfElement(g, up, alt).Resolve(q, rdns.ClientInfo{SourceIP: net.IP{198, 51, 100, 7}})
	zzvf.Assert(err == nil && vfBy(m) == want, "the reply is treated as configured")
	zzvf.Cover("done")
}

// Filter mode of the response address list.
func VF_K02_filter() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	up := &vfUp{id: "up", fn: func(q *dns.Msg) (*dns.Msg, error) { return vfAnswer(q, "up", 10, 20, 30), nil }}
	g := group{Type: "response-blocklist-ip", Resolvers: []string{"up"}, Filter: true, Inverted: zzvf.Choose("inverted", 2) == 1, Blocklist: []string{"192.0.2.2/32"}}
	m, err := vfElement(g, up).Resolve(vfQ("a.test.", dns.TypeA), rdns.ClientInfo{})
	n := 2
	if g.Inverted {
		n = 1
	}
	zzvf.Assert(err == nil && vfBy(m) == "up" && len(m.Answer) == n, "listed records are removed")
}

// TTL modifier with any limits and each selection, an answer of two records.
func VF_K02_ttl() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	t1, t2 := uint32(zzvf.Int("t1", 0, 100000)), uint32(zzvf.Int("t2", 0, 100000))
	up := &vfUp{id: "up", fn: func(q *dns.Msg) (*dns.Msg, error) {
		m := vfAnswer(q, "up", t1, t2)
		m.Extra = nil
		return m, nil
	}}
	g := group{Type: "ttl-modifier", Resolvers: []string{"up"}, TTLMin: zzvf.U32("min"), TTLMax: zzvf.U32("max")}
	zzvf.Assume(g.TTLMax == 0 || g.TTLMin <= g.TTLMax)
	g.TTLSelect = []string{"", "lowest", "highest", "average", "first", "last", "random"}[zzvf.Choose("select", 7)]
	m, err := vfElement(g, up).Resolve(vfQ("a.test.", dns.TypeA), rdns.ClientInfo{})
	zzvf.Assert(err == nil && len(m.Answer) == 2, "the query is answered")
	clamp := func(t uint32) uint32 {
		t = max(t, g.TTLMin)
		if g.TTLMax > 0 {
			t = min(t, g.TTLMax)
		}
		return t
	}
	x, y := m.Answer[0].Header().Ttl, m.Answer[1].Header().Ttl
	w1, w2 := clamp(t1), clamp(t2)
	switch g.TTLSelect {
	case "lowest":
		w1 = clamp(min(t1, t2))
		w2 = w1
	case "highest":
		w1 = clamp(max(t1, t2))
		w2 = w1
	case "average":
		w1 = clamp((t1 + t2) / 2)
		w2 = w1
	case "first":
		w2 = w1
	case "last":
		w1 = w2
	case "random":
		zzvf.Assert(x == y && x >= g.TTLMin && (g.TTLMax == 0 || x <= g.TTLMax), "the TTL is between the limits")
		return
	}
	zzvf.Assert(x == w1 && y == w2, "the TTL is the configured one")
}

// Client subnet and option modifiers with each operation.
func VF_K02_edns() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	up := &vfUp{id: "up"}
	q := vfQ("a.test.", dns.TypeA)
	had := zzvf.Choose("had", 2) == 1
	if had {
		q.SetEdns0(1232, false)
		q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 32, Address: net.IP{203, 0, 113, 255}})
	}
	from := net.IP{198, 51, 100, 255}
	v6 := zzvf.Choose("v6", 2) == 1
	if v6 {
		from = net.IP{0x20, 1, 0xd, 0xb8, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}
	}
	g := group{Type: "ecs-modifier", Resolvers: []string{"up"}, ECSPrefix4: 24, ECSPrefix6: 56}
	if zzvf.Choose("addr", 2) == 1 {
		g.ECSAddress = net.IP{192, 0, 2, 255}
	}
	g.ECSOp = []string{"", "add", "add-if-missing", "delete", "privacy"}[zzvf.Choose("op", 5)]
	_, err := vfElement(g, up).Resolve(q, rdns.ClientInfo{SourceIP: from})
	zzvf.Assert(err == nil, "the query is answered")
	var e *dns.EDNS0_SUBNET
	if o := up.qs[0].IsEdns0(); o != nil && len(o.Option) > 0 {
		e, _ = o.Option[0].(*dns.EDNS0_SUBNET)
	}
	add := g.ECSOp == "add" || g.ECSOp == "add-if-missing" && !had
	switch {
	case g.ECSOp == "delete":
		zzvf.Assert(e == nil, "the subnet is removed")
	case add:
		zzvf.Assert(e != nil, "a subnet is added")
		switch {
		case g.ECSAddress != nil:
			zzvf.Assert(e.Family == 1 && e.SourceNetmask == 24 && e.Address.Equal(net.IP{192, 0, 2, 0}), "the configured address is sent")
		case v6:
			zzvf.Assert(e.Family == 2 && e.SourceNetmask == 56 && e.Address[6] == 255 && e.Address[7] == 0, "the client's address is sent up to the prefix")
		default:
			zzvf.Assert(e.Family == 1 && e.SourceNetmask == 24 && e.Address.Equal(net.IP{198, 51, 100, 0}), "the client's address is sent up to the prefix")
		}
		zzvf.Cover("added")
	case g.ECSOp == "privacy" && had:
		zzvf.Assert(e != nil && e.SourceNetmask == 24 && e.Address.Equal(net.IP{203, 0, 113, 0}), "the subnet is cut to the prefix")
	default:
		zzvf.Assert((e != nil) == had && (!had || e.SourceNetmask == 32), "the subnet is left alone")
	}
}

// Option modifier with any code and two bytes of data.
func VF_K02_option() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	up := &vfUp{id: "up"}
	code := zzvf.U16("code")
	data := []byte{zzvf.U8("d"), zzvf.U8("d")}
	q := vfQ("a.test.", dns.TypeA)
	q.SetEdns0(1232, false)
	q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_LOCAL{Code: 65100, Data: []byte{1}})
	g := group{Type: "edns0-modifier", Resolvers: []string{"up"}, EDNS0Code: code, EDNS0Data: data}
	g.EDNS0Op = []string{"", "add", "delete"}[zzvf.Choose("op", 3)]
	_, err := vfElement(g, up).Resolve(q, rdns.ClientInfo{})
	zzvf.Assert(err == nil, "the query is answered")
	o := up.qs[0].IsEdns0().Option
	switch {
	case g.EDNS0Op == "add":
		l, ok := o[len(o)-1].(*dns.EDNS0_LOCAL)
		zzvf.Assert(ok && l.Code == code && len(l.Data) == 2 && l.Data[0] == data[0] && l.Data[1] == data[1], "the option is added")
	case g.EDNS0Op == "delete" && zzvf.Fork(code == 65100):
		zzvf.Assert(len(o) == 0, "the option is removed")
	default:
		zzvf.Assert(len(o) == 1 && o[0].Option() == 65100, "other options are kept")
	}
}

// Cache with a negative TTL of 1 to 1000 s, limits per response code, and a
// size of 1 or 2, directly or as a memory backend's.
func VF_K02_cache() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	rcode := []int{dns.RcodeSuccess, dns.RcodeNameError, dns.RcodeServerFailure}[zzvf.Choose("rcode", 3)]
	up := &vfUp{id: "up", fn: func(q *dns.Msg) (*dns.Msg, error) {
		m := vfAnswer(q, "up", 5000)
		m.Rcode = rcode
		if rcode != 0 {
			m.Answer, m.Extra = nil, nil
		}
		return m, nil
	}}
	g := group{Type: "cache", Resolvers: []string{"up"}, CacheNegativeTTL: uint32(zzvf.Int("negative", 1, 250)), CacheFlushQuery: "flush.test."}
	size := 1 + zzvf.Choose("size", 2)
	if zzvf.Choose("backend", 2) == 1 {
		g.Backend = &cacheBackend{Type: "memory", Size: size}
	} else {
		g.CacheSize = size
	}
	g.CacheHardenBelowNXDOMAIN = zzvf.Choose("harden", 2) == 1
	life := uint32(5000)
	if rcode != 0 {
		life = g.CacheNegativeTTL
	}
	if zzvf.Choose("limit", 2) == 1 {
		n := uint32(zzvf.Int("limit", 1, 200))
		g.CacheRcodeMaxTTL = map[string]uint32{"0": n, "2": n}
		if rcode != dns.RcodeNameError {
			life = min(life, n)
		}
	}
	r := vfElement(g, up)
	asked := func(name string) bool {
		n := len(up.qs)
		_, err := r.Resolve(vfQ(name, dns.TypeA), rdns.ClientInfo{})
		zzvf.Assert(err == nil, "the query is answered")
		return len(up.qs) > n
	}
	zzvf.Assert(asked("a.test."), "a new question goes upstream")
	switch zzvf.Choose("use", 4) {
	case 0:
		zzvf.Assert(!asked("a.test."), "a repeated question is answered from the cache")
		zzvf.Advance(int64(life) - 1)
		zzvf.Assert(!asked("a.test."), "the answer is kept for the configured time")
		zzvf.Advance(2)
		zzvf.Assert(asked("a.test."), "and not longer")
		zzvf.Cover("aged")
	case 1:
		zzvf.Assert(asked("b.test."), "another question goes upstream")
		zzvf.Assert(asked("a.test.") == (size == 1), "the cache holds as many answers as configured")
	case 2:
		zzvf.Assert(!asked("flush.test."), "a flush query is not resolved")
		zzvf.Assert(asked("a.test."), "and empties the cache")
	case 3:
		zzvf.Assert(asked("b.a.test.") == !(g.CacheHardenBelowNXDOMAIN && rcode == dns.RcodeNameError), "names below one that does not exist are answered when configured")
	}
	zzvf.Settle()
}

// Elements with few options: truncate-retry, rate-limiter, replace, response
// collapsing and minimising, fixed responders, drop and DNS64.
func VF_K02_others() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	up, alt := &vfUp{id: "up"}, &vfUp{id: "alt"}
	q := vfQ("a.test.", dns.TypeA)
	ci := rdns.ClientInfo{SourceIP: net.IP{198, 51, 100, 7}}
	switch zzvf.Choose("type", 8) {
	case 0:
		tc := zzvf.Choose("tc", 2) == 1
		up.fn = func(q *dns.Msg) (*dns.Msg, error) {
			m := vfAnswer(q, "up")
			m.Truncated = tc
			return m, nil
		}
		m, err := vfElement(group{Type: "truncate-retry", Resolvers: []string{"up"}, RetryResolver: "alt"}, up, alt).Resolve(q, ci)
		zzvf.Assert(err == nil && (vfBy(m) == "alt") == tc && len(up.qs) == 1, "truncated answers are retried with the alternative")
	case 1:
		g := group{Type: "rate-limiter", Resolvers: []string{"up"}, Requests: uint(1 + zzvf.Choose("requests", 2)), Window: uint(zzvf.Int("window", 1, 1000)), Prefix4: 24, Prefix6: 64}
		other := zzvf.Choose("alt", 2) == 1
		if other {
			g.LimitResolver = "alt"
		}
		r := vfElement(g, up, alt)
		for i := 0; i < int(g.Requests); i++ {
			m, err := r.Resolve(q, ci)
			zzvf.Assert(err == nil && vfBy(m) == "up", "queries within the limit are forwarded")
		}
		m, err := r.Resolve(q, rdns.ClientInfo{SourceIP: net.IP{198, 51, 100, 8}})
		if other {
			zzvf.Assert(err == nil && vfBy(m) == "alt", "queries beyond the limit go to the alternative")
		} else {
			zzvf.Assert(err == nil && vfBy(m) != "up", "queries beyond the limit are not forwarded")
		}
		m, err = r.Resolve(q, rdns.ClientInfo{SourceIP: net.IP{198, 51, 101, 8}})
		zzvf.Assert(err == nil && vfBy(m) == "up", "other networks are not affected")
		zzvf.Advance(int64(g.Window) + 1)
		m, err = r.Resolve(q, ci)
		zzvf.Assert(err == nil && vfBy(m) == "up", "a new window begins")
	case 2:
		r := vfElement(group{Type: "replace", Resolvers: []string{"up"}, Replace: []rdns.ReplaceOperation{{From: `^a\.test\.$`, To: "b.test."}, {From: `^b\.`, To: "c."}}}, up)
		m, err := r.Resolve(q, ci)
		zzvf.Assert(err == nil && up.qs[0].Question[0].Name == "c.test." && m.Question[0].Name == "a.test.", "names are replaced")
	case 3:
		rc := zzvf.Choose("rcode", 16)
		up.fn = func(q *dns.Msg) (*dns.Msg, error) {
			m := vfAnswer(q, "up")
			m.Answer = nil
			return m, nil
		}
		m, err := vfElement(group{Type: "response-collapse", Resolvers: []string{"up"}, NullRCode: rc}, up).Resolve(q, ci)
		zzvf.Assert(err == nil && m.Rcode == rc, "an answer without records gets the configured code")
	case 4:
		m, err := vfElement(group{Type: "response-minimize", Resolvers: []string{"up"}}, up).Resolve(q, ci)
		zzvf.Assert(err == nil && len(m.Answer) == 1 && len(m.Extra) == 0, "the reply is minimised")
	case 5:
		g := group{
			Type: []string{"static-responder", "static-template"}[zzvf.Choose("static", 2)], RCode: zzvf.Choose("rcode", 6), Truncate: zzvf.Choose("tc", 2) == 1,
			Answer: []string{"IN A 192.0.2.1"}, NS: []string{"test. IN NS n.test."}, Extra: []string{"e.test. IN A 192.0.2.2", "e.test. IN A 192.0.2.3"},
		}
		m, err := vfElement(g).Resolve(q, ci)
		zzvf.Assert(err == nil && m.Rcode == g.RCode && m.Truncated == g.Truncate, "code and truncation are as configured")
		zzvf.Assert(len(m.Answer) == 1 && len(m.Ns) == 1 && len(m.Extra) == 2, "each record is in its section")
	case 6:
		m, err := vfElement(group{Type: "drop"}).Resolve(q, ci)
		zzvf.Assert(err == nil && m == nil, "the query is dropped")
	case 7:
		up.fn = func(q *dns.Msg) (*dns.Msg, error) {
			if q.Question[0].Qtype == dns.TypeA {
				return vfAnswer(q, "up"), nil
			}
			return new(dns.Msg).SetReply(q), nil
		}
		m, err := vfElement(group{Type: "dns64", Resolvers: []string{"up"}, DNS64Prefix: []string{"2001:db8:1::/96"}}, up).Resolve(vfQ("a.test.", dns.TypeAAAA), ci)
		zzvf.Assert(err == nil && len(m.Answer) == 1 && m.Answer[0].(*dns.AAAA).AAAA.Equal(net.IP{0x20, 1, 0xd, 0xb8, 0, 1, 0, 0, 0, 0, 0, 0, 192, 0, 2, 1}), "the address is made with the configured prefix")
	}
	zzvf.Cover("done")
}

// Routes with one condition of each kind, inverted or not, and a query and
// client that meet it or not.
func VF_K02_route() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	up, other := &vfUp{id: "up"}, &vfUp{id: "other"}
	rs := map[string]rdns.Resolver{"up": up, "other": other}
	rt := route{Resolver: "up", Invert: zzvf.Choose("invert", 2) == 1}
	q := vfQ("a.test.", dns.TypeA)
	ci := rdns.ClientInfo{SourceIP: net.IP{198, 51, 100, 7}, DoHPath: "/p", Listener: "l1", TLSServerName: "n1"}
	q.SetEdns0(1232, false)
	q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 32, Address: net.IP{203, 0, 113, 9}})
	hit := zzvf.Choose("hit", 2) == 1
	pick := func(yes, no string) string {
		if hit {
			return yes
		}
		return no
	}
	zzvf.SetClock(1700000000, 0) // Tuesday, 22:13:20
	switch zzvf.Choose("condition", 12) {
	case 0:
		rt.Name = pick(`^a\.`, `^b\.`)
	case 1:
		rt.Class = pick("IN", "CH")
	case 2:
		rt.Type = pick("A", "MX")
	case 3:
		rt.Types = []string{pick("A", "MX"), "TXT"}
	case 4:
		rt.Weekdays = []string{pick("tue", "wed")}
	case 5:
		rt.After = pick("22:13", "22:14")
	case 6:
		rt.Before = pick("22:14", "22:13")
	case 7:
		rt.Source = pick("198.51.100.0/24", "203.0.113.0/24")
	case 8:
		rt.ECSSource = pick("203.0.113.0/24", "198.51.100.0/24")
	case 9:
		rt.DoHPath = pick("^/p$", "^/q$")
	case 10:
		rt.Listener = pick("^l1$", "^n1$")
	case 11:
		rt.TLSServerName = pick("^n1$", "^l1$")
	}
	err := instantiateRouter("r", router{Routes: []route{rt, {Resolver: "other"}}}, rs)
	zzvf.Assert(err == nil, "the configuration is accepted")
	m, err := rs["r"].Resolve(q, ci)
	want := "other"
	if hit != rt.Invert {
		want = "up"
	}
	zzvf.Assert(err == nil && vfBy(m) == want, "the route applies exactly when its condition is met")
	zzvf.Cover("done")
}

// Upstream clients of every kind with any timeout and message size.
func VF_K02_client() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	r := resolver{
		Protocol: []string{"udp", "tcp", "dot", "doh", "doq"}[zzvf.Choose("protocol", 5)], Address: "192.0.2.1",
		BootstrapAddr: "192.0.2.9", LocalAddr: "198.51.100.1", LocalAddrV4: "198.51.100.2", LocalAddrV6: "2001:db8::3",
		EDNS0UDPSize: zzvf.U16("size"), QueryTimeout: zzvf.Int("timeout", 0, 1000), FWMark: zzvf.U32("mark"), BindInterface: "if0",
		Use0RTT: zzvf.Choose("0rtt", 2) == 1, Transport: "tcp", ServerName: "s.test", DoH: doh{Method: "GET", IdleTimeout: zzvf.Int("idle", 0, 1000)},
	}
	if r.Protocol == "doh" {
		r.Address = "https://s.test:8443/dns-query"
	}
	if zzvf.Choose("netns", 2) == 1 {
		r.NetNS = "ns1"
	}
	made := ""
	common := func(kind, endpoint, port string, l, l4, l6 net.IP, timeout time.Duration, ns *rdns.NetNS, so rdns.SocketOptions) {
		made = kind
		zzvf.Assert(endpoint == "192.0.2.1:"+port || kind == "doh" && endpoint == r.Address, "the configured address is used")
		zzvf.Assert(l.Equal(net.IP{198, 51, 100, 1}) && l4.Equal(net.IP{198, 51, 100, 2}) && len(l6) == 16 && l6[15] == 3, "the configured local addresses are used")
		zzvf.Assert(timeout == time.Duration(r.QueryTimeout)*time.Second, "the configured timeout is used")
		zzvf.Assert((ns == nil) == (r.NetNS == "") && (ns == nil || ns.Name == "ns1"), "the configured namespace is used")
		zzvf.Assert(so.FWMark == r.FWMark && so.BindInterface == "if0", "the configured socket options are used")
	}
	zzvf.Env("github.com/folbricht/routedns.NewDNSClient", func(id, endpoint, network string, opt rdns.DNSClientOptions) (*rdns.DNSClient, error) {
		common(network, endpoint, "53", opt.LocalAddr, opt.LocalAddrV4, opt.LocalAddrV6, opt.QueryTimeout, opt.NetNS, opt.SocketOptions)
		zzvf.Assert(opt.UDPSize == r.EDNS0UDPSize, "the configured size is used")
		return new(rdns.DNSClient), nil
	})
	zzvf.Env("github.com/folbricht/routedns.NewDoTClient", func(id, endpoint string, opt rdns.DoTClientOptions) (*rdns.DoTClient, error) {
		common("dot", endpoint, "853", opt.LocalAddr, opt.LocalAddrV4, opt.LocalAddrV6, opt.QueryTimeout, opt.NetNS, opt.SocketOptions)
		zzvf.Assert(opt.BootstrapAddr == r.BootstrapAddr && opt.TLSConfig.ServerName == r.ServerName, "the configured server is expected")
		return new(rdns.DoTClient), nil
	})
	zzvf.Env("github.com/folbricht/routedns.NewDoHClient", func(id, endpoint string, opt rdns.DoHClientOptions) (*rdns.DoHClient, error) {
		common("doh", endpoint, "", opt.LocalAddr, opt.LocalAddrV4, opt.LocalAddrV6, opt.QueryTimeout, opt.NetNS, opt.SocketOptions)
		zzvf.Assert(opt.BootstrapAddr == r.BootstrapAddr && opt.TLSConfig.ServerName == r.ServerName, "the configured server is expected")
		zzvf.Assert(opt.Method == "GET" && opt.Transport == "tcp" && opt.Use0RTT == r.Use0RTT && opt.IdleTimeout == time.Duration(r.DoH.IdleTimeout)*time.Second, "the configured way of asking is used")
		return new(rdns.DoHClient), nil
	})
	zzvf.Env("github.com/folbricht/routedns.NewDoQClient", func(id, endpoint string, opt rdns.DoQClientOptions) (*rdns.DoQClient, error) {
		common("doq", endpoint, "8853", opt.LocalAddr, opt.LocalAddrV4, opt.LocalAddrV6, opt.QueryTimeout, opt.NetNS, opt.SocketOptions)
		zzvf.Assert(opt.BootstrapAddr == r.BootstrapAddr && opt.TLSConfig.ServerName == r.ServerName && opt.Use0RTT == r.Use0RTT, "the configured server is expected")
		return new(rdns.DoQClient), nil
	})
	err := instantiateResolver("r", r, make(map[string]rdns.Resolver))
	zzvf.Assert(err == nil && made == r.Protocol, "the configured client is made")
	zzvf.Cover("done")
}
