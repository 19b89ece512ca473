package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfClone copies a query with everything it refers to.
func vfClone(q *dns.Msg) *dns.Msg {
	c := new(dns.Msg)
	*c = *q
	c.Question = append([]dns.Question(nil), q.Question...)
	c.Extra = nil
	for _, rr := range q.Extra {
		o := *rr.(*dns.OPT)
		var opts []dns.EDNS0
		for _, e := range o.Option {
			switch e := e.(type) {
			case *dns.EDNS0_SUBNET:
				x := *e
				x.Address = append(net.IP(nil), e.Address...)
				opts = append(opts, &x)
			case *dns.EDNS0_COOKIE:
				x := *e
				opts = append(opts, &x)
			case *dns.EDNS0_PADDING:
				opts = append(opts, &dns.EDNS0_PADDING{Padding: append([]byte(nil), e.Padding...)})
			case *dns.EDNS0_LOCAL:
				opts = append(opts, &dns.EDNS0_LOCAL{Code: e.Code, Data: append([]byte(nil), e.Data...)})
			}
		}
		o.Option = opts
		c.Extra = append(c.Extra, &o)
	}
	return c
}

// vfAsked is a query for a name of either case, any type and class, with an EDNS
// record that has up to two options out of subnet, cookie, padding and a local one.
func vfAsked(options int) *dns.Msg {
	q := vfQuery(zzvf.StrOf("q.name", 1, "aAb") + ".test.")
	if vfOpt(q, "q.opt", zzvf.Choose("q.edns", 2)) == nil {
		return q
	}
	o := q.IsEdns0()
	for i := 0; i < options; i++ {
		var e dns.EDNS0
		switch zzvf.Choose("q.option", 5) {
		case 0:
			return q
		case 1:
			e = vfECS("q.ecs")
		case 2:
			e = &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "24a5ac1122334455"}
		case 3:
			e = &dns.EDNS0_PADDING{Padding: zzvf.Bytes("q.pad", 3)}
		case 4:
			e = &dns.EDNS0_LOCAL{Code: uint16(zzvf.Int("q.code", 65001, 65004)), Data: zzvf.Bytes("q.data", 2)}
		}
		// room to append to, as messages read from the network may have
		o.Option = append(append(make([]dns.EDNS0, 0, len(o.Option)+2), o.Option...), e)
	}
	return q
}

// vfUntouched has a resolver process a query and compares the message after it.
func vfUntouched(r Resolver, q *dns.Msg, ci ClientInfo) {
	saved := vfClone(q)
	a, err := r.Resolve(q, ci)
	if err == nil && a != nil {
		zzvf.Cover("answered")
	}
	zzvf.Assert(vfSame(q, saved), "the caller's query is not modified")
}

// vfEcho answers with an arbitrary code and truncation flag and up to one record.
func vfEcho() *vfUp {
	return &vfUp{id: "up", fn: func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		return vfOutcome(q, func() *dns.Msg {
			a := new(dns.Msg)
			a.SetReply(q)
			a.Rcode = []int{0, 2, 3}[zzvf.Choose("a.rcode", 3)]
			a.Truncated = zzvf.Bool("a.tc")
			if zzvf.Choose("a.rr", 2) == 1 {
				a.Answer = []dns.RR{vfRR("a.an", q.Question[0].Name, zzvf.Choose("a.kind", 3))}
			}
			return a
		})
	}}
}

// Replacing, client-subnet (add a fixed or the client's address, add if missing,
// cut to any prefix, delete), option (add, delete) and no modifiers; a query with
// any flags, type, class and up to 2 options; the upstream fails or answers.
func VF_M01_modifiers() {
	up := vfEcho()
	q := vfAsked(2)
	ci := ClientInfo{SourceIP: net.IP(zzvf.Bytes("client", 4))}
	p4, p6 := uint8(zzvf.Int("p4", 0, 32)), uint8(zzvf.Int("p6", 0, 128))
	var r Resolver
	var err error
	switch zzvf.Choose("kind", 8) {
	case 0:
		r, err = NewReplace("r", up, ReplaceOperation{From: `^a\.`, To: "other."})
	case 1:
		r, err = NewECSModifier("r", up, ECSModifierAdd(net.IP(zzvf.Bytes("fixed", 4)), p4, p6))
	case 2:
		r, err = NewECSModifier("r", up, ECSModifierAdd(nil, p4, p6))
	case 3:
		r, err = NewECSModifier("r", up, ECSModifierAddIfMissing(nil, p4, p6))
	case 4:
		r, err = NewECSModifier("r", up, ECSModifierPrivacy(p4, p6))
	case 5:
		r, err = NewECSModifier("r", up, ECSModifierDelete)
	case 6:
		r, err = NewEDNS0Modifier("r", up, EDNS0ModifierAdd(uint16(zzvf.Int("code", 65001, 65004)), zzvf.Bytes("data", 2)))
	case 7:
		r, err = NewEDNS0Modifier("r", up, EDNS0ModifierDelete(uint16(zzvf.Int("code", 65001, 65004))))
	}
	zzvf.Assert(err == nil, "the modifier is set up")
	vfUntouched(r, q, ci)
}

// DNS64, validation in enforcing and logging mode, retry on truncation, cache
// (twice), deduplication, TTL, minimising, collapsing, fixed answers with and
// without an extended error, response name and address lists and all groups of two
// members; a query with any flags, type, class and up to 1 option; the upstreams
// fail or answer.
func VF_M01_resolvers() {
	zzvf.Preempt(0)
	zzvf.Model("(net.IP).String", func(ip net.IP) string { return string(ip) })
	up, up2 := vfEcho(), vfEcho()
	q := vfAsked(1)
	ci := ClientInfo{SourceIP: net.IP{192, 0, 2, 1}}
	var r Resolver
	var err error
	times := 1
	switch zzvf.Choose("kind", 18) {
	case 0:
		r, err = NewDNS64("r", up, DNS64Options{})
	case 1:
		r, err = NewDNSSECValidator("r", up, DNSSECValidatorOptions{LogOnly: zzvf.Choose("log", 2) == 1})
	case 2:
		r = NewTruncateRetry("r", up, up2, TruncateRetryOptions{})
	case 3:
		r, times = NewCache("r", up, CacheOptions{}), 2
		zzvf.Settle()
	case 4:
		r = NewRequestDedup("r", up)
	case 5:
		r = NewTTLModifier("r", up, TTLModifierOptions{MinTTL: 10, MaxTTL: 20})
	case 6:
		r = NewResponseMinimize("r", up)
	case 7:
		r = NewResponseCollapse("r", up, ResponseCollapseOptions{})
	case 8:
		r, err = NewStaticResolver("r", StaticResolverOptions{Answer: []string{"IN A 192.0.2.1"}, RCode: zzvf.Choose("rcode", 4)})
	case 9:
		t, e := NewEDNS0EDETemplate(15, "blocked")
		zzvf.Assert(e == nil, "the template is valid")
		r, err = NewStaticResolver("r", StaticResolverOptions{RCode: 3, EDNS0EDETemplate: t})
	case 10:
		db, e := NewDomainDB("n", vfLoader{[]string{"b.test"}})
		zzvf.Assert(e == nil, "the list is loaded")
		r, err = NewResponseBlocklistName("r", up, ResponseBlocklistNameOptions{BlocklistDB: db})
	case 11:
		db, e := NewCidrDB("n", vfLoader{[]string{"128.0.0.0/1"}})
		zzvf.Assert(e == nil, "the list is loaded")
		r, err = NewResponseBlocklistIP("r", up, ResponseBlocklistIPOptions{BlocklistDB: db, Filter: zzvf.Choose("filter", 2) == 1})
	case 12:
		db, e := NewDomainDB("n", vfLoader{[]string{"b.test"}})
		zzvf.Assert(e == nil, "the list is loaded")
		r, err = NewBlocklist("r", up, BlocklistOptions{BlocklistDB: db})
	case 13:
		r = NewFailRotate("r", FailRotateOptions{}, up, up2)
	case 14:
		r = NewFailBack("r", FailBackOptions{}, up, up2)
	case 15:
		r = NewRandom("r", RandomOptions{}, up, up2)
	case 16:
		r = NewRoundRobin("r", up, up2)
	case 17:
		r = NewFastest("r", up, up2)
	}
	zzvf.Assert(err == nil, "the resolver is set up")
	for i := 0; i < times; i++ {
		vfUntouched(r, q, ci)
	}
}

// UDP, TCP, TLS, HTTPS (GET and POST), oblivious
// HTTPS and QUIC clients; a query with any ID and flags, with no EDNS record or one
// with nothing, padding, a subnet, or cookie, padding and a local option.
func VF_M01_clients() {
	zzvf.Preempt(0)
	kind := []string{"udp", "tcp", "dot", "doh-post", "doh-get", "odoh", "doq"}[zzvf.Choose("kind", 7)]
	q := new(dns.Msg)
	q.Id, q.RecursionDesired, q.CheckingDisabled = zzvf.U16("q.id"), zzvf.Bool("q.rd"), zzvf.Bool("q.cd")
	q.Question = []dns.Question{{Name: "aB.test.", Qtype: dns.TypeA, Qclass: dns.ClassINET}}
	if zzvf.Choose("edns", 2) == 1 {
		q.SetEdns0(uint16(zzvf.Choose("size", 2)*4096), zzvf.Choose("do", 2) == 1)
		e := [][]dns.EDNS0{
			nil,
			{&dns.EDNS0_PADDING{Padding: []byte{0, 0, 0}}},
			{&dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 20, Address: net.IP{192, 0, 2, 77}}},
			{&dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "24a5ac1122334455"}, &dns.EDNS0_PADDING{Padding: []byte{1}}, &dns.EDNS0_LOCAL{Code: 65001, Data: []byte{1}}},
		}
		q.IsEdns0().Option = e[zzvf.Choose("options", 4)]
	}
	saved := vfClone(q)
	r := vfClient(kind, func(b []byte) []byte {
		a := append([]byte(nil), b...)
		a[2] |= 0x80
		return a
	})
	done := false
	zzvf.Go(func() {
		r.Resolve(q, ClientInfo{})
		done = true
	})
	for i := 0; i < 20 && !done; i++ {
		zzvf.Settle()
	}
	zzvf.Assert(done, "the query is completed")
	zzvf.Assert(vfSame(q, saved), "the caller's query is not modified")
}
