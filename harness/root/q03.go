package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfLookups is an upstream whose lookups take until they are released. Each
// reply carries the number of its lookup.
type vfLookups struct {
	held    chan struct{}
	asked   []*dns.Msg
	replies []*dns.Msg
	outcome int
}

func (u *vfLookups) String() string { return "up" }

func (u *vfLookups) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
	n := len(u.asked)
	u.asked = append(u.asked, q.Copy())
	u.replies = append(u.replies, nil)
	if u.held != nil {
		<-u.held
	} else {
		zzvf.Yield()
	}
	switch u.outcome {
	case 1:
		return nil, errVF
	case 2:
		return nil, nil
	}
	a := new(dns.Msg)
	a.SetReply(q)
	a.Answer = []dns.RR{&dns.A{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: dns.ClassINET, Ttl: uint32(n)}, A: net.IP{192, 0, 2, 1}}}
	u.replies[n] = a
	return a, nil
}

// vfDedupQuery is a query with arbitrary type, class and flags, without EDNS,
// with EDNS, or with an arbitrary client subnet of either family.
func vfDedupQuery(label, name string, ecs int) *dns.Msg {
	q := vfQuery(name)
	if ecs == 0 {
		return q
	}
	o := new(dns.OPT)
	o.Hdr.Name = "."
	o.Hdr.Rrtype = dns.TypeOPT
	o.SetUDPSize(zzvf.U16(label + ".size"))
	if zzvf.Bool(label + ".do") {
		o.Hdr.Ttl = 1 << 15
	}
	q.Extra = []dns.RR{o}
	if zzvf.Tier() > 0 && zzvf.Choose(label+".cookie", 2) == 1 {
		o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "24a5ac1122334455"})
	}
	switch ecs {
	case 2:
		o.Option = append(o.Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: uint8(zzvf.Int(label+".mask", 0, 32)), Address: net.IP(zzvf.Bytes(label+".ip", 4))})
	case 3:
		o.Option = append(o.Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 2, SourceNetmask: uint8(zzvf.Int(label+".mask", 0, 128)), Address: net.IP(zzvf.Bytes(label+".ip", 16))})
	case 4:
		// as it comes off the wire
		o.Option = append(o.Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: uint8(zzvf.Int(label+".mask", 0, 32)), Address: net.IP(zzvf.Bytes(label+".ip", 4)).To16()})
	}
	return q
}

func vfDedupECS(q *dns.Msg) (do bool, family uint16, mask uint8, addr [16]byte) {
	if o := q.IsEdns0(); o != nil {
		do = o.Do()
		for _, x := range o.Option {
			if e, ok := x.(*dns.EDNS0_SUBNET); ok {
				family, mask = e.Family, e.SourceNetmask
				copy(addr[:], e.Address.To16())
			}
		}
	}
	return
}

// vfDedupSame tells whether two queries may share a lookup.
func vfDedupSame(a, b *dns.Msg) bool {
	x, y := a.Question[0], b.Question[0]
	same := vfFold(x.Name, y.Name) && x.Qtype == y.Qtype && x.Qclass == y.Qclass && a.CheckingDisabled == b.CheckingDisabled
	do1, f1, m1, ip1 := vfDedupECS(a)
	do2, f2, m2, ip2 := vfDedupECS(b)
	return same && do1 == do2 && f1 == f2 && m1 == m2 && ip1 == ip2
}

// vfDedupReply checks one caller's result and returns its lookup.
func vfDedupReply(u *vfLookups, q *dns.Msg, a *dns.Msg, err error) int {
	switch u.outcome {
	case 1:
		zzvf.Assert(a == nil && err == errVF, "the upstream's error is returned")
		return -1
	case 2:
		zzvf.Assert(a == nil && err == nil, "a dropped query is dropped for every caller")
		return -1
	}
	zzvf.Assert(a != nil && err == nil, "the upstream's answer is returned")
	zzvf.Assert(a.Id == q.Id, "the reply carries the caller's ID")
	zzvf.Assert(len(a.Question) == 1 && a.Question[0] == q.Question[0], "the reply carries the caller's question")
	zzvf.Assert(len(a.Answer) == 1, "the reply carries the upstream's records")
	n := int(a.Answer[0].Header().Ttl)
	for _, r := range u.replies {
		if r != nil {
			zzvf.Assert(!zzvf.SameMem(a, r) && !zzvf.SameMem(a.Answer[0], r.Answer[0]), "the reply is the caller's own")
		}
	}
	return n
}

// Two queries in flight at the same time: names of up to 3 arbitrary letters of
// either case in one label, any type, class, ID and flags, without EDNS, with it,
// and with a client subnet of arbitrary IPv4 or IPv6 address and prefix length;
// the upstream answers, fails or drops.
func VF_Q03_key() {
	zzvf.Preempt(0)
	n := 1 + zzvf.Choose("len", 2+zzvf.Tier())
	n1, n2 := zzvf.StrOf("name1", n, "abAB-")+".", zzvf.StrOf("name2", n, "abAB-")+"."
	q1 := vfDedupQuery("q1", n1, zzvf.Choose("ecs1", 5))
	q2 := vfDedupQuery("q2", n2, zzvf.Choose("ecs2", 5))
	u := &vfLookups{held: make(chan struct{}), outcome: zzvf.Choose("outcome", 3)}
	d := NewRequestDedup("dedup", u)
	var a [2]*dns.Msg
	var errs [2]error
	zzvf.Go(func() { a[0], errs[0] = d.Resolve(q1, ClientInfo{}) })
	zzvf.Settle()
	zzvf.Go(func() { a[1], errs[1] = d.Resolve(q2, ClientInfo{}) })
	zzvf.Settle()
	close(u.held)
	zzvf.Settle()
	l1 := vfDedupReply(u, q1, a[0], errs[0])
	l2 := vfDedupReply(u, q2, a[1], errs[1])
	if len(u.asked) == 1 {
		zzvf.Assert(vfDedupSame(q1, q2), "only identical queries share a lookup")
		zzvf.Assert(l1 == l2, "both replies come from the shared lookup")
		zzvf.Cover("shared")
	} else {
		zzvf.Assert(len(u.asked) == 2 && (u.outcome != 0 || l1 == 0 && l2 == 1), "each gets the reply to its own lookup")
		zzvf.Cover("separate")
	}
	if l1 >= 0 {
		zzvf.Assert(!zzvf.SameMem(a[0], a[1]) && !zzvf.SameMem(a[0].Answer[0], a[1].Answer[0]) && !zzvf.SameMem(a[0].Answer, a[1].Answer), "each caller's message is its own")
	}
}

// Three callers with the same or two different questions, any interleaving with
// up to 3 (thorough: 4) preemptions of their steps and the upstream's, the
// upstream answering, failing or dropping; then a further query.
func VF_Q03_schedule() {
	zzvf.Preempt(3 + zzvf.Tier())
	u := &vfLookups{outcome: zzvf.Choose("outcome", 3)}
	d := NewRequestDedup("dedup", u)
	name := []string{"a.", "A.", []string{"a.", "b."}[zzvf.Choose("other", 2)]}
	var qs, as [3]*dns.Msg
	var errs [3]error
	done := 0
	var over [4]bool // lookups whose result someone has
	for i := 0; i < 3; i++ {
		qs[i] = vfQueryOf(name[i], dns.TypeA)
		run := func() {
			old := over
			as[i], errs[i] = d.Resolve(qs[i], ClientInfo{})
			if n := vfDedupReply(u, qs[i], as[i], errs[i]); n >= 0 {
				zzvf.Assert(!old[n], "a finished lookup is not shared")
				over[n] = true
			}
			done++
		}
		if i < 2 {
			zzvf.Go(run)
		} else {
			run()
		}
	}
	zzvf.Settle()
	zzvf.Assert(done == 3, "every caller gets a result")
	for i := range qs {
		if n := vfDedupReply(u, qs[i], as[i], errs[i]); n >= 0 {
			zzvf.Assert(vfDedupSame(u.asked[n], qs[i]), "only identical queries share a lookup")
		}
		for j := range qs {
			if j < i && u.outcome == 0 {
				zzvf.Assert(!zzvf.SameMem(as[i], as[j]) && !zzvf.SameMem(as[i].Answer[0], as[j].Answer[0]), "each caller's message is its own")
			}
		}
	}
	if len(u.asked) < 3 {
		zzvf.Cover("shared")
	}
	k := len(u.asked)
	q := vfQueryOf("a.", dns.TypeA)
	a, err := d.Resolve(q, ClientInfo{})
	vfDedupReply(u, q, a, err)
	zzvf.Assert(len(u.asked) == k+1, "a query after the lookup starts a new one")
}
