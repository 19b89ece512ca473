package rdns

import (
	"time"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfGroup builds one of the groups that fail over.
func vfGroup(kind int, servfail, empty bool, ms []Resolver) Resolver {
	switch kind {
	case 0:
		return NewFailRotate("g", FailRotateOptions{ServfailError: servfail, EmptyError: empty}, ms...)
	case 1:
		return NewFailBack("g", FailBackOptions{ServfailError: servfail, EmptyError: empty, ResetAfter: time.Minute}, ms...)
	case 2:
		return NewFailBack("g", FailBackOptions{ServfailError: servfail, EmptyError: empty}, ms...)
	case 3:
		return NewRandom("g", RandomOptions{ServfailError: servfail, EmptyError: empty, ResetAfter: time.Minute}, ms...)
	}
	return NewLoadBalance("g", LoadBalanceOptions{ServfailError: servfail, EmptyError: empty}, ms...)
}

type vfMember struct {
	id    string
	asked int
	a     *dns.Msg
	err   error
	order *[]*vfMember
	q     *dns.Msg
}

func (m *vfMember) String() string { return m.id }
func (m *vfMember) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
	m.asked++
	m.q = q
	*m.order = append(*m.order, m)
	return m.a, m.err
}

// ok tells whether the member's outcome is a success.
func (m *vfMember) ok(servfail, empty bool) bool {
	if m.err != nil {
		return false
	}
	if m.a == nil {
		return true
	}
	rc := m.a.Rcode
	bad := rc == dns.RcodeRefused || rc == dns.RcodeNotImplemented || rc == dns.RcodeServerFailure && servfail
	useful := false
	for _, rr := range m.a.Answer {
		useful = useful || rr.Header().Rrtype == m.a.Question[0].Qtype
	}
	if len(m.a.Answer) == 0 {
		if o := m.a.IsEdns0(); o != nil {
			c := o.Option[0].(*dns.EDNS0_EDE).InfoCode
			useful = c == 15 || c == 16 || c == 17 // blocked, censored, filtered
		}
	}
	return !bad && (!empty || useful)
}

// vfMemberOutcome sets an arbitrary outcome: an error, a drop, or a reply with
// any of the response codes and no, a matching or another record, or an
// extended error.
func (m *vfMember) outcome(q *dns.Msg, level int) {
	m.asked, m.a, m.err = 0, nil, nil
	k := zzvf.Choose(m.id+".outcome", []int{2, 3, 5}[level])
	if level == 0 {
		// an error or a reply
		k *= 4
	}
	if k == 0 {
		m.err = errVF
		return
	}
	if k == 1 {
		return
	}
	m.a = new(dns.Msg)
	m.a.SetReply(q)
	m.a.Rcode = zzvf.Int(m.id+".rcode", 0, 5)
	if level == 0 {
		zzvf.Assume(m.a.Rcode == 0 || m.a.Rcode == 2)
	}
	switch k {
	case 2:
		m.a.Answer = []dns.RR{&dns.NULL{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: zzvf.U16(m.id + ".type"), Class: 1}}}
	case 3:
		m.a.Extra = []dns.RR{&dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}, Option: []dns.EDNS0{&dns.EDNS0_EDE{InfoCode: zzvf.U16(m.id + ".ede")}}}}
	}
}

func vfFailover(kind, n, rounds int) {
	zzvf.Preempt(0)
	servfail, empty := zzvf.Bool("servfail-error"), zzvf.Bool("empty-error")
	if n == 3 && zzvf.Tier() == 0 {
		zzvf.Assume(!empty)
	}
	var order []*vfMember
	var vms []*vfMember
	var ms []Resolver
	for i := 0; i < n; i++ {
		m := &vfMember{id: string(rune('a' + i)), order: &order}
		vms = append(vms, m)
		ms = append(ms, m)
	}
	g := vfGroup(kind, servfail, empty, ms)
	out := make([]bool, n) // members taken out of a random group
	first := 0             // member a rotating group has to ask first
	for r := 0; r < rounds; r++ {
		q := vfQueryOf("a.test.", zzvf.U16("q.type"))
		zzvf.Assume(q.Question[0].Qtype != dns.TypeANY)
		want := q.Copy()
		for _, m := range vms {
			level := 2 - r
			if (n == 3 || n == 2 && kind == 4) && zzvf.Tier() == 0 {
				level = 1 - r
			}
			if n == 3 && kind == 4 {
				level = 0
			}
			m.outcome(q, level)
		}
		order = nil
		a, err := g.Resolve(q, ClientInfo{})
		usable := 0
		for i, m := range vms {
			zzvf.Assert(m.asked <= 1, "no member is asked twice")
			if kind == 3 {
				zzvf.Assert(!out[i] || m.asked == 0, "a member taken out is not asked")
			}
			if !out[i] {
				usable++
			}
			zzvf.Assert(m.asked == 0 || vfSame(m.q, want), "members are asked the client's query")
		}
		if len(order) == 0 {
			zzvf.Assert(kind == 3 && usable == 0 && a == nil && err != nil, "only a group without usable members asks nobody, and fails")
			continue
		}
		for _, m := range order[:len(order)-1] {
			zzvf.Assert(!m.ok(servfail, empty), "the search ends with the first success")
		}
		last := order[len(order)-1]
		if last.ok(servfail, empty) {
			zzvf.Assert(a == last.a && err == nil, "the first success is returned")
			zzvf.Cover("success")
		} else {
			zzvf.Assert(len(order) == usable, "failure is reported only when every usable member failed")
			bad := err != nil || a != nil && (a.Rcode == dns.RcodeRefused || a.Rcode == dns.RcodeNotImplemented || servfail && a.Rcode == dns.RcodeServerFailure || empty)
			zzvf.Assert(bad, "failure is reported as failure")
			zzvf.Cover("failure")
		}
		for i, m := range vms {
			if kind == 3 && m.asked > 0 && !m.ok(servfail, empty) {
				out[i] = true
			}
		}
		// the order in which rotating groups try their members
		if kind < 2 {
			for i, m := range order {
				zzvf.Assert(m == vms[(first+i)%n], "members are tried in turn")
			}
			if len(order) > 0 {
				first = (first + len(order)) % n
				if last.ok(servfail, empty) {
					first = (first + n - 1) % n
				}
			}
		}
		if kind == 2 {
			for i, m := range order {
				zzvf.Assert(m == vms[i], "members are tried in order")
			}
		}
	}
}

// Rotating group of 1 to 3 members, two consecutive queries. For the first
// query each member drops, errors, or replies with any of the response codes 0
// to 5 with no, a matching or another record or an extended error (3 members:
// record only, empty answers allowed); for the second one it errors or replies
// with or without a server failure (1 and 2 members: also drops and records). Any
// query type but ANY; both failure options. Thorough: 3 members like 2.
func VF_G01_rotate() {
	n := 1 + zzvf.Choose("members", 3)
	vfFailover(0, n, 2)
}

// Fail-back group, with and without a reset period, no time passing; otherwise
// as the rotating group.
func VF_G01_failback() {
	n := 1 + zzvf.Choose("members", 3)
	vfFailover(1+zzvf.Choose("noreset", 2), n, 2)
}

// Random group, every random choice, no time passing; otherwise as the rotating
// group.
func VF_G01_random() {
	n := 1 + zzvf.Choose("members", 3)
	vfFailover(3, n, 2)
}

// Load-balancing group with the random numbers 0 and 0.9999 (thorough: and 0.3, 0.6);
// otherwise as the rotating group (2 members as 3, 3 members one query with errors
// and server failures).
func VF_G01_balance() {
	n := 1 + zzvf.Choose("members", 3)
	vfFailover(4, n, []int{2, 2, 1}[n-1])
}
