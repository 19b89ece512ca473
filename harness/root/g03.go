package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfSlow is a group member that answers when told to.
type vfSlow struct {
	id   string
	gate chan struct{}
	a    *dns.Msg
	err  error
	q    *dns.Msg
}

func (m *vfSlow) String() string { return m.id }
func (m *vfSlow) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
	m.q = q
	<-m.gate
	return m.a, m.err
}

func (m *vfSlow) ok() bool {
	return m.err == nil && (m.a == nil || m.a.Rcode != dns.RcodeServerFailure)
}

// VF_G03_fastest: one to three (thorough: four) members answer in every order,
// one after the other or two at once, with an error, a dropped query or a reply
// with an arbitrary response code, or never; one
// preemption and one deviation (thorough: two) from the order of starting.
func VF_G03_fastest() {
	zzvf.DeadlockOK()
	zzvf.Preempt(1)
	zzvf.Delays(1 + zzvf.Tier())
	n := 1 + zzvf.Choose("members", 3+zzvf.Tier())
	q := vfQueryOf("a.test.", dns.TypeA)
	want := q.Copy()
	var ms []*vfSlow
	var rs []Resolver
	for i := 0; i < n; i++ {
		m := &vfSlow{id: string(rune('a' + i)), gate: make(chan struct{}, 1)}
		switch zzvf.Choose(m.id, 3) {
		case 0:
			m.err = errVF
		case 1:
			m.a = new(dns.Msg)
			m.a.SetReply(q)
			m.a.Rcode = zzvf.Int(m.id+".rcode", 0, 15)
		}
		ms = append(ms, m)
		rs = append(rs, m)
	}
	g := NewFastest("g", rs...)
	var a *dns.Msg
	var err error
	done := make(chan struct{}, 1)
	zzvf.Go(func() {
		a, err = g.Resolve(q, ClientInfo{})
		done <- struct{}{}
	})
	zzvf.Settle()
	for _, m := range ms {
		zzvf.Assert(m.q != nil && vfSame(m.q, want) && !zzvf.SameMem(m.q, q), "every member is asked its own copy of the query at once")
	}
	left := append([]*vfSlow(nil), ms...)
	take := func() *vfSlow {
		i := zzvf.Choose("next", len(left))
		m := left[i]
		left = append(append([]*vfSlow(nil), left[:i]...), left[i+1:]...)
		return m
	}
	for len(left) > 0 {
		batch := []*vfSlow{take()}
		if len(left) > 0 && zzvf.Choose("together", 2) == 1 {
			batch = append(batch, take())
		}
		for _, m := range batch {
			m.gate <- struct{}{}
		}
		zzvf.Settle()
		success := false
		for _, m := range batch {
			success = success || m.ok()
		}
		finished := len(done) > 0
		if !success && len(left) > 0 {
			zzvf.Assert(!finished, "failures are not reported while a member may still answer")
			continue
		}
		zzvf.Assert(finished, "the reply is given as soon as there is a usable answer or everything failed")
		from := false
		for _, m := range batch {
			if m.ok() == success && m.a == a && m.err == err {
				from = true
			}
		}
		zzvf.Assert(from, "the reply is that of the member that answered")
		zzvf.Cover("answered")
		return
	}
}
