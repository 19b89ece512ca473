package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Replies with up to 2 answer, 1 authority and 1 additional record (A, AAAA,
// CNAME) with or without an EDNS record, any header; errors and missing replies.
func VF_M06_minimize() {
	q := vfQuery("a.test.")
	a, err := vfOutcome(q, func() *dns.Msg {
		m := vfReply(q, []string{"a.test.", "b.test."}, 3, zzvf.Choose("nan", 3), zzvf.Choose("nns", 2), zzvf.Choose("nex", 2))
		vfOpt(m, "a.opt", zzvf.Choose("a.edns", 2))
		return m
	})
	var want *dns.Msg
	if a != nil {
		want = a.Copy()
		want.Ns, want.Extra = nil, nil
	}
	up := vfFixed("up", a, err)
	q0 := q.Copy()
	got, gerr := NewResponseMinimize("m", up).Resolve(q, ClientInfo{})
	zzvf.Assert(gerr == err, "errors are passed on")
	zzvf.Assert(zzvf.Equal(got, want), "only authority and additional records are removed")
	zzvf.Assert(len(up.qs) == 1 && zzvf.Equal(up.qs[0], q0) && zzvf.Equal(q, q0), "query forwarded unchanged")
	zzvf.Cover("minimized")
}

// Replies with up to 3 answer records (A, AAAA, CNAME at two names, any class)
// and one authority record, any header; query type and class arbitrary.
func VF_M06_collapse() {
	q := vfQuery("A.test.")
	a, err := vfOutcome(q, func() *dns.Msg {
		m := vfReply(q, []string{"a.test.", "b.test."}, 3, zzvf.Choose("nan", 4), zzvf.Choose("nns", 2), 0)
		for _, rr := range m.Answer {
			rr.Header().Class = zzvf.U16("class")
		}
		return m
	})
	null := zzvf.Int("null", 0, 5)
	var orig *dns.Msg
	if a != nil {
		orig = a.Copy()
	}
	up := vfFixed("up", a, err)
	q0 := q.Copy()
	got, gerr := NewResponseCollapse("c", up, ResponseCollapseOptions{NullRCode: null}).Resolve(q, ClientInfo{})
	zzvf.Assert(gerr == err, "errors are passed on")
	zzvf.Assert(len(up.qs) == 1 && zzvf.Equal(up.qs[0], q0) && zzvf.Equal(q, q0), "query forwarded unchanged")
	if orig == nil || orig.Rcode != dns.RcodeSuccess {
		zzvf.Cover("not a success")
		zzvf.Assert(zzvf.Equal(got, orig), "replies that are not a success are left alone")
		return
	}
	var keep []dns.RR
	for _, rr := range orig.Answer {
		h := rr.Header()
		if h.Rrtype == q0.Question[0].Qtype && h.Class == q0.Question[0].Qclass {
			h.Name = "A.test."
			keep = append(keep, rr)
		}
	}
	if len(keep) == 0 {
		zzvf.Cover("none left")
		zzvf.Assert(got.Id == q0.Id && zzvf.Equal(got.Question, q0.Question) && got.Response, "reply belongs to the query")
		zzvf.Assert(got.Rcode == null && len(got.Answer) == 0, "configured code without records when none are left")
		return
	}
	zzvf.Cover("collapsed")
	orig.Answer = keep
	zzvf.Assert(zzvf.Equal(got, orig), "exactly the requested records remain, owned by the queried name")
}
