package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Any header, one record, EDNS or not; both upstreams may fail, drop or answer.
func VF_M07_retry() {
	q := vfQuery("a.test.")
	vfOpt(q, "q.opt", zzvf.Choose("q.edns", 5))
	mk := func() *dns.Msg { return vfReply(q, []string{"a.test."}, 2, zzvf.Choose("nan", 2), 0, 0) }
	a1, e1 := vfOutcome(q, mk)
	a2, e2 := vfOutcome(q, mk)
	var w1, w2 *dns.Msg
	if a1 != nil {
		w1 = a1.Copy()
	}
	if a2 != nil {
		w2 = a2.Copy()
	}
	up, alt := vfFixed("up", a1, e1), vfFixed("alt", a2, e2)
	q0 := q.Copy()
	ci := ClientInfo{Listener: "l"}
	got, err := NewTruncateRetry("t", up, alt, TruncateRetryOptions{}).Resolve(q, ci)
	zzvf.Assert(len(up.qs) == 1 && zzvf.Equal(up.qs[0], q0) && zzvf.Equal(q, q0), "query forwarded unchanged")
	if w1 != nil && w1.Truncated {
		zzvf.Cover("retried")
		zzvf.Assert(len(alt.qs) == 1 && zzvf.Equal(alt.qs[0], q0), "the same query is repeated once")
		zzvf.Assert(alt.cis[0].Listener == "l", "client information is kept")
		zzvf.Assert(err == e2 && zzvf.Equal(got, w2), "the second result is returned")
		return
	}
	zzvf.Cover("kept")
	zzvf.Assert(len(alt.qs) == 0, "no second query")
	zzvf.Assert(err == e1 && zzvf.Equal(got, w1), "the first result is returned")
}
