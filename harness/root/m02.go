package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Four rule lists (suffix rewrite, two chained rules, anchored full-name rule,
// rule removing a label) against names of two free letters (either case) under
// three zones; the reply has up to 2 answer records at the new name (either
// case), the old name or another name, any header, and may lack a question.
func VF_M02_replace() {
	lists := [][]ReplaceOperation{
		{{`\.old\.$`, `.new.`}},
		{{`\.old\.$`, `.mid.`}, {`\.mid\.$`, `.new.`}},
		{{`^([ab])x?.*\.old\.$`, `${1}.new.`}},
		{{`^[a-z]+\.old\.$`, `old.`}, {`^zz\.$`, `b.`}},
	}
	li := zzvf.Choose("list", len(lists))
	l0 := zzvf.StrOf("l0", 1, "abA")
	l1 := zzvf.StrOf("l1", 1, "ax")
	zone := []string{".old.", ".mid.", ".oldx."}[zzvf.Choose("zone", 3)]
	old := l0 + l1 + zone
	want := old
	switch li {
	case 0:
		if zone == ".old." {
			want = l0 + l1 + ".new."
		}
	case 1:
		if zone == ".old." || zone == ".mid." {
			want = l0 + l1 + ".new."
		}
	case 2:
		if zone == ".old." && (l0 == "a" || l0 == "b") {
			want = l0 + ".new."
		}
	case 3:
		if zone == ".old." && l0 != "A" {
			want = "old."
		}
	}
	q := vfQuery(old)
	vfOpt(q, "q.opt", zzvf.Choose("q.edns", 2))
	q0 := q.Copy()
	var sent *dns.Msg
	up := &vfUp{id: "up"}
	up.fn = func(m *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		a, err := vfOutcome(m, func() *dns.Msg {
			upper := "X" + want[1:]
			if want[0] >= 'a' && want[0] <= 'z' {
				upper = string(want[0]-32) + want[1:]
			}
			a := vfReply(m, []string{want, upper, "z.other."}, 1, zzvf.Choose("nan", 3), 0, 0)
			if zzvf.Choose("noquestion", 2) == 1 {
				a.Question = nil
			}
			return a
		})
		if a != nil {
			sent = a.Copy()
		}
		return a, err
	}
	r, err := NewReplace("r", up, lists[li]...)
	zzvf.Assert(err == nil, "valid rules accepted")
	got, gerr := r.Resolve(q, ClientInfo{})
	zzvf.Assert(zzvf.Equal(q, q0), "the client's query is not modified")
	zzvf.Assert(len(up.qs) == 1, "asked once")
	wq := q0.Copy()
	wq.Question[0].Name = want
	zzvf.Assert(zzvf.Equal(up.qs[0], wq), "upstream is asked for the replaced name and nothing else changes")
	zzvf.Assert((gerr == nil) == (got != nil || sent == nil && gerr == nil), "errors are passed on")
	if sent == nil {
		zzvf.Assert(got == nil, "nothing is made up")
		return
	}
	zzvf.Assert(gerr == nil && got != nil, "reply returned")
	if want != old {
		zzvf.Cover("replaced")
		if len(sent.Question) > 0 {
			sent.Question[0].Name = old
		}
		for _, rr := range sent.Answer {
			if vfFold(rr.Header().Name, want) {
				rr.Header().Name = old
			}
		}
	} else {
		zzvf.Cover("unchanged")
	}
	for i := range got.Answer {
		zzvf.Observe("name", got.Answer[i].Header().Name)
	}
	zzvf.Assert(zzvf.Equal(got, sent), "the reply carries the client's name wherever the replaced name was and is otherwise unchanged")
}
