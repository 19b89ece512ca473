package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Names x.test. and y.x.test. with x out of a, b, c, d in either case; block
// rules for a, everything at and below b, everything below c, in a domain list
// or split over a domain and a pattern list; allow rules for x.b or d, or none;
// with and without separate resolvers for blocked and allowed names;
// any query type but PTR, class and flags.
func VF_B01_lists() {
	l := zzvf.StrOf("name", 1, "abcdABCD")
	sub := zzvf.Choose("sub", 3)
	name := []string{"", "x.", "Y."}[sub] + l + ".test."
	q := vfQuery(name)
	if zzvf.Choose("type", 2) == 1 {
		zzvf.Assume(q.Question[0].Qtype != dns.TypePTR)
	} else {
		q.Question[0].Qtype = dns.TypeAAAA
	}
	vfOpt(q, "q.opt", zzvf.Choose("q.edns", 2))
	orig := q.Copy()

	normal := vfFixed("normal", new(dns.Msg), nil)
	alt := vfFixed("alt", new(dns.Msg), errVF)
	ok := vfFixed("ok", nil, nil)
	var opt BlocklistOptions
	var err error
	if zzvf.Choose("multi", 2) == 0 {
		opt.BlocklistDB, err = NewDomainDB("block", vfLoader{[]string{"A.test", ".b.test.", "*.c.test"}})
	} else {
		d1, e1 := NewDomainDB("block1", vfLoader{[]string{"a.test", "*.c.test"}})
		d2, e2 := NewRegexpDB("block2", vfLoader{[]string{`# comment`, `(^|\.)b\.test\.$`}})
		zzvf.Assert(e1 == nil && e2 == nil, "lists are accepted")
		opt.BlocklistDB, err = NewMultiDB(d1, d2)
	}
	zzvf.Assert(err == nil, "lists are accepted")
	allow := zzvf.Choose("allow", 2) == 1
	if allow {
		opt.AllowlistDB, err = NewDomainDB("allow", vfLoader{[]string{"x.B.test", ".d.test", "a.test"}})
		zzvf.Assert(err == nil, "lists are accepted")
	}
	useAlt, useOK := zzvf.Choose("alt", 2) == 1, zzvf.Choose("ok", 2) == 1
	if useAlt {
		opt.BlocklistResolver = alt
	}
	if useOK {
		opt.AllowListResolver = ok
	}
	r, err := NewBlocklist("b", normal, opt)
	zzvf.Assert(err == nil, "the configuration is accepted")
	a, err := r.Resolve(q, ClientInfo{Listener: "l"})

	is := func(s string) bool { return vfFold(l, s) }
	allowed := allow && (sub == 1 && is("b") || is("d") || sub == 0 && is("a"))
	blocked := !allowed && (sub == 0 && is("a") || is("b") || sub != 0 && is("c"))
	zzvf.Assert(vfSame(q, orig), "the query is not changed")
	sent := func(u *vfUp) bool { return len(u.qs) == 1 && vfSame(u.qs[0], orig) && u.cis[0].Listener == "l" }
	n := len(normal.qs) + len(alt.qs) + len(ok.qs)
	switch {
	case zzvf.Fork(allowed):
		if useOK {
			zzvf.Assert(n == 1 && sent(ok) && a == nil && err == nil, "an allowed name goes to the allow-list resolver")
		} else {
			zzvf.Assert(n == 1 && sent(normal) && a != nil && err == nil, "an allowed name is forwarded")
		}
		zzvf.Cover("allowed")
	case zzvf.Fork(blocked):
		zzvf.Assert(len(normal.qs) == 0 && len(ok.qs) == 0, "a blocked name never reaches the normal upstream")
		if useAlt {
			zzvf.Assert(sent(alt) && err == errVF, "a blocked name goes to the block-list resolver")
		} else {
			zzvf.Assert(len(alt.qs) == 0 && err == nil && a.Rcode == dns.RcodeNameError && a.Id == q.Id && a.Response &&
				len(a.Question) == 1 && a.Question[0] == orig.Question[0] && len(a.Answer) == 0, "a blocked name does not exist")
		}
		zzvf.Cover("blocked")
	default:
		zzvf.Assert(n == 1 && sent(normal) && a != nil && err == nil, "any other name is forwarded unchanged")
		zzvf.Cover("forwarded")
	}
}
