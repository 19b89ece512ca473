package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

var vfStaticRecords = []string{
	"other.test. 60 IN A 192.0.2.1",
	"60 IN AAAA 2001:db8::1",
	". 3600 IN CNAME target.test.",
	"x.test. IN TXT \"a\" \"b\"",
	"x.test. 5 IN MX 10 mx.test.",
}

func vfStaticReply(q, a *dns.Msg, opt StaticResolverOptions, ede string) {
	zzvf.Assert(a != nil && a.Response, "a reply is given")
	zzvf.Assert(a.Id == q.Id && a.Opcode == q.Opcode && a.RecursionDesired == q.RecursionDesired, "the reply carries the query's ID and flags")
	zzvf.Assert(len(a.Question) == 1 && a.Question[0] == q.Question[0], "the reply carries the query's question")
	zzvf.Assert(a.Rcode == opt.RCode && a.Truncated == opt.Truncate && a.Authoritative && a.RecursionAvailable, "the reply carries the configured code and flags")
	sec := func(got []dns.RR, want []string, owner string) {
		zzvf.Assert(len(got) == len(want), "every configured record is in the reply")
		for i := range want {
			w, err := dns.NewRR(want[i])
			if err != nil {
				panic(err)
			}
			if owner != "" {
				w.Header().Name = owner
			}
			zzvf.Assert(zzvf.Equal(got[i], w), "the record is the configured one under the right name")
		}
	}
	sec(a.Answer, opt.Answer, q.Question[0].Name)
	sec(a.Ns, opt.NS, "")
	ex := a.Extra
	if ede != "" {
		o, ok := ex[len(ex)-1].(*dns.OPT)
		zzvf.Assert(ok && len(o.Option) == 1, "the extended error is attached")
		e, ok := o.Option[0].(*dns.EDNS0_EDE)
		zzvf.Assert(ok && e.InfoCode == 15 && e.ExtraText == ede+q.Question[0].Name, "the extended error is the configured one")
		ex = ex[:len(ex)-1]
	}
	sec(ex, opt.Extra, "")
}

func vfStaticOptions() (StaticResolverOptions, string) {
	var opt StaticResolverOptions
	n := zzvf.Choose("answers", 3)
	for i := 0; i < n; i++ {
		opt.Answer = append(opt.Answer, vfStaticRecords[zzvf.Choose("an", len(vfStaticRecords))])
	}
	if zzvf.Choose("ns", 2) == 1 {
		opt.NS = []string{"test. 60 IN NS ns.test."}
	}
	if zzvf.Choose("extra", 2) == 1 {
		opt.Extra = []string{"ns.test. 60 IN A 192.0.2.9"}
	}
	opt.RCode = zzvf.Int("rcode", 0, 15)
	opt.Truncate = zzvf.Bool("tc")
	ede := ""
	if zzvf.Choose("ede", 2) == 1 {
		ede = "blocked: "
		t, err := NewEDNS0EDETemplate(15, "blocked: {{ .Question }}")
		if err != nil {
			panic(err)
		}
		opt.EDNS0EDETemplate = t
	}
	return opt, ede
}

// Up to two answer records out of A, AAAA, CNAME, TXT, MX (with, without and
// with root owner), optional authority and additional record, any response code
// and truncation flag, with and without an extended error; three queries with
// any ID, flags, type (A and TXT with an extended error) and class, different names (1 character of 4), replies
// altered in between.
func VF_M08_static() {
	opt, ede := vfStaticOptions()
	r, err := NewStaticResolver("s", opt)
	zzvf.Assert(err == nil, "the configuration is accepted")
	q1 := vfQuery(zzvf.StrOf("name", 1, "abAB") + ".test.")
	q2 := vfQuery("b.example.")
	if ede != "" {
		q1 = vfQueryOf(q1.Question[0].Name, dns.TypeA)
		q2 = vfQueryOf("b.example.", dns.TypeTXT)
	}
	vfOpt(q1, "q.opt", zzvf.Choose("q.edns", 2))
	orig := q1.Copy()
	a1, err := r.Resolve(q1, ClientInfo{})
	zzvf.Assert(err == nil, "no error")
	vfStaticReply(q1, a1, opt, ede)
	zzvf.Assert(vfSame(orig, q1), "the query is not changed")
	a2, _ := r.Resolve(q2, ClientInfo{})
	vfStaticReply(q1, a1, opt, ede)
	vfMess(a1)
	vfStaticReply(q2, a2, opt, ede)
	a3, _ := r.Resolve(orig, ClientInfo{})
	vfStaticReply(orig, a3, opt, ede)
}

// Template records using question name, type, class and ID and string
// functions; names of one or two labels over a small alphabet, any ID; type A or
// TXT.
func VF_M08_template() {
	qtype := []uint16{dns.TypeA, dns.TypeTXT}[zzvf.Choose("type", 2)]
	l := zzvf.StrOf("name", 1, "abAB")
	q := vfQueryOf(l+".test.", qtype)
	opt := StaticResolverOptions{RCode: zzvf.Int("rcode", 0, 15), Truncate: zzvf.Bool("tc")}
	kind := zzvf.Choose("kind", 4)
	switch kind {
	case 0:
		opt.Answer = []string{"{{ .Question }} 60 IN A 192.0.2.1"}
	case 1:
		opt.Answer = []string{"{{ .Question }} 60 IN CNAME {{ trimSuffix .Question \"test.\" }}other."}
	case 2:
		opt.Answer = []string{"{{ .Question }} 60 {{ .QuestionClass }} TXT \"{{ .QuestionType }}\" \"{{ .ID }}\""}
	case 3:
		opt.Answer = []string{"{{ replaceAll .Question \".test.\" \".example.\" }} 60 IN A 192.0.2.2", "{{ .Question }} 60 IN A 192.0.2.1"}
		opt.NS = []string{"{{ .Question }} 60 IN NS ns.test."}
		opt.Extra = []string{"ns.test. 60 IN TXT \"{{ .Question }}\""}
	}
	r, err := NewStaticTemplateResolver("t", opt)
	zzvf.Assert(err == nil, "the configuration is accepted")
	check := func(a *dns.Msg, err error) {
		zzvf.Assert(err == nil && a != nil && a.Response, "a reply is given")
		zzvf.Assert(a.Id == q.Id && len(a.Question) == 1 && a.Question[0] == q.Question[0], "the reply carries the query's ID and question")
		zzvf.Assert(a.Rcode == opt.RCode && a.Truncated == opt.Truncate && a.Authoritative && a.RecursionAvailable, "the reply carries the configured code and flags")
		zzvf.Assert(len(a.Answer) == len(opt.Answer) && len(a.Ns) == len(opt.NS) && len(a.Extra) == len(opt.Extra), "every template yields a record")
		last := a.Answer[len(a.Answer)-1]
		zzvf.Assert(last.Header().Name == q.Question[0].Name && last.Header().Ttl == 60, "the record is owned by the queried name")
		switch kind {
		case 1:
			zzvf.Assert(last.(*dns.CNAME).Target == l+".other.", "the alias is derived from the question")
		case 2:
			t := last.(*dns.TXT).Txt
			zzvf.Assert(len(t) == 2 && t[0] == map[uint16]string{dns.TypeA: "A", dns.TypeTXT: "TXT"}[qtype], "the type is filled in")
			v := 0
			for i := 0; i < len(t[1]); i++ {
				v = v*10 + int(t[1][i]-'0')
			}
			zzvf.Assert(v == int(q.Id), "the ID is filled in")
		case 3:
			zzvf.Assert(a.Answer[0].Header().Name == l+".example." && a.Ns[0].Header().Name == q.Question[0].Name, "names are filled in in every section")
			zzvf.Assert(a.Extra[0].(*dns.TXT).Txt[0] == q.Question[0].Name, "text is filled in")
		}
	}
	a, err := r.Resolve(q, ClientInfo{})
	check(a, err)
	vfMess(a)
	a, err = r.Resolve(q, ClientInfo{})
	check(a, err)
	zzvf.Cover("template")
}
