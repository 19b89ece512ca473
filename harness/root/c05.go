package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfUnshared resolves a query three times, changes everything in each reply
// after it was handed out and compares the next one with what it was.
func vfUnshared(r Resolver, q *dns.Msg) {
	var want *dns.Msg
	for i := 0; i < 3; i++ {
		p := q.Copy()
		a, err := r.Resolve(p, ClientInfo{})
		if err != nil || a == nil {
			zzvf.Assert(i == 0, "a later query is answered like the first")
			return
		}
		for _, rrs := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
			for _, rr := range rrs {
				rr.Header().Rdlength = 0 // only set in messages that were received
			}
		}
		if want == nil {
			want = a.Copy()
		}
		zzvf.Assert(vfSame(a, want), "changing a reply does not change a later one")
		vfMess(a)
	}
	zzvf.Cover("answered")
}

// Answers of up to 2 answer, 1 authority and 1 additional records (A, AAAA,
// CNAME, NS, TXT) with an optional EDNS record holding an extended error, any
// data; three lookups in a row of which the first fills the cache; with and
// without order shuffling.
func VF_C05_cache() {
	zzvf.Preempt(0)
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if len(up.qs) > 1 {
			return nil, errVF
		}
		a := vfReply(q, []string{"a.test."}, 5, zzvf.Choose("nan", 3), zzvf.Choose("nns", 2), zzvf.Choose("nex", 2))
		zzvf.Assume(a.Rcode == 0 && !a.Truncated)
		a.Rcode = 0
		for _, rrs := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
			for _, rr := range rrs {
				zzvf.Assume(rr.Header().Ttl > 0)
			}
		}
		if o := vfOpt(a, "a.opt", zzvf.Choose("opt", 2)); o != nil {
			o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: 15, ExtraText: "x"})
		}
		return a, nil
	}
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	q.Id = zzvf.U16("id")
	vfUnshared(NewCache("c", up, CacheOptions{}), q)
}

// A name list with a hosts-format rule for IPv4 and IPv6 addresses and reverse
// names.
func VF_C05_hosts() {
	db, err := NewHostsDB("l", vfLoader{[]string{"192.0.2.1 a.test", "192.0.2.2 a.test", "2001:db8::1 a.test", "0.0.0.0 b.test"}})
	zzvf.Assert(err == nil, "the list is accepted")
	r, err := NewBlocklist("b", vfFixed("up", nil, errVF), BlocklistOptions{BlocklistDB: db})
	zzvf.Assert(err == nil, "the configuration is accepted")
	q := new(dns.Msg)
	q.SetQuestion([]string{"a.test.", "b.test.", "1.2.0.192.in-addr.arpa."}[zzvf.Choose("name", 3)], []uint16{dns.TypeA, dns.TypeAAAA, dns.TypePTR, dns.TypeTXT}[zzvf.Choose("type", 4)])
	q.Id = zzvf.U16("id")
	vfUnshared(r, q)
}

// A static responder with two answer records, a name server record, an
// additional record and an extended error.
func VF_C05_static() {
	opt := StaticResolverOptions{
		Answer: []string{"60 IN A 192.0.2.1", "60 IN AAAA 2001:db8::1"},
		NS:     []string{"test. 60 IN NS ns.test."},
		Extra:  []string{"ns.test. 60 IN A 192.0.2.2"},
		RCode:  zzvf.Choose("rcode", 4),
	}
	if zzvf.Choose("ede", 2) == 1 {
		e, err := NewEDNS0EDETemplate(15, "x")
		zzvf.Assert(err == nil, "the template is accepted")
		opt.EDNS0EDETemplate = e
	}
	r, err := NewStaticResolver("s", opt)
	zzvf.Assert(err == nil, "the configuration is accepted")
	q := new(dns.Msg)
	q.SetQuestion("a.test.", dns.TypeA)
	q.Id = zzvf.U16("id")
	vfUnshared(r, q)
}
