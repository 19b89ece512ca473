package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// VF_D03_flags: a client's query with arbitrary header flags, with and without
// EDNS and the DO flag, for one of four types meets an upstream reply with
// arbitrary flags that is genuine, unsigned from an unsigned zone, forged,
// stripped of its signature, denied with and without proof, an error code, a
// failure or no reply at all, in enforcing and log-only mode.
func VF_D03_flags() {
	zzvf.Preempt(0)
	w := vfNewWorld()
	const secure, insecure, bogus, unchecked = 0, 1, 2, 3
	t := []uint16{dns.TypeA, dns.TypeRRSIG, dns.TypeNSEC, dns.TypeTXT}[zzvf.Choose("type", 4)]
	q := vfQueryOf("www.ve.", t)
	q.CheckingDisabled = false // set by the validator's own lookups only
	edns := zzvf.Choose("edns", 2)
	opt := vfOpt(q, "q", edns)
	kind := zzvf.Choose("reply", 9)
	types := []uint16{dns.TypeA, dns.TypeRRSIG, dns.TypeNSEC}
	nsec := w.genuine("", "ve.", w.nsec("www.ve.", "ve.", types...))
	var extra []dns.RR
	if zzvf.Choose("extra", 2) == 1 {
		extra = []dns.RR{w.a("ns.ve.", 9), w.sign(w.zsk["ve."], "ve.", w.a("ns.ve.", 9))}
	}
	reply := new(dns.Msg)
	outcome := secure
	switch kind {
	case 0: // genuine
		reply.Answer = w.genuine("", "ve.", w.a("www.ve.", 1))
		reply.Ns = nsec
	case 1: // from an unsigned zone
		q.Question[0].Name = "www.u."
		reply.Answer = []dns.RR{w.a("www.u.", 1)}
		outcome = insecure
	case 2: // forged
		reply.Answer = []dns.RR{w.a("www.ve.", 66), w.genuine("", "ve.", w.a("www.ve.", 1))[1]}
		outcome = bogus
	case 3: // stripped
		reply.Answer = []dns.RR{w.a("www.ve.", 1)}
		outcome = bogus
	case 4: // denied with proof
		q.Question[0].Qtype = dns.TypeTXT
		t = dns.TypeTXT
		reply.Ns = nsec
	case 5: // denied without
		outcome = bogus
	case 6: // error code
		reply.Rcode = 1 + zzvf.Int("rcode", 0, 9)
		zzvf.Assume(reply.Rcode != dns.RcodeNameError)
		reply.Answer = w.genuine("", "ve.", w.a("www.ve.", 1))
		reply.Ns = nsec
		outcome = unchecked
	}
	if kind == 0 || kind == 1 {
		// other types would need a denial
		q.Question[0].Qtype = dns.TypeA
		t = dns.TypeA
	}
	reply.AuthenticatedData = zzvf.Bool("r.ad")
	reply.CheckingDisabled = zzvf.Bool("r.cd")
	reply.RecursionAvailable = zzvf.Bool("r.ra")
	reply.Extra = extra
	if zzvf.Choose("r.edns", 2) == 1 {
		reply.SetEdns0(4096, true)
	}
	n := len(reply.Answer) + len(reply.Ns) + len(reply.Extra)
	up := &vfUp{id: "up"}
	up.fn = func(m *dns.Msg, _ ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(m)
		name := m.Question[0].Name
		switch {
		case !m.CheckingDisabled:
			switch kind {
			case 7:
				return nil, errVF
			case 8:
				return nil, nil
			}
			o := m.IsEdns0()
			zzvf.Assert(o != nil && o.Do(), "the upstream is asked for signatures")
			reply.Id, reply.Response, reply.Question = m.Id, true, m.Question
			return reply, nil
		case m.Question[0].Qtype == dns.TypeDNSKEY:
			if _, ok := w.ksk[name]; ok {
				a.Answer = w.keys(name)
			}
		case name == "ve.":
			a.Answer = w.ds(name)
		case name == "u.":
			a.Ns = w.genuine("", ".", w.nsec("u.", "ve.", dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC))
		}
		return a, nil
	}
	logOnly := zzvf.Choose("log only", 2) == 1
	v, err := NewDNSSECValidator("sec", up, DNSSECValidatorOptions{TrustAnchors: w.anchors(), LogOnly: logOnly})
	zzvf.Assert(err == nil, "the validator can be set up")
	a, err := v.Resolve(q, ClientInfo{})
	switch kind {
	case 7:
		zzvf.Assert(err != nil, "an upstream failure is reported")
		return
	case 8:
		zzvf.Assert(a == nil && err == nil, "a dropped query stays dropped")
		return
	}
	zzvf.Assert(err == nil && a != nil, "every reply leads to an answer")
	zzvf.Assert(a.Id == q.Id && a.Question[0].Name == q.Question[0].Name && a.Question[0].Qtype == t, "the answer is to the client's query")
	if outcome == bogus && !logOnly {
		zzvf.Cover("bogus")
		zzvf.Assert(a.Rcode == dns.RcodeServerFailure && len(a.Answer) == 0 && len(a.Ns) == 0 && !a.AuthenticatedData, "a bogus answer is replaced by a server failure")
		return
	}
	zzvf.Cover("passed")
	zzvf.Assert(a.Rcode == reply.Rcode, "the upstream's reply code is kept")
	zzvf.Assert(a.AuthenticatedData == (outcome == secure), "exactly the validated answers are marked as authentic")
	do := opt != nil && opt.Hdr.Ttl&(1<<15) != 0
	data, sigs := 0, 0
	for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for _, r := range s {
			switch rt := r.Header().Rrtype; rt {
			case dns.TypeRRSIG, dns.TypeNSEC, dns.TypeNSEC3:
				sigs++
				zzvf.Assert(do || rt == t, "clients that do not want them get no signatures or denial records")
			case dns.TypeOPT:
				sigs++
				zzvf.Assert(opt != nil, "clients without EDNS get no EDNS record")
				zzvf.Assert(do || r.Header().Ttl&(1<<15) == 0, "the DO flag is not set in replies to clients that did not set it")
			default:
				data++
			}
		}
	}
	want := len(extra) / 2
	if kind != 4 && kind != 5 {
		want++
	}
	zzvf.Assert(data == want, "all other records are kept")
	if do {
		zzvf.Assert(data+sigs == n, "clients that want signatures and denial records get all of them")
	}
}
