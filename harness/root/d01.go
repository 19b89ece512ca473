package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// VF_D01_forged: an attacker who controls every upstream reply and owns the
// properly signed zone e. answers a question about a name of the signed zone
// ve. with made-up, misdirected, genuine and unsigned records, and each of the
// validator's key and delegation lookups with one of 8 and 14 replies, up to
// three of which (thorough: four) are not the truth. The
// made-up address and the covered type, label count, key tag, algorithm and
// TTL of the attacker's signatures are arbitrary.
func VF_D01_forged() {
	zzvf.Preempt(0)
	zzvf.MapOrder(true)
	w := vfNewWorld()
	w.lies = 3 + zzvf.Tier()
	www := w.a("www.ve.", 1)
	forged := w.a("www.ve.", zzvf.U8("address"))
	zzvf.Assume(forged.A[3] != 1)
	kind := zzvf.Choose("answer", 15)
	name := "www.ve."
	if kind == 14 {
		name = "www.uu." // there is no such zone
	}
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, _ ClientInfo) (*dns.Msg, error) {
		if q.Question[0].Qtype != dns.TypeA {
			return w.lookup(q)
		}
		a := new(dns.Msg)
		a.SetReply(q)
		good := w.genuine("www.ve.", "ve.", www)
		var sig *dns.RRSIG
		switch kind {
		case 0:
			a.Answer = good
		case 1:
			a.Answer = []dns.RR{forged}
		case 2: // the genuine set's signature
			a.Answer = []dns.RR{forged, good[1]}
		case 3:
			sig = w.attackerSig(w.evilZSK, "ve.", forged)
		case 4:
			sig = w.sign(w.zsk["e."], "e.", forged)
		case 5:
			sig = w.attackerSig(5, ".", forged)
		case 6:
			sig = w.attackerSig(5, "ve.", forged)
		case 7:
			sig = w.attackerSig(5, "www.ve.", forged)
		case 8:
			a.Answer = append([]dns.RR{forged}, good...)
		case 9:
			a.Answer = append([]dns.RR{w.a("mail.ve.", 66)}, good...)
		case 10:
			a.Answer = []dns.RR{w.a("www.u.", 66), forged}
		case 11:
			a.Answer = []dns.RR{w.a("www.u.", 66), forged, good[1]}
		case 12:
			own := w.a("www.e.", 66)
			a.Answer = []dns.RR{own, w.sign(w.zsk["e."], "e.", own), forged}
		case 13: // a signature of the attacker's zone before the genuine one
			a.Answer = []dns.RR{www, w.sign(w.zsk["e."], "e.", www), good[1]}
		case 14:
			a.Answer = []dns.RR{w.a(name, 66)}
		}
		if sig != nil {
			sig.TypeCovered = zzvf.U16("type")
			sig.Labels = zzvf.U8("labels")
			sig.KeyTag = zzvf.U16("tag")
			sig.OrigTtl = zzvf.U32("ttl")
			sig.Algorithm = zzvf.U8("algorithm")
			a.Answer = []dns.RR{forged, sig}
		}
		return a, nil
	}
	v, err := NewDNSSECValidator("sec", up, DNSSECValidatorOptions{TrustAnchors: w.anchors()})
	zzvf.Assert(err == nil, "the validator can be set up")
	a := w.ask(v, name)
	if a.Rcode == dns.RcodeServerFailure {
		zzvf.Cover("rejected")
		zzvf.Assert(w.lied || kind != 0 && kind != 13, "a genuine answer with genuine keys is accepted")
		return
	}
	zzvf.Cover("accepted")
	for _, r := range a.Answer {
		x, ok := r.(*dns.A)
		if !ok {
			continue
		}
		zzvf.Assert(x.Hdr.Name != "www.uu.", "a record of a name that does not exist is never accepted")
		if dns.IsSubDomain("ve.", x.Hdr.Name) {
			zzvf.Assert(x.Hdr.Name == "www.ve." && x.A[3] == 1, "a made-up record of a signed zone is never accepted")
		}
		if x.Hdr.Name == "www.u." {
			zzvf.Assert(!a.AuthenticatedData, "records of an unsigned zone are never marked as authentic")
		}
	}
}

// VF_D01_times: the signatures of the answer, of the zone's keys, its
// delegation and the root's keys have arbitrary validity periods and the clock
// is arbitrary (all between 2001 and 2033); a second question follows after an
// arbitrary time of up to a day.
func VF_D01_times() {
	zzvf.Preempt(0)
	w := vfNewWorld()
	type win struct{ from, to uint32 }
	wins := make(map[string]win)
	w.window = func(what string) (uint32, uint32) {
		x, ok := wins[what]
		if !ok {
			x.from, x.to = zzvf.U32(what+" from"), zzvf.U32(what+" to")
			zzvf.Assume(x.from >= 1000000000 && x.from <= 2000000000 && x.to >= 1000000000 && x.to <= 2000000000)
			wins[what] = x
		}
		return x.from, x.to
	}
	now := zzvf.U32("now")
	zzvf.Assume(now >= 1000000000 && now <= 1900000000)
	zzvf.SetClock(int64(now), 0)
	ok := func(what string, t uint32) bool {
		x := wins[what]
		return x.from <= t && t <= x.to
	}
	keysAt, rootAt, answers := uint32(0), uint32(0), 0
	up := &vfUp{id: "up"}
	t := now
	up.fn = func(q *dns.Msg, _ ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		name := q.Question[0].Name
		switch q.Question[0].Qtype {
		case dns.TypeDNSKEY:
			a.Answer = w.keys(name)
			if name == "ve." {
				keysAt = t
			} else {
				rootAt = t
			}
		case dns.TypeDS:
			if name == "ve." {
				a.Answer = w.ds(name)
			}
		default:
			answers++
			a.Answer = w.genuine([]string{"", "answer 1", "answer 2"}[answers], "ve.", w.a("www.ve.", 1))
		}
		return a, nil
	}
	v, err := NewDNSSECValidator("sec", up, DNSSECValidatorOptions{TrustAnchors: w.anchors()})
	zzvf.Assert(err == nil, "the validator can be set up")
	check := func(what string) {
		a := w.ask(v, "www.ve.")
		if a.Rcode != dns.RcodeSuccess {
			zzvf.Cover(what + " rejected")
			return
		}
		zzvf.Cover(what + " accepted")
		zzvf.Assert(ok(what, t), "an answer is accepted only while its signature is valid")
		zzvf.Assert(keysAt != 0 && rootAt != 0 && ok("keys ve.", keysAt) && ok("ds ve.", keysAt) && ok("keys .", rootAt), "keys are trusted only when the signatures leading to them were valid when they were fetched")
		zzvf.Assert(t-keysAt <= 3600 && keysAt-rootAt <= 3600, "keys are not trusted for longer than their time to live")
	}
	check("answer 1")
	d := zzvf.U32("later")
	zzvf.Assume(d <= 86400)
	zzvf.Advance(int64(d))
	t = now + d
	check("answer 2")
}
