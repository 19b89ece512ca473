package rdns

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"errors"
	"math/big"
	"net"
	"strconv"
	"strings"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Public keys of the private keys 3000009, 4000012, ...
var vfPublic = []string{
	"Tj1LODAzpoeWhY88lQAfhgtSgi4g9uxUCTvwfFA5fRivXR+D051G148nefcINyxhypFur6KqysDjRv/zOuGAOQ==",
	"QrhiHcizshb215xZjDMKRhht+kme3G2zwgnYqxuxHL6IHOdIwcMxJ8BB4vJnBedr+14CuwwaSnRWx54VqF8WEQ==",
	"UcXBjSKsQgJx5xAkbWbfA08AG2Z+My54zBBeqWQcL8ePSRDvCqx8/YppseA0+iayLk+3L3bD3BGI+HcJylfdyA==",
	"OKeqZkJXGe1hXubp8Ej8ENQz0uU4uw6PILbKy4Q08gZy8TSVL+iOXRSwG3yDnuXNziy/9yEWIwc6dhbse/yokg==",
	"9at4aC8lLwpLnvUXPaJYxxizmtQBt02pXAm3UxfCEGQg5TlUsPQ+cvQU9nnxtkggMJdl6DxDQ+Yg0mRRfefzzg==",
	"Xev44OLG5W9CLhVsstg64pu25lpERA5mUcqlF8Q3FVqu1grkBYJZdWafiXrYcou5z4zqXuh2TR0e72kA1Krh0Q==",
	"y1b+Jiw/taMWNdYIOWmCaIN54ukuK5LFgVbK3FD2J+7w4kwJPRXlU39idt7e1UsSwmuLIPrI+qfeEkDhPzL+5g==",
	"ykiENTZgKJ73pJvSAQM8RTtBtyu5Tnw11MjJaqEoy7jqmORPUdU+ll9C+tkp0YMKssPSgXKdRGqULWw21Vgm0Q==",
}

// vfKeys signs records. The symbolic run replaces the cryptography by its ideal:
// a signature is valid for exactly the data it was made for and the key that
// made it, and the digests of different keys differ.
type vfKeys struct {
	tags   map[string]uint16
	signed map[string]vfSigned // by signature text
}

type vfSigned struct {
	pub string
	sig dns.RRSIG
	set []dns.RR
}

func vfNewKeys() *vfKeys {
	k := &vfKeys{tags: make(map[string]uint16), signed: make(map[string]vfSigned)}
	if !zzvf.Symbolic() {
		return k
	}
	for i := range vfPublic {
		for _, f := range []uint16{256, 257} {
			k.tags[vfPublic[i]+strconv.Itoa(int(f))] = k.key(".", i, f).KeyTag()
		}
	}
	zzvf.Stub("(*github.com/miekg/dns.DNSKEY).KeyTag", func(d *dns.DNSKEY) uint16 {
		return k.tags[d.PublicKey+strconv.Itoa(int(d.Flags))]
	})
	zzvf.Stub("(*github.com/miekg/dns.DNSKEY).ToDS", func(d *dns.DNSKEY, h uint8) *dns.DS {
		if h != dns.SHA256 {
			return nil
		}
		ds := &dns.DS{Hdr: dns.RR_Header{Name: d.Hdr.Name, Rrtype: dns.TypeDS, Class: d.Hdr.Class, Ttl: d.Hdr.Ttl}}
		ds.KeyTag, ds.Algorithm, ds.DigestType = d.KeyTag(), d.Algorithm, h
		ds.Digest = dns.CanonicalName(d.Hdr.Name) + " " + strconv.Itoa(int(d.Flags)) + " " + d.PublicKey
		return ds
	})
	zzvf.Stub("(*github.com/miekg/dns.RRSIG).Verify", k.verify)
	return k
}

// key is a zone's key: the n-th key pair with flags 256 (zone) or 257 (key
// signing).
func (k *vfKeys) key(zone string, n int, flags uint16) *dns.DNSKEY {
	return &dns.DNSKEY{Hdr: dns.RR_Header{Name: zone, Rrtype: dns.TypeDNSKEY, Class: 1, Ttl: 3600}, Flags: flags, Protocol: 3, Algorithm: dns.ECDSAP256SHA256, PublicKey: vfPublic[n]}
}

// sign makes a signature over a record set, naming a signer that need not be
// the key's owner.
func (k *vfKeys) sign(key *dns.DNSKEY, signer string, set ...dns.RR) *dns.RRSIG {
	return k.signAt(key, signer, 1600000000, 1800000000, set...)
}

func (k *vfKeys) signAt(key *dns.DNSKEY, signer string, from, to uint32, set ...dns.RR) *dns.RRSIG {
	h := set[0].Header()
	s := &dns.RRSIG{Hdr: dns.RR_Header{Name: h.Name, Rrtype: dns.TypeRRSIG, Class: 1, Ttl: h.Ttl}}
	s.TypeCovered = h.Rrtype
	s.Algorithm = key.Algorithm
	s.Labels = uint8(dns.CountLabel(h.Name))
	if strings.HasPrefix(h.Name, "*") {
		s.Labels--
	}
	s.OrigTtl = h.Ttl
	s.Inception, s.Expiration = from, to
	s.KeyTag = key.KeyTag()
	s.SignerName = signer
	if zzvf.Symbolic() {
		s.Signature = "S" + strconv.Itoa(len(k.signed))
		k.signed[s.Signature] = vfSigned{key.PublicKey, *s, append([]dns.RR(nil), set...)}
		return s
	}
	for i, p := range vfPublic {
		if p == key.PublicKey {
			priv := new(ecdsa.PrivateKey)
			priv.Curve = elliptic.P256()
			priv.D = big.NewInt(int64(i+3) * 1000003)
			priv.X, priv.Y = priv.Curve.ScalarBaseMult(priv.D.Bytes())
			if err := s.Sign(priv, set); err != nil {
				panic(err)
			}
		}
	}
	return s
}

func (k *vfKeys) verify(s *dns.RRSIG, key *dns.DNSKEY, set []dns.RR) error {
	bad := errors.New("bad signature")
	if len(set) == 0 {
		return bad
	}
	for _, r := range set {
		h, h0 := r.Header(), set[0].Header()
		if h.Rrtype != h0.Rrtype || h.Class != h0.Class || h.Name != h0.Name {
			return bad
		}
	}
	signer := dns.CanonicalName(s.SignerName)
	if s.KeyTag != key.KeyTag() || s.Hdr.Class != key.Hdr.Class || s.Algorithm != key.Algorithm || !strings.EqualFold(signer, key.Hdr.Name) || key.Protocol != 3 || key.Flags&dns.ZONE == 0 {
		return bad
	}
	h := set[0].Header()
	if h.Class != s.Hdr.Class || h.Rrtype != s.TypeCovered || uint8(dns.CountLabel(h.Name)) < s.Labels || !strings.EqualFold(h.Name, s.Hdr.Name) || !strings.HasSuffix(dns.CanonicalName(h.Name), signer) {
		return bad
	}
	w, ok := k.signed[s.Signature]
	if !ok || w.pub != key.PublicKey {
		return bad
	}
	o := w.sig
	if o.TypeCovered != s.TypeCovered || o.Algorithm != s.Algorithm || o.Labels != s.Labels || o.OrigTtl != s.OrigTtl || o.Inception != s.Inception || o.Expiration != s.Expiration || o.KeyTag != s.KeyTag || dns.CanonicalName(o.SignerName) != signer {
		return bad
	}
	// a record set expanded from a wildcard is signed under the wildcard's name
	owner := dns.CanonicalName(h.Name)
	for n := dns.CountLabel(h.Name) - int(s.Labels); n > 0; n-- {
		_, owner, _ = strings.Cut(owner, ".")
		if n == 1 {
			owner = "*." + owner
		}
	}
	if owner != dns.CanonicalName(w.set[0].Header().Name) || len(set) != len(w.set) {
		return bad
	}
	for _, r := range set {
		found := false
		for _, x := range w.set {
			a, b := dns.Copy(r), dns.Copy(x)
			*a.Header(), *b.Header() = dns.RR_Header{}, dns.RR_Header{}
			if zzvf.Equal(a, b) {
				found = true
			}
		}
		if !found {
			return bad
		}
	}
	return nil
}

// vfWorld is a small signed name space: the root, the victim's zone ve., the
// attacker's own properly delegated zone e. (a textual suffix of the victim's
// name), and the unsigned zone u. The attacker controls every upstream reply.
type vfWorld struct {
	*vfKeys
	ksk, zsk map[string]*dns.DNSKEY
	evilKSK  int
	evilZSK  int
	chosen   map[string]int
	lies     int
	lied     bool
	window   func(what string) (uint32, uint32)
}

func vfNewWorld() *vfWorld {
	w := &vfWorld{vfKeys: vfNewKeys(), evilKSK: 6, evilZSK: 7, chosen: make(map[string]int)}
	w.ksk, w.zsk = make(map[string]*dns.DNSKEY), make(map[string]*dns.DNSKEY)
	for i, z := range []string{".", "ve.", "e."} {
		w.ksk[z], w.zsk[z] = w.key(z, 2*i, 257), w.key(z, 2*i+1, 256)
	}
	w.window = func(string) (uint32, uint32) { return 1600000000, 1800000000 }
	return w
}

// anchors is the validator's configuration.
func (w *vfWorld) anchors() []TrustAnchor {
	ds := w.ksk["."].ToDS(dns.SHA256)
	return []TrustAnchor{{Owner: ".", KeyTag: ds.KeyTag, Algorithm: ds.Algorithm, DigestType: ds.DigestType, Digest: ds.Digest}}
}

func (w *vfWorld) a(name string, last byte) *dns.A {
	return &dns.A{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeA, Class: 1, Ttl: 300}, A: net.IP{192, 0, 2, last}}
}

func (w *vfWorld) nsec(name, next string, types ...uint16) *dns.NSEC {
	return &dns.NSEC{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: next, TypeBitMap: types}
}

// genuine adds the zone's own signature to a record set.
func (w *vfWorld) genuine(what, zone string, set ...dns.RR) []dns.RR {
	k := w.zsk[zone]
	if set[0].Header().Rrtype == dns.TypeDNSKEY {
		k = w.ksk[zone]
	}
	from, to := w.window(what)
	return append(set, w.signAt(k, zone, from, to, set...))
}

func (w *vfWorld) keys(zone string) []dns.RR {
	return w.genuine("keys "+zone, zone, w.zsk[zone], w.ksk[zone])
}

func (w *vfWorld) ds(zone string) []dns.RR {
	return w.genuine("ds "+zone, ".", w.ksk[zone].ToDS(dns.SHA256))
}

// attackerSig is a signature by one of the attacker's keys with fields of the
// attacker's choice.
func (w *vfWorld) attackerSig(n int, signer string, set ...dns.RR) *dns.RRSIG {
	return w.sign(w.key(signer, n, 256), signer, set...)
}

// keyReply is the reply to a lookup of a zone's keys.
func (w *vfWorld) keyReply(q *dns.Msg, zone string, kind int) (*dns.Msg, error) {
	a := new(dns.Msg)
	a.SetReply(q)
	switch kind {
	case 0: // the truth
		a.Answer = w.keys(zone)
	case 1: // the attacker's zone's keys
		a.Answer = w.keys("e.")
	case 2: // made-up keys, signed by themselves
		z, k := w.key(zone, w.evilZSK, 256), w.key(zone, w.evilKSK, 257)
		a.Answer = []dns.RR{z, k, w.sign(k, zone, z, k)}
	case 3: // an additional key, with the genuine signature and one by the new key
		z := w.key(zone, w.evilZSK, 256)
		a.Answer = append([]dns.RR{z}, w.keys(zone)...)
		a.Answer = append(a.Answer, w.sign(z, zone, z, w.zsk[zone], w.ksk[zone]))
	case 4: // the attacker's zone's keys under the zone's name
		z, k := w.key(zone, 5, 256), w.key(zone, 4, 257)
		a.Answer = []dns.RR{z, k, w.sign(k, zone, z, k)}
	case 5: // an additional key signed by a made-up key signing key
		z, k := w.key(zone, w.evilZSK, 256), w.key(zone, w.evilKSK, 257)
		a.Answer = []dns.RR{z, k, w.ksk[zone], w.sign(k, zone, z, k, w.ksk[zone])}
	case 6: // the genuine keys with a made-up one, signed by the zone's signing key only
		a.Answer = []dns.RR{w.zsk[zone], w.ksk[zone], w.sign(w.zsk[zone], zone, w.zsk[zone], w.ksk[zone])}
	default:
		return nil, errVF
	}
	return a, nil
}

// dsReply is the reply to a lookup of a delegation.
func (w *vfWorld) dsReply(q *dns.Msg, name string, kind int) (*dns.Msg, error) {
	a := new(dns.Msg)
	a.SetReply(q)
	parent := "."
	if name != "." && dns.CountLabel(name) > 1 {
		_, parent, _ = strings.Cut(name, ".")
	}
	evil := w.key(name, w.evilKSK, 257).ToDS(dns.SHA256)
	evil.KeyTag = zzvf.U16("ds tag")
	switch kind {
	case 0: // the truth
		switch name {
		case "ve.", "e.":
			a.Answer = w.ds(name)
		case "u.":
			a.Ns = w.genuine("nsec u.", ".", w.nsec("u.", "ve.", dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC))
		case "www.ve.":
			a.Ns = w.genuine("nsec www.ve.", "ve.", w.nsec("www.ve.", "ve.", dns.TypeA, dns.TypeRRSIG, dns.TypeNSEC))
		default: // below u.
		}
	case 1: // the attacker's zone's delegation
		a.Answer = w.ds("e.")
	case 2: // made up, unsigned
		a.Answer = []dns.RR{evil}
	case 3: // made up, signed by a made-up key
		a.Answer = []dns.RR{evil, w.attackerSig(w.evilZSK, parent, evil)}
	case 4: // made up, signed by the attacker's zone
		a.Answer = []dns.RR{evil, w.sign(w.zsk["e."], "e.", evil)}
	case 5: // genuine and made up with the genuine signature
		if name != "ve." {
			return nil, errVF
		}
		a.Answer = append([]dns.RR{evil}, w.ds(name)...)
	case 6: // nothing
	case 7: // the unsigned zone's proof
		a.Ns = w.genuine("nsec u.", ".", w.nsec("u.", "ve.", dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC))
	case 8: // made-up proof, signed by a made-up key
		n := w.nsec(name, "zz.", dns.TypeNS)
		a.Ns = []dns.RR{n, w.attackerSig(w.evilZSK, parent, n)}
	case 9: // made-up proof, signed by the attacker's zone
		n := w.nsec(name, "zz.", dns.TypeNS)
		a.Ns = []dns.RR{n, w.sign(w.zsk["e."], "e.", n)}
	case 10: // made-up proof, unsigned
		a.Ns = []dns.RR{w.nsec(name, "zz.", dns.TypeNS)}
	case 11: // genuine denial records that are no such proof
		a.Ns = w.genuine("nsec ve.", ".", w.nsec("ve.", ".", dns.TypeNS, dns.TypeDS, dns.TypeRRSIG, dns.TypeNSEC))
		a.Ns = append(a.Ns, w.genuine("nsec www.ve.", "ve.", w.nsec("www.ve.", "ve.", dns.TypeA, dns.TypeRRSIG, dns.TypeNSEC))...)
		a.Rcode = dns.RcodeNameError
	case 12: // the child's own denial record for its apex
		a.Ns = w.genuine("apex ve.", "ve.", w.nsec("ve.", "www.ve.", dns.TypeNS, dns.TypeSOA, dns.TypeRRSIG, dns.TypeNSEC))
	default:
		return nil, errVF
	}
	return a, nil
}

// lookup answers the validator's own lookups. The attacker decides once per
// lookup.
func (w *vfWorld) lookup(q *dns.Msg) (*dns.Msg, error) {
	name, t := dns.CanonicalName(q.Question[0].Name), q.Question[0].Qtype
	label, n := "ds "+name, 14
	if t == dns.TypeDNSKEY {
		label, n = "keys "+name, 8
	}
	kind, ok := w.chosen[label]
	if !ok {
		if name == "e." || strings.HasSuffix(name, ".e.") {
			kind = 0
		} else if w.lies > 0 {
			kind = zzvf.Choose(label, n)
			if kind != 0 {
				w.lies--
				w.lied = true
			}
		}
		w.chosen[label] = kind
	}
	if t == dns.TypeDNSKEY {
		if _, ok := w.ksk[name]; !ok && (kind == 0 || kind == 3 || kind == 5 || kind == 6) {
			a := new(dns.Msg)
			a.SetReply(q)
			return a, nil
		}
		return w.keyReply(q, name, kind)
	}
	return w.dsReply(q, name, kind)
}

// ask asks a new client's question through the validator.
func (w *vfWorld) ask(v *DNSSECValidator, name string) *dns.Msg {
	q := new(dns.Msg)
	q.SetQuestion(name, dns.TypeA)
	q.SetEdns0(1232, true)
	a, err := v.Resolve(q, ClientInfo{})
	zzvf.Assert(err == nil && a != nil, "every reply leads to an answer")
	return a
}
