package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfName is a name below ve. as single-letter labels, topmost first.
type vfName []byte

func (n vfName) String() string {
	var b []byte
	for i := len(n) - 1; i >= 0; i-- {
		b = append(b, n[i], '.')
	}
	return string(b) + "ve."
}

func (n vfName) is(o vfName) bool { return len(n) == len(o) && o.under(n) }

// under tells if a name is another one or below it.
func (n vfName) under(o vfName) bool {
	if len(n) < len(o) {
		return false
	}
	same := true
	for i, c := range o {
		same = vfAnd(same, n[i] == c)
	}
	return same
}

func (n vfName) below(o vfName) bool { return len(n) > len(o) && n.under(o) }

// less is the canonical order of names.
func (n vfName) less(o vfName) bool {
	for i := range n {
		if i >= len(o) {
			return false
		}
		if n[i] != o[i] {
			return n[i] < o[i]
		}
	}
	return len(n) < len(o)
}

// vfOwner is a name of the zone with its record types.
type vfOwner struct {
	vfName
	has map[uint16]bool
}

var vfTypes = []uint16{dns.TypeA, dns.TypeNS, dns.TypeCNAME, dns.TypeSOA, dns.TypeDNAME, dns.TypeDS}

func (o vfOwner) bitmap() []uint16 {
	var m []uint16
	for _, t := range vfTypes {
		if zzvf.Symbolic() {
			m = append(m, vfPick(o.has[t], t, 0))
		} else if o.has[t] {
			m = append(m, t)
		}
	}
	return append(m, dns.TypeRRSIG, dns.TypeNSEC)
}

// vfZone is the contents of the zone ve.: its owner names in canonical order,
// the apex first.
type vfZone []vfOwner

// vfNewZone is a zone with the apex and arbitrary names of the given numbers of
// labels.
func vfNewZone(labels ...int) vfZone {
	z := vfZone{{nil, map[uint16]bool{dns.TypeNS: true, dns.TypeSOA: true, dns.TypeDNAME: zzvf.Bool("apex dname")}}}
	for i, n := range labels {
		var name vfName
		id := string(rune('1' + i))
		for j := 0; j < n; j++ {
			name = append(name, vfLetter("name"+id, j == n-1))
		}
		zzvf.Assume(z[i].less(name))
		z = append(z, vfNewOwner("type"+id, name))
	}
	z.wellFormed()
	return z
}

// vfNewOwner is a name with arbitrary record types.
func vfNewOwner(label string, n vfName) vfOwner {
	o := vfOwner{n, make(map[uint16]bool)}
	for _, t := range vfTypes {
		if t != dns.TypeSOA {
			o.has[t] = zzvf.Bool(label)
		}
	}
	zzvf.Assume(vfOr(!o.has[dns.TypeDS], o.has[dns.TypeNS]))
	// no delegations or redirections at wildcards
	zzvf.Assume(vfOr(n[len(n)-1] != '*', !vfOr(o.has[dns.TypeNS], o.has[dns.TypeDNAME])))
	return o
}

// wellFormed requires that there are no names below a zone cut or redirection.
func (z vfZone) wellFormed() {
	for _, d := range z {
		cut := vfAnd(d.has[dns.TypeNS], !d.has[dns.TypeSOA])
		for _, o := range z {
			zzvf.Assume(vfOr(!vfOr(cut, d.has[dns.TypeDNAME]), !o.below(d.vfName)))
		}
	}
}

func vfLetter(label string, wild bool) byte {
	b := zzvf.U8(label)
	zzvf.Assume(vfOr(vfAnd(b >= 'a', b <= 'z'), vfAnd(wild, b == '*')))
	return b
}

// denies tells if a question has no answer in the zone: if the name does not
// exist (nx) or has no records of the type. Names in child zones are not the
// zone's to deny.
func (z vfZone) denies(q vfName, t uint16, nx bool) bool {
	if len(q) == 0 && t == dns.TypeDS {
		return false // the parent's, and there is one
	}
	for _, d := range z {
		cut := vfAnd(d.has[dns.TypeNS], !d.has[dns.TypeSOA])
		if vfAnd(cut, vfOr(q.below(d.vfName), vfAnd(q.is(d.vfName), t != dns.TypeDS))) {
			return false
		}
		if vfAnd(d.has[dns.TypeDNAME], q.below(d.vfName)) {
			return false
		}
	}
	absent := func(o vfOwner) bool {
		has := o.has[dns.TypeCNAME]
		for _, x := range vfTypes {
			has = vfOr(has, vfAnd(t == x, o.has[x]))
		}
		return !has
	}
	if z.exists(q) {
		if nx {
			return false
		}
		ok := true
		for _, o := range z {
			ok = vfAnd(ok, vfOr(!q.is(o.vfName), absent(o)))
		}
		return ok
	}
	n := len(q) - 1
	for n > 0 && !z.exists(q[:n]) {
		n--
	}
	wild := append(append(vfName(nil), q[:n]...), '*')
	for _, o := range z {
		if o.is(wild) {
			return !nx && absent(o)
		}
	}
	return nx
}

// exists tells if there are records at or below a name.
func (z vfZone) exists(n vfName) bool {
	e := false
	for _, o := range z {
		e = vfOr(e, o.under(n))
	}
	return e
}

// insecure tells if a name lies in a provably unsigned child zone.
func (z vfZone) insecure(q vfName) bool {
	r := false
	for _, d := range z {
		cut := vfAnd(vfAnd(d.has[dns.TypeNS], !d.has[dns.TypeSOA]), !d.has[dns.TypeDS])
		r = vfOr(r, vfAnd(cut, q.under(d.vfName)))
	}
	return r
}

// vfDenied asks a question about the zone ve. whose reply, like that to every
// delegation lookup, carries the given denial records, and checks the verdict.
func vfDenied(w *vfWorld, z vfZone, ns []dns.RR, q vfName, t uint16, nx, complete, optOut bool) {
	up := &vfUp{id: "up"}
	up.fn = func(m *dns.Msg, _ ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(m)
		name := m.Question[0].Name
		switch {
		case m.Question[0].Qtype == dns.TypeDNSKEY:
			if _, ok := w.ksk[name]; ok {
				a.Answer = w.keys(name)
			}
		case m.CheckingDisabled && name == "ve.": // the validator's own lookup
			a.Answer = w.ds(name)
		default:
			a.Ns = append([]dns.RR(nil), ns...)
			if nx {
				a.Rcode = dns.RcodeNameError
			}
		}
		return a, nil
	}
	v, err := NewDNSSECValidator("sec", up, DNSSECValidatorOptions{TrustAnchors: w.anchors()})
	zzvf.Assert(err == nil, "the validator can be set up")
	m := new(dns.Msg)
	m.SetQuestion(q.String(), t)
	m.SetEdns0(1232, true)
	a, err := v.Resolve(m, ClientInfo{})
	zzvf.Assert(err == nil && a != nil, "every reply leads to an answer")
	switch {
	case a.Rcode == dns.RcodeServerFailure:
		zzvf.Cover("rejected")
		if complete {
			zzvf.Assert(!z.denies(q, t, nx), "a denial with all of the zone's denial records is accepted if it is true")
		}
	case a.AuthenticatedData:
		if nx {
			zzvf.Cover("name denied")
		} else {
			zzvf.Cover("type denied")
		}
		zzvf.Assert(z.denies(q, t, nx), "a denial is accepted only if the zone has no such name or type")
	default:
		zzvf.Cover("unsigned")
		zzvf.Assert(vfOr(z.insecure(q), vfAnd(optOut, !z.exists(q))), "an unproven denial is passed on only from an unsigned zone")
	}
}

// vfPickDenials is up to three of the given signed denial records, in any
// order. // The second result tells if all but the first, the parent's, are there.
func vfPickDenials(sets [][]dns.RR) ([]dns.RR, bool) {
	var ns []dns.RR
	n, all := 0, true
	for i, s := range sets {
		if n < 3 && zzvf.Choose("record", 2) == 1 {
			ns = append(ns, s...)
			n++
		} else if i > 0 {
			all = false
		}
	}
	return ns, all
}

// VF_D02_nsec: the zone ve. has its apex and two (thorough: three) further
// names of one or two labels with arbitrary letters, including wildcards, empty
// non-terminals, delegations with and without DS, CNAMEs and DNAMEs. A denial
// of an arbitrary name of up to two labels and an arbitrary type comes with any
// up to three of the genuine NSEC records of the zone and its parent.
func VF_D02_nsec() {
	zzvf.Preempt(0)
	w := vfNewWorld()
	var labels []int
	for i := 0; i < 2+zzvf.Tier(); i++ {
		labels = append(labels, 1+zzvf.Choose("labels", 2))
	}
	z := vfNewZone(labels...)
	sets := [][]dns.RR{w.genuine("", ".", w.nsec("ve.", ".", dns.TypeNS, dns.TypeDS, dns.TypeRRSIG, dns.TypeNSEC))}
	for i, o := range z {
		sets = append(sets, w.genuine("", "ve.", w.nsec(o.String(), z[(i+1)%len(z)].String(), o.bitmap()...)))
	}
	var q vfName
	n := zzvf.Choose("q labels", 3)
	for i := 0; i < n; i++ {
		q = append(q, vfLetter("q", i == n-1))
	}
	t := vfTypes[zzvf.Choose("q type", len(vfTypes))]
	ns, all := vfPickDenials(sets)
	vfDenied(w, z, ns, q, t, zzvf.Choose("nx", 2) == 1, all, false)
}

func vfPick(c bool, a, b uint16) uint16 {
	if c {
		b = a
	}
	return b
}

// vfHashes are the hashes of the zone's names in NSEC3 records. The symbolic run
// takes them to be arbitrary but different; the native one looks for a salt
// that makes the real hashes come out in the same order.
type vfHashes struct {
	names  []string
	hash   []byte // stand-in per name
	owners int    // the first so many names have records
	salt   string
}

func vfNewHashes(owners int, names ...string) *vfHashes {
	h := &vfHashes{names: names, owners: owners}
	for i := range names {
		c := zzvf.U8("hash")
		zzvf.Assume(c >= 'A' && c <= 'V')
		for _, x := range h.hash[:min(i, owners)] {
			zzvf.Assume(c != x)
		}
		h.hash = append(h.hash, c)
	}
	if zzvf.Symbolic() {
		zzvf.Stub("github.com/miekg/dns.HashName", func(name string, _ uint8, _ uint16, _ string) string {
			return string([]byte{h.of(name)})
		})
		return h
	}
	for n := 0; ; n++ {
		h.salt = string("0123456789ABCDEF"[n>>12&15]) + string("0123456789ABCDEF"[n>>8&15]) + string("0123456789ABCDEF"[n>>4&15]) + string("0123456789ABCDEF"[n&15])
		if n >= 1<<16 || h.fits() {
			return h
		}
	}
}

func (h *vfHashes) of(name string) byte {
	for i, n := range h.names {
		if n == name {
			return h.hash[i]
		}
	}
	return '0'
}

func (h *vfHashes) text(name string) string {
	return dns.HashName(name, dns.SHA1, 0, h.salt)
}

func (h *vfHashes) fits() bool {
	for i := range h.names {
		for j := 0; j < h.owners; j++ {
			if (h.hash[i] < h.hash[j]) != (h.text(h.names[i]) < h.text(h.names[j])) {
				return false
			}
		}
	}
	return true
}

// VF_D02_nsec3: the zone ve. has its apex and two further names with arbitrary
// types in five arrangements (wildcards, empty non-terminals, delegations) and
// possibly an unsigned delegation left out by opt-out; their hashes fall in any
// order. A denial of one of ten names and an arbitrary type comes with any of
// the zone's genuine NSEC3 records.
func VF_D02_nsec3() {
	zzvf.Preempt(0)
	w := vfNewWorld()
	shapes := [][]vfName{{vfName("a"), vfName("*")}, {vfName("a"), vfName("ab")}, {vfName("a"), vfName("a*")}, {vfName("b"), vfName("*")}, {vfName("a")}}
	names := shapes[zzvf.Choose("zone", len(shapes))]
	z := vfZone{{nil, map[uint16]bool{dns.TypeNS: true, dns.TypeSOA: true, dns.TypeDNAME: zzvf.Bool("apex dname")}}}
	for _, n := range names {
		z = append(z, vfNewOwner(string(n), n))
	}
	z.wellFormed()
	q := []vfName{nil, vfName("a"), vfName("b"), vfName("ab"), vfName("ac"), vfName("*"), vfName("o"), vfName("oc"), vfName("a*"), vfName("cab")}[zzvf.Choose("q", 10)]
	t := vfTypes[zzvf.Choose("q type", len(vfTypes))]
	var all []string
	add := func(n vfName) {
		s := n.String()
		for _, x := range all {
			if x == s {
				return
			}
		}
		all = append(all, s)
	}
	for _, o := range z {
		add(o.vfName)
	}
	for i := 0; i <= len(q); i++ {
		add(q[:i])
		if i < len(q) {
			add(append(append(vfName(nil), q[:i]...), '*'))
		}
	}
	h := vfNewHashes(len(z), all...)
	optOut := zzvf.Bool("opt-out")
	var sets [][]dns.RR
	for i, o := range z {
		next, wrap := i, i // the owner with the next higher hash, the lowest of all
		for j := range z {
			if h.hash[j] > h.hash[i] && (next == i || h.hash[j] < h.hash[next]) {
				next = j
			}
			if h.hash[j] < h.hash[wrap] {
				wrap = j
			}
		}
		if next == i {
			next = wrap
		}
		r := &dns.NSEC3{Hdr: dns.RR_Header{Name: h.text(o.String()) + ".ve.", Rrtype: dns.TypeNSEC3, Class: 1, Ttl: 300}, Hash: dns.SHA1, Salt: h.salt, SaltLength: uint8(len(h.salt) / 2), HashLength: 20, NextDomain: h.text(z[next].String()), TypeBitMap: o.bitmap()}
		if optOut {
			r.Flags = 1
		}
		sets = append(sets, w.genuine("", "ve.", r))
	}
	var ns []dns.RR
	complete := !optOut
	for _, s := range sets {
		if zzvf.Choose("record", 2) == 1 {
			ns = append(ns, s...)
		} else {
			complete = false
		}
	}
	if optOut {
		z = append(z, vfOwner{vfName("o"), map[uint16]bool{dns.TypeNS: true}})
	}
	vfDenied(w, z, ns, q, t, zzvf.Choose("nx", 2) == 1, complete, optOut)
}
