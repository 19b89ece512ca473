package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfLabelStart tells whether position i of a name starts a label.
func vfLabelStart(name string, i int) bool {
	if i == 0 {
		return true
	}
	dot := name[i-1] == '.'
	esc := false
	for j := 0; j < i-1; j++ {
		esc = name[j] == '\\' && !esc
	}
	return dot && !esc
}

// vfNames is an arbitrary valid name of up to n characters below "t.", made of
// the given characters.
func vfNames(label string, n int, alphabet string) string {
	s := zzvf.StrOf(label, n, alphabet)
	for i := range s {
		esc := false
		for j := 0; j < i; j++ {
			esc = s[j] == '\\' && !esc
		}
		// only dots are escaped, and no label is empty
		if zzvf.Fork(esc) {
			zzvf.Assume(s[i] == '.')
		} else {
			zzvf.Assume(s[i] != '.' || !vfLabelStart(s, i))
			zzvf.Assume(s[i] != '\\' || i+1 < len(s))
		}
	}
	zzvf.Assume(!vfLabelStart(s+"x", n))
	return s + ".t."
}

// A stored answer (does not exist or success) for any name of 1 or 2
// characters below a fixed name, then a query for a name of 2 or 4 characters,
// all made of a, A, b, dots and escaped dots; same or other class; option on
// and off.
func VF_C08_below() {
	zzvf.Preempt(0)
	nx := zzvf.Choose("nx", 2) == 1
	up := &vfUp{id: "up"}
	up.fn = func(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
		if len(up.qs) > 1 {
			return nil, errVF
		}
		a := new(dns.Msg)
		a.SetReply(q)
		if nx {
			a.Rcode = dns.RcodeNameError
		}
		return a, nil
	}
	harden := zzvf.Choose("harden", 2) == 1
	c := NewCache("c", up, CacheOptions{HardenBelowNXDOMAIN: harden})
	p := new(dns.Msg)
	p.SetQuestion(vfNames("stored", 1+zzvf.Choose("slen", 2), "aA.b"), dns.TypeA)
	_, err := c.Resolve(p, ClientInfo{})
	zzvf.Assert(err == nil && len(up.qs) == 1, "the first query goes upstream")
	q := new(dns.Msg)
	q.SetQuestion(vfNames("asked", 2+2*zzvf.Choose("qlen", 2), "ab.\\"), dns.TypeA)
	if zzvf.Choose("class", 2) == 1 {
		q.Question[0].Qclass = dns.ClassCHAOS
	}
	s, n := p.Question[0].Name, q.Question[0].Name
	a, err := c.Resolve(q, ClientInfo{})
	if err != nil {
		zzvf.Assert(len(up.qs) == 2 && vfSame(up.qs[1], q), "a query that is not answered is forwarded")
		zzvf.Cover("forwarded")
		return
	}
	zzvf.Assert(len(up.qs) == 1 && p.Question[0].Qclass == q.Question[0].Qclass, "only answers of the same class are used")
	zzvf.Assert(a.Id == q.Id && len(a.Question) == 1 && a.Question[0] == q.Question[0] && (a.Rcode == dns.RcodeNameError) == nx, "the reply is one for the query")
	if len(s) == len(n) {
		zzvf.Assert(vfFold(s, n), "the name is the stored one")
		zzvf.Cover("same")
		return
	}
	zzvf.Assert(nx && harden, "only a name that does not exist answers for others")
	zzvf.Assert(len(n) > len(s) && vfFold(s, n[len(n)-len(s):]) && vfLabelStart(n, len(n)-len(s)), "the name lies below the stored one")
	zzvf.Cover("below")
}
