package rdns

import (
	"bytes"
	"io"
	"net"
	"net/http"
	"time"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfBlocks tells whether the list blocks a name.
func vfBlocks(r Resolver, name string) bool {
	a, err := r.Resolve(vfQueryOf(name, dns.TypeA), ClientInfo{SourceIP: net.IP{192, 0, 2, 1}})
	zzvf.Assert(err == nil && a != nil, "queries are answered")
	return a.Rcode == dns.RcodeNameError
}

func vfRuleName(i int) string { return string(rune('a'+i)) + ".test" }

// vfReloads runs a list through loads prepared by next, which tells whether the
// load has to succeed.
func vfReloads(l BlocklistLoader, tolerated bool, rounds int, next func(round int) bool) {
	ok := next(0)
	up := new(dns.Msg)
	up.Response = true
	db, err := NewDomainDB("list", l)
	if !ok && !tolerated {
		zzvf.Assert(err != nil, "a failed load is reported")
		zzvf.Cover("reported")
		return
	}
	zzvf.Assert(err == nil, "a good list is loaded and failures are tolerated")
	force := -1 // the load whose rules are in force
	if ok {
		force = 0
	}
	r, err := NewBlocklist("b", vfFixed("up", up, nil), BlocklistOptions{BlocklistDB: db, BlocklistRefresh: time.Hour})
	zzvf.Assert(err == nil, "the list is used")
	zzvf.Settle()
	for i := 0; i <= rounds; i++ {
		if i > 0 {
			if next(i) {
				force = i
				zzvf.Cover("refreshed")
			} else {
				zzvf.Cover("failed")
			}
			zzvf.Advance(3600)
			zzvf.FireDue()
			zzvf.Settle()
		}
		for k := 0; k <= rounds; k++ {
			zzvf.Assert(vfBlocks(r, vfRuleName(k)+".") == (k == force), "the rules of the last successful load are in force")
		}
	}
}

// Local list, loaded and refreshed twice (thorough: three times); each time the
// file has new rules, is missing, or any operation on it fails; failures are
// tolerated or not.
func VF_B07_file() {
	zzvf.Preempt(0)
	f := vfNewFS()
	bad := 0
	f.fault = func(op string) bool {
		bad--
		return bad == 0
	}
	tolerated := zzvf.Choose("tolerated", 2) == 1
	l := NewFileLoader("/lists/l", FileLoaderOptions{AllowFailure: tolerated})
	vfReloads(l, tolerated, 2+zzvf.Tier(), func(round int) bool {
		f.nodes = nil
		f.put("/lists/l", []byte("# comment\n"+vfRuleName(round)+"\n"))
		switch zzvf.Choose("file", 4) {
		case 0:
			f.nodes = nil
			return false
		case 1:
			bad = 1 // opening
			return false
		case 2:
			bad = 2 // reading
			return false
		}
		return true
	})
}

type vfBody struct {
	data []byte
	err  error
}

func (b *vfBody) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		return 0, b.err
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}
func (b *vfBody) Close() error { return nil }

// Remote list without local copy, loaded and refreshed twice (thorough: three
// times); each time the server gives new rules, any status code other than 2xx, breaks off
// after part of the list, or cannot be reached; failures are tolerated or not.
func VF_B07_remote() {
	zzvf.Preempt(0)
	var resp *http.Response
	var failed error
	vfServeList(func() (*http.Response, error) { return resp, failed })
	tolerated := zzvf.Choose("tolerated", 2) == 1
	l := NewHTTPLoader("http://lists.test/l", HTTPLoaderOptions{AllowFailure: tolerated})
	vfReloads(l, tolerated, 2+zzvf.Tier(), func(round int) bool {
		rules := []byte("# comment\n" + vfRuleName(round) + "\n")
		resp, failed = &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(rules))}, nil
		switch zzvf.Choose("server", 4) {
		case 0:
			resp, failed = nil, errVF
			return false
		case 1:
			resp.StatusCode = zzvf.Int("status", 100, 599)
			zzvf.Assume(vfOr(resp.StatusCode < 200, resp.StatusCode > 299))
			return false
		case 2:
			resp.Body = &vfBody{rules, errVF}
			return false
		}
		return true
	})
}

// vfPhased is a list whose rules change between two loads.
type vfPhased struct {
	rules [2][]string
	loads int
}

func (l *vfPhased) Load() ([]string, error) {
	r := l.rules[min(l.loads, 1)]
	l.loads++
	zzvf.Yield() // loading takes time
	return r, nil
}

// A query meets a refresh in every interleaving with two preemptions (thorough:
// three). The two lists of the name, client address, response address and
// response name blocklists swap a rule in the refresh, or a list with a rule for
// one record of a response changes to one with a rule for another record of it;
// either way old and new rules both block, or filter one of the records.
func VF_B07_atomic() {
	zzvf.Preempt(2 + zzvf.Tier())
	names := [2]string{"a.test", "b.test"}
	addrs := [2]string{"192.0.2.1/32", "192.0.2.2/32"}
	kind := zzvf.Choose("kind", 6)
	rules := names
	if kind >= 1 && kind <= 3 {
		rules = addrs
	}
	var l1, l2 vfPhased
	swap := kind <= 1 || zzvf.Choose("swap", 2) == 1
	if swap {
		l1.rules = [2][]string{{rules[0]}, nil}
		l2.rules = [2][]string{nil, {rules[0]}}
	} else {
		k := zzvf.Choose("first", 2)
		l1.rules = [2][]string{{rules[k]}, {rules[1-k]}}
	}
	q := vfQueryOf("a.test.", dns.TypeA)
	up := new(dns.Msg)
	up.SetReply(q)
	for i := byte(1); i <= 2; i++ {
		switch kind {
		case 2, 3:
			up.Answer = append(up.Answer, &dns.A{Hdr: dns.RR_Header{Name: "a.test.", Rrtype: dns.TypeA, Class: 1}, A: net.IP{192, 0, 2, i}})
		case 4:
			up.Answer = append(up.Answer, &dns.CNAME{Hdr: dns.RR_Header{Name: "a.test.", Rrtype: dns.TypeCNAME, Class: 1}, Target: names[i-1] + "."})
		}
	}
	upstream := vfFixed("up", up, nil)
	var r Resolver
	var err error
	if kind == 0 || kind >= 4 {
		d1, err1 := NewDomainDB("1", &l1)
		d2, err2 := NewDomainDB("2", &l2)
		db, err3 := NewMultiDB(d1, d2)
		zzvf.Assert(err1 == nil && err2 == nil && err3 == nil, "the lists are loaded")
		switch kind {
		case 0:
			r, err = NewBlocklist("b", upstream, BlocklistOptions{BlocklistDB: db, BlocklistRefresh: time.Hour})
		case 4:
			r, err = NewResponseBlocklistName("b", upstream, ResponseBlocklistNameOptions{BlocklistDB: db, BlocklistRefresh: time.Hour})
		case 5:
			// the allowed name is not in the blocklist
			block, _ := NewDomainDB("3", vfLoader{[]string{"a.test", "b.test"}})
			if !swap {
				q.Question[0].Name = rules[0] + "."
				l1.rules[1] = l1.rules[0]
			}
			r, err = NewBlocklist("b", upstream, BlocklistOptions{BlocklistDB: block, AllowlistDB: db, AllowlistRefresh: time.Hour})
		}
	} else {
		d1, err1 := NewCidrDB("1", &l1)
		d2, err2 := NewCidrDB("2", &l2)
		db, err3 := NewMultiIPDB(d1, d2)
		zzvf.Assert(err1 == nil && err2 == nil && err3 == nil, "the lists are loaded")
		switch kind {
		case 1:
			r, err = NewClientBlocklist("b", upstream, ClientBlocklistOptions{BlocklistDB: db, BlocklistRefresh: time.Hour})
		case 2, 3:
			r, err = NewResponseBlocklistIP("b", upstream, ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistRefresh: time.Hour, Filter: kind == 3})
		}
	}
	zzvf.Assert(err == nil && r != nil, "the blocklist is set up")
	zzvf.Settle()
	zzvf.Advance(3600)
	zzvf.FireDue()
	a, err := r.Resolve(q, ClientInfo{SourceIP: net.IP{192, 0, 2, 1}})
	zzvf.Settle()
	zzvf.Assert(l1.loads == 2 && l2.loads == 2, "the lists are refreshed")
	zzvf.Assert(err == nil && a != nil, "the query is answered")
	switch kind {
	case 1:
		zzvf.Assert(a.Rcode == dns.RcodeRefused, "old and new rules block the client")
	case 3:
		zzvf.Assert(a.Rcode == 0 && len(a.Answer) == 1, "old and new rules remove one address")
	case 5:
		if swap || l1.rules[0][0]+"." == q.Question[0].Name {
			zzvf.Assert(a.Rcode == 0, "old and new rules allow the name")
		}
	default:
		zzvf.Assert(a.Rcode == dns.RcodeNameError, "old and new rules block the query")
	}
	zzvf.Cover("done")
}

// vfClosable is an address list that must not be used once it is closed.
type vfClosable struct{ closed bool }

func (d *vfClosable) Reload() (IPBlocklistDB, error) { return &vfClosable{}, nil }
func (d *vfClosable) Match(ip net.IP) (*BlocklistMatch, bool) {
	zzvf.Assert(!d.closed, "a closed list is not used")
	zzvf.Yield()
	zzvf.Assert(!d.closed, "a list is not closed while it is used")
	return &BlocklistMatch{}, ip[3] == 1
}
func (d *vfClosable) Close() error {
	zzvf.Assert(!d.closed, "a list is closed once")
	d.closed = true
	return nil
}
func (d *vfClosable) String() string { return "list" }

// A query meets a refresh of a list that has to be closed, in every interleaving
// with two preemptions (thorough: three).
func VF_B07_close() {
	zzvf.Preempt(2 + zzvf.Tier())
	q := vfQueryOf("a.test.", dns.TypeA)
	up := new(dns.Msg)
	up.SetReply(q)
	for i := byte(0); i < 2; i++ {
		up.Answer = append(up.Answer, &dns.A{Hdr: dns.RR_Header{Name: "a.test.", Rrtype: dns.TypeA, Class: 1}, A: net.IP{192, 0, 2, i}})
	}
	var r Resolver
	kind := zzvf.Choose("kind", 3)
	if kind == 0 {
		r, _ = NewClientBlocklist("b", vfFixed("up", up, nil), ClientBlocklistOptions{BlocklistDB: &vfClosable{}, BlocklistRefresh: time.Hour})
	} else {
		r, _ = NewResponseBlocklistIP("b", vfFixed("up", up, nil), ResponseBlocklistIPOptions{BlocklistDB: &vfClosable{}, BlocklistRefresh: time.Hour, Filter: kind == 1})
	}
	zzvf.Settle()
	zzvf.Advance(3600)
	zzvf.FireDue()
	a, err := r.Resolve(q, ClientInfo{SourceIP: net.IP{192, 0, 2, 1}})
	zzvf.Settle()
	zzvf.Assert(err == nil && (a.Rcode != 0) == (kind != 1) && len(a.Answer) == kind%2, "the list is applied")
	zzvf.Cover("done")
}
