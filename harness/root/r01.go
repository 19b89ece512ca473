package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Lists of 0 to 3 (thorough: 4) routes, each matching a type, a class, a name pattern, two
// types and inverted, or everything; any type, class and flags, names of one
// character out of four; every outcome of the first resolver.
func VF_R01_first() {
	n := zzvf.Choose("routes", 4+zzvf.Tier())
	q := vfQuery(zzvf.StrOf("name", 1, "abAB") + ".test.")
	vfOpt(q, "q.opt", zzvf.Choose("q.edns", 2))
	orig := q.Copy()
	ci := ClientInfo{Listener: "l"}
	qu := q.Question[0]
	rt := NewRouter("r")
	want := -1
	var ups []*vfUp
	var res []*dns.Msg
	var errs []error
	for i := 0; i < n; i++ {
		u := &vfUp{id: string(rune('a' + i))}
		a, err := vfOutcome(q, func() *dns.Msg { return new(dns.Msg) })
		if i > 0 {
			a, err = new(dns.Msg), nil
		}
		u.fn = func(*dns.Msg, ClientInfo) (*dns.Msg, error) { return a, err }
		ups, res, errs = append(ups, u), append(res, a), append(errs, err)
		var r *route
		var rerr error
		m := true
		switch zzvf.Choose("kind", 5) {
		case 0:
			r, rerr = NewRoute("", "", []string{[]string{"A", "AAAA", "TXT", "MX"}[i]}, nil, "", "", "", "", "", "", "", u)
			m = qu.Qtype == []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeTXT, dns.TypeMX}[i]
		case 1:
			r, rerr = NewRoute("", "CH", nil, nil, "", "", "", "", "", "", "", u)
			m = qu.Qclass == dns.ClassCHAOS
		case 2:
			r, rerr = NewRoute(`^a\.`, "", nil, nil, "", "", "", "", "", "", "", u)
			m = qu.Name[0] == 'a'
		case 3:
			r, rerr = NewRoute("", "", []string{"A", "AAAA"}, nil, "", "", "", "", "", "", "", u)
			if rerr == nil {
				r.Invert(true)
			}
			m = qu.Qtype != dns.TypeA && qu.Qtype != dns.TypeAAAA
		case 4:
			r, rerr = NewRoute("", "", nil, nil, "", "", "", "", "", "", "", u)
		}
		zzvf.Assert(rerr == nil, "the route is accepted")
		rt.Add(r)
		if want < 0 && zzvf.Fork(m) {
			want = i
		}
	}
	a, err := rt.Resolve(q, ci)
	for i, u := range ups {
		if i == want {
			zzvf.Assert(len(u.qs) == 1 && vfSame(u.qs[0], orig) && u.cis[0].Listener == "l", "the first matching route's resolver gets the query, once")
		} else {
			zzvf.Assert(len(u.qs) == 0, "no other resolver gets the query")
		}
	}
	if want < 0 {
		zzvf.Assert(a == nil && err != nil, "without a matching route there is an error")
		zzvf.Cover("none")
		return
	}
	zzvf.Assert(a == res[want] && err == errs[want], "the resolver's result is returned")
	zzvf.Cover("routed")
}
