package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfPicky is a group member whose failures depend on the name asked for.
type vfPicky struct {
	id    string
	fails [2]bool
	asked [2]int
}

func (m *vfPicky) String() string { return m.id }
func (m *vfPicky) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
	k := int(q.Question[0].Name[0] - 'a')
	m.asked[k]++
	if m.fails[k] {
		return nil, errVF
	}
	a := new(dns.Msg)
	a.SetReply(q)
	return a, nil
}

// Two concurrent queries to a rotating or fail-back group of 2 (thorough: or 3)
// members, which fail them as they like; every interleaving with two preemptions.
func VF_G01_race() {
	n := 2 + zzvf.Choose("members", 1+zzvf.Tier())
	var ms []*vfPicky
	var rs []Resolver
	for i := 0; i < n; i++ {
		m := &vfPicky{id: string(rune('a' + i))}
		for k := range m.fails {
			m.fails[k] = zzvf.Choose(m.id+".fails", 2) == 1
		}
		ms = append(ms, m)
		rs = append(rs, m)
	}
	g := vfGroup(zzvf.Choose("kind", 2), false, false, rs)
	var errs [2]error
	for k := range errs {
		zzvf.Go(func() {
			_, errs[k] = g.Resolve(vfQueryOf(string(rune('a'+k))+".test.", dns.TypeA), ClientInfo{})
		})
	}
	zzvf.Settle()
	for k, err := range errs {
		can := false
		for _, m := range ms {
			zzvf.Assert(m.asked[k] <= 1, "no member is asked twice")
			can = can || !m.fails[k]
		}
		zzvf.Assert(can == (err == nil), "the query is answered when a member can answer it")
	}
	zzvf.Cover("done")
}

// Two concurrent queries to a load-balancing group of 2 members, which fail
// them as they like; every random choice, every interleaving with one
// (thorough: two) preemptions.
func VF_G01_race_balance() {
	var ms []*vfPicky
	var rs []Resolver
	for i := 0; i < 2; i++ {
		m := &vfPicky{id: string(rune('a' + i))}
		for k := range m.fails {
			m.fails[k] = zzvf.Choose(m.id+".fails", 2) == 1
		}
		ms = append(ms, m)
		rs = append(rs, m)
	}
	zzvf.Preempt(1 + zzvf.Tier())
	g := vfGroup(4, false, false, rs)
	var errs [2]error
	for k := range errs {
		zzvf.Go(func() {
			_, errs[k] = g.Resolve(vfQueryOf(string(rune('a'+k))+".test.", dns.TypeA), ClientInfo{})
		})
	}
	zzvf.Settle()
	for k, err := range errs {
		can := false
		for _, m := range ms {
			zzvf.Assert(m.asked[k] <= 1, "no member is asked twice")
			can = can || !m.fails[k]
			m.asked[k] = 0
		}
		zzvf.Assert(can == (err == nil), "the query is answered when a member can answer it")
	}
	zzvf.Cover("done")
}
