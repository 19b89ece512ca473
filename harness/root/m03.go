package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// Replies with up to 2 answer (quick), 1 authority and 1 additional record, all
// TTLs, minimum and maximum arbitrary with minimum <= maximum (or no maximum),
// with and without EDNS record; every selection function.
func VF_M03_ttl() {
	q := vfQuery("a.test.")
	a, err := vfOutcome(q, func() *dns.Msg {
		m := vfReply(q, []string{"a.test."}, 1, zzvf.Choose("nan", 3+zzvf.Tier()), zzvf.Choose("nns", 2), zzvf.Choose("nex", 2))
		vfOpt(m, "a.opt", zzvf.Choose("a.edns", 2))
		return m
	})
	min, max := zzvf.U32("min"), zzvf.U32("max")
	zzvf.Assume(max == 0 || min <= max)
	sel := zzvf.Choose("select", 7)
	opt := TTLModifierOptions{MinTTL: min, MaxTTL: max,
		SelectFunc: []TTLSelectFunc{nil, TTLSelectLowest, TTLSelectHighest, TTLSelectAverage, TTLSelectFirst, TTLSelectLast, TTLSelectRandom}[sel]}
	var orig *dns.Msg
	if a != nil {
		orig = a.Copy()
	}
	up := vfFixed("up", a, err)
	q0 := q.Copy()
	got, gerr := NewTTLModifier("t", up, opt).Resolve(q, ClientInfo{})
	zzvf.Assert(gerr == err, "errors are passed on")
	zzvf.Assert(len(up.qs) == 1 && zzvf.Equal(up.qs[0], q0) && zzvf.Equal(q, q0), "query forwarded unchanged")
	if orig == nil {
		zzvf.Assert(got == nil, "nothing is made up")
		return
	}
	top := max
	if top == 0 {
		top = ^uint32(0)
	}
	// the value the selection calls for, from the original records
	var ttls []uint32
	for _, s := range [][]dns.RR{orig.Answer, orig.Ns, orig.Extra} {
		for _, rr := range s {
			if rr.Header().Rrtype != dns.TypeOPT {
				ttls = append(ttls, rr.Header().Ttl)
			}
		}
	}
	lo, hi, sum := ^uint32(0), uint32(0), uint64(0)
	for _, t := range ttls {
		if t < lo {
			lo = t
		}
		if t > hi {
			hi = t
		}
		sum += uint64(t)
	}
	all := [][]dns.RR{got.Answer, got.Ns, got.Extra}
	was := [][]dns.RR{orig.Answer, orig.Ns, orig.Extra}
	zzvf.Assert(len(got.Answer) == len(orig.Answer) && len(got.Ns) == len(orig.Ns) && len(got.Extra) == len(orig.Extra), "all records kept")
	var one uint32
	gotOne := false
	for s := range all {
		for i, rr := range all[s] {
			if rr.Header().Rrtype == dns.TypeOPT {
				continue
			}
			t, o := rr.Header().Ttl, was[s][i].Header().Ttl
			zzvf.Assert(t >= min && t <= top, "TTL within the limits")
			want := o
			switch sel {
			case 1:
				want = lo
			case 2:
				want = hi
			case 3:
				want = uint32(sum / uint64(len(ttls)))
			case 4:
				want = ttls[0]
			case 5:
				want = ttls[len(ttls)-1]
			case 6:
				if !gotOne {
					one, gotOne = t, true
				}
				want = one
			}
			if want < min {
				want = min
			}
			if want > top {
				want = top
			}
			zzvf.Assert(t == want, "TTL is the selected value brought into the limits")
			rr.Header().Ttl = o
			zzvf.Observe("ttl", t)
		}
	}
	zzvf.Cover("modified")
	zzvf.Assert(zzvf.Equal(got, orig), "nothing but TTLs changes")
}
