package rdns

import (
	"net"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfCutIP clears all bits of an address after the first n.
func vfCutIP(ip net.IP, n int) net.IP {
	out := make(net.IP, len(ip))
	for i := range ip {
		switch {
		case n >= 8*(i+1):
			out[i] = ip[i]
		case n > 8*i:
			out[i] = ip[i] & byte(0xff<<uint(8*(i+1)-n))
		}
	}
	return out
}

// vfOthers lists the options of a query that are not client subnets.
func vfOthers(m *dns.Msg) (others []dns.EDNS0, ecs []*dns.EDNS0_SUBNET) {
	for _, rr := range m.Extra {
		o, ok := rr.(*dns.OPT)
		if !ok {
			continue
		}
		for _, x := range o.Option {
			if s, ok := x.(*dns.EDNS0_SUBNET); ok {
				ecs = append(ecs, s)
			} else {
				others = append(others, x)
			}
		}
	}
	return others, ecs
}

func vfPrefix4(label string) uint8 {
	if zzvf.Tier() > 0 {
		return uint8(zzvf.Choose(label, 33))
	}
	return []uint8{0, 1, 9, 16, 24, 31, 32}[zzvf.Choose(label, 7)]
}

func vfPrefix6(label string) uint8 {
	if zzvf.Tier() > 0 {
		return uint8(zzvf.Choose(label, 129))
	}
	return []uint8{0, 7, 48, 56, 64, 127, 128}[zzvf.Choose(label, 7)]
}

// Queries without EDNS, with EDNS, with a cookie, one or two client subnets, or
// both; client address any IPv4 (4 or 16 byte form) or IPv6 address; configured
// address or none; modes delete, add, add-if-missing, privacy; prefixes from
// {0,1,9,16,24,31,32}/{0,7,48,56,64,127,128} quick, all thorough.
func VF_M04_ecs() {
	q := vfQuery("a.test.")
	kind := zzvf.Choose("q.edns", 6)
	if kind == 5 {
		o := vfOpt(q, "q.opt", 4)
		o.Option = append(o.Option, vfECS("q.opt2"))
	} else {
		vfOpt(q, "q.opt", kind)
	}
	mode := zzvf.Choose("mode", 4)
	var src net.IP
	fam := zzvf.Choose("src", 3)
	p4, p6 := uint8(24), uint8(56)
	// the prefix that matters is explored, the other is fixed
	if mode != 0 {
		if fam < 2 {
			p4 = vfPrefix4("p4")
		} else {
			p6 = vfPrefix6("p6")
		}
		if mode == 3 && fam == 1 {
			p6 = vfPrefix6("p6")
		}
	}
	switch fam {
	case 0:
		src = net.IP(zzvf.Bytes("src4", 4))
	case 1:
		src = net.IP(zzvf.Bytes("src4", 4)).To16()
	default:
		b := zzvf.Bytes("src6", 16)
		zzvf.Assume(b[0] != 0)
		src = net.IP(b)
	}
	ci := ClientInfo{SourceIP: src}
	conf := net.IP(nil)
	if (mode == 1 || mode == 2) && zzvf.Choose("conf", 2) == 1 {
		conf = src
		ci.SourceIP = net.IP{203, 0, 113, 77}
	}
	var f ECSModifierFunc
	switch mode {
	case 0:
		f = ECSModifierDelete
	case 1:
		f = ECSModifierAdd(conf, p4, p6)
	case 2:
		f = ECSModifierAddIfMissing(conf, p4, p6)
	default:
		f = ECSModifierPrivacy(p4, p6)
	}
	src0 := append(net.IP(nil), src...)
	q0 := q.Copy()
	up := vfFixed("up", nil, nil)
	r, err := NewECSModifier("e", up, f)
	zzvf.Assert(err == nil, "created")
	r.Resolve(q, ci)
	zzvf.Assert(zzvf.Equal(q, q0), "the client's query is not modified")
	zzvf.Assert(zzvf.Equal(src, src0), "the client address is not modified")
	zzvf.Assert(len(up.qs) == 1, "forwarded once")
	m := up.qs[0]
	zzvf.Assert(m.Id == q0.Id && zzvf.Equal(m.Question, q0.Question) && zzvf.Equal(m.MsgHdr, q0.MsgHdr), "the question is kept")
	o0, e0 := vfOthers(q0)
	o1, e1 := vfOthers(m)
	zzvf.Assert(zzvf.Equal(o0, o1), "all other options are kept")
	if a, b := q0.IsEdns0(), m.IsEdns0(); a != nil {
		zzvf.Assert(b != nil && zzvf.Equal(a.Hdr, b.Hdr), "the EDNS header is kept")
	}
	if mode == 2 && len(e0) > 0 {
		zzvf.Cover("present")
		zzvf.Assert(zzvf.Equal(m, q0), "an existing subnet is left alone")
		return
	}
	switch mode {
	case 0:
		zzvf.Cover("deleted")
		zzvf.Assert(len(e1) == 0, "no client subnet is left")
	case 1, 2:
		zzvf.Cover("added")
		zzvf.Assert(len(e1) == 1, "exactly one client subnet")
		e := e1[0]
		wantFam, wantMask, wantIP := uint16(1), p4, src0
		if fam == 1 {
			wantIP = src0[12:]
		}
		if fam == 2 {
			wantFam, wantMask = 2, p6
		}
		zzvf.Assert(e.Code == dns.EDNS0SUBNET && e.Family == wantFam && e.SourceNetmask == wantMask && e.SourceScope == 0, "family and prefix as configured")
		zzvf.Assert(zzvf.Equal(e.Address, vfCutIP(wantIP, int(wantMask))), "the address is cut to the configured prefix")
		zzvf.Observe("addr", e.Address)
	default:
		zzvf.Cover("privacy")
		zzvf.Assert(len(e1) == len(e0), "subnets neither added nor lost")
		for i, e := range e1 {
			p := p4
			if e0[i].Family == 2 {
				p = p6
			}
			zzvf.Assert(e.Family == e0[i].Family, "family kept")
			zzvf.Assert(e.SourceNetmask <= p, "prefix no longer than configured")
			zzvf.Assert(zzvf.Equal(e.Address, vfCutIP(e0[i].Address, int(p))), "no address bits beyond the configured prefix")
		}
	}
}

// Deleting or adding an EDNS option with any code in a query with up to three
// options (cookie, client subnet, a local option with any code).
func VF_M04_edns0() {
	q := vfQuery("a.test.")
	kind := zzvf.Choose("q.edns", 6)
	if kind == 5 {
		o := vfOpt(q, "q.opt", 4)
		o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: zzvf.U16("local"), Data: zzvf.Bytes("ldata", 2)})
	} else {
		vfOpt(q, "q.opt", kind)
	}
	code := zzvf.U16("code")
	data := zzvf.Bytes("data", 2)
	add := zzvf.Choose("add", 2) == 1
	f := EDNS0ModifierDelete(code)
	if add {
		f = EDNS0ModifierAdd(code, data)
	}
	q0 := q.Copy()
	up := vfFixed("up", nil, nil)
	r, err := NewEDNS0Modifier("e", up, f)
	zzvf.Assert(err == nil, "created")
	r.Resolve(q, ClientInfo{})
	zzvf.Assert(zzvf.Equal(q, q0), "the client's query is not modified")
	zzvf.Assert(len(up.qs) == 1, "forwarded once")
	m := up.qs[0]
	zzvf.Assert(zzvf.Equal(m.MsgHdr, q0.MsgHdr) && zzvf.Equal(m.Question, q0.Question), "the question is kept")
	var want []dns.EDNS0
	if o := q0.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if x.Option() != code {
				want = append(want, x)
			}
		}
		zzvf.Assert(m.IsEdns0() != nil && zzvf.Equal(m.IsEdns0().Hdr, o.Hdr), "the EDNS header is kept")
	}
	if add {
		want = append(want, &dns.EDNS0_LOCAL{Code: code, Data: data})
	}
	if o := m.IsEdns0(); o != nil {
		zzvf.Cover("options")
		zzvf.Assert(zzvf.Equal(o.Option, want), "exactly the named option is removed or added")
	} else {
		zzvf.Assert(!add, "an EDNS record is added when needed")
	}
}

// Queries without a client address (as refresh queries have) and no configured
// address; modes add and add-if-missing; any EDNS content.
func VF_M04_noclient() {
	q := vfQuery("a.test.")
	kind := zzvf.Choose("q.edns", 5)
	vfOpt(q, "q.opt", kind)
	mode := zzvf.Choose("mode", 2)
	f := ECSModifierAdd(nil, 24, 56)
	if mode == 1 {
		f = ECSModifierAddIfMissing(nil, 24, 56)
	}
	had := 0
	if o := q.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if _, ok := x.(*dns.EDNS0_SUBNET); ok {
				had++
			}
		}
	}
	up := vfFixed("up", nil, nil)
	r, err := NewECSModifier("e", up, f)
	zzvf.Assert(err == nil, "created")
	r.Resolve(q, ClientInfo{})
	zzvf.Assert(len(up.qs) == 1, "forwarded once")
	n := 0
	if o := up.qs[0].IsEdns0(); o != nil {
		for _, x := range o.Option {
			if _, ok := x.(*dns.EDNS0_SUBNET); ok {
				n++
			}
		}
	}
	if mode == 0 {
		had = 0
	}
	zzvf.Assert(n == had, "no subnet is made up without an address")
	zzvf.Cover("done")
}
