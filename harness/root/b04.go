package rdns

import (
	"fmt"
	"net"

	"github.com/folbricht/routedns/zzvf"
)

func vfCut(x uint32, l int) uint32 {
	if l == 0 {
		return 0
	}
	return x >> uint(32-l)
}

// vfRule4 is a network with the given prefix length whose first, middle and
// last prefix bits are arbitrary.
func vfRule4(label string, l int) (uint32, string) {
	v := uint32(0x0a5a5a5a)
	if l > 0 {
		n := zzvf.Choose(label, 4)
		v ^= uint32(n&1) << 31
		v ^= uint32(n>>1) << uint(32-l)
	}
	if l < 32 {
		v = v >> uint(32-l) << uint(32-l)
	}
	if l == 0 {
		v = 0
	}
	s := fmt.Sprintf("%d.%d.%d.%d", byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	if l < 32 || zzvf.Choose(label+"suffix", 2) == 1 {
		s += fmt.Sprintf("/%d", l)
	}
	return v, s
}

func vfLen4(label string) int {
	if zzvf.Tier() > 0 {
		return zzvf.Choose(label, 33)
	}
	ls := []int{0, 1, 8, 15, 16, 17, 24, 31, 32}
	return ls[zzvf.Choose(label, len(ls))]
}

// Two IPv4 networks (prefix lengths 0,1,8,15,16,17,24,31,32 quick / all 33
// thorough, first and last prefix bit arbitrary, either order) and an unrelated
// IPv6 network; the address is any of the 2^32 in 4-byte or 16-byte form.
func VF_B04_ip4() {
	l1, l2 := vfLen4("l1"), vfLen4("l2")
	r1, s1 := vfRule4("r1", l1)
	r2, s2 := vfRule4("r2", l2)
	db, err := NewCidrDB("list", vfLoader{[]string{"# comment", s1, "", " " + s2 + " ", "2001:db8::/32"}})
	zzvf.Assert(err == nil, "valid rules are accepted")
	a := zzvf.U32("addr")
	ip := net.IP{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)}
	if zzvf.Choose("form", 2) == 1 {
		ip = ip.To16()
	}
	_, ok := db.Match(ip)
	want := vfCut(a, l1) == vfCut(r1, l1) || vfCut(a, l2) == vfCut(r2, l2)
	zzvf.Cover("match")
	zzvf.Observe("ok", ok)
	zzvf.Assert(ok == want, "address matches exactly when a network contains it")
}

// One IPv6 network (prefix lengths 0,1,8,63,64,65,127,128 quick / all 129
// thorough, first and last prefix bit arbitrary) next to an IPv4 network and a
// second IPv6 one; the address is any 128-bit value outside ::ffff:0:0/96.
func VF_B04_ip6() {
	ls := []int{0, 1, 8, 63, 64, 65, 127, 128}
	var l int
	if zzvf.Tier() > 0 {
		l = zzvf.Choose("l", 129)
	} else {
		l = ls[zzvf.Choose("l", len(ls))]
	}
	r := net.IP{0x20, 1, 0xd, 0xb8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	if l > 0 {
		n := zzvf.Choose("bits", 4)
		r[0] ^= byte(n&1) << 7
		r[(l-1)/8] ^= byte(n>>1) << uint(7-(l-1)%8)
	}
	for i := l; i < 128; i++ {
		r[i/8] &^= 1 << uint(7-i%8)
	}
	s := r.String()
	if l < 128 || zzvf.Choose("suffix", 2) == 1 {
		s += fmt.Sprintf("/%d", l)
	}
	db, err := NewCidrDB("list", vfLoader{[]string{"10.0.0.0/8", s, "fd00:1::/32"}})
	zzvf.Assert(err == nil, "valid rules are accepted")
	ip := net.IP(zzvf.Bytes("addr", 16))
	mapped := true
	for i := 0; i < 12; i++ {
		want := byte(0)
		if i >= 10 {
			want = 0xff
		}
		mapped = mapped && ip[i] == want
	}
	zzvf.Assume(!mapped)
	_, ok := db.Match(ip)
	want := true
	for i := 0; i < l/8; i++ {
		want = want && ip[i] == r[i]
	}
	if l%8 != 0 {
		sh := uint(8 - l%8)
		want = want && ip[l/8]>>sh == r[l/8]>>sh
	}
	want = want || (ip[0] == 0xfd && ip[1] == 0 && ip[2] == 0 && ip[3] == 1)
	zzvf.Cover("match6")
	zzvf.Observe("ok", ok)
	zzvf.Assert(ok == want, "address matches exactly when a network contains it")
}

// An IPv4 network written in IPv4-mapped IPv6 notation (all 33 prefix lengths
// and the bare address), the address any of the 2^32 in either form.
func VF_B04_mapped() {
	l := zzvf.Choose("l", 34)
	suffix := fmt.Sprintf("/%d", 96+l)
	if l == 33 {
		l, suffix = 32, ""
	}
	r := uint32(0x0a5a5a5a)
	if l < 32 {
		r = r >> uint(32-l) << uint(32-l)
	}
	if l == 0 {
		r = 0
	}
	s := fmt.Sprintf("::ffff:%d.%d.%d.%d%s", byte(r>>24), byte(r>>16), byte(r>>8), byte(r), suffix)
	db, err := NewCidrDB("list", vfLoader{[]string{s, "fd00::/8"}})
	zzvf.Assert(err == nil, "valid rules are accepted")
	a := zzvf.U32("addr")
	ip := net.IP{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)}
	if zzvf.Choose("form", 2) == 1 {
		ip = ip.To16()
	}
	_, ok := db.Match(ip)
	zzvf.Cover("mapped")
	zzvf.Observe("ok", ok)
	zzvf.Assert(ok == (vfCut(a, l) == vfCut(r, l)), "address matches exactly when a network contains it")
}

// A rule list split over two databases, the address any IPv4 address, absent
// addresses included.
func VF_B04_multi() {
	db1, err1 := NewCidrDB("one", vfLoader{[]string{"10.1.0.0/16"}})
	db2, err2 := NewCidrDB("two", vfLoader{[]string{"10.0.0.0/9", "192.0.2.7"}})
	zzvf.Assert(err1 == nil && err2 == nil, "valid rules are accepted")
	m, err := NewMultiIPDB(db1, db2)
	zzvf.Assert(err == nil, "databases combine")
	if zzvf.Choose("nil", 2) == 1 {
		_, ok := m.Match(nil)
		zzvf.Assert(!ok, "a missing address matches nothing")
		return
	}
	a := zzvf.U32("addr")
	ip := net.IP{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)}
	_, ok := m.Match(ip)
	want := a>>16 == 0x0a01 || a>>23 == 0x0a00>>7 || a == 0xc0000207
	zzvf.Cover("multi")
	zzvf.Assert(ok == want, "address matches exactly when a network in either list contains it")
}
