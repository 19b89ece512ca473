package rdns

import (
	"net"
	"strings"

	"github.com/folbricht/routedns/zzvf"
)

// vfLabels reads a host name left to right: non-empty labels of letters, digits
// and inner hyphens, at most 63 long, the last one not all digits, with an
// optional final dot.
func vfHostname(h string) bool {
	if h == "" || len(h) > 255 {
		return false
	}
	n, digits, ok, ended := 0, true, true, false
	for i := 0; i < len(h); i++ {
		c := h[i]
		if ended {
			// something follows a dot: a new label starts
			ended, n, digits = false, 0, true
		}
		if c == '.' {
			if n == 0 || h[i-1] == '-' {
				ok = false
			}
			ended = true
			continue
		}
		n++
		if n > 63 {
			ok = false
		}
		if c == '-' {
			if n == 1 {
				ok = false
			}
			digits = false
			continue
		}
		if c >= '0' && c <= '9' {
			continue
		}
		digits = false
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			ok = false
		}
	}
	if h[len(h)-1] == '-' {
		ok = false
	}
	return ok && !digits
}

// vfPortOK tells whether p is a decimal number no greater than 65535.
func vfPortOK(p string) bool {
	digits := true
	for i := 0; i < len(p); i++ {
		digits = digits && p[i] >= '0' && p[i] <= '9'
	}
	// digits beyond the last five must be leading zeros
	for len(p) > 5 {
		digits = digits && p[0] == '0'
		p = p[1:]
	}
	// five digits are compared with the largest port left to right
	if len(p) == 5 {
		above, below := false, false
		for i := 0; i < 5; i++ {
			m := "65535"[i]
			above = above || !below && p[i] > m
			below = below || !above && p[i] < m
		}
		digits = digits && !above
	}
	return digits && p != ""
}

func vfAccepts(endpoint string) bool {
	zzvf.Preempt(0)
	_, err := NewDNSClient("x", endpoint, "udp", DNSClientOptions{})
	return err == nil
}

// Hosts of up to 5 (quick) or 7 (thorough) characters out of letters, digits,
// dot, hyphen, underscore; port fixed.
func VF_X01_host() {
	n := 5
	if zzvf.Tier() > 0 {
		n = 6
	}
	h := zzvf.StrOf("host", zzvf.Choose("len", n+1), "aZ1.-_")
	want := vfHostname(h)
	got := vfAccepts(h + ":53")
	zzvf.Assert(got == want, "an endpoint is accepted exactly when its host name is valid")
	if want {
		zzvf.Cover("accepted")
	} else {
		zzvf.Cover("rejected")
	}
}

// Labels of 1, 62, 63, 64, 65 characters in first or last place; names of 253
// to 257 characters in total.
func VF_X01_long() {
	n := []int{1, 62, 63, 64, 65}[zzvf.Choose("n", 5)]
	h := strings.Repeat("a", n)
	switch zzvf.Choose("place", 4) {
	case 0:
		h += ".test"
	case 1:
		h = "x." + h
	case 2:
		h = "x." + h + "."
	case 3:
		h = strings.Repeat("a.", 126) + strings.Repeat("b", 1+zzvf.Choose("total", 5))
	}
	zzvf.Assert(vfAccepts(h+":53") == vfHostname(h), "over-long labels and names are rejected, others accepted")
}

// Ports of up to 3 characters, each any byte that is not a colon or bracket;
// host an IPv4 address, an IPv6 address or a name. Ports of 4 and 5 (thorough: 6)
// characters out of the digits and the character before them.
func VF_X01_port() {
	n := zzvf.Choose("len", 6+zzvf.Tier())
	p := zzvf.Str("port", n)
	h := "a.test"
	for i := 0; i < n; i++ {
		if n > 3 {
			zzvf.Assume(p[i] >= '/' && p[i] <= '9')
		} else {
			zzvf.Assume(p[i] != ':' && p[i] != '[' && p[i] != ']')
		}
	}
	if n < 3 {
		h = []string{"192.0.2.1", "[2001:db8::1]", "a.test"}[zzvf.Choose("host", 3)]
	}
	v := vfPortOK(p)
	zzvf.Assert(vfAccepts(h+":"+p) == v, "an endpoint is accepted exactly when its port is a number no greater than 65535")
	if v {
		zzvf.Cover("port")
	}
}

// Any string of up to 5 (quick) or 6 (thorough) characters out of letters, digits, dot,
// colon and brackets.
func VF_X01_shape() {
	n := 5
	if zzvf.Tier() > 0 {
		n = 6
	}
	s := zzvf.StrOf("endpoint", zzvf.Choose("len", n+1), "a1.:[]")
	if !vfAccepts(s) {
		return
	}
	zzvf.Cover("accepted")
	// accepted: there is a port after the last colon, and before it a name or a
	// bracketed address
	i := len(s) - 1
	for i >= 0 && s[i] != ':' {
		i--
	}
	zzvf.Assert(i > 0, "an accepted endpoint has a host and a port")
	zzvf.Assert(vfPortOK(s[i+1:]), "an accepted endpoint has a valid port")
	h := s[:i]
	if h[0] == '[' {
		zzvf.Assert(len(h) > 2 && h[len(h)-1] == ']', "a bracketed host is closed")
		h = h[1 : len(h)-1]
		zzvf.Assert(vfHostname(h) || net.ParseIP(h) != nil, "a bracketed host is an address or a name")
		return
	}
	zzvf.Assert(vfHostname(h), "a plain host is a name")
}

// Hosts of up to 5 characters (letters, digits, dot, hyphen), IPv4 and bracketed
// IPv6 literals, bare or in a URL with path and template, with and without port.
func VF_X01_default() {
	var h string
	switch zzvf.Choose("host", 3) {
	case 0:
		h = zzvf.StrOf("name", 1+zzvf.Choose("len", 5), "ab1.-")
	case 1:
		h = "192.0.2.1"
	case 2:
		h = "[2001:db8::1]"
	}
	port := []string{"853", "8443"}[zzvf.Choose("default", 2)]
	has := zzvf.Bool("hasport")
	full := h + ":" + port
	in := h
	if has {
		in, full = h+":77", h+":77"
	}
	pre, post := "", ""
	url := zzvf.Choose("url", 4)
	switch url {
	case 1:
		pre, post = "https://", "/dns-query"
	case 2:
		pre, post = "https://", "/dns-query{?dns}"
	case 3:
		pre = "https://"
	}
	if url == 0 && h[0] == '[' && !has {
		// a bare bracketed address without a port is left for the endpoint
		// check to reject
		return
	}
	zzvf.Assert(AddressWithDefault(pre+in+post, port) == pre+full+post, "the port is added exactly when missing and the rest is kept")
}
