package rdns

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"github.com/cisco/go-hpke"
	odoh "github.com/cloudflare/odoh-go"
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
	"github.com/quic-go/quic-go"
)

// vfWriter receives the replies of a DNS server.
type vfWriter struct {
	addr   net.Addr
	msgs   []*dns.Msg
	closed bool
}

func (w *vfWriter) LocalAddr() net.Addr         { return &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 53} }
func (w *vfWriter) RemoteAddr() net.Addr        { return w.addr }
func (w *vfWriter) WriteMsg(m *dns.Msg) error   { w.msgs = append(w.msgs, m); return nil }
func (w *vfWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *vfWriter) Close() error                { w.closed = true; return nil }
func (w *vfWriter) TsigStatus() error           { return nil }
func (w *vfWriter) TsigTimersOnly(bool)         {}
func (w *vfWriter) Hijack()                     {}

// vfServer is the handler of one of the listeners built on a DNS server.
func vfServer(kind string, opt ListenOptions, r Resolver) dns.Handler {
	switch kind {
	case "dot":
		return NewDoTListener("l", "127.0.0.1:853", "", DoTListenerOptions{ListenOptions: opt}, r).Handler
	case "dtls":
		return NewDTLSListener("l", "127.0.0.1:853", DTLSListenerOptions{ListenOptions: opt}, r).Handler
	}
	return NewDNSListener("l", "127.0.0.1:53", kind, opt, r).Handler
}

// vfPeer is a client address as a listener of the given kind sees it.
func vfPeer(kind string, ip net.IP) net.Addr {
	if kind[0] == 'u' || kind == "dtls" {
		return &net.UDPAddr{IP: ip, Port: 1234}
	}
	return &net.TCPAddr{IP: ip, Port: 1234}
}

// vfCert makes a certificate for the native runs.
func vfCert() *tls.Config {
	if zzvf.Symbolic() {
		return &tls.Config{}
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"localhost"}, IPAddresses: []net.IP{{127, 0, 0, 1}}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
}

// vfAddr is a free local address for a listener.
func vfAddr(network string) string {
	if zzvf.Symbolic() {
		return "127.0.0.1:8443"
	}
	if network == "udp" {
		c, err := net.ListenPacket("udp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		defer c.Close()
		return c.LocalAddr().String()
	}
	c, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer c.Close()
	return c.Addr().String()
}

type vfListener struct{}

func (vfListener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (vfListener) Close() error              { return nil }
func (vfListener) Addr() net.Addr            { return &net.TCPAddr{} }

// vfReq is an HTTP request and vfResp the response to it.
type vfReq struct {
	method string
	path   string
	query  string
	ctype  string
	header [][2]string
	body   []byte
}

type vfResp struct {
	ok     bool // a response was received
	status int
	ctype  string
	body   []byte
	head   http.Header
}

func (r *vfResp) Header() http.Header { return r.head }
func (r *vfResp) WriteHeader(n int) {
	if r.status == 0 {
		r.status = n
	}
}
func (r *vfResp) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

// vfHTTP sends requests from one address to a listener.
func vfHTTP(l Listener, addr string, secure bool, from net.IP, reqs ...vfReq) []vfResp {
	var out []vfResp
	if zzvf.Symbolic() {
		zzvf.Stub("(*net.ListenConfig).Listen", func(lc *net.ListenConfig, ctx context.Context, network, address string) (net.Listener, error) {
			return vfListener{}, nil
		})
		serve := func(s *http.Server) error {
			for _, q := range reqs {
				r := &http.Request{Method: q.method, URL: &url.URL{Path: q.path, RawQuery: q.query}, Header: http.Header{}, Host: "localhost", RemoteAddr: net.JoinHostPort(from.String(), "1234"), Body: io.NopCloser(bytes.NewReader(q.body)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
				if secure {
					r.TLS = &tls.ConnectionState{HandshakeComplete: true, ServerName: "localhost"}
				}
				if q.ctype != "" {
					r.Header.Set("Content-Type", q.ctype)
				}
				for _, h := range q.header {
					r.Header.Add(h[0], h[1])
				}
				w := &vfResp{ok: true, head: http.Header{}}
				s.Handler.ServeHTTP(w, r)
				w.WriteHeader(200)
				w.ctype = w.head.Get("Content-Type")
				out = append(out, *w)
			}
			return http.ErrServerClosed
		}
		zzvf.Stub("(*net/http.Server).Serve", func(s *http.Server, ln net.Listener) error { return serve(s) })
		zzvf.Stub("(*net/http.Server).ServeTLS", func(s *http.Server, ln net.Listener, c, k string) error { return serve(s) })
		l.Start()
		return out
	}
	go l.Start()
	scheme := "http://"
	if secure {
		scheme = "https://"
	}
	c := &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{
		DialContext: func(ctx context.Context, network, a string) (c net.Conn, err error) {
			for i := 0; i < 100; i++ {
				d := net.Dialer{LocalAddr: &net.TCPAddr{IP: from}}
				if c, err = d.DialContext(ctx, "tcp", addr); err == nil {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			return c, err
		},
		TLSClientConfig:   &tls.Config{InsecureSkipVerify: true, ServerName: "localhost"},
		DisableKeepAlives: true,
	}}
	for _, q := range reqs {
		u := scheme + addr + q.path
		if q.query != "" {
			u += "?" + q.query
		}
		r, err := http.NewRequest(q.method, u, bytes.NewReader(q.body))
		if err != nil {
			panic(err)
		}
		if q.ctype != "" {
			r.Header.Set("Content-Type", q.ctype)
		}
		for _, h := range q.header {
			r.Header.Add(h[0], h[1])
		}
		resp, err := c.Do(r)
		if err != nil {
			out = append(out, vfResp{})
			continue
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		out = append(out, vfResp{ok: true, status: resp.StatusCode, ctype: resp.Header.Get("Content-Type"), body: b})
	}
	l.Stop()
	return out
}

// vfDoH is a DNS message as an HTTP request.
func vfDoH(method string, wire []byte) vfReq {
	r := vfReq{method: method, path: "/dns-query"}
	if method == "GET" {
		r.query = "dns=" + base64.RawURLEncoding.EncodeToString(wire)
	} else {
		r.ctype = "application/dns-message"
		r.body = wire
	}
	return r
}

// vfAnswered is the message in a response.
func (r vfResp) msg() *dns.Msg {
	if !r.ok || r.status != 200 || r.ctype != "application/dns-message" {
		return nil
	}
	m := new(dns.Msg)
	if m.Unpack(r.body) != nil {
		return nil
	}
	return m
}

// vfODoH sends messages from one address to an oblivious target.
func vfODoH(opt ODoHListenerOptions, r Resolver, from net.IP, wires ...[]byte) []vfResp {
	addr := vfAddr("tcp")
	opt.TLSConfig, opt.KeySeed = vfCert(), vfSeed
	var reqs []vfReq
	var ctxs []odoh.QueryContext
	if zzvf.Symbolic() {
		zzvf.Stub("github.com/cloudflare/odoh-go.CreateKeyPairFromSeed", func(kem hpke.KEMID, kdf hpke.KDFID, aead hpke.AEADID, ikm []byte) (odoh.ObliviousDoHKeyPair, error) {
			return odoh.ObliviousDoHKeyPair{}, nil
		})
		zzvf.Stub("(*github.com/cloudflare/odoh-go.ObliviousDoHConfigs).Marshal", func(c *odoh.ObliviousDoHConfigs) []byte { return nil })
		zzvf.Stub("(github.com/cloudflare/odoh-go.ObliviousDoHConfigs).Marshal", func(c odoh.ObliviousDoHConfigs) []byte { return nil })
		zzvf.Stub("github.com/cloudflare/odoh-go.UnmarshalDNSMessage", func(b []byte) (odoh.ObliviousDNSMessage, error) {
			return odoh.ObliviousDNSMessage{EncryptedMessage: b}, nil
		})
		zzvf.Stub("(github.com/cloudflare/odoh-go.ObliviousDoHKeyPair).DecryptQuery", func(k odoh.ObliviousDoHKeyPair, m odoh.ObliviousDNSMessage) (*odoh.ObliviousDNSQuery, odoh.ResponseContext, error) {
			return odoh.CreateObliviousDNSQuery(m.EncryptedMessage, 0), odoh.ResponseContext{}, nil
		})
		zzvf.Stub("(github.com/cloudflare/odoh-go.ResponseContext).EncryptResponse", func(c odoh.ResponseContext, r *odoh.ObliviousDNSResponse) (odoh.ObliviousDNSMessage, error) {
			return odoh.ObliviousDNSMessage{EncryptedMessage: r.DnsMessage}, nil
		})
		zzvf.Stub("(github.com/cloudflare/odoh-go.ObliviousDNSMessage).Marshal", func(m odoh.ObliviousDNSMessage) []byte { return m.EncryptedMessage })
	}
	for _, w := range wires {
		q := vfReq{method: "POST", path: "/dns-query", ctype: "application/oblivious-dns-message", body: w}
		if !zzvf.Symbolic() {
			m, ctx, err := vfODoHKey().Config.Contents.EncryptQuery(odoh.CreateObliviousDNSQuery(w, 0))
			if err != nil {
				panic(err)
			}
			q.body = m.Marshal()
			ctxs = append(ctxs, ctx)
		}
		reqs = append(reqs, q)
	}
	l, err := NewODoHListener("l", addr, opt, r)
	zzvf.Assert(err == nil, "the configuration is accepted")
	out := vfHTTP(l, addr, true, from, reqs...)
	for i := range out {
		if out[i].ctype != "application/oblivious-dns-message" {
			continue
		}
		if !zzvf.Symbolic() {
			m, err := odoh.UnmarshalDNSMessage(out[i].body)
			if err != nil {
				panic(err)
			}
			if out[i].body, err = ctxs[i].OpenAnswer(m); err != nil {
				panic(err)
			}
		}
		out[i].ctype = "application/dns-message"
	}
	return out
}

// vfFrame adds the length prefix of stream transports.
func vfFrame(wire []byte) []byte {
	return append([]byte{byte(len(wire) >> 8), byte(len(wire))}, wire...)
}

// vfQUIC opens one connection from an address to a DNS-over-QUIC listener and
// sends the given bytes in one stream each, in pieces of the given sizes (the
// rest in one). It returns what was received in each stream.
func vfQUIC(r Resolver, opt ListenOptions, from net.IP, split []int, streams ...[]byte) [][]byte {
	out := make([][]byte, len(streams))
	addr := vfAddr("udp")
	l := NewQUICListener("l", addr, DoQListenerOptions{TLSConfig: vfCert(), ListenOptions: opt}, r)
	if zzvf.Symbolic() {
		sent, accepted, read := 0, 0, make(map[*quic.Stream][][]byte)
		conn, hs := new(quic.Conn), make(chan struct{})
		close(hs)
		index := make(map[*quic.Stream]int)
		zzvf.Stub("(*net.ListenConfig).ListenPacket", func(lc *net.ListenConfig, ctx context.Context, network, address string) (net.PacketConn, error) {
			return new(net.UDPConn), nil
		})
		zzvf.Stub("net.ResolveUDPAddr", func(network, address string) (*net.UDPAddr, error) {
			return &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 8443}, nil
		})
		zzvf.Stub("(*github.com/quic-go/quic-go.Transport).ListenEarly", func(t *quic.Transport, tc *tls.Config, c *quic.Config) (*quic.EarlyListener, error) {
			return new(quic.EarlyListener), nil
		})
		zzvf.Stub("(*github.com/quic-go/quic-go.EarlyListener).Accept", func(l *quic.EarlyListener, ctx context.Context) (*quic.Conn, error) {
			if accepted++; accepted > 1 {
				return nil, quic.ErrServerClosed
			}
			return conn, nil
		})
		zzvf.Stub("(*github.com/quic-go/quic-go.Conn).ConnectionState", func(c *quic.Conn) quic.ConnectionState {
			return quic.ConnectionState{TLS: tls.ConnectionState{HandshakeComplete: true, ServerName: "localhost"}}
		})
		zzvf.Stub("(*github.com/quic-go/quic-go.Conn).RemoteAddr", func(c *quic.Conn) net.Addr {
			return &net.UDPAddr{IP: from, Port: 1234}
		})
		zzvf.Stub("(*github.com/quic-go/quic-go.Conn).HandshakeComplete", func(c *quic.Conn) <-chan struct{} { return hs })
		zzvf.Stub("(*github.com/quic-go/quic-go.Conn).Context", func(c *quic.Conn) context.Context { return context.Background() })
		zzvf.Stub("(*github.com/quic-go/quic-go.Conn).AcceptStream", func(c *quic.Conn, ctx context.Context) (*quic.Stream, error) {
			if sent == len(streams) {
				return nil, net.ErrClosed
			}
			s := new(quic.Stream)
			index[s] = sent
			read[s] = vfPieces(streams[sent], split)
			sent++
			return s, nil
		})
		zzvf.Stub("(*github.com/quic-go/quic-go.Stream).StreamID", func(s *quic.Stream) quic.StreamID { return 0 })
		zzvf.Stub("(*github.com/quic-go/quic-go.Stream).Close", func(s *quic.Stream) error { return nil })
		zzvf.Stub("(*github.com/quic-go/quic-go.Stream).SetReadDeadline", func(s *quic.Stream, t time.Time) error { return nil })
		zzvf.Stub("(*github.com/quic-go/quic-go.Stream).SetWriteDeadline", func(s *quic.Stream, t time.Time) error { return nil })
		zzvf.Stub("(*github.com/quic-go/quic-go.Stream).Read", func(s *quic.Stream, b []byte) (int, error) {
			p := read[s]
			if len(p) == 0 {
				return 0, io.EOF
			}
			n := copy(b, p[0])
			if n < len(p[0]) {
				read[s] = append([][]byte{p[0][n:]}, p[1:]...)
			} else {
				read[s] = p[1:]
			}
			return n, nil
		})
		zzvf.Stub("(*github.com/quic-go/quic-go.Stream).Write", func(s *quic.Stream, b []byte) (int, error) {
			out[index[s]] = append(out[index[s]], b...)
			return len(b), nil
		})
		l.Start()
		zzvf.Settle()
		return out
	}
	zzvf.SetClock(time.Now().Unix()+3600, 0)
	go l.Start()
	defer l.Stop()
	udp, err := net.ListenUDP("udp", &net.UDPAddr{IP: from})
	if err != nil {
		panic(err)
	}
	defer udp.Close()
	tr := &quic.Transport{Conn: udp}
	defer tr.Close()
	to, _ := net.ResolveUDPAddr("udp", addr)
	time.Sleep(10 * time.Millisecond)
	c, err := tr.Dial(context.Background(), to, &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"doq"}, ServerName: "localhost"}, nil)
	if err != nil {
		return out
	}
	for i, b := range streams {
		s, err := c.OpenStream()
		if err != nil {
			break
		}
		for _, p := range vfPieces(b, split) {
			s.Write(p)
			time.Sleep(time.Millisecond)
		}
		s.Close()
		s.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		out[i], _ = io.ReadAll(s)
	}
	return out
}

// vfPieces cuts bytes into pieces.
func vfPieces(b []byte, sizes []int) [][]byte {
	var out [][]byte
	for _, n := range sizes {
		if n < len(b) {
			out = append(out, b[:n])
			b = b[n:]
		}
	}
	if len(b) > 0 {
		out = append(out, b)
	}
	return out
}

// vfNet is an arbitrary network with one of the given prefix lengths.
func vfNet(label string, v6 bool, ones ...int) *net.IPNet {
	n, bits := 4, 32
	if v6 {
		n, bits = 16, 128
	}
	o := ones[zzvf.Choose(label+".bits", len(ones))]
	ip := net.IP(zzvf.Bytes(label, n))
	mask := net.CIDRMask(o, bits)
	for i := range ip {
		ip[i] &= mask[i]
	}
	return &net.IPNet{IP: ip, Mask: mask}
}

// vfContains tells whether a network contains an address of its family.
func vfContains(n *net.IPNet, ip net.IP) bool {
	if len(ip) == 16 && zzvf.Equal([]byte(ip[:12]), []byte(net.IPv4zero[:12])) {
		ip = ip[12:]
	}
	if len(n.IP) != len(ip) {
		return false
	}
	ok := true
	for i := range ip {
		ok = ok && ip[i]&n.Mask[i] == n.IP[i]
	}
	return ok
}

// vfPort is the port part of an address.
func vfPort(addr string) int {
	_, p, _ := net.SplitHostPort(addr)
	n, _ := strconv.Atoi(p)
	return n
}
