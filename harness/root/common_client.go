package rdns

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/cisco/go-hpke"
	odoh "github.com/cloudflare/odoh-go"
	"github.com/folbricht/routedns/zzvf"
	"github.com/pion/dtls/v3"
	"github.com/pion/dtls/v3/pkg/crypto/selfsign"
	"github.com/quic-go/quic-go"
)

// vfConn is the client's end of a connection to a name server.
type vfConn struct {
	stream bool
	serve  func([]byte) []byte
	in     chan []byte
	rest   []byte
	closed chan struct{}
	once   sync.Once
}

func newVfConn(stream bool, serve func([]byte) []byte) *vfConn {
	return &vfConn{stream: stream, serve: serve, in: make(chan []byte, 64), closed: make(chan struct{})}
}

func (c *vfConn) Write(b []byte) (int, error) {
	m := append([]byte{}, b...)
	if c.stream {
		m = m[2:]
	}
	if a := c.serve(m); a != nil {
		if c.stream {
			a = vfFrame(a)
		}
		c.in <- a
	}
	return len(b), nil
}

func (c *vfConn) Read(b []byte) (int, error) {
	if len(c.rest) == 0 {
		select {
		case m := <-c.in:
			c.rest = m
		case <-c.closed:
			return 0, io.EOF
		}
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	if !c.stream {
		c.rest = nil
	}
	return n, nil
}

func (c *vfConn) Close() error                     { c.once.Do(func() { close(c.closed) }); return nil }
func (c *vfConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *vfConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *vfConn) SetDeadline(time.Time) error      { return nil }
func (c *vfConn) SetReadDeadline(time.Time) error  { return nil }
func (c *vfConn) SetWriteDeadline(time.Time) error { return nil }

// vfNoDeadline is a connection on which the virtual clock has no effect.
type vfNoDeadline struct{ net.Conn }

func (vfNoDeadline) SetDeadline(time.Time) error      { return nil }
func (vfNoDeadline) SetReadDeadline(time.Time) error  { return nil }
func (vfNoDeadline) SetWriteDeadline(time.Time) error { return nil }

// vfBuffered is a datagram connection read as a stream.
type vfBuffered struct {
	net.Conn
	r *bufio.Reader
}

func (c vfBuffered) Read(b []byte) (int, error) { return c.r.Read(b) }

type vfDialer func() net.Conn

func (d vfDialer) Dial(network, address string) (net.Conn, error) { return d(), nil }

// vfStream serves the messages of a stream connection.
func vfStream(c net.Conn, serve func([]byte) []byte) {
	for {
		l := make([]byte, 2)
		if _, err := io.ReadFull(c, l); err != nil {
			return
		}
		b := make([]byte, int(l[0])<<8|int(l[1]))
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		if a := serve(b); a != nil {
			c.Write(vfFrame(a))
		}
	}
}

const vfSeed = "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"

// vfODoHKey is the key pair of an oblivious target in the native runs.
func vfODoHKey() odoh.ObliviousDoHKeyPair {
	seed, _ := hex.DecodeString(vfSeed)
	k, err := odoh.CreateKeyPairFromSeed(hpke.DHKEM_X25519, hpke.KDF_HKDF_SHA256, hpke.AEAD_AESGCM128, seed)
	if err != nil {
		panic(err)
	}
	return k
}

// vfClientRaw is a DNS-over-QUIC client whose streams are answered with the
// bytes serve returns, length prefix included.
func vfClientRaw(serve func([]byte) []byte) Resolver { return vfClientOf("doq", serve, true) }

// vfClient is an upstream client of the given kind whose messages are handed
// to serve, which returns the reply or nil for none.
func vfClient(kind string, serve func([]byte) []byte) Resolver { return vfClientOf(kind, serve, false) }

func vfClientOf(kind string, serve func([]byte) []byte, raw bool) Resolver {
	frame := vfFrame
	if raw {
		frame = func(b []byte) []byte { return b }
	}
	var r Resolver
	var err error
	switch kind {
	case "udp", "tcp":
		r, err = NewDNSClient("c", "192.0.2.1:53", kind, DNSClientOptions{
			Dialer: vfDialer(func() net.Conn { return newVfConn(kind == "tcp", serve) }),
		})
	case "dot":
		if zzvf.Symbolic() {
			conns := make(map[*tls.Conn]net.Conn)
			zzvf.Stub("crypto/tls.Client", func(c net.Conn, cfg *tls.Config) *tls.Conn {
				t := new(tls.Conn)
				conns[t] = c
				return t
			})
			zzvf.Stub("(*crypto/tls.Conn).Read", func(c *tls.Conn, b []byte) (int, error) { return conns[c].Read(b) })
			zzvf.Stub("(*crypto/tls.Conn).Write", func(c *tls.Conn, b []byte) (int, error) { return conns[c].Write(b) })
			zzvf.Stub("(*crypto/tls.Conn).Close", func(c *tls.Conn) error { return conns[c].Close() })
			zzvf.Stub("(*crypto/tls.Conn).SetReadDeadline", func(c *tls.Conn, t time.Time) error { return nil })
		}
		cert := vfCert()
		r, err = NewDoTClient("c", "192.0.2.1:853", DoTClientOptions{
			TLSConfig: &tls.Config{InsecureSkipVerify: true},
			Dialer: vfDialer(func() net.Conn {
				if zzvf.Symbolic() {
					return newVfConn(true, serve)
				}
				x, y := net.Pipe()
				go vfStream(tls.Server(y, cert), serve)
				return vfNoDeadline{x}
			}),
		})
	case "dtls":
		addr := vfAddr("udp")
		if zzvf.Symbolic() {
			conns := make(map[*dtls.Conn]net.Conn)
			zzvf.Stub("(*net.ListenConfig).ListenPacket", func(lc *net.ListenConfig, ctx context.Context, network, address string) (net.PacketConn, error) {
				return new(net.UDPConn), nil
			})
			zzvf.Stub("github.com/pion/dtls/v3.Client", func(c net.PacketConn, a net.Addr, cfg *dtls.Config) (*dtls.Conn, error) {
				d := new(dtls.Conn)
				conns[d] = newVfConn(true, serve)
				return d, nil
			})
			zzvf.Stub("(*github.com/pion/dtls/v3.Conn).Read", func(c *dtls.Conn, b []byte) (int, error) { return conns[c].Read(b) })
			zzvf.Stub("(*github.com/pion/dtls/v3.Conn).Write", func(c *dtls.Conn, b []byte) (int, error) { return conns[c].Write(b) })
			zzvf.Stub("(*github.com/pion/dtls/v3.Conn).Close", func(c *dtls.Conn) error { return conns[c].Close() })
			zzvf.Stub("(*github.com/pion/dtls/v3.Conn).SetReadDeadline", func(c *dtls.Conn, t time.Time) error { return nil })
		} else {
			zzvf.SetClock(time.Now().Unix()+3600, 0)
			cert, err := selfsign.GenerateSelfSigned()
			if err != nil {
				panic(err)
			}
			a, _ := net.ResolveUDPAddr("udp", addr)
			l, err := dtls.Listen("udp", a, &dtls.Config{Certificates: []tls.Certificate{cert}})
			if err != nil {
				panic(err)
			}
			go func() {
				c, err := l.Accept()
				if err == nil {
					vfStream(vfBuffered{c, bufio.NewReaderSize(c, 65536)}, serve)
				}
			}()
		}
		r, err = NewDTLSClient("c", addr, DTLSClientOptions{BootstrapAddr: "127.0.0.1", DTLSConfig: &dtls.Config{InsecureSkipVerify: true}})
	case "doh-post", "doh-get", "odoh":
		addr := vfAddr("tcp")
		method, config := "POST", ""
		if kind == "doh-get" {
			method = "GET"
		}
		if zzvf.Symbolic() {
			zzvf.Stub("(*net/http.Client).Do", func(c *http.Client, q *http.Request) (*http.Response, error) {
				var wire []byte
				if kind == "doh-get" {
					wire, _ = base64.RawURLEncoding.DecodeString(q.URL.Query().Get("dns"))
				} else {
					wire, _ = io.ReadAll(q.Body)
				}
				ctype := "application/dns-message"
				if kind == "odoh" {
					ctype = "application/oblivious-dns-message"
				}
				h := http.Header{}
				h.Set("Content-Type", ctype)
				a := serve(wire)
				if a == nil {
					return nil, errVF
				}
				return &http.Response{StatusCode: 200, Header: h, Body: io.NopCloser(bytes.NewReader(a))}, nil
			})
			zzvf.Stub("github.com/cloudflare/odoh-go.UnmarshalObliviousDoHConfigs", func(b []byte) (odoh.ObliviousDoHConfigs, error) {
				return odoh.ObliviousDoHConfigs{Configs: []odoh.ObliviousDoHConfig{{}}}, nil
			})
			zzvf.Stub("(github.com/cloudflare/odoh-go.ObliviousDoHConfigContents).EncryptQuery", func(k odoh.ObliviousDoHConfigContents, q *odoh.ObliviousDNSQuery) (odoh.ObliviousDNSMessage, odoh.QueryContext, error) {
				return odoh.ObliviousDNSMessage{EncryptedMessage: q.Message()}, odoh.QueryContext{}, nil
			})
			zzvf.Stub("(github.com/cloudflare/odoh-go.ObliviousDNSMessage).Marshal", func(m odoh.ObliviousDNSMessage) []byte { return m.EncryptedMessage })
			zzvf.Stub("github.com/cloudflare/odoh-go.UnmarshalDNSMessage", func(b []byte) (odoh.ObliviousDNSMessage, error) {
				return odoh.ObliviousDNSMessage{EncryptedMessage: b}, nil
			})
			zzvf.Stub("(github.com/cloudflare/odoh-go.QueryContext).OpenAnswer", func(c odoh.QueryContext, m odoh.ObliviousDNSMessage) ([]byte, error) {
				return m.EncryptedMessage, nil
			})
			config = "0000"
		} else {
			key := vfODoHKey()
			set := odoh.CreateObliviousDoHConfigs([]odoh.ObliviousDoHConfig{key.Config})
			config = hex.EncodeToString(set.Marshal())
			l, err := net.Listen("tcp", addr)
			if err != nil {
				panic(err)
			}
			go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				var wire []byte
				if kind == "doh-get" {
					wire, _ = base64.RawURLEncoding.DecodeString(q.URL.Query().Get("dns"))
				} else {
					wire, _ = io.ReadAll(q.Body)
				}
				w.Header().Set("Content-Type", "application/dns-message")
				if kind == "odoh" {
					w.Header().Set("Content-Type", "application/oblivious-dns-message")
					m, err := odoh.UnmarshalDNSMessage(wire)
					if err != nil {
						panic(err)
					}
					oq, rc, err := key.DecryptQuery(m)
					if err != nil {
						panic(err)
					}
					a := serve(oq.Message())
					if a == nil {
						w.WriteHeader(500)
						return
					}
					e, err := rc.EncryptResponse(odoh.CreateObliviousDNSResponse(a, 0))
					if err != nil {
						panic(err)
					}
					w.Write(e.Marshal())
					return
				}
				if a := serve(wire); a != nil {
					w.Write(a)
				} else {
					w.WriteHeader(500)
				}
			}))
		}
		url := "http://" + addr + "/dns-query"
		if kind == "odoh" {
			r, err = NewODoHClient("c", "", url, config, DoHClientOptions{Method: method})
		} else {
			r, err = NewDoHClient("c", url+"{?dns}", DoHClientOptions{Method: method})
		}
	case "doq":
		addr := vfAddr("udp")
		if zzvf.Symbolic() {
			replies := make(map[*quic.Stream][]byte)
			zzvf.Stub("(*net.ListenConfig).ListenPacket", func(lc *net.ListenConfig, ctx context.Context, network, address string) (net.PacketConn, error) {
				return new(net.UDPConn), nil
			})
			zzvf.Stub("net.ResolveUDPAddr", func(network, address string) (*net.UDPAddr, error) {
				return &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 8443}, nil
			})
			zzvf.Stub("(*github.com/quic-go/quic-go.Transport).Dial", func(t *quic.Transport, ctx context.Context, a net.Addr, tc *tls.Config, c *quic.Config) (*quic.Conn, error) {
				return new(quic.Conn), nil
			})
			hs := make(chan struct{})
			close(hs)
			zzvf.Stub("(*github.com/quic-go/quic-go.Conn).HandshakeComplete", func(c *quic.Conn) <-chan struct{} { return hs })
			zzvf.Stub("(*github.com/quic-go/quic-go.Conn).Context", func(c *quic.Conn) context.Context { return context.Background() })
			zzvf.Stub("(*github.com/quic-go/quic-go.Conn).OpenStream", func(c *quic.Conn) (*quic.Stream, error) { return new(quic.Stream), nil })
			zzvf.Stub("(*github.com/quic-go/quic-go.Stream).Close", func(s *quic.Stream) error { return nil })
			zzvf.Stub("(*github.com/quic-go/quic-go.Stream).SetReadDeadline", func(s *quic.Stream, t time.Time) error { return nil })
			zzvf.Stub("(*github.com/quic-go/quic-go.Stream).SetWriteDeadline", func(s *quic.Stream, t time.Time) error { return nil })
			zzvf.Stub("(*github.com/quic-go/quic-go.Stream).Write", func(s *quic.Stream, b []byte) (int, error) {
				if a := serve(append([]byte{}, b[2:]...)); a != nil {
					replies[s] = frame(a)
				}
				return len(b), nil
			})
			zzvf.Stub("(*github.com/quic-go/quic-go.Stream).Read", func(s *quic.Stream, b []byte) (int, error) {
				p := replies[s]
				if len(p) == 0 {
					return 0, io.EOF
				}
				n := copy(b, p)
				replies[s] = p[n:]
				return n, nil
			})
		} else {
			zzvf.SetClock(time.Now().Unix()+3600, 0)
			cert := vfCert()
			cert.NextProtos = []string{"doq"}
			l, err := quic.ListenAddr(addr, cert, nil)
			if err != nil {
				panic(err)
			}
			go func() {
				c, err := l.Accept(context.Background())
				if err != nil {
					return
				}
				for {
					s, err := c.AcceptStream(context.Background())
					if err != nil {
						return
					}
					b, _ := io.ReadAll(s)
					if a := serve(b[2:]); a != nil {
						s.Write(frame(a))
					}
					s.Close()
				}
			}()
		}
		r, err = NewDoQClient("c", addr, DoQClientOptions{TLSConfig: &tls.Config{InsecureSkipVerify: true}})
	}
	zzvf.Assert(err == nil, "the client is created")
	return r
}
