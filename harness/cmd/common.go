package main

import (
	"errors"
	"io"
	"log/slog"
	"net"
	"os"

	"github.com/BurntSushi/toml"
	rdns "github.com/folbricht/routedns"
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

func init() {
	rdns.Log = slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.Level(100)}))
}

// vfWriter is a client of a listener.
type vfWriter struct{ msgs []*dns.Msg }

func (w *vfWriter) LocalAddr() net.Addr { return &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 53} }
func (w *vfWriter) RemoteAddr() net.Addr {
	return &net.UDPAddr{IP: net.IP{192, 0, 2, 77}, Port: 1053}
}
func (w *vfWriter) WriteMsg(m *dns.Msg) error   { w.msgs = append(w.msgs, m); return nil }
func (w *vfWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *vfWriter) Close() error                { return nil }
func (w *vfWriter) TsigStatus() error           { return nil }
func (w *vfWriter) TsigTimersOnly(bool)         {}
func (w *vfWriter) Hijack()                     {}

// vfServers holds what the started listeners pass queries to, by address.
type vfServers map[string]dns.Handler

// ask sends a query to a listener.
func (s vfServers) ask(addr, name string, qtype uint16) *dns.Msg {
	q := new(dns.Msg).SetQuestion(name, qtype)
	w := new(vfWriter)
	s[addr].ServeDNS(w, q)
	if len(w.msgs) != 1 {
		return nil
	}
	return w.msgs[0]
}

// vfStart runs the program with a configuration. When its listeners run, it
// calls use and then stops the program.
func vfStart(cfg config, use func(vfServers)) error {
	servers := make(vfServers)
	zzvf.Env("os.Open", func(name string) (*os.File, error) { return new(os.File), nil })
	zzvf.Env("(*os.File).Close", func(f *os.File) error { return nil })
	zzvf.Env("io.Copy", func(w io.Writer, r io.Reader) (int64, error) { return 0, nil })
	zzvf.Env("(*github.com/BurntSushi/toml.Decoder).Decode", func(d *toml.Decoder, v any) (toml.MetaData, error) {
		*v.(*config) = cfg
		return toml.MetaData{}, nil
	})
	zzvf.Env("(*github.com/miekg/dns.Server).ListenAndServe", func(s *dns.Server) error {
		servers[s.Addr] = s.Handler
		return net.ErrClosed
	})
	zzvf.Env("os/signal.Notify", func(c chan<- os.Signal, sig ...os.Signal) {
		zzvf.Settle()
		use(servers)
		c <- os.Interrupt
	})
	return start(options{logLevel: 1}, []string{"config"})
}

var errVF = errors.New("upstream failed")

// vfUp is an upstream that answers as it is told and keeps the queries.
type vfUp struct {
	id  string
	qs  []*dns.Msg
	fn  func(q *dns.Msg) (*dns.Msg, error)
	log *[]string
}

func (u *vfUp) String() string { return u.id }
func (u *vfUp) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	u.qs = append(u.qs, q.Copy())
	if u.log != nil {
		*u.log = append(*u.log, u.id)
	}
	if u.fn != nil {
		return u.fn(q)
	}
	return vfAnswer(q, u.id), nil
}

// vfAnswer replies with an address record for each TTL and the name of who
// answers.
func vfAnswer(q *dns.Msg, by string, ttls ...uint32) *dns.Msg {
	a := new(dns.Msg).SetReply(q)
	h := dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeA, Class: dns.ClassINET, Ttl: 100}
	if len(ttls) == 0 {
		ttls = []uint32{100}
	}
	for i, t := range ttls {
		h.Ttl = t
		a.Answer = append(a.Answer, &dns.A{Hdr: h, A: net.IP{192, 0, 2, byte(i + 1)}})
	}
	a.Extra = []dns.RR{&dns.TXT{Hdr: dns.RR_Header{Name: "by.", Rrtype: dns.TypeTXT, Class: dns.ClassINET, Ttl: ttls[0]}, Txt: []string{by}}}
	return a
}

// vfBy tells who gave an answer.
func vfBy(a *dns.Msg) string {
	if a == nil || len(a.Extra) == 0 {
		return ""
	}
	if t, ok := a.Extra[0].(*dns.TXT); ok {
		return t.Txt[0]
	}
	return ""
}

// vfElement makes the element that a group's configuration describes, on top
// of the given ones.
func vfElement(g group, ups ...*vfUp) rdns.Resolver {
	rs := make(map[string]rdns.Resolver)
	for _, u := range ups {
		rs[u.id] = u
	}
	err := instantiateGroup("g", g, rs)
	zzvf.Assert(err == nil, "the configuration is accepted")
	return rs["g"]
}

func vfQ(name string, qtype uint16) *dns.Msg { return new(dns.Msg).SetQuestion(name, qtype) }
