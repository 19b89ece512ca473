package rdns

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/cisco/go-hpke"
	odoh "github.com/cloudflare/odoh-go"
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfBody is the body of a response: its bytes and then an error or the end.
type vfBody struct {
	r      io.Reader
	err    error
	closed int
}

func (b *vfBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return n, err
}
func (b *vfBody) Close() error { b.closed++; return nil }

// vfEndless is a body without end.
type vfEndless struct{}

func (vfEndless) Read(p []byte) (int, error) { return len(p), nil }

// vfWeb stands for a web server that answers in any way.
type vfWeb struct {
	bodies []*vfBody
	serve  func(q *http.Request) (*http.Response, error)
}

func newVFWeb() *vfWeb {
	s := new(vfWeb)
	zzvf.Env("(*net/http.Client).Do", func(c *http.Client, q *http.Request) (*http.Response, error) { return s.serve(q) })
	return s
}

func (s *vfWeb) response(status int, ctype string, body *vfBody) *http.Response {
	s.bodies = append(s.bodies, body)
	h := http.Header{}
	h.Set("Content-Type", ctype)
	return &http.Response{StatusCode: status, Header: h, Body: body}
}

// bad makes a response that fails, hangs, or has any status and content.
func (s *vfWeb) bad(q *http.Request, ctype string, n int) (*http.Response, error) {
	body := &vfBody{err: io.EOF}
	switch zzvf.Choose("bad", 5) {
	case 0:
		return nil, errors.New("no connection")
	case 1:
		<-q.Context().Done()
		return nil, q.Context().Err()
	case 2:
		body.r = bytes.NewReader(zzvf.Bytes("body", n))
	case 3:
		body.r = bytes.NewReader(zzvf.Bytes("part", 3))
		body.err = errors.New("connection lost")
	case 4:
		body.r = vfEndless{}
	}
	if zzvf.Choose("ctype", 2) == 1 {
		ctype = "text/html"
	}
	return s.response(zzvf.Int("status", 100, 599), ctype, body), nil
}

func (s *vfWeb) over() {
	for _, b := range s.bodies {
		zzvf.Assert(b.closed > 0, "responses are closed")
	}
}

// vfOblivious makes the encryption of oblivious queries plain in the symbolic
// runs and returns a valid configuration.
func vfOblivious() []byte {
	if zzvf.Symbolic() {
		zzvf.Stub("github.com/cisco/go-hpke.AssembleCipherSuite", func(kem hpke.KEMID, kdf hpke.KDFID, aead hpke.AEADID) (hpke.CipherSuite, error) {
			return hpke.CipherSuite{KEM: vfKEM{}}, nil
		})
		zzvf.Stub("(github.com/cloudflare/odoh-go.ObliviousDoHConfigContents).EncryptQuery", func(k odoh.ObliviousDoHConfigContents, q *odoh.ObliviousDNSQuery) (odoh.ObliviousDNSMessage, odoh.QueryContext, error) {
			return odoh.ObliviousDNSMessage{EncryptedMessage: q.Message()}, odoh.QueryContext{}, nil
		})
		zzvf.Stub("(github.com/cloudflare/odoh-go.ObliviousDNSMessage).Marshal", func(m odoh.ObliviousDNSMessage) []byte { return m.EncryptedMessage })
		zzvf.Stub("github.com/cloudflare/odoh-go.UnmarshalDNSMessage", func(b []byte) (odoh.ObliviousDNSMessage, error) {
			return odoh.ObliviousDNSMessage{EncryptedMessage: b}, nil
		})
		zzvf.Stub("(github.com/cloudflare/odoh-go.QueryContext).OpenAnswer", func(c odoh.QueryContext, m odoh.ObliviousDNSMessage) ([]byte, error) {
			return m.EncryptedMessage, nil
		})
		b := make([]byte, 46)
		copy(b, []byte{0, 44, 0, 1, 0, 40, 0, 0x20, 0, 1, 0, 1, 0, 32})
		return b
	}
	set := odoh.CreateObliviousDoHConfigs([]odoh.ObliviousDoHConfig{vfODoHKey().Config})
	return set.Marshal()
}

// vfKEM accepts keys of the right length.
type vfKEM struct{ hpke.KEMScheme }

func (vfKEM) DeserializePublicKey(b []byte) (hpke.KEMPublicKey, error) {
	if len(b) != 32 {
		return nil, errors.New("bad key")
	}
	return nil, nil
}

// vfObliviousReply answers an oblivious query.
func (s *vfWeb) obliviousReply(q *http.Request) *http.Response {
	wire, _ := io.ReadAll(q.Body)
	reply := func(wire []byte) []byte {
		m := new(dns.Msg)
		if err := m.Unpack(wire); err != nil {
			panic(err)
		}
		b, _ := new(dns.Msg).SetReply(m).Pack()
		return b
	}
	if zzvf.Symbolic() {
		wire = reply(wire)
	} else {
		m, err := odoh.UnmarshalDNSMessage(wire)
		if err != nil {
			panic(err)
		}
		oq, rc, err := vfODoHKey().DecryptQuery(m)
		if err != nil {
			panic(err)
		}
		e, err := rc.EncryptResponse(odoh.CreateObliviousDNSResponse(reply(oq.Message()), 0))
		if err != nil {
			panic(err)
		}
		wire = e.Marshal()
	}
	return s.response(200, ODOH_CONTENT_TYPE, &vfBody{r: bytes.NewReader(wire), err: io.EOF})
}

// An oblivious client whose target gives its keys with an error, not at all,
// with any status and 0 to 15 arbitrary bytes, partly, without end, or with
// wrong lengths in 64 KiB; then correctly.
func VF_Q04_keys() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	good := vfOblivious()
	s := newVFWeb()
	bad := true
	s.serve = func(q *http.Request) (*http.Response, error) {
		if !strings.HasSuffix(q.URL.Path, "/odohconfigs") {
			return s.obliviousReply(q), nil
		}
		if !bad {
			return s.response(200, "application/octet-stream", &vfBody{r: bytes.NewReader(good), err: io.EOF}), nil
		}
		if zzvf.Choose("large", 2) == 1 {
			b := make([]byte, 65531+zzvf.Choose("len", 5))
			b[0], b[1] = zzvf.U8("l"), zzvf.U8("l")
			b[3] = byte(zzvf.Choose("version", 3))
			b[4], b[5] = 255, 250+byte(zzvf.Choose("clen", 6))
			return s.response(200, "application/octet-stream", &vfBody{r: bytes.NewReader(b), err: io.EOF}), nil
		}
		return s.bad(q, "application/octet-stream", zzvf.Choose("n", 16))
	}
	c, err := NewODoHClient("c", "", "https://192.0.2.1:443/dns-query", "", DoHClientOptions{})
	zzvf.Assert(err == nil, "the client can be made")
	q := new(dns.Msg).SetQuestion("a.test.", dns.TypeA)
	a, err := c.Resolve(q, ClientInfo{})
	zzvf.Assert((a == nil) == (err != nil), "the query is answered or fails")
	bad = false
	if err != nil {
		a, err = c.Resolve(q, ClientInfo{})
		zzvf.Assert(err == nil && a != nil, "later queries are answered")
		zzvf.Cover("recovered")
	}
	s.over()
}

// An oblivious client configured with 0 to 15 arbitrary bytes as the target's
// keys.
func VF_Q04_preset() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	vfOblivious()
	s := newVFWeb()
	s.serve = func(q *http.Request) (*http.Response, error) { return s.obliviousReply(q), nil }
	keys := zzvf.Bytes("keys", zzvf.Choose("n", 16))
	zzvf.Env("encoding/hex.DecodeString", func(string) ([]byte, error) { return keys, nil })
	c, err := NewODoHClient("c", "", "https://192.0.2.1:443/dns-query", "preset", DoHClientOptions{})
	if err != nil {
		return
	}
	a, err := c.Resolve(new(dns.Msg).SetQuestion("a.test.", dns.TypeA), ClientInfo{})
	zzvf.Assert((a == nil) == (err != nil), "the query is answered or fails")
	s.over()
}

// HTTPS and oblivious clients whose reply is missing, not given in time, has
// any status and 0 to 13 arbitrary bytes, ends early or never; then a correct
// one.
func VF_Q04_replies() {
	zzvf.Preempt(0)
	zzvf.Delays(0)
	good := vfOblivious()
	s := newVFWeb()
	kind := zzvf.Choose("kind", 3)
	bad := true
	n := zzvf.Choose("n", 14)
	s.serve = func(q *http.Request) (*http.Response, error) {
		if strings.HasSuffix(q.URL.Path, "/odohconfigs") {
			return s.response(200, "application/octet-stream", &vfBody{r: bytes.NewReader(good), err: io.EOF}), nil
		}
		ctype := DOH_CONTENT_TYPE
		if kind == 2 {
			ctype = ODOH_CONTENT_TYPE
		}
		if bad {
			return s.bad(q, ctype, n)
		}
		if kind == 2 {
			return s.obliviousReply(q), nil
		}
		b, _ := new(dns.Msg).SetReply(new(dns.Msg).SetQuestion("a.test.", dns.TypeA)).Pack()
		return s.response(200, ctype, &vfBody{r: bytes.NewReader(b), err: io.EOF}), nil
	}
	var c Resolver
	var err error
	switch kind {
	case 0:
		c, err = NewDoHClient("c", "https://192.0.2.1:443/dns-query", DoHClientOptions{Method: "POST"})
	case 1:
		c, err = NewDoHClient("c", "https://192.0.2.1:443/dns-query{?dns}", DoHClientOptions{Method: "GET"})
	case 2:
		c, err = NewODoHClient("c", "", "https://192.0.2.1:443/dns-query", "", DoHClientOptions{})
	}
	zzvf.Assert(err == nil, "the client can be made")
	q := new(dns.Msg).SetQuestion("a.test.", dns.TypeA)
	a, err := c.Resolve(q, ClientInfo{})
	zzvf.Assert(a == nil && err != nil, "the query fails")
	bad = false
	a, err = c.Resolve(q, ClientInfo{})
	zzvf.Assert(err == nil && a != nil && a.Id == q.Id, "the next query is answered")
	s.over()
	zzvf.Cover("done")
}
