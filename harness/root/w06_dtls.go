package rdns

import (
	"io"

	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfRecords delivers one record per read and fails when the buffer is too
// small for it, like a datagram connection.
type vfRecords struct {
	vfConn
	recs [][]byte
}

func (c *vfRecords) Read(b []byte) (int, error) {
	if len(c.recs) == 0 {
		return 0, io.EOF
	}
	if len(c.recs[0]) > len(b) {
		return 0, io.ErrShortBuffer
	}
	n := copy(b, c.recs[0])
	c.recs = c.recs[1:]
	return n, nil
}

// Two queries with any ID and letters over a DTLS connection, each message and
// its length in one record, in two, or cut at any place.
func VF_W06_dtls() {
	zzvf.Preempt(0)
	c := &vfRecords{}
	var qs []*dns.Msg
	for i := 0; i < 2; i++ {
		q := new(dns.Msg)
		q.Id = zzvf.U16("id")
		q.Question = []dns.Question{{Name: zzvf.StrOf("name", 2, "ab") + ".test.", Qtype: 1, Qclass: 1}}
		qs = append(qs, q)
		wire, err := q.Pack()
		zzvf.Assert(err == nil, "the query can be encoded")
		s := vfFrame(wire)
		if zzvf.Choose("cut", 2) == 1 {
			c.recs = append(c.recs, vfPieces(s, []int{1 + zzvf.Choose("at", len(s)-1)})...)
		} else {
			c.recs = append(c.recs, s)
		}
	}
	conn := &dns.Conn{Conn: &dtlsConn{Conn: c}}
	for _, q := range qs {
		m, err := conn.ReadMsg()
		zzvf.Assert(err == nil && vfSame(m, q), "each message is delivered whole")
	}
	_, err := conn.ReadMsg()
	zzvf.Assert(err != nil, "nothing else is delivered")
	zzvf.Cover("whole")
}
