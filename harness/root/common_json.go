package rdns

import (
	"bufio"
	"encoding/json"
	"errors"
	"io"

	"github.com/folbricht/routedns/zzvf"
)

// vfJSON replaces the JSON encoder and decoder by a faithful model for the
// encoded functions: a value is one line naming a snapshot of its exported
// fields, and reading the line back assigns the fields of the same name.
func vfJSON() {
	writers := make(map[*json.Encoder]io.Writer)
	readers := make(map[*json.Decoder]*bufio.Reader)
	damaged := errors.New("damaged")
	line := func(r *bufio.Reader) ([]byte, error) {
		b, err := r.ReadBytes('\n')
		if err == io.EOF && len(b) > 0 && b[len(b)-1] != '}' {
			return nil, io.ErrUnexpectedEOF
		}
		if err == io.EOF && len(b) > 0 {
			err = nil
		}
		return b, err
	}
	zzvf.Model("encoding/json.NewEncoder", func(w io.Writer) *json.Encoder {
		e := new(json.Encoder)
		writers[e] = w
		return e
	})
	zzvf.Model("(*encoding/json.Encoder).Encode", func(e *json.Encoder, v any) error {
		_, err := writers[e].Write(append(zzvf.Pack(v), '\n'))
		return err
	})
	zzvf.Model("encoding/json.Marshal", func(v any) ([]byte, error) { return zzvf.Pack(v), nil })
	zzvf.Model("encoding/json.Unmarshal", func(b []byte, v any) error {
		if !zzvf.Unpack(b, v) {
			return damaged
		}
		return nil
	})
	zzvf.Model("encoding/json.NewDecoder", func(r io.Reader) *json.Decoder {
		d := new(json.Decoder)
		readers[d] = bufio.NewReader(r)
		return d
	})
	zzvf.Model("(*encoding/json.Decoder).More", func(d *json.Decoder) bool {
		_, err := readers[d].Peek(1)
		return err == nil
	})
	zzvf.Model("(*encoding/json.Decoder).Decode", func(d *json.Decoder, v any) error {
		b, err := line(readers[d])
		if err != nil {
			return err
		}
		if !zzvf.Unpack(b, v) {
			return damaged
		}
		return nil
	})
}
