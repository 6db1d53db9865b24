//go:build go1.21

// verif:properties C05 C07
// verif:assumes C07 nesting so deep that the Go stack is exhausted is outside the proofs (see known-findings.txt)

package codec

import (
	"io"

	. "github.com/muguangyi/ferry/verifghost"
)

// Wire07: the values the decoder yields.
func Wire07(v interface{}) bool {
	switch v.(type) {
	case nil, bool, string, int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64, []interface{}, map[interface{}]interface{}:
		return true
	}
	return false
}

// Decoding07 lets f say what decoding yields.
func Decoding07(f func(r io.Reader) (interface{}, error)) { StandIn(decode, f) }

// Encoding05 lets f say what encoding writes.
func Encoding05(f func(w io.Writer, v interface{}) (int, error)) { StandIn(encode, f) }

// Verif_C07_decode decodes arbitrary bytes from an arbitrary reader: there is no panic, and a value of the decoder's types or an error.
func Verif_C07_decode() {
	s := Any[io.Reader]("stream")
	Assume(s != nil)
	StandIn(decode, func(r io.Reader) (interface{}, error) {
		p := StreamPos(s)
		q := Any[int]("q")
		Assume(Pure(func() bool { return p <= q && q <= StreamEnd(s) }))
		SetStreamPos(s, q)
		err := Any[error]("err")
		if err != nil {
			return nil, err
		}
		v := Any[interface{}]("v")
		Assume(Pure(func() bool { return Wire07(v) }))
		return v, nil
	})
	Unfold(decode)
	v, err := decode(s)
	Assert("C07 decoding yields a value or an error", err != nil || Pure(func() bool { return Wire07(v) }))
	Cover("returned")
}
