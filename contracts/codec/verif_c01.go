//go:build go1.21

// verif:properties C01 C05

package codec

import (
	"io"
	"math"

	. "github.com/muguangyi/ferry/verifghost"
)

// roundTrip encodes v into an arbitrary stream that may already hold bytes, appends arbitrary further bytes, and
// decodes from the point where the encoding began.
func roundTrip(v interface{}) IAny {
	Flag("reliable")
	s := Any[io.ReadWriter]("stream")
	start := StreamEnd(s)
	err := NewAny(v).Encode(s)
	Assert("C01 encoding succeeds", err == nil)
	end := StreamEnd(s)
	StreamExtend(s)
	SetStreamPos(s, start)
	a := NewAny(nil)
	err = a.Decode(s)
	Assert("C01 decoding the produced bytes succeeds", err == nil)
	Assert("C01 decoding consumes exactly the produced bytes", StreamPos(s) == end)
	Cover("round trip")
	return a
}

func Verif_C01_nil() {
	a := roundTrip(nil)
	Assert("C01 nil reads back as nil", a.Any() == nil)
}

func Verif_C01_bool() {
	v := Any[bool]("v")
	r, err := roundTrip(v).Bool()
	Assert("C01 bool reads back identical", err == nil && r == v)
}

func Verif_C01_int() {
	v := Any[int]("v")
	r, err := roundTrip(v).Int()
	Assert("C01 int reads back identical", err == nil && r == v)
}

func Verif_C01_int8() {
	v := Any[int8]("v")
	r, err := roundTrip(v).Int8()
	Assert("C01 int8 reads back identical", err == nil && r == v)
}

func Verif_C01_int16() {
	v := Any[int16]("v")
	r, err := roundTrip(v).Int16()
	Assert("C01 int16 reads back identical", err == nil && r == v)
}

func Verif_C01_int32() {
	v := Any[int32]("v")
	r, err := roundTrip(v).Int32()
	Assert("C01 int32 reads back identical", err == nil && r == v)
}

func Verif_C01_int64() {
	v := Any[int64]("v")
	r, err := roundTrip(v).Int64()
	Assert("C01 int64 reads back identical", err == nil && r == v)
}

func Verif_C01_uint() {
	v := Any[uint]("v")
	r, err := roundTrip(v).Uint()
	Assert("C01 uint reads back identical", err == nil && r == v)
}

func Verif_C01_uint8() {
	v := Any[uint8]("v")
	r, err := roundTrip(v).Uint8()
	Assert("C01 uint8 reads back identical", err == nil && r == v)
}

func Verif_C01_uint16() {
	v := Any[uint16]("v")
	r, err := roundTrip(v).Uint16()
	Assert("C01 uint16 reads back identical", err == nil && r == v)
}

func Verif_C01_uint32() {
	v := Any[uint32]("v")
	r, err := roundTrip(v).Uint32()
	Assert("C01 uint32 reads back identical", err == nil && r == v)
}

func Verif_C01_uint64() {
	v := Any[uint64]("v")
	r, err := roundTrip(v).Uint64()
	Assert("C01 uint64 reads back identical", err == nil && r == v)
}

func Verif_C01_float32() {
	v := Any[float32]("v")
	r, err := roundTrip(v).Float32()
	Assert("C01 float32 reads back bit for bit", err == nil && math.Float32bits(r) == math.Float32bits(v))
}

func Verif_C01_float64() {
	v := Any[float64]("v")
	r, err := roundTrip(v).Float64()
	Assert("C01 float64 reads back bit for bit", err == nil && math.Float64bits(r) == math.Float64bits(v))
}

func Verif_C01_string() {
	v := Any[string]("v")
	Assume(len(v) < 1<<32)
	r, err := roundTrip(v).String()
	Assert("C01 string reads back identical", err == nil && r == v)
}

// Integers of named types and uintptr take the reflective path.

type namedInt int32
type namedUint uint16
type namedString string
type namedBool bool
type namedFloat float64

func Verif_C01_uintptr() {
	v := Any[uintptr]("v")
	r, err := roundTrip(v).Uint64()
	Assert("C01 uintptr reads back identical", err == nil && r == uint64(v))
}

func Verif_C01_named() {
	switch Any[int]("kind") {
	case 0:
		v := Any[namedInt]("v")
		r, err := roundTrip(v).Int32()
		Assert("C01 named signed integer reads back identical", err == nil && r == int32(v))
	case 1:
		v := Any[namedUint]("v")
		r, err := roundTrip(v).Uint16()
		Assert("C01 named unsigned integer reads back identical", err == nil && r == uint16(v))
	case 2:
		v := Any[namedString]("v")
		Assume(len(v) < 1<<32)
		r, err := roundTrip(v).String()
		Assert("C01 named string reads back identical", err == nil && r == string(v))
	case 3:
		v := Any[namedBool]("v")
		r, err := roundTrip(v).Bool()
		Assert("C01 named bool reads back identical", err == nil && r == bool(v))
	case 4:
		v := Any[namedFloat]("v")
		r, err := roundTrip(v).Float64()
		Assert("C01 named float reads back bit for bit", err == nil && math.Float64bits(r) == math.Float64bits(float64(v)))
	}
}
