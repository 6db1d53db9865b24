//go:build go1.21

// verif:properties C04

package codec

import (
	"io"
	"math"

	. "github.com/muguangyi/ferry/verifghost"
)

// Contract_c04_decode: decoding may produce any value or fail (C03 is about which).
func Contract_c04_decode(reader io.Reader) (interface{}, error) {
	ContractFor(decode)
	Requires("a reader", reader != nil)
	Modifies(reader)
	v, err := decode(reader)
	Ensures("a decoded value is of one of the types the decoder produces", err != nil || Pure(func() bool { return wireType(v) }))
	return v, err
}

func wireType(v interface{}) bool {
	switch v.(type) {
	case nil, bool, string, int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64, []interface{}, map[interface{}]interface{}:
		return true
	}
	return false
}

// holding yields a dynamic value holding x: freshly wrapped, or decoded over something else, possibly after a failed decode.
func holding() (IAny, interface{}) {
	x := Any[interface{}]("x")
	a := NewAny(x)
	if Any[bool]("decoded") {
		r := Any[io.Reader]("reader")
		Assume(r != nil)
		a.Decode(r)
		x = a.Any()
		Cover("decoded")
	}
	return a, x
}

func Verif_C04_any() {
	x := Any[interface{}]("x")
	Assert("C04 Any returns the wrapped value", Identical(NewAny(x).Any(), x))
}

func Verif_C04_bool() {
	a, x := holding()
	r, err := a.Bool()
	v, ok := x.(bool)
	Assert("C04 Bool succeeds exactly on bools", (err == nil) == ok)
	Assert("C04 Bool returns the held value", err != nil || r == v)
}

func Verif_C04_string() {
	a, x := holding()
	r, err := a.String()
	v, ok := x.(string)
	Assert("C04 String succeeds exactly on strings", (err == nil) == ok)
	Assert("C04 String returns the held value", err != nil || r == v)
}

func Verif_C04_arr() {
	a, x := holding()
	r, err := a.Arr()
	v, ok := x.([]interface{})
	Assert("C04 Arr succeeds exactly on generic arrays", (err == nil) == ok)
	Assert("C04 Arr returns the held array", err != nil || SameArray(r, v) && len(r) == len(v))
}

func Verif_C04_map() {
	a, x := holding()
	r, err := a.Map()
	v, ok := x.(map[interface{}]interface{})
	Assert("C04 Map succeeds exactly on generic maps", (err == nil) == ok)
	Assert("C04 Map returns the held map", err != nil || SameMap(r, v))
}

func Verif_C04_int8() {
	a, x := holding()
	r, err := a.Int8()
	switch v := x.(type) {
	case int8:
		Assert("C04 Int8 accepts a held int8", err == nil)
		Assert("C04 Int8 converts a held int8", r == int8(v))
	case int16:
		Assert("C04 Int8 accepts a held int16", err == nil)
		Assert("C04 Int8 converts a held int16", r == int8(v))
	case int32:
		Assert("C04 Int8 accepts a held int32", err == nil)
		Assert("C04 Int8 converts a held int32", r == int8(v))
	case int64:
		Assert("C04 Int8 accepts a held int64", err == nil)
		Assert("C04 Int8 converts a held int64", r == int8(v))
	case int:
		Assert("C04 Int8 accepts a held int", err == nil)
		Assert("C04 Int8 converts a held int", r == int8(v))
	default:
		Assert("C04 Int8 reports an error for a value that is not a signed integer", err != nil)
	}
}

func Verif_C04_int16() {
	a, x := holding()
	r, err := a.Int16()
	switch v := x.(type) {
	case int8:
		Assert("C04 Int16 accepts a held int8", err == nil)
		Assert("C04 Int16 converts a held int8", r == int16(v))
	case int16:
		Assert("C04 Int16 accepts a held int16", err == nil)
		Assert("C04 Int16 converts a held int16", r == int16(v))
	case int32:
		Assert("C04 Int16 accepts a held int32", err == nil)
		Assert("C04 Int16 converts a held int32", r == int16(v))
	case int64:
		Assert("C04 Int16 accepts a held int64", err == nil)
		Assert("C04 Int16 converts a held int64", r == int16(v))
	case int:
		Assert("C04 Int16 accepts a held int", err == nil)
		Assert("C04 Int16 converts a held int", r == int16(v))
	default:
		Assert("C04 Int16 reports an error for a value that is not a signed integer", err != nil)
	}
}

func Verif_C04_int32() {
	a, x := holding()
	r, err := a.Int32()
	switch v := x.(type) {
	case int8:
		Assert("C04 Int32 accepts a held int8", err == nil)
		Assert("C04 Int32 converts a held int8", r == int32(v))
	case int16:
		Assert("C04 Int32 accepts a held int16", err == nil)
		Assert("C04 Int32 converts a held int16", r == int32(v))
	case int32:
		Assert("C04 Int32 accepts a held int32", err == nil)
		Assert("C04 Int32 converts a held int32", r == int32(v))
	case int64:
		Assert("C04 Int32 accepts a held int64", err == nil)
		Assert("C04 Int32 converts a held int64", r == int32(v))
	case int:
		Assert("C04 Int32 accepts a held int", err == nil)
		Assert("C04 Int32 converts a held int", r == int32(v))
	default:
		Assert("C04 Int32 reports an error for a value that is not a signed integer", err != nil)
	}
}

func Verif_C04_int64() {
	a, x := holding()
	r, err := a.Int64()
	switch v := x.(type) {
	case int8:
		Assert("C04 Int64 accepts a held int8", err == nil)
		Assert("C04 Int64 converts a held int8", r == int64(v))
	case int16:
		Assert("C04 Int64 accepts a held int16", err == nil)
		Assert("C04 Int64 converts a held int16", r == int64(v))
	case int32:
		Assert("C04 Int64 accepts a held int32", err == nil)
		Assert("C04 Int64 converts a held int32", r == int64(v))
	case int64:
		Assert("C04 Int64 accepts a held int64", err == nil)
		Assert("C04 Int64 converts a held int64", r == int64(v))
	case int:
		Assert("C04 Int64 accepts a held int", err == nil)
		Assert("C04 Int64 converts a held int", r == int64(v))
	default:
		Assert("C04 Int64 reports an error for a value that is not a signed integer", err != nil)
	}
}

func Verif_C04_int() {
	a, x := holding()
	r, err := a.Int()
	switch v := x.(type) {
	case int8:
		Assert("C04 Int accepts a held int8", err == nil)
		Assert("C04 Int converts a held int8", r == int(v))
	case int16:
		Assert("C04 Int accepts a held int16", err == nil)
		Assert("C04 Int converts a held int16", r == int(v))
	case int32:
		Assert("C04 Int accepts a held int32", err == nil)
		Assert("C04 Int converts a held int32", r == int(v))
	case int64:
		Assert("C04 Int accepts a held int64", err == nil)
		Assert("C04 Int converts a held int64", r == int(v))
	case int:
		Assert("C04 Int accepts a held int", err == nil)
		Assert("C04 Int converts a held int", r == int(v))
	default:
		Assert("C04 Int reports an error for a value that is not a signed integer", err != nil)
	}
}

func Verif_C04_uint8() {
	a, x := holding()
	r, err := a.Uint8()
	switch v := x.(type) {
	case uint8:
		Assert("C04 Uint8 accepts a held uint8", err == nil)
		Assert("C04 Uint8 converts a held uint8", r == uint8(v))
	case uint16:
		Assert("C04 Uint8 accepts a held uint16", err == nil)
		Assert("C04 Uint8 converts a held uint16", r == uint8(v))
	case uint32:
		Assert("C04 Uint8 accepts a held uint32", err == nil)
		Assert("C04 Uint8 converts a held uint32", r == uint8(v))
	case uint64:
		Assert("C04 Uint8 accepts a held uint64", err == nil)
		Assert("C04 Uint8 converts a held uint64", r == uint8(v))
	case uint:
		Assert("C04 Uint8 accepts a held uint", err == nil)
		Assert("C04 Uint8 converts a held uint", r == uint8(v))
	default:
		Assert("C04 Uint8 reports an error for a value that is not an unsigned integer", err != nil)
	}
}

func Verif_C04_uint16() {
	a, x := holding()
	r, err := a.Uint16()
	switch v := x.(type) {
	case uint8:
		Assert("C04 Uint16 accepts a held uint8", err == nil)
		Assert("C04 Uint16 converts a held uint8", r == uint16(v))
	case uint16:
		Assert("C04 Uint16 accepts a held uint16", err == nil)
		Assert("C04 Uint16 converts a held uint16", r == uint16(v))
	case uint32:
		Assert("C04 Uint16 accepts a held uint32", err == nil)
		Assert("C04 Uint16 converts a held uint32", r == uint16(v))
	case uint64:
		Assert("C04 Uint16 accepts a held uint64", err == nil)
		Assert("C04 Uint16 converts a held uint64", r == uint16(v))
	case uint:
		Assert("C04 Uint16 accepts a held uint", err == nil)
		Assert("C04 Uint16 converts a held uint", r == uint16(v))
	default:
		Assert("C04 Uint16 reports an error for a value that is not an unsigned integer", err != nil)
	}
}

func Verif_C04_uint32() {
	a, x := holding()
	r, err := a.Uint32()
	switch v := x.(type) {
	case uint8:
		Assert("C04 Uint32 accepts a held uint8", err == nil)
		Assert("C04 Uint32 converts a held uint8", r == uint32(v))
	case uint16:
		Assert("C04 Uint32 accepts a held uint16", err == nil)
		Assert("C04 Uint32 converts a held uint16", r == uint32(v))
	case uint32:
		Assert("C04 Uint32 accepts a held uint32", err == nil)
		Assert("C04 Uint32 converts a held uint32", r == uint32(v))
	case uint64:
		Assert("C04 Uint32 accepts a held uint64", err == nil)
		Assert("C04 Uint32 converts a held uint64", r == uint32(v))
	case uint:
		Assert("C04 Uint32 accepts a held uint", err == nil)
		Assert("C04 Uint32 converts a held uint", r == uint32(v))
	default:
		Assert("C04 Uint32 reports an error for a value that is not an unsigned integer", err != nil)
	}
}

func Verif_C04_uint64() {
	a, x := holding()
	r, err := a.Uint64()
	switch v := x.(type) {
	case uint8:
		Assert("C04 Uint64 accepts a held uint8", err == nil)
		Assert("C04 Uint64 converts a held uint8", r == uint64(v))
	case uint16:
		Assert("C04 Uint64 accepts a held uint16", err == nil)
		Assert("C04 Uint64 converts a held uint16", r == uint64(v))
	case uint32:
		Assert("C04 Uint64 accepts a held uint32", err == nil)
		Assert("C04 Uint64 converts a held uint32", r == uint64(v))
	case uint64:
		Assert("C04 Uint64 accepts a held uint64", err == nil)
		Assert("C04 Uint64 converts a held uint64", r == uint64(v))
	case uint:
		Assert("C04 Uint64 accepts a held uint", err == nil)
		Assert("C04 Uint64 converts a held uint", r == uint64(v))
	default:
		Assert("C04 Uint64 reports an error for a value that is not an unsigned integer", err != nil)
	}
}

func Verif_C04_uint() {
	a, x := holding()
	r, err := a.Uint()
	switch v := x.(type) {
	case uint8:
		Assert("C04 Uint accepts a held uint8", err == nil)
		Assert("C04 Uint converts a held uint8", r == uint(v))
	case uint16:
		Assert("C04 Uint accepts a held uint16", err == nil)
		Assert("C04 Uint converts a held uint16", r == uint(v))
	case uint32:
		Assert("C04 Uint accepts a held uint32", err == nil)
		Assert("C04 Uint converts a held uint32", r == uint(v))
	case uint64:
		Assert("C04 Uint accepts a held uint64", err == nil)
		Assert("C04 Uint converts a held uint64", r == uint(v))
	case uint:
		Assert("C04 Uint accepts a held uint", err == nil)
		Assert("C04 Uint converts a held uint", r == uint(v))
	default:
		Assert("C04 Uint reports an error for a value that is not an unsigned integer", err != nil)
	}
}

func Verif_C04_float32() {
	a, x := holding()
	r, err := a.Float32()
	switch v := x.(type) {
	case float32:
		Assert("C04 Float32 accepts a held float32", err == nil)
		Assert("C04 Float32 returns a held float32 bit for bit", math.Float32bits(r) == math.Float32bits(v))
	case float64:
		Assert("C04 Float32 accepts a held float64", err == nil)
		Assert("C04 Float32 converts a held float64", math.Float32bits(r) == math.Float32bits(float32(v)))
	default:
		Assert("C04 Float32 reports an error for a value that is not a float", err != nil)
	}
}

func Verif_C04_float64() {
	a, x := holding()
	r, err := a.Float64()
	switch v := x.(type) {
	case float32:
		Assert("C04 Float64 accepts a held float32", err == nil)
		Assert("C04 Float64 converts a held float32", math.Float64bits(r) == math.Float64bits(float64(v)))
	case float64:
		Assert("C04 Float64 accepts a held float64", err == nil)
		Assert("C04 Float64 returns a held float64 bit for bit", math.Float64bits(r) == math.Float64bits(v))
	default:
		Assert("C04 Float64 reports an error for a value that is not a float", err != nil)
	}
}
