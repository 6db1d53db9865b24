//go:build go1.21

// verif:properties C03
// verif:assumes C03 proceeds by induction on the nesting depth: each proof unfolds decode once and uses, for the nested calls, that the outcome is a function of the bytes and the position (that is what the proof then shows for one more level); nested containers are equal when that function says so
// verif:assumes nesting so deep that the Go stack is exhausted is outside the proofs (see known-findings.txt)

package codec

import (
	"io"

	. "github.com/muguangyi/ferry/verifghost"
)

func wire03(v interface{}) bool {
	switch v.(type) {
	case nil, bool, string, int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64, []interface{}, map[interface{}]interface{}:
		return true
	}
	return false
}

func container03(v interface{}) bool {
	switch v.(type) {
	case []interface{}, map[interface{}]interface{}:
		return true
	}
	return false
}

// What one value starting at position p of the (fixed) data amounts to.
func ok03(p int) bool         { return UF[bool]("ok", p) }
func size03(p int) int        { return UF[int]("size", p) }
func val03(p int) interface{} { return UF[interface{}]("val", p) }

func whole03(p int) bool { return ok03(p) && 1 <= size03(p) && size03(p) < 1<<40 }

// hypothesis03: decoding at p succeeds exactly if there is a complete value at p, and then takes exactly its bytes.
// *fail is the iteration in which a nested value was last decoded, the one at fault when decoding fails.
func hypothesis03(s io.Reader, fail *int) {
	StandIn(decode, func(r io.Reader) (interface{}, error) {
		Assert("C03 nested values are decoded from the same reader", Identical(r, s))
		*fail = LoopIter()
		p := StreamPos(s)
		w := StreamEnd(s)
		if Pure(func() bool { return whole03(p) && size03(p) <= w-p }) {
			v := val03(p)
			Assume(Pure(func() bool { return wire03(v) }))
			SetStreamPos(s, p+size03(p))
			return v, nil
		}
		q := Any[int]("q")
		Assume(Pure(func() bool { return p <= q && q <= w }))
		SetStreamPos(s, q)
		err := Any[error]("err")
		Assume(err != nil)
		return nil, err
	})
}

// Positions reached after k values (at03) or k pairs of values (kat03) starting at b.
func at03(b, k int) int  { return UF[int]("at", b, k) }
func kat03(b, k int) int { return UF[int]("kat", b, k) }

// last03 is the last of the first k pairs from b whose key is key, or -1.
func last03(b, k int) int { return UF[int]("last", b, k) }

// second03 is where the value that follows the one at p begins.
func second03(p int) int { return p + size03(p) }

func defs03(b, k int) {
	Assume(at03(b, 0) == b)
	Assume(at03(b, k+1) == second03(at03(b, k)))
	Assume(kat03(b, 0) == b)
	Assume(kat03(b, k+1) == second03(second03(kat03(b, k))))
}

func lastDef03(b, k int, key interface{}) {
	Assume(last03(b, 0) == -1)
	same := val03(kat03(b, k)) == key
	Assume(Pure(func() bool { return !same || last03(b, k+1) == k }))
	Assume(Pure(func() bool { return same || last03(b, k+1) == last03(b, k) }))
}

// loops03: what holds of the first k values or pairs, in particular of the j-th value, the f1-th and f2-th of them,
// and of the entry for key.
func loops03(s io.Reader, j, f1, f2 int, key interface{}) {
	base := func(k int) int {
		b := AtLoopEntry(func() int { return StreamPos(s) })
		defs03(b, k)
		return b
	}
	values := func() bool { return LoopHas([]interface{}(nil)) }
	LoopInv("position grows", func(k int) bool { return base(k) <= StreamPos(s) })
	LoopInv("values: position", func(k int) bool {
		b := base(k)
		return Pure(func() bool { return !values() || StreamPos(s) == at03(b, k) })
	})
	whole := func(k, f int) bool {
		b := base(k)
		return Pure(func() bool {
			return !values() || !(0 <= f && f < k) || whole03(at03(b, f)) && second03(at03(b, f)) <= StreamPos(s)
		})
	}
	LoopInv("values: complete and within (1)", func(k int) bool { return whole(k, f1) })
	LoopInv("values: complete and within (2)", func(k int) bool { return whole(k, f2) })
	LoopInv("values: element", func(k int) bool {
		if !values() {
			return true
		}
		b := base(k)
		a := LoopSlice[interface{}](0)
		if 0 <= j && j < k {
			return j < len(a) && Identical(a[j], val03(at03(b, j)))
		}
		return true
	})
	LoopInv("pairs: position", func(k int) bool {
		b := base(k)
		return Pure(func() bool { return values() || StreamPos(s) == kat03(b, k) })
	})
	pair := func(k, f int) bool {
		b := base(k)
		return Pure(func() bool {
			p := kat03(b, f)
			return values() || !(0 <= f && f < k) || whole03(p) && whole03(second03(p)) && !container03(val03(p)) && second03(p) <= StreamPos(s) && second03(second03(p)) <= StreamPos(s)
		})
	}
	LoopInv("pairs: complete and within (1)", func(k int) bool { return pair(k, f1) })
	LoopInv("pairs: complete and within (2)", func(k int) bool { return pair(k, f2) })
	LoopInv("pairs: last such pair", func(k int) bool {
		if values() {
			return true
		}
		b := base(k)
		lastDef03(b, k, key)
		return Pure(func() bool { return -1 <= last03(b, k) && last03(b, k) < k })
	})
	LoopInv("pairs: entry", func(k int) bool {
		if values() {
			return true
		}
		b := base(k)
		lastDef03(b, k, key)
		d := LoopVal[map[interface{}]interface{}](0)
		v, ok := d[key]
		if last03(b, k) >= 0 {
			return ok && Identical(v, val03(second03(kat03(b, last03(b, k)))))
		}
		return !ok
	})
}

// The proof is split by the value of the first byte, and by whether the whole bytes decode; the parts together cover all of them.
func Verif_C03_cut_below_cb()     { cut03(0, 0xca, true, true) }
func Verif_C03_cut_cb()           { cut03(0xcb, 0xcb, true, true) }
func Verif_C03_cut_to_da()        { cut03(0xcc, 0xda, true, true) }
func Verif_C03_cut_to_dc()        { cut03(0xdb, 0xdc, true, true) }
func Verif_C03_cut_dd_value()     { cut03(0xdd, 0xdd, true, false) }
func Verif_C03_cut_dd_malformed() { cut03(0xdd, 0xdd, false, true) }
func Verif_C03_cut_de()           { cut03(0xde, 0xde, true, true) }
func Verif_C03_cut_df_value()     { cut03(0xdf, 0xdf, true, false) }
func Verif_C03_cut_df_malformed() { cut03(0xdf, 0xdf, false, true) }
func Verif_C03_cut_to_ff()        { cut03(0xe0, 0xff, true, true) }

// cut03 decodes the same bytes twice, the second time cut off at an arbitrary point (possibly not at all), each
// time through a reader that splits them into reads as it pleases.
func cut03(from, to byte, value, malformed bool) {
	Flag("reliable")
	s := Any[io.Reader]("stream")
	start := StreamPos(s)
	first := StreamByte(s, start)
	Assume(Pure(func() bool { return from <= first && first <= to }))
	w := StreamEnd(s)
	cut := Any[int]("cut")
	Assume(Pure(func() bool { return start <= cut && cut <= w }))
	j, f1, f2 := Any[int]("j"), Any[int]("f1"), Any[int]("f2")
	key := Any[interface{}]("key")
	Assume(Pure(func() bool { return wire03(key) && !container03(key) }))
	fail := -1
	hypothesis03(s, &fail)
	loops03(s, j, f1, f2, key)
	Unfold(decode)
	v, err := decode(s)
	end := StreamPos(s)
	if err != nil && !malformed || err == nil && !value {
		Stop()
	}
	if err != nil {
		Assume(f1 == fail) // f1 is arbitrary: consider the element at fault
	}
	Truncate(s, cut)
	SetStreamPos(s, start)
	v2, err2 := decode(s)
	if err2 != nil {
		Assume(f2 == fail)
	}
	if err != nil {
		
		Assert("C03 bytes that are not a value are not one when cut off either", err2 != nil)
		return
	}
	Assert("C03 a decoded value takes at least one byte and only bytes there are", Pure(func() bool { return end > start && end <= w }))
	if end > cut {
		Assert("C03 a value cut off is reported as an error", err2 != nil)
		return
	}
	Assert("C03 a complete value is decoded whatever follows it and however reads split it", err2 == nil)
	Assert("C03 decoding stops at the same byte", StreamPos(s) == end)
	switch a := v.(type) {
	case []interface{}:
		b, ok := v2.([]interface{})
		Assert("C03 arrays decode to arrays of the same length", Pure(func() bool { return ok && len(a) == len(b) }))
		if ok && 0 <= j && j < len(a) {
			Assert("C03 array elements decode alike", Identical(a[j], b[j]))
		}
	case map[interface{}]interface{}:
		b, ok := v2.(map[interface{}]interface{})
		Assert("C03 maps decode to maps", ok)
		if ok {
			x, in := a[key]
			y, in2 := b[key]
			Assert("C03 map entries decode alike", in == in2)
			Assert("C03 map values decode alike", Pure(func() bool { return !in || Identical(x, y) }))
		}
	default:
		Assert("C03 scalars decode alike", Identical(v, v2))
		Assert("C03 decoded values are of the decoder's types", Pure(func() bool { return wire03(v) }))
	}
}

// Verif_C03_safe decodes arbitrary bytes from an arbitrary reader, which may fail at any point.
func Verif_C03_safe() {
	s := Any[io.Reader]("stream")
	Assume(s != nil)
	StandIn(decode, func(r io.Reader) (interface{}, error) {
		p := StreamPos(s)
		q := Any[int]("q")
		Assume(Pure(func() bool { return p <= q && q <= StreamEnd(s) }))
		SetStreamPos(s, q)
		err := Any[error]("err")
		if err != nil {
			return nil, err
		}
		v := Any[interface{}]("v")
		Assume(Pure(func() bool { return wire03(v) }))
		return v, nil
	})
	Unfold(decode)
	v, err := decode(s)
	Assert("C03 decoding yields a value or an error", err != nil || Pure(func() bool { return wire03(v) }))
	Cover("returned")
}

// Verif_C03_api: the same through IAny.
func Verif_C03_api() {
	Flag("reliable")
	s := Any[io.Reader]("stream")
	start := StreamPos(s)
	cut := Any[int]("cut")
	w := StreamEnd(s)
	Assume(Pure(func() bool { return start <= cut && cut <= w }))
	fail := -1
	hypothesis03(s, &fail)
	a := NewAny(nil)
	err := a.Decode(s)
	end := StreamPos(s)
	Truncate(s, cut)
	SetStreamPos(s, start)
	b := NewAny(nil)
	err2 := b.Decode(s)
	if err != nil {
		Assert("C03 Decode reports malformed bytes also when cut off", err2 != nil)
		return
	}
	Assert("C03 Decode reports an error exactly when the value is cut off", (err2 != nil) == (end > cut))
	if err2 == nil {
		Cover("complete")
		Assert("C03 Decode yields the same value", Identical(a.Any(), b.Any()))
	}
}
