//go:build go1.21

// verif:properties C02
// verif:assumes C02 proceeds by induction on the nesting depth: each proof unfolds encodeValue and decode once and uses, for nested values, that encoding one appends at least one byte and that decoding there yields its image and takes exactly these bytes (that is what the proof then shows for one more level)
// verif:assumes package reflect behaves as documented: Len, Index, MapKeys and MapIndex give the parts of a value, each key of a map once
// verif:assumes distinct keys of one map have distinct images: they are strings, or integers of one type, and Verif_C02_leaf shows these to be decoded as equal strings and numbers
// verif:assumes sequences and maps have fewer than 2^32 parts

package codec

import (
	"io"
	"math"
	"reflect"

	. "github.com/muguangyi/ferry/verifghost"
)

// image02 is what v is decoded as.
func image02(v reflect.Value) interface{} { return UF[interface{}]("image", v) }

func wire02(v interface{}) bool {
	switch v.(type) {
	case nil, bool, string, int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64, []interface{}, map[interface{}]interface{}:
		return true
	}
	return false
}

func container02(v interface{}) bool {
	switch v.(type) {
	case []interface{}, map[interface{}]interface{}:
		return true
	}
	return false
}

// What one value starting at position p of the stream amounts to.
func ok02(p int) bool         { return UF[bool]("ok", p) }
func size02(p int) int        { return UF[int]("size", p) }
func val02(p int) interface{} { return UF[interface{}]("val", p) }
func whole02(p int) bool      { return ok02(p) && 1 <= size02(p) && size02(p) < 1<<40 }

// Positions reached after k values (at02) or k pairs of values (kat02) starting at b.
func at02(b, k int) int  { return UF[int]("at", b, k) }
func kat02(b, k int) int { return UF[int]("kat", b, k) }
func second02(p int) int { return p + size02(p) }

func defs02(b, k int) {
	Assume(at02(b, 0) == b)
	Assume(at02(b, k+1) == second02(at02(b, k)))
	Assume(kat02(b, 0) == b)
	Assume(kat02(b, k+1) == second02(second02(kat02(b, k))))
}

// nested02: the induction hypothesis.
func nested02(s io.ReadWriter, fail *int) {
	StandIn(encodeValue, func(w io.Writer, v reflect.Value) (int, error) {
		Assert("C02 nested values are encoded into the same stream", Identical(w, s))
		p := StreamEnd(s)
		b := Any[[]byte]("encoding")
		Assume(Pure(func() bool { return 1 <= len(b) && len(b) < 1<<40 }))
		Assume(Pure(func() bool { return ok02(p) && size02(p) == len(b) && Identical(val02(p), image02(v)) }))
		return w.Write(b)
	})
	StandIn(decode, func(r io.Reader) (interface{}, error) {
		Assert("C02 nested values are decoded from the same stream", Identical(r, s))
		*fail = LoopIter()
		p, w := StreamPos(s), StreamEnd(s)
		if Pure(func() bool { return whole02(p) && size02(p) <= w-p }) {
			v := val02(p)
			Assume(Pure(func() bool { return wire02(v) }))
			SetStreamPos(s, p+size02(p))
			return v, nil
		}
		err := Any[error]("err")
		Assume(err != nil)
		return nil, err
	})
}

// read02: encodes v, appends arbitrary bytes, and decodes.
func read02(s io.ReadWriter, v reflect.Value, between func()) (interface{}, error) {
	Unfold(encodeValue)
	start := StreamEnd(s)
	Assume(start < 1<<40)
	_, err := encodeValue(s, v)
	Assert("C02 encoding succeeds", err == nil)
	end := StreamEnd(s)
	Assert("C02 encoding appends at least one byte", end > start)
	StreamExtend(s)
	SetStreamPos(s, start)
	between()
	Unfold(decode)
	d, err := decode(s)
	if err == nil {
		Assert("C02 the bytes that follow are left unread", StreamPos(s) == end)
	}
	return d, err
}

func Verif_C02_array() {
	Flag("reliable")
	s := Any[io.ReadWriter]("stream")
	v := Any[reflect.Value]("value")
	Assume(v.Kind() == reflect.Slice || v.Kind() == reflect.Array)
	n := v.Len()
	Assume(n < 1<<32)
	j, f, fail := Any[int]("j"), Any[int]("f"), -1
	nested02(s, &fail)
	LoopInv("values written: position", func(k int) bool {
		b := AtLoopEntry(func() int { return StreamEnd(s) })
		defs02(b, k)
		return Pure(func() bool { return StreamEnd(s) == at02(b, k) && b <= StreamEnd(s) && StreamEnd(s) < 1<<62 })
	})
	part := func(k, i int) bool {
		b := AtLoopEntry(func() int { return StreamEnd(s) })
		defs02(b, k)
		return Pure(func() bool {
			p := at02(b, i)
			return !(0 <= i && i < k) || b <= p && whole02(p) && second02(p) <= StreamEnd(s) && Identical(val02(p), image02(v.Index(i)))
		})
	}
	if !(0 <= j && j < n) {
		j = 0
	}
	LoopInv("values written: an element", func(k int) bool { return n == 0 || part(k, j) })
	LoopInv("values written: the one at fault", func(k int) bool {
		if 0 <= f && f < n {
			return part(k, f)
		}
		return true
	})
	d, err := read02(s, v, func() {
		ClearLoopInv()
		LoopInv("values read: position", func(k int) bool {
			b := AtLoopEntry(func() int { return StreamPos(s) })
			defs02(b, k)
			return Pure(func() bool { return StreamPos(s) == at02(b, k) && b <= StreamPos(s) })
		})
		LoopInv("values read: element", func(k int) bool {
			b := AtLoopEntry(func() int { return StreamPos(s) })
			defs02(b, k)
			a := LoopSlice[interface{}](0)
			if 0 <= j && j < k {
				return j < len(a) && Identical(a[j], val02(at02(b, j)))
			}
			return true
		})
	})
	if err != nil {
		Assume(f == fail) // f is arbitrary: consider the element at fault
		Assert("C02 decoding succeeds", false)
		return
	}
	l, ok := d.([]interface{})
	Assert("C02 sequences are decoded as sequences", ok)
	Assert("C02 sequences keep their length", len(l) == n)
	if n > 0 {
		Assert("C02 sequences keep their elements in order", Identical(l[j], image02(v.Index(j))))
	}
	Cover("array")
}

// The image of the i-th key of the map, in the order in which it is written, and of what belongs to it.
func key02(i int) interface{}   { return UF[interface{}]("key", i) }
func entry02(i int) interface{} { return UF[interface{}]("entry", i) }

// last02 is the last of the first k pairs whose key is the one looked at, or -1.
func last02(k int) int { return UF[int]("last", k) }

func isKey02(v interface{}) bool {
	switch v.(type) {
	case string, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
		return true
	}
	return false
}

// The proof has three parts: decoding does not fail, every entry is decoded, and there is no other.
func Verif_C02_map_decodes() { map02(true, false, false) }
func Verif_C02_map_entries() { map02(false, true, false) }
func Verif_C02_map_others()  { map02(false, false, true) }

func map02(fails, entries, others bool) {
	Flag("reliable")
	s := Any[io.ReadWriter]("stream")
	v := Any[reflect.Value]("value")
	Assume(v.Kind() == reflect.Map)
	n := v.Len()
	Assume(n < 1<<32)
	j, f, g, fail := Any[int]("j"), Any[int]("f"), Any[int]("g"), -1
	Assume(n > 0)
	in := func(i int) { Assume(Pure(func() bool { return 0 <= i && i < n })) }
	in(j)
	in(f)
	in(g)
	x := key02(j)
	if others {
		x = Any[interface{}]("a key")
	}
	Assume(Pure(func() bool { return isKey02(x) }))
	nested02(s, &fail)
	keys := func(i int) {
		k := LoopVal[[]reflect.Value](0)
		Assume(Identical(key02(i), image02(k[i])))
		Assume(Identical(entry02(i), image02(v.MapIndex(k[i]))))
		Assume(Pure(func() bool { return isKey02(key02(i)) }))
	}
	LoopInv("pairs written: position", func(k int) bool {
		b := AtLoopEntry(func() int { return StreamEnd(s) })
		defs02(b, k)
		return Pure(func() bool { return StreamEnd(s) == kat02(b, k) && b <= StreamEnd(s) && StreamEnd(s) < 1<<62 })
	})
	part := func(k, i int) bool {
		b := AtLoopEntry(func() int { return StreamEnd(s) })
		defs02(b, k)
		keys(i)
		return Pure(func() bool {
			p := kat02(b, i)
			q := second02(p)
			return !(0 <= i && i < k) || b <= p && whole02(p) && q <= StreamEnd(s) && Identical(val02(p), key02(i)) &&
				whole02(q) && second02(q) <= StreamEnd(s) && Identical(val02(q), entry02(i))
		})
	}
	if entries {
		LoopInv("pairs written: a pair", func(k int) bool { return part(k, j) })
	}
	if fails {
		LoopInv("pairs written: the one at fault", func(k int) bool { return part(k, f) })
	} else {
		LoopInv("pairs written: the last one of the key", func(k int) bool { return part(k, g) })
	}
	d, err := read02(s, v, func() {
		ClearLoopInv()
		base := func(k int) int {
			b := AtLoopEntry(func() int { return StreamPos(s) })
			defs02(b, k)
			Assume(last02(0) == -1)
			same := val02(kat02(b, k)) == x
			Assume(Pure(func() bool { return !same || last02(k+1) == k }))
			Assume(Pure(func() bool { return same || last02(k+1) == last02(k) }))
			return b
		}
		LoopInv("pairs read: position", func(k int) bool {
			b := base(k)
			return Pure(func() bool { return StreamPos(s) == kat02(b, k) && b <= StreamPos(s) })
		})
		if fails {
			return
		}
		LoopInv("pairs read: last such pair", func(k int) bool {
			base(k)
			return Pure(func() bool { return -1 <= last02(k) && last02(k) < k })
		})
		LoopInv("pairs read: it has the key", func(k int) bool {
			b := base(k)
			return Pure(func() bool { return last02(k) < 0 || Identical(val02(kat02(b, last02(k))), x) })
		})
		if entries {
			LoopInv("pairs read: none later", func(k int) bool {
				b := base(k)
				return Pure(func() bool { return !(0 <= j && j < k && Identical(val02(kat02(b, j)), x)) || last02(k) >= j })
			})
		}
		LoopInv("pairs read: entry", func(k int) bool {
			b := base(k)
			m := LoopVal[map[interface{}]interface{}](0)
			e, ok := m[x]
			if last02(k) >= 0 {
				return ok && Identical(e, val02(second02(kat02(b, last02(k)))))
			}
			return !ok
		})
	})
	if err != nil {
		if !fails {
			Stop()
		}
		Assume(f == fail) // f is arbitrary: consider the pair at fault
		Assert("C02 decoding succeeds", false)
	}
	if fails {
		Stop()
	}
	if last02(n) >= 0 {
		Assume(g == last02(n))
	}
	m, ok := d.(map[interface{}]interface{})
	Assert("C02 maps are decoded as maps", ok)
	e, has := m[x]
	if entries {
		Assume(Pure(func() bool { return j == g || !Identical(key02(j), key02(g)) })) // keys of a map are distinct
		Assert("C02 every entry of a map is decoded under its key", has)
		Assert("C02 every entry of a map keeps its value", Identical(e, entry02(j)))
		Cover("entry")
	} else if has {
		Assert("C02 decoded maps have no other entries", Identical(x, key02(g)))
		Cover("another entry")
	}
}

func Verif_C02_empty_map() {
	Flag("reliable")
	s := Any[io.ReadWriter]("stream")
	v := Any[reflect.Value]("value")
	Assume(v.Kind() == reflect.Map && v.Len() == 0)
	fail := -1
	nested02(s, &fail)
	d, err := read02(s, v, func() {})
	m, ok := d.(map[interface{}]interface{})
	Assert("C02 empty maps are decoded as empty maps", err == nil && ok && len(m) == 0)
}

// Verif_C02_wrapped: what an interface holds is encoded as it is without the interface, and no value as nil.
func Verif_C02_wrapped() {
	Flag("reliable")
	s := Any[io.ReadWriter]("stream")
	l := Any[[]interface{}]("values")
	Assume(len(l) == 1)
	start := StreamEnd(s)
	Assume(start < 1<<40)
	calls := 0
	StandIn(encodeValue, func(w io.Writer, v reflect.Value) (int, error) {
		calls++
		Assert("C02 held values are encoded into the same stream", Identical(w, s))
		if l[0] != nil {
			Assert("C02 held values are encoded as they are", v.IsValid() && Identical(v.Interface(), l[0]))
			Cover("held value")
		} else {
			Assert("C02 no value is encoded as such", !v.IsValid())
		}
		return w.Write([]byte{1, 2, 3})
	})
	Unfold(encodeValue)
	_, err := encodeValue(s, reflect.ValueOf(l).Index(0))
	Assert("C02 encoding succeeds", err == nil)
	Assert("C02 held values are encoded once and nothing else is", calls == 1 && StreamEnd(s) == start+3)
}

func Verif_C02_nil() {
	Flag("reliable")
	s := Any[io.ReadWriter]("stream")
	start := StreamEnd(s)
	Assume(start < 1<<40)
	_, err := encodeValue(s, reflect.Value{})
	Assert("C02 encoding succeeds", err == nil)
	end := StreamEnd(s)
	StreamExtend(s)
	SetStreamPos(s, start)
	d, err := decode(s)
	Assert("C02 no value is decoded as nil", err == nil && d == nil)
	Assert("C02 the bytes that follow are left unread", StreamPos(s) == end && end > start)
}

// top02: through IAny, containers are encoded and decoded as encodeValue and decode do.
func top02(v interface{}) {
	Flag("reliable")
	s := Any[io.ReadWriter]("stream")
	start := StreamEnd(s)
	Assume(start < 1<<40)
	calls := 0
	d := Any[interface{}]("decoded")
	Assume(Pure(func() bool { return container02(d) }))
	StandIn(encodeValue, func(w io.Writer, x reflect.Value) (int, error) {
		calls++
		Assert("C02 containers are encoded as they are", Identical(w, s) && x.IsValid() && Identical(x.Interface(), v))
		return w.Write([]byte{1, 2, 3})
	})
	reads := 0
	StandIn(decode, func(r io.Reader) (interface{}, error) {
		reads++
		Assert("C02 containers are decoded from the stream", Identical(r, s))
		SetStreamPos(s, start+3)
		return d, nil
	})
	err := NewAny(v).Encode(s)
	Assert("C02 containers are encoded once and nothing else is", err == nil && calls == 1 && StreamEnd(s) == start+3)
	SetStreamPos(s, start)
	a := NewAny(nil)
	err = a.Decode(s)
	Assert("C02 containers are decoded once and nothing else is", err == nil && reads == 1 && StreamPos(s) == start+3)
	Assert("C02 the decoded container is given", Identical(a.Any(), d))
	if l, ok := d.([]interface{}); ok {
		r, err := a.Arr()
		Assert("C02 the decoded sequence is given", err == nil && len(r) == len(l) && SameArray(r, l))
	} else {
		r, err := a.Map()
		Assert("C02 the decoded map is given", err == nil && SameMap(r, d))
	}
}

func Verif_C02_top_values()  { top02(Any[[]interface{}]("v")) }
func Verif_C02_top_strings() { top02(Any[[]string]("v")) }
func Verif_C02_top_array()   { top02(Any[[3]int]("v")) }
func Verif_C02_top_map()     { top02(Any[map[string]interface{}]("v")) }
func Verif_C02_top_numbers() { top02(Any[map[int][]float32]("v")) }

func Verif_C02_leaf() {
	Flag("reliable")
	s := Any[io.ReadWriter]("stream")
	v := Any[reflect.Value]("value")
	k := v.Kind()
	StandIn(encodeValue, func(w io.Writer, v reflect.Value) (int, error) {
		Assert("C02 scalars have no parts", false)
		return 0, nil
	})
	Unfold(encodeValue)
	start := StreamEnd(s)
	Assume(start < 1<<40)
	switch {
	case k == reflect.Bool, k >= reflect.Int && k <= reflect.Uintptr, k == reflect.Float32, k == reflect.Float64:
	case k == reflect.String:
		Assume(len(v.String()) < 1<<32)
	default:
		Stop()
	}
	_, err := encodeValue(s, v)
	Assert("C02 encoding succeeds", err == nil)
	end := StreamEnd(s)
	Assert("C02 encoding appends at least one byte", end > start)
	StreamExtend(s)
	SetStreamPos(s, start)
	d, err := decode(s)
	Assert("C02 decoding succeeds", err == nil)
	Assert("C02 the bytes that follow are left unread", StreamPos(s) == end)
	a := NewAny(d)
	switch {
	case k == reflect.Bool:
		x, err := a.Bool()
		Assert("C02 truth values are decoded as such", err == nil && x == v.Bool())
	case k >= reflect.Int && k <= reflect.Int64:
		x, err := a.Int64()
		Assert("C02 integers are decoded as equal ones", err == nil && x == v.Int())
	case k >= reflect.Uint && k <= reflect.Uintptr:
		x, err := a.Uint64()
		Assert("C02 unsigned integers are decoded as equal ones", err == nil && x == v.Uint())
	case k == reflect.String:
		x, err := a.String()
		Assert("C02 texts are decoded as equal ones", err == nil && x == v.String())
	default:
		x, err := a.Float64()
		Assert("C02 floats are decoded as equal ones", err == nil && math.Float64bits(x) == math.Float64bits(v.Float()))
	}
}
