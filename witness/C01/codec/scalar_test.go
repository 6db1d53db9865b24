package codec_test

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"
	"testing"

	"github.com/muguangyi/ferry/codec"
)

func try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// read1 decodes one value and reads it through the accessor of v's type.
func read1(v interface{}, r codec.IAny) (got interface{}, err error) {
	switch v.(type) {
	case nil:
		return r.Any(), nil
	case bool:
		return r.Bool()
	case int:
		return r.Int()
	case int8:
		return r.Int8()
	case int16:
		return r.Int16()
	case int32:
		return r.Int32()
	case int64:
		return r.Int64()
	case uint:
		return r.Uint()
	case uint8:
		return r.Uint8()
	case uint16:
		return r.Uint16()
	case uint32:
		return r.Uint32()
	case uint64:
		return r.Uint64()
	case float32:
		return r.Float32()
	case float64:
		return r.Float64()
	case string:
		return r.String()
	}
	return nil, fmt.Errorf("unexpected kind %T", v)
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}

func show(v interface{}) string {
	s := fmt.Sprintf("%T(%#v)", v, v)
	if len(s) > 80 {
		s = s[:80] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	switch x := v.(type) {
	case float32:
		s += fmt.Sprintf(" bits %#x", math.Float32bits(x))
	case float64:
		s += fmt.Sprintf(" bits %#x", math.Float64bits(x))
	}
	return s
}

func stream(t *testing.T, vs []interface{}) {
	var buf bytes.Buffer
	var ends []int
	var cur string
	p := try(func() {
		for _, v := range vs {
			cur = "encoding " + show(v)
			if err := codec.NewAny(v).Encode(&buf); err != nil {
				t.Fatalf("%s: %v", cur, err)
			}
			ends = append(ends, buf.Len())
		}
		buf.WriteString("tail")
		total := buf.Len()
		for i, v := range vs {
			cur = "decoding " + show(v)
			r := codec.NewAny(nil)
			if err := r.Decode(&buf); err != nil {
				t.Fatalf("%s (value %d of %d): %v", cur, i, len(vs), err)
			}
			if used := total - buf.Len(); used != ends[i] {
				t.Fatalf("%s: consumed up to byte %d of the stream, its encoding ends at %d", cur, used, ends[i])
			}
			got, err := read1(v, r)
			if err != nil {
				t.Fatalf("%s: accessor error %v", cur, err)
			}
			if !same(v, got) {
				t.Fatalf("%s: read back %s", cur, show(got))
			}
		}
	})
	if p != nil {
		t.Fatalf("%s: panic %v", cur, p)
	}
}

func ints() []interface{} {
	var vs []interface{}
	add := func(u uint64) {
		vs = append(vs, int(u), int8(u), int16(u), int32(u), int64(u), uint(u), uint8(u), uint16(u), uint32(u), u)
	}
	for b := uint(0); b < 64; b++ {
		for d := int64(-2); d <= 2; d++ {
			u := uint64(int64(uint64(1)<<b) + d)
			add(u)
			add(-u)
		}
	}
	return vs
}

func TestWitnessC01(t *testing.T) {
	vs := []interface{}{nil, true, false}
	vs = append(vs, ints()...)
	for b := uint(0); b < 64; b++ {
		for d := int64(-1); d <= 1; d++ {
			u := uint64(int64(uint64(1)<<b) + d)
			vs = append(vs, math.Float64frombits(u), math.Float64frombits(^u), math.Float32frombits(uint32(u)), math.Float32frombits(^uint32(u)))
		}
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.Pi, 0.1} {
		vs = append(vs, f, float32(f))
	}
	for _, n := range []int{0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 1 << 20} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*31 + n)
		}
		vs = append(vs, strings.Repeat("\x00", n), string(b))
	}
	for b := 0; b < 256; b++ {
		vs = append(vs, string([]byte{byte(b)}))
	}
	for _, v := range vs {
		stream(t, []interface{}{v})
	}
	stream(t, vs)
	rounds := 200
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 5000
	}
	r := rand.New(rand.NewSource(7))
	for k := 0; k < rounds; k++ {
		var seq []interface{}
		for i := 0; i < 200; i++ {
			u := r.Uint64() >> uint(r.Intn(64))
			switch r.Intn(14) {
			case 0:
				seq = append(seq, int(u))
			case 1:
				seq = append(seq, -int(u))
			case 2:
				seq = append(seq, int8(u))
			case 3:
				seq = append(seq, int16(u))
			case 4:
				seq = append(seq, int32(u))
			case 5:
				seq = append(seq, int64(u))
			case 6:
				seq = append(seq, uint(u))
			case 7:
				seq = append(seq, uint8(u))
			case 8:
				seq = append(seq, uint16(u))
			case 9:
				seq = append(seq, uint32(u))
			case 10:
				seq = append(seq, u)
			case 11:
				seq = append(seq, math.Float64frombits(u))
			case 12:
				seq = append(seq, math.Float32frombits(uint32(u)))
			case 13:
				b := make([]byte, r.Intn(300))
				r.Read(b)
				seq = append(seq, string(b))
			}
		}
		stream(t, seq)
	}
	for i := 0; i < 1<<16; i++ {
		stream(t, []interface{}{int16(i), uint16(i), int8(i), uint8(i)})
	}
}
