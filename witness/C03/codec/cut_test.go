package codec_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/muguangyi/ferry/codec"
)

// splitter hands out its bytes in pieces, possibly with the end announced together with the last ones.
type splitter struct {
	b     []byte
	sizes func(i int) int
	early bool
	i     int
}

func (s *splitter) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := s.sizes(s.i)
	s.i++
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.early && len(s.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type failing struct {
	r   io.Reader
	err error
}

func (f *failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

func dec03(r io.Reader) (v interface{}, err error, p interface{}) {
	defer func() { p = recover() }()
	a := codec.NewAny(nil)
	err = a.Decode(r)
	return a.Any(), err, nil
}

// eq03: deep equality that takes NaN for equal to itself
func eq03(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eq03(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[interface{}]interface{}:
		y, ok := b.(map[interface{}]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			if k != k {
				continue
			}
			w, in := y[k]
			if !in || !eq03(v, w) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func readers03(b []byte, rnd *rand.Rand) map[string]io.Reader {
	seed := rnd.Int63()
	return map[string]io.Reader{
		"byte by byte":           &splitter{b: b, sizes: func(int) int { return 1 }},
		"byte by byte, end told": &splitter{b: b, sizes: func(int) int { return 1 }, early: true},
		"pieces of 3":            &splitter{b: b, sizes: func(int) int { return 3 }},
		"two then rest":          &splitter{b: b, sizes: func(i int) int { return 2 + i*1000 }, early: true},
		"random pieces":          &splitter{b: b, sizes: rand2(seed)},
		"all, end told":          &splitter{b: b, sizes: func(int) int { return 1 << 30 }, early: true},
		"strings.Reader":         strings.NewReader(string(b)),
		"bytes.Buffer":           bytes.NewBuffer(append([]byte{}, b...)),
		"failing at the end":     &failing{bytes.NewReader(b), errors.New("broken")},
	}
}
func rand2(seed int64) func(int) int {
	r := rand.New(rand.NewSource(seed))
	return func(int) int { return 1 + r.Intn(7) }
}

func hex03(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("% x ... (%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("% x", b)
}

// check03 holds b against the property; whole says b is the encoding of exactly one value.
func check03(t *testing.T, b []byte, whole bool, rnd *rand.Rand) {
	t.Helper()
	rd := bytes.NewReader(b)
	v, err, p := dec03(rd)
	if p != nil {
		t.Fatalf("decoding % s panicked: %v", hex03(b), p)
	}
	used := len(b) - rd.Len()
	for name, r := range readers03(b, rnd) {
		v2, err2, p := dec03(r)
		if p != nil {
			t.Fatalf("decoding %s (%s) panicked: %v", hex03(b), name, p)
		}
		if (err == nil) != (err2 == nil) || err == nil && !eq03(v, v2) {
			t.Fatalf("decoding %s depends on how it is read: %v, %v at once, %v, %v %s", hex03(b), v, err, v2, err2, name)
		}
	}
	if whole && err != nil {
		t.Fatalf("decoding %s failed: %v", hex03(b), err)
	}
	if err != nil {
		return
	}
	step := 1
	if used > 300 {
		step = used / 97
	}
	for n := 0; n < used; n += step {
		v2, err2, p := dec03(bytes.NewReader(b[:n]))
		if p != nil {
			t.Fatalf("decoding %s cut off after %d bytes panicked: %v", hex03(b), n, p)
		}
		if err2 == nil {
			t.Fatalf("decoding %s cut off after %d bytes of %d gave %v instead of an error (whole: %v)", hex03(b), n, used, v2, v)
		}
		for name, r := range readers03(b[:n], rnd) {
			if v2, err2, p := dec03(r); p != nil || err2 == nil {
				t.Fatalf("decoding %s cut off after %d bytes of %d (%s) gave %v instead of an error (panic: %v)", hex03(b), n, used, name, v2, p)
			}
		}
	}
	// what follows must not matter
	v3, err3, p := dec03(bytes.NewReader(append(append([]byte{}, b[:used]...), 0xdd, 1, 2, 3)))
	if p != nil || err3 != nil || !eq03(v, v3) {
		t.Fatalf("decoding %s with other bytes behind gave %v, %v instead of %v (panic: %v)", hex03(b), v3, err3, v, p)
	}
}

func random03(r *rand.Rand, depth int) interface{} {
	n := 14
	if depth <= 0 {
		n = 12
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return int8(r.Int())
	case 3:
		return int16(r.Int())
	case 4:
		return int32(r.Int())
	case 5:
		return r.Int63() >> uint(r.Intn(63))
	case 6:
		return uint8(r.Int())
	case 7:
		return uint16(r.Int())
	case 8:
		return uint32(r.Int())
	case 9:
		return r.Uint64() >> uint(r.Intn(64))
	case 10:
		if r.Intn(2) == 0 {
			return float32(r.NormFloat64())
		}
		return math.Float64frombits(r.Uint64() >> uint(r.Intn(64)))
	case 11:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	case 12:
		a := make([]interface{}, r.Intn(5))
		for i := range a {
			a[i] = random03(r, depth-1)
		}
		return a
	}
	m := map[interface{}]interface{}{}
	for i := r.Intn(5); i > 0; i-- {
		if r.Intn(2) == 0 {
			m[fmt.Sprint("k", r.Intn(100))] = random03(r, depth-1)
		} else {
			m[r.Int63()>>uint(r.Intn(63))] = random03(r, depth-1)
		}
	}
	return m
}

func TestWitnessC03Values(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	vs := []interface{}{nil, true, false, "", "a", strings.Repeat("x", 70000), strings.Repeat("é", 300), []interface{}{}, map[interface{}]interface{}{},
		uint8(255), uint16(256), uint32(65536), uint64(1) << 32, int8(-128), int16(-129), int32(-32769), int64(math.MinInt64), float32(0), 1e300,
		[]interface{}{nil, nil, nil}, []interface{}{"", "", []interface{}{}}, map[interface{}]interface{}{"": nil}, make([]interface{}, 1000)}
	for i := 0; i < 400; i++ {
		vs = append(vs, random03(r, 3))
	}
	for _, v := range vs {
		var b bytes.Buffer
		if err := codec.NewAny(v).Encode(&b); err != nil {
			t.Fatalf("encoding %v: %v", v, err)
		}
		check03(t, b.Bytes(), true, r)
	}
}

func be(n uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, n)
	return b
}

func TestWitnessC03Bytes(t *testing.T) {
	r := rand.New(rand.NewSource(4))
	codes := []byte{0xc0, 0xc2, 0xc3, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xdb, 0xdd, 0xdf}
	check03(t, nil, false, r)
	for c := 0; c < 256; c++ {
		check03(t, []byte{byte(c)}, false, r)
		for d := 0; d < 256; d++ {
			check03(t, []byte{byte(c), byte(d), 1, 0, 2, 0, 1, 0, 0, 0, 1, 0}, false, r)
		}
		for _, n := range []uint32{0, 1, 2, 3, 1 << 31, math.MaxUint32} {
			for _, d := range codes {
				b := append(append([]byte{byte(c)}, be(n)...), d, 0, 0, 0, 1, 0xc0, 0xc0, 0xdd, 0, 0, 0, 0, 0xc3, 0xdf, 0, 0, 0, 0)
				check03(t, b, false, r)
			}
		}
		for _, d := range codes {
			check03(t, append([]byte{byte(c), d}, 255, 255, 255, 255, 255, 255, 255, 255, 0xc0), false, r)
		}
	}
	for i := 0; i < 6000; i++ {
		b := make([]byte, r.Intn(40))
		for j := range b {
			switch r.Intn(3) {
			case 0:
				b[j] = codes[r.Intn(len(codes))]
			case 1:
				b[j] = byte(r.Intn(4))
			default:
				b[j] = byte(r.Int())
			}
		}
		check03(t, b, false, r)
	}
	// well formed bytes with one byte changed
	for i := 0; i < 600; i++ {
		var buf bytes.Buffer
		codec.NewAny(random03(r, 3)).Encode(&buf)
		b := buf.Bytes()
		b[r.Intn(len(b))] = codes[r.Intn(len(codes))]
		check03(t, b, false, r)
	}
}

// A reader's error in the middle is an error, whatever had been read.
func TestWitnessC03Failing(t *testing.T) {
	r := rand.New(rand.NewSource(5))
	for i := 0; i < 200; i++ {
		var buf bytes.Buffer
		v := random03(r, 3)
		codec.NewAny(v).Encode(&buf)
		for n := 0; n < buf.Len(); n++ {
			_, err, p := dec03(&failing{bytes.NewReader(buf.Bytes()[:n]), errors.New("broken")})
			if p != nil || err == nil {
				t.Fatalf("decoding %v from a reader failing after %d bytes of %d: error %v, panic %v", v, n, buf.Len(), err, p)
			}
		}
	}
}
