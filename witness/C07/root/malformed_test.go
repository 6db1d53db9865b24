package ferry

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
)

// An independent reader of the wire format: the kinds of value, by their first byte.
type reader07 struct {
	b  []byte
	at int
}

type bad07 struct{}

func (r *reader07) take(n uint64) []byte {
	if uint64(len(r.b)-r.at) < n {
		panic(bad07{})
	}
	x := r.b[r.at : r.at+int(n)]
	r.at += int(n)
	return x
}

func (r *reader07) num(n int) (v uint64) {
	for _, c := range r.take(uint64(n)) {
		v = v<<8 | uint64(c)
	}
	return
}

type uint07 uint64
type int07 int64

// value yields nil, bool, uint07, int07, float64, string, []interface{} or map[interface{}]interface{}.
func (r *reader07) value() interface{} {
	switch c := r.num(1); c {
	case 0xc0:
		return nil
	case 0xc2:
		return false
	case 0xc3:
		return true
	case 0xca, 0xcb:
		u, ok := r.value().(uint07)
		if !ok || c == 0xca && u > math.MaxUint32 {
			panic(bad07{})
		}
		return float64(u)
	case 0xcc, 0xcd, 0xce, 0xcf:
		return uint07(r.num(1 << (c - 0xcc)))
	case 0xd0:
		return int07(int8(r.num(1)))
	case 0xd1:
		return int07(int16(r.num(2)))
	case 0xd2:
		return int07(int32(r.num(4)))
	case 0xd3:
		return int07(r.num(8))
	case 0xdb:
		return string(r.take(r.num(4)))
	case 0xdd:
		a := []interface{}{}
		for n := r.num(4); n > 0; n-- {
			a = append(a, r.value())
		}
		return a
	case 0xdf:
		m := map[interface{}]interface{}{}
		for n := r.num(4); n > 0; n-- {
			k := r.value()
			v := r.value()
			switch k.(type) {
			case []interface{}, map[interface{}]interface{}:
				panic(bad07{})
			}
			m[k] = v
		}
		return m
	}
	panic(bad07{})
}

var fields07 = []string{"t", "", "l", "l", "n", "t", "t", "nttaf", "nttat"}

// expect07: the kind of the message in the frame, or -1 if it is to be rejected.
func expect07(frame []byte) (kind int) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(bad07); !ok {
				panic(e)
			}
			kind = -1
		}
	}()
	if len(frame) < 4 {
		return -1
	}
	n := int(frame[0]) | int(frame[1])<<8 | int(frame[2])<<16 | int(frame[3])<<24
	if len(frame) < 4+n {
		return -1
	}
	r := &reader07{b: frame[4 : 4+n]}
	id, ok := r.value().(uint07)
	if !ok || id > 8 {
		return -1
	}
	for _, f := range fields07[id] {
		v := r.value()
		ok := false
		switch f {
		case 't':
			_, ok = v.(string)
		case 'f':
			_, ok = v.(bool)
		case 'n':
			_, ok = v.(int07)
		case 'a':
			_, ok = v.([]interface{})
		case 'l':
			var l []interface{}
			l, ok = v.([]interface{})
			for _, x := range l {
				if _, text := x.(string); !text {
					ok = false
				}
			}
		}
		if !ok {
			return -1
		}
	}
	return int(id)
}

func put07(n int, v uint64) (b []byte) {
	for n--; n >= 0; n-- {
		b = append(b, byte(v>>(8*uint(n))))
	}
	return
}

func text07(s string) []byte { return append(append([]byte{0xdb}, put07(4, uint64(len(s)))...), s...) }

func any07(rnd *rand.Rand, depth int) []byte {
	switch rnd.Intn(13) {
	case 0:
		return []byte{0xc0}
	case 1:
		return []byte{0xc2 + byte(rnd.Intn(2))}
	case 2:
		return append([]byte{0xca}, any07(rnd, depth)...)
	case 3:
		return append([]byte{0xcb, 0xcf}, put07(8, rnd.Uint64())...)
	case 4, 5, 6:
		w := rnd.Intn(4)
		return append([]byte{0xcc + byte(w)}, put07(1<<uint(w), rnd.Uint64())...)
	case 7, 8:
		w := rnd.Intn(4)
		return append([]byte{0xd0 + byte(w)}, put07(1<<uint(w), rnd.Uint64())...)
	case 9, 10:
		return text07("some text"[:rnd.Intn(10)])
	case 11:
		return list07(rnd, depth, func() []byte { return any07(rnd, depth-1) })
	}
	n := 0
	if depth > 0 {
		n = rnd.Intn(3)
	}
	b := append([]byte{0xdf}, put07(4, uint64(n))...)
	for i := 0; i < 2*n; i++ {
		b = append(b, any07(rnd, depth-1)...)
	}
	return b
}

func list07(rnd *rand.Rand, depth int, item func() []byte) []byte {
	n := 0
	if depth > 0 {
		n = rnd.Intn(4)
	}
	b := append([]byte{0xdd}, put07(4, uint64(n))...)
	for i := 0; i < n; i++ {
		b = append(b, item()...)
	}
	return b
}

func field07(rnd *rand.Rand, f rune) []byte {
	switch f {
	case 't':
		return text07("slot or method"[:rnd.Intn(15)])
	case 'f':
		return []byte{0xc2 + byte(rnd.Intn(2))}
	case 'n':
		w := rnd.Intn(4)
		return append([]byte{0xd0 + byte(w)}, put07(1<<uint(w), rnd.Uint64())...)
	case 'a':
		return list07(rnd, 2, func() []byte { return any07(rnd, 2) })
	}
	return list07(rnd, 1, func() []byte { return text07("name"[:rnd.Intn(5)]) })
}

func message07(rnd *rand.Rand) []byte {
	kind := rnd.Intn(9)
	b := []byte{0xcc, byte(kind)}
	if rnd.Intn(12) == 0 {
		w := 1 + rnd.Intn(3) // the same number, wider
		b = append([]byte{0xcc + byte(w)}, put07(1<<uint(w), uint64(kind))...)
	}
	change := rnd.Intn(4)
	switch {
	case change == 0 && rnd.Intn(3) == 0: // another kind
		w := rnd.Intn(4)
		x := uint64(kind)
		switch rnd.Intn(4) {
		case 0:
			x = 9 + uint64(rnd.Intn(247))
		case 1:
			x += 1 << (8 * uint(1+rnd.Intn(7)))
		case 2:
			x = rnd.Uint64()
		}
		b = append([]byte{0xcc + byte(w)}, put07(1<<uint(w), x)...)
	case change == 0 && rnd.Intn(3) == 0:
		b = any07(rnd, 1)
	}
	fields := fields07[kind]
	wrong := -1
	if change == 1 && len(fields) > 0 {
		wrong = rnd.Intn(len(fields))
	}
	for i, f := range fields {
		if i == wrong {
			if rnd.Intn(3) == 0 {
				continue // missing
			}
			if f == 'l' && rnd.Intn(2) == 0 {
				b = append(b, list07(rnd, 2, func() []byte { return any07(rnd, 1) })...)
				continue
			}
			b = append(b, any07(rnd, 1)...)
			continue
		}
		b = append(b, field07(rnd, f)...)
	}
	return b
}

func frame07(n int, b []byte) []byte {
	return append([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, b...)
}

func try07(frame []byte) (obj interface{}, p interface{}) {
	defer func() { p = recover() }()
	return newSerializer().Unmarshal(frame), nil
}

func TestWitnessC07Malformed(t *testing.T) {
	rnd := rand.New(rand.NewSource(7))
	made := 0
	for i := 0; i < 120000; i++ {
		b := message07(rnd)
		n := len(b)
		switch rnd.Intn(6) {
		case 0: // the end is missing
			b = b[:rnd.Intn(len(b)+1)]
			n = len(b)
		case 1: // a byte is changed
			b[rnd.Intn(len(b))] = byte(rnd.Intn(256))
		case 2: // announced length and length differ
			if rnd.Intn(2) == 0 {
				n += 1 + rnd.Intn(5)
			} else {
				n = rnd.Intn(n + 1)
			}
		}
		frame := frame07(n, b)
		if rnd.Intn(200) == 0 {
			frame = frame[:rnd.Intn(5)]
		}
		fmt.Print("") // keeps the last line of output complete if the process ends here
		want := expect07(frame)
		obj, p := try07(append([]byte(nil), frame...))
		if p != nil {
			t.Fatalf("frame % x: panic: %v", frame, p)
		}
		if obj == nil {
			if want >= 0 && wellFormed07(frame, want) {
				t.Fatalf("frame % x of kind %d is rejected", frame, want)
			}
			continue
		}
		pack, ok := obj.(*packer)
		if want < 0 {
			if ok && pack != nil {
				t.Fatalf("malformed frame % x is accepted as kind %d: %#v", frame, pack.Id, pack.P)
			}
			t.Fatalf("malformed frame % x is accepted: %#v", frame, obj)
		}
		made++
		if !ok || pack == nil || int(pack.Id) != want || pack.P == nil {
			t.Fatalf("frame % x of kind %d makes %#v", frame, want, obj)
		}
		name := fmt.Sprintf("%T", pack.P)
		if name != fmt.Sprintf("%T", protoMaker(cProtoType(want))) {
			t.Fatalf("frame % x of kind %d makes a %s", frame, want, name)
		}
	}
	if made < 1000 {
		t.Fatalf("only %d messages made", made)
	}
}

// wellFormed07: the frame has no bytes beyond its message, so that it is one a peer would make.
func wellFormed07(frame []byte, kind int) bool {
	n := int(frame[0]) | int(frame[1])<<8 | int(frame[2])<<16 | int(frame[3])<<24
	r := &reader07{b: frame[4 : 4+n]}
	for i := 0; i <= len(fields07[kind]); i++ {
		r.value()
	}
	return r.at == len(r.b) && n+4 == len(frame)
}
