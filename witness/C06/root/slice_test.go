package ferry

import (
	"math/rand"
	"testing"
)

func TestWitnessC06Slice(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	s := newSerializer()
	for i := 0; i < 300; i++ {
		body := rnd.Intn(300)
		if i%10 == 0 {
			body = 60000 + rnd.Intn(20000)
		}
		if i == 5 {
			body = 1<<24 + 77
		}
		b := make([]byte, 4+body+rnd.Intn(10))
		for j := 0; j < len(b) && j < 1<<16; j++ {
			b[j] = byte(rnd.Intn(256))
		}
		b[0], b[1], b[2], b[3] = byte(body), byte(body>>8), byte(body>>16), byte(body>>24)
		for k := 0; k < 60; k++ {
			m := rnd.Intn(len(b) + 1)
			switch k {
			case 0, 1, 2, 3, 4:
				m = k
			case 5, 6:
				m = 4 + body - (k - 5)
			case 7:
				m = len(b)
			}
			if m > len(b) {
				continue
			}
			w := 4 + body
			if m < w {
				w = 0
			}
			if n := s.Slice(b[:m]); n != w {
				t.Fatalf("%d bytes of a frame with a body of %d: got %d, want %d", m, body, n, w)
			}
		}
	}
	for i := 0; i < 2000; i++ {
		b := make([]byte, rnd.Intn(12))
		rnd.Read(b)
		if len(b) > 4 && i%2 == 0 {
			b[1], b[2], b[3] = 0, 0, 0
			b[0] %= 8
		}
		n := s.Slice(b)
		for m := 0; m <= len(b); m++ {
			l := s.Slice(b[:m])
			if m >= n && l != n || m < n && l != 0 {
				t.Fatalf("%v: frame of %d bytes, of its first %d bytes: %d", b, n, m, l)
			}
		}
	}
}
