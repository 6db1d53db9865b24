package network

import (
	"io"
	"math/rand"
	"net"
	"testing"
	"time"
)

type conn07 struct {
	net.Conn
	stream []byte
	pos    int
	limit  int // bytes made available so far
	more   chan int
	idle   chan bool
	rnd    *rand.Rand
	full   bool   // every read fills the buffer
	check  func() // before every read
}

func (c *conn07) Read(b []byte) (int, error) {
	c.check()
	for c.pos == c.limit {
		c.idle <- true
		n, ok := <-c.more
		if !ok {
			return 0, io.EOF
		}
		c.limit += n
	}
	n := c.limit - c.pos
	if n > len(b) {
		n = len(b)
	}
	if !c.full && n > 1 && c.rnd.Intn(2) == 0 {
		n = 1 + c.rnd.Intn(n)
	}
	for i := n; i < len(b); i++ { // a reader may use the rest as scratch space
		b[i] = byte(c.rnd.Intn(256))
	}
	copy(b, c.stream[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}
func (c *conn07) Write(b []byte) (int, error) { return len(b), nil }
func (c *conn07) Close() error                { return nil }

// ser07: 3 byte length, then the body; bodies that begin with 'X' are malformed
type ser07 struct{}

func (s *ser07) Marshal(obj interface{}) []byte { return obj.([]byte) }
func (s *ser07) Unmarshal(data []byte) interface{} {
	if len(data) > 3 && data[3] == 'X' {
		return nil
	}
	return data
}
func (s *ser07) Slice(b []byte) int {
	if len(b) < 3 {
		return 0
	}
	n := 3 + int(b[0]) + int(b[1])<<8 + int(b[2])<<16
	if len(b) < n {
		return 0
	}
	return n
}

type sink07 struct {
	got []string
	bad bool
}

func (s *sink07) OnConnected(p IPeer) {}
func (s *sink07) OnClosed(p IPeer)    {}
func (s *sink07) OnPacket(p IPeer, obj interface{}) {
	b, ok := obj.([]byte)
	if !ok {
		s.bad = true
		return
	}
	s.got = append(s.got, string(b))
}

func TestWitnessC07Dropped(t *testing.T) {
	for seed := int64(1); seed <= 60; seed++ {
		rnd := rand.New(rand.NewSource(seed))
		var stream []byte
		var want []string
		for i := 0; i < 40; i++ {
			n := 1 + rnd.Intn(30)
			if rnd.Intn(6) == 0 {
				n = 9000 + rnd.Intn(9000)
			}
			f := []byte{byte(n), byte(n >> 8), byte(n >> 16)}
			for j := 0; j < n; j++ {
				f = append(f, 'a'+byte(rnd.Intn(20)))
			}
			if rnd.Intn(3) == 0 || seed%5 == 0 && i%2 == 0 {
				f[3] = 'X'
			} else {
				want = append(want, string(f))
			}
			stream = append(stream, f...)
		}
		c := &conn07{stream: stream, more: make(chan int), idle: make(chan bool), rnd: rnd, full: seed%2 == 0, check: func() {}}
		s := &sink07{}
		newPeer(c, &ser07{}, s, seed%4 > 1).run()
		wait := func() {
			select {
			case <-c.idle:
			case <-time.After(10 * time.Second):
				t.Fatalf("seed %d: the receiver stopped reading after a malformed packet", seed)
			}
		}
		wait()
		for c.limit < len(stream) {
			n := 1 + rnd.Intn(6000)
			if n > len(stream)-c.limit {
				n = len(stream) - c.limit
			}
			c.more <- n
			wait()
		}
		if s.bad {
			t.Fatalf("seed %d: a rejected packet was handed over", seed)
		}
		if len(s.got) != len(want) {
			t.Fatalf("seed %d: %d packets handed over, want %d", seed, len(s.got), len(want))
		}
		for i := range want {
			if s.got[i] != want[i] {
				t.Fatalf("seed %d: packet %d differs", seed, i)
			}
		}
		close(c.more)
	}
}
