package network

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"testing"
	"time"
)

type wConn struct {
	net.Conn
	stream []byte
	pos    int
	limit  int // bytes made available so far
	more   chan int
	idle   chan bool
	rnd    *rand.Rand
	full   bool   // every read fills the buffer
	check  func() // before every read
}

func (c *wConn) Read(b []byte) (int, error) {
	c.check()
	for c.pos == c.limit {
		c.idle <- true
		n, ok := <-c.more
		if !ok {
			return 0, io.EOF
		}
		c.limit += n
	}
	n := c.limit - c.pos
	if n > len(b) {
		n = len(b)
	}
	if !c.full && n > 1 && c.rnd.Intn(2) == 0 {
		n = 1 + c.rnd.Intn(n)
	}
	for i := n; i < len(b); i++ { // a reader may use the rest as scratch space
		b[i] = byte(c.rnd.Intn(256))
	}
	copy(b, c.stream[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}
func (c *wConn) Write(b []byte) (int, error) { return len(b), nil }
func (c *wConn) Close() error                { return nil }

// lenSerializer: 3 byte length, then the body; bodies that begin with 'X' are malformed
type lenSerializer struct{}

func (s *lenSerializer) Marshal(obj interface{}) []byte { return obj.([]byte) }
func (s *lenSerializer) Unmarshal(data []byte) interface{} {
	if len(data) > 3 && data[3] == 'X' {
		return nil
	}
	return data
}
func (s *lenSerializer) Slice(b []byte) int {
	if len(b) < 3 {
		return 0
	}
	n := 3 + int(b[0]) + int(b[1])<<8 + int(b[2])<<16
	if len(b) < n {
		return 0
	}
	return n
}

type wSink struct{ got []interface{} }

func (s *wSink) OnConnected(p IPeer)               {}
func (s *wSink) OnClosed(p IPeer)                  {}
func (s *wSink) OnPacket(p IPeer, obj interface{}) { s.got = append(s.got, obj) }

func TestWitnessC06Receive(t *testing.T) {
	for seed := int64(1); seed <= 40; seed++ {
		rnd := rand.New(rand.NewSource(seed))
		txt := seed%2 == 0
		var stream []byte
		var frames [][]byte // frames that are handed over
		var ends []int      // where they end
		for i := 0; i < 30; i++ {
			n := rnd.Intn(40)
			switch rnd.Intn(8) {
			case 0:
				n = 0
			case 1:
				n = 10000 + rnd.Intn(30000)
			case 2:
				n = 10*1024 - 6 + rnd.Intn(8)
			case 3, 4: // ends where a buffer is full
				n = (2*10*1024 - 3 - len(stream)%(10*1024)) % (10 * 1024)
				if txt {
					n = (2*10*1024 - 1 - len(stream)%(10*1024)) % (10 * 1024)
				}
			}
			var f []byte
			if txt {
				for j := 0; j < n; j++ {
					f = append(f, byte(1+rnd.Intn(255)))
				}
				f = append(f, 0)
			} else {
				f = append(f, byte(n), byte(n>>8), byte(n>>16))
				for j := 0; j < n; j++ {
					f = append(f, byte(rnd.Intn(256)))
				}
				if n > 0 && rnd.Intn(4) == 0 {
					f[3] = 'X'
				}
			}
			stream = append(stream, f...)
			if !txt && n > 0 && f[3] == 'X' {
				continue
			}
			frames = append(frames, f)
			ends = append(ends, len(stream))
		}
		c := &wConn{stream: stream, more: make(chan int), idle: make(chan bool), rnd: rnd, full: seed%4 > 1}
		sink := &wSink{}
		c.check = func() {
			want := 0
			for want < len(ends) && ends[want] <= c.pos {
				want++
			}
			if len(sink.got) != want {
				t.Errorf("seed %d: %d bytes arrived, %d packets handed over, want %d", seed, c.pos, len(sink.got), want)
			}
		}
		var ser ISerializer = &lenSerializer{}
		if txt {
			ser = new(txtSerializer)
		}
		newPeer(c, ser, sink, false).run()
		wait := func() {
			select {
			case <-c.idle:
			case <-time.After(10 * time.Second):
				t.Fatalf("seed %d: the receiver stopped reading", seed)
			}
		}
		wait()
		for c.limit < len(stream) {
			n := 1 + rnd.Intn(20)
			switch rnd.Intn(6) {
			case 0:
				n = 1 + rnd.Intn(50000)
			case 1: // up to, or all but one byte of, the end of a packet
				for _, e := range ends {
					if e > c.limit+1 {
						n = e - c.limit - rnd.Intn(2)
						break
					}
				}
			}
			if c.full {
				n = len(stream)
			}
			if n > len(stream)-c.limit {
				n = len(stream) - c.limit
			}
			c.more <- n
			wait()
			if t.Failed() {
				return
			}
			want := 0
			for want < len(ends) && ends[want] <= c.limit {
				want++
			}
			if len(sink.got) != want {
				t.Fatalf("seed %d: %d bytes arrived, %d packets handed over, want %d", seed, c.limit, len(sink.got), want)
			}
			for i := want - 1; i >= 0 && i >= want-40; i-- {
				if fmt.Sprint(sink.got[i]) != fmt.Sprint(unm(ser, frames[i])) {
					t.Fatalf("seed %d: packet %d is modified", seed, i)
				}
			}
		}
		close(c.more)
	}
}

func unm(s ISerializer, f []byte) interface{} { return s.Unmarshal(append([]byte(nil), f...)) }

func TestWitnessC06Txt(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	s := new(txtSerializer)
	for i := 0; i < 3000; i++ {
		b := make([]byte, rnd.Intn(30))
		for j := range b {
			b[j] = byte(rnd.Intn(6))
		}
		want := 0
		for j := range b {
			if b[j] == 0 {
				want = j + 1
				break
			}
		}
		for m := 0; m <= len(b); m++ {
			w := want
			if m < want {
				w = 0
			}
			if n := s.Slice(b[:m]); n != w {
				t.Fatalf("%v: frame of %d bytes, want %d", b[:m], n, w)
			}
		}
	}
}
