package network

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"
)

// sConn holds every write until the test lets it go.
type sConn struct {
	net.Conn
	mu   sync.Mutex
	data []byte
	gate chan error // one value per write
	stop chan bool
}

func (c *sConn) Read(b []byte) (int, error) { <-c.stop; return 0, errors.New("closed") }
func (c *sConn) Close() error               { return nil }
func (c *sConn) Write(b []byte) (int, error) {
	err := <-c.gate
	c.mu.Lock()
	defer c.mu.Unlock()
	if err != nil {
		c.data = append(c.data, b[:len(b)/2]...)
		return len(b) / 2, err
	}
	c.data = append(c.data, b...)
	return len(b), nil
}

type sSerializer struct {
	mu    sync.Mutex
	calls map[int]int
}

func (s *sSerializer) Marshal(obj interface{}) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls[obj.(int)]++
	return []byte(fmt.Sprintf("<%d>", obj.(int)))
}
func (s *sSerializer) Unmarshal(data []byte) interface{} { return nil }
func (s *sSerializer) Slice(source []byte) int           { return 0 }

type sSink struct{}

func (s *sSink) OnConnected(p IPeer)               {}
func (s *sSink) OnClosed(p IPeer)                  {}
func (s *sSink) OnPacket(p IPeer, obj interface{}) {}

func soon(t *testing.T, what string, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal(what + " blocks")
	}
}

// One sender and a writer that is let go at random: what is written is what was accepted, in order.
func TestWitnessC08Order(t *testing.T) {
	for seed := int64(1); seed <= 20; seed++ {
		rnd := rand.New(rand.NewSource(seed))
		c := &sConn{gate: make(chan error), stop: make(chan bool)}
		s := &sSerializer{calls: map[int]int{}}
		p := newPeer(c, s, &sSink{}, false)
		p.run()
		next, accepted := 1, []int{}
		left := 0
		settle := func() { // one packet is being written, the others are queued
			want := len(accepted) - left - 1
			if want < 0 {
				want = 0
			}
			for d := time.Now().Add(5 * time.Second); len(p.sendPackets) != want; time.Sleep(20 * time.Microsecond) {
				if time.Now().After(d) {
					t.Fatalf("seed %d: %d packets queued, want %d", seed, len(p.sendPackets), want)
				}
			}
		}
		for step := 0; step < 60; step++ {
			burst := rnd.Intn(12)
			if rnd.Intn(4) == 0 {
				burst = 40
			}
			for i := 0; i < burst; i++ {
				before := len(p.sendPackets)
				n := next
				if rnd.Intn(3) > 0 {
					next++ // otherwise the same packet is sent again
				}
				soon(t, "Send", func() { p.Send(n) })
				after := len(p.sendPackets)
				if before < cap(p.sendPackets) {
					accepted = append(accepted, n)
				} else if after > before {
					t.Fatal("more packets queued than fit")
				}
				settle()
			}
			for i := rnd.Intn(25); i > 0 && left < len(accepted); i-- {
				c.gate <- nil
				left++
				settle()
			}
		}
		for ; left < len(accepted); left++ {
			select {
			case c.gate <- nil:
			case <-time.After(2 * time.Second):
				t.Fatalf("seed %d: %d packets written of %d accepted", seed, left, len(accepted))
			}
		}
		select {
		case c.gate <- nil:
			t.Fatalf("seed %d: more written than accepted", seed)
		case <-time.After(20 * time.Millisecond):
		}
		want := ""
		for _, n := range accepted {
			want += fmt.Sprintf("<%d>", n)
			s.calls[n]--
		}
		for n, k := range s.calls {
			if k != 0 {
				t.Fatalf("seed %d: packet %d serialised %d times too often", seed, n, k)
			}
		}
		c.mu.Lock()
		if string(c.data) != want {
			t.Fatalf("seed %d: written %q, accepted %q", seed, c.data, want)
		}
		c.mu.Unlock()
		soon(t, "close", p.close)
	}
}

// Many senders on a stalled connection: none blocks, what is queued stays.
func TestWitnessC08Full(t *testing.T) {
	for round := 0; round < 30; round++ {
		c := &sConn{gate: make(chan error), stop: make(chan bool)}
		s := &sSerializer{calls: map[int]int{}}
		p := newPeer(c, s, &sSink{}, false)
		p.run()
		var wg sync.WaitGroup
		const senders, each = 8, 30
		for i := 0; i < senders; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := 0; k < each; k++ {
					p.Send(i*each + k)
				}
			}(i)
		}
		soon(t, "Send", wg.Wait)
		soon(t, "Send", func() { p.Send(1 << 20) })
		if len(p.sendPackets) != cap(p.sendPackets) {
			t.Fatalf("%d packets queued, there is place for %d", len(p.sendPackets), cap(p.sendPackets))
		}
		for n := cap(p.sendPackets) + 1; n > 0; n-- {
			select {
			case c.gate <- nil:
			case <-time.After(2 * time.Second):
				t.Fatal("accepted packets are not written")
			}
		}
		select {
		case c.gate <- nil:
			t.Fatal("more written than accepted")
		case <-time.After(5 * time.Millisecond):
		}
		c.mu.Lock()
		seen, last := map[int]bool{}, map[int]int{}
		var n int
		for _, part := range splitPackets(string(c.data)) {
			if _, err := fmt.Sscanf(part, "%d", &n); err != nil {
				t.Fatalf("garbage %q", part)
			}
			if seen[n] {
				t.Fatalf("packet %d written twice", n)
			}
			if l, ok := last[n/each]; ok && l > n {
				t.Fatalf("packets %d and %d in the wrong order", l, n)
			}
			seen[n], last[n/each] = true, n
		}
		c.mu.Unlock()
	}
}

func splitPackets(s string) []string {
	var out []string
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != '>' {
			i++
		}
		out = append(out, s[1:i])
		s = s[i+1:]
	}
	return out
}

type wErr struct{ temporary bool }

func (e wErr) Error() string   { return "lost" }
func (e wErr) Timeout() bool   { return e.temporary }
func (e wErr) Temporary() bool { return e.temporary }

// After a failed write nothing more is written.
func TestWitnessC08Failure(t *testing.T) {
	for i, fail := range []error{errors.New("lost"), wErr{true}, wErr{false}, io.ErrShortWrite, io.EOF, &net.OpError{Err: wErr{true}}} {
		c := &sConn{gate: make(chan error), stop: make(chan bool)}
		p := newPeer(c, &sSerializer{calls: map[int]int{}}, &sSink{}, false)
		p.run()
		p.Send(1)
		p.Send(2)
		p.Send(3)
		c.gate <- nil
		c.gate <- fail
		select {
		case c.gate <- nil:
			t.Fatalf("error %d: written after a failed write", i)
		case <-time.After(20 * time.Millisecond):
		}
		if string(c.data) != "<1><" {
			t.Fatalf("written %q", c.data)
		}
		soon(t, "close", p.close)
	}
}

// A socket sends to each of its connections once.
func TestWitnessC08Broadcast(t *testing.T) {
	for n := 0; n < 5; n++ {
		s := NewSocket("x", "txt", &sSink{}).(*socket)
		for i := 0; i < n; i++ {
			s.peers = append(s.peers, newPeer(&sConn{}, &sSerializer{}, &sSink{}, false))
		}
		s.Send(7)
		for i, p := range s.peers {
			if len(p.sendPackets) != 1 || <-p.sendPackets != interface{}(7) {
				t.Fatalf("connection %d of %d did not get the packet once", i, n)
			}
		}
	}
}
