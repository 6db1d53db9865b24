package ferry

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"sync"
	"testing"
	"time"
)

type w9addr string

func (a w9addr) Network() string { return "tcp" }
func (a w9addr) String() string  { return string(a) }

type w9peer struct {
	mu     sync.Mutex
	remote string
	sent   []interface{}
}

func (p *w9peer) IsSelf() bool         { return false }
func (p *w9peer) LocalAddr() net.Addr  { return w9addr("127.0.0.1:9999") }
func (p *w9peer) RemoteAddr() net.Addr { return w9addr(p.remote) }
func (p *w9peer) Send(obj interface{}) {
	p.mu.Lock()
	p.sent = append(p.sent, obj)
	p.mu.Unlock()
}
func (p *w9peer) port(t *testing.T) int {
	for i := 0; i < 200; i++ {
		p.mu.Lock()
		for _, o := range p.sent {
			if r, ok := o.(*packer).P.(*protoRegisterResponse); ok {
				p.mu.Unlock()
				return r.Port
			}
		}
		p.mu.Unlock()
		time.Sleep(time.Millisecond)
	}
	t.Fatal("no answer to a registration")
	return 0
}
func (p *w9peer) answer(t *testing.T) string {
	for i := 0; i < 1000; i++ {
		p.mu.Lock()
		for _, o := range p.sent {
			if r, ok := o.(*packer).P.(*protoQueryResponse); ok {
				p.mu.Unlock()
				return r.DockAddr
			}
		}
		p.mu.Unlock()
		time.Sleep(time.Millisecond)
	}
	t.Fatal("no answer to a query")
	return ""
}

func TestWitnessC09ports(t *testing.T) {
	hosts := []string{"10.0.0.1", "10.0.0.11", "[::1]", "[fe80::1%eth0]", "[fe80::2]", "localhost", "127.0.0.1"}
	blacks := [][]int{nil, {20001}, {20001, 20002, 20003, 20010, 20009}, {20000, 0, -1, 49000, 20005}}
	for _, black := range blacks {
		h := newHub()
		for _, b := range black {
			h.blackPorts[b] = true
		}
		used := map[string]map[int]bool{}
		n := 0
		for round := 0; round < 40; round++ {
			for i, host := range hosts {
				if round%(i+1) != 0 {
					continue
				}
				n++
				p := &w9peer{remote: fmt.Sprintf("%s:%d", host, 50000+n%1000)}
				f := fmt.Sprintf("f%d", n)
				h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{f, "all"}}})
				port := p.port(t)
				if used[host] == nil {
					used[host] = map[int]bool{}
				}
				if port <= 20000 || port > 49000 || used[host][port] || h.blackPorts[port] {
					t.Fatalf("port %d for %s (blacklist %v, used %v)", port, host, black, used[host])
				}
				// hosts don't disturb each other: ports are handed out densely
				if port > 20001+len(used[host])+len(black) {
					t.Fatalf("port %d for %s after %d registrations", port, host, len(used[host]))
				}
				used[host][port] = true
				h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{f, "all"}}})
				for _, name := range []string{f, "all"} {
					q := &w9peer{remote: "10.9.9.9:1"}
					h.OnPacket(q, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: name}})
					if a := q.answer(t); a != fmt.Sprintf("%s:%d", host, port) {
						t.Fatalf("feature announced at %s instead of %s:%d", a, host, port)
					}
				}
			}
		}
	}
}

func TestWitnessC09range(t *testing.T) {
	h := newHub()
	h.blackPorts[48999] = true
	h.blackPorts[30000] = true
	last := 20000
	for i := 0; i < 28998; i++ {
		port := h.allocate("a")
		if port <= last || port > 49000 || h.blackPorts[port] {
			t.Fatalf("port %d after %d", port, last)
		}
		last = port
	}
	// No port is left: the process may end, it must not assign one.
	if os.Getenv("WITNESS_C09_NEXT") != "" {
		h.allocate("a")
		os.Exit(77)
	}
	c := exec.Command(os.Args[0], "-test.run=^TestWitnessC09range$")
	c.Env = append(os.Environ(), "WITNESS_C09_NEXT=1")
	if e, ok := c.Run().(*exec.ExitError); ok && e.ExitCode() == 77 {
		t.Fatalf("a port is assigned after all ports of the range have been")
	}
	if p := h.allocate("b"); p != 20001 {
		t.Fatalf("port %d for another host", p)
	}
}

func TestWitnessC09concurrent(t *testing.T) {
	h := newHub()
	var wg sync.WaitGroup
	var mu sync.Mutex
	used := map[int]bool{}
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				p := h.allocate("10.0.0.1")
				mu.Lock()
				if used[p] {
					t.Errorf("port %d assigned twice", p)
				}
				used[p] = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
