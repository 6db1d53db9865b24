package ferry

import (
	"container/list"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"
)

type w10addr string

func (a w10addr) Network() string { return "tcp" }
func (a w10addr) String() string  { return string(a) }

type w10peer struct {
	mu     sync.Mutex
	remote string
	sent   []interface{}
}

func (p *w10peer) IsSelf() bool         { return false }
func (p *w10peer) LocalAddr() net.Addr  { return w10addr("127.0.0.1:9999") }
func (p *w10peer) RemoteAddr() net.Addr { return w10addr(p.remote) }
func (p *w10peer) Send(obj interface{}) {
	p.mu.Lock()
	p.sent = append(p.sent, obj)
	p.mu.Unlock()
}
func (p *w10peer) answers() (addrs []string, ports int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, o := range p.sent {
		switch r := o.(*packer).P.(type) {
		case *protoQueryResponse:
			addrs = append(addrs, r.DockAddr)
		case *protoRegisterResponse:
			ports = r.Port
		}
	}
	return
}

func w10wait(c func() bool) bool {
	for i := 0; i < 3000; i++ {
		if c() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

type w10prov struct {
	p     *w10peer
	addr  string
	ready bool
}

// TestWitnessC10Histories compares the hub with a model over random histories of registrations, readiness reports and
// queries.
func TestWitnessC10Histories(t *testing.T) {
	for seed := int64(0); seed < 150; seed++ {
		r := rand.New(rand.NewSource(seed))
		h := newHub()
		h.docks, h.assignPorts, h.blackPorts = map[string]*list.List{}, map[string]int{}, map[int]bool{}
		model := map[string][]*w10prov{}
		feature := func() string { return fmt.Sprintf("f%d", r.Intn(5)) }
		var peers []*w10peer
		var hist []string
		wait := map[*w10peer]string{} // queries without a ready provider yet
		pending := map[string]int{}
		names := func() []string {
			seen := map[string]bool{}
			var s []string
			for n := r.Intn(4); n > 0; n-- {
				f := feature()
				if !seen[f] {
					seen[f] = true
					s = append(s, f)
				}
			}
			return s
		}
		newest := func(f string) string {
			for i := len(model[f]) - 1; i >= 0; i-- {
				if model[f][i].ready {
					return model[f][i].addr
				}
			}
			return ""
		}
		check := func() {
			for f, m := range model {
				l := h.docks[f]
				if l == nil || l.Len() != len(m) {
					t.Fatalf("seed %d, %v: feature %s has not %d providers", seed, hist, f, len(m))
				}
				i := 0
				for e := l.Front(); e != nil; e = e.Next() {
					s := e.Value.(*stub)
					if s.peer != m[i].p || s.ready != m[i].ready || s.addr != m[i].addr {
						t.Fatalf("seed %d, %v: provider %d of %s is %v %v %v, want %v", seed, hist, i, f, s.peer, s.ready, s.addr, m[i])
					}
					i++
				}
			}
			for f, l := range h.docks {
				if l.Len() != len(model[f]) {
					t.Fatalf("seed %d, %v: feature %s has %d providers", seed, hist, f, l.Len())
				}
			}
		}
		for op := 0; op < 30; op++ {
			switch k := r.Intn(4); {
			case k == 0 || len(peers) == 0:
				p := &w10peer{remote: fmt.Sprintf("10.0.0.%d:%d", r.Intn(3), 1000+op)}
				if len(peers) > 0 && r.Intn(3) == 0 {
					p = peers[r.Intn(len(peers))]
				}
				peers = append(peers, p)
				fs := names()
				hist = append(hist, fmt.Sprintf("register %s %v", p.remote, fs))
				h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: fs}})
				port := 0
				w10wait(func() bool { _, port = p.answers(); return port != 0 })
				ip, _, _ := net.SplitHostPort(p.remote)
				for _, f := range fs {
					model[f] = append(model[f], &w10prov{p: p, addr: fmt.Sprintf("%s:%d", ip, port)})
				}
			case k == 1:
				p := peers[r.Intn(len(peers))]
				fs := names()
				waiting := false
				for _, f := range fs {
					waiting = waiting || pending[f] > 0
				}
				if waiting && len(fs) > 1 {
					fs = fs[:1]
				}
				hist = append(hist, fmt.Sprintf("ready %s %v", p.remote, fs))
				own := map[string]int{}
				for _, f := range fs {
					for _, m := range model[f] {
						if m.p == p {
							own[f]++
						}
					}
				}
				h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: fs}})
				for _, f := range fs {
					for _, m := range model[f] {
						if m.p == p {
							m.ready = true
						}
					}
				}
				for q, f := range wait {
					if a := newest(f); a != "" {
						if !w10wait(func() bool { as, _ := q.answers(); return len(as) > 0 }) {
							t.Fatalf("seed %d, %v: query for %s is not answered", seed, hist, f)
						}
						if as, _ := q.answers(); len(as) != 1 || as[0] != a {
							t.Fatalf("seed %d, %v: query for %s answered %v, want %v", seed, hist, f, as, a)
						}
						delete(wait, q)
						pending[f]--
					}
				}
			default:
				f := feature()
				q := &w10peer{remote: "10.9.9.9:1"}
				a := newest(f)
				if a == "" && len(wait) > 1 {
					continue
				}
				hist = append(hist, "query "+f)
				h.OnPacket(q, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: f}})
				if a == "" {
					wait[q] = f
					pending[f]++
					time.Sleep(100 * time.Microsecond)
					if as, _ := q.answers(); len(as) != 0 {
						t.Fatalf("seed %d, %v: query for %s answered %v though nobody is ready", seed, hist, f, as)
					}
				} else {
					if !w10wait(func() bool { as, _ := q.answers(); return len(as) > 0 }) {
						t.Fatalf("seed %d, %v: query for %s is not answered", seed, hist, f)
					}
					if as, _ := q.answers(); len(as) != 1 || as[0] != a {
						t.Fatalf("seed %d, %v: query for %s answered %v, want %v", seed, hist, f, as, a)
					}
				}
			}
			h.docksMutex.Lock()
			check()
			h.docksMutex.Unlock()
		}
		// let the queries left over end
		for q, f := range wait {
			p := &w10peer{remote: "10.8.8.8:1"}
			h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{f}}})
			h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{f}}})
			if !w10wait(func() bool { as, _ := q.answers(); return len(as) > 0 }) {
				t.Fatalf("seed %d, %v: query for %s is not answered", seed, hist, f)
			}
		}
	}
}
