package ferry

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/muguangyi/ferry/network"
)

type w17addr string

func (a w17addr) Network() string { return "tcp" }
func (a w17addr) String() string  { return string(a) }

// w17peer has no synchronisation of its own: the race detector sees what the node's locks order, and no more.
type w17peer struct {
	addr string
	send func(p *w17peer, k *packer)
}

func (p *w17peer) IsSelf() bool         { return false }
func (p *w17peer) LocalAddr() net.Addr  { return w17addr("127.0.0.1:9999") }
func (p *w17peer) RemoteAddr() net.Addr { return w17addr(p.addr) }
func (p *w17peer) Listen()              {}
func (p *w17peer) Dial()                {}
func (p *w17peer) Close()               {}
func (p *w17peer) Send(obj interface{}) {
	if p.send != nil {
		p.send(p, obj.(*packer))
	}
}

func w17run(t *testing.T, what string, n int, f func(i int, r *rand.Rand)) {
	t.Helper()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i, rand.New(rand.NewSource(int64(i))))
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		t.Fatalf("%s: routines are stuck, a lock has not been released", what)
	}
}

// TestWitnessC17Hub registers, reports, asks and assigns at the same time.
func TestWitnessC17Hub(t *testing.T) {
	h := newHub()
	var asked, answered int64
	first := &w17peer{addr: "10.0.0.1:1"}
	h.OnPacket(first, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"f0", "f1", "f2"}}})
	h.OnPacket(first, &packer{Id: cReady, P: &protoReady{Slots: []string{"f0", "f1", "f2"}}})
	w17run(t, "hub", 8, func(i int, r *rand.Rand) {
		p := &w17peer{addr: fmt.Sprintf("10.0.0.%d:1", i%3), send: func(p *w17peer, k *packer) {
			if k.Id == cQueryResponse {
				atomic.AddInt64(&answered, 1)
			}
		}}
		for op := 0; op < 150; op++ {
			fs := []string{fmt.Sprintf("f%d", r.Intn(5)), fmt.Sprintf("g%d.%d", i, op)}
			switch r.Intn(5) {
			case 0:
				h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: fs}})
			case 1, 2:
				h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: fs}})
			case 3:
				atomic.AddInt64(&asked, 1)
				h.OnPacket(p, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: fmt.Sprintf("f%d", r.Intn(3))}})
			case 4:
				h.OnPacket(p, &packer{Id: cHeartbeat, P: &protoHeartbeat{}})
				h.OnClosed(p)
			}
		}
	})
	for i := 0; i < 10000 && atomic.LoadInt64(&answered) < atomic.LoadInt64(&asked); i++ {
		time.Sleep(time.Millisecond)
	}
	if a, b := atomic.LoadInt64(&answered), atomic.LoadInt64(&asked); a != b {
		t.Fatalf("%d of %d queries are answered", a, b)
	}
}

// TestWitnessC17Dock calls, answers, announces and reports at the same time.
func TestWitnessC17Dock(t *testing.T) {
	for round := 0; round < 6; round++ {
		d := newDock("dock", Carry("local", &w17feature{}, true))
		peers := []*w17peer{}
		for i := 0; i < 4; i++ {
			peers = append(peers, &w17peer{addr: "10.0.0.1:1", send: func(p *w17peer, k *packer) {
				if k.Id == cRpcRequest {
					q := k.P.(*protoRpcRequest)
					go func() {
						d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: q.Index, Slot: q.Slot, Method: q.Method, Result: []interface{}{q.Method}}})
						d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: q.Index, Slot: q.Slot, Method: q.Method, Err: "again"}})
					}()
				}
			}})
		}
		hub := &w17peer{send: func(p *w17peer, k *packer) {
			if k.Id == cQueryRequest {
				q := k.P.(*protoQueryRequest)
				go func() {
					p := peers[rand.Intn(len(peers))]
					d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{q.Slot}}})
					d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{q.Slot}}})
				}()
			}
		}}
		d.sockets = append(d.sockets, network.ISocket(hub))
		s := &slot{dock: d}
		w17run(t, "dock", 10, func(i int, r *rand.Rand) {
			for op := 0; op < 60; op++ {
				f := fmt.Sprintf("f%d", r.Intn(20))
				p := peers[r.Intn(len(peers))]
				switch r.Intn(8) {
				case 0:
					s.Call(f, "M")
				case 1, 2, 3:
					m := fmt.Sprintf("m%d.%d", i, op)
					res, err := s.CallWithResult(f, m, op)
					if err != nil || len(res) != 1 || res[0] != m {
						t.Errorf("call %s.%s is answered with %v %v", f, m, res, err)
					}
				case 4:
					d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{f, "f1", "f2"}}})
				case 5:
					d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{f, fmt.Sprint("g", i, op)}}})
				case 6:
					d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: int64(op)}})
				case 7:
					d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: 1, Slot: "local", Method: "Add", Args: []interface{}{op}, WithResult: true}})
				}
			}
		})
	}
}

type w17feature struct{ Feature }

func (f *w17feature) Add(x int) int { return x + 1 }
