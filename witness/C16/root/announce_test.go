package ferry

import (
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/muguangyi/ferry/network"
)

type w16addr string

func (a w16addr) Network() string { return "tcp" }
func (a w16addr) String() string  { return string(a) }

type w16peer struct {
	mu   sync.Mutex
	self bool
	sent []interface{}
}

func (p *w16peer) IsSelf() bool         { return p.self }
func (p *w16peer) LocalAddr() net.Addr  { return w16addr("127.0.0.1:9999") }
func (p *w16peer) RemoteAddr() net.Addr { return w16addr("127.0.0.1:9998") }
func (p *w16peer) Send(obj interface{}) {
	p.mu.Lock()
	p.sent = append(p.sent, obj)
	p.mu.Unlock()
}
func (p *w16peer) take() []interface{} {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.sent
	p.sent = nil
	return s
}

type w16feature struct{ Feature }

func (f *w16feature) Do(x int) int { return x + 1 }

// TestWitnessC16Announcements compares what docks announce with what they carry as discoverable, for random features.
func TestWitnessC16Announcements(t *testing.T) {
	network.Mock("tcp")
	Register("proxy", func(s ISlot) interface{} { return s })
	network.ExtendSerializer("ferry", newSerializer())
	for seed := int64(0); seed < 80; seed++ {
		r := rand.New(rand.NewSource(seed))
		var slots []ISlot
		want := []string{}
		for i, n := 0, r.Intn(7); i < n; i++ {
			name := fmt.Sprintf("%c feature %d", "IABiab "[r.Intn(7)], i)
			switch r.Intn(8) {
			case 0:
				name = strings.Repeat("x", i)
			case 1:
				name = fmt.Sprint("I", i)
			}
			if name == "" {
				name = "-"
			}
			dup := false
			for _, s := range slots {
				dup = dup || s.(*slot).callee.Name() == name
			}
			if dup {
				continue
			}
			flag := r.Intn(3) > 0
			slots = append(slots, Carry(name, &w16feature{}, flag))
			if flag {
				want = append(want, name)
			}
		}
		d := newDock("dock", slots...)
		hub := network.NewSocket("127.0.0.1:1", "ferry", d)
		d.sockets = append(d.sockets, hub)
		sort.Strings(want)
		p := &w16peer{self: r.Intn(2) == 0}
		var hist []string
		check := func(least int) {
			n := 0
			for i := 0; i < 2000; i++ {
				for _, o := range p.take() {
					var ids []string
					switch k := o.(*packer).P.(type) {
					case *protoReady:
						ids = k.Slots
					case *protoRegisterRequest:
						ids = k.Slots
					default:
						continue
					}
					n++
					got := append([]string{}, ids...)
					sort.Strings(got)
					if fmt.Sprint(len(got), got) != fmt.Sprint(len(want), want) {
						t.Fatalf("seed %d, %v: the dock carries %v as discoverable and announces %v", seed, hist, want, ids)
					}
				}
				if n >= least {
					break
				}
				time.Sleep(time.Millisecond)
			}
			if n < least {
				t.Fatalf("seed %d, %v: the dock announces nothing", seed, hist)
			}
		}
		for op := 0; op < 8; op++ {
			k := r.Intn(7)
			hist = append(hist, []string{"connected", "register request", "register response", "call request", "ready", "visit", "use"}[k])
			switch k {
			case 0:
				d.OnConnected(p)
				check(1)
			case 1:
				names := []string{"other"}
				for _, s := range slots {
					if r.Intn(2) == 0 {
						names = append(names, s.(*slot).callee.Name())
					}
				}
				d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: names}})
				check(1)
			case 2:
				d.OnPacket(p, &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: 30000 + op + int(seed)*10}})
				check(1)
			case 3:
				name := "other"
				if len(slots) > 0 {
					name = slots[r.Intn(len(slots))].(*slot).callee.Name()
				}
				d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: 1, Slot: name, Method: "Do", Args: []interface{}{1}, WithResult: true}})
				check(0)
			case 4:
				d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"other"}}})
				check(0)
			case 5:
				for _, s := range slots {
					s.Visit("proxy")
				}
			case 6:
				for _, s := range slots {
					n := s.(*slot).callee.Name()
					s.SetTimeout("Do", 0.5)
					s.Call(n, "Do", 1)
					s.CallWithResult(n, "Do", 1)
				}
			}
		}
		time.Sleep(time.Millisecond)
		check(0)
	}
}
