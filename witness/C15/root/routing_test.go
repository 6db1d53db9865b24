package ferry

import (
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/muguangyi/ferry/network"
)

type w15addr string

func (a w15addr) Network() string { return "tcp" }
func (a w15addr) String() string  { return string(a) }

type w15peer struct {
	mu   sync.Mutex
	sent []interface{}
}

func (p *w15peer) IsSelf() bool         { return false }
func (p *w15peer) LocalAddr() net.Addr  { return w15addr("127.0.0.1:9999") }
func (p *w15peer) RemoteAddr() net.Addr { return w15addr("127.0.0.1:9998") }
func (p *w15peer) Listen()              {}
func (p *w15peer) Dial()                {}
func (p *w15peer) Close()               {}
func (p *w15peer) Send(obj interface{}) {
	if k, ok := obj.(*packer); ok { // as it is at this moment
		c := *k
		if q, ok := k.P.(*protoRpcRequest); ok {
			x := *q
			c.P = &x
		}
		obj = &c
	}
	p.mu.Lock()
	p.sent = append(p.sent, obj)
	p.mu.Unlock()
}
func (p *w15peer) requests() (r []*protoRpcRequest) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, o := range p.sent {
		if q, ok := o.(*packer).P.(*protoRpcRequest); ok {
			r = append(r, q)
		}
	}
	return
}
func (p *w15peer) responses() (r []*protoRpcResponse) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, o := range p.sent {
		if q, ok := o.(*packer).P.(*protoRpcResponse); ok {
			r = append(r, q)
		}
	}
	return
}
func (p *w15peer) queries(f string) (n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, o := range p.sent {
		if q, ok := o.(*packer).P.(*protoQueryRequest); ok && q.Slot == f {
			n++
		}
	}
	return
}

func w15wait(c func() bool) bool {
	for i := 0; i < 4000; i++ {
		if c() {
			return true
		}
		time.Sleep(250 * time.Microsecond)
	}
	return false
}

type w15feature struct {
	Feature
	mu    sync.Mutex
	calls []string
}

func (f *w15feature) note(s string) {
	f.mu.Lock()
	f.calls = append(f.calls, s)
	f.mu.Unlock()
}
func (f *w15feature) take() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	c := f.calls
	f.calls = nil
	return c
}
func (f *w15feature) Join(a string, n int) string {
	f.note(fmt.Sprint("Join ", a, n))
	return fmt.Sprint(a, n)
}
func (f *w15feature) Note(a string) { f.note("Note " + a) }
func (f *w15feature) Nothing()      { f.note("Nothing") }

type w15call struct {
	feature, method string
	args            []interface{}
	with            bool
	done            chan bool
}

// TestWitnessC15Routing drives a dock through random histories of calls, announcements, readiness reports, responses and requests.
func TestWitnessC15Routing(t *testing.T) {
	for seed := int64(0); seed < 60; seed++ {
		r := rand.New(rand.NewSource(seed))
		var hist []string
		die := func(format string, args ...interface{}) {
			t.Helper()
			t.Fatalf("seed %d, %v: %s", seed, hist, fmt.Sprintf(format, args...))
		}
		local := map[string]*w15feature{"l0": {}, "l1": {}}
		d := newDock("dock", Carry("l0", local["l0"], true), Carry("l1", local["l1"], false))
		hub := &w15peer{}
		other := &w15peer{}
		d.sockets = append(d.sockets, network.ISocket(hub), network.ISocket(other))
		var peers []*w15peer
		for i := 0; i < 3; i++ {
			peers = append(peers, &w15peer{})
		}
		announced := map[string]*w15peer{}
		waiting := map[*w15call]bool{}
		sent := map[*w15call]*w15peer{}
		indexes := map[int64]bool{}
		feature := func() string { return fmt.Sprintf("r%d", r.Intn(4)) }
		n := 0
		matches := func(c *w15call, q *protoRpcRequest) bool {
			return q.Slot == c.feature && q.Method == c.method && reflect.DeepEqual(append([]interface{}{}, q.Args...), append([]interface{}{}, c.args...)) && q.WithResult == c.with
		}
		count := func(p *w15peer, c *w15call) (k int, index int64) {
			for _, q := range p.requests() {
				if matches(c, q) {
					k++
					index = q.Index
				} else if q.Method == c.method {
					k += 100
				}
			}
			return
		}
		check := func() {
			for c := range waiting {
				for _, p := range append(peers, hub, other) {
					if k, _ := count(p, c); k != 0 {
						die("call %v waits for a provider and has been sent", *c)
					}
				}
			}
			for c, to := range sent {
				for _, p := range append(peers, hub, other) {
					k, _ := count(p, c)
					if (p == to) != (k == 1) || p != to && k != 0 {
						die("the request of %v has been sent %d times (provider: %v)", *c, k, p == to)
					}
				}
			}
		}
		all := []*w15call{}
		for op := 0; op < 25; op++ {
			switch r.Intn(6) {
			case 0, 1: // remote call
				n++
				c := &w15call{feature: feature(), method: fmt.Sprintf("m%d", n), with: r.Intn(2) == 0, done: make(chan bool)}
				for i := r.Intn(3); i > 0; i-- {
					c.args = append(c.args, r.Intn(100))
				}
				hist = append(hist, fmt.Sprintf("call %s.%s", c.feature, c.method))
				all = append(all, c)
				asked := hub.queries(c.feature)
				s := &slot{dock: d}
				go func() {
					if c.with {
						s.CallWithResult(c.feature, c.method, c.args...)
					} else {
						s.Call(c.feature, c.method, c.args...)
					}
					close(c.done)
				}()
				if p := announced[c.feature]; p != nil {
					if !w15wait(func() bool { k, _ := count(p, c); return k > 0 }) {
						die("the request is not sent to the provider announced last")
					}
					sent[c] = p
				} else {
					if !w15wait(func() bool { return hub.queries(c.feature) > asked }) {
						die("the hub is not asked for %s", c.feature)
					}
					waiting[c] = true
				}
			case 2: // announcement
				p := peers[r.Intn(len(peers))]
				fs := []string{}
				for i := 0; i < 4; i++ {
					if r.Intn(3) == 0 {
						fs = append(fs, fmt.Sprintf("r%d", i))
					}
				}
				if r.Intn(4) == 0 {
					fs = append(fs, "l0")
				}
				hist = append(hist, fmt.Sprintf("%p announces %v", p, fs))
				d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: fs}})
				for _, f := range fs {
					announced[f] = p
				}
			case 3: // readiness
				f := feature()
				fs := []string{f}
				for i := 0; i < 4; i++ {
					if g := fmt.Sprintf("r%d", i); g != f && r.Intn(2) == 0 {
						fs = append(fs, g)
					}
				}
				r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
				hist = append(hist, fmt.Sprintf("ready %v", fs))
				d.OnPacket(peers[r.Intn(len(peers))], &packer{Id: cReady, P: &protoReady{Slots: fs}})
				for c := range waiting {
					for _, g := range fs {
						if g == c.feature && announced[g] != nil {
							delete(waiting, c)
							sent[c] = announced[g]
						}
					}
				}
			case 4: // response
				for c, p := range sent {
					k, index := count(p, c)
					if k != 1 {
						die("the request of %v has been sent %d times", *c, k)
					}
					if indexes[index] {
						continue
					}
					indexes[index] = true
					hist = append(hist, fmt.Sprintf("response to %s", c.method))
					d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: index, Slot: c.feature, Method: c.method}})
					select {
					case <-c.done:
					case <-time.After(2 * time.Second):
						die("call %s does not return", c.method)
					}
					break
				}
			case 5: // local call
				f := []string{"l0", "l1"}[r.Intn(2)]
				hist = append(hist, "local call "+f)
				before := len(hub.sent) + len(other.sent)
				for _, p := range peers {
					before += len(p.sent)
				}
				s := &slot{dock: d}
				var want string
				switch r.Intn(2) {
				case 0:
					res, err := s.CallWithResult(f, "Join", "x", op)
					if err != nil || len(res) != 1 || res[0] != fmt.Sprint("x", op) {
						die("local call: %v, %v", res, err)
					}
					want = fmt.Sprint("[Join x", op, "]")
				case 1:
					if err := s.Call(f, "Note", "a"); err != nil {
						die("local call: %v", err)
					}
					want = "[Note a]"
				}
				if got := fmt.Sprint(local[f].take()); got != want {
					die("%s has been called: %s, want %s", f, got, want)
				}
				after := len(hub.sent) + len(other.sent)
				for _, p := range peers {
					after += len(p.sent)
				}
				if after != before {
					die("a local call sends something")
				}
			}
			check()
		}
		if len(other.sent) > 0 {
			die("something is sent to a socket that is not the hub's")
		}
		time.Sleep(time.Millisecond)
		check()
	}
}

// TestWitnessC15Requests has peers ask for calls of local features, present or not.
func TestWitnessC15Requests(t *testing.T) {
	f := map[string]*w15feature{"a": {}, "b": {}}
	d := newDock("dock", Carry("a", f["a"], true), Carry("b", f["b"], false))
	hub := &w15peer{}
	d.sockets = append(d.sockets, network.ISocket(hub))
	cases := []struct {
		slot, method string
		args         []interface{}
		with         bool
		result       []interface{}
		fails        bool
		called       string
	}{
		{"a", "Join", []interface{}{"x", 3}, true, []interface{}{"x3"}, false, "Join x3"},
		{"b", "Join", []interface{}{"y", 4}, true, []interface{}{"y4"}, false, "Join y4"},
		{"b", "Note", []interface{}{"n"}, false, nil, false, "Note n"},
		{"a", "Nothing", nil, false, nil, false, "Nothing"},
		{"a", "Nothing", nil, true, nil, false, "Nothing"},
		{"a", "None", nil, true, nil, true, ""},
		{"a", "Note", []interface{}{1, 2}, false, nil, true, ""},
		{"c", "Join", []interface{}{"x", 3}, true, nil, true, ""},
		{"", "Join", nil, false, nil, true, ""},
		{"A", "Nothing", nil, false, nil, true, ""},
	}
	for round := 0; round < 3; round++ {
		for i, c := range cases {
			p, q := &w15peer{}, &w15peer{}
			d.OnPacket(q, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"c"}}})
			index := int64(i*7 + round)
			d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: index, Slot: c.slot, Method: c.method, Args: c.args, WithResult: c.with}})
			if !w15wait(func() bool { return len(p.responses()) > 0 }) {
				t.Fatalf("request %v is not answered", c)
			}
			time.Sleep(time.Millisecond)
			rs := p.responses()
			if len(rs) != 1 || len(q.responses()) != 0 || len(q.requests()) != 0 {
				t.Fatalf("request %v is answered %d times, %d times to another dock", c, len(rs), len(q.responses()))
			}
			a := rs[0]
			if a.Index != index || a.Slot != c.slot || a.Method != c.method || (a.Err != "") != c.fails {
				t.Fatalf("request %v is answered with %v", c, *a)
			}
			if c.with && !c.fails && fmt.Sprint(a.Result) != fmt.Sprint(c.result) {
				t.Fatalf("request %v is answered with result %v", c, a.Result)
			}
			var calls []string
			for _, x := range f {
				calls = append(calls, x.take()...)
			}
			want := []string{}
			if c.called != "" {
				want = []string{c.called}
			}
			if fmt.Sprint(calls) != fmt.Sprint(want) {
				t.Fatalf("request %v: called %v", c, calls)
			}
		}
	}
}

// TestWitnessC15Concurrent has calls, announcements and readiness reports at the same time.
func TestWitnessC15Concurrent(t *testing.T) {
	for round := 0; round < 40; round++ {
		d := newDock("dock")
		hub, p := &w15peer{}, &w15peer{}
		d.sockets = append(d.sockets, network.ISocket(hub))
		const n = 12
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < n; i++ {
			go func(i int) {
				<-start
				if i%2 == 0 {
					d.call("f", fmt.Sprint("m", i), i)
				} else {
					d.callWithResult("f", fmt.Sprint("m", i), i)
				}
			}(i)
		}
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"e", "f"}}})
				for k := 0; k < 20; k++ {
					d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"e", "f"}}})
				}
			}()
		}
		close(start)
		wg.Wait()
		if !w15wait(func() bool {
			d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"f"}}})
			return len(p.requests()) >= n
		}) {
			t.Fatalf("%d of %d calls have been sent to the provider", len(p.requests()), n)
		}
		d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"f"}}})
		time.Sleep(time.Millisecond)
		seen := map[string]int{}
		for _, q := range p.requests() {
			seen[q.Method]++
			if len(q.Args) != 1 || q.Method != fmt.Sprint("m", q.Args[0]) || q.Slot != "f" {
				t.Fatalf("request %v", *q)
			}
		}
		for i := 0; i < n; i++ {
			if seen[fmt.Sprint("m", i)] != 1 {
				t.Fatalf("the request of call m%d has been sent %d times", i, seen[fmt.Sprint("m", i)])
			}
		}
		for _, q := range p.requests() {
			d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: q.Index}})
		}
	}
}
