package ferry

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"
)

type w19addr string

func (a w19addr) Network() string { return "tcp" }
func (a w19addr) String() string  { return string(a) }

type w19peer struct {
	onSend func(k *packer)
}

func (p *w19peer) IsSelf() bool         { return false }
func (p *w19peer) LocalAddr() net.Addr  { return w19addr("127.0.0.1:9999") }
func (p *w19peer) RemoteAddr() net.Addr { return w19addr("127.0.0.1:9998") }
func (p *w19peer) Send(obj interface{}) {
	if p.onSend != nil {
		p.onSend(obj.(*packer))
	}
}

type w19feature struct {
	mu               sync.Mutex
	started, stopped int
	onStart          func()
}

func (f *w19feature) OnStart(s ISlot) {
	if f.onStart != nil {
		f.onStart()
	}
	f.mu.Lock()
	f.started++
	f.mu.Unlock()
}
func (f *w19feature) OnDestroy(s ISlot) {
	f.mu.Lock()
	f.stopped++
	f.mu.Unlock()
}
func (f *w19feature) counts() (int, int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.started, f.stopped
}
func (f *w19feature) Do() {}

func w19wait(c func() bool) bool {
	for i := 0; i < 3000; i++ {
		if c() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func w19listen(t *testing.T) (net.Listener, chan net.Conn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	conns := make(chan net.Conn, 16)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			conns <- c
		}
	}()
	return l, conns
}

func w19closed(c net.Conn) bool {
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	buf := make([]byte, 256)
	for {
		if _, err := c.Read(buf); err != nil {
			e, ok := err.(net.Error)
			return !(ok && e.Timeout())
		}
	}
}

// TestWitnessC19Dock runs docks over TCP through their life: started once the hub has given a port, closed in the end.
func TestWitnessC19Dock(t *testing.T) {
	for seed := int64(0); seed < 12; seed++ {
		r := rand.New(rand.NewSource(seed))
		hub, hubConns := w19listen(t)
		other, otherConns := w19listen(t)
		free, _ := w19listen(t)
		port := free.Addr().(*net.TCPAddr).Port
		free.Close()

		var mu sync.Mutex
		problem := ""
		fail := func(s string) {
			mu.Lock()
			if problem == "" {
				problem = s
			}
			mu.Unlock()
		}
		reported := false
		features := []*w19feature{}
		slots := []ISlot{}
		for i, n := 0, r.Intn(5); i < n; i++ {
			f := &w19feature{}
			f.onStart = func() {
				mu.Lock()
				ok := reported
				mu.Unlock()
				if !ok {
					fail("a feature is started before the dock reports ready")
				}
			}
			features = append(features, f)
			slots = append(slots, Carry(fmt.Sprint("feature", i), f, r.Intn(2) == 0))
		}
		check := func(when string, started, stopped int) {
			t.Helper()
			time.Sleep(2 * time.Millisecond)
			for i, f := range features {
				if a, b := f.counts(); a != started || b != stopped {
					t.Fatalf("seed %d, %s: feature %d of %d has been started %d times and destroyed %d times", seed, when, i, len(features), a, b)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if problem != "" {
				t.Fatalf("seed %d, %s: %s", seed, when, problem)
			}
		}
		d := newDock("dock", slots...)
		check("new dock", 0, 0)
		d.run(hub.Addr().String())
		conns := []net.Conn{<-hubConns}
		check("connected to the hub", 0, 0)

		noise := func(when string, started int) {
			p := &w19peer{}
			for i := r.Intn(6); i > 0; i-- {
				switch r.Intn(7) {
				case 0:
					d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"x", "feature0"}}})
				case 1:
					d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"x", "feature0"}}})
				case 2:
					d.OnConnected(p)
				case 3:
					d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: 1}})
				case 4:
					d.OnPacket(p, &packer{Id: cError, P: &protoError{Error: "x"}})
				case 5:
					d.OnPacket(p, &packer{Id: cQueryResponse, P: &protoQueryResponse{DockAddr: other.Addr().String()}})
					conns = append(conns, <-otherConns)
				case 6:
					d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Slot: "feature0", Method: "Do"}})
				}
				check(when, started, 0)
			}
		}
		noise("before the hub answers", 0)

		d.OnPacket(&w19peer{onSend: func(k *packer) {
			if k.Id != cReady {
				return
			}
			c, err := net.Dial("tcp", fmt.Sprint("127.0.0.1:", port))
			if err != nil {
				fail("the dock reports ready when it is not listening on its port")
			} else {
				mu.Lock()
				conns = append(conns, c)
				mu.Unlock()
			}
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
			mu.Lock()
			reported = true
			mu.Unlock()
		}}, &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: port}})
		w19wait(func() bool {
			for _, f := range features {
				if a, _ := f.counts(); a == 0 {
					return false
				}
			}
			return true
		})
		if !reported {
			t.Fatalf("seed %d: the dock does not report ready", seed)
		}
		check("the hub has answered", 1, 0)
		noise("running", 1)
		time.Sleep(5 * time.Millisecond) // connections are accepted

		d.Close()
		check("closed", 1, 1)
		if c, err := net.Dial("tcp", fmt.Sprint("127.0.0.1:", port)); err == nil {
			c.Close()
			t.Fatalf("seed %d: the dock is closed and still listening", seed)
		}
		for i, c := range conns {
			if !w19closed(c) {
				t.Fatalf("seed %d: the dock is closed, connection %d of %d is not", seed, i, len(conns))
			}
			c.Close()
		}
		d.Close()
		check("closed again", 1, 1)
		hub.Close()
		other.Close()
	}
}

type w19instance struct {
	id     int
	closed func(id int)
}

func (i *w19instance) Close() { i.closed(i.id) }

// TestWitnessC19Instances closes instances, also while others are made.
func TestWitnessC19Instances(t *testing.T) {
	var mu sync.Mutex
	var order []int
	note := func(id int) {
		mu.Lock()
		order = append(order, id)
		mu.Unlock()
	}
	taken := func() []int {
		mu.Lock()
		defer mu.Unlock()
		o := order
		order = nil
		return o
	}
	count := func() int {
		instsMutex.Lock()
		defer instsMutex.Unlock()
		return len(insts)
	}
	Close()
	taken()
	for n := 0; n < 6; n++ {
		for i := 0; i < n; i++ {
			go wait(&w19instance{i, note})
			if !w19wait(func() bool { return count() > i }) {
				t.Fatalf("a running instance is not there")
			}
		}
		Close()
		got := taken()
		want := []int{}
		for i := n - 1; i >= 0; i-- {
			want = append(want, i)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("%d instances are closed in order %v", n, got)
		}
		Close()
		if got := taken(); len(got) != 0 {
			t.Fatalf("%d instances, closing again closes %v", n, got)
		}
	}
	// Closing while closing, and while instances are made.
	for round := 0; round < 20; round++ {
		const n = 20
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			go wait(&w19instance{i, func(id int) {
				if id == n/2 {
					wg.Add(1)
					go func() { Close(); wg.Done() }()
					time.Sleep(time.Millisecond)
				}
				note(id)
			}})
		}
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() { Close(); wg.Done() }()
		}
		wg.Wait()
		total := map[int]int{}
		w19wait(func() bool {
			Close()
			wg.Wait()
			for _, id := range taken() {
				total[id]++
			}
			return len(total) == n
		})
		for i := 0; i < n; i++ {
			if total[i] != 1 {
				t.Fatalf("instance %d of %d is closed %d times", i, n, total[i])
			}
		}
	}
}

// TestWitnessC19Reentrant closes the process from a closing instance.
func TestWitnessC19Reentrant(t *testing.T) {
	Close()
	n := 0
	go wait(&w19instance{0, func(int) { n++; Close() }})
	w19wait(func() bool {
		instsMutex.Lock()
		defer instsMutex.Unlock()
		return len(insts) == 1
	})
	Close()
	if n != 1 {
		t.Fatalf("an instance is closed %d times", n)
	}
}
