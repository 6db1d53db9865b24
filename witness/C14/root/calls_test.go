package ferry

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"sync"
	"testing"
	"time"
)

type w14addr string

func (a w14addr) Network() string { return "tcp" }
func (a w14addr) String() string  { return string(a) }

type w14peer struct{ on func(obj interface{}) }

func (p *w14peer) IsSelf() bool         { return false }
func (p *w14peer) LocalAddr() net.Addr  { return w14addr("127.0.0.1:9999") }
func (p *w14peer) RemoteAddr() net.Addr { return w14addr("127.0.0.1:9998") }
func (p *w14peer) Send(obj interface{}) { p.on(obj) }

type w14socket struct{}

func (s *w14socket) Listen()              {}
func (s *w14socket) Dial()                {}
func (s *w14socket) Close()               {}
func (s *w14socket) Send(obj interface{}) {}

// TestWitnessC14Responses makes concurrent calls from two docks of a process and answers them late, in any order, several times, and
// with unknown indexes in between.
func TestWitnessC14Responses(t *testing.T) {
	for seed := int64(0); seed < 25; seed++ {
		r := rand.New(rand.NewSource(seed))
		var mu sync.Mutex
		inUse := map[int64]string{}
		var fail error
		failed := func(format string, args ...interface{}) {
			mu.Lock()
			if fail == nil {
				fail = fmt.Errorf(format, args...)
			}
			mu.Unlock()
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		stop := make(chan bool)
		for dn := 0; dn < 2; dn++ {
			dn := dn
			d := newDock(fmt.Sprint("dock ", dn))
			d.sockets = append(d.sockets, &w14socket{})
			reqs := make(chan *protoRpcRequest, 1000)
			p := &w14peer{}
			p.on = func(obj interface{}) {
				k, ok := obj.(*packer)
				if !ok {
					return
				}
				q, ok := k.P.(*protoRpcRequest)
				if !ok {
					return
				}
				mu.Lock()
				if was, ok := inUse[q.Index]; ok && fail == nil {
					fail = fmt.Errorf("the index %d of the call of %s in dock %d is in use: %s", q.Index, q.Method, dn, was)
				}
				inUse[q.Index] = q.Method
				mu.Unlock()
				c := *q
				reqs <- &c
			}
			d.remoteSlots["far"] = p
			n := 20
			answers := r.Int63()
			go func() { // the provider
				r := rand.New(rand.NewSource(answers))
				var waiting, done []*protoRpcRequest
				respond := func(q *protoRpcRequest, index int64, forged bool) {
					resp := &protoRpcResponse{Index: index, Slot: q.Slot, Method: q.Method, Result: []interface{}{q.Method, q.Index}}
					if forged {
						resp.Result = []interface{}{"forged"}
					}
					if len(q.Args) > 0 && q.Args[0] == "fail" {
						resp.Err = "100%d error\x00 of %s\n" + q.Method + " "
					}
					d.OnPacket(p, &packer{Id: cRpcResponse, P: resp})
				}
				for {
					select {
					case q := <-reqs:
						waiting = append(waiting, q)
						if len(waiting)+len(done) < n && r.Intn(3) > 0 {
							continue
						}
					case <-stop:
						return
					case <-time.After(2 * time.Millisecond):
					}
					for len(waiting) > 0 && r.Intn(4) > 0 {
						i := r.Intn(len(waiting))
						q := waiting[i]
						waiting = append(waiting[:i], waiting[i+1:]...)
						if r.Intn(3) == 0 {
							respond(q, q.Index-1000000, true) // unknown
						}
						respond(q, q.Index, false)
						done = append(done, q)
						for r.Intn(2) == 0 { // duplicates
							o := done[r.Intn(len(done))]
							respond(o, o.Index, true)
						}
					}
				}
			}()
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					m := fmt.Sprintf("m%d.%d", dn, i)
					var args []interface{}
					var want error
					if i%3 == 0 {
						args = append(args, "fail")
						want = errors.New("100%d error\x00 of %s\n" + m + " ")
					}
					var err error
					if i%2 == 0 {
						err = d.call("far", m, args...)
					} else {
						var res []interface{}
						res, err = d.callWithResult("far", m, args...)
						mu.Lock()
						var index int64 = -1
						for k, v := range inUse {
							if v == m {
								index = k
							}
						}
						mu.Unlock()
						if !reflect.DeepEqual(res, []interface{}{m, index}) {
							failed("call %s has result %v, want that of index %d", m, res, index)
						}
					}
					if (err == nil) != (want == nil) || err != nil && err.Error() != want.Error() {
						failed("call %s has error %v, want %v", m, err, want)
					}
				}(i)
			}
		}
		close(start)
		all := make(chan bool)
		go func() { wg.Wait(); close(all) }()
		select {
		case <-all:
		case <-time.After(5 * time.Second):
			failed("a call that has been answered does not return")
		}
		close(stop)
		time.Sleep(2 * time.Millisecond)
		mu.Lock()
		if fail != nil {
			t.Fatalf("seed %d: %v", seed, fail)
		}
		mu.Unlock()
	}
}

// TestWitnessC14Indexes takes indexes from several routines at once.
func TestWitnessC14Indexes(t *testing.T) {
	const n, m = 8, 20000
	var wg sync.WaitGroup
	got := make([][]int64, n)
	start := make(chan bool)
	for i := range got {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k := 0; k < m; k++ {
				got[i] = append(got[i], newRpc().index)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	seen := map[int64]bool{}
	for _, g := range got {
		for _, x := range g {
			if seen[x] {
				t.Fatalf("index %d was given to two calls", x)
			}
			seen[x] = true
		}
	}
}
