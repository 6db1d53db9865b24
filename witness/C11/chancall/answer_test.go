package chancall_test

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/muguangyi/ferry/chancall"
)

type c11target struct {
	running  int32
	overlaps int32
	mu       sync.Mutex
	times    map[int]int
	order    []int
	plain    int // written without synchronisation: only the feature's routine may touch it
	gate     chan bool
}

func (c *c11target) enter(id int) {
	if atomic.AddInt32(&c.running, 1) != 1 {
		atomic.AddInt32(&c.overlaps, 1)
	}
	c.plain++
	c.mu.Lock()
	c.times[id]++
	c.order = append(c.order, id)
	c.mu.Unlock()
}
func (c *c11target) leave() { atomic.AddInt32(&c.running, -1) }

func (c *c11target) Echo(id int) int {
	c.enter(id)
	defer c.leave()
	return id
}
func (c *c11target) Fail(id int, x string) int { c.enter(id); defer c.leave(); return id }
func (c *c11target) Slow(id int, us int) int {
	c.enter(id)
	defer c.leave()
	time.Sleep(time.Duration(us) * time.Microsecond)
	return id
}
func (c *c11target) Gate(id int) int {
	c.enter(id)
	defer c.leave()
	<-c.gate
	return id
}

func newC11() (*c11target, chancall.ICallee) {
	c := &c11target{times: map[int]int{}, gate: make(chan bool)}
	k := chancall.NewCallee("f", c)
	for _, m := range []string{"Echo", "Fail", "Gate"} {
		k.SetTimeout(m, 60)
	}
	return c, k
}

// TestWitnessC11own: concurrent calls, through one caller and through many, get their own answers.
func TestWitnessC11own(t *testing.T) {
	for round := 0; round < 5; round++ {
		c, k := newC11()
		one := chancall.NewCaller(k)
		var wg sync.WaitGroup
		var failed atomic.Value
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done() // deferred first: runs last
				call := one
				if g%4 == 3 {
					call = chancall.NewCaller(k)
				}
				kept := map[int][]interface{}{}
				defer func() {
					for id, r := range kept {
						if len(r) != 1 || r[0] != id {
							failed.Store(fmt.Sprintf("the response of call %d becomes %v afterwards", id, r))
						}
					}
				}()
				for i := 0; i < 60; i++ {
					id := g*1000 + i
					switch {
					case i%9 == 8:
						if r, err := call.CallWithResult("None", id); err == nil {
							failed.Store(fmt.Sprintf("call of an unknown method returns %v", r))
						}
					case i%5 == 4:
						if err := call.Call("Echo", id); err != nil {
							failed.Store(fmt.Sprintf("call fails: %v", err))
						}
					default:
						r, err := call.CallWithResult("Echo", id)
						if err != nil || len(r) != 1 || r[0] != id {
							failed.Store(fmt.Sprintf("call %d is answered with %v %v", id, r, err))
						} else {
							kept[id] = r
						}
					}
				}
			}(g)
		}
		wg.Wait()
		if f := failed.Load(); f != nil {
			t.Fatal(f)
		}
		if c.overlaps > 0 {
			t.Fatal("requests are executed at the same time")
		}
		for id, n := range c.times {
			if n != 1 {
				t.Fatalf("request %d is executed %d times", id, n)
			}
		}
	}
}

// TestWitnessC11timeout: execution and timeout race; each call gets one answer, its own.
func TestWitnessC11timeout(t *testing.T) {
	for g := 0; g < 8; g++ {
		g := g
		t.Run("", func(t *testing.T) {
			t.Parallel()
			c, k := newC11()
			k.SetTimeout("Slow", 0.004)
			call := chancall.NewCaller(k)
			late := 0
			for i := 0; i < 60; i++ {
				us := 3900 + (i*37+g*11)%300
				if i%7 == 0 {
					us = 12000
				}
				r, err := call.CallWithResult("Slow", i, us)
				if err != nil {
					late++
					if !strings.Contains(err.Error(), "timeout") {
						t.Fatalf("call %d: %v", i, err)
					}
				} else if len(r) != 1 || r[0] != i {
					t.Fatalf("call %d is answered with %v", i, r)
				}
				r, err = call.CallWithResult("Echo", 1000+i)
				if err != nil || len(r) != 1 || r[0] != 1000+i {
					t.Fatalf("call %d is answered with %v %v", 1000+i, r, err)
				}
			}
			if late == 0 {
				t.Fatal("no call timed out")
			}
			for id, n := range c.times {
				if n != 1 {
					t.Fatalf("request %d is executed %d times", id, n)
				}
			}
		})
	}
}

// TestWitnessC11order: requests are executed in the order of their arrival.
func TestWitnessC11order(t *testing.T) {
	for round := 0; round < 5; round++ {
		c, k := newC11()
		var wg sync.WaitGroup
		send := func(f func()) { wg.Add(1); go func() { defer wg.Done(); f() }(); time.Sleep(15 * time.Millisecond) }
		send(func() { chancall.NewCaller(k).Call("Gate", 0) })
		for i := 1; i <= 4; i++ {
			i := i
			send(func() { chancall.NewCaller(k).Call("Echo", i) })
		}
		c.gate <- true
		wg.Wait()
		for i, id := range c.order {
			if i != id {
				t.Fatalf("requests 0 to 4 are executed in the order %v", c.order)
			}
		}
		if len(c.order) != 5 {
			t.Fatalf("executed %v", c.order)
		}
	}
}
