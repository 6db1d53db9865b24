package chancall

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

type w17target struct{}

func (w17target) Add(x int) int { return x + 1 }
func (w17target) Slow() int     { time.Sleep(2 * time.Millisecond); return 1 }

// TestWitnessC17Requests answers requests and times them out at the same time.
func TestWitnessC17Requests(t *testing.T) {
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			callee := NewCallee(fmt.Sprint("target", k), w17target{})
			callee.SetTimeout("Slow", 0.002)
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					caller := NewCaller(callee)
					for n := 0; n < 60; n++ {
						if res, err := caller.CallWithResult("Slow"); err == nil && (len(res) != 1 || res[0] != 1) {
							t.Errorf("result %v", res)
						}
						if n%8 == 0 {
							caller.Call("Add", n)
						}
					}
				}()
			}
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		t.Fatalf("calls are stuck, a lock has not been released")
	}
	time.Sleep(20 * time.Millisecond)
}
