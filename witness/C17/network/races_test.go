package network

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

type w17sink struct{}

func (w17sink) OnConnected(p IPeer)               {}
func (w17sink) OnClosed(p IPeer)                  {}
func (w17sink) OnPacket(p IPeer, obj interface{}) {}

// TestWitnessC17Serializers registers serializers and makes sockets at the same time.
func TestWitnessC17Serializers(t *testing.T) {
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 300; n++ {
					if i%2 == 0 {
						ExtendSerializer(fmt.Sprint("s", i, n), new(txtSerializer))
					} else {
						NewSocket("127.0.0.1:1", "txt", w17sink{})
					}
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		t.Fatalf("routines are stuck, a lock has not been released")
	}
}
