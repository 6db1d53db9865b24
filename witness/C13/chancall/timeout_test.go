package chancall_test

import (
	"sync"
	"testing"
	"time"

	"github.com/muguangyi/ferry/chancall"
)

type c13target struct{}

func (c *c13target) Long()      { time.Sleep(4 * time.Second) }
func (c *c13target) Other()     { time.Sleep(4 * time.Second) }
func (c *c13target) Short(x int) int { return x }

func TestWitnessC13(t *testing.T) {
	type setting struct {
		m string
		t float32
	}
	var wg sync.WaitGroup
	try := func(want float64, m string, ss ...setting) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			k := chancall.NewCallee("f", &c13target{})
			for _, s := range ss {
				k.SetTimeout(s.m, s.t)
			}
			t0 := time.Now()
			err := chancall.NewCaller(k).Call(m)
			d := time.Since(t0).Seconds()
			if err == nil {
				t.Errorf("settings %v: %s does not time out", ss, m)
			} else if d < want-0.005 || d > want+0.4 {
				t.Errorf("settings %v: %s times out after %.3f s, want %.3f s", ss, m, d, want)
			}
		}()
	}
	try(1, "Long")
	try(0.1, "Long", setting{"Long", 0.1})
	try(0.5, "Long", setting{"Long", 0.5})
	try(0.04, "Long", setting{"Long", 0.04})
	try(1.45, "Long", setting{"Long", 1.45})
	try(2, "Long", setting{"Long", 2})
	try(2.75, "Long", setting{"Long", 2.75})
	try(1, "Long", setting{"Other", 0.1})
	try(1, "Long", setting{"Short", 3})
	try(1, "Long", setting{"Nothing", 0.1})
	try(2, "Long", setting{"Long", 2}, setting{"Other", 0.2}, setting{"Short", 0.3})
	try(0.3, "Long", setting{"Other", 2}, setting{"Long", 0.3}, setting{"Nothing", 1.5})
	try(0.3, "Long", setting{"Long", 2}, setting{"Long", 0.3})
	try(1.6, "Long", setting{"Long", 0.2}, setting{"Long", 1.6})
	try(0.3, "Other", setting{"Long", 2}, setting{"Other", 0.3})
	wg.Wait()
}
