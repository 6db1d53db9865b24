//go:build go1.21

// verif:properties C13
// verif:assumes time.Sleep and time.AfterFunc wait for the duration they are given; float32 to float64 conversion, multiplication and truncation follow IEEE 754

package chancall

import (
	"reflect"
	"time"

	. "github.com/muguangyi/ferry/verifghost"
)

// Invoking a method leaves the settings alone.
func Contract_c13_call(m *meta, method string, args ...interface{}) ([]interface{}, error) {
	ContractFor((*meta).call)
	Requires("a method table", m != nil)
	f := m.funcs[method]
	Hook("reflect.call", func(fn reflect.Value, ps []reflect.Value) {}) // C12 shows that the arguments fit
	Requires("the entry of a method is the method", f == nil || f.fn != nil && f.fn.Kind() == reflect.Func && f.ft == f.fn.Type())
	Modifies()
	r, err := m.call(method, args...)
	return r, err
}

// expiry processes one request for the feature's method; while the method is being executed the request's timer runs.
// It returns the duration the timer waits for.
func expiry(f feature) time.Duration {
	ch := make(chan *callResponse, 1)
	var d time.Duration
	waits := 0
	timer := func(x time.Duration) {
		waits++
		d = x
	}
	Hook("sleep", timer)
	Hook("after", timer)
	n := SpawnCount()
	req := &callRequest{method: f.name, args: nil, callResponse: ch}
	err := f.c.process(req)
	Assert("C13 the feature's routine goes on", err == nil)
	Assert("C13 one timer is started for a call", SpawnCount() == n+1)
	// the expiry of an unanswered call
	<-ch
	req.done = false
	RunSpawn(n)
	Assert("C13 the timer waits once", waits == 1)
	Assert("C13 expiry answers the call", Sent(ch) == 2)
	Assert("C13 expiry answers with an error", SentAt(ch, 1).err != nil)
	return d
}

func seconds(d time.Duration, t float32) bool {
	x := float64(t) * 1e9
	y := float64(int64(d))
	return y-x <= 1000 && x-y <= 1000
}

func anyTimeout(name string) float32 {
	t := Any[float32](name)
	Assume(t >= 0 && t <= 1e6)
	return t
}

func Verif_C13_configured() {
	f := anyFeature()
	Assume(f.fn.IsValid())
	t := anyTimeout("timeout")
	f.c.SetTimeout(f.name, t)
	Assert("C13 the call times out after the configured duration", seconds(expiry(f), t))
	Cover("configured")
}

func Verif_C13_default() {
	f := anyFeature()
	Assert("C13 without a setting a call times out after one second", seconds(expiry(f), 1))
	Cover("default")
}

// A setting of another method, present or not, changes nothing.
func Verif_C13_other() {
	name, other := Any[string]("method"), Any[string]("other")
	Assume(other != name)
	LoopInv("methods have separate settings", func(k int) bool {
		a, b := LoopVal[*meta](0).funcs[name], LoopVal[*meta](0).funcs[other]
		return a == nil || a != b
	})
	f := anyFeatureWith(name)
	Assume(f.fn.IsValid())
	if Any[bool]("set") {
		f.c.SetTimeout(f.name, anyTimeout("timeout"))
	}
	d := expiry(f)
	f.c.SetTimeout(other, anyTimeout("other timeout"))
	Assert("C13 the setting of another method has no effect", expiry(f) == d)
	Cover("other")
}

// A later setting replaces an earlier one.
func Verif_C13_again() {
	f := anyFeature()
	Assume(f.fn.IsValid())
	t := anyTimeout("timeout")
	f.c.SetTimeout(f.name, t)
	d := expiry(f)
	f.c.SetTimeout(f.name, anyTimeout("second"))
	f.c.SetTimeout(f.name, t)
	Assert("C13 the latest setting counts", expiry(f) == d)
	Cover("again")
}
