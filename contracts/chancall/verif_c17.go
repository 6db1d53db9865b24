//go:build go1.21

// verif:properties C17

package chancall

import (
	"reflect"
	"time"

	. "github.com/muguangyi/ferry/verifghost"
)

// guardedRequest is a request that other routines may answer at any time they have its lock.
func guardedRequest(method string, ch chan *callResponse) *callRequest {
	r := &callRequest{method: method, args: Any[[]interface{}]("args"), callResponse: ch}
	Guard("the answered flag of a request", &r.done, &r.Mutex)
	OnLock(&r.Mutex, func() { r.done = Any[bool]("answered then") })
	return r
}

// A response never waits, so the lock of its request is released in any case.
func Verif_C17_request() {
	f := anyFeature()
	ch := make(chan *callResponse, 1)
	r := guardedRequest(f.name, ch)
	OnSend(ch, func(x *callResponse) {})
	Hook("sleep", func(d time.Duration) { Assert("C17 a timer waits without a lock", NoLocks()) })
	Hook("reflect.call", func(fn reflect.Value, ps []reflect.Value) {
		Assert("C17 features are called without a lock", NoLocks())
		Cover("called")
	})
	f.c.process(r)
	Assert("C17 a request's lock is released", NoLocks())
	RunSpawn(SpawnCount() - 1) // the timer
	Assert("C17 the timer releases the lock", NoLocks())
	Cover("request")
}

func Verif_C17_timer() {
	ch := make(chan *callResponse, 1)
	r := guardedRequest(Any[string]("method"), ch)
	OnSend(ch, func(x *callResponse) {})
	Hook("sleep", func(d time.Duration) { Assert("C17 a timer waits without a lock", NoLocks()) })
	track(r, Any[float32]("timeout"))
	RunSpawned()
	Assert("C17 the timer releases the lock", NoLocks())
	Cover("timer")
}

// Once a request has been handed over its flag belongs to its lock.
func Verif_C17_caller() {
	c := &callee{callRequest: make(chan *callRequest, 2)}
	k := NewCaller(c)
	n := 0
	OnSend(c.callRequest, func(r *callRequest) {
		n++
		Assert("C17 a response never waits for its receiver", cap(r.callResponse) >= 1)
		Assert("C17 a request is handed over without a lock", NoLocks())
		Guard("the answered flag of a request", &r.done, &r.Mutex)
		r.callResponse <- &callResponse{result: Any[[]interface{}]("result"), err: Any[error]("error")}
	})
	if Any[bool]("with result") {
		k.CallWithResult(Any[string]("method"), Any[[]interface{}]("args")...)
	} else {
		k.Call(Any[string]("method"), Any[[]interface{}]("args")...)
	}
	Assert("C17 a call keeps no lock", NoLocks() && n == 1)
	Cover("caller")
}
