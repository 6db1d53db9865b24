//go:build go1.21

// verif:properties C11
// verif:assumes channels are first in first out and sync.Mutex excludes; the invoked method returns (it does not panic or end its goroutine)

package chancall

import (
	"reflect"

	. "github.com/muguangyi/ferry/verifghost"
)

// consistent is the invariant of a request's lock: the flag tells whether the one response has been sent.
func consistent(r *callRequest, ch chan *callResponse) bool {
	return (r.done && Sent(ch) == 1) || (!r.done && Sent(ch) == 0)
}

// shared puts r under its lock: whenever the running routine takes the lock, another one may have answered before.
func shared(r *callRequest, ch chan *callResponse, other *callResponse) {
	Guard("the answered flag of a request", &r.done, &r.Mutex)
	OnLock(&r.Mutex, func() {
		if !r.done && Any[bool]("other routine was first") {
			r.done = true
			ch <- other
		}
	})
	OnUnlock(&r.Mutex, func() {
		Assert("C11 a request is marked answered exactly when its one response has been sent", consistent(r, ch))
	})
}

// The routine of the feature answers a request with its outcome unless it has been answered before.
func Verif_C11_outcome() {
	f := anyFeature()
	ch := make(chan *callResponse, 1)
	r := &callRequest{method: f.name, args: nil, callResponse: ch}
	other := &callResponse{}
	shared(r, ch, other)
	calls := 0
	var res []reflect.Value
	Hook("reflect.call", func(fn reflect.Value, ps []reflect.Value) { calls++ })
	Hook("reflect.return", func(fn reflect.Value, rs []reflect.Value) { res = rs })
	err := f.c.process(r)
	Assert("C11 the feature's routine goes on", err == nil)
	Assert("C11 a request is executed at most once", calls <= 1)
	Assert("C11 a request gets exactly one response", Sent(ch) == 1)
	Assert("C11 no lock is kept", NoLocks())
	got := SentAt(ch, 0)
	Assert("C11 the response is the outcome of this request", got == other || got.err != nil && calls == 0 || got.err == nil && calls == 1 && len(got.result) == len(res))
	Cover("outcome")
}

// A later call leaves the results handed out before alone. Result q stands for every result.
func Verif_C11_later() {
	f := anyFeature()
	q := Any[int]("result")
	ch1, ch2 := make(chan *callResponse, 1), make(chan *callResponse, 1)
	f.c.process(&callRequest{method: f.name, args: nil, callResponse: ch1})
	got := SentAt(ch1, 0)
	Assume(q >= 0 && q < len(got.result))
	n, v := len(got.result), got.result[q]
	f.c.process(&callRequest{method: f.name, args: nil, callResponse: ch2})
	Assert("C11 a later call does not change the response of an earlier one", len(got.result) == n && Identical(got.result[q], v))
	Assert("C11 responses are separate", SentAt(ch2, 0) != got)
	Cover("later")
}

// The timer answers with an error unless the request has been answered before.
func Verif_C11_timeout() {
	ch := make(chan *callResponse, 1)
	r := &callRequest{method: Any[string]("method"), args: nil, callResponse: ch}
	other := &callResponse{}
	shared(r, ch, other)
	track(r, Any[float32]("timeout"))
	Assert("C11 the timer does not answer at once", Sent(ch) == 0 && SpawnCount() == 1)
	RunSpawned()
	Assert("C11 a request gets exactly one response", Sent(ch) == 1)
	got := SentAt(ch, 0)
	Assert("C11 the timer answers with an error", got == other || got.err != nil)
	Cover("timeout")
}

// Requests are taken one after the other by the feature's one routine, each is executed before the next is taken.
func Verif_C11_serial() {
	f := anyFeature()
	Assert("C11 a feature has one routine", SpawnCount() == 1)
	var cur *callRequest
	executed := false
	LoopInv("requests taken so far are answered", func(k int) bool { return cur == nil || Sent(cur.callResponse) == 1 })
	OnRecv(f.c.callRequest, func() *callRequest {
		Assert("C11 a request is answered before the next one is taken", cur == nil || Sent(cur.callResponse) == 1)
		m := Any[string]("method")
		e := f.c.meta.funcs[m]
		Assume(e == nil || e.fn != nil && e.fn.Kind() == reflect.Func && e.ft == e.fn.Type()) // anyFeature shows this of every name
		cur = &callRequest{method: m, args: nil, callResponse: make(chan *callResponse, 1)}
		executed = false
		return cur
	})
	Hook("reflect.call", func(fn reflect.Value, ps []reflect.Value) {
		Assert("C11 a request is executed at most once, after it was taken and before it is answered", cur != nil && !executed && Sent(cur.callResponse) == 0)
		executed = true
		Cover("serial")
	})
	RunSpawn(0)
}

// Calls made concurrently through one caller each get their own response.
func Verif_C11_caller() {
	c := &callee{callRequest: make(chan *callRequest, 2)}
	k := NewCaller(c)
	var first, second *callRequest
	a1, a2 := Any[[]interface{}]("args"), Any[[]interface{}]("other args")
	m1, m2 := Any[string]("method"), Any[string]("other method")
	resp1 := &callResponse{result: Any[[]interface{}]("result"), err: Any[error]("err")}
	resp2 := &callResponse{result: Any[[]interface{}]("other result"), err: Any[error]("other err")}
	n := 0
	OnSend(c.callRequest, func(r *callRequest) {
		n++
		if n == 1 {
			first = r
			// another routine calls through the same caller meanwhile
			x, err := k.CallWithResult(m2, a2...)
			Assert("C11 a concurrent call gets its own response", SameArray(x, resp2.result) && len(x) == len(resp2.result) && err == resp2.err)
			Assert("C11 the first request has not been answered by it", Sent(first.callResponse) == 0 && Rcvd(first.callResponse) == 0)
			Assert("C11 a request starts unanswered", !r.done)
			Assert("C11 a response can be sent without waiting", cap(r.callResponse) >= 1)
			r.callResponse <- resp1
		} else {
			second = r
			Assert("C11 concurrent calls have separate responses", second != first && second.callResponse != first.callResponse)
			r.callResponse <- resp2
		}
	})
	x, err := k.CallWithResult(m1, a1...)
	Assert("C11 a call gets its own response", SameArray(x, resp1.result) && len(x) == len(resp1.result) && err == resp1.err)
	Assert("C11 a call makes one request", n == 2)
	Assert("C11 requests carry the method and arguments of their calls", first.method == m1 && SameArray(first.args, a1) && len(first.args) == len(a1) && second.method == m2 && SameArray(second.args, a2) && len(second.args) == len(a2))
	Cover("caller")
}

func Verif_C11_callerNoResult() {
	c := &callee{callRequest: make(chan *callRequest, 2)}
	k := NewCaller(c)
	m := Any[string]("method")
	args := Any[[]interface{}]("args")
	resp := &callResponse{result: Any[[]interface{}]("result"), err: Any[error]("err")}
	n := 0
	var before *callRequest
	OnSend(c.callRequest, func(r *callRequest) {
		n++
		Assert("C11 requests carry the method and arguments of their calls", r.method == m && SameArray(r.args, args) && len(r.args) == len(args))
		Assert("C11 a request starts unanswered", !r.done && Sent(r.callResponse) == 0 && cap(r.callResponse) >= 1)
		Assert("C11 calls have separate responses", before == nil || before.callResponse != r.callResponse)
		before = r
		r.callResponse <- resp
	})
	err := k.Call(m, args...)
	Assert("C11 a call without result gets its own error", err == resp.err && n == 1)
	err = k.Call(m, args...)
	Assert("C11 a call makes one request", err == resp.err && n == 2)
	Cover("caller without result")
}
