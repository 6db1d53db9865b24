//go:build go1.21

// verif:properties C15
// verif:assumes the feature names of an announcement and of a readiness report are given once; a provider stays connected

package ferry

import (
	"errors"

	"github.com/muguangyi/ferry/chancall"
	"github.com/muguangyi/ferry/network"

	. "github.com/muguangyi/ferry/verifghost"
)

// Calls of features of the same dock are made there, nothing is sent and nothing becomes pending.
func Verif_C15_local() {
	d := anyDock()
	name, method := Any[string]("feature"), Any[string]("method")
	args := Any[[]interface{}]("args")
	with := Any[bool]("with result")
	s := d.slots[name]
	Assume(s != nil && s.callee != nil)
	made := 0
	result, e := Any[[]interface{}]("result"), Any[error]("error")
	onCall = func(c *ghostCaller, m string, a []interface{}, withResult bool) ([]interface{}, error) {
		made++
		Assert("C15 the feature named is called", c.callee == s.callee)
		Assert("C15 the method named is called", m == method)
		Assert("C15 the arguments are passed on", SameArray(a, args) && len(a) == len(args))
		Assert("C15 results are asked for when wanted", withResult == with)
		Assert("C15 features are called without a lock", NoLocks())
		Cover("called")
		return result, e
	}
	onPeer = func(p network.IPeer, obj interface{}) { Assert("C15 a local call sends nothing", false) }
	onSocket = func(s network.ISocket, what string, obj interface{}) { Assert("C15 a local call sends nothing", false) }
	k := Any[int64]("index")
	r, ok := d.rpcs[k]
	var res []interface{}
	var err error
	c := &slot{dock: d}
	if with {
		res, err = c.CallWithResult(name, method, args...)
		Assert("C15 the result is the feature's", SameArray(res, result) && len(res) == len(result))
	} else {
		err = c.Call(name, method, args...)
	}
	Assert("C15 the error is the feature's", err == e)
	Assert("C15 a local call is made once", made == 1)
	r2, ok2 := d.rpcs[k]
	Assert("C15 a local call makes nothing pending", r == r2 && ok == ok2)
	Cover("local")
}

// route describes a remote call: it is to be sent once, to a provider, when there is one.
type route struct {
	d            *dock
	r            *rpc // the call, once it is pending
	name, method string
	args         []interface{}
	with         bool
	sent         int // times the request has been sent
	before       int // and when the lock was taken
	queries      int // queries sent since the lock was taken
	asked        bool
	p            network.IPeer // the provider there is
	hub          network.ISocket
}

func (t *route) request(p network.IPeer, q *protoRpcRequest) {
	t.sent++
	Assert("C15 a request is sent to a dock that announced the feature", p != nil && p == t.p)
	Assert("C15 a request is sent while its provider is known", Held(&t.d.remoteSlotsMutex))
	Assert("C15 a request has the feature, method and arguments of its call", Pure(func() bool {
		return q.Slot == t.name && q.Method == t.method && SameArray(q.Args, t.args) && len(q.Args) == len(t.args) && q.WithResult == t.with
	}))
	Cover("requested")
}

// others: another routine may have sent the request.
func (t *route) others() {
	q, n := Any[*protoRpcRequest]("request then"), Any[int]("times sent then")
	Assume(Pure(func() bool {
		return q == t.r.req && n == t.sent || t.r.req != nil && q == nil && n == t.sent+1
	}))
	t.r.req, t.sent = q, n
}

// setup: whenever the providers are locked, others may have changed them and may have sent the request of the call.
// Every routine leaves the request in place exactly as long as it has not been sent.
func (t *route) setup() {
	d := t.d
	OnLock(&d.remoteSlotsMutex, func() {
		d.remoteSlots = Any[map[string]network.IPeer]("providers then")
		Assume(d.remoteSlots != nil && peers(d))
		t.p = d.remoteSlots[t.name]
		if t.r != nil {
			t.others()
		}
		t.before, t.queries = t.sent, 0
	})
	OnUnlock(&d.remoteSlotsMutex, func() {
		if t.r == nil {
			return
		}
		Assert("C15 a request waits exactly as long as it has not been sent", Pure(func() bool {
			return (t.r.req == nil) == (t.sent == 1) || t.r.req == nil && t.sent == 0 && !t.asked
		}))
		q := t.r.req
		t.asked = Pure(func() bool { return t.asked || q != nil })
		Assert("C15 a request waiting has the feature, method and arguments of its call", Pure(func() bool {
			return q == nil || q.Slot == t.name && q.Method == t.method && SameArray(q.Args, t.args) && len(q.Args) == len(t.args) && q.WithResult == t.with
		}))
		Assert("C15 a request is sent once", t.sent <= 1)
	})
	onPeer = func(p network.IPeer, obj interface{}) {
		k, ok := obj.(*packer)
		Assert("C15 packets are sent", ok && k != nil)
		q, ok := k.P.(*protoRpcRequest)
		Assert("C15 a call sends its request only", ok && q != nil && k.Id == cRpcRequest)
		t.request(p, q)
	}
	onSocket = func(s network.ISocket, what string, obj interface{}) {
		k, ok := obj.(*packer)
		Assert("C15 packets are sent", ok && k != nil && what == "send")
		q, ok := k.P.(*protoQueryRequest)
		Assert("C15 the hub is asked for the feature of the call", ok && q != nil && k.Id == cQueryRequest && q.Slot == t.name)
		Assert("C15 the hub is asked", s == t.hub)
		Assert("C15 the hub is asked when there is no provider", t.p == nil)
		t.queries++
		Cover("asked")
	}
	onCall = func(c *ghostCaller, m string, a []interface{}, withResult bool) ([]interface{}, error) {
		Assert("C15 features of other docks are not called here", false)
		return nil, nil
	}
}

// Any other call is sent to a provider or the hub is asked for one.
func Verif_C15_remote() {
	d := anyDock()
	Assume(sockets(d) && rpcIndex < 1<<62)
	t := &route{d: d, hub: d.sockets[0]}
	t.name, t.method = Any[string]("feature"), Any[string]("method")
	t.args = Any[[]interface{}]("args")
	t.with = Any[bool]("with result")
	Assume(d.slots[t.name] == nil)
	idx := Any[int64]("index")
	had := false
	OnLock(&d.rpcsMutex, func() { _, had = d.rpcs[idx] })
	OnUnlock(&d.rpcsMutex, func() {
		if e, ok := d.rpcs[idx]; ok && !had {
			Assert("C15 a call becomes pending once", t.r == nil && e != nil)
			t.r = e
		}
	})
	t.setup()
	served := false // at the last look at the providers
	OnRecv(nil, func(ch chan *ret) *ret {
		if t.r == nil || ch != t.r.ret {
			Stop() // idx is not the index of the call
		}
		Assert("C15 a call is sent or the hub has been asked", t.sent == 1 || t.queries == 1 && t.asked && t.r.req != nil)
		Assert("C15 a call to a known provider is sent", Implies(t.p != nil, t.sent == 1))
		Assert("C15 a call waits without a lock", NoLocks())
		served = true
		x := Any[*ret]("response")
		Assume(x != nil)
		return x
	})
	c := &slot{dock: d}
	if t.with {
		c.CallWithResult(t.name, t.method, t.args...)
	} else {
		c.Call(t.name, t.method, t.args...)
	}
	Assert("C15 a remote call waits for its response", served)
	Cover("remote")
}

// A readiness report sends the requests waiting for its features to the providers; call idx stands for every pending
// call, number j of the report for its feature.
func Verif_C15_ready() {
	d := anyDock()
	Assume(sockets(d))
	slots := Any[[]string]("features of the report")
	Assume(len(slots) < 1<<30)
	j := Any[int]("place in the report")
	Assume(j >= 0 && j < len(slots))
	idx := Any[int64]("index")
	r, ok := d.rpcs[idx]
	Assume(ok && r != nil && r.req != nil)
	q := r.req
	// every call has its own request (Verif_C15_remote)
	own := func() { Assume(Forall(func(e *rpc) bool { return Implies(e != nil && e != r, e.req != q) })) }
	own()
	t := &route{d: d, hub: d.sockets[0], r: r, name: q.Slot, method: q.Method, args: q.Args, with: q.WithResult, asked: true}
	t.setup()
	Assume(slots[j] == t.name)
	first := d.remoteSlots[t.name]
	Assume(first != nil) // the provider has registered with this dock before it reports
	listed := true // the call was waiting when the pending calls were last looked at
	OnLock(&d.rpcsMutex, func() {
		d.rpcs = Any[map[int64]*rpc]("pending calls then")
		Assume(d.rpcs != nil && Forall(func(i int64) bool { e, ok := d.rpcs[i]; return Implies(ok, e != nil && Implies(i != idx, e != r)) }))
		t.others()
		own()
		e, ok := d.rpcs[idx]
		Assume(Pure(func() bool { return Implies(ok, e == r) && Implies(t.sent == 0, ok) }))
		listed = t.sent == 0
	})
	OnLock(&d.remoteSlotsMutex, func() { // in addition to setup's
		d.remoteSlots = Any[map[string]network.IPeer]("providers then")
		Assume(d.remoteSlots != nil && peers(d))
		t.p = d.remoteSlots[t.name]
		Assume(t.p != nil)
		t.others()
		own()
	})
	onPeer = func(p network.IPeer, obj interface{}) {
		k, ok := obj.(*packer)
		Assert("C15 packets are sent", ok && k != nil)
		x, ok := k.P.(*protoRpcRequest)
		Assert("C15 a readiness report sends requests only", ok && x != nil && k.Id == cRpcRequest)
		if x == q {
			t.request(p, x)
		}
	}
	onSocket = func(s network.ISocket, what string, obj interface{}) {}
	same := func(name string, f func() bool) { LoopInv(name, func(k int) bool { return Pure(f) }) }
	same("a request waits exactly as long as it has not been sent", func() bool {
		return (r.req == nil) == (t.sent == 1) && t.sent >= 0 && t.sent <= 1 && (r.req == nil || r.req == q)
	})
	same("requests stay as they are", func() bool {
		return q.Slot == t.name && q.Method == t.method && SameArray(q.Args, t.args) && len(q.Args) == len(t.args) && q.WithResult == t.with
	})
	LoopInv("calls are listed", func(k int) bool {
		rpcs := LoopSlice[*rpc](0)
		return len(rpcs) == IterCount() && Forall(func(i int) bool { return Implies(i >= 0 && i < len(rpcs), rpcs[i] != nil) })
	})
	LoopInv("the call is listed", func(k int) bool {
		rpcs := LoopSlice[*rpc](0)
		return Pure(func() bool { return Implies(Seen(idx), KeyPos(idx) >= 0 && KeyPos(idx) < len(rpcs) && Implies(listed, rpcs[KeyPos(idx)] == r)) })
	})
	LoopInv("the call is sent when the list has been gone through for its feature", func(k int) bool {
		o := LoopOuter(0)
		return Pure(func() bool { return Implies(o == j && (!listed || k > KeyPos(idx)), t.sent == 1) })
	})
	LoopInv("the call is sent when the report has been gone through", func(k int) bool {
		return Pure(func() bool { return Implies(k > j, t.sent == 1) })
	})
	LoopInv("the call is sent for features gone through", func(k int) bool {
		o := LoopOuter(0)
		return Pure(func() bool { return Implies(o > j, t.sent == 1) })
	})
	d.OnPacket(anyPeer("peer"), &packer{Id: cReady, P: &protoReady{Slots: slots}})
	RunSpawned()
	Assert("C15 a request waiting for a feature is sent once its provider is ready", t.sent == 1)
	Assert("C15 a request waits exactly as long as it has not been sent", (r.req == nil) == (t.sent == 1) && t.sent <= 1)
	Assert("C15 no lock is kept", NoLocks())
	Cover("ready")
}

// Requests of peers are executed by the feature named and answered once.
func Verif_C15_request() {
	d := anyDock()
	p := anyPeer("peer")
	req := &protoRpcRequest{Index: Any[int64]("index"), Slot: Any[string]("feature"), Method: Any[string]("method"), Args: Any[[]interface{}]("args"), WithResult: Any[bool]("with result")}
	index, name, method, args, with := req.Index, req.Slot, req.Method, req.Args, req.WithResult
	s := d.slots[name]
	Assume(s == nil || s.callee != nil)
	made, answers := 0, 0
	result, e := Any[[]interface{}]("result"), error(nil)
	text := Any[string]("error")
	Assume(text != "")
	if Any[bool]("the call fails") {
		e = errors.New(text)
	}
	onCall = func(c *ghostCaller, m string, a []interface{}, withResult bool) ([]interface{}, error) {
		made++
		Assert("C15 the feature named is called", s != nil && c.callee == s.callee)
		Assert("C15 the method named is called", m == method)
		Assert("C15 the arguments are passed on", SameArray(a, args) && len(a) == len(args))
		Assert("C15 results are asked for when wanted", withResult == with)
		Assert("C15 features are called without a lock", NoLocks())
		Cover("called")
		if !withResult {
			return nil, e
		}
		return result, e
	}
	onSocket = func(s network.ISocket, what string, obj interface{}) { Assert("C15 the answer goes to the peer only", false) }
	onPeer = func(q network.IPeer, obj interface{}) {
		answers++
		Assert("C15 the answer goes to the peer that asked", q == network.IPeer(p))
		k, ok := obj.(*packer)
		Assert("C15 a response is sent", ok && k != nil && k.Id == cRpcResponse)
		r, ok := k.P.(*protoRpcResponse)
		Assert("C15 a response is sent", ok && r != nil)
		Assert("C15 the response has the identifier of the request", r.Index == index)
		Assert("C15 the response names the feature and method", r.Slot == name && r.Method == method)
		if s == nil {
			Assert("C15 a request for an unknown feature is answered with an error", r.Err != "")
		} else {
			Assert("C15 the response has the result", Implies(with, SameArray(r.Result, result) && len(r.Result) == len(result)))
			if e == nil {
				Assert("C15 the response has no error", r.Err == "")
			} else {
				Assert("C15 the response has the error", r.Err == text)
			}
		}
		Cover("responded")
	}
	d.OnPacket(p, &packer{Id: cRpcRequest, P: req})
	RunSpawned()
	Assert("C15 a request is executed once", made == n15(s != nil))
	Assert("C15 a request is answered once", answers == 1)
	Cover("request")
}

// The features a peer announces are its: f stands for every feature.
func Verif_C15_announced() {
	d := anyDock()
	Assume(carried(d))
	p := anyPeer("peer")
	slots := Any[[]string]("features of the peer")
	Assume(len(slots) < 1<<30)
	f := Any[string]("feature")
	j := Any[int]("its place")
	named := Any[bool]("announced")
	if named {
		Assume(j >= 0 && j < len(slots) && slots[j] == f)
	} else {
		Assume(Forall(func(i int) bool { return Implies(i >= 0 && i < len(slots), slots[i] != f) }))
	}
	before, had := d.remoteSlots[f]
	LoopInv("features announced are the peer's", func(k int) bool {
		return Pure(func() bool { return Implies(named && k > j, d.remoteSlots[f] == network.IPeer(p)) })
	})
	LoopInv("other features are left alone", func(k int) bool {
		q, has := d.remoteSlots[f]
		return Pure(func() bool { return Implies(!named, q == before && has == had) })
	})
	onPeer = func(q network.IPeer, obj interface{}) {}
	onSocket = func(s network.ISocket, what string, obj interface{}) {}
	d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: slots}})
	RunSpawned()
	q, has := d.remoteSlots[f]
	if named {
		Assert("C15 a feature announced by a peer is called there", has && q == network.IPeer(p))
	} else {
		Assert("C15 the providers of other features are left alone", has == had && q == before)
	}
	Assert("C15 no lock is kept", NoLocks())
	Cover("announced")
}

// A provider found by the hub is connected to.
func Verif_C15_found() {
	d := anyDock()
	addr := Any[string]("address")
	opened, dialled := 0, 0
	var mine network.ISocket
	StandIn(network.NewSocket, func(a string, kind string, sink network.ISocketSink) network.ISocket {
		opened++
		mine = &ghostSocket{a, kind, sink}
		Assert("C15 the provider is connected to", a == addr && kind == "ferry" && sink == network.ISocketSink(d))
		return mine
	})
	onSocket = func(s network.ISocket, what string, obj interface{}) {
		dialled++
		Assert("C15 the provider is dialled", s == mine && what == "dial")
	}
	onPeer = func(q network.IPeer, obj interface{}) { Assert("C15 nothing is sent", false) }
	Assume(sockets(d))
	hub := d.sockets[0]
	d.OnPacket(anyPeer("hub"), &packer{Id: cQueryResponse, P: &protoQueryResponse{DockAddr: addr}})
	RunSpawned()
	Assert("C15 the provider is connected to once", opened == 1 && dialled == 1)
	Assert("C15 the hub's socket stays the first", len(d.sockets) > 0 && d.sockets[0] == hub)
	Cover("found")
}

// Queries go to the hub the dock is run with, however soon it answers.
func Verif_C15_hub() {
	d := newDock(Any[string]("dock"))
	abstract()
	hub := Any[string]("hub address")
	var first network.ISocket
	n := 0
	StandIn(network.NewSocket, func(a string, kind string, sink network.ISocketSink) network.ISocket {
		n++
		s := &ghostSocket{a, kind, sink}
		if n == 1 {
			Assert("C15 the hub is connected to", a == hub && kind == "ferry" && sink == network.ISocketSink(d))
			first = s
		}
		return s
	})
	onPeer = func(q network.IPeer, obj interface{}) {}
	onSocket = func(s network.ISocket, what string, obj interface{}) {
		if s == first && what == "dial" && Any[bool]("the hub answers at once") {
			d.OnPacket(anyPeer("hub"), &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: Any[int]("port")}})
		}
	}
	d.run(hub)
	Assert("C15 the hub's socket is the first", len(d.sockets) > 0 && d.sockets[0] == first && first != nil)
	Cover("hub")
}

var _ = chancall.NewCaller

func n15(b bool) int {
	if b {
		return 1
	}
	return 0
}
