//go:build go1.21

// verif:properties C14
// verif:assumes fewer than 2^62 calls are made

package ferry

import (
	"github.com/muguangyi/ferry/network"

	. "github.com/muguangyi/ferry/verifghost"
)

// Every index in use is at most the counter. Other routines take indexes whenever they can: the counter grows.
func Verif_C14_newRpc() {
	last := rpcIndex // the greatest index in use
	Assume(last < 1<<62)
	others := func() {
		Assert("C14 the counter never falls below an index in use", rpcIndex >= last)
		rpcIndex = Any[int64]("counter then")
		Assume(rpcIndex >= last && rpcIndex < 1<<62)
		last = rpcIndex
	}
	Volatile(&rpcIndex, others)
	Hook("atomic", others)
	r := newRpc()
	Assert("C14 a call is made", r != nil && r.ret != nil)
	Assert("C14 the index of a call is not in use", r.index > last)
	Assert("C14 the index of a call counts as used", rpcIndex >= r.index)
	Cover("made")
}

// known: indexes of pending calls are in use, their entries are calls.
func known(d *dock) bool {
	return Forall(func(i int64) bool {
		r, ok := d.rpcs[i]
		return Implies(ok, r != nil && r.ret != nil && i <= rpcIndex)
	})
}

// A remote call, d.call or d.callWithResult, among any others.
func Verif_C14_call() {
	d := anyDock()
	Assume(rpcIndex < 1<<62)
	name, method := Any[string]("feature"), Any[string]("method")
	Assume(d.slots[name] == nil)
	args := Any[[]interface{}]("args")
	with := Any[bool]("with result")
	Guard("the pending calls", &d.rpcs, &d.rpcsMutex)

	// idx is the index under which the call is pending; on other choices of idx the call is not found and not looked at.
	idx := Any[int64]("index")
	var r *rpc
	had, sent := false, 0
	request := func(req *protoRpcRequest) {
		sent++
		e, ok := d.rpcs[req.Index]
		Assert("C14 a call is pending under the index of its request", ok && e != nil)
		if r != nil {
			Assert("C14 the request carries the index of the call", req.Index == idx && e == r)
		}
		Cover("requested")
	}
	others := func() { // others change everything but a call that has not been answered
		rpcs, i := d.rpcs, rpcIndex
		d.rpcs, rpcIndex = Any[map[int64]*rpc]("pending calls then"), Any[int64]("counter then")
		Assume(d.rpcs != nil && rpcIndex >= i && rpcIndex < 1<<62 && known(d))
		e, ok := d.rpcs[idx]
		if r != nil {
			Assume(Implies(sent == 0, ok) && Implies(ok, e == r))
		} else {
			// an index not in use yet is given to this call only
			_, was := rpcs[idx]
			Assume(Implies(ok && !was, idx > i))
		}
		_, had = d.rpcs[idx]
	}
	Assume(known(d))
	OnLock(&d.rpcsMutex, func() { others() })
	OnUnlock(&d.rpcsMutex, func() {
		if e, ok := d.rpcs[idx]; ok && !had {
			Assert("C14 one pending call is added", r == nil)
			r = e
		}
		Assert("C14 a call does not disturb pending ones", Implies(had, d.rpcs[idx] != nil && (r == nil || d.rpcs[idx] == r)))
	})
	OnLock(&d.remoteSlotsMutex, func() {
		d.remoteSlots = Any[map[string]network.IPeer]("remote slots then")
		Assume(d.remoteSlots != nil && peers(d))
	})
	Assume(sockets(d))
	var q *protoRpcRequest
	onPeer = func(p network.IPeer, obj interface{}) {
		if k, ok := obj.(*packer); ok && k != nil && k.Id == cRpcRequest {
			q, ok = k.P.(*protoRpcRequest)
			Assert("C14 the request is one", ok && q != nil)
			request(q)
		}
	}
	onSocket = func(s network.ISocket, what string, obj interface{}) {}
	answer := &ret{result: Any[[]interface{}]("result"), err: Any[error]("error")}
	taken := 0
	OnRecv(nil, func(ch chan *ret) *ret {
		if r == nil {
			Stop()
		}
		taken++
		Assert("C14 a call waits for its own response", ch == r.ret && r.index == idx)
		Assert("C14 a call waits once", taken == 1)
		Assert("C14 a call can be answered while it waits", !Closed(ch))
		Cover("answered")
		return answer
	})
	var result []interface{}
	var err error
	if with {
		result, err = d.callWithResult(name, method, args...)
		Assert("C14 the result is the response's", SameArray(result, answer.result) && len(result) == len(answer.result))
	} else {
		err = d.call(name, method, args...)
	}
	Assert("C14 the error is the response's", err == answer.err)
	Assert("C14 a call returns when it is answered", taken == 1)
	Assert("C14 no lock is kept", NoLocks())
	Cover("returned")
}

// A response goes to the pending call with its index, which is not pending any more; call k stands for every other one.
func Verif_C14_response() {
	d := anyDock()
	idx := Any[int64]("index")
	k := Any[int64]("index of another call")
	Assume(k != idx)
	result := Any[[]interface{}]("result")
	text := Any[string]("error")
	Guard("the pending calls", &d.rpcs, &d.rpcsMutex)
	var mine, here, other *rpc
	deliveries := 0
	OnLock(&d.rpcsMutex, func() {
		d.rpcs = Any[map[int64]*rpc]("pending calls then")
		Assume(d.rpcs != nil && known(d))
		here, other = d.rpcs[idx], d.rpcs[k]
		Assume(here == nil || !Closed(here.ret)) // a call closes its channel after it has been answered
	})
	OnUnlock(&d.rpcsMutex, func() {
		_, ok := d.rpcs[k]
		Assert("C14 other calls stay pending", d.rpcs[k] == other && ok == (other != nil))
		now, ok := d.rpcs[idx]
		Assert("C14 responses start no call", now == nil && !ok || now == here)
		if here != nil && now == nil {
			Assert("C14 one call is answered", mine == nil)
			mine = here
		}
	})
	OnSend(nil, func(ch chan *ret, x *ret) {
		deliveries++
		Assert("C14 a response goes to a call that is not pending any more", mine != nil)
		Assert("C14 a response goes to the call with its index", ch == mine.ret)
		Assert("C14 the result is passed on unchanged", x != nil && SameArray(x.result, result) && len(x.result) == len(result))
		if text == "" {
			Assert("C14 no error is passed on as none", x.err == nil)
		} else {
			Assert("C14 the error is passed on unchanged", x.err != nil && x.err.Error() == text)
		}
		Cover("delivered")
	})
	onPeer = func(p network.IPeer, obj interface{}) { Assert("C14 a response sends nothing", false) }
	onSocket = func(s network.ISocket, what string, obj interface{}) { Assert("C14 a response sends nothing", false) }
	d.OnPacket(anyPeer("peer"), &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: idx, Slot: Any[string]("slot"), Method: Any[string]("method"), Result: result, Err: text}})
	Assert("C14 an expected response answers the call", Implies(here != nil, mine == here))
	RunSpawned()
	Assert("C14 a response is delivered once, an unexpected one not at all", deliveries == n14(mine != nil))
	Assert("C14 no lock is kept", NoLocks())
	Cover("response")
}

// Nothing else answers or forgets a call; call k stands for every pending call.
func Verif_C14_others() {
	d := anyDock()
	p := anyPeer("peer")
	k := Any[int64]("index")
	had := false
	var r *rpc
	OnLock(&d.rpcsMutex, func() {
		d.rpcs = Any[map[int64]*rpc]("pending calls then")
		Assume(d.rpcs != nil && known(d))
		r, had = d.rpcs[k]
	})
	OnUnlock(&d.rpcsMutex, func() {
		s, has := d.rpcs[k]
		Assert("C14 pending calls stay", has == had && s == r)
	})
	OnSend(nil, func(ch chan *ret, x *ret) { Assert("C14 no call is answered", false) })
	onPeer = func(p network.IPeer, obj interface{}) {}
	onSocket = func(s network.ISocket, what string, obj interface{}) {}
	onCall = func(c *ghostCaller, name string, args []interface{}, withResult bool) ([]interface{}, error) {
		return Any[[]interface{}]("result"), Any[error]("error")
	}
	Catch(func() {
		switch Any[int]("kind") {
		case 0:
			d.OnPacket(p, &packer{Id: cError, P: &protoError{Error: Any[string]("error")}})
		case 1:
			d.OnPacket(p, &packer{Id: cHeartbeat, P: &protoHeartbeat{}})
		case 2:
			d.OnPacket(p, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: Any[string]("slot")}})
		case 3:
			d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: Any[[]string]("features of the peer")}})
		case 4:
			d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: Any[[]string]("features of the peer")}})
		case 5:
			d.OnPacket(p, &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: Any[int]("port")}})
		case 6:
			d.OnPacket(p, &packer{Id: cQueryResponse, P: &protoQueryResponse{DockAddr: Any[string]("address")}})
		case 7:
			d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: Any[int64]("index of a request"), Slot: Any[string]("slot"), Method: Any[string]("method"), Args: Any[[]interface{}]("args"), WithResult: Any[bool]("with result")}})
		case 8:
			d.OnConnected(p)
		case 9:
			d.OnClosed(p)
		}
		RunSpawned()
		Cover("others")
	})
}

func n14(b bool) int {
	if b {
		return 1
	}
	return 0
}
