//go:build go1.21

// verif:properties C17
// verif:assumes calls close their channel after they have been answered only (C14); state is shared through the variables named only; what is never changed after it has been shared needs no lock

package ferry

import (
	"container/list"

	"github.com/muguangyi/ferry/chancall"
	"github.com/muguangyi/ferry/network"

	. "github.com/muguangyi/ferry/verifghost"
)

// guarded is a hub whose lists, entries and counters need their locks.
func guardedHub() (*hub, *lists) {
	h := anyHub()
	Assume(Forall(func(x string) bool { l, ok := h.docks[x]; return Implies(ok, l != nil) }))
	g := anyLists(h)
	GuardType("the readiness of providers", &(&stub{}).ready, &h.docksMutex)
	onSend = func(p *ghostPeer, obj interface{}) {}
	Hook("exit", func() { Stop() })
	// the lists change between any two acquisitions of their lock
	OnLock(&h.docksMutex, func() {
		h.docks = Any[map[string]*list.List]("docks then")
		Assume(h.docks != nil && Forall(func(x string) bool { l, ok := h.docks[x]; return Implies(ok, l != nil) }))
	})
	OnLock(&h.assignPortsMutex, func() {
		h.assignPorts = Any[map[string]int]("assigned ports then")
		Assume(h.assignPorts != nil)
	})
	return h, g
}

// walks describes loops along a provider list.
func walks() {
	LoopInv("lists are walked along their providers", func(k int) bool {
		if !LoopHas[*list.Element](nil) {
			return true
		}
		i := LoopPhi[*list.Element](0)
		return Pure(func() bool {
			if i == nil {
				return true
			}
			x, ok := i.Value.(*stub)
			if !ok || x == nil {
				return false
			}
			return true
		})
	})
}

func Verif_C17_hub() {
	h, _ := guardedHub()
	walks()
	p := anyPeer("dock")
	switch Any[int]("event") {
	case 0:
		h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: Any[[]string]("features")}})
		Cover("register")
	case 1:
		h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: Any[[]string]("features")}})
		Cover("ready")
	case 2:
		h.OnPacket(p, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: Any[string]("feature")}})
		Assert("C17 a query keeps no lock", NoLocks())
		Cover("query")
	case 3:
		h.OnPacket(p, &packer{Id: cHeartbeat, P: &protoHeartbeat{}})
	case 4:
		h.OnPacket(p, &packer{Id: cError, P: &protoError{}})
	case 5:
		h.OnConnected(p)
	case 6:
		h.OnClosed(p)
	case 7:
		h.allocate(Any[string]("address"))
		Cover("allocate")
	}
	Assert("C17 the hub keeps no lock", NoLocks())
	RunSpawned()
	Assert("C17 routines of the hub keep no lock", NoLocks())
}

// Starting and closing a hub.
func Verif_C17_hub_life() {
	h, _ := guardedHub()
	StandIn(network.ExtendSerializer, func(name string, s network.ISerializer) {
		Assert("C17 serializers are registered without a lock of the hub", NoLocks())
	})
	StandIn(network.NewSocket, func(addr string, kind string, sink network.ISocketSink) network.ISocket {
		return &ghostSocket{addr, kind, sink}
	})
	onSocket = func(s network.ISocket, what string, obj interface{}) {}
	h.run(Any[string]("address"))
	RunSpawned()
	h.Close()
	Assert("C17 the hub keeps no lock", NoLocks())
	Cover("hub life")
}

// The order in which the locks of a dock have been taken, one while another was held.
var callsFirst, callsLast bool

// guardedDock is a dock whose pending calls, providers and waiting requests need their locks.
func guardedDock() *dock {
	d := anyDock()
	Assume(sockets(d) && peers(d) && carried(d) && rpcIndex < 1<<62)
	calls := func() bool {
		return Forall(func(x int64) bool { r, ok := d.rpcs[x]; return Implies(ok, r != nil && !Closed(r.ret)) })
	}
	Assume(calls())
	callsFirst, callsLast = false, false
	some := Any[*rpc]("a call")
	Assume(some != nil)
	onFeature = func(f IFeature, start bool, s ISlot) {
		Assert("C17 features are started and destroyed without a lock", NoLocks())
	}
	Assume(Forall(func(x string) bool { s, ok := d.slots[x]; return Implies(ok, s.feature != nil) }))
	Guard("the pending calls", &d.rpcs, &d.rpcsMutex)
	Guard("the providers", &d.remoteSlots, &d.remoteSlotsMutex)
	GuardType("the waiting request of a call", &(&rpc{}).req, &d.remoteSlotsMutex)
	OnLock(&d.rpcsMutex, func() {
		if Held(&d.remoteSlotsMutex) {
			callsLast = true
		}
		d.rpcs = Any[map[int64]*rpc]("pending calls then")
		Assume(d.rpcs != nil && calls())
	})
	OnLock(&d.remoteSlotsMutex, func() {
		if Held(&d.rpcsMutex) {
			callsFirst = true
		}
		d.remoteSlots = Any[map[string]network.IPeer]("providers then")
		Assume(d.remoteSlots != nil && peers(d))
		some.req = Any[*protoRpcRequest]("request then")
	})
	onPeer = func(p network.IPeer, obj interface{}) {}
	onSocket = func(s network.ISocket, what string, obj interface{}) {}
	onCall = func(c *ghostCaller, m string, a []interface{}, withResult bool) ([]interface{}, error) {
		Assert("C17 features are called without a lock", NoLocks())
		return Any[[]interface{}]("result"), Any[error]("error")
	}
	OnSend(nil, func(ch chan *ret, x *ret) {
		Assert("C17 a response is handed over without a lock", NoLocks())
	})
	OnRecv(nil, func(ch chan *ret) *ret {
		Assert("C17 a call waits without a lock", NoLocks())
		x := Any[*ret]("response")
		Assume(x != nil)
		return x
	})
	return d
}

func Verif_C17_dock() {
	d := guardedDock()
	event17(d)
	Assert("C17 locks are taken in one order", !callsFirst || !callsLast)
	if !callsFirst && !callsLast {
		Cover("dock")
		Stop()
	}
	// another routine takes them in the same order
	if Any[bool]("call") {
		(&slot{dock: d}).Call(Any[string]("feature"), Any[string]("method"))
	} else {
		event17(d)
	}
	Assert("C17 locks are taken in one order", !callsFirst || !callsLast)
}

// event17 is anything that happens to a dock.
func event17(d *dock) {
	p := anyPeer("peer")
	LoopInv("calls are calls", func(k int) bool {
		if !LoopHas[[]*rpc](nil) {
			return true
		}
		rpcs := LoopSlice[*rpc](0)
		return Forall(func(i int) bool { return Implies(i >= 0 && i < len(rpcs), rpcs[i] != nil) })
	})
	switch Any[int]("event") {
	case 0:
		d.OnPacket(p, &packer{Id: cError, P: &protoError{Error: Any[string]("error")}})
	case 1:
		d.OnPacket(p, &packer{Id: cHeartbeat, P: &protoHeartbeat{}})
	case 2:
		d.OnPacket(p, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: Any[string]("slot")}})
	case 3:
		d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: Any[[]string]("features of the peer")}})
		Cover("ready")
	case 4:
		d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: Any[[]string]("features of the peer")}})
		Cover("register request")
	case 5:
		d.OnPacket(p, &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: Any[int]("port")}})
	case 6:
		d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: Any[int64]("index"), Slot: Any[string]("slot"), Method: Any[string]("method"), Result: Any[[]interface{}]("result"), Err: Any[string]("error")}})
		Cover("response")
	case 7:
		d.OnPacket(p, &packer{Id: cQueryResponse, P: &protoQueryResponse{DockAddr: Any[string]("address")}})
	case 8:
		d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: Any[int64]("index of a request"), Slot: Any[string]("slot"), Method: Any[string]("method"), Args: Any[[]interface{}]("args"), WithResult: Any[bool]("with result")}})
	case 9:
		d.OnConnected(p)
	case 10:
		d.OnClosed(p)
	case 11:
		d.run(Any[string]("hub"))
	}
	Assert("C17 the dock keeps no lock", NoLocks())
	RunSpawned()
	Assert("C17 routines of the dock keep no lock", NoLocks())
}

// Calls of features of this dock and others.
func Verif_C17_call() {
	d := guardedDock()
	s := &slot{dock: d}
	name, method, args := Any[string]("feature"), Any[string]("method"), Any[[]interface{}]("args")
	if Any[bool]("with result") {
		s.CallWithResult(name, method, args...)
	} else {
		s.Call(name, method, args...)
	}
	Assert("C17 a call keeps no lock", NoLocks())
	Cover("call")
}

// Starting and closing a dock.
func Verif_C17_dock_life() {
	d := guardedDock()
	d.start()
	d.collect()
	d.Close()
	Assert("C17 the dock keeps no lock", NoLocks())
	Cover("dock life")
}

var _ = chancall.NewCaller
