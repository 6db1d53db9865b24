//go:build go1.21

// verif:properties C19
// verif:assumes each registration of a dock is answered once by the hub (C10 shows it); slots and sockets of a dock are separate objects; the dock is not closed while it connects

package ferry

import (
	"os"
	"os/signal"

	"github.com/muguangyi/ferry/network"

	. "github.com/muguangyi/ferry/verifghost"
)

// separate: the slots of a dock are separate objects with a feature each.
func separate(d *dock) {
	Assume(len(d.slots) < 1<<40)
	Assume(Forall(func(x string) bool {
		s, ok := d.slots[x]
		return Implies(ok, s != nil && s.feature != nil && UF[string]("name of slot", s) == x)
	}))
}

// Starting a dock starts each feature once; name x stands for every feature.
func Verif_C19_start() {
	d := anyDock()
	separate(d)
	x := Any[string]("name")
	s, carries := d.slots[x]
	n := 0
	onFeature = func(f IFeature, start bool, t ISlot) {
		Assert("C19 starting destroys nothing", start)
		u, ok := t.(*slot)
		Assert("C19 a feature is started with its slot", ok && u != nil && f == u.feature)
		Assert("C19 only features carried are started", d.slots[UF[string]("name of slot", u)] == u)
		if u == s {
			n++
		}
		Cover("started")
	}
	LoopInv("a feature seen has been started once", func(k int) bool {
		return Pure(func() bool { return n == n19(carries && Seen(x)) })
	})
	d.start()
	Assert("C19 each feature is started once", n == n19(carries))
	Cover("start")
}

// A dock starts its features when the hub has given it a port, on which it listens and which it has reported ready for.
func Verif_C19_register_response() {
	d := anyDock()
	separate(d)
	p := anyPeer("hub")
	port := Any[int]("port")
	x := Any[string]("name")
	s, carries := d.slots[x]
	var mine network.ISocket
	opened, listens, dials, ready, n := 0, 0, 0, 0, 0
	StandIn(network.NewSocket, func(a string, kind string, sink network.ISocketSink) network.ISocket {
		opened++
		mine = &ghostSocket{a, kind, sink}
		Assert("C19 the dock listens on the port it was given", a == "0.0.0.0:"+Itoa(port) && kind == "ferry" && sink == network.ISocketSink(d))
		return mine
	})
	onSocket = func(t network.ISocket, what string, obj interface{}) {
		Assert("C19 the dock only listens", what == "listen" && t == mine)
		if Any[bool]("routines started run before the dock listens") {
			RunSpawned()
		}
		listens++
	}
	onPeer = func(q network.IPeer, obj interface{}) {
		k, ok := obj.(*packer)
		Assert("C19 readiness is reported", ok && k != nil)
		if k.Id == cReady {
			if Any[bool]("routines started run before the report is on its way") {
				RunSpawned()
			}
			_, ok := k.P.(*protoReady)
			Assert("C19 readiness is reported to the hub", ok && q == network.IPeer(p))
			Assert("C19 a dock is ready when it listens", listens == 1)
			ready++
			Cover("reported")
		}
	}
	onFeature = func(f IFeature, start bool, t ISlot) {
		Assert("C19 starting destroys nothing", start)
		u, ok := t.(*slot)
		Assert("C19 a feature is started with its slot", ok && u != nil && f == u.feature)
		Assert("C19 features are started when the dock listens and is reported ready", listens == 1 && ready == 1)
		if u == s {
			n++
		}
		Cover("started")
	}
	LoopInv("features are started after the report only", func(k int) bool { return Pure(func() bool { return ready == 0 && n == 0 || ready == 1 }) })
	LoopInv("a feature seen has been started once", func(k int) bool {
		return Pure(func() bool { return Implies(ready == 1, n == n19(carries && Seen(x))) })
	})
	d.OnPacket(p, &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: port}})
	Assert("C19 a dock listens and is reported ready", opened == 1 && listens == 1 && ready == 1)
	Assert("C19 the socket is one the dock closes", Exists(func(i int) bool { return i >= 0 && i < len(d.sockets) && d.sockets[i] == mine }))
	RunSpawned()
	Assert("C19 each feature is started once", n == n19(carries))
	_ = dials
	Cover("register response")
}

// Nothing else starts a feature, and nothing but closing the dock destroys one.
func Verif_C19_others() {
	d := anyDock()
	p := anyPeer("peer")
	var mine network.ISocket
	StandIn(network.NewSocket, func(a string, kind string, sink network.ISocketSink) network.ISocket {
		Assert("C19 one socket is opened at a time", mine == nil)
		mine = &ghostSocket{a, kind, sink}
		return mine
	})
	onFeature = func(f IFeature, start bool, t ISlot) { Assert("C19 nothing else starts or destroys features", false) }
	onPeer = func(p network.IPeer, obj interface{}) {}
	onSocket = func(s network.ISocket, what string, obj interface{}) {
		Assert("C19 nothing else closes sockets", what != "close")
	}
	onCall = func(c *ghostCaller, name string, args []interface{}, withResult bool) ([]interface{}, error) {
		return Any[[]interface{}]("result"), Any[error]("error")
	}
	Catch(func() {
		switch Any[int]("kind") {
		case 0:
			d.OnPacket(p, &packer{Id: cError, P: &protoError{Error: Any[string]("error")}})
		case 1:
			d.OnPacket(p, &packer{Id: cHeartbeat, P: &protoHeartbeat{}})
		case 2:
			d.OnPacket(p, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: Any[string]("slot")}})
		case 3:
			d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: Any[[]string]("features of the peer")}})
		case 4:
			d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: Any[[]string]("features of the peer")}})
		case 5:
			d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: Any[int64]("index"), Slot: Any[string]("slot"), Method: Any[string]("method"), Result: Any[[]interface{}]("result"), Err: Any[string]("error")}})
		case 6:
			d.OnPacket(p, &packer{Id: cQueryResponse, P: &protoQueryResponse{DockAddr: Any[string]("address")}})
		case 7:
			d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: Any[int64]("index of a request"), Slot: Any[string]("slot"), Method: Any[string]("method"), Args: Any[[]interface{}]("args"), WithResult: Any[bool]("with result")}})
		case 8:
			d.OnConnected(p)
		case 9:
			d.OnClosed(p)
		case 10:
			d.run(Any[string]("hub"))
		}
		RunSpawned()
		Assert("C19 a socket opened is one the dock closes", mine == nil || Exists(func(i int) bool { return i >= 0 && i < len(d.sockets) && d.sockets[i] == mine }))
		Cover("others")
	})
}

// Closing a dock destroys each feature once and closes each socket once: feature x and socket j stand for all. Closing it again does
// nothing.
func Verif_C19_close() {
	d := anyDock()
	separate(d)
	Assume(len(d.sockets) < 1<<40)
	x := Any[string]("name")
	s, carries := d.slots[x]
	j := Any[int]("place of a socket")
	m := len(d.sockets)
	var sock network.ISocket
	if j >= 0 && j < m {
		sock = d.sockets[j]
	}
	Assume(Forall(func(i int) bool {
		return Implies(i >= 0 && i < m, d.sockets[i] != nil && Implies(i != j, d.sockets[i] != sock))
	}))
	destroyed, closed, any := 0, 0, 0
	onFeature = func(f IFeature, start bool, t ISlot) {
		any++
		Assert("C19 closing starts nothing", !start)
		u, ok := t.(*slot)
		Assert("C19 a feature is destroyed with its slot", ok && u != nil && f == u.feature)
		if u == s {
			destroyed++
		}
		Cover("destroyed")
	}
	onSocket = func(t network.ISocket, what string, obj interface{}) {
		any++
		Assert("C19 closing closes sockets only", what == "close")
		if t == sock {
			closed++
		}
		Cover("closed")
	}
	onPeer = func(p network.IPeer, obj interface{}) {}
	LoopInv("a feature seen has been destroyed once", func(k int) bool {
		return Pure(func() bool { return destroyed == n19(carries && Seen(x)) })
	})
	LoopInv("features are destroyed once", func(k int) bool {
		return Pure(func() bool { return destroyed == n19(carries) })
	})
	LoopInv("sockets are closed from the last to the first", func(k int) bool {
		return Pure(func() bool { return closed == n19(sock != nil && m-k <= j) })
	})
	LoopInv("sockets are closed from the first to the last", func(k int) bool {
		return Pure(func() bool { return closed == n19(sock != nil && j < k) })
	})
	LoopInv("no socket is closed", func(k int) bool { return closed == 0 })
	LoopInv("sockets are closed once", func(k int) bool { return Pure(func() bool { return closed == n19(sock != nil) }) })
	d.Close()
	Assert("C19 each feature is destroyed once", destroyed == n19(carries))
	Assert("C19 each socket is closed once", closed == n19(sock != nil))
	any = 0
	LoopInv("nothing is left", func(k int) bool { return any == 0 })
	d.Close()
	Assert("C19 closing a dock again does nothing", any == 0)
	Cover("close")
}

// A new instance is one that will be closed; i stands for every instance there is.
func Verif_C19_wait() {
	Guard("the instances", &insts, &instsMutex)
	mine := &ghostInstance{}
	var before []instance
	i := Any[int]("place")
	var old instance
	added := 0
	OnLock(&instsMutex, func() {
		insts = Any[[]instance]("instances then")
		Assume(len(insts) < 1<<40)
		before = insts
		old = nil
		if i >= 0 && i < len(insts) {
			old = insts[i]
		}
	})
	OnUnlock(&instsMutex, func() {
		added += len(insts) - len(before)
		if len(insts) != len(before) {
			Assert("C19 instances are added one at a time, last", len(insts) == len(before)+1 && insts[len(before)] == instance(mine))
		}
		if i >= 0 && i < len(before) {
			Assert("C19 instances stay", insts[i] == old)
		}
	})
	StandIn(signal.Notify, func(c chan<- os.Signal, sig ...os.Signal) {})
	onClose = func(g *ghostInstance) { Assert("C19 waiting closes nothing", false) }
	waited := false
	OnRecv(nil, func(c chan os.Signal) os.Signal {
		Assert("C19 an instance is added before it is waited for", added == 1)
		Assert("C19 waiting holds no lock", NoLocks())
		waited = true
		return Any[os.Signal]("signal")
	})
	wait(mine)
	Assert("C19 an instance is added once", added == 1 && waited)
	Cover("wait")
}

// ghostInstance is a hub or dock.
type ghostInstance struct{ id int }

var onClose func(g *ghostInstance)

func (g *ghostInstance) Close() { onClose(g) }

// Closing the process closes each instance once, latest first; instances j and l stand for any two. Closing again does nothing.
func Verif_C19_destroy() {
	Guard("the instances", &insts, &instsMutex)
	j, l := Any[int]("place of an instance"), Any[int]("place of a later instance")
	m, closed, later, any, taken := 0, 0, 0, 0, false
	var mine, next instance
	OnLock(&instsMutex, func() {
		if !taken { // instances are added by any routine until they are taken
			insts = Any[[]instance]("instances then")
			Assume(len(insts) < 1<<40 && j >= 0 && j < l && l < len(insts))
			mine, next, m = insts[j], insts[l], len(insts)
			Assume(Forall(func(i int) bool {
				return Implies(i >= 0 && i < m, insts[i] != nil && Implies(i != j, insts[i] != mine) && Implies(i != l, insts[i] != next))
			}))
		}
	})
	OnUnlock(&instsMutex, func() { taken = Pure(func() bool { return taken || len(insts) == 0 }) })
	Hook("invoke:(github.com/muguangyi/ferry.instance).Close", func(g instance) {
		any++
		Assert("C19 instances are closed when they cannot be closed by another routine", taken)
		Assert("C19 instances are closed without the lock", NoLocks())
		if g == mine {
			Assert("C19 instances are closed latest first", later == 1)
			closed++
		}
		if g == next {
			later++
		}
		Cover("closed")
	})
	LoopInv("instances are taken first", func(k int) bool { return taken })
	LoopInv("instances taken are closed from the last to the first", func(k int) bool {
		return Pure(func() bool { return closed == n19(m-k <= j) && later == n19(m-k <= l) })
	})
	destroy()
	Assert("C19 each instance is closed once", closed == 1 && later == 1)
	any = 0
	LoopInv("nothing is left", func(k int) bool { return any == 0 })
	Close()
	Assert("C19 closing again does nothing", any == 0)
	Assert("C19 no lock is kept", NoLocks())
	Cover("destroy")
}

// Closing a hub closes its socket.
func Verif_C19_hub() {
	abstract()
	h := newHub()
	var mine network.ISocket
	closed, listens := 0, 0
	StandIn(network.NewSocket, func(a string, kind string, sink network.ISocketSink) network.ISocket {
		Assert("C19 a hub opens one socket", mine == nil)
		mine = &ghostSocket{a, kind, sink}
		return mine
	})
	onSocket = func(t network.ISocket, what string, obj interface{}) {
		Assert("C19 a hub listens and closes its socket", t == mine && (what == "listen" || what == "close"))
		if what == "close" {
			closed++
		} else {
			listens++
		}
	}
	h.run(Any[string]("address"))
	Assert("C19 a hub listens", listens == 1 && closed == 0)
	h.Close()
	Assert("C19 the socket of a hub is closed once", closed == 1)
	Cover("hub")
}

// Startup and Serve make instances that are closed with the process.
func Verif_C19_instances() {
	abstract()
	var inst instance
	StandIn(wait, func(i instance) {
		Assert("C19 an instance is added once", inst == nil)
		inst = i
	})
	var mine network.ISocket
	StandIn(network.NewSocket, func(a string, kind string, sink network.ISocketSink) network.ISocket {
		mine = &ghostSocket{a, kind, sink}
		s, ok := sink.(instance)
		Assert("C19 sockets belong to an instance", ok && s != nil)
		return mine
	})
	onSocket = func(t network.ISocket, what string, obj interface{}) {}
	if Any[bool]("hub") {
		Serve(Any[string]("address"))
		_, ok := inst.(*hub)
		Assert("C19 a hub is closed with the process", ok)
	} else {
		Startup(Any[string]("address"), Any[string]("name"))
		_, ok := inst.(*dock)
		Assert("C19 a dock is closed with the process", ok)
	}
	Assert("C19 the instance closed is the one that runs", mine.(*ghostSocket).sink.(instance) == inst)
	Cover("instances")
}

func n19(b bool) int {
	if b {
		return 1
	}
	return 0
}
