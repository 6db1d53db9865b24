//go:build go1.21

// verif:properties C14 C15 C16 C17 C19
package ferry

import (
	"github.com/muguangyi/ferry/chancall"
	"github.com/muguangyi/ferry/network"

	. "github.com/muguangyi/ferry/verifghost"
)

// What is done with peers and sockets goes to onPeer and onSocket, whatever they are.
var onPeer func(p network.IPeer, obj interface{})
var onSocket func(s network.ISocket, what string, obj interface{})

// ghostSocket is a socket the dock opens.
type ghostSocket struct {
	addr, kind string
	sink       network.ISocketSink
}

func (s *ghostSocket) Listen()              { onSocket(s, "listen", nil) }
func (s *ghostSocket) Dial()                { onSocket(s, "dial", nil) }
func (s *ghostSocket) Close()               { onSocket(s, "close", nil) }
func (s *ghostSocket) Send(obj interface{}) { onSocket(s, "send", obj) }

func abstract() {
	const pkg = "invoke:(github.com/muguangyi/ferry/network."
	onSend = func(p *ghostPeer, obj interface{}) { onPeer(p, obj) }
	Hook(pkg+"IPeer).Send", func(p network.IPeer, obj interface{}) { onPeer(p, obj) })
	Hook(pkg+"ISocket).Send", func(s network.ISocket, obj interface{}) { onSocket(s, "send", obj) })
	Hook(pkg+"ISocket).Close", func(s network.ISocket) { onSocket(s, "close", nil) })
	Hook("invoke:(github.com/muguangyi/ferry.IFeature).OnStart", func(f IFeature, s ISlot) { onFeature(f, true, s) })
	Hook("invoke:(github.com/muguangyi/ferry.IFeature).OnDestroy", func(f IFeature, s ISlot) { onFeature(f, false, s) })
	StandIn(network.ExtendSerializer, func(name string, s network.ISerializer) {})
	StandIn(network.NewSocket, func(addr string, kind string, sink network.ISocketSink) network.ISocket {
		return &ghostSocket{addr, kind, sink}
	})
	StandIn(chancall.NewCaller, func(c chancall.ICallee) chancall.ICaller { return &ghostCaller{c} })
}

// ghostCallee is a feature that can be called; its name is the only thing the dock learns about it.
type ghostCallee struct{ name string }

func (c *ghostCallee) Name() string                            { return c.name }
func (c *ghostCallee) SetTimeout(name string, timeout float32) {}

// ghostFeature is a feature; the start and end of features go to onFeature.
type ghostFeature struct{ id int }

var onFeature func(f IFeature, start bool, s ISlot)

func (f *ghostFeature) OnStart(s ISlot)   { onFeature(f, true, s) }
func (f *ghostFeature) OnDestroy(s ISlot) { onFeature(f, false, s) }

// anyDock is a dock with arbitrary contents.
func anyDock() *dock {
	d := newDock(Any[string]("dock name"))
	abstract()
	onFeature = func(f IFeature, start bool, s ISlot) {}
	d.sockets = Any[[]network.ISocket]("sockets")
	d.slots = Any[map[string]*slot]("slots")
	d.remoteSlots = Any[map[string]network.IPeer]("remote slots")
	d.rpcs = Any[map[int64]*rpc]("pending calls")
	Assume(d.slots != nil && d.remoteSlots != nil && d.rpcs != nil)
	return d
}

// carried: the features of a dock are slots (newDock shows it).
func carried(d *dock) bool {
	return Forall(func(x string) bool {
		s, ok := d.slots[x]
		return Implies(ok, s != nil)
	})
}

// peers: the providers a dock knows are connections.
func peers(d *dock) bool {
	return Forall(func(x string) bool {
		p, ok := d.remoteSlots[x]
		return Implies(ok, p != nil)
	})
}

// sockets: a running dock has a socket to the hub.
func sockets(d *dock) bool {
	return len(d.sockets) >= 1 && len(d.sockets) < 1<<40 && Forall(func(i int) bool {
		return Implies(i >= 0 && i < len(d.sockets), d.sockets[i] != nil)
	})
}

// ghostCaller calls a feature of this dock.
type ghostCaller struct{ callee chancall.ICallee }

var onCall func(c *ghostCaller, name string, args []interface{}, withResult bool) ([]interface{}, error)

func newGhostCaller(c chancall.ICallee) chancall.ICaller { return &ghostCaller{c} }

func (c *ghostCaller) Call(name string, args ...interface{}) error {
	_, err := onCall(c, name, args, false)
	return err
}
func (c *ghostCaller) CallWithResult(name string, args ...interface{}) ([]interface{}, error) {
	return onCall(c, name, args, true)
}
