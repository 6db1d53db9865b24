//go:build go1.21

// verif:properties C08

package network

import (
	. "github.com/muguangyi/ferry/verifghost"
)

// Verif_C08_send: a packet is queued or, when the queue has no place, dropped; the sender never waits.
func Verif_C08_send() {
	p := newPeer(&ghostConn{}, &ghostSerializer{}, &ghostSink{}, Any[bool]("own"))
	obj := Any[interface{}]("packet")
	queued, full := 0, false
	Assert("C08 the queue is empty at first", len(p.sendPackets) == 0 && cap(p.sendPackets) > 0)
	OnSend(p.sendPackets, func(x interface{}) {
		Assert("C08 the packet is queued", Identical(x, obj))
		queued++
	})
	OnBlock(p.sendPackets, func() { Assert("C08 a sender never waits", false) })
	OnDefault(func(ch interface{}) { full = true })
	OnRecv(p.sendPackets, func(x interface{}) { Assert("C08 queued packets are not disturbed", false) })
	p.Send(obj)
	Assert("C08 a packet is queued at most once", queued <= 1)
	Assert("C08 a packet is dropped only when the queue is full", queued == 1 || full)
	Assert("C08 a sender holds no lock afterwards", NoLocks())
	Cover("sent")
}

// Verif_C08_transmit: the send routine writes the packets it takes from the queue, each once, in their order.
// The byte at the (arbitrary, fixed) position at of what is to be written stands for all of them.
func Verif_C08_transmit() {
	c, s := &ghostConn{}, &ghostSerializer{}
	at, b := Any[int]("a position"), Any[byte]("the byte there")
	Assume(at >= 0 && at < 1<<50)
	var packet interface{} // taken from the queue, to be serialised
	produced, written := 0, 0
	ended, failed := false, false
	p := newPeer(c, s, &ghostSink{}, Any[bool]("own"))
	s.marshal = func(obj interface{}) []byte {
		Assert("C08 a packet is serialised once", packet != nil && Identical(obj, packet))
		packet = nil
		data := Any[[]byte]("packet's bytes")
		Assume(len(data) < 1<<40)
		Assume(Pure(func() bool { return Implies(at >= produced && at < produced+len(data), data[at-produced] == b) }))
		produced += len(data)
		return data
	}
	c.write = func(data []byte) (int, error) {
		Assert("C08 nothing follows a failed write", !failed)
		Assert("C08 only packets are written", written+len(data) <= produced)
		Assert("C08 packets are written unmodified and in order", Pure(func() bool {
			return Implies(at >= written && at < written+len(data), data[at-written] == b)
		}))
		if Any[bool]("connection lost") {
			failed = true
			err := Any[error]("write error")
			Assume(err != nil)
			return Any[int]("written"), err
		}
		written += len(data)
		Cover("written")
		return len(data), nil
	}
	c.reads = func() { Stop() }
	p.run()
	Assert("C08 a connection has a send and a receive routine", SpawnCount() == 2)
	OnSend(p.sendPackets, func(x interface{}) { Assert("C08 nothing else is queued", false) })
	OnRecv(p.sendPackets, func(x interface{}) interface{} {
		Assert("C08 a packet is written before the next one is taken", packet == nil && written == produced && !ended)
		Assume(produced < 1<<40)
		packet = Any[interface{}]("packet")
		if packet == nil {
			ended = true
		}
		Cover("taken")
		return packet
	})
	inv := func(name string, c func() bool) { LoopInv(name, func(k int) bool { return Pure(c) }) }
	inv("packets are written", func() bool { return written == produced && produced >= 0 && produced < 1<<41 })
	inv("no packet is left", func() bool { return packet == nil && !ended && !failed })
	if Any[bool]("first routine") {
		RunSpawn(0)
	} else {
		RunSpawn(1)
	}
	Assert("C08 the send routine ends with the connection only", ended || failed)
}

// Verif_C08_close: closing a connection writes nothing and does not wait for the queue.
func Verif_C08_close() {
	closed, told := 0, 0
	c, sink := &ghostConn{}, &ghostSink{}
	p := newPeer(c, &ghostSerializer{}, sink, Any[bool]("own"))
	c.write = func(data []byte) (int, error) {
		Assert("C08 only packets are written", false)
		return 0, nil
	}
	c.close = func() { closed++ }
	sink.closed = func(q IPeer) {
		Assert("C08 the connection is reported closed", q == IPeer(p))
		told++
	}
	OnSend(p.sendPackets, func(x interface{}) { Assert("C08 only the end is queued", x == nil) })
	OnBlock(p.sendPackets, func() { Assert("C08 closing never waits", false) })
	OnRecv(p.sendPackets, func(x interface{}) { Assert("C08 queued packets are not disturbed", false) })
	p.close()
	Assert("C08 the connection is closed", closed == 1)
	Assert("C08 the connection is reported closed once", told == 1)
	Assert("C08 the connection is not locked afterwards", NoLocks())
	Cover("closed")
}

// Verif_C08_broadcast: a socket sends to each of its connections, once.
func Verif_C08_broadcast() {
	Init()
	s := NewSocket(Any[string]("address"), Any[string]("serializer"), &ghostSink{}).(*socket)
	s.peers = Any[[]*peer]("connections")
	obj := Any[interface{}]("packet")
	n := 0
	StandIn((*peer).Send, func(p *peer, x interface{}) {
		Assert("C08 each connection is sent the packet once", n < len(s.peers) && p == s.peers[n] && Identical(x, obj))
		n++
		Cover("sent")
	})
	LoopInv("connections are served in order", func(k int) bool { return n == k })
	s.Send(obj)
	Assert("C08 all connections are sent the packet", n == len(s.peers))
}
