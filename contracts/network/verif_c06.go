//go:build go1.21

// verif:properties C06
// verif:assumes a connection's Read reports an error only together with no bytes

package network

import (
	. "github.com/muguangyi/ferry/verifghost"
)

func frame(p int) int {
	n := UF[int]("frame", p)
	Assume(n > 0 && n < 1<<40)
	return n
}

// Verif_C06_receive: the packets of the stream are handed over one by one, each as soon as it has arrived.
func Verif_C06_receive() {
	c := &ghostConn{at: Any[int]("a position"), b: Any[byte]("the byte there")}
	Assume(c.at >= 0 && c.at < 1<<40)
	consumed := 0 // where the next packet begins
	var p *peer
	var made interface{}
	next := func() int { // the length of the next packet once it has arrived
		n := frame(consumed)
		if c.received-consumed < n {
			return 0
		}
		return n
	}
	s := &ghostSerializer{}
	s.slice = func(source []byte) int {
		Assert("C06 all bytes not handed over yet are looked at", len(source) == c.received-consumed)
		Assert("C06 bytes arrive unmodified", Pure(func() bool {
			return !(c.at >= consumed && c.at < c.received) || source[c.at-consumed] == c.b
		}))
		return next()
	}
	s.unmarshal = func(data []byte) interface{} {
		Assert("C06 a packet is one frame", len(data) == frame(consumed) && consumed+len(data) <= c.received)
		Assert("C06 packets are unmodified", Pure(func() bool {
			return !(c.at >= consumed && c.at < consumed+len(data)) || data[c.at-consumed] == c.b
		}))
		Assert("C06 the packet before has been handed over", made == nil)
		consumed += len(data)
		made = Any[interface{}]("packet")
		Cover("a packet")
		return made
	}
	sink := &ghostSink{packet: func(q IPeer, obj interface{}) {
		Assert("C06 packets are handed over once and as they were unmarshalled", q == IPeer(p) && made != nil && obj == made)
		made = nil
		Cover("handed over")
	}}
	p = newPeer(c, s, sink, false)
	c.reads = func() {
		Assert("C06 packets are handed over as soon as they have arrived", next() == 0 && made == nil)
	}
	inv := func(name string, c func() bool) { LoopInv(name, func(k int) bool { return Pure(c) }) }
	inv("bytes arrive before they are consumed", func() bool { return consumed >= 0 && consumed <= c.received && c.received < 1<<40 })
	inv("consumed bytes are dropped", func() bool { return StreamPos(p.recvBuffer) == consumed })
	inv("arrived bytes are kept", func() bool { return StreamEnd(p.recvBuffer) == c.received })
	LoopInv("the next packet's length is known", func(k int) bool {
		n := 0 // waiting for more
		if LoopHas[int](0) {
			n = LoopPhi[int](0)
		}
		return Pure(func() bool { return n == next() })
	})
	inv("packets are handed over", func() bool { return made == nil })
	LoopInv("kept bytes are unmodified", func(k int) bool {
		return Pure(func() bool { return Implies(c.at < c.received, StreamByte(p.recvBuffer, c.at) == c.b) })
	})
	p.run()
	Assert("C06 a connection has a send and a receive routine", SpawnCount() == 2)
	OnRecv(p.sendPackets, func(x interface{}) { Stop() })
	OnBlock(p.sendPackets, func() { Stop() })
	if Any[bool]("first routine") {
		RunSpawn(0)
	} else {
		RunSpawn(1)
	}
}

// stable: where a serializer cuts depends on the bytes of the frame only, and a frame is cut as soon as it is complete.
func stable(slice func([]byte) int) {
	b := Any[[]byte]("bytes so far")
	m := Any[int]("of which had arrived earlier")
	Assume(len(b) < 1<<40 && m >= 0 && m <= len(b))
	LoopInv("no end of a packet yet", func(k int) bool {
		return Forall(func(i int) bool { return Implies(i >= 0 && i < k && i < len(b), b[i] != 0) })
	})
	n := slice(b)
	l := slice(b[:m])
	Assert("C06 a frame lies within the bytes", n >= 0 && n <= len(b))
	if n > 0 && m >= n {
		Assert("C06 bytes after a frame do not change it", l == n)
	} else {
		Assert("C06 an incomplete frame is not cut", l == 0)
	}
	Cover("cut")
}

func Verif_C06_slice_txt() { stable(new(txtSerializer).Slice) }
