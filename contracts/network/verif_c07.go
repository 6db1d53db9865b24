//go:build go1.21

// verif:properties C07

package network

import (
	. "github.com/muguangyi/ferry/verifghost"
)

// Verif_C07_dropped: of the frames arriving, those rejected are dropped, and those after them still arrive.
func Verif_C07_dropped() {
	c := &ghostConn{at: 0}
	Assume(c.received == 0)
	var p *peer
	rejected, after := false, false
	var made interface{}
	s := &ghostSerializer{}
	s.slice = func(source []byte) int {
		n := Any[int]("length of the next frame")
		Assume(n >= 0 && n <= len(source))
		return n
	}
	s.unmarshal = func(data []byte) interface{} {
		Assert("C07 an accepted frame is handed over before the next", made == nil)
		after = rejected
		made = Any[interface{}]("message or nil")
		if made == nil {
			rejected = true
			Cover("rejected")
		}
		return made
	}
	sink := &ghostSink{packet: func(q IPeer, obj interface{}) {
		Assert("C07 a rejected frame is not handed over", obj != nil)
		Assert("C07 what is handed over is the message made", obj == made && q == IPeer(p))
		if after {
			Cover("handed over after a rejected one")
		}
		made = nil
	}}
	p = newPeer(c, s, sink, false)
	c.reads = func() {
		Assert("C07 accepted frames are handed over before more is read", made == nil)
	}
	inv := func(name string, c func() bool) { LoopInv(name, func(k int) bool { return Pure(c) }) }
	inv("arrived bytes", func() bool { return c.received >= 0 && c.received < 1<<40 })
	inv("buffered bytes", func() bool {
		return 0 <= StreamPos(p.recvBuffer) && StreamPos(p.recvBuffer) <= StreamEnd(p.recvBuffer) && StreamEnd(p.recvBuffer) == c.received
	})
	inv("messages are handed over", func() bool { return made == nil })
	LoopInv("the next frame lies within the bytes", func(k int) bool {
		n := 0
		if LoopHas[int](0) {
			n = LoopPhi[int](0)
		}
		return Pure(func() bool { return 0 <= n && n <= StreamEnd(p.recvBuffer)-StreamPos(p.recvBuffer) })
	})
	p.run()
	OnRecv(p.sendPackets, func(x interface{}) { Stop() })
	OnBlock(p.sendPackets, func() { Stop() })
	if Any[bool]("first routine") {
		RunSpawn(0)
	} else {
		RunSpawn(1)
	}
}
