//go:build go1.21

// verif:properties C20

package network

import (
	"net"
	"strings"
	"time"

	. "github.com/muguangyi/ferry/verifghost"
)

// What one side of a mock connection writes is a sequence of bytes that travels in pieces over the reader's
// channel. The byte at the (arbitrary, fixed) position at of that sequence stands for all of them.

// Verif_C20_read: reading continues where the last read ended, whatever the pieces and the read buffers.
func Verif_C20_read() {
	c := newConn()
	at, b := Any[int]("a position"), Any[byte]("the byte there")
	read := Any[int]("bytes read") // so far
	c.remain = Any[[]byte]("bytes not read yet")
	Assume(at >= 0 && at < 1<<50 && read >= 0 && read < 1<<50)
	taken := read + len(c.remain) // from the channel
	Assume(Pure(func() bool { return Implies(at >= read && at < taken, c.remain[at-read] == b) }))
	buf := Any[[]byte]("read buffer")
	Assume(!SameArray(buf, c.remain))
	ended, pieces := false, 0
	OnRecv(c.chanbuf, func(ch chan []byte) []byte {
		Assert("C20 pieces are read completely before the next one", Pure(func() bool { return taken == read }))
		Assert("C20 a read waits for one piece", pieces == 0)
		pieces++
		if Any[bool]("other side closed") {
			ended = true
			return nil
		}
		piece := Any[[]byte]("piece")
		Assume(piece != nil && len(piece) < 1<<40)
		Assume(!SameArray(piece, buf)) // pieces are shared with nobody, as Verif_C20_write says
		Assume(Pure(func() bool { return Implies(at >= taken && at < taken+len(piece), piece[at-taken] == b) }))
		taken += len(piece)
		return piece
	})
	n, err := c.Read(buf)
	if ended {
		Assert("C20 the end is reported as an error", err != nil && n == 0)
		Cover("ended")
		return
	}
	Assert("C20 a read succeeds", err == nil && n >= 0 && n <= len(buf))
	Assert("C20 bytes are read in order, unmodified", Pure(func() bool {
		return Implies(at >= read && at < read+n, buf[at-read] == b)
	}))
	Assert("C20 a read makes progress", n > 0 || len(buf) == 0 || taken == read)
	Assert("C20 bytes that do not fit are kept", len(c.remain) == taken-read-n)
	Assert("C20 kept bytes are unmodified", Pure(func() bool {
		return Implies(at >= read+n && at < taken, c.remain[at-read-n] == b)
	}))
	Cover("read")
}

// pair is a connection of two ends.
func pair() (a, b *conn) {
	a, b = newConn(), newConn()
	a.peer, b.peer = b, a
	return
}

// Verif_C20_write: a write puts exactly the bytes given on the other side's channel, as they are then.
func Verif_C20_write() {
	c, other := pair()
	data := Any[[]byte]("bytes")
	i, b := Any[int]("a position"), Any[byte]("the byte there")
	Assume(Pure(func() bool { return Implies(i >= 0 && i < len(data), data[i] == b) }))
	sent := 0
	var piece []byte
	OnSend(other.chanbuf, func(p []byte) {
		sent++
		piece = p
		Assert("C20 writing does not end the connection", p != nil)
	})
	OnSend(c.chanbuf, func(p []byte) { Assert("C20 the writer's own input is not disturbed", false) })
	n, err := c.Write(data)
	Havoc(data) // the caller may reuse its buffer
	Assert("C20 a write succeeds", err == nil && n == len(data))
	Assert("C20 bytes are passed on once", sent == 1 && len(piece) == len(data))
	Assert("C20 bytes are passed on unmodified", Pure(func() bool { return Implies(i >= 0 && i < len(piece), piece[i] == b) }))
	Cover("written")
}

// Verif_C20_close: closing ends the other side's input once, behind all that was written.
func Verif_C20_close() {
	c, other := pair()
	ends := 0
	OnSend(other.chanbuf, func(p []byte) {
		Assert("C20 closing writes nothing", p == nil)
		ends++
	})
	OnRecv(other.chanbuf, func(ch chan []byte) []byte {
		Assert("C20 closing takes nothing back", false)
		return nil
	})
	c.Close()
	c.Close()
	Assert("C20 the end is written once", ends == 1)
	_, err := c.Write(Any[[]byte]("bytes"))
	Assert("C20 nothing is written behind the end", err != nil && ends == 1)
	Cover("closed")
}

// port is the port of an address, the part behind its last colon.
func port(a string) string {
	info := strings.Split(a, ":")
	return info[len(info)-1]
}

// Verif_C20_listen: a listener is registered for its port and no other listener is touched.
func Verif_C20_listen() {
	n := new(netMockTcp)
	address, other := Any[string]("address"), Any[string]("another address")
	listeners = Any[map[string]*listener]("listeners")
	Assume(listeners != nil)
	Guard("C20 listeners are guarded by their lock", &listeners, &listenersMutex)
	var before, own, theirs *listener
	OnLock(&listenersMutex, func() { before = listeners[formatAddr(other)] })
	OnUnlock(&listenersMutex, func() { own, theirs = listeners[formatAddr(address)], listeners[formatAddr(other)] })
	l, err := n.Listen(Any[string]("network"), address)
	Assert("C20 listening succeeds", err == nil)
	Assert("C20 the listener is registered for its port", l == net.Listener(own) && own.address.address == formatAddr(address))
	if port(address) == port(other) {
		Assert("C20 same port, same listener", theirs == own)
		Cover("same port")
	} else {
		Assert("C20 other ports are not disturbed", theirs == before)
		Cover("other port")
	}
	Assert("C20 addresses are told apart by their ports", (formatAddr(address) == formatAddr(other)) == (port(address) == port(other)))
}

// Verif_C20_accept: accepting connects both ends to each other.
func Verif_C20_accept() {
	in := newConn()
	in.status = 1
	in.localAddr.address = Any[string]("address")
	l := &listener{address: &addr{address: Any[string]("own address")}, chanconn: make(chan *conn, 1), conns: make(map[string]*conn)}
	closed := Any[bool]("closed")
	OnRecv(l.chanconn, func(ch chan *conn) *conn {
		if closed {
			return nil
		}
		return in
	})
	x, err := l.Accept()
	if closed {
		Assert("C20 a closed listener accepts nothing", err != nil && x == nil && in.peer == nil && in.status == 1)
		Cover("closed")
		return
	}
	c := x.(*conn)
	Assert("C20 the ends are connected to each other", err == nil && c.peer == in && in.peer == c && c != in)
	Assert("C20 each end has its own input", c.chanbuf != in.chanbuf && len(c.chanbuf) == 0 && len(in.chanbuf) == 0 && c.remain == nil && in.remain == nil)
	Assert("C20 the dialler is told", in.status == 2)
	Assert("C20 the ends know each other's address", c.RemoteAddr().String() == in.LocalAddr().String() && c.LocalAddr().String() == l.address.address)
	Cover("accepted")
}

// Verif_C20_dial: a connection is offered to the listener of the port dialled, once, and to no other.
func Verif_C20_dial() {
	n := new(netMockTcp)
	address := Any[string]("address")
	Guard("C20 listeners are guarded by their lock", &listeners, &listenersMutex)
	Guard("C20 ports are guarded by the lock", &vport, &listenersMutex)
	var l *listener                  // registered for the port at the moment
	OnLock(&listenersMutex, func() { // anything may have been registered in between, as Verif_C20_listen says
		listeners = Any[map[string]*listener]("listeners")
		vport = Any[int]("last port")
		Assume(listeners != nil && vport > 0 && vport < 1<<40)
		l = listeners[formatAddr(address)]
		Assume(l == nil || l.address != nil && l.address.address == formatAddr(address) && l.chanconn != nil && !Closed(l.chanconn))
	})
	var offered *conn
	var to *listener
	accepted := false
	done, connected := false, false
	OnSend(nil, func(ch chan bool, succ bool) { done, connected = true, succ })
	OnSend(nil, func(ch chan *conn, c *conn) {
		Assert("C20 a connection is offered once", offered == nil && c != nil)
		Assert("C20 a connection is offered to the listener registered for the port", l != nil && ch == l.chanconn)
		offered, to = c, l
		Cover("offered")
	})
	Hook("sleep", func(d time.Duration) {
		if offered != nil && !accepted && Any[bool]("accepted") { // as Verif_C20_accept says
			accepted = true
			offered.peer, offered.status = newConn(), 2
		}
	})
	OnRecv(nil, func(ch chan bool) bool {
		RunSpawned()
		Assert("C20 dialling ends", done)
		return connected
	})
	inv := func(name string, f func(c *conn) bool) {
		LoopInv(name, func(k int) bool {
			c := *LoopVal[**conn](0)
			return Pure(func() bool { return f(c) })
		})
	}
	inv("offered or not", func(c *conn) bool { return (offered == nil) == (to == nil) && Implies(offered != nil, offered == c) })
	inv("not offered", func(c *conn) bool { return Implies(offered == nil, c.status == 0 && !accepted) })
	inv("offered, not accepted", func(c *conn) bool { return Implies(offered != nil && !accepted, c.status == 1) })
	inv("accepted", func(c *conn) bool { return Implies(accepted, c.status == 2 && c.peer != nil) })
	inv("knows the other side", func(c *conn) bool {
		return c.remoteAddr != nil && c.localAddr != nil && Implies(offered != nil, c.remoteAddr == to.address && to.address != nil && to.address.address == formatAddr(address))
	})
	x, err := n.Dial(Any[string]("network"), address)
	if err != nil {
		Assert("C20 a failed dial is not connected", !accepted && x == nil)
		Cover("failed")
		return
	}
	Assert("C20 dialling connects to the listener of that port", accepted && x == net.Conn(offered))
	Assert("C20 that listener's address is the remote one", x.RemoteAddr() == net.Addr(to.address) && x.RemoteAddr().String() == formatAddr(address))
	Assert("C20 no lock is left", NoLocks())
	Cover("connected")
}
