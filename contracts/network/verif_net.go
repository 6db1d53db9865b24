//go:build go1.21

// verif:properties C06 C07 C08

package network

import (
	"net"

	. "github.com/muguangyi/ferry/verifghost"
)

// ghostConn is a connection over which a stream of arbitrary bytes arrives, split into reads in any way.
// The byte at the (arbitrary, fixed) position at stands for all of them.
type ghostConn struct {
	net.Conn
	received int // bytes that have arrived
	at       int
	b        byte
	reads    func()
	write    func(b []byte) (int, error)
	close    func()
}

func (c *ghostConn) Read(b []byte) (int, error) {
	c.reads()
	n := Any[int]("size of a read")
	if Any[bool]("connection lost") {
		return 0, Any[error]("read error")
	}
	Assume(n >= 0 && n <= len(b))
	Havoc(b)
	Assume(Pure(func() bool { return !(c.at >= c.received && c.at < c.received+n) || b[c.at-c.received] == c.b }))
	c.received += n
	Assume(c.received < 1<<40)
	return n, nil
}

func (c *ghostConn) Close() error {
	c.close()
	return nil
}

func (c *ghostConn) Write(b []byte) (int, error) { return c.write(b) }

// ghostSerializer cuts the stream at arbitrary places: the packet that begins at position p of the stream has
// frame(p) bytes. That a serializer cuts this way whatever the chunks is what Verif_C06_slice... show.
type ghostSerializer struct {
	slice     func(source []byte) int
	unmarshal func(data []byte) interface{}
	marshal   func(obj interface{}) []byte
}

func (s *ghostSerializer) Slice(source []byte) int           { return s.slice(source) }
func (s *ghostSerializer) Unmarshal(data []byte) interface{} { return s.unmarshal(data) }
func (s *ghostSerializer) Marshal(obj interface{}) []byte    { return s.marshal(obj) }

type ghostSink struct {
	packet func(p IPeer, obj interface{})
	closed func(p IPeer)
}

func (s *ghostSink) OnConnected(p IPeer)               {}
func (s *ghostSink) OnClosed(p IPeer)                  { s.closed(p) }
func (s *ghostSink) OnPacket(p IPeer, obj interface{}) { s.packet(p, obj) }
