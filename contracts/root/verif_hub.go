//go:build go1.21

// verif:properties C09 C10 C14 C15 C16 C17 C19
// verif:assumes container/list keeps sequences as documented
package ferry

import (
	"container/list"
	"net"

	"github.com/muguangyi/ferry/network"

	. "github.com/muguangyi/ferry/verifghost"
)

// ghostPeer is a connection; what is sent on it goes to onSend.
type ghostPeer struct {
	local, remote string
	self          bool
}

type ghostAddr struct{ text string }

func (a *ghostAddr) Network() string { return "tcp" }
func (a *ghostAddr) String() string  { return a.text }

var onSend func(p *ghostPeer, obj interface{})

func (p *ghostPeer) IsSelf() bool         { return p.self }
func (p *ghostPeer) LocalAddr() net.Addr  { return &ghostAddr{p.local} }
func (p *ghostPeer) RemoteAddr() net.Addr { return &ghostAddr{p.remote} }
func (p *ghostPeer) Send(obj interface{}) { onSend(p, obj) }

func anyPeer(name string) *ghostPeer {
	return &ghostPeer{local: Any[string](name + " local"), remote: Any[string](name + " remote"), self: Any[bool](name + " self")}
}

// lists describes the provider lists by the documented behaviour of container/list: a list is a sequence of elements,
// PushBack appends one, Front/Back/Next/Prev walk it.
type lists struct {
	size map[*list.List]int
	add  func(l *list.List, e *list.Element, s *stub) // called for every provider added
	see  func(l *list.List, i int, s *stub)           // called for every provider looked at
	scan func(l *list.List, fromBack bool)            // called when a walk along a list begins
}

// at is element i of l.
func at(l *list.List, i int) *list.Element {
	e := UF[*list.Element]("element", l, i)
	Assume(e != nil && UF[int]("index", e) == i && UF[*list.List]("list", e) == l)
	return e
}

func index(e *list.Element) int        { return UF[int]("index", e) }
func owner(e *list.Element) *list.List { return UF[*list.List]("list", e) }

func (g *lists) n(l *list.List) int {
	n := g.size[l]
	Assume(n >= 0 && n < 1<<40)
	return n
}

// provider is what element i of l holds: lists hold stubs only (PushBack shows it).
func (g *lists) provider(l *list.List, i int) *stub {
	s, ok := at(l, i).Value.(*stub)
	Assume(ok && s != nil)
	p, ok := s.peer.(*ghostPeer)
	Assume(ok && p != nil)
	return s
}

func (g *lists) visit(l *list.List, i int) *list.Element {
	s := g.provider(l, i)
	if g.see != nil {
		g.see(l, i, s)
	}
	return at(l, i)
}

func anyLists(h *hub) *lists {
	g := &lists{size: Any[map[*list.List]int]("list sizes")}
	Assume(g.size != nil)
	lk := &h.docksMutex
	const pkg = "invoke:(github.com/muguangyi/ferry/network.IPeer)."
	Hook(pkg+"RemoteAddr", func(p network.IPeer) net.Addr { return &ghostAddr{UF[string]("remote", p)} })
	Hook(pkg+"LocalAddr", func(p network.IPeer) net.Addr { return &ghostAddr{UF[string]("local", p)} })
	StandIn(list.New, func() *list.List {
		l := &list.List{}
		g.size[l] = 0
		return l
	})
	StandIn((*list.List).Len, func(l *list.List) int {
		Assert("provider lists are used under their lock only", Held(lk))
		return g.n(l)
	})
	StandIn((*list.List).PushBack, func(l *list.List, v interface{}) *list.Element {
		Assert("provider lists are used under their lock only", Held(lk))
		s, ok := v.(*stub)
		Assert("provider lists hold providers", ok && s != nil)
		n := g.n(l)
		e := at(l, n)
		e.Value = v
		g.size[l] = n + 1
		g.add(l, e, s)
		return e
	})
	StandIn((*list.List).Front, func(l *list.List) *list.Element {
		Assert("provider lists are used under their lock only", Held(lk))
		g.scan(l, false)
		if g.n(l) == 0 {
			return nil
		}
		return g.visit(l, 0)
	})
	StandIn((*list.List).Back, func(l *list.List) *list.Element {
		Assert("provider lists are used under their lock only", Held(lk))
		g.scan(l, true)
		if g.n(l) == 0 {
			return nil
		}
		return g.visit(l, g.n(l)-1)
	})
	StandIn((*list.Element).Next, func(e *list.Element) *list.Element {
		Assert("provider lists are used under their lock only", Held(lk))
		if index(e)+1 >= g.n(owner(e)) {
			return nil
		}
		return g.visit(owner(e), index(e)+1)
	})
	StandIn((*list.Element).Prev, func(e *list.Element) *list.Element {
		Assert("provider lists are used under their lock only", Held(lk))
		if index(e) <= 0 {
			return nil
		}
		return g.visit(owner(e), index(e)-1)
	})
	g.add = func(l *list.List, e *list.Element, s *stub) {}
	g.scan = func(l *list.List, fromBack bool) {}
	return g
}

// anyHub is a hub with arbitrary contents.
func anyHub() *hub {
	h := newHub()
	h.docks = Any[map[string]*list.List]("docks")
	h.assignPorts = Any[map[string]int]("assigned ports")
	h.blackPorts = Any[map[int]bool]("blacklist")
	Assume(h.docks != nil && h.assignPorts != nil && h.blackPorts != nil)
	Guard("the provider lists", &h.docks, &h.docksMutex)
	Guard("the port counters", &h.assignPorts, &h.assignPortsMutex)
	return h
}
