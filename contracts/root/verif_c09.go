//go:build go1.21

// verif:properties C09
// verif:assumes the text of a remote address is host:port (net.Addr of TCP connections)

package ferry

import (
	"container/list"
	"fmt"

	. "github.com/muguangyi/ferry/verifghost"
)

// portsValid: what allocate maintains for every host, 0 meaning that nothing has been assigned to it.
// All ports assigned to a host before are at most its counter.
func portValid(p int) bool { return Pure(func() bool { return p == 0 || p > 20000 && p <= 49000 }) }

func Contract_c09_allocate(h *hub, addr string) int {
	ContractFor((*hub).allocate)
	Requires("a hub", h != nil && h.assignPorts != nil && !Held(&h.assignPortsMutex))
	free := Any[int]("a port above the range that is not blacklisted")
	Assume(free > 49000 && free < 1<<40 && !h.blackPorts[free]) // a blacklist is finite
	old := h.assignPorts[addr]
	Requires("the counter of the host is valid", portValid(old))
	other := Any[string]("another host")
	Assume(other != addr)
	was, had := h.assignPorts[other]
	Guard("the port counters", &h.assignPorts, &h.assignPortsMutex)
	Modifies(h.assignPorts)
	Hook("exit", func() { Stop() }) // no port left: nothing is assigned
	LoopInv("between the last port and the free one", func(k int) bool {
		p := LoopPhi[int](0)
		return Implies(p != 0, p >= old && (p > 20000 || p == 20000 && k == 0) && p < free) && Implies(p == 0, old == 0 && k == 0)
	})
	p := h.allocate(addr)
	is, has := h.assignPorts[other]
	Ensures("C09 the port is above 20000", p > 20000)
	Ensures("C09 the port is at most 49000", p <= 49000)
	Ensures("C09 the port is not blacklisted", !h.blackPorts[p])
	Ensures("C09 the port has not been assigned to the host before", p > old)
	Ensures("C09 the port counts as assigned", h.assignPorts[addr] == p)
	Ensures("C09 hosts without ports stay so", has == had)
	Ensures("C09 the ports of other hosts are left alone", is == was)
	Ensures("C09 no lock is kept", NoLocks())
	Cover("assigned")
	return p
}

// The host of a connection is what precedes the last colon of its remote address.
func Verif_C09_host() {
	s := Any[string]("address")
	j := Any[int]("last colon")
	Assume(len(s) < 1<<20 && j >= 0 && j < len(s) && s[j] == ':')
	Assume(Forall(func(i int) bool { return Implies(i > j && i < len(s), s[i] != ':') }))
	Assert("C09 hosts are told apart by their whole address", pickIP(s) == s[:j])
	Cover("host")
}

// The port sent is the one announced, under the host it was assigned for.
func Verif_C09_announced() {
	h := anyHub()
	p := anyPeer("dock")
	slots := Any[[]string]("slots")
	Assume(len(slots) < 1<<30)
	host := pickIP(p.remote)
	Assume(portValid(h.assignPorts[host]))
	before := h.assignPorts[host]
	StandIn(list.New, func() *list.List { return &list.List{} })
	StandIn((*list.List).PushBack, func(l *list.List, v interface{}) *list.Element {
		s, ok := v.(*stub)
		port := h.portOf(host)
		Assert("C09 features are announced with the port just assigned", ok && port > before)
		Assert("C09 features are announced under the assigned port of their host", s.addr == fmt.Sprintf("%s:%d", host, port))
		return Any[*list.Element]("element")
	})
	sent := 0
	onSend = func(q *ghostPeer, obj interface{}) {
		sent++
		k, ok := obj.(*packer)
		Assert("C09 the dock gets the answer", q == p && ok && k.Id == cRegisterResponse)
		r, ok := k.P.(*protoRegisterResponse)
		Assert("C09 the answer has the assigned port", ok && r.Port == h.portOf(host) && r.Port > before)
	}
	h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: slots}})
	Assert("C09 the dock is answered once", sent == 1)
	Cover("announced")
}

// portOf reads the counter for the specification.
func (h *hub) portOf(host string) int { return h.assignPorts[host] }
