//go:build go1.21

// verif:properties C10
// verif:assumes entries of provider lists are separate objects at the start (each is allocated by the registration that adds it)

package ferry

import (
	"container/list"

	. "github.com/muguangyi/ferry/verifghost"
)

func Contract_c10_allocate(h *hub, addr string) int {
	ContractFor((*hub).allocate)
	Requires("a hub", h != nil && h.assignPorts != nil && !Held(&h.assignPortsMutex) && !Held(&h.docksMutex))
	Modifies(h.assignPorts)
	Hook("exit", func() { Stop() })
	p := h.allocate(addr)
	Ensures("C10 assigning a port leaves the lists' lock alone", NoLocks())
	return p
}

// Feature f stands for every feature, entry w for every entry it had before, name j of the request for every name.
func Verif_C10_register() {
	h := anyHub()
	g := anyLists(h)
	p := anyPeer("dock")
	slots := Any[[]string]("slots")
	Assume(len(slots) < 1<<30)
	f := Any[string]("feature")
	j := Any[int]("its place in the request")
	named := Any[bool]("named")
	Assume(Implies(named, j >= 0 && j < len(slots)))
	if named {
		Assume(slots[j] == f)
	}
	Assume(Forall(func(i int) bool { return Implies(i >= 0 && i < len(slots) && slots[i] == f, named && i == j) }))
	lf, had := h.docks[f]
	n0 := 0
	if had {
		Assume(lf != nil)
		n0 = g.n(lf)
	}
	// lists of other features are other lists
	others := func(l *list.List) bool {
		return Forall(func(x string) bool { m, ok := h.docks[x]; return Implies(ok && x != f, m != nil && m != l) })
	}
	Assume(others(lf))
	var mine *stub // the entry added for f
	added := 0
	g.add = func(l *list.List, e *list.Element, s *stub) {
		Assert("C10 a new provider is not ready", !s.ready)
		Assert("C10 a new provider belongs to the registering dock", s.peer == p)
		if m, ok := h.docks[f]; ok && l == m {
			added++
			mine = s
		}
		Cover("added")
	}
	inv := func(name string, c func(m *list.List, ok, done bool) bool) {
		LoopInv(name, func(k int) bool {
			m, ok := h.docks[f]
			return Pure(func() bool { return c(m, ok, named && k > j) })
		})
	}
	inv("the list of the feature stays", func(m *list.List, ok, done bool) bool { return Implies(had, ok && m == lf) && Implies(ok, m != nil) })
	inv("a list is made for a named feature", func(m *list.List, ok, done bool) bool { return Implies(!had, ok == done) })
	inv("lists are separate", func(m *list.List, ok, done bool) bool { return others(m) })
	inv("providers added", func(m *list.List, ok, done bool) bool { return added == n(done) })
	inv("size", func(m *list.List, ok, done bool) bool { return Implies(ok, g.size[m] == n0+n(done)) })
	inv("the provider added", func(m *list.List, ok, done bool) bool {
		return Implies(done, mine != nil && !mine.ready && mine.peer == p && at(m, n0).Value == interface{}(mine))
	})
	onSend = func(q *ghostPeer, obj interface{}) {}
	h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: slots}})
	m, has := h.docks[f]
	if named {
		Assert("C10 exactly one provider is added for a named feature", has && added == 1 && g.n(m) == n0+1)
		Assert("C10 it is added at the end", at(m, n0).Value == interface{}(mine))
		Assert("C10 it is not ready", !mine.ready && mine.peer == p)
	} else {
		Assert("C10 no provider is added for other features", has == had && m == lf && added == 0 && Implies(has, g.n(m) == n0))
	}
	Assert("C10 the list of a feature stays", Implies(had, m == lf))
	Cover("register")
}

// Feature f stands for every feature, entry w of its list for every entry, s is what it holds.
func Verif_C10_ready() {
	h := anyHub()
	g := anyLists(h)
	p := anyPeer("dock")
	slots := Any[[]string]("slots")
	Assume(len(slots) < 1<<30)
	f := Any[string]("feature")
	j := Any[int]("a place in the report")
	named := Any[bool]("named")
	if named {
		Assume(j >= 0 && j < len(slots) && slots[j] == f)
	} else {
		Assume(Forall(func(i int) bool { return Implies(i >= 0 && i < len(slots), slots[i] != f) }))
	}
	lf, had := h.docks[f]
	Assume(had && lf != nil)
	Assume(Forall(func(x string) bool { m, ok := h.docks[x]; return Implies(ok, m != nil && Implies(x != f, m != lf)) }))
	n0 := g.n(lf)
	w := Any[int]("entry")
	Assume(w >= 0 && w < n0)
	s := g.provider(lf, w)
	own := s.peer == p
	old, addr, peer := s.ready, s.addr, s.peer
	// every provider is in one list, once
	at1 := func(l *list.List, i int, x *stub) bool {
		return UF[*list.List]("list of provider", x) == l && UF[int]("place of provider", x) == i
	}
	Assume(at1(lf, w, s))
	g.see = func(l *list.List, i int, x *stub) { Assume(at1(l, i, x)) }
	g.add = func(l *list.List, e *list.Element, x *stub) { Assert("C10 a readiness report adds no provider", false) }
	LoopInv("only its own entries become ready", func(k int) bool {
		return Pure(func() bool { return Implies(s.ready && !old, own && named) })
	})
	LoopInv("ready entries stay ready", func(k int) bool { return Pure(func() bool { return Implies(old, s.ready) }) })
	LoopInv("the entry stays", func(k int) bool {
		return Pure(func() bool { return s.addr == addr && s.peer == peer && at(lf, w).Value == interface{}(s) })
	})
	// the scan under way: its list and direction, and whether s was ready when it began
	var cur *list.List
	back, was := false, old
	g.scan = func(l *list.List, fromBack bool) { cur, back, was = l, fromBack, s.ready }
	LoopInv("a scan leaves ready entries ready", func(k int) bool { return Pure(func() bool { return Implies(was, s.ready) }) })
	LoopInv("own entries of a feature treated are ready", func(k int) bool {
		if LoopHas[*list.Element](nil) {
			return true
		}
		return Pure(func() bool { return Implies(named && own && k > j, s.ready) })
	})
	elem := func(name string, c func(i *list.Element) bool) {
		LoopInv(name, func(k int) bool {
			if !LoopHas[*list.Element](nil) {
				return true
			}
			i := LoopPhi[*list.Element](0)
			return Pure(func() bool { return c(i) })
		})
	}
	elem("the scan walks one list", func(i *list.Element) bool {
		return Implies(i != nil, owner(i) == cur && i == UF[*list.Element]("element", cur, index(i)))
	})
	elem("it walks providers", func(i *list.Element) bool {
		if i == nil {
			return true
		}
		x, ok := i.Value.(*stub)
		if !ok || x == nil {
			return false
		}
		q, ok := x.peer.(*ghostPeer)
		return ok && q != nil && at1(cur, index(i), x)
	})
	elem("own entries passed are ready", func(i *list.Element) bool {
		passed := index(i) > w
		if back {
			passed = index(i) < w
		}
		return Implies(own && cur == lf && i != nil && passed, s.ready)
	})
	elem("own entries are ready after the scan", func(i *list.Element) bool { return Implies(own && cur == lf && i == nil, s.ready) })
	onSend = func(q *ghostPeer, obj interface{}) {}
	h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: slots}})
	if named && own {
		Assert("C10 the dock's own entry of a reported feature is ready", s.ready)
	} else {
		Assert("C10 other entries stay as they were", s.ready == old)
	}
	m, has := h.docks[f]
	Assert("C10 lists stay", has && m == lf && g.n(lf) == n0 && at(lf, w).Value == interface{}(s))
	Assert("C10 providers stay", s.addr == addr && s.peer == peer)
	Cover("ready")
}

// Every time the lists are locked they may have any contents: fresh ones are taken, in which win is the newest ready
// provider of the feature asked for, if it has one. Entry z stands for every provider.
func Verif_C10_query() {
	h := anyHub()
	g := anyLists(h)
	p := anyPeer("asking dock")
	f := Any[string]("feature")
	other := Any[string]("other feature")
	z := Any[*stub]("provider")
	Assume(z != nil)
	var lf *list.List
	some, w, answers := false, 0, 0
	var win *stub
	var zr bool
	var za string
	OnLock(&h.docksMutex, func() {
		h.docks = Any[map[string]*list.List]("docks then")
		Assume(h.docks != nil)
		l, had := h.docks[f]
		Assume(Implies(had, l != nil))
		lf, some = l, false
		if had {
			w = Any[int]("newest ready provider")
			some = Any[bool]("some provider is ready")
			Assume(Implies(some, w >= 0 && w < g.n(l)))
			if some {
				win = g.provider(l, w)
				Assume(win.ready)
			}
		}
		zr, za = z.ready, z.addr
	})
	OnUnlock(&h.docksMutex, func() {
		Assert("C10 a query leaves the providers alone", z.ready == zr && z.addr == za)
	})
	g.see = func(l *list.List, i int, x *stub) { Assume(Implies(l == lf && (!some || i > w), !x.ready)) }
	g.add = func(l *list.List, e *list.Element, x *stub) { Assert("C10 a query adds no provider", false) }
	onSend = func(q *ghostPeer, obj interface{}) {
		Assert("C10 the answer goes to the dock asking", q == p)
		pack, ok := obj.(*packer)
		Assert("C10 the answer is a query response", ok && pack != nil && pack.Id == cQueryResponse)
		r, ok := pack.P.(*protoQueryResponse)
		Assert("C10 the answer is a query response", ok && r != nil)
		Assert("C10 a query is answered with a ready provider only", some)
		Assert("C10 a query is answered with the newest ready provider", r.DockAddr == win.addr)
		answers++
		Cover("answered")
	}
	LoopInv("not answered yet", func(k int) bool { return answers == 0 })
	LoopInv("looking through the feature's list", func(k int) bool {
		if !LoopHas[*list.Element](nil) {
			return true
		}
		i := LoopPhi[*list.Element](0)
		return Pure(func() bool {
			if i == nil {
				return true
			}
			x, ok := i.Value.(*stub)
			if !ok || x == nil {
				return false
			}
			return owner(i) == lf && i == UF[*list.Element]("element", lf, index(i)) && Implies(!some || index(i) > w, !x.ready)
		})
	})
	LoopInv("the newest ready one is ahead", func(k int) bool {
		if !LoopHas[*list.Element](nil) {
			return true
		}
		i := LoopPhi[*list.Element](0)
		return Pure(func() bool { return Implies(some, i != nil && index(i) >= w) })
	})
	m0, had0 := h.docks[other]
	h.OnPacket(p, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: f}})
	if answers == 0 {
		m, had := h.docks[other]
		Assert("C10 a query leaves the lists alone", m == m0 && had == had0)
	}
	RunSpawned()
	Assert("C10 a query is answered once", answers == 1)
	Assert("C10 the lock is released", NoLocks())
	Cover("query")
}

func n(b bool) int {
	if b {
		return 1
	}
	return 0
}
