//go:build go1.21

// verif:properties C16

package ferry

import (
	"github.com/muguangyi/ferry/chancall"
	"github.com/muguangyi/ferry/network"

	. "github.com/muguangyi/ferry/verifghost"
)

// discoverable: x is carried by d as a discoverable feature.
func discoverable(d *dock, x string) bool {
	s, ok := d.slots[x]
	return ok && s.discoverable
}

func listed(ids []string, x string) bool {
	return Exists(func(i int) bool { return i >= 0 && i < len(ids) && ids[i] == x })
}

// collect lists exactly the discoverable features, each once.
func Contract_c16_collect(d *dock) []string {
	ContractFor((*dock).collect)
	Requires("a dock", d != nil && carried(d))
	Assume(len(d.slots) < 1<<40)
	x := some(d)
	LoopInv("no more names than features seen", func(k int) bool {
		ids := LoopSlice[string](0)
		return Pure(func() bool { return len(ids) <= IterCount() })
	})
	LoopInv("what is listed is discoverable and seen", func(k int) bool {
		ids := LoopSlice[string](0)
		return Forall(func(i int) bool {
			return Implies(i >= 0 && i < len(ids), Seen(ids[i]) && discoverable(d, ids[i]))
		})
	})
	LoopInv("names are listed in the order seen", func(k int) bool {
		ids := LoopSlice[string](0)
		return Forall2(func(i, j int) bool {
			return Implies(i >= 0 && i < j && j < len(ids), ids[i] != ids[j])
		})
	})
	LoopInv("a discoverable feature seen is listed", func(k int) bool {
		ids := LoopSlice[string](0)
		return Implies(Seen(x) && discoverable(d, x), listed(ids, x))
	})
	ids := d.collect()
	ClearLoopInv()
	Ensures("C16 only discoverable features are announced", Forall(func(i int) bool {
		return Implies(i >= 0 && i < len(ids), discoverable(d, ids[i]))
	}))
	Ensures("C16 no feature is announced twice", Forall2(func(i, j int) bool {
		return Implies(i >= 0 && i < j && j < len(ids), ids[i] != ids[j])
	}))
	Ensures("C16 every discoverable feature is announced", Implies(discoverable(d, x), listed(ids, x)))
	Cover("collect")
	return ids
}

// some is an arbitrary feature name.
func some(d *dock) string { return UF[string]("some feature", d) }

// announcement checks what is sent.
func announcement(d *dock, obj interface{}) {
	pack, ok := obj.(*packer)
	Assert("C16 packets are sent", ok && pack != nil)
	var ids []string
	switch p := pack.P.(type) {
	case *protoRegisterRequest:
		ids = p.Slots
	case *protoReady:
		ids = p.Slots
	default:
		return
	}
	Assert("C16 only discoverable features are announced", Forall(func(i int) bool {
		return Implies(i >= 0 && i < len(ids), discoverable(d, ids[i]))
	}))
	Assert("C16 no feature is announced twice", Forall2(func(i, j int) bool {
		return Implies(i >= 0 && i < j && j < len(ids), ids[i] != ids[j])
	}))
	Assert("C16 every discoverable feature is announced", Implies(discoverable(d, some(d)), listed(ids, some(d))))
	Cover("announced")
}

func announcing() (*dock, *ghostPeer) {
	d := anyDock()
	Assume(carried(d) && peers(d) && sockets(d))
	onPeer = func(q network.IPeer, obj interface{}) { announcement(d, obj) }
	onSocket = func(s network.ISocket, what string, obj interface{}) {
		if what == "send" {
			announcement(d, obj)
		}
	}
	return d, anyPeer("peer")
}

func Verif_C16_connected() {
	d, p := announcing()
	d.OnConnected(p)
	RunSpawned()
	Cover("connected")
}

func Verif_C16_register_request() {
	d, p := announcing()
	d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: Any[[]string]("features of the peer")}})
	RunSpawned()
	Cover("register request")
}

func Verif_C16_register_response() {
	d, p := announcing()
	d.OnPacket(p, &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: Any[int]("port")}})
	Cover("register response")
}

// Nothing else announces anything improper, whatever happens (that these do not panic is no concern of C16).
func Verif_C16_ready() {
	d, p := announcing()
	Catch(func() {
		d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: Any[[]string]("features of the peer")}})
		RunSpawned()
		Cover("ready")
	})
}

func Verif_C16_query_response() {
	d, p := announcing()
	Catch(func() {
		d.OnPacket(p, &packer{Id: cQueryResponse, P: &protoQueryResponse{DockAddr: Any[string]("address")}})
		RunSpawned()
		Cover("query response")
	})
}

func Verif_C16_call() {
	d, _ := announcing()
	onCall = func(c *ghostCaller, name string, args []interface{}, withResult bool) ([]interface{}, error) { return nil, nil }
	args := Any[[]interface{}]("args")
	Catch(func() {
		if Any[bool]("with result") {
			d.callWithResult(Any[string]("name"), Any[string]("method"), args...)
		} else {
			d.call(Any[string]("name"), Any[string]("method"), args...)
		}
		Cover("call")
	})
}

func Verif_C16_rpc_request() {
	d, p := announcing()
	onCall = func(c *ghostCaller, name string, args []interface{}, withResult bool) ([]interface{}, error) {
		return Any[[]interface{}]("result"), Any[error]("error")
	}
	Catch(func() {
		d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: Any[int64]("index"), Slot: Any[string]("slot"), Method: Any[string]("method"), Args: Any[[]interface{}]("args"), WithResult: Any[bool]("with result")}})
		RunSpawned()
		Cover("rpc request")
	})
}

func Verif_C16_rpc_response() {
	d, p := announcing()
	Catch(func() {
		d.OnPacket(p, &packer{Id: cRpcResponse, P: &protoRpcResponse{Index: Any[int64]("index"), Slot: Any[string]("slot"), Method: Any[string]("method"), Result: Any[[]interface{}]("result"), Err: Any[string]("error")}})
		RunSpawned()
		Cover("rpc response")
	})
}

func Verif_C16_others() {
	d, p := announcing()
	Catch(func() {
		switch Any[int]("kind") {
		case 0:
			d.OnPacket(p, &packer{Id: cError, P: &protoError{Error: Any[string]("error")}})
		case 1:
			d.OnPacket(p, &packer{Id: cHeartbeat, P: &protoHeartbeat{}})
		case 2:
			d.OnPacket(p, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: Any[string]("slot")}})
		case 3:
			d.run(Any[string]("hub"))
		case 4:
			d.OnClosed(p)
		case 5:
			d.Close()
		}
		RunSpawned()
		Cover("others")
	})
}

// A feature is carried under its name and as discoverable or not as asked for.
func Verif_C16_carry() {
	id := Any[string]("name")
	flag := Any[bool]("discoverable")
	f := &ghostFeature{}
	StandIn(chancall.NewCallee, func(name string, target interface{}) chancall.ICallee { return &ghostCallee{name} })
	s, ok := Carry(id, f, flag).(*slot)
	Assert("C16 a feature is carried as a slot", ok && s != nil)
	Assert("C16 a feature is carried under its name", s.callee != nil && s.callee.Name() == id)
	Assert("C16 a feature is discoverable exactly when asked for", s.discoverable == flag)
	Cover("carry")
}

// Of the slots given to a dock, slot j is under its name; feature x stands for every other name.
func Verif_C16_dock() {
	slots := Any[[]ISlot]("slots")
	Assume(len(slots) < 1<<40)
	name := func(i int) string { return slots[i].(*slot).callee.(*ghostCallee).name }
	Assume(Forall(func(i int) bool {
		if i < 0 || i >= len(slots) {
			return true
		}
		s, ok := slots[i].(*slot)
		if !ok || s == nil {
			return false
		}
		c, ok := s.callee.(*ghostCallee)
		return ok && c != nil
	}))
	Hook("invoke:(github.com/muguangyi/ferry/chancall.ICallee).Name", func(c chancall.ICallee) string {
		g, ok := c.(*ghostCallee)
		Assume(ok)
		return g.name
	})
	// features of one dock have different names
	j := Any[int]("place of a slot")
	Assume(j >= 0 && j < len(slots))
	s := slots[j].(*slot)
	Assume(Forall(func(i int) bool { return Implies(i >= 0 && i < len(slots) && i != j, name(i) != name(j)) }))
	flag := s.discoverable
	x := Any[string]("name")
	LoopInv("a slot passed is carried", func(k int) bool {
		d := LoopVal[*dock](0)
		return Pure(func() bool { return Implies(k > j, d.slots[name(j)] == s) })
	})
	LoopInv("only slots given are carried", func(k int) bool {
		d := LoopVal[*dock](0)
		t, ok := d.slots[x]
		return Implies(ok, Exists(func(i int) bool { return i >= 0 && i < len(slots) && name(i) == x && slots[i] == ISlot(t) }))
	})
	LoopInv("slots stay as discoverable as they were", func(k int) bool { return s.discoverable == flag })
	d := newDock(Any[string]("dock"), slots...)
	ClearLoopInv()
	Assert("C16 every slot given is carried under its name", d.slots[name(j)] == s && s.discoverable == flag)
	t, ok := d.slots[x]
	Assert("C16 only slots given are carried", Implies(ok, Exists(func(i int) bool { return i >= 0 && i < len(slots) && name(i) == x && slots[i] == ISlot(t) })))
	Assert("C16 a dock starts without connections", len(d.sockets) == 0)
	Cover("dock")
}
