//go:build go1.21

// verif:properties C18
// verif:assumes items are hashable and equal to themselves (no NaN); sets hold fewer than 2^40 items

package misc

import (
	. "github.com/muguangyi/ferry/verifghost"
)

// member is the abstraction of a set: what Add, Remove and ToSlice are specified over.
func member(s *set, x interface{}) bool { return s.data[x] }

// sane: whatever the representation lists is a member.
func sane(s *set) bool {
	return s.data != nil && Forall(func(x interface{}) bool {
		_, ok := s.data[x]
		return Implies(ok, s.data[x])
	})
}

func anySet() *set {
	s := Any[*set]("s")
	Assume(s != nil && sane(s))
	return s
}

func Verif_C18_new() {
	i := NewSet()
	s := i.(*set)
	Assert("C18 a new set is well formed", sane(s))
	Assert("C18 a new set is empty", Forall(func(x interface{}) bool { return !member(s, x) }))
	Cover("new")
}

// anyItem is any value a set can hold.
func anyItem(name string) interface{} {
	x := Any[interface{}](name)
	Assume(Hashable(x))
	return x
}

func Verif_C18_add() {
	s := anySet()
	x := anyItem("x")
	y := anyItem("y")
	old, oldY := member(s, x), member(s, y)
	r := s.Add(x)
	Assert("C18 Add reports success exactly when the item was absent", r == !old)
	Assert("C18 the added item is present", member(s, x))
	Assert("C18 Add leaves every other item as it was", x == y || member(s, y) == oldY)
	Assert("C18 Add keeps the set well formed", sane(s))
	Cover("add")
}

func Verif_C18_remove() {
	s := anySet()
	x := anyItem("x")
	y := anyItem("y")
	old, oldY := member(s, x), member(s, y)
	r := s.Remove(x)
	Assert("C18 Remove reports success exactly when the item was present", r == old)
	Assert("C18 the removed item is absent", !member(s, x))
	Assert("C18 Remove leaves every other item as it was", x == y || member(s, y) == oldY)
	Assert("C18 Remove keeps the set well formed", sane(s))
	Cover("remove")
}

func Verif_C18_toslice() {
	s := anySet()
	LoopInv("one element per key", func(k int) bool { return len(LoopSlice[interface{}](0)) == IterCount() })
	LoopInv("seen keys are listed", func(k int) bool {
		arr := LoopSlice[interface{}](0)
		return Forall(func(x interface{}) bool {
			return Implies(Seen(x), KeyPos(x) >= 0 && KeyPos(x) < IterCount() && arr[KeyPos(x)] == x)
		})
	})
	LoopInv("listed keys were seen", func(k int) bool {
		arr := LoopSlice[interface{}](0)
		return Forall(func(i int) bool {
			return Implies(i >= 0 && i < IterCount(), Seen(arr[i]) && KeyPos(arr[i]) == i)
		})
	})
	LoopInv("seen keys are members", func(k int) bool {
		return Forall(func(x interface{}) bool { return Implies(Seen(x), member(s, x)) })
	})
	r := s.ToSlice()
	ClearLoopInv()
	Assert("C18 every listed item is present", Forall(func(i int) bool { return Implies(i >= 0 && i < len(r), member(s, r[i])) }))
	Assert("C18 no item is listed twice", Forall2(func(i, j int) bool {
		return Implies(i >= 0 && i < j && j < len(r), r[i] != r[j])
	}))
	Assert("C18 every present item is listed", Forall(func(x interface{}) bool {
		return Implies(member(s, x), KeyPos(x) >= 0 && KeyPos(x) < len(r) && r[KeyPos(x)] == x)
	}))
	Assert("C18 ToSlice leaves the set unchanged", Forall(func(x interface{}) bool { return Implies(KeyPos(x) >= 0 && KeyPos(x) < len(r) && r[KeyPos(x)] == x, member(s, x)) }) && sane(s))
	Cover("toslice")
}
