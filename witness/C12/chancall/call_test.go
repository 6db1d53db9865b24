package chancall_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/muguangyi/ferry/chancall"
)

type c12target struct{ log []string }

type c12str string

func (c *c12target) rec(name string, args ...interface{}) {
	s := name
	for _, a := range args {
		s += fmt.Sprintf("|%T:%v", a, a)
	}
	c.log = append(c.log, s)
}
func (c *c12target) A()                                    { c.rec("A") }
func (c *c12target) B(x int) int                           { c.rec("B", x); return x + 1 }
func (c *c12target) Ba(x int) int                          { c.rec("Ba", x); return x - 1 }
func (c *c12target) C(x int64, y string) (string, int64)   { c.rec("C", x, y); return y, x }
func (c *c12target) D(x, y, z interface{}) (a, b, d interface{}) {
	c.rec("D", x, y, z)
	return z, x, y
}
func (c *c12target) E(x []interface{}, m map[interface{}]interface{}) int {
	c.rec("E", x == nil, len(x), m == nil, len(m))
	return len(x) + len(m)
}
func (c *c12target) F(x float64, y uint8, z bool) (float64, uint8, bool) { c.rec("F", x, y, z); return x, y, z }
func (c *c12target) V(a string, xs ...int) (string, []int)               { c.rec("V", a, xs); return a, xs }
func (c *c12target) W(xs ...interface{}) int                             { c.rec("W", xs); return len(xs) }
func (c *c12target) G(s c12str, e error) (c12str, error)                 { c.rec("G", s, e); return s, e }
func (c *c12target) H() (int, string, error, []int)                      { c.rec("H"); return 7, "h", nil, nil }
func (c *c12target) hidden()                                             { c.rec("hidden") }

type c12case struct {
	method string
	args   []interface{}
	log    string // what is recorded, empty: the call is an error
	res    []interface{}
}

func l(name string, args ...interface{}) string {
	c := &c12target{}
	c.rec(name, args...)
	return c.log[0]
}

type is []interface{}

func TestWitnessC12(t *testing.T) {
	var cases []c12case
	ok := func(m string, args is, log string, res is) { cases = append(cases, c12case{m, args, log, res}) }
	bad := func(m string, args ...interface{}) { cases = append(cases, c12case{m, args, "", nil}) }
	ok("A", nil, l("A"), is{})
	for _, x := range []int{0, 1, -1, 1 << 40, -77} {
		ok("B", is{x}, l("B", x), is{x + 1})
		ok("Ba", is{x}, l("Ba", x), is{x - 1})
	}
	ok("B", is{int8(5)}, l("B", 5), is{6})
	ok("B", is{uint64(5)}, l("B", 5), is{6})
	ok("B", is{int64(-5)}, l("B", -5), is{-4})
	ok("C", is{int32(9), "x"}, l("C", int64(9), "x"), is{"x", int64(9)})
	ok("C", is{-9, ""}, l("C", int64(-9), ""), is{"", int64(-9)})
	ok("D", is{1, "two", 3.0}, l("D", 1, "two", 3.0), is{3.0, 1, "two"})
	ok("D", is{nil, "two", nil}, l("D", nil, "two", nil), is{nil, nil, "two"})
	ok("E", is{[]interface{}{1, 2}, map[interface{}]interface{}{1: 2}}, l("E", false, 2, false, 1), is{3})
	ok("E", is{nil, nil}, l("E", true, 0, true, 0), is{0})
	ok("F", is{1.5, uint8(3), true}, l("F", 1.5, uint8(3), true), is{1.5, uint8(3), true})
	ok("F", is{float32(1.5), 3, false}, l("F", 1.5, uint8(3), false), is{1.5, uint8(3), false})
	ok("V", is{"a"}, l("V", "a", []int{}), is{"a", []int(nil)})
	ok("V", is{"a", 1}, l("V", "a", []int{1}), is{"a", []int{1}})
	ok("V", is{"a", 1, int8(2), 3}, l("V", "a", []int{1, 2, 3}), is{"a", []int{1, 2, 3}})
	ok("W", is{}, l("W", []interface{}{}), is{0})
	ok("W", is{nil, 1, "x"}, l("W", []interface{}{nil, 1, "x"}), is{3})
	ok("G", is{"s", nil}, l("G", c12str("s"), nil), is{c12str("s"), nil})
	ok("H", nil, l("H"), is{7, "h", nil, []int(nil)})
	bad("")
	bad("a")
	bad("AA")
	bad("hidden")
	bad("rec", "x")
	bad("A", 1)
	bad("A", nil)
	bad("B")
	bad("B", 1, 2)
	bad("B", "x")
	bad("B", nil)
	bad("B", true)
	bad("B", []interface{}{1})
	bad("C", 1)
	bad("C", "x", 1)
	bad("C", 1, "x", 2)
	bad("C", "x", "x")
	bad("C", 1, nil)
	bad("C", 1, 1.5)
	bad("D", 1, 2)
	bad("D")
	bad("D", 1, 2, 3, 4)
	bad("E", 1, nil)
	bad("E", nil, []interface{}{})
	bad("F", true, 1, 1.5)
	bad("V")
	bad("V", 1.5, 1)
	bad("V", "a", "b")
	bad("V", "a", 1, 2, "c")
	bad("V", "a", nil)
	bad("V", "a", 1, nil, 3)
	bad("G", "s", 1)
	bad("G", "s")
	bad("H", 1)

	run := func(order []int) {
		tgt := &c12target{}
		c := chancall.NewCallee("f", tgt)
		for _, m := range []string{"A", "B", "Ba", "C", "D", "E", "F", "V", "W", "G", "H"} {
			c.SetTimeout(m, 30)
		}
		k := chancall.NewCaller(c)
		for _, i := range order {
			x := cases[i]
			tgt.log = nil
			res, err := k.CallWithResult(x.method, x.args...)
			what := fmt.Sprintf("%s(%v)", x.method, x.args)
			if x.log == "" {
				if err == nil {
					t.Fatalf("%s is answered with %v and no error", what, res)
				}
				if len(tgt.log) > 0 {
					t.Fatalf("%s invokes %v", what, tgt.log)
				}
				continue
			}
			if err != nil {
				t.Fatalf("%s fails: %v", what, err)
			}
			if len(tgt.log) != 1 || tgt.log[0] != x.log {
				t.Fatalf("%s invokes %v, want %v", what, tgt.log, x.log)
			}
			if len(res) != len(x.res) {
				t.Fatalf("%s returns %v, want %v", what, res, x.res)
			}
			for j := range res {
				if !reflect.DeepEqual(res[j], x.res[j]) && fmt.Sprintf("%T%v", res[j], res[j]) != fmt.Sprintf("%T%v", x.res[j], x.res[j]) {
					t.Fatalf("%s returns %v, want %v", what, res, x.res)
				}
			}
			tgt.log = nil
			if err := k.Call(x.method, x.args...); err != nil || len(tgt.log) != 1 || tgt.log[0] != x.log {
				t.Fatalf("Call %s: %v, invokes %v", what, err, tgt.log)
			}
		}
	}
	for s := 0; s < 30; s++ {
		run(rand.New(rand.NewSource(int64(s))).Perm(len(cases)))
	}
}
