//go:build go1.21

// verif:properties C12
// verif:assumes package reflect behaves as documented: method names of a type are unique, Convert succeeds exactly when CanConvert says so, Call runs the method

package chancall

import (
	"reflect"

	. "github.com/muguangyi/ferry/verifghost"
)

// paramType is the type the i-th argument of a call of fn has to take.
func paramType(fn reflect.Value, i int) reflect.Type {
	t := fn.Type()
	if t.IsVariadic() && i >= t.NumIn()-1 {
		return t.In(t.NumIn() - 1).Elem()
	}
	return t.In(i)
}

func canBeNil(t reflect.Type) bool {
	k := t.Kind()
	return k == reflect.Chan || k == reflect.Func || k == reflect.Interface || k == reflect.Map || k == reflect.Ptr || k == reflect.Slice
}

// fits: argument x can be passed for a parameter of type t.
func fits(x interface{}, t reflect.Type) bool {
	if x == nil {
		return canBeNil(t)
	}
	return reflect.ValueOf(x).CanConvert(t)
}

// passed is what the method must receive for argument x.
func passed(x interface{}, t reflect.Type) reflect.Value {
	if x == nil {
		return reflect.Zero(t)
	}
	return reflect.ValueOf(x).Convert(t)
}

func countFits(fn reflect.Value, n int) bool {
	t := fn.Type()
	if t.IsVariadic() {
		return n >= t.NumIn()-1
	}
	return n == t.NumIn()
}

func anyArgs() []interface{} {
	args := Any[[]interface{}]("args")
	Assume(len(args) < 1<<16)
	return args
}

// run processes one request and returns its response, with the number of method invocations it made.
func run(f feature, args []interface{}, onCall func(fn reflect.Value, ps []reflect.Value)) *callResponse {
	ch := make(chan *callResponse, 1)
	Hook("reflect.call", onCall)
	err := f.c.process(&callRequest{method: f.name, args: args, callResponse: ch})
	Assert("C12 the feature's routine goes on", err == nil)
	Assert("C12 the call is answered once", Sent(ch) == 1)
	return SentAt(ch, 0)
}

func Verif_C12_unknown() {
	f := anyFeature()
	Assume(!f.fn.IsValid())
	calls := 0
	r := run(f, anyArgs(), func(fn reflect.Value, ps []reflect.Value) {
		calls++
	})
	Assert("C12 a call of an unknown method invokes nothing", calls == 0)
	Assert("C12 a call of an unknown method is answered with an error", r.err != nil)
	Cover("unknown")
}

func Verif_C12_count() {
	f := anyFeature()
	args := anyArgs()
	Assume(f.fn.IsValid() && !countFits(f.fn, len(args)))
	calls := 0
	r := run(f, args, func(fn reflect.Value, ps []reflect.Value) {
		calls++
	})
	Assert("C12 a call with a wrong number of arguments invokes nothing", calls == 0)
	Assert("C12 a call with a wrong number of arguments is answered with an error", r.err != nil)
	Cover("count")
}

func Verif_C12_mismatch() {
	f := anyFeature()
	args := anyArgs()
	b := Any[int]("misfit")
	Assume(f.fn.IsValid() && countFits(f.fn, len(args)))
	Assume(b >= 0 && b < len(args) && !fits(args[b], paramType(f.fn, b)))
	calls := 0
	LoopInv("the misfit has not been passed", func(k int) bool { return k <= b })
	r := run(f, args, func(fn reflect.Value, ps []reflect.Value) {
		calls++
	})
	Assert("C12 a call with an argument that does not fit invokes nothing", calls == 0)
	Assert("C12 a call with an argument that does not fit is answered with an error", r.err != nil)
	Cover("mismatch")
}

// Argument a and result q stand for every argument and every result.
func Verif_C12_call() {
	f := anyFeature()
	args := anyArgs()
	a := Any[int]("argument")
	q := Any[int]("result")
	Assume(f.fn.IsValid() && countFits(f.fn, len(args)))
	Assume(Forall(func(i int) bool { return Implies(i >= 0 && i < len(args), fits(args[i], paramType(f.fn, i))) }))
	var want reflect.Value
	given := a >= 0 && a < len(args)
	if given {
		want = passed(args[a], paramType(f.fn, a))
	}
	calls := 0
	var res []reflect.Value
	Hook("reflect.return", func(fn reflect.Value, rs []reflect.Value) { res = rs })
	LoopInv("arguments converted so far", func(k int) bool {
		ps := *LoopVal[*[]reflect.Value](0)
		return len(ps) == k && Implies(a >= 0 && a < k, ps[a] == want)
	})
	LoopInv("results taken over so far", func(k int) bool {
		if LoopVal[string](0) != f.name {
			return true // another loop
		}
		rs := LoopSlice[interface{}](0)
		return len(rs) == len(res) && Implies(q >= 0 && q < k, Identical(rs[q], res[q].Interface()))
	})
	r := run(f, args, func(fn reflect.Value, ps []reflect.Value) {
		calls++
		Assert("C12 the method of the requested name is invoked", fn == f.fn)
		Assert("C12 every argument is passed", len(ps) == len(args))
		Assert("C12 arguments are converted in order", Pure(func() bool { return Implies(given, ps[a] == want) }))
	})
	Assert("C12 the method is invoked once", calls == 1)
	Assert("C12 a call that fits is not answered with an error", r.err == nil)
	Assert("C12 all results are returned", len(r.result) == len(res))
	Assert("C12 results are returned in order", Pure(func() bool { return Implies(q >= 0 && q < len(res), Identical(r.result[q], res[q].Interface())) }))
	Cover("call")
}
