//go:build go1.21

// verif:properties C11 C12 C13 C17

package chancall

import (
	"reflect"

	. "github.com/muguangyi/ferry/verifghost"
)

// feature is an arbitrary feature object, a method name and what the name stands for: target.M if it has such a method.
type feature struct {
	c    *callee
	name string
	fn   reflect.Value // the bound method, the zero Value when there is none
}

func anyFeature() feature { return anyFeatureWith(Any[string]("method")) }

func anyFeatureWith(name string) feature {
	target := Any[interface{}]("target")
	Assume(target != nil)
	v := reflect.ValueOf(target)
	fn := v.MethodByName(name)
	j := Any[int]("index")
	if fn.IsValid() {
		Assume(j >= 0 && j < v.NumMethod() && v.Type().Method(j).Name == name)
	}
	LoopInv("the entry under the name is the method of that name", func(k int) bool {
		f := LoopVal[*meta](0).funcs[name]
		return f == nil || fn.IsValid() && f.fn != nil && *f.fn == fn && f.ft == fn.Type() && f.timeout == cDefaultTimeout
	})
	LoopInv("a method passed by the loop has an entry", func(k int) bool {
		return !fn.IsValid() || k <= j || LoopVal[*meta](0).funcs[name] != nil
	})
	c := NewCallee("feature", target).(*callee)
	ClearLoopInv()
	return feature{c, name, fn}
}
