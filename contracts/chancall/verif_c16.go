//go:build go1.21

// verif:properties C16

package chancall

import (
	. "github.com/muguangyi/ferry/verifghost"
)

// A callee answers to the name it was made for.
func Verif_C16_name() {
	n := Any[string]("name")
	target := Any[interface{}]("target")
	Assume(target != nil)
	Assert("C16 features keep their name", NewCallee(n, target).Name() == n)
	Cover("name")
}
