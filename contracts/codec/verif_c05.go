//go:build go1.21

// verif:properties C05

package codec

import (
	. "github.com/muguangyi/ferry/verifghost"
)

type code05 uint8

// Verif_C05_code: numbers of a named type (a message's kind) are decoded as plain ones.
func Verif_C05_code() {
	v := Any[uint8]("v")
	n, ok := roundTrip(code05(v)).Any().(uint8)
	Assert("C05 kinds read back identical", ok && n == v)
}
