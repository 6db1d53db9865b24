//go:build go1.21

// verif:properties C17

package network

import (
	. "github.com/muguangyi/ferry/verifghost"
)

// Sockets are made and serializers registered by any routine.
func Verif_C17_serializers() {
	serializers = Any[map[string]ISerializer]("serializers")
	Assume(serializers != nil)
	Guard("the serializers", &serializers, &serializersMutex)
	OnLock(&serializersMutex, func() {
		serializers = Any[map[string]ISerializer]("serializers then")
		Assume(serializers != nil)
	})
	if Any[bool]("a serializer is registered") {
		ExtendSerializer(Any[string]("name"), Any[ISerializer]("serializer"))
		Assert("C17 registering a serializer keeps no lock", NoLocks())
		Cover("registered")
	}
	s := NewSocket(Any[string]("address"), Any[string]("name"), Any[ISocketSink]("sink"))
	Assert("C17 making a socket keeps no lock", NoLocks() && s != nil)
	Cover("made")
}
