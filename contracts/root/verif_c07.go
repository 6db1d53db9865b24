//go:build go1.21

// verif:properties C07
package ferry

import (
	"io"

	"github.com/muguangyi/ferry/codec"

	. "github.com/muguangyi/ferry/verifghost"
)

func isText07(v interface{}) bool { _, ok := v.(string); return ok }
func isList07(v interface{}) bool { _, ok := v.([]interface{}); return ok }
func isFlag07(v interface{}) bool { _, ok := v.(bool); return ok }
func isNumber07(v interface{}) bool {
	switch v.(type) {
	case int8, int16, int32, int64:
		return true
	}
	return false
}

// kindOf07 is the kind of message v announces, or -1 if there is no such kind.
func kindOf07(v interface{}) int {
	n := uint64(1 << 20)
	switch v := v.(type) {
	case uint8:
		n = uint64(v)
	case uint16:
		n = uint64(v)
	case uint32:
		n = uint64(v)
	case uint64:
		n = v
	}
	if n <= 8 {
		return int(n)
	}
	return -1
}

// fields07: the number of fields of a kind.
func fields07(kind int) int {
	switch kind {
	case 1:
		return 0
	case 7, 8:
		return 5
	}
	return 1
}

// fieldFits07: v can be the i-th field (from 0) of a message of that kind.
func fieldFits07(kind, i int, v interface{}) bool {
	switch kind {
	case 0, 5, 6:
		return isText07(v)
	case 2, 3:
		return isList07(v)
	case 4:
		return isNumber07(v)
	case 7:
		switch i {
		case 0:
			return isNumber07(v)
		case 1, 2:
			return isText07(v)
		case 3:
			return isList07(v)
		}
		return isFlag07(v)
	}
	switch i {
	case 0:
		return isNumber07(v)
	case 1, 2, 4:
		return isText07(v)
	}
	return isList07(v)
}

// madeOf07: p is a message of that kind.
func madeOf07(kind int, p IProto) bool {
	ok := false
	switch kind {
	case 0:
		_, ok = p.(*protoError)
	case 1:
		_, ok = p.(*protoHeartbeat)
	case 2:
		_, ok = p.(*protoReady)
	case 3:
		_, ok = p.(*protoRegisterRequest)
	case 4:
		_, ok = p.(*protoRegisterResponse)
	case 5:
		_, ok = p.(*protoQueryRequest)
	case 6:
		_, ok = p.(*protoQueryResponse)
	case 7:
		_, ok = p.(*protoRpcRequest)
	case 8:
		_, ok = p.(*protoRpcResponse)
	}
	return ok && p != nil
}

// What arbitrary bytes are made into, by what their values decode to; the proof is split by the kind announced.
func Verif_C07_error()             { unmarshal07(0) }
func Verif_C07_heartbeat()         { unmarshal07(1) }
func Verif_C07_ready()             { unmarshal07(2) }
func Verif_C07_register_request()  { unmarshal07(3) }
func Verif_C07_register_response() { unmarshal07(4) }
func Verif_C07_query_request()     { unmarshal07(5) }
func Verif_C07_query_response()    { unmarshal07(6) }
func Verif_C07_rpc_request()       { unmarshal07(7) }
func Verif_C07_rpc_response()      { unmarshal07(8) }
func Verif_C07_unknown()           { unmarshal07(-1) }

func unmarshal07(of int) {
	data := Any[[]byte]("data")
	Assume(len(data) < 1<<40)
	announced := -1
	if len(data) >= 4 {
		announced = int(data[0]) | int(data[1])<<8 | int(data[2])<<16 | int(data[3])<<24
	}
	values, kind, failed, unfit := 0, -1, false, false
	j := Any[int]("j") // an arbitrary element of a list
	var elem interface{}
	listed := false
	codec.Decoding07(func(r io.Reader) (interface{}, error) {
		p, w := StreamPos(r), StreamEnd(r)
		if values == 0 {
			Assert("C07 a message is made of the bytes of its frame only", Pure(func() bool { return w-p <= announced && w-p <= len(data)-4 }))
		}
		q := Any[int]("q")
		Assume(Pure(func() bool { return p <= q && q <= w }))
		SetStreamPos(r, q)
		if Any[bool]("malformed") {
			failed = true
			err := Any[error]("err")
			Assume(err != nil)
			return nil, err
		}
		v := Any[interface{}]("v")
		Assume(Pure(func() bool { return codec.Wire07(v) }))
		if values == 0 {
			kind = kindOf07(v)
			Assume(kind == of)
		} else if kind >= 0 && !Pure(func() bool { return fieldFits07(kind, values-1, v) }) {
			unfit = true
		}
		if l, ok := v.([]interface{}); ok && (of == 2 || of == 3) {
			listed = false
			if 0 <= j && j < len(l) {
				elem = l[j]
				listed = true
				Assume(Pure(func() bool { return codec.Wire07(elem) }))
			}
		}
		values++
		return v, nil
	})
	LoopInv("slots made so far", func(k int) bool {
		if LoopHas[[]string](nil) {
			return true
		}
		return Pure(func() bool { return !(listed && j < k && (kind == 2 || kind == 3)) || isText07(elem) })
	})
	obj := newSerializer().Unmarshal(data)
	if obj == nil {
		return
	}
	p, ok := obj.(*packer)
	Assert("C07 what is made is a message", ok && p != nil)
	Assert("C07 frames shorter than announced are rejected", Pure(func() bool { return announced >= 0 && announced <= len(data)-4 }))
	Assert("C07 frames of malformed values are rejected", !failed)
	Assert("C07 frames without a kind are rejected", values > 0)
	Assert("C07 frames of unknown kinds are rejected", kind >= 0)
	Assert("C07 a message is of the kind announced", int(p.Id) == kind && madeOf07(kind, p.P))
	Assert("C07 frames with missing fields are rejected", values == 1+fields07(kind))
	Assert("C07 frames with fields of wrong types are rejected", !unfit)
	if listed && (kind == 2 || kind == 3) {
		Assert("C07 frames with feature names of wrong types are rejected", isText07(elem))
	}
}
