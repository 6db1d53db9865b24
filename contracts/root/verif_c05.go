//go:build go1.21

// verif:properties C05
// verif:assumes C05 uses of the codec what C01 and C02 say: what is decoded from the bytes a value was encoded as has the value's kind and content (the numeric type of integers may differ); each field is encoded in less than 512 MB
package ferry

import (
	"io"

	"github.com/muguangyi/ferry/codec"

	. "github.com/muguangyi/ferry/verifghost"
)

// image05 is what an element of a list of arbitrary values is decoded as.
func image05(v interface{}) interface{} { return UF[interface{}]("image", v) }

// signed05: v is the integer n in one of the types integers are decoded as.
func signed05(v interface{}, n int64) bool {
	switch v := v.(type) {
	case int8:
		return int64(v) == n
	case int16:
		return int64(v) == n
	case int32:
		return int64(v) == n
	case int64:
		return v == n
	}
	return false
}

func text05(v interface{}, s string) bool { t, ok := v.(string); return ok && t == s }
func flag05(v interface{}, b bool) bool   { t, ok := v.(bool); return ok && t == b }
func code05(v interface{}, n uint8) bool  { t, ok := v.(uint8); return ok && t == n }

// decoded05 is what the codec makes of v.
func decoded05(v interface{}) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case string:
		d := Any[interface{}]("text")
		Assume(Pure(func() bool { return text05(d, v) }))
		return d
	case bool:
		d := Any[interface{}]("flag")
		Assume(Pure(func() bool { return flag05(d, v) }))
		return d
	case int:
		d := Any[interface{}]("number")
		Assume(Pure(func() bool { return signed05(d, int64(v)) }))
		return d
	case int64:
		d := Any[interface{}]("number")
		Assume(Pure(func() bool { return signed05(d, v) }))
		return d
	case cProtoType:
		d := Any[interface{}]("code")
		Assume(Pure(func() bool { return code05(d, uint8(v)) }))
		return d
	case uint8:
		d := Any[interface{}]("code")
		Assume(Pure(func() bool { return code05(d, v) }))
		return d
	case []string:
		l := Any[[]interface{}]("names")
		Assume(len(l) == len(v))
		Assume(Forall(func(i int) bool { return !(0 <= i && i < len(l)) || text05(l[i], v[i]) }))
		return l
	case []interface{}:
		l := Any[[]interface{}]("values")
		Assume(len(l) == len(v))
		Assume(Forall(func(i int) bool { return !(0 <= i && i < len(l)) || Identical(l[i], image05(v[i])) }))
		return l
	}
	Assert("C05 fields are values the codec carries", false)
	return nil
}

type field05 struct {
	v     interface{}
	at    int
	bytes []byte
}

// sent05 is what arrives of the message m.
func sent05(id cProtoType, m IProto) IProto {
	s := newSerializer()
	var fields []*field05
	total, first, read, base := 0, -1, 0, -1
	which := Any[int]("a field") // of this field an arbitrary byte is followed, the k-th of all
	k, b := -1, byte(0)
	codec.Encoding05(func(w io.Writer, v interface{}) (int, error) {
		if first < 0 {
			first = StreamEnd(w)
		}
		f := &field05{v, StreamEnd(w) - first, Any[[]byte]("encoding")}
		Assume(Pure(func() bool { return 0 < len(f.bytes) && len(f.bytes) < 1<<29 }))
		if which == len(fields) {
			o := Any[int]("a byte")
			Assume(Pure(func() bool { return 0 <= o && o < len(f.bytes) }))
			k, b = f.at+o, f.bytes[o]
		}
		fields = append(fields, f)
		total += len(f.bytes)
		n, err := w.Write(f.bytes)
		Assert("C05 fields are written as encoded", Pure(func() bool { return k < 0 || StreamByte(w, first+k) == b }))
		return n, err
	})
	codec.Decoding07(func(r io.Reader) (interface{}, error) {
		p, w := StreamPos(r), StreamEnd(r)
		if base < 0 {
			base = p
			Assert("C05 fields arrive unmodified", Pure(func() bool { return k < 0 || w-p >= total && StreamByte(r, p+k) == b }))
		}
		if read >= len(fields) {
			Assert("C05 no more fields are read than were written", false)
			Stop()
		}
		f := fields[read]
		read++
		Assert("C05 fields are read where they were written", p-base == f.at && w-p >= len(f.bytes))
		SetStreamPos(r, p+len(f.bytes))
		return decoded05(f.v), nil
	})
	data := s.Marshal(&packer{Id: id, P: m})
	Assert("C05 the frame's bytes are the encoded ones", Pure(func() bool { return k < 0 || 4+k < len(data) && data[4+k] == b }))
	Assert("C05 a frame is its announced length and the fields", len(data) == 4+total)
	if len(data) >= 4 {
		Assert("C05 the announced length is the frame's size", int(data[0])|int(data[1])<<8|int(data[2])<<16|int(data[3])<<24 == len(data)-4)
	}
	Assert("C05 the frame is cut where it ends", s.Slice(data) == len(data))
	obj := s.Unmarshal(data)
	p, ok := obj.(*packer)
	Assert("C05 the frame makes a message", ok && p != nil)
	Assert("C05 the message has the same kind", p.Id == id)
	Assert("C05 all fields are read", read == len(fields))
	Cover("arrived")
	return p.P
}

// names05 checks an arbitrary element of two lists of names.
func names05(a, b []string, j int) {
	Assert("C05 lists keep their length", len(a) == len(b))
	if 0 <= j && j < len(a) && j < len(b) {
		Assert("C05 names arrive unchanged and in order", a[j] == b[j])
	}
}

func values05(a, b []interface{}) {
	Assert("C05 argument and result lists keep their length", len(a) == len(b))
	j := Any[int]("j")
	if 0 <= j && j < len(a) && j < len(b) {
		Assert("C05 arguments and results arrive unchanged and in order", Identical(b[j], image05(a[j])))
	}
}

// slots05 is an arbitrary list of names; of the list made of it while it is read, the j-th name is looked at.
func slots05(j int) []string {
	l := Any[[]string]("slots")
	Assume(len(l) < 1<<32)
	LoopInv("slots made so far", func(k int) bool {
		var m []string
		switch {
		case LoopHas[[]string](nil):
			m = LoopPhi[[]string](0)
		case LoopHasVal[*protoReady](nil):
			m = LoopVal[*protoReady](0).Slots
		case LoopHasVal[*protoRegisterRequest](nil):
			m = LoopVal[*protoRegisterRequest](0).Slots
		case LoopHasVal[[]string](nil):
			m = LoopVal[[]string](0)
		default:
			return true
		}
		if 0 <= j && j < k && j < len(l) {
			return j < len(m) && m[j] == l[j]
		}
		return true
	})
	return l
}

// The fields are compared with copies made before: serialising must not change what is sent either.

func Verif_C05_error() {
	m := &protoError{Any[string]("text")}
	o := *m
	r, ok := sent05(cError, m).(*protoError)
	Assert("C05 an error arrives as one", ok)
	Assert("C05 the text is the same", r.Error == o.Error)
}

func Verif_C05_heartbeat() {
	_, ok := sent05(cHeartbeat, &protoHeartbeat{}).(*protoHeartbeat)
	Assert("C05 a heartbeat arrives as one", ok)
}

func Verif_C05_ready() {
	j := Any[int]("j")
	m := &protoReady{slots05(j)}
	o := *m
	r, ok := sent05(cReady, m).(*protoReady)
	Assert("C05 a ready message arrives as one", ok)
	names05(o.Slots, r.Slots, j)
}

func Verif_C05_register_request() {
	j := Any[int]("j")
	m := &protoRegisterRequest{slots05(j)}
	o := *m
	r, ok := sent05(cRegisterRequest, m).(*protoRegisterRequest)
	Assert("C05 a registration arrives as one", ok)
	names05(o.Slots, r.Slots, j)
}

func Verif_C05_register_response() {
	m := &protoRegisterResponse{Any[int]("port")}
	o := *m
	r, ok := sent05(cRegisterResponse, m).(*protoRegisterResponse)
	Assert("C05 a registration's answer arrives as one", ok)
	Assert("C05 the port is the same", r.Port == o.Port)
}

func Verif_C05_query_request() {
	m := &protoQueryRequest{Any[string]("slot")}
	o := *m
	r, ok := sent05(cQueryRequest, m).(*protoQueryRequest)
	Assert("C05 a query arrives as one", ok)
	Assert("C05 the feature is the same", r.Slot == o.Slot)
}

func Verif_C05_query_response() {
	m := &protoQueryResponse{Any[string]("address")}
	o := *m
	r, ok := sent05(cQueryResponse, m).(*protoQueryResponse)
	Assert("C05 a query's answer arrives as one", ok)
	Assert("C05 the address is the same", r.DockAddr == o.DockAddr)
}

func Verif_C05_rpc_request() {
	m := &protoRpcRequest{
		Index: Any[int64]("index"), Slot: Any[string]("slot"), Method: Any[string]("method"),
		Args: Any[[]interface{}]("args"), WithResult: Any[bool]("with result"),
	}
	o := *m
	r, ok := sent05(cRpcRequest, m).(*protoRpcRequest)
	Assert("C05 a call arrives as one", ok)
	Assert("C05 the correlation number is the same", r.Index == o.Index)
	Assert("C05 feature and method are the same", r.Slot == o.Slot && r.Method == o.Method)
	Assert("C05 whether a result is awaited is the same", r.WithResult == o.WithResult)
	values05(o.Args, r.Args)
}

func Verif_C05_rpc_response() {
	m := &protoRpcResponse{
		Index: Any[int64]("index"), Slot: Any[string]("slot"), Method: Any[string]("method"),
		Result: Any[[]interface{}]("result"), Err: Any[string]("error text"),
	}
	o := *m
	r, ok := sent05(cRpcResponse, m).(*protoRpcResponse)
	Assert("C05 an answer arrives as one", ok)
	Assert("C05 the correlation number is the same", r.Index == o.Index)
	Assert("C05 feature and method are the same", r.Slot == o.Slot && r.Method == o.Method)
	Assert("C05 the error text is the same", r.Err == o.Err)
	values05(o.Result, r.Result)
}
