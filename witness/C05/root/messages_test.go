package ferry

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"testing"
)

func text05(rnd *rand.Rand) string {
	switch rnd.Intn(8) {
	case 0, 1:
		return ""
	case 2:
		return strings.Repeat("x", 200+rnd.Intn(200))
	case 3:
		if rnd.Intn(20) == 0 {
			return strings.Repeat("long", 14000+rnd.Intn(10000))
		}
	}
	b := make([]byte, rnd.Intn(30))
	for i := range b {
		b[i] = byte(rnd.Intn(256))
	}
	return string(b)
}

func number05(rnd *rand.Rand) int64 {
	v := rnd.Uint64() >> uint(rnd.Intn(64))
	switch rnd.Intn(6) {
	case 0:
		v = 1 << uint(rnd.Intn(64))
	case 1:
		v = 1<<uint(rnd.Intn(64)) - 1
	case 2:
		v = -(1 << uint(rnd.Intn(64)))
	case 3:
		v = 0
	}
	if rnd.Intn(3) == 0 {
		v = -v
	}
	return int64(v)
}

func names05(rnd *rand.Rand) []string {
	n := rnd.Intn(6)
	switch rnd.Intn(20) {
	case 0:
		n = 250 + rnd.Intn(20)
	case 1:
		return nil
	}
	l := make([]string, n)
	for i := range l {
		l[i] = text05(rnd)
	}
	return l
}

func value05(rnd *rand.Rand, depth int) interface{} {
	k := rnd.Intn(16)
	if depth == 0 && k > 12 {
		k -= 8
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rnd.Intn(2) == 0
	case 2, 3:
		return text05(rnd)
	case 4:
		return int8(number05(rnd))
	case 5:
		return int16(number05(rnd))
	case 6:
		return int32(number05(rnd))
	case 7:
		return number05(rnd)
	case 8:
		return int(number05(rnd))
	case 9:
		return uint8(number05(rnd))
	case 10:
		return uint32(number05(rnd))
	case 11:
		return uint64(number05(rnd))
	case 12:
		return []float64{0, 1, -1, 0.5, rnd.NormFloat64(), math.MaxFloat64, math.Inf(1), 1e-320}[rnd.Intn(8)]
	case 13:
		return names05(rnd)
	case 14:
		return values05(rnd, depth-1)
	}
	m := map[string]interface{}{}
	for n := rnd.Intn(4); n > 0; n-- {
		m[text05(rnd)] = value05(rnd, depth-1)
	}
	return m
}

func values05(rnd *rand.Rand, depth int) []interface{} {
	n := rnd.Intn(5)
	switch rnd.Intn(30) {
	case 0:
		n = 255 + rnd.Intn(4)
		depth = 0
	case 1:
		return nil
	}
	l := make([]interface{}, n)
	for i := range l {
		l[i] = value05(rnd, depth)
	}
	return l
}

// show05 writes down what a value amounts to, whatever types hold it.
func show05(b *strings.Builder, v reflect.Value) {
	if v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			show05(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		l := map[string]string{}
		for _, k := range v.MapKeys() {
			var x, y strings.Builder
			show05(&x, k)
			show05(&y, v.MapIndex(k))
			l[x.String()] = y.String()
		}
		fmt.Fprintf(b, "%q", l)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "f%x", math.Float64bits(v.Float()))
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			show05(b, v.Field(i))
			b.WriteString(";")
		}
	case reflect.Ptr:
		b.WriteString(v.Elem().Type().Name())
		show05(b, v.Elem())
	default:
		fmt.Fprintf(b, "%q", v.String())
	}
}

func text05of(x interface{}) string {
	var b strings.Builder
	show05(&b, reflect.ValueOf(x))
	return b.String()
}

func cut05(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func TestWitnessC05Messages(t *testing.T) {
	rnd := rand.New(rand.NewSource(5))
	s := newSerializer()
	for i := 0; i < 12000; i++ {
		kind := cProtoType(rnd.Intn(9))
		var m IProto
		switch kind {
		case cError:
			m = &protoError{text05(rnd)}
		case cHeartbeat:
			m = &protoHeartbeat{}
		case cReady:
			m = &protoReady{names05(rnd)}
		case cRegisterRequest:
			m = &protoRegisterRequest{names05(rnd)}
		case cRegisterResponse:
			m = &protoRegisterResponse{int(number05(rnd))}
		case cQueryRequest:
			m = &protoQueryRequest{text05(rnd)}
		case cQueryResponse:
			m = &protoQueryResponse{text05(rnd)}
		case cRpcRequest:
			m = &protoRpcRequest{number05(rnd), text05(rnd), text05(rnd), values05(rnd, 2), rnd.Intn(2) == 0}
		case cRpcResponse:
			m = &protoRpcResponse{number05(rnd), text05(rnd), text05(rnd), values05(rnd, 2), text05(rnd)}
		}
		want := text05of(m)
		f := s.Marshal(&packer{Id: kind, P: m})
		if len(f) < 4 || int(f[0])|int(f[1])<<8|int(f[2])<<16|int(f[3])<<24 != len(f)-4 || s.Slice(f) != len(f) {
			t.Fatalf("%s: frame of %d bytes, header % x", cut05(want), len(f), f[:4])
		}
		p, ok := s.Unmarshal(f).(*packer)
		if !ok || p == nil {
			t.Fatalf("%s is rejected", cut05(want))
		}
		if p.Id != kind {
			t.Fatalf("%s arrives as kind %d", cut05(want), p.Id)
		}
		if got := text05of(p.P); got != want {
			t.Fatalf("%s arrives as %s", cut05(want), cut05(got))
		}
	}
}
