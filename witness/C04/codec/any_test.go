package codec_test

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"

	"github.com/muguangyi/ferry/codec"
)

type wnInt int
type wnStr string
type wnArr []interface{}
type wnMap map[interface{}]interface{}
type wnIface interface{ M() }

type acc4 struct {
	name string
	fam  string
	typ  reflect.Type
	call func(codec.IAny) (interface{}, error)
}

var accs4 = []acc4{
	{"Bool", "bool", reflect.TypeOf(true), func(a codec.IAny) (interface{}, error) { return a.Bool() }},
	{"String", "string", reflect.TypeOf(""), func(a codec.IAny) (interface{}, error) { return a.String() }},
	{"Int", "int", reflect.TypeOf(int(0)), func(a codec.IAny) (interface{}, error) { return a.Int() }},
	{"Int8", "int", reflect.TypeOf(int8(0)), func(a codec.IAny) (interface{}, error) { return a.Int8() }},
	{"Int16", "int", reflect.TypeOf(int16(0)), func(a codec.IAny) (interface{}, error) { return a.Int16() }},
	{"Int32", "int", reflect.TypeOf(int32(0)), func(a codec.IAny) (interface{}, error) { return a.Int32() }},
	{"Int64", "int", reflect.TypeOf(int64(0)), func(a codec.IAny) (interface{}, error) { return a.Int64() }},
	{"Uint", "uint", reflect.TypeOf(uint(0)), func(a codec.IAny) (interface{}, error) { return a.Uint() }},
	{"Uint8", "uint", reflect.TypeOf(uint8(0)), func(a codec.IAny) (interface{}, error) { return a.Uint8() }},
	{"Uint16", "uint", reflect.TypeOf(uint16(0)), func(a codec.IAny) (interface{}, error) { return a.Uint16() }},
	{"Uint32", "uint", reflect.TypeOf(uint32(0)), func(a codec.IAny) (interface{}, error) { return a.Uint32() }},
	{"Uint64", "uint", reflect.TypeOf(uint64(0)), func(a codec.IAny) (interface{}, error) { return a.Uint64() }},
	{"Float32", "float", reflect.TypeOf(float32(0)), func(a codec.IAny) (interface{}, error) { return a.Float32() }},
	{"Float64", "float", reflect.TypeOf(float64(0)), func(a codec.IAny) (interface{}, error) { return a.Float64() }},
	{"Arr", "arr", reflect.TypeOf([]interface{}{}), func(a codec.IAny) (interface{}, error) { return a.Arr() }},
	{"Map", "map", reflect.TypeOf(map[interface{}]interface{}{}), func(a codec.IAny) (interface{}, error) { return a.Map() }},
}

func fam4(v interface{}) string {
	switch v.(type) {
	case bool:
		return "bool"
	case string:
		return "string"
	case int, int8, int16, int32, int64:
		return "int"
	case uint, uint8, uint16, uint32, uint64:
		return "uint"
	case float32, float64:
		return "float"
	case []interface{}:
		return "arr"
	case map[interface{}]interface{}:
		return "map"
	}
	return "other"
}

func eq4(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		return math.Float32bits(x) == math.Float32bits(b.(float32))
	case float64:
		return math.Float64bits(x) == math.Float64bits(b.(float64))
	}
	return reflect.DeepEqual(a, b)
}

func check4(t *testing.T, what string, a codec.IAny) {
	held := a.Any()
	for _, c := range accs4 {
		var got interface{}
		var err error
		var p interface{}
		func() {
			defer func() { p = recover() }()
			got, err = c.call(a)
		}()
		if p != nil {
			t.Fatalf("%s holding %T(%v): %s panics: %v", what, held, held, c.name, p)
		}
		if c.fam != fam4(held) {
			if err == nil {
				t.Fatalf("%s holding %T(%v): %s succeeds with %v", what, held, held, c.name, got)
			}
			continue
		}
		if err != nil {
			t.Fatalf("%s holding %T(%v): %s reports %v", what, held, held, c.name, err)
		}
		want := reflect.ValueOf(held).Convert(c.typ).Interface()
		if !eq4(want, got) {
			t.Fatalf("%s holding %T(%v): %s returns %v, want %v", what, held, held, c.name, got, want)
		}
	}
}

func TestWitnessC04(t *testing.T) {
	var vs []interface{}
	for b := uint(0); b < 64; b++ {
		for d := int64(-1); d <= 1; d++ {
			u := uint64(int64(uint64(1)<<b) + d)
			vs = append(vs, int(u), int8(u), int16(u), int32(u), int64(u), uint(u), uint8(u), uint16(u), uint32(u), u, -int(u), -int64(u),
				math.Float64frombits(u), math.Float32frombits(uint32(u)), float64(u), float32(u), -float64(u))
		}
	}
	var np *int
	var ns []interface{}
	var nm map[interface{}]interface{}
	var ne error
	vs = append(vs, nil, true, false, "", "x", math.MaxFloat64, math.Inf(1), math.Inf(-1), 0.1, math.Copysign(0, -1), math.MaxFloat32, math.SmallestNonzeroFloat64, float32(0.1),
		[]interface{}{}, []interface{}{1, nil, "a"}, ns, map[interface{}]interface{}{}, map[interface{}]interface{}{1: 2, "a": nil}, nm,
		[]int{1}, []byte("abc"), []string{"a"}, [2]int{1, 2}, [0]interface{}{}, [1]interface{}{1}, map[string]int{"a": 1}, map[string]interface{}{"a": 1}, map[interface{}]int{1: 1},
		wnInt(3), wnStr("s"), wnArr{1}, wnMap{1: 1}, uintptr(4), complex(1, 2), complex64(1), struct{ A int }{1}, &struct{ A int }{1}, np, make(chan int), func() {}, time.Second,
		errors.New("e"), ne, reflect.ValueOf(1), []error{nil}, [][]interface{}{{1}}, '\u00e9', byte(200))
	for _, v := range vs {
		a := codec.NewAny(v)
		if fam4(v) != "other" && !eq4(v, a.Any()) {
			t.Fatalf("Any of %T(%v) is %v", v, v, a.Any())
		}
		check4(t, "NewAny", a)
		check4(t, "NewAny (second read)", a)
		if err := a.Decode(bytes.NewReader(nil)); err == nil {
			t.Fatal("decoding nothing succeeds")
		}
		check4(t, fmt.Sprintf("NewAny(%T %v) after a failed Decode", v, v), a)
		a.Decode(bytes.NewReader([]byte{0xdd, 0, 0, 0, 3, 0xc0}))
		check4(t, fmt.Sprintf("NewAny(%T %v) after a truncated Decode", v, v), a)
		var enc bytes.Buffer
		if codec.NewAny(v).Encode(&enc) != nil {
			continue
		}
		for _, old := range []interface{}{nil, true, "s", int8(1), 5, uint64(7), 1.5, []interface{}{1}, map[interface{}]interface{}{1: 1}, struct{}{}, []int{1}} {
			d := codec.NewAny(old)
			var p interface{}
			var err error
			func() {
				defer func() { p = recover() }()
				err = d.Decode(bytes.NewReader(enc.Bytes()))
			}()
			if p != nil {
				t.Fatalf("decoding the encoding of %T(%v): panic %v", v, v, p)
			}
			if err == nil {
				check4(t, fmt.Sprintf("decoding %T(%v) over %T(%v)", v, v, old, old), d)
			}
		}
	}
}
