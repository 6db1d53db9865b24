package codec_test

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/muguangyi/ferry/codec"
)

func text02(rnd *rand.Rand) string {
	switch rnd.Intn(8) {
	case 0, 1:
		return ""
	case 2:
		return strings.Repeat("x", 200+rnd.Intn(200))
	case 3:
		if rnd.Intn(20) == 0 {
			return strings.Repeat("long", 14000+rnd.Intn(10000))
		}
	}
	b := make([]byte, rnd.Intn(30))
	for i := range b {
		b[i] = byte(rnd.Intn(256))
	}
	return string(b)
}

func number02(rnd *rand.Rand) int64 {
	v := rnd.Uint64() >> uint(rnd.Intn(64))
	switch rnd.Intn(6) {
	case 0:
		v = 1 << uint(rnd.Intn(64))
	case 1:
		v = 1<<uint(rnd.Intn(64)) - 1
	case 2:
		v = -(1 << uint(rnd.Intn(64)))
	case 3:
		v = 0
	}
	if rnd.Intn(3) == 0 {
		v = -v
	}
	return int64(v)
}

func names02(rnd *rand.Rand) []string {
	n := rnd.Intn(6)
	switch rnd.Intn(20) {
	case 0:
		n = 250 + rnd.Intn(20)
	case 1:
		return nil
	}
	l := make([]string, n)
	for i := range l {
		l[i] = text02(rnd)
	}
	return l
}

func value02(rnd *rand.Rand, depth int) interface{} {
	k := rnd.Intn(16)
	if depth == 0 && k > 12 {
		k -= 8
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rnd.Intn(2) == 0
	case 2, 3:
		return text02(rnd)
	case 4:
		return int8(number02(rnd))
	case 5:
		return int16(number02(rnd))
	case 6:
		return int32(number02(rnd))
	case 7:
		return number02(rnd)
	case 8:
		return int(number02(rnd))
	case 9:
		return uint8(number02(rnd))
	case 10:
		return uint32(number02(rnd))
	case 11:
		return uint64(number02(rnd))
	case 12:
		return []float64{0, 1, -1, 0.5, rnd.NormFloat64(), math.MaxFloat64, math.Inf(1), 1e-320}[rnd.Intn(8)]
	case 13:
		return names02(rnd)
	case 14:
		return values02(rnd, depth-1)
	}
	n := rnd.Intn(4)
	if rnd.Intn(30) == 0 {
		n = 255 + rnd.Intn(4)
	}
	switch rnd.Intn(9) {
	case 0:
		m := map[int64]interface{}{}
		for ; n > 0; n-- {
			m[number02(rnd)] = value02(rnd, depth-1)
		}
		return m
	case 1:
		m := map[uint32][]interface{}{}
		for ; n > 0; n-- {
			m[uint32(number02(rnd))] = values02(rnd, depth-1)
		}
		return m
	case 2:
		m := map[string]float32{}
		for ; n > 0; n-- {
			m[text02(rnd)] = float32(rnd.NormFloat64())
		}
		return m
	case 3:
		m := map[int]map[string]bool{}
		for ; n > 0; n-- {
			m[int(number02(rnd))] = map[string]bool{text02(rnd): true, "x": false}
		}
		return m
	case 4:
		l := make([]int, n)
		for i := range l {
			l[i] = int(number02(rnd))
		}
		return l
	case 5:
		return [3]interface{}{value02(rnd, depth-1), value02(rnd, depth-1), value02(rnd, depth-1)}
	case 6:
		l := make([][]float32, n)
		for i := range l {
			l[i] = []float32{float32(rnd.NormFloat64()), 0, 1e-40}
		}
		return l
	}
	m := map[string]interface{}{}
	for ; n > 0; n-- {
		m[text02(rnd)] = value02(rnd, depth-1)
	}
	return m
}

func values02(rnd *rand.Rand, depth int) []interface{} {
	n := rnd.Intn(5)
	switch rnd.Intn(30) {
	case 0:
		n = 255 + rnd.Intn(4)
		depth = 0
	case 1:
		return nil
	}
	l := make([]interface{}, n)
	for i := range l {
		l[i] = value02(rnd, depth)
	}
	return l
}

// show02 writes down what a value amounts to, whatever types hold it.
func show02(b *strings.Builder, v reflect.Value) {
	if v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			show02(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			var x, y strings.Builder
			show02(&x, k)
			show02(&y, v.MapIndex(k))
			l = append(l, x.String()+":"+y.String())
		}
		sort.Strings(l)
		b.WriteString("{" + strings.Join(l, ",") + "}")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "f%x", math.Float64bits(v.Float()))
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			show02(b, v.Field(i))
			b.WriteString(";")
		}
	case reflect.Ptr:
		b.WriteString(v.Elem().Type().Name())
		show02(b, v.Elem())
	default:
		fmt.Fprintf(b, "%q", v.String())
	}
}

func text02of(x interface{}) string {
	var b strings.Builder
	show02(&b, reflect.ValueOf(x))
	return b.String()
}

func cut02(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func TestWitnessC02Nested(t *testing.T) {
	rnd := rand.New(rand.NewSource(2))
	for i := 0; i < 12000; i++ {
		v := value02(rnd, 4)
		switch reflect.ValueOf(v).Kind() {
		case reflect.Slice, reflect.Array, reflect.Map:
		default:
			v = []interface{}{v}
		}
		for n := 0; i%500 == 0 && n < 300; n++ { // deep nesting
			if n%2 == 0 {
				v = []interface{}{v}
			} else {
				v = map[string]interface{}{"": v}
			}
		}
		if i < 40 { // long ones
			n := []int{255, 256, 32767, 32768, 40000, 65535, 65536, 70000, 200000, 300}[i%10]
			switch i / 10 {
			case 0:
				v = make([]bool, n)
			case 1:
				m := map[int]bool{}
				for k := 0; k < n; k++ {
					m[k*1000] = true
				}
				v = m
			case 2:
				v = []string{"a", strings.Repeat("b", n), "c"}
			case 3:
				l := make([]interface{}, n)
				for k := range l {
					l[k] = k * 7919
				}
				v = map[string][]interface{}{"l": l}
			}
		}
		want := text02of(v)
		var b bytes.Buffer
		if err := codec.NewAny(v).Encode(&b); err != nil {
			t.Fatalf("%s: %v", cut02(want), err)
		}
		b.WriteString("rest")
		a := codec.NewAny(nil)
		if err := a.Decode(&b); err != nil {
			t.Fatalf("%s: %v", cut02(want), err)
		}
		if got := text02of(a.Any()); got != want {
			t.Fatalf("%s is decoded as %s", cut02(want), cut02(got))
		}
		if b.String() != "rest" {
			t.Fatalf("%s: %q left unread", cut02(want), cut02(b.String()))
		}
		if reflect.ValueOf(v).Kind() == reflect.Map {
			if m, err := a.Map(); err != nil || len(m) != reflect.ValueOf(v).Len() {
				t.Fatalf("%s: Map gives %d entries, %v", cut02(want), len(m), err)
			}
		} else if l, err := a.Arr(); err != nil || len(l) != reflect.ValueOf(v).Len() {
			t.Fatalf("%s: Arr gives %d elements, %v", cut02(want), len(l), err)
		}
	}
}
