package main

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// Trusted contracts of package reflect. A reflect.Value is a term of sort RVal:
//   rvInvalid                the zero Value
//   rvOf(i)                  ValueOf(i), i a non-nil interface value
//   rvSlot(i)                a location of interface type holding i (kind Interface)
// and anything obtained from values of unknown type through uninterpreted accessors.

func kindOf(t types.Type) uint64 {
	switch x := under(t).(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

var tRVInvalid = App("rvInvalid", sRVal)

func rvOf(i *Term) *Term {
	if i == tINil {
		return tRVInvalid
	}
	if i.op == "ite" {
		return Ite(i.args[0], rvOf(i.args[1]), rvOf(i.args[2]))
	}
	if i.op == "app" && i.name == "rvIface" {
		// the value inside is never itself of kind Interface
	}
	return App("rvOf", sRVal, i)
}

var basicTypes = []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr, types.Float32, types.Float64, types.String}

var tIfaceT = types.NewInterfaceType(nil, nil)

func (e *Engine) rvKind(st *State, v *Term) *Term {
	if v == tRVInvalid {
		return b64(0)
	}
	if v.op == "ite" {
		return Ite(v.args[0], e.rvKind(st, v.args[1]), e.rvKind(st, v.args[2]))
	}
	if v.op == "app" && v.name == "rvSlot" {
		return b64(20)
	}
	k := App("rvKind", sBV(64), v)
	if v.op == "app" && v.name == "rvOf" {
		i := v.args[0]
		if dt := e.dynType(st, i); dt != nil {
			return b64(kindOf(dt))
		}
		if !v.fv && !st.flags[fmt.Sprintf("rvk:%d", v.id)] {
			st.flags[fmt.Sprintf("rvk:%d", v.id)] = true
			st.assume(And(Ult(k, b64(27)), Not(Eq(k, b64(0))), Not(Eq(k, b64(20)))))
			for _, b := range basicTypes {
				t := types.Typ[b]
				st.assume(Implies(e.hasType(i, t), Eq(k, b64(kindOf(t)))))
			}
			for _, t := range []types.Type{types.NewSlice(tIfaceT), types.NewMap(tIfaceT, tIfaceT), types.NewSlice(types.Typ[types.Uint8])} {
				st.assume(Implies(e.hasType(i, t), Eq(k, b64(kindOf(t)))))
			}
			// scalar kinds are boxed by content
			st.assume(Implies(isCtor("istr", i), Eq(k, b64(24))))
			st.assume(Implies(isCtor("ibv", i), And(Ule(b64(1), k), Ule(k, b64(14)))))
			st.assume(Implies(isCtor("iref", i), And(Ule(b64(15), k), Not(Eq(k, b64(24))))))
		}
		return k
	}
	if !v.fv && !st.flags[fmt.Sprintf("rvk:%d", v.id)] {
		st.flags[fmt.Sprintf("rvk:%d", v.id)] = true
		st.assume(Ult(k, b64(27)))
	}
	return k
}

func kindIn(k *Term, vals ...uint64) *Term {
	var os []*Term
	for _, v := range vals {
		os = append(os, Eq(k, b64(v)))
	}
	return Or(os...)
}
func kindRange(k *Term, lo, hi uint64) *Term { return And(Ule(b64(lo), k), Ule(k, b64(hi))) }

// typeTerm: the reflect.Type of a known Go type
func (e *Engine) typeTerm(t types.Type) *Term {
	return App("iref", sIface, IntT(9500), Sub2(IntT(-100000), e.tag(t)))
}
func Sub2(a, b *Term) *Term { return IntT(int64(a.val) - int64(b.val)) }

func (e *Engine) typeOfTerm(x *Term) types.Type {
	if isICtor(x) == "iref" && x.args[0].op == "int" && x.args[0].val == 9500 && x.args[1].op == "int" {
		return e.tagTypes[int(-100000-int64(x.args[1].val))]
	}
	return nil
}

func (e *Engine) opaqueType(st *State, x *Term) *Term {
	if !x.fv && !st.flags[fmt.Sprintf("rty:%d", x.id)] {
		st.flags[fmt.Sprintf("rty:%d", x.id)] = true
		st.assume(isCtor("iref", x))
		st.assume(Eq(App("iref_tag", sInt, x), IntT(9500)))
	}
	return x
}

func (e *Engine) rvType(st *State, v *Term) *Term {
	if v.op == "app" && v.name == "rvOf" {
		if dt := e.dynType(st, v.args[0]); dt != nil {
			return e.typeTerm(dt)
		}
	}
	return e.opaqueType(st, App("rvType", sIface, v))
}

// rvIfaceOf: v.Interface()
func (e *Engine) rvIfaceOf(st *State, v *Term) *Term {
	if v.op == "app" && (v.name == "rvOf" || v.name == "rvSlot") {
		return v.args[0]
	}
	x := App("rvIface", sIface, v)
	if !v.fv && !st.flags[fmt.Sprintf("rvi:%d", v.id)] {
		st.flags[fmt.Sprintf("rvi:%d", v.id)] = true
		k := e.rvKind(st, v)
		// a value that is not of interface kind equals the ValueOf its content
		st.assume(Implies(Not(Eq(k, b64(20))), And(Not(isCtor("inil", x)), Eq(rvOf(x), v))))
	}
	return x
}

// inner: the concrete value of rvOf(i) when the dynamic type is known
func (e *Engine) rvInner(st *State, v *Term) (types.Type, Value) {
	if v.op == "app" && v.name == "rvOf" {
		if dt := e.dynType(st, v.args[0]); dt != nil {
			return dt, e.unbox(st, v.args[0], dt)
		}
	}
	return nil, nil
}

func (e *Engine) rvFrom(st *State, t types.Type, v Value) *Term {
	if _, ok := under(t).(*types.Interface); ok {
		return App("rvSlot", sRVal, v.(*Term))
	}
	return rvOf(e.makeIface(st, t, v))
}

func init() {
	rv := func(name string, f func(e *Engine, st *State, v *Term, c *callCtx) bool) {
		intr("(reflect.Value)."+name, func(e *Engine, st *State, c *callCtx) bool { return f(e, st, c.args[0].(*Term), c) })
	}
	intr("reflect.ValueOf", func(e *Engine, st *State, c *callCtx) bool {
		i := c.args[0].(*Term)
		if i == tINil || isICtor(i) != "" || i.fv {
			return c.done(e, st, rvOf(i))
		}
		e.branch(st, isCtor("inil", i), func(st *State, b bool) {
			if b {
				c.ret(e, st, []Value{tRVInvalid})
			} else {
				c.ret(e, st, []Value{rvOf(i)})
			}
		})
		return true
	})
	intr("reflect.TypeOf", func(e *Engine, st *State, c *callCtx) bool {
		i := c.args[0].(*Term)
		e.branch(st, isCtor("inil", i), func(st *State, b bool) {
			if b {
				c.ret(e, st, []Value{tINil})
			} else {
				c.ret(e, st, []Value{e.rvType(st, rvOf(i))})
			}
		})
		return true
	})
	rv("Kind", func(e *Engine, st *State, v *Term, c *callCtx) bool { return c.done(e, st, e.rvKind(st, v)) })
	rv("IsValid", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		return c.done(e, st, Not(Eq(e.rvKind(st, v), b64(0))))
	})
	rv("CanInterface", func(e *Engine, st *State, v *Term, c *callCtx) bool { return c.done(e, st, tTrue) })
	need := func(e *Engine, st *State, ok *Term, what string) { e.panicIf(st, Not(ok), "reflect: "+what) }
	rv("Type", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Not(Eq(e.rvKind(st, v), b64(0))), "Type of the zero Value")
		return c.done(e, st, e.rvType(st, v))
	})
	rv("Bool", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Eq(e.rvKind(st, v), b64(1)), "Bool on another kind")
		if _, x := e.rvInner(st, v); x != nil {
			return c.done(e, st, x)
		}
		return c.done(e, st, App("rvBool", sBool, v))
	})
	rv("Int", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, kindRange(e.rvKind(st, v), 2, 6), "Int on another kind")
		if _, x := e.rvInner(st, v); x != nil {
			return c.done(e, st, SExt(e.scalar(x), 64))
		}
		return c.done(e, st, App("rvInt", sBV(64), v))
	})
	rv("Uint", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, kindRange(e.rvKind(st, v), 7, 12), "Uint on another kind")
		if _, x := e.rvInner(st, v); x != nil {
			return c.done(e, st, ZExt(e.scalar(x), 64))
		}
		return c.done(e, st, App("rvUint", sBV(64), v))
	})
	rv("Float", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, kindRange(e.rvKind(st, v), 13, 14), "Float on another kind")
		if dt, x := e.rvInner(st, v); x != nil {
			return c.done(e, st, e.convert(st, x, dt, types.Typ[types.Float64]))
		}
		return c.done(e, st, App("rvFloat", sBV(64), v))
	})
	rv("String", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		k := e.rvKind(st, v)
		if _, x := e.rvInner(st, v); x != nil && k == b64(24) {
			return c.done(e, st, x)
		}
		return c.done(e, st, App("rvStr", sStr, v))
	})
	rv("Interface", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Not(Eq(e.rvKind(st, v), b64(0))), "Interface of the zero Value")
		return c.done(e, st, e.rvIfaceOf(st, v))
	})
	rv("IsNil", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		k := e.rvKind(st, v)
		need(e, st, Or(kindRange(k, 18, 23), Eq(k, b64(26))), "IsNil on another kind")
		if v.op == "app" && v.name == "rvSlot" {
			return c.done(e, st, isCtor("inil", v.args[0]))
		}
		return c.done(e, st, App("rvIsNil", sBool, v))
	})
	rv("Elem", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		k := e.rvKind(st, v)
		need(e, st, kindIn(k, 20, 22), "Elem on another kind")
		e.branch(st, Eq(k, b64(20)), func(st *State, b bool) {
			if !b {
				c.ret(e, st, []Value{App("rvDeref", sRVal, v)})
				return
			}
			i := e.rvIfaceOf(st, v)
			e.branch(st, isCtor("inil", i), func(st *State, b bool) {
				if b {
					c.ret(e, st, []Value{tRVInvalid})
				} else {
					c.ret(e, st, []Value{rvOf(i)})
				}
			})
		})
		return true
	})
	rv("Len", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		k := e.rvKind(st, v)
		need(e, st, kindIn(k, 17, 18, 21, 23, 24), "Len on another kind")
		return c.done(e, st, e.rvLen(st, v))
	})
	rv("Index", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		k := e.rvKind(st, v)
		i := c.args[1].(*Term)
		need(e, st, kindIn(k, 17, 23, 24), "Index on another kind")
		need(e, st, Ult(i, e.rvLen(st, v)), "index out of range")
		if dt, x := e.rvInner(st, v); x != nil {
			if s, ok := x.(SliceV); ok {
				el := under(dt).(*types.Slice).Elem()
				return c.done(e, st, e.rvFrom(st, el, e.load(st, PtrV{base: "[]" + typekey(el), ref: s.arr, idx: Add(s.off, i), typ: el})))
			}
		}
		r := App("rvIndex", sRVal, v, i)
		return c.done(e, st, r)
	})
	rv("MapKeys", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Eq(e.rvKind(st, v), b64(21)), "MapKeys on another kind")
		t := c.fn.Signature.Results().At(0).Type()
		el := under(t).(*types.Slice).Elem()
		n := e.rvLen(st, v)
		a := e.newRef(st)
		k := "[]" + typekey(el)
		s := sArr(sBV(64), sRVal)
		h := e.hget(st, k, s)
		perm := Fresh("keyorder", sBV(64))
		ks := App("rvKeys", s, v, perm)
		e.hset(st, k, a, Store(h, a, ks))
		return c.done(e, st, SliceV{a, b64(0), n, n, el})
	})
	rv("MapIndex", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Eq(e.rvKind(st, v), b64(21)), "MapIndex on another kind")
		return c.done(e, st, App("rvMapIndex", sRVal, v, c.args[1].(*Term)))
	})
	// reflect.Type
	tm := func(name string, f func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool) {
		invokeIntr["(reflect.Type)."+name] = func(e *Engine, st *State, recv *Term, m *types.Func, args []Value, k func(st *State, fv FuncV, args []Value)) {
			k(st, pseudo(name, func(e *Engine, st *State, c *callCtx) bool { return f(e, st, recv, args, c) }), nil)
		}
	}
	tm("Kind", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		if gt := e.typeOfTerm(t); gt != nil {
			return c.done(e, st, b64(kindOf(gt)))
		}
		return c.done(e, st, e.rtKind(st, t))
	})
	tm("String", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		return c.done(e, st, App("rtString", sStr, t))
	})
	tm("Name", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		return c.done(e, st, App("rtName", sStr, t))
	})
	tm("Elem", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		k := App("rtKind", sBV(64), t)
		if gt := e.typeOfTerm(t); gt != nil {
			switch x := under(gt).(type) {
			case *types.Slice:
				return c.done(e, st, e.typeTerm(x.Elem()))
			case *types.Array:
				return c.done(e, st, e.typeTerm(x.Elem()))
			case *types.Pointer:
				return c.done(e, st, e.typeTerm(x.Elem()))
			case *types.Map:
				return c.done(e, st, e.typeTerm(x.Elem()))
			}
			e.panicIf(st, tTrue, "reflect: Elem of invalid type")
			return true
		}
		need(e, st, kindIn(k, 17, 18, 21, 22, 23), "Elem of invalid type")
		return c.done(e, st, e.opaqueType(st, App("rtElem", sIface, t)))
	})

	// methods and functions
	numMethod := func(e *Engine, st *State, t *Term) *Term {
		n := App("rtNumMethod", sBV(64), t)
		st.assume(Ult(n, b64(1<<20)))
		return n
	}
	methodName := func(e *Engine, st *State, t, i *Term) *Term {
		n := App("rtMethodName", sStr, t, i)
		// names are unique
		st.assume(Implies(Ult(i, numMethod(e, st, t)), Eq(App("rtMethodIdx", sBV(64), t, n), i)))
		e.wfStr(st, n)
		return n
	}
	byName := func(e *Engine, st *State, t, name *Term) (has, i *Term) {
		i = App("rtMethodIdx", sBV(64), t, name)
		return And(Ult(i, numMethod(e, st, t)), Eq(App("rtMethodName", sStr, t, i), name)), i
	}
	method := func(e *Engine, st *State, v, i *Term) *Term {
		r := App("rvMethod", sRVal, v, i)
		st.assume(Eq(App("rvKind", sBV(64), r), b64(19)))
		st.assume(Eq(e.rvType(st, r), App("rtMethodType", sIface, e.rvType(st, v), i)))
		return r
	}
	rv("NumMethod", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Not(Eq(e.rvKind(st, v), b64(0))), "NumMethod of the zero Value")
		return c.done(e, st, numMethod(e, st, e.rvType(st, v)))
	})
	rv("Method", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Not(Eq(e.rvKind(st, v), b64(0))), "Method of the zero Value")
		i := c.args[1].(*Term)
		need(e, st, Ult(i, numMethod(e, st, e.rvType(st, v))), "Method index out of range")
		return c.done(e, st, method(e, st, v, i))
	})
	rv("MethodByName", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Not(Eq(e.rvKind(st, v), b64(0))), "MethodByName of the zero Value")
		has, i := byName(e, st, e.rvType(st, v), c.args[1].(*Term))
		e.branch(st, has, func(st *State, b bool) {
			if b {
				c.ret(e, st, []Value{method(e, st, v, i)})
			} else {
				c.ret(e, st, []Value{tRVInvalid})
			}
		})
		return true
	})
	methodStruct := func(e *Engine, st *State, rt types.Type, t, i *Term) Value {
		v := e.zero(rt).(StructV)
		s := under(rt).(*types.Struct)
		for k := 0; k < s.NumFields(); k++ {
			switch s.Field(k).Name() {
			case "Name":
				v.fields[k] = methodName(e, st, t, i)
			case "Index":
				v.fields[k] = i
			case "Type":
				v.fields[k] = e.opaqueType(st, App("rtMethodExprType", sIface, t, i))
			case "Func":
				v.fields[k] = App("rtMethodExpr", sRVal, t, i)
			}
		}
		return v
	}
	tm("NumMethod", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		return c.done(e, st, numMethod(e, st, t))
	})
	tm("Method", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		i := args[0].(*Term)
		need(e, st, Ult(i, numMethod(e, st, t)), "Method index out of range")
		return c.done(e, st, methodStruct(e, st, c.instr.(ssa.Value).Type(), t, i))
	})
	numIn := func(e *Engine, st *State, t *Term) *Term {
		n := App("rtNumIn", sBV(64), t)
		st.assume(Ult(n, b64(1<<20)))
		return n
	}
	tm("NumIn", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		return c.done(e, st, numIn(e, st, t))
	})
	tm("NumOut", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		n := App("rtNumOut", sBV(64), t)
		st.assume(Ult(n, b64(1<<20)))
		return c.done(e, st, n)
	})
	tin := func(e *Engine, st *State, t, i *Term) *Term { return e.opaqueType(st, App("rtIn", sIface, t, i)) }
	tm("In", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		i := args[0].(*Term)
		need(e, st, Ult(i, numIn(e, st, t)), "Func index out of bounds")
		return c.done(e, st, tin(e, st, t, i))
	})
	tm("Out", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		return c.done(e, st, e.opaqueType(st, App("rtOut", sIface, t, args[0].(*Term))))
	})
	variadic := func(e *Engine, st *State, t *Term) *Term {
		v := App("rtIsVariadic", sBool, t)
		n := numIn(e, st, t)
		st.assume(Implies(v, And(Ule(b64(1), n), Eq(App("rtKind", sBV(64), App("rtIn", sIface, t, Sub(n, b64(1)))), b64(23)))))
		return v
	}
	tm("IsVariadic", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		return c.done(e, st, variadic(e, st, t))
	})
	// conversions: canconv(v,t) says whether v.Convert(t) succeeds
	canconv := func(e *Engine, st *State, v, t *Term) *Term {
		ok := App("rvCanConvert", sBool, v, t)
		vt := e.rvType(st, v)
		st.assume(Implies(ok, App("rtConvertible", sBool, vt, t)))
		st.assume(Implies(App("rtAssignable", sBool, vt, t), ok))
		st.assume(Implies(Eq(vt, t), App("rtAssignable", sBool, vt, t)))
		return ok
	}
	rv("CanConvert", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Not(Eq(e.rvKind(st, v), b64(0))), "CanConvert of the zero Value")
		return c.done(e, st, canconv(e, st, v, c.args[1].(*Term)))
	})
	rv("Convert", func(e *Engine, st *State, v *Term, c *callCtx) bool {
		need(e, st, Not(Eq(e.rvKind(st, v), b64(0))), "Convert of the zero Value")
		t := c.args[1].(*Term)
		need(e, st, canconv(e, st, v, t), "value cannot be converted")
		r := App("rvConvert", sRVal, v, t)
		st.assume(Eq(App("rvType", sIface, r), t))
		st.assume(Not(Eq(App("rvKind", sBV(64), r), b64(0))))
		st.assume(Eq(App("rvKind", sBV(64), r), e.rtKind(st, t)))
		return c.done(e, st, r)
	})
	tm("ConvertibleTo", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		return c.done(e, st, App("rtConvertible", sBool, t, args[0].(*Term)))
	})
	tm("AssignableTo", func(e *Engine, st *State, t *Term, args []Value, c *callCtx) bool {
		return c.done(e, st, App("rtAssignable", sBool, t, args[0].(*Term)))
	})
	intr("reflect.Zero", func(e *Engine, st *State, c *callCtx) bool {
		t := c.args[0].(*Term)
		r := App("rvZero", sRVal, t)
		st.assume(Eq(App("rvType", sIface, r), t))
		st.assume(Not(Eq(App("rvKind", sBV(64), r), b64(0))))
		st.assume(Eq(App("rvKind", sBV(64), r), e.rtKind(st, t)))
		return c.done(e, st, r)
	})
	call := func(slice bool) func(e *Engine, st *State, v *Term, c *callCtx) bool {
		return func(e *Engine, st *State, v *Term, c *callCtx) bool {
			need(e, st, Eq(e.rvKind(st, v), b64(19)), "Call of a value that is not a function")
			if slice {
				unsupported("reflect.Value.CallSlice")
			}
			s := c.args[1].(SliceV)
			t := e.rvType(st, v)
			n := numIn(e, st, t)
			vr := variadic(e, st, t)
			need(e, st, Ite(vr, Ule(Sub(n, b64(1)), s.len), Eq(s.len, n)), "Call with wrong number of arguments")
			i := Fresh("qarg", sBV(64))
			tmp := st.clone()
			el := e.load(tmp, PtrV{base: "[]" + typekey(s.elem), ref: s.arr, idx: Add(s.off, i), typ: s.elem}).(*Term)
			bv := BVar(sBV(64))
			ty := App("rvType", sIface, el)
			want := Ite(And(vr, Ule(Sub(n, b64(1)), i)), App("rtElem", sIface, App("rtIn", sIface, t, Sub(n, b64(1)))), App("rtIn", sIface, t, i))
			ok := Implies(Ult(i, s.len), And(Not(Eq(App("rvKind", sBV(64), el), b64(0))), Or(Eq(ty, want), App("rtAssignable", sBool, ty, want))))
			if !e.hooked(st, "reflect.call") {
				// with a hook, the specification states what the arguments have to be
				need(e, st, Quant("forall", []*Term{bv}, Subst(ok, map[*Term]*Term{i: bv})), "Call with an argument of another type")
			}
			e.event(st, "reflect.call", []Value{v, s}, func(st *State, vals []Value) {
				if len(vals) == 1 {
					c.ret(e, st, vals)
					return
				}
				el := s.elem
				nout := App("rtNumOut", sBV(64), t)
				st.assume(Ult(nout, b64(1<<20)))
				a := e.newRef(st)
				k := "[]" + typekey(el)
				so := sArr(sBV(64), sRVal)
				h := e.hget(st, k, so)
				res := Fresh("callresults", so)
				q := BVar(sBV(64))
				st.assume(Quant("forall", []*Term{q}, Not(Eq(App("rvKind", sBV(64), Select(res, q)), b64(0)))))
				e.hset(st, k, a, Store(h, a, res))
				out := SliceV{a, b64(0), nout, nout, el}
				e.event(st, "reflect.return", []Value{v, out}, func(st *State, _ []Value) { c.ret(e, st, []Value{out}) })
			})
			return true
		}
	}
	rv("Call", call(false))
	rv("CallSlice", call(true))
}

func (e *Engine) rtKind(st *State, t *Term) *Term {
	if gt := e.typeOfTerm(t); gt != nil {
		return b64(kindOf(gt))
	}
	k := App("rtKind", sBV(64), t)
	st.assume(Ult(k, b64(27)))
	return k
}

func (e *Engine) rvLen(st *State, v *Term) *Term {
	if _, x := e.rvInner(st, v); x != nil {
		if s, ok := x.(SliceV); ok {
			return s.len
		}
		if t, ok := x.(*Term); ok && t.sort == sStr {
			return slen(t)
		}
	}
	n := App("rvLen", sBV(64), v)
	if !v.fv && !st.flags[fmt.Sprintf("rvl:%d", v.id)] {
		st.flags[fmt.Sprintf("rvl:%d", v.id)] = true
		st.assume(Ult(n, b64(1<<40)))
	}
	return n
}

var _ = reflect.Bool
