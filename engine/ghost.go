package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(e *Engine, st *State, c *callCtx) bool

var intrinsics = map[string]intrFn{}
var stdGlobals = map[string]func(e *Engine, st *State) Value{}

type invokeFn func(e *Engine, st *State, recv *Term, m *types.Func, args []Value, k func(st *State, fv FuncV, args []Value))

var invokeIntr = map[string]invokeFn{}

// setupGhosts arrange how a body is run: they mean nothing where a contract stands for the body
var setupGhosts = map[string]bool{"LoopInv": true, "ClearLoopInv": true, "Hook": true, "StandIn": true, "OnFunc": true, "OnSend": true, "OnRecv": true,
	"OnBlock": true, "OnDefault": true, "OnLock": true, "OnUnlock": true, "Guard": true, "GuardType": true, "Flag": true}

func g(name string, f intrFn) {
	if setupGhosts[name] {
		in := f
		f = func(e *Engine, st *State, c *callCtx) bool {
			if modeOf(st) == "summary" {
				return c.done(e, st)
			}
			return in(e, st, c)
		}
	}
	intrinsics[ghostPath+"."+name] = f
}

func labelOf(v Value) string {
	t := v.(*Term)
	if t.op == "strlit" {
		return t.name
	}
	return t.String()
}

// modeFrame: innermost contract frame mode
func modeOf(st *State) string {
	t := st.top()
	if t.summary != nil {
		return "summary"
	}
	if t.verify != nil {
		return "verify"
	}
	return ""
}

func ifaceFunc(e *Engine, v Value) FuncV {
	t := v.(*Term)
	if isICtor(t) != "iref" {
		unsupported("function argument of a ghost call is not concrete")
	}
	return e.funcOf(t.args[1])
}

// ptrArg recovers a pointer boxed in an interface
func (e *Engine) ptrArg(st *State, v Value) (Value, types.Type) {
	t := v.(*Term)
	dt := e.dynType(st, t)
	if dt == nil {
		unsupported("ghost argument of unknown type")
	}
	return e.unbox(st, t, dt), dt
}

func (e *Engine) variadic(st *State, v Value) []*Term {
	s := v.(SliceV)
	if s.len.op != "bv" {
		unsupported("variadic call with unknown argument count")
	}
	var out []*Term
	for i := uint64(0); i < s.len.val; i++ {
		x := e.load(st, PtrV{base: "[]interface{}", ref: s.arr, idx: Add(s.off, BV(i, 64)), typ: types.NewInterfaceType(nil, nil)})
		out = append(out, x.(*Term))
	}
	return out
}

// locations of a pointer argument
func (e *Engine) locs(st *State, v Value, dt types.Type) []modSpec {
	var out []modSpec
	switch x := v.(type) {
	case PtrV:
		if x.idx != nil {
			unsupported("modifies element pointer")
		}
		var rec func(p PtrV)
		rec = func(p PtrV) {
			if isOpaque(p.typ) {
				for _, k := range opaqueKeys(p) {
					ref := p.ref
					if strings.HasPrefix(k, "stream#") {
						ref = e.scalar(p)
					}
					out = append(out, modSpec{key: k, ref: ref})
				}
				return
			}
			if s, ok := under(p.typ).(*types.Struct); ok && scalarSort(p.typ) == nil {
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					rec(PtrV{base: p.base + "." + f.Name(), ref: p.ref, typ: f.Type()})
				}
				return
			}
			if a, ok := under(p.typ).(*types.Array); ok {
				k := e.elemBase(p)
				e.hget(st, k, sArr(sBV(64), scalarSort(a.Elem())))
				out = append(out, modSpec{key: k, ref: p.ref})
				return
			}
			for _, l := range leaves(p.typ) {
				e.hget(st, p.base+l.path, l.sort)
				out = append(out, modSpec{key: p.base + l.path, ref: p.ref})
			}
		}
		rec(x)
	case SliceV:
		for _, l := range leaves(x.elem) {
			k := "[]" + typekey(x.elem) + l.path
			e.hget(st, k, sArr(sBV(64), l.sort))
			out = append(out, modSpec{key: k, ref: x.arr})
		}
	case *Term:
		if mt, ok := under(dt).(*types.Map); ok {
			ks := scalarSort(mt.Key())
			e.hget(st, mkey(mt)+"#p", sArr(ks, sBool))
			e.hget(st, mkey(mt)+"#n", sBV(64))
			out = append(out, modSpec{key: mkey(mt) + "#p", ref: x}, modSpec{key: mkey(mt) + "#n", ref: x})
			for _, l := range leaves(mt.Elem()) {
				e.hget(st, mkey(mt)+"#v"+l.path, sArr(ks, l.sort))
				out = append(out, modSpec{key: mkey(mt) + "#v" + l.path, ref: x})
			}
			return out
		}
		unsupported("modifies %s", dt)
	default:
		unsupported("modifies %T", v)
	}
	return out
}

func opaqueKeys(p PtrV) []string {
	switch typekey(p.typ) {
	case "bytes.Buffer", "bytes.Reader", "strings.Builder":
		return []string{"stream#r", "stream#w"}
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once":
		return nil
	}
	unsupported("modifies opaque %s", p.typ)
	return nil
}

func init() {
	g("Any", func(e *Engine, st *State, c *callCtx) bool {
		t := c.fn.Signature.Results().At(0).Type()
		name := labelOf(c.args[0])
		v := e.fresh(st, t, "in."+name)
		// inputs are named so that models can be reported
		return c.done(e, st, v)
	})
	g("Assume", func(e *Engine, st *State, c *callCtx) bool {
		t := c.args[0].(*Term)
		st.assume(t)
		if t.isFalse() || !st.dead && !t.quant && !e.feasible(st, tTrue) {
			st.dead = true
		}
		return c.done(e, st)
	})
	g("Assert", func(e *Engine, st *State, c *callCtx) bool {
		e.oblige(st, "assert", e.name+": "+labelOf(c.args[0]), c.args[1].(*Term))
		return c.done(e, st)
	})
	g("Requires", func(e *Engine, st *State, c *callCtx) bool {
		t := c.args[1].(*Term)
		switch modeOf(st) {
		case "summary":
			nm := shortFn(st.top().summary.String())
			e.oblige(st, "requires", e.name+": precondition of "+nm+": "+labelOf(c.args[0]), t)
		default:
			st.assume(t)
		}
		return c.done(e, st)
	})
	g("Ensures", func(e *Engine, st *State, c *callCtx) bool {
		t := c.args[1].(*Term)
		switch modeOf(st) {
		case "summary":
			st.assume(t)
			if t.isFalse() {
				st.dead = true
			}
		default:
			e.oblige(st, "ensures", e.name+": ensures "+labelOf(c.args[0]), t)
		}
		return c.done(e, st)
	})
	g("ContractFor", func(e *Engine, st *State, c *callCtx) bool { return c.done(e, st) })
	g("Modifies", func(e *Engine, st *State, c *callCtx) bool {
		fr := st.top()
		for _, x := range e.variadic(st, c.args[0]) {
			if ref, _ := e.streamRef(st, x); ref != nil && (e.dynType(st, x) == nil || isStreamPtr(e.dynType(st, x))) {
				e.spos(st, ref)
				fr.mods = append(fr.mods, modSpec{key: "stream#r", ref: ref}, modSpec{key: "stream#w", ref: ref})
				continue
			}
			v, dt := e.ptrArg(st, x)
			fr.mods = append(fr.mods, e.locs(st, v, dt)...)
		}
		return c.done(e, st)
	})
	g("Havoc", func(e *Engine, st *State, c *callCtx) bool {
		v, dt := e.ptrArg(st, c.args[0])
		for _, m := range e.locs(st, v, dt) {
			h := st.heap[m.key]
			if h == nil {
				continue
			}
			e.hset(st, m.key, m.ref, Store(h, m.ref, Fresh("hv_"+m.key, h.sort.v)))
		}
		return c.done(e, st)
	})
	quant := func(q string) intrFn {
		return func(e *Engine, st *State, c *callCtx) bool {
			return c.done(e, st, e.quantify(st, q, c.args[0].(FuncV)))
		}
	}
	g("Forall", quant("forall"))
	g("Forall2", quant("forall"))
	g("Exists", quant("exists"))
	g("Implies", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, Implies(c.args[0].(*Term), c.args[1].(*Term)))
	})
	g("Hashable", func(e *Engine, st *State, c *callCtx) bool {
		t := c.args[0].(*Term)
		if dt := e.dynType(st, t); dt != nil {
			return c.done(e, st, BoolT(types.Comparable(dt)))
		}
		return c.done(e, st, Not(e.unhashable(t)))
	})
	g("LoopInv", func(e *Engine, st *State, c *callCtx) bool {
		st.invs = append(st.invs, namedInv{labelOf(c.args[0]), c.args[1].(FuncV)})
		return c.done(e, st)
	})
	g("ClearLoopInv", func(e *Engine, st *State, c *callCtx) bool { st.invs = nil; return c.done(e, st) })
	g("LoopSlice", func(e *Engine, st *State, c *callCtx) bool {
		t := c.fn.Signature.Results().At(0).Type()
		el := under(t).(*types.Slice).Elem()
		n := int(c.args[0].(*Term).val)
		for _, v := range st.loopPhis {
			s := v.(SliceV)
			if typekey(s.elem) == typekey(el) {
				if n == 0 {
					return c.done(e, st, s)
				}
				n--
			}
		}
		unsupported("no slice of %s in this loop", el)
		return true
	})
	g("LoopVal", func(e *Engine, st *State, c *callCtx) bool {
		t := c.fn.Signature.Results().At(0).Type()
		n := int(c.args[0].(*Term).val)
		for _, v := range st.loopVals {
			if types.Identical(v.typ, t) {
				if n == 0 {
					return c.done(e, st, v.v)
				}
				n--
			}
		}
		unsupported("no value of type %s in this loop's function", t)
		return true
	})
	g("LoopHasVal", func(e *Engine, st *State, c *callCtx) bool {
		t := c.fn.Signature.Params().At(0).Type()
		for _, v := range st.loopVals {
			if types.Identical(v.typ, t) {
				return c.done(e, st, tTrue)
			}
		}
		return c.done(e, st, tFalse)
	})
	g("LoopHas", func(e *Engine, st *State, c *callCtx) bool {
		t := c.fn.Signature.Params().At(0).Type()
		for _, v := range st.phiVals {
			if types.Identical(v.typ, t) {
				return c.done(e, st, tTrue)
			}
		}
		return c.done(e, st, tFalse)
	})
	g("LoopPhi", func(e *Engine, st *State, c *callCtx) bool {
		t := c.fn.Signature.Results().At(0).Type()
		n := int(c.args[0].(*Term).val)
		for _, v := range st.phiVals {
			if types.Identical(v.typ, t) {
				if n == 0 {
					return c.done(e, st, v.v)
				}
				n--
			}
		}
		unsupported("no value of type %s in this loop's function", t)
		return true
	})
	g("Seen", func(e *Engine, st *State, c *callCtx) bool {
		for i := len(st.iters) - 1; i >= 0; i-- {
			it := st.iters[i]
			ks := scalarSort(it.mt.Key())
			kt := c.fn.Signature.Params().At(0).Type()
			if typekey(kt) != typekey(it.mt.Key()) {
				continue
			}
			seen := e.loadLeaf(st, it.base+"#seen", sArr(ks, sBool), it.id, nil)
			return c.done(e, st, Select(seen, e.scalar(c.args[0])))
		}
		unsupported("Seen outside a map iteration")
		return true
	})
	g("KeyPos", func(e *Engine, st *State, c *callCtx) bool {
		for i := len(st.iters) - 1; i >= 0; i-- {
			it := st.iters[i]
			if typekey(c.fn.Signature.Params().At(0).Type()) != typekey(it.mt.Key()) {
				continue
			}
			ks := scalarSort(it.mt.Key())
			return c.done(e, st, App("itpos:"+ks.str, sBV(64), it.id, e.scalar(c.args[0])))
		}
		unsupported("KeyPos outside a map iteration")
		return true
	})
	g("IterCount", func(e *Engine, st *State, c *callCtx) bool {
		if len(st.iters) == 0 {
			unsupported("IterCount outside a map iteration")
		}
		it := st.iters[len(st.iters)-1]
		return c.done(e, st, e.loadLeaf(st, it.base+"#cnt", sBV(64), it.id, nil))
	})
	g("LoopOuter", func(e *Engine, st *State, c *callCtx) bool {
		n := e.scalar(c.args[0])
		if n.op != "bv" || int(n.val) >= len(st.outerKs) {
			unsupported("no such loop around this one")
		}
		return c.done(e, st, st.outerKs[int(n.val)])
	})
	g("Cover", func(e *Engine, st *State, c *callCtx) bool {
		l := e.name + ": " + labelOf(c.args[0])
		if e.silent == 0 && !e.covers[l] {
			r, _ := e.sol.Check(st.pcs(), false, 3000, nil)
			if r != "unsat" {
				e.covers[l] = true
			}
		}
		return c.done(e, st)
	})
	g("SpawnCount", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, BV(uint64(len(st.spawned)), 64))
	})
	g("RunSpawn", func(e *Engine, st *State, c *callCtx) bool {
		i := c.args[0].(*Term)
		if i.op != "bv" || int(i.val) >= len(st.spawned) {
			// nothing to run
			return c.done(e, st)
		}
		sp := st.spawned[i.val]
		saved := st.locks
		st.locks = map[string]*Term{}
		e.callFn(st, sp.f, sp.args, func(e *Engine, st *State, _ []Value) {
			if len(st.locks) > 0 {
				e.oblige(st, "guard", "goroutine ends holding a lock", tFalse)
			}
			st.locks = map[string]*Term{}
			for k, v := range saved {
				st.locks[k] = v
			}
			c.ret(e, st, nil)
		}, nil)
		return true
	})
	var runAll func(e *Engine, st *State, i int, c *callCtx)
	runAll = func(e *Engine, st *State, i int, c *callCtx) {
		if i >= len(st.spawned) {
			st.spawned = nil
			c.ret(e, st, nil)
			return
		}
		sp := st.spawned[i]
		e.callFn(st, sp.f, sp.args, func(e *Engine, st *State, _ []Value) {
			if len(st.locks) > 0 {
				e.oblige(st, "guard", "goroutine ends holding a lock", tFalse)
				st.locks = map[string]*Term{}
			}
			runAll(e, st, i+1, c)
		}, nil)
	}
	g("RunSpawned", func(e *Engine, st *State, c *callCtx) bool { runAll(e, st, 0, c); return true })
	g("Catch", func(e *Engine, st *State, c *callCtx) bool {
		fv := c.args[0].(FuncV)
		fr := e.pushFrame(st, fv, nil, func(e *Engine, st *State, _ []Value) { c.ret(e, st, []Value{tFalse}) })
		fr.onPanic = func(e *Engine, st *State, p *panicInfo) bool {
			// What a panic leaves behind is not judged here: the node is gone (that it does not panic is C07's matter).
			st.locks = map[string]*Term{}
			c.ret(e, st, []Value{tTrue})
			return true
		}
		return true
	})
	chh := func(kind string) intrFn {
		return func(e *Engine, st *State, c *callCtx) bool {
			f := ifaceFunc(e, c.args[1])
			t := c.args[0].(*Term)
			if t == tINil {
				ps := f.fn.Signature.Params()
				var el types.Type
				if ps.Len() > 0 {
					el = ps.At(ps.Len() - 1).Type()
				}
				if kind == "recv" {
					el = f.fn.Signature.Results().At(0).Type()
				}
				if ch, ok := under(el).(*types.Chan); ok {
					el = ch.Elem()
				}
				st.hooks[kind+":type:"+typekey(el)] = f
				return c.done(e, st)
			}
			st.hooks[chanHook(kind, t.args[1])] = f
			return c.done(e, st)
		}
	}
	g("OnSend", chh("send"))
	g("OnRecv", chh("recv"))
	g("OnBlock", chh("block"))
	g("OnDefault", func(e *Engine, st *State, c *callCtx) bool {
		st.hooks["seldefault"] = ifaceFunc(e, c.args[0])
		return c.done(e, st)
	})
	lk := func(kind string) intrFn {
		return func(e *Engine, st *State, c *callCtx) bool {
			v, _ := e.ptrArg(st, c.args[0])
			st.hooks[kind+":"+lockName(v.(PtrV))] = c.args[1].(FuncV)
			return c.done(e, st)
		}
	}
	g("OnLock", lk("lock"))
	g("OnUnlock", lk("unlock"))
	g("Held", func(e *Engine, st *State, c *callCtx) bool {
		v, _ := e.ptrArg(st, c.args[0])
		return c.done(e, st, BoolT(st.locks[lockName(v.(PtrV))] != nil))
	})
	g("NoLocks", func(e *Engine, st *State, c *callCtx) bool { return c.done(e, st, BoolT(len(st.locks) == 0)) })
	g("Guard", func(e *Engine, st *State, c *callCtx) bool {
		p, _ := e.ptrArg(st, c.args[1])
		m, _ := e.ptrArg(st, c.args[2])
		pp := p.(PtrV)
		st.guards = append(st.guards, guardSpec{key: pp.base, ref: pp.ref, lock: lockName(m.(PtrV)), name: labelOf(c.args[0]), typ: pp.typ})
		return c.done(e, st)
	})
	g("GuardType", func(e *Engine, st *State, c *callCtx) bool {
		p, _ := e.ptrArg(st, c.args[1])
		m, _ := e.ptrArg(st, c.args[2])
		pp := p.(PtrV)
		st.guards = append(st.guards, guardSpec{key: pp.base, ref: nil, lock: lockName(m.(PtrV)), name: labelOf(c.args[0]), typ: pp.typ})
		return c.done(e, st)
	})
	g("Volatile", func(e *Engine, st *State, c *callCtx) bool {
		p, _ := e.ptrArg(st, c.args[0])
		st.flags["volatile"] = true
		st.hooks["volatile:"+lockName(p.(PtrV))] = c.args[1].(FuncV)
		st.hooks["volatile"] = c.args[1].(FuncV)
		return c.done(e, st)
	})
	g("Hook", func(e *Engine, st *State, c *callCtx) bool {
		st.hooks[labelOf(c.args[0])] = ifaceFunc(e, c.args[1])
		return c.done(e, st)
	})
	g("StandIn", func(e *Engine, st *State, c *callCtx) bool {
		f := ifaceFunc(e, c.args[0])
		if f.fn == nil {
			unsupported("StandIn for an unknown function")
		}
		fn := f.fn
		if fn.Synthetic != "" && fn.Object() != nil {
			if o, ok := fn.Object().(*types.Func); ok {
				fn = e.prog.FuncValue(o)
			}
		}
		st.hooks["call:"+fnKey(fn)] = ifaceFunc(e, c.args[1])
		return c.done(e, st)
	})
	g("Unfold", func(e *Engine, st *State, c *callCtx) bool {
		f := ifaceFunc(e, c.args[0])
		if f.fn == nil {
			unsupported("Unfold of an unknown function")
		}
		st.top().unfold = f.fn
		return c.done(e, st)
	})
	g("LoopIter", func(e *Engine, st *State, c *callCtx) bool {
		for i := len(st.frames) - 1; i >= 0; i-- {
			f := st.frames[i]
			var best *loop
			for h, l := range e.loopsOf(f.fn) {
				if l.body[f.block] && f.cuts[h] != nil && f.cuts[h].k != nil && (best == nil || len(l.body) < len(best.body)) {
					best = l
				}
			}
			if best != nil {
				return c.done(e, st, f.cuts[best.h].k)
			}
		}
		return c.done(e, st, BV(^uint64(0), 64))
	})
	g("AtLoopEntry", func(e *Engine, st *State, c *callCtx) bool {
		if st.loopBase == nil {
			unsupported("AtLoopEntry outside a loop invariant")
		}
		b := st.loopBase.clone()
		v := e.evalPure(b, c.args[0].(FuncV), nil)
		return c.done(e, st, v)
	})
	g("OnFunc", func(e *Engine, st *State, c *callCtx) bool {
		t := c.args[0].(*Term)
		st.hooks["fn:"+t.args[1].String()] = ifaceFunc(e, c.args[1])
		return c.done(e, st)
	})
	g("Sent", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, e.loadLeaf(st, "chan#sent", sBV(64), App("iref_r", sInt, c.args[0].(*Term)), nil))
	})
	g("Rcvd", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, e.loadLeaf(st, "chan#rcvd", sBV(64), App("iref_r", sInt, c.args[0].(*Term)), nil))
	})
	g("Closed", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, e.loadLeaf(st, "chan#closed", sBool, App("iref_r", sInt, c.args[0].(*Term)), nil))
	})
	g("SentAt", func(e *Engine, st *State, c *callCtx) bool {
		t := c.fn.Signature.Results().At(0).Type()
		ls := leaves(t)
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			ts[i] = e.loadLeaf(st, "chan#q:"+typekey(t)+l.path, l.sort, e.scalar(c.args[0]), c.args[1].(*Term))
		}
		return c.done(e, st, e.unflatten(t, ts))
	})
	g("Stop", func(e *Engine, st *State, c *callCtx) bool { st.dead = true; return true })
	g("UF", func(e *Engine, st *State, c *callCtx) bool {
		t := c.fn.Signature.Results().At(0).Type()
		s := scalarSort(t)
		if s == nil {
			unsupported("UF result %s", t)
		}
		var as []*Term
		name := "uf:" + labelOf(c.args[0])
		for _, x := range e.variadic(st, c.args[1]) {
			dt := e.dynType(st, x)
			if dt == nil || ifaceKind(dt) == "box" && scalarSort(dt) == nil {
				as = append(as, x)
				name += "_i"
				continue
			}
			a := e.scalar(e.unbox(st, x, dt))
			as = append(as, a)
			name += "_" + a.sort.str
		}
		return c.done(e, st, e.wrap(t, App(name, s, as...)))
	})
	g("Itoa", func(e *Engine, st *State, c *callCtx) bool { return c.done(e, st, e.itoa(st, c.args[0].(*Term))) })
	g("SameArray", func(e *Engine, st *State, c *callCtx) bool {
		a, _ := e.ptrArg(st, c.args[0])
		b, _ := e.ptrArg(st, c.args[1])
		return c.done(e, st, Eq(a.(SliceV).arr, b.(SliceV).arr))
	})
	g("Identical", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, Eq(c.args[0].(*Term), c.args[1].(*Term)))
	})
	g("Pure", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, e.evalPure(st, c.args[0].(FuncV), nil))
	})
	g("SameMap", func(e *Engine, st *State, c *callCtx) bool {
		a, _ := e.ptrArg(st, c.args[0])
		b, _ := e.ptrArg(st, c.args[1])
		return c.done(e, st, Eq(a.(*Term), b.(*Term)))
	})
	g("Trace", func(e *Engine, st *State, c *callCtx) bool {
		st.trace = append(st.trace, labelOf(c.args[0]))
		return c.done(e, st)
	})
	g("Flag", func(e *Engine, st *State, c *callCtx) bool {
		st.flags[labelOf(c.args[0])] = true
		return c.done(e, st)
	})
	g("Init", func(e *Engine, st *State, c *callCtx) bool {
		fr := st.top()
		pkg := fr.fn.Pkg
		if pkg == nil {
			unsupported("Init in closure")
		}
		e.runInit(st, pkg, func(st *State) { c.ret(e, st, nil) })
		return true
	})
}

func (e *Engine) runInit(st *State, pkg *ssa.Package, k func(st *State)) {
	fn := pkg.Func("init")
	gd := PtrV{base: "global:" + pkg.Pkg.Path() + ".init$guard", ref: IntT(1), typ: types.Typ[types.Bool]}
	e.store(st, gd, tFalse)
	e.pushFrame(st, FuncV{fn: fn}, nil, func(e *Engine, st *State, _ []Value) { k(st) })
}

func lockName(p PtrV) string { return fmt.Sprintf("%s|%d", p.base, p.ref.id) }

func (e *Engine) isHarness(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() {
		return false
	}
	return strings.Contains(e.prog.Fset.Position(fn.Pos()).Filename, "/verif_")
}

// nearest non-synthetic frame is repository code?
func (e *Engine) inRepoCode(st *State) bool {
	for i := len(st.frames) - 1; i >= 0; i-- {
		fn := st.frames[i].fn
		k := fn.String()
		if e.isHarness(fn) {
			return false
		}
		if strings.Contains(k, modPath) {
			return true
		}
	}
	return false
}

func (e *Engine) guardFail(st *State, g guardSpec, write bool) {
	what := "read"
	if write {
		what = "write"
	}
	e.oblige(st, "guard", fmt.Sprintf("%s of %s without holding its lock", what, g.name), tFalse)
}

func (e *Engine) checkGuard(st *State, p PtrV, write bool) {
	if len(st.guards) == 0 || e.pureDepth > 0 || !e.inRepoCode(st) {
		return
	}
	for _, g := range st.guards {
		if p.base != g.key && !strings.HasPrefix(p.base, g.key+".") {
			continue
		}
		// objects allocated by the running routine and not yet shared are exempt when a whole type is guarded
		if g.ref != nil && p.ref != g.ref {
			continue
		}
		if g.ref == nil && p.ref.op == "int" && st.flags["own:"+p.ref.String()] {
			continue
		}
		e.checkLocked(st, g, write)
	}
}
func (e *Engine) checkLocked(st *State, g guardSpec, write bool) {
	h := st.locks[g.lock]
	if h == nil || write && h.val == 2 {
		e.guardFail(st, g, write)
		// keep going as if it were held
		return
	}
	if e.silent == 0 {
		e.record(st, "guard", fmt.Sprintf("access to %s holds its lock", g.name), "proved", "simplifier", "", "")
	}
}
func (e *Engine) guardMap(st *State, mt *types.Map, m *Term, write bool) {
	if write {
		for _, it := range st.iters {
			if it.m == m {
				st.flags["dirty:"+it.id.String()] = true
			}
		}
	}
	if len(st.guards) == 0 || e.pureDepth > 0 || !e.inRepoCode(st) {
		return
	}
	for _, g := range st.guards {
		if g.typ == nil || typekey(under(g.typ)) != typekey(mt) {
			continue
		}
		if g.ref != nil {
			cur := e.loadLeaf(st, g.key, sInt, g.ref, nil)
			if cur != m && !st.flags["wasmap:"+g.key+m.String()] {
				continue
			}
		}
		e.checkLocked(st, g, write)
	}
}

func (e *Engine) initOpaque(st *State, p PtrV) {
	switch typekey(p.typ) {
	case "bytes.Buffer", "strings.Builder":
		ref := e.scalar(p)
		e.setR(st, ref, BV(0, 64))
		e.setW(st, ref, BV(0, 64))
	case "container/list.List":
		e.storeLeaf(st, p.base+"#n", sBV(64), p.ref, p.idx, BV(0, 64))
	case "sync.Once":
		e.storeLeaf(st, p.base+"#done", sBool, p.ref, p.idx, tFalse)
	}
}

func isStreamPtr(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && isStreamType(p.Elem())
}

// escape: objects reachable through what v holds are no longer the running routine's own
func (e *Engine) escape(st *State, t types.Type, v Value) {
	if len(st.guards) == 0 {
		return
	}
	for _, x := range e.flatten(st, t, v) {
		for _, r := range append([]*Term{x}, x.args...) {
			if r.op == "int" {
				delete(st.flags, "own:"+r.String())
			}
		}
	}
}

// interfere runs what other routines may do to a variable that is about to be accessed without any lock;
// the instruction is executed afterwards.
func (e *Engine) interfere(st *State, f *Frame, p PtrV) bool {
	if !st.flags["volatile"] {
		return false
	}
	h, ok := st.hooks["volatile:"+lockName(p)]
	if !ok || len(st.locks) > 0 || e.pureDepth > 0 || !e.inRepoCode(st) {
		return false
	}
	if st.flags["interfered"] {
		delete(st.flags, "interfered")
		return false
	}
	st.flags["interfered"] = true
	f.ip--
	e.callFn(st, h, nil, retNone, nil)
	return true
}
