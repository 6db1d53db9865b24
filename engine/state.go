package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type PtrV struct {
	base string
	ref  *Term
	idx  *Term
	typ  types.Type // pointee
}
type SliceV struct {
	arr, off, len, cap *Term
	elem               types.Type
}
type StructV struct {
	typ    types.Type
	fields []Value
}
type TupleV struct{ vs []Value }
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	id   *Term // symbolic function value (fn == nil)
	native intrFn
	// bound method on concrete receiver or builtin handled by closures in ssa
}
type IterV struct {
	m    *Term
	mt   *types.Map
	id   *Term
	base string
}
type UnitV struct{}

type namedInv struct {
	name string
	f    FuncV
}

type pcNode struct {
	t      *Term
	branch bool
	next   *pcNode
	n      int
}

type spawn struct {
	f     FuncV
	args  []Value
	pos   string
	delay *Term
}

type deferred struct {
	call *ssa.CallCommon
	fn   FuncV
	recv Value // for invoke
	args []Value
	intr *ssa.Builtin
}

type panicInfo struct {
	val       *Term
	msg       string
	recovered bool
	exit      bool
}

type loopRec struct {
	h *ssa.BasicBlock
	k *Term
}

type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	ip      int
	entered bool
	mods    []modSpec
	env     map[ssa.Value]Value
	bind    []Value
	defers  []deferred
	panic   *panicInfo
	unwind  bool // running defers because of a panic
	rdefers bool // running defers at RunDefers
	ret     func(e *Engine, st *State, vals []Value)
	onPanic func(e *Engine, st *State, p *panicInfo) bool
	cuts    map[*ssa.BasicBlock]*loopRec
	unroll  map[*ssa.BasicBlock]int
	isDefer bool // this frame is a deferred call
	summary *ssa.Function // contract executed in summary mode: target to havoc
	verify  *ssa.Function // contract executed in verify mode: target to inline
	named   []Value
	unfold  *ssa.Function // called from this frame: the body, not the contract
}

type lockKey struct{ key string }

type State struct {
	pc      *pcNode
	heap    map[string]*Term
	frames  []*Frame
	alloc   int64
	wf      map[int]bool
	locks   map[string]*Term // "key|refid" -> ref term
	spawned []spawn
	hooks   map[string]FuncV
	invs    []namedInv
	tid     int
	dead    bool
	result  []Value
	rpanic  *panicInfo
	rec     *writeRec
	stopAt  *stopSpec
	hitStop bool
	stopPhi map[*ssa.Phi]Value
	vrec    *writeRec
	curK    *Term
	loopBase *State // state at the entry of the loop being described
	outerKs []*Term
	loopPhis []Value
	loopVals []typedVal
	phiVals  []typedVal
	snap    *State // snapshot chain not used
	trace   []string
	flags   map[string]bool
	iters   []*IterV
	lastSl  map[string]SliceV
	lastKey *Term
	mods    []modSpec
	guards  []guardSpec
	exposed []exposure
	univ    []*Term
	retMods []modSpec
}

// exposure: a slice handed out by a stream that is only valid until the stream is next modified
type exposure struct{ stream, arr *Term }

type guardSpec struct {
	key  string // heap key prefix
	ref  *Term  // nil = any
	lock string // lock key base
	lref *Term
	name string
	typ  types.Type
}

type modSpec struct {
	key string
	ref *Term
	idx *Term
}

type stopSpec struct {
	depth int
	h     *ssa.BasicBlock
	loop  *loop
}

type writeRec struct {
	mark  int
	amark int64
	w     map[string]map[*Term]bool // key -> refs
	bad   string
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		if f.cuts != nil {
			g.cuts = make(map[*ssa.BasicBlock]*loopRec, len(f.cuts))
			for k, v := range f.cuts {
				g.cuts[k] = v
			}
		}
		if f.unroll != nil {
			g.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
			for k, v := range f.unroll {
				g.unroll[k] = v
			}
		}
		if f.panic != nil {
			p := *f.panic
			g.panic = &p
		}
		n.frames[i] = &g
	}
	n.wf = make(map[int]bool, len(st.wf))
	for k, v := range st.wf {
		n.wf[k] = v
	}
	n.locks = make(map[string]*Term, len(st.locks))
	for k, v := range st.locks {
		n.locks[k] = v
	}
	n.hooks = make(map[string]FuncV, len(st.hooks))
	for k, v := range st.hooks {
		n.hooks[k] = v
	}
	n.flags = make(map[string]bool, len(st.flags))
	for k, v := range st.flags {
		n.flags[k] = v
	}
	n.lastSl = make(map[string]SliceV, len(st.lastSl))
	for k, v := range st.lastSl {
		n.lastSl[k] = v
	}
	n.invs = append([]namedInv{}, st.invs...)
	n.spawned = append([]spawn{}, st.spawned...)
	n.trace = append([]string{}, st.trace...)
	n.iters = append([]*IterV{}, st.iters...)
	n.mods = append([]modSpec{}, st.mods...)
	n.guards = append([]guardSpec{}, st.guards...)
	n.exposed = append([]exposure{}, st.exposed...)
	return &n
}

func newState() *State {
	return &State{heap: map[string]*Term{}, alloc: 1000000, wf: map[int]bool{}, locks: map[string]*Term{},
		hooks: map[string]FuncV{}, flags: map[string]bool{}, lastSl: map[string]SliceV{}}
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) addPC(t *Term, branch bool) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		st.dead = true
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{t, branch, st.pc, n}
}
func (st *State) assume(t *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			st.addPC(a, false)
		}
		return
	}
	st.addPC(t, false)
}
func (st *State) pcs() []*Term {
	var out []*Term
	for n := st.pc; n != nil; n = n.next {
		out = append(out, n.t)
	}
	// oldest first
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// syntactic lookup
func (st *State) knows(t *Term) (bool, bool) {
	if t.isConst() {
		return t.isTrue(), true
	}
	nt := Not(t)
	for n := st.pc; n != nil; n = n.next {
		if n.t == t {
			return true, true
		}
		if n.t == nt {
			return false, true
		}
		if n.t.op == "and" {
			for _, a := range n.t.args {
				if a == t {
					return true, true
				}
				if a == nt {
					return false, true
				}
			}
		}
	}
	return false, false
}

// ---- types ----

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func typekey(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		case types.UnsafePointer:
			return "unsafe.Pointer"
		}
		return x.Name()
	case *types.Named:
		s := x.Obj().Name()
		if x.Obj().Pkg() != nil {
			s = x.Obj().Pkg().Path() + "." + s
			// distinguish function-local types
			if x.Obj().Parent() != nil && x.Obj().Parent() != x.Obj().Pkg().Scope() && x.Obj().Parent() != types.Universe {
				s += fmt.Sprintf("@%d", x.Obj().Pos())
			}
		}
		if x.TypeArgs() != nil {
			var a []string
			for i := 0; i < x.TypeArgs().Len(); i++ {
				a = append(a, typekey(x.TypeArgs().At(i)))
			}
			s += "[" + strings.Join(a, ",") + "]"
		}
		return s
	case *types.Pointer:
		return "*" + typekey(x.Elem())
	case *types.Slice:
		return "[]" + typekey(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), typekey(x.Elem()))
	case *types.Map:
		return "map[" + typekey(x.Key()) + "]" + typekey(x.Elem())
	case *types.Chan:
		return "chan " + typekey(x.Elem())
	case *types.Signature:
		return "func" + types.TypeString(x, nil)
	case *types.Interface:
		if x.NumMethods() == 0 {
			return "interface{}"
		}
		return types.TypeString(x, nil)
	case *types.Struct:
		return types.TypeString(x, nil)
	case *types.Tuple:
		return types.TypeString(x, nil)
	}
	return types.TypeString(t, nil)
}

func isNamed(t types.Type, full string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == full
}

func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "bytes.Buffer", "bytes.Reader", "container/list.List",
		"time.Time", "strings.Builder", "sync.Cond", "sync.Map", "sync.Pool", "time.Timer", "bufio.Reader", "sync/atomic.Int64", "sync/atomic.Uint64", "sync/atomic.Int32", "sync/atomic.Bool",
		"reflect.MapIter", "strings.Reader", "context.Context":
		return true
	}
	return false
}

type leaf struct {
	path string
	sort *Sort
	typ  types.Type
	kind string // "", slice parts: arr off len cap
}

func intBits(b *types.Basic) (int, bool, bool) { // bits, signed, ok
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}
func floatBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Float32:
		return 32
	case types.Float64, types.UntypedFloat:
		return 64
	}
	return 0
}

// scalarSort returns the sort of single-leaf types (nil if composite)
func scalarSort(t types.Type) *Sort {
	if isNamed(t, "reflect.Value") {
		return sRVal
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == ghostPath {
		switch n.Obj().Name() {
		case "Rep", "Seq":
			return sUn("G" + n.Obj().Name())
		case "RV":
			return sRVal
		case "Bytes":
			return sArr(sBV(64), sBV(8))
		}
	}
	switch x := under(t).(type) {
	case *types.Basic:
		if x.Kind() == types.Bool || x.Kind() == types.UntypedBool {
			return sBool
		}
		if n, _, ok := intBits(x); ok {
			return sBV(n)
		}
		if n := floatBits(x); n != 0 {
			return sBV(n)
		}
		if x.Kind() == types.String || x.Kind() == types.UntypedString {
			return sStr
		}
		if x.Kind() == types.UnsafePointer {
			return sInt
		}
		if x.Kind() == types.UntypedNil {
			return sInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt
	case *types.Interface:
		return sIface
	}
	return nil
}

func leaves(t types.Type) []leaf {
	if s := scalarSort(t); s != nil {
		return []leaf{{"", s, t, ""}}
	}
	if isOpaque(t) {
		return nil
	}
	switch x := under(t).(type) {
	case *types.Slice:
		return []leaf{{".arr", sInt, t, "arr"}, {".off", sBV(64), t, "off"}, {".len", sBV(64), t, "len"}, {".cap", sBV(64), t, "cap"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.path, l.sort, l.typ, l.kind})
			}
		}
		return out
	case *types.Array:
		es := scalarSort(x.Elem())
		if es == nil {
			unsupported("array of composite " + t.String())
		}
		return []leaf{{"[]", sArr(sBV(64), es), t, "array"}}
	case *types.Tuple:
		var out []leaf
		for i := 0; i < x.Len(); i++ {
			for _, l := range leaves(x.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort, l.typ, l.kind})
			}
		}
		return out
	}
	unsupported("leaves of " + t.String())
	return nil
}

type unsup struct{ msg string }

func unsupported(format string, a ...interface{}) {
	panic(unsup{fmt.Sprintf(format, a...)})
}

// flatten a value to leaf terms (order of leaves(t))
func (e *Engine) flatten(st *State, t types.Type, v Value) []*Term {
	if s := scalarSort(t); s != nil {
		return []*Term{e.scalar(v)}
	}
	if isOpaque(t) {
		return nil
	}
	switch x := under(t).(type) {
	case *types.Slice:
		s := v.(SliceV)
		return []*Term{s.arr, s.off, s.len, s.cap}
	case *types.Struct:
		s := v.(StructV)
		var out []*Term
		for i := 0; i < x.NumFields(); i++ {
			out = append(out, e.flatten(st, x.Field(i).Type(), s.fields[i])...)
		}
		return out
	case *types.Array:
		return []*Term{v.(*Term)}
	case *types.Tuple:
		s := v.(TupleV)
		var out []*Term
		for i := 0; i < x.Len(); i++ {
			out = append(out, e.flatten(st, x.At(i).Type(), s.vs[i])...)
		}
		return out
	}
	unsupported("flatten %s", t)
	return nil
}

// scalar converts engine values of single-leaf types to their term
func (e *Engine) scalar(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case PtrV:
		if x.idx == nil && x.base == typekey(x.typ) {
			return x.ref
		}
		if x.idx == nil && strings.HasPrefix(x.base, "global:") {
			return App("globaladdr:"+x.base, sInt)
		}
		// interior pointer: opaque address term (identity only)
		if x.idx == nil {
			return App("addr:"+x.base, sInt, x.ref)
		}
		return App("addrx:"+x.base, sInt, x.ref, x.idx)
	case FuncV:
		if x.fn == nil {
			return x.id
		}
		return e.funcID(x)
	case UnitV:
		return IntT(0)
	}
	unsupported("scalar of %T", v)
	return nil
}

func (e *Engine) funcID(f FuncV) *Term {
	for i, g := range e.funcs {
		if g.fn == f.fn && sameBind(g.bind, f.bind) {
			return IntT(int64(-1000 - i))
		}
	}
	e.funcs = append(e.funcs, f)
	return IntT(int64(-1000 - len(e.funcs) + 1))
}
func sameBind(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if fmt.Sprintf("%#v", a[i]) != fmt.Sprintf("%#v", b[i]) {
			return false
		}
	}
	return true
}
func (e *Engine) funcOf(t *Term) FuncV {
	if t.op == "int" {
		i := -1000 - int64(t.val)
		if i >= 0 && int(i) < len(e.funcs) {
			return e.funcs[i]
		}
	}
	return FuncV{id: t}
}

// unflatten builds a value of type t from leaf terms
func (e *Engine) unflatten(t types.Type, ts []*Term) Value {
	v, rest := e.unfl(t, ts)
	if len(rest) != 0 {
		panic("unflatten")
	}
	return v
}
func (e *Engine) unfl(t types.Type, ts []*Term) (Value, []*Term) {
	if s := scalarSort(t); s != nil {
		return e.wrap(t, ts[0]), ts[1:]
	}
	if isOpaque(t) {
		return StructV{typ: t}, ts
	}
	switch x := under(t).(type) {
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3], x.Elem()}, ts[4:]
	case *types.Struct:
		s := StructV{typ: t}
		for i := 0; i < x.NumFields(); i++ {
			var v Value
			v, ts = e.unfl(x.Field(i).Type(), ts)
			s.fields = append(s.fields, v)
		}
		return s, ts
	case *types.Array:
		return ts[0], ts[1:]
	case *types.Tuple:
		s := TupleV{}
		for i := 0; i < x.Len(); i++ {
			var v Value
			v, ts = e.unfl(x.At(i).Type(), ts)
			s.vs = append(s.vs, v)
		}
		return s, ts
	}
	unsupported("unflatten %s", t)
	return nil, nil
}

func (e *Engine) wrap(t types.Type, x *Term) Value {
	switch u := under(t).(type) {
	case *types.Pointer:
		return e.ptrOf(u.Elem(), x)
	case *types.Signature:
		return e.funcOf(x)
	}
	return x
}

func (e *Engine) ptrOf(elem types.Type, x *Term) Value {
	if x.op == "app" {
		if strings.HasPrefix(x.name, "addr:") {
			return PtrV{base: x.name[5:], ref: x.args[0], typ: elem}
		}
		if strings.HasPrefix(x.name, "addrx:") {
			return PtrV{base: x.name[6:], ref: x.args[0], idx: x.args[1], typ: elem}
		}
		if strings.HasPrefix(x.name, "globaladdr:") {
			return PtrV{base: x.name[11:], ref: IntT(1), typ: elem}
		}
	}
	return PtrV{base: typekey(elem), ref: x, typ: elem}
}

func zeroTerm(s *Sort) *Term {
	switch s.kind {
	case "Bool":
		return tFalse
	case "BV":
		return BV(0, s.bits)
	case "Int":
		return IntT(0)
	case "Array":
		return ConstArr(s, zeroTerm(s.v))
	}
	switch s {
	case sStr:
		return StrLit("")
	case sIface:
		return tINil
	case sRVal:
		return App("rvInvalid", sRVal)
	}
	return Var("zero_"+s.name, s)
}

func (e *Engine) zero(t types.Type) Value {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = zeroTerm(l.sort)
	}
	return e.unflatten(t, ts)
}

// fresh symbolic value of type t with well-formedness assumptions
func (e *Engine) fresh(st *State, t types.Type, name string) Value {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = Fresh(name+l.path, l.sort)
	}
	e.wfLeaves(st, ls, ts)
	return e.unflatten(t, ts)
}

func (e *Engine) wfRef(st *State, t *Term) {
	if t.op == "int" || t.fv || st.wf[t.id] {
		return
	}
	if t.op == "app" && (strings.HasPrefix(t.name, "addr") || strings.HasPrefix(t.name, "globaladdr")) {
		return
	}
	st.wf[t.id] = true
	st.assume(ILe(IntT(0), t))
	st.assume(ILt(t, IntT(st.alloc)))
	e.wfOld(st, t, 0)
}

// varBound: the objects allocated when a heap variable was introduced; what it holds refers to those only
var varBound = map[*Term]int64{}

// wfOld: references read from an older heap are to objects allocated by then
func (e *Engine) wfOld(st *State, t *Term, depth int) {
	if depth > 12 {
		return
	}
	switch t.op {
	case "ite":
		for _, x := range t.args[1:] {
			if x.op != "int" && !st.wf[-1-x.id] {
				e.wfOld(st, x, depth+1)
			}
		}
	case "select":
		if st.wf[-1-t.id] {
			return
		}
		st.wf[-1-t.id] = true
		a, idx := t.args[0], []*Term{t.args[1]}
		for {
			if a.op == "select" {
				idx = append(idx, a.args[1])
				a = a.args[0]
			} else if a.op == "store" {
				a = a.args[0]
				r := a
				for i := len(idx) - 1; i >= 0; i-- {
					r = Select(r, idx[i])
				}
				e.wfOld(st, r, depth+1)
				return
			} else {
				break
			}
		}
		if b, ok := varBound[a]; ok && b < st.alloc {
			st.assume(ILt(t, IntT(b)))
		}
	}
}

func (e *Engine) wfLeaves(st *State, ls []leaf, ts []*Term) {
	for i, l := range ls {
		switch l.kind {
		case "arr":
			arr, off, ln, cp := ts[i], ts[i+1], ts[i+2], ts[i+3]
			if ln.op == "bv" && cp.op == "bv" {
				continue
			}
			if st.wf[ln.id] && st.wf[arr.id] {
				continue
			}
			if ln.fv || arr.fv {
				continue
			}
			e.wfRef(st, arr)
			st.wf[ln.id] = true
			if ln != cp {
				st.assume(Ule(ln, cp))
			}
			st.assume(Ult(cp, BV(1<<40, 64)))
			st.assume(Ult(off, BV(1<<40, 64)))
			if arr.op != "int" {
				st.assume(Implies(Eq(arr, IntT(0)), Eq(cp, BV(0, 64))))
			}
		case "":
			if l.sort == sInt {
				if _, ok := under(l.typ).(*types.Signature); ok {
					continue
				}
				e.wfRef(st, ts[i])
			}
			if l.sort == sIface {
				e.wfIface(st, ts[i])
			}
		}
	}
}

func (e *Engine) wfIface(st *State, t *Term) {
	if t.fv || st.wf[t.id] || isICtor(t) != "" || t.op == "ite" {
		return
	}
	st.wf[t.id] = true
	r := App("iref_r", sInt, t)
	st.assume(Implies(isCtor("iref", t), And(ILe(IntT(0), r), ILt(r, IntT(st.alloc)))))
}

// ---- heap ----

func (e *Engine) hget(st *State, key string, vs *Sort) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	h := Var("H0:"+key, sArr(sInt, vs))
	varBound[h] = 1000000
	st.heap[key] = h
	return h
}
func (e *Engine) hset(st *State, key string, ref *Term, h *Term) {
	if st.rec != nil {
		st.rec.note(e, st, key, ref)
	}
	if st.vrec != nil {
		st.vrec.note(e, st, key, ref)
	}
	st.heap[key] = h
}

// pseudo references used in write records
var refAny = Var("ref!any", sInt)
var refFresh = Var("ref!fresh", sInt)

func (r *writeRec) note(e *Engine, st *State, key string, ref *Term) {
	if r.w[key] == nil {
		r.w[key] = map[*Term]bool{}
	}
	if ref == refAny || ref == refFresh {
		r.w[key][ref] = true
		return
	}
	if ref.op == "int" && int64(ref.val) >= r.amark {
		r.w[key][refFresh] = true
		return // object allocated inside the loop
	}
	if r.w[key][ref] {
		return
	}
	if termAfter(ref, r.mark) {
		if r.w[key][refAny] {
			return
		}
		g := ILe(IntT(r.amark), ref)
		if x, _ := e.sol.Check(append(st.pcs(), Not(g)), false, 1000, nil); x == "unsat" {
			r.w[key][refFresh] = true
			return
		}
		r.w[key][refAny] = true
		return
	}
	r.w[key][ref] = true
}

func termAfter(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" {
			if i := strings.LastIndexByte(t.name, '!'); i >= 0 {
				n := 0
				fmt.Sscan(t.name[i+1:], &n)
				if n > mark {
					return true
				}
			}
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (e *Engine) loadLeaf(st *State, key string, s *Sort, ref, idx *Term) *Term {
	if idx == nil {
		return Select(e.hget(st, key, s), ref)
	}
	return Select(Select(e.hget(st, key, sArr(sBV(64), s)), ref), idx)
}
func (e *Engine) storeLeaf(st *State, key string, s *Sort, ref, idx, v *Term) {
	if idx == nil {
		h := e.hget(st, key, s)
		e.hset(st, key, ref, Store(h, ref, v))
		return
	}
	h := e.hget(st, key, sArr(sBV(64), s))
	e.hset(st, key, ref, Store(h, ref, Store(Select(h, ref), idx, v)))
}

func (e *Engine) elemBase(p PtrV) string { // base for elements of array pointed by p
	a := under(p.typ).(*types.Array)
	if p.base == typekey(p.typ) {
		return "[]" + typekey(a.Elem())
	}
	return p.base + "[]"
}

func (e *Engine) load(st *State, p PtrV) Value {
	e.checkGuard(st, p, false)
	if a, ok := under(p.typ).(*types.Array); ok {
		return Select(e.hget(st, e.elemBase(p), sArr(sBV(64), scalarSort(a.Elem()))), p.ref)
	}
	ls := leaves(p.typ)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = e.loadLeaf(st, p.base+l.path, l.sort, p.ref, p.idx)
	}
	e.wfLeaves(st, ls, ts)
	return e.unflatten(p.typ, ts)
}
func (e *Engine) store(st *State, p PtrV, v Value) {
	e.checkGuard(st, p, true)
	if a, ok := under(p.typ).(*types.Array); ok {
		k := e.elemBase(p)
		h := e.hget(st, k, sArr(sBV(64), scalarSort(a.Elem())))
		e.hset(st, k, p.ref, Store(h, p.ref, v.(*Term)))
		return
	}
	ls := leaves(p.typ)
	ts := e.flatten(st, p.typ, v)
	for i, l := range ls {
		e.storeLeaf(st, p.base+l.path, l.sort, p.ref, p.idx, ts[i])
	}
}

func (e *Engine) newRef(st *State) *Term {
	r := IntT(st.alloc)
	st.alloc++
	return r
}

// alloc a zeroed object of type t
func (e *Engine) allocZero(st *State, t types.Type) PtrV {
	r := e.newRef(st)
	p := PtrV{base: typekey(t), ref: r, typ: t}
	if a, ok := under(t).(*types.Array); ok && !isOpaque(t) {
		e.zeroElems(st, a.Elem(), r)
		return p
	}
	e.zeroAt(st, p)
	return p
}
func (e *Engine) zeroAt(st *State, p PtrV) {
	if isOpaque(p.typ) {
		e.initOpaque(st, p)
		return
	}
	if s, ok := under(p.typ).(*types.Struct); ok && scalarSort(p.typ) == nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			e.zeroAt(st, PtrV{base: p.base + "." + f.Name(), ref: p.ref, idx: p.idx, typ: f.Type()})
		}
		return
	}
	for _, l := range leaves(p.typ) {
		e.storeLeaf(st, p.base+l.path, l.sort, p.ref, p.idx, zeroTerm(l.sort))
	}
}
func (e *Engine) zeroElems(st *State, elem types.Type, r *Term) {
	for _, l := range leaves(elem) {
		k := "[]" + typekey(elem) + l.path
		s := sArr(sBV(64), l.sort)
		h := e.hget(st, k, s)
		e.hset(st, k, r, Store(h, r, ConstArr(s, zeroTerm(l.sort))))
	}
}

// ---- interfaces ----

func (e *Engine) tag(t types.Type) *Term {
	k := typekey(t)
	if id, ok := e.tagIDs[k]; ok {
		return IntT(int64(id))
	}
	id := len(e.tagIDs) + 1
	e.tagIDs[k] = id
	e.tagTypes[id] = t
	return IntT(int64(id))
}
func (e *Engine) typeOfTag(t *Term) types.Type {
	if t.op == "int" {
		return e.tagTypes[int(t.val)]
	}
	return nil
}

func ifaceKind(t types.Type) string {
	s := scalarSort(t)
	if s == nil {
		return "box"
	}
	switch {
	case s == sBool || s.kind == "BV":
		return "ibv"
	case s == sStr:
		return "istr"
	case s == sInt:
		return "iref"
	}
	return "box"
}

func (e *Engine) makeIface(st *State, t types.Type, v Value) *Term {
	tg := e.tag(t)
	switch ifaceKind(t) {
	case "ibv":
		x := e.scalar(v)
		if x.sort == sBool {
			return App("ibv", sIface, tg, Ite(x, BV(1, 64), BV(0, 64)))
		}
		return App("ibv", sIface, tg, ZExt(x, 64))
	case "istr":
		return App("istr", sIface, tg, e.scalar(v))
	case "iref":
		return App("iref", sIface, tg, e.scalar(v))
	}
	p := e.allocZero(st, t)
	p.base = "box:" + typekey(t)
	if !isOpaque(t) {
		e.store(st, p, v)
	}
	return App("iref", sIface, tg, p.ref)
}

// hasType: condition that iface x has dynamic type t
func (e *Engine) hasType(x *Term, t types.Type) *Term {
	tg := e.tag(t)
	switch ifaceKind(t) {
	case "ibv":
		return And(isCtor("ibv", x), Eq(App("ibv_tag", sInt, x), tg))
	case "istr":
		return And(isCtor("istr", x), Eq(App("istr_tag", sInt, x), tg))
	}
	return And(isCtor("iref", x), Eq(App("iref_tag", sInt, x), tg))
}
func (e *Engine) unbox(st *State, x *Term, t types.Type) Value {
	switch ifaceKind(t) {
	case "ibv":
		b := App("ibv_bits", sBV(64), x)
		s := scalarSort(t)
		if s == sBool {
			r := Eq(b, BV(1, 64))
			if !b.isConst() && isICtor(x) == "" && !x.fv {
				st.assume(Ule(b, BV(1, 64)))
			}
			return r
		}
		if s.bits < 64 && isICtor(x) == "" && !x.fv {
			st.assume(Eq(b, ZExt(Extract(b, s.bits-1, 0), 64)))
		}
		return Extract(b, s.bits-1, 0)
	case "istr":
		return App("istr_s", sStr, x)
	case "iref":
		r := App("iref_r", sInt, x)
		if u, ok := under(t).(*types.Pointer); ok {
			e.wfRef(st, r)
			return e.ptrOf(u.Elem(), r)
		}
		if _, ok := under(t).(*types.Signature); ok {
			return e.funcOf(r)
		}
		e.wfRef(st, r)
		return r
	}
	p := PtrV{base: "box:" + typekey(t), ref: App("iref_r", sInt, x), typ: t}
	if scalarSort(t) == sRVal {
		return e.load(st, p)
	}
	if isOpaque(t) {
		return StructV{typ: t}
	}
	return e.load(st, p)
}

func tagOf(x *Term) *Term {
	return Ite(isCtor("ibv", x), App("ibv_tag", sInt, x), Ite(isCtor("istr", x), App("istr_tag", sInt, x), Ite(isCtor("iref", x), App("iref_tag", sInt, x), IntT(0))))
}

// dynamic type if syntactically determined (or determined by the path condition)
func (e *Engine) dynType(st *State, x *Term) types.Type {
	if isICtor(x) != "" && x.name != "inil" {
		return e.typeOfTag(x.args[0])
	}
	for n := st.pc; n != nil; n = n.next {
		if t := e.tagFact(n.t, x); t != nil {
			return t
		}
	}
	return nil
}
func (e *Engine) tagFact(f, x *Term) types.Type {
	if f.op == "and" {
		for _, a := range f.args {
			if t := e.tagFact(a, x); t != nil {
				return t
			}
		}
	}
	if f.op == "=" {
		for i := 0; i < 2; i++ {
			a, b := f.args[i], f.args[1-i]
			if a.op == "app" && strings.HasSuffix(a.name, "_tag") && a.args[0] == x && b.op == "int" {
				return e.typeOfTag(b)
			}
			if a == x && isICtor(b) != "" && b.name != "inil" {
				return e.typeOfTag(b.args[0])
			}
		}
	}
	return nil
}
