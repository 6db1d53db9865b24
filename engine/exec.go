package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/muguangyi/ferry"
const ghostPath = modPath + "/verifghost"

type Obligation struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Func   string `json:"func"`
	Pos    string `json:"pos"`
	Status string `json:"status"` // proved, failed, unknown, unsupported
	By     string `json:"by"`
	Detail string `json:"detail,omitempty"`
	Model  string `json:"model,omitempty"`
	Count  int    `json:"count"`
}

type Engine struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	sol      *Solver
	patience int // remaining attempts with a longer time limit
	funcs    []FuncV
	tagIDs   map[string]int
	tagTypes map[int]types.Type

	contracts map[*ssa.Function]*ssa.Function // target -> contract
	inlined   map[string]bool
	summed    map[string]bool
	trusted   map[string]bool
	obls      map[string]*Obligation
	order     []string
	covers    map[string]bool
	paths     int
	steps     int
	maxPaths  int
	feasMs    int // time for feasibility questions
	silent    int
	name      string
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loop
	work      *[]*State
	invLog    map[string]bool
	errGlob   map[string]*Term
	debug     bool
	curPos    token.Pos
	pureDepth int
	script    func(string, []*Term, *Term)
	nocontr   map[string]bool
	verifying *ssa.Function
	curFn     string
	loopOb    int
}

type loop struct {
	h     *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	exits bool
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	ls := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ls[s]
				if l == nil {
					l = &loop{h: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ls[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.loops[fn] = ls
	return ls
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.prog.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) where(st *State) (string, string) {
	// innermost frame in repository code (not ghost/std)
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.fn.Pkg != nil || f.fn.Parent() != nil {
			n := f.fn.String()
			if strings.Contains(n, modPath) && !strings.Contains(n, "verifghost") {
				var p token.Pos
				if f.block != nil {
					ip := f.ip
					if ip > 0 {
						ip--
					}
					for j := ip; j >= 0 && j < len(f.block.Instrs); j-- {
						if q := f.block.Instrs[j].Pos(); q.IsValid() {
							p = q
							break
						}
					}
				}
				return shortFn(n), e.pos(p)
			}
		}
	}
	return "", ""
}
func shortFn(n string) string {
	n = strings.ReplaceAll(n, modPath+"/", "")
	n = strings.ReplaceAll(n, modPath, "ferry")
	return n
}

// ---- obligations ----

func (e *Engine) record(st *State, kind, label, status, by, detail, model string) {
	fn, pos := e.where(st)
	name := label
	if kind == "panic" || kind == "guard" || kind == "unsupported" || kind == "exit" {
		name = label + " in " + fn
	}
	o := e.obls[name]
	if o == nil {
		o = &Obligation{Name: name, Kind: kind, Func: fn, Pos: pos, Status: status, By: by}
		e.obls[name] = o
		e.order = append(e.order, name)
	}
	o.Count++
	if status != "proved" && o.Status == "proved" {
		o.Status = status
		o.Pos = pos
		o.By = by
		o.Detail = detail
		o.Model = model
	} else if status != "proved" && o.Detail == "" {
		o.Detail = detail
		o.Model = model
	}
}

// valid reports whether pc => goal is provable
func (e *Engine) valid(st *State, goal *Term) bool {
	if goal.isTrue() {
		return true
	}
	if v, ok := st.knows(goal); ok && v {
		return true
	}
	if goal.isFalse() {
		// holds only if this point cannot be reached
		r, _ := e.sol.Check(append(st.pcs(), tTrue), true, 1000, nil)
		return r == "unsat"
	}
	r, _, _ := e.sol.Prove(st.pcs(), goal, nil)
	return r == "unsat"
}

// validQuick is for questions whose answer is likely no
func (e *Engine) validQuick(st *State, goal *Term) bool {
	e.sol.quick = true
	defer func() { e.sol.quick = false }()
	return e.valid(st, goal)
}

// patiently tries again, with more time, what could not be decided
func (e *Engine) patiently(r string, prove func() string) string {
	if r != "unknown" || e.patience <= 0 {
		return r
	}
	e.patience--
	t := e.sol.Timeout
	e.sol.Timeout = 4 * t
	defer func() { e.sol.Timeout = t }()
	r = prove()
	if r == "unsat" {
		e.patience++
	}
	return r
}

func (e *Engine) oblige(st *State, kind, label string, goal *Term) {
	if st.dead {
		return
	}
	if e.silent > 0 {
		st.assume(goal)
		return
	}
	if goal.isTrue() {
		e.sol.ByBack["simplifier"]++
		e.record(st, kind, label, "proved", "simplifier", "", "")
		return
	}
	if goal.op == "and" {
		for _, g := range goal.args {
			e.oblige(st, kind, label, g)
		}
		return
	}
	if v, ok := st.knows(goal); ok && v {
		e.sol.ByBack["simplifier"]++
		e.record(st, kind, label, "proved", "simplifier", "", "")
		return
	}
	pcs := st.pcs()
	r, by, _ := e.sol.Prove(pcs, goal, nil)
	r = e.patiently(r, func() string {
		var x string
		x, by, _ = e.sol.Prove(pcs, goal, nil)
		return x
	})
	switch r {
	case "unsat":
		e.record(st, kind, label, "proved", by, "", "")
	default:
		status := "failed"
		if r == "unknown" {
			status = "unknown"
		}
		model := ""
		if o := e.obls[label]; o == nil || o.Model == "" {
			model = e.model(st, pcs, goal)
		}
		detail := "goal: " + goal.String()
		if len(st.trace) > 0 {
			detail += "\ntrace: " + strings.Join(st.trace, " ; ")
		}
		if e.debug {
			fmt.Fprintf(os.Stderr, "FAILED %s [%s] %s\n%s\nmodel %s\n", label, kind, status, detail, model)
			if os.Getenv("GOV_PC") != "" {
				for _, p := range pcs {
					fmt.Fprintf(os.Stderr, "   pc: %s\n", p)
				}
			}
			fn, pos := e.where(st)
			fmt.Fprintln(os.Stderr, "   at", fn, pos)
			for i := len(st.frames) - 1; i >= 0; i-- {
				fmt.Fprintln(os.Stderr, "      in", st.frames[i].fn.String())
			}
		}
		if e.script != nil {
			e.script(label, pcs, goal)
		}
		e.record(st, kind, label, status, r, detail, model)
	}
	st.assume(goal)
}

func (e *Engine) model(st *State, pcs []*Term, goal *Term) string {
	// values of input variables
	seen := map[*Term]bool{}
	var vars []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" && (t.sort.kind == "BV" || t.sort == sBool || t.sort == sInt) && strings.HasPrefix(t.name, "in.") {
			vars = append(vars, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, p := range pcs {
		walk(p)
	}
	walk(goal)
	if len(vars) == 0 {
		return ""
	}
	if len(vars) > 30 {
		vars = vars[:30]
	}
	ts := append(append([]*Term{}, pcs...), Not(goal))
	r, vals := e.sol.Check(ts, false, 2000, vars)
	if r != "sat" || vals == nil {
		return ""
	}
	var out []string
	for i, v := range vars {
		out = append(out, fmt.Sprintf("%s=%s", strings.TrimPrefix(v.name, "in."), vals[i]))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// ---- exploration ----

// explore runs st and all its forks to completion.
func (e *Engine) explore(st *State, onEnd func(*State)) {
	saved := e.work
	var wl []*State
	e.work = &wl
	defer func() { e.work = saved }()
	wl = append(wl, st)
	for len(wl) > 0 {
		s := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		e.runPath(s)
		e.paths++
		if e.paths > e.maxPaths {
			e.record(s, "unsupported", "path limit exceeded", "unsupported", "", "", "")
			return
		}
		if !s.dead {
			onEnd(s)
		}
	}
}

func (e *Engine) runPath(st *State) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				if os.Getenv("GOV_DEBUG") != "" {
					panic(r)
				}
				u = unsup{fmt.Sprintf("internal error: %v", r)}
			}
			if e.silent > 0 {
				// let the outer (non-silent) exploration report it
				panic(u)
			}
			if e.debug {
				fmt.Fprintln(os.Stderr, "UNSUPPORTED", u.msg)
				for i := len(st.frames) - 1; i >= 0; i-- {
					fmt.Fprintln(os.Stderr, "      in", st.frames[i].fn.String())
				}
			}
			e.record(st, "unsupported", "construct outside the verifier's reach: "+u.msg, "unsupported", "", "", "")
			st.dead = true
		}
	}()
	for !st.dead && len(st.frames) > 0 && !st.hitStop {
		if st.stopAt != nil && len(st.frames) < st.stopAt.depth {
			st.dead = true
			return
		}
		e.steps++
		e.step(st)
	}
}

func (e *Engine) fork(st *State) *State {
	n := st.clone()
	return n
}
func (e *Engine) push(st *State) { *e.work = append(*e.work, st) }

// feasible: quick check
func (e *Engine) feasible(st *State, c *Term) bool {
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	if v, ok := st.knows(c); ok {
		return v
	}
	if c.fv {
		return true
	}
	r, _ := e.sol.Check(append(st.pcs(), c), false, e.feasMs, nil)
	return r != "unsat"
}

// decide a boolean: returns list of (state, value). The given state is reused for one outcome.
func (e *Engine) branch(st *State, c *Term, k func(st *State, b bool)) {
	if c.isConst() {
		k(st, c.isTrue())
		return
	}
	if v, ok := st.knows(c); ok {
		k(st, v)
		return
	}
	ft := e.feasible(st, c)
	ff := true
	if ft {
		ff = e.feasible(st, Not(c))
	}
	if ft && ff {
		o := st.clone()
		o.addPC(Not(c), true)
		k(o, false)
		e.push(o)
		st.addPC(c, true)
		k(st, true)
		return
	}
	if ft {
		st.addPC(c, true)
		k(st, true)
		return
	}
	st.addPC(Not(c), true)
	k(st, false)
}

// ---- calls ----

func (e *Engine) pushFrame(st *State, f FuncV, args []Value, ret func(e *Engine, st *State, vals []Value)) *Frame {
	fn := f.fn
	if fn.Blocks == nil {
		unsupported("call of external function %s", fn)
	}
	if len(st.frames) > 60 {
		unsupported("call depth (recursion without contract?) at %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, bind: f.bind, ret: ret}
	if len(args) != len(fn.Params) {
		unsupported("arity %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = f.bind[i]
	}
	fr.block = fn.Blocks[0]
	st.frames = append(st.frames, fr)
	return fr
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// callFn dispatches a call of a resolved function.
func (e *Engine) callFn(st *State, f FuncV, args []Value, ret func(e *Engine, st *State, vals []Value), instr ssa.Instruction) {
	if f.native != nil {
		f.native(e, st, &callCtx{args: args, ret: ret, instr: instr})
		return
	}
	if f.fn == nil {
		if f.id != nil {
			if f.id.op == "ite" {
				c := f.id.args[0]
				a, b := f.id.args[1], f.id.args[2]
				e.branch(st, c, func(st *State, v bool) {
					if v {
						e.callFn(st, e.funcOf(a), args, ret, instr)
					} else {
						e.callFn(st, e.funcOf(b), args, ret, instr)
					}
				})
				return
			}
			if f.id.op == "int" && f.id.val == 0 {
				e.panicIf(st, tTrue, "nil function call")
				return
			}
			if h, ok := st.hooks["fn:"+f.id.String()]; ok {
				e.callFn(st, h, args, ret, instr)
				return
			}
		}
		unsupported("call of unknown function value")
	}
	fn := f.fn
	// bound-method wrappers and thunks are synthetic with bodies; fine.
	key := fnKey(fn)
	if n := len(st.frames); n > 0 && st.frames[n-1].summary == fn {
		e.summaryHavoc(st, st.frames[n-1], fn, ret)
		return
	}
	unfold := false
	if n := len(st.frames); n > 0 && st.frames[n-1].unfold == fn {
		unfold = true
	}
	if h, ok := st.hooks["call:"+key]; ok && !unfold {
		if strings.Contains(key, modPath) {
			e.summed[shortFn(fn.String())+" (stand-in or induction hypothesis)"] = true
		} else {
			e.trusted[key] = true
		}
		e.callFn(st, h, args, ret, instr)
		return
	}
	if c := e.contractFor(fn, st); c != nil && !unfold {
		e.callSummary(st, c, fn, args, ret)
		return
	}
	if h, ok := intrinsics[key]; ok {
		if h(e, st, &callCtx{fn: fn, args: args, ret: ret, instr: instr, bind: f.bind}) {
			if !strings.Contains(key, "verifghost") {
				e.trusted[key] = true
			}
			return
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		ret(e, st, nil) // what library packages set up stays arbitrary
		return
	}
	if fn.Blocks == nil {
		unsupported("external function %s", key)
	}
	if strings.HasPrefix(key, modPath) || strings.HasPrefix(key, "(*"+modPath) || strings.HasPrefix(key, "("+modPath) {
		if !strings.Contains(key, "verifghost") && !e.isHarness(fn) {
			e.inlined[key] = true
		}
	} else {
		pk := ""
		if fn.Pkg != nil {
			pk = fn.Pkg.Pkg.Path()
		} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
			pk = fn.Origin().Pkg.Pkg.Path()
		}
		if !stdInline[pk] && fn.Pkg != nil {
			unsupported("library function %s has no contract", key)
		}
		e.inlined[key] = true
	}
	e.pushFrame(st, f, args, ret)
}

var stdInline = map[string]bool{"io": true, "math/bits": true, "unicode/utf8": true, "errors": true, "strings": true, "bytes": true, "slices": true, "cmp": true, "encoding/binary": true,
	"sort": true, "maps": true, "min": true, "math": true, "container/list": false, "internal/byteorder": true}

type callCtx struct {
	fn    *ssa.Function
	args  []Value
	ret   func(e *Engine, st *State, vals []Value)
	instr ssa.Instruction
	bind  []Value
}

func (c *callCtx) done(e *Engine, st *State, vals ...Value) bool {
	c.ret(e, st, vals)
	return true
}

func retTo(instr ssa.Value) func(e *Engine, st *State, vals []Value) {
	return func(e *Engine, st *State, vals []Value) {
		if instr == nil {
			return
		}
		fr := st.top()
		if _, ok := instr.Type().(*types.Tuple); ok {
			fr.env[instr] = TupleV{vals}
			return
		}
		if len(vals) == 1 {
			fr.env[instr] = vals[0]
		}
	}
}
func retNone(e *Engine, st *State, vals []Value) {}

// ---- panics ----

func (e *Engine) catching(st *State) bool {
	for _, f := range st.frames {
		if len(f.defers) > 0 || f.onPanic != nil {
			return true
		}
	}
	return false
}

// panicIf: the operation panics when bad holds
func (e *Engine) panicIf(st *State, bad *Term, msg string) {
	ok := Not(bad)
	if ok.isTrue() {
		return
	}
	if v, k := st.knows(ok); k && v {
		return
	}
	if e.pureDepth > 0 {
		// specification expressions are total: an undefined operation has an unspecified value
		if ok.isFalse() && !strings.HasPrefix(msg, "index") && !strings.HasPrefix(msg, "nil pointer") {
			st.dead = true
			panic(pathSwitch{})
		}
		return
	}
	if !e.catching(st) {
		e.oblige(st, "panic", "no panic: "+msg, ok)
		return
	}
	if !bad.isTrue() && !e.feasible(st, bad) {
		st.assume(ok)
		return
	}
	if ok.isFalse() || !e.feasible(st, ok) {
		st.addPC(bad, true)
		e.startPanic(st, &panicInfo{msg: msg, val: e.runtimeErr(st, msg)})
		panic(pathSwitch{})
	}
	o := st.clone()
	o.addPC(bad, true)
	e.startPanic(o, &panicInfo{msg: msg, val: e.runtimeErr(o, msg)})
	e.push(o)
	st.addPC(ok, true)
}

type pathSwitch struct{}

func (e *Engine) runtimeErr(st *State, msg string) *Term {
	r := e.newRef(st)
	return App("iref", sIface, IntT(9999), r) // runtime.Error: dynamic type implements error
}

func (e *Engine) startPanic(st *State, p *panicInfo) {
	st.trace = append(st.trace, "panic: "+p.msg)
	f := st.top()
	f.panic = p
	f.unwind = true
	// remaining handling in step
}

// unwindStep continues unwinding of the top frame
func (e *Engine) unwindStep(st *State) {
	f := st.top()
	if f.panic.recovered {
		// run remaining defers, then return through recover block
		if len(f.defers) > 0 {
			e.runDefer(st, f)
			return
		}
		f.unwind = false
		f.panic = nil
		if f.fn.Recover != nil {
			f.prev = f.block
			f.block = f.fn.Recover
			f.ip = 0
			f.entered = false
			return
		}
		res := f.fn.Signature.Results()
		var vals []Value
		for i := 0; i < res.Len(); i++ {
			vals = append(vals, e.zero(res.At(i).Type()))
		}
		st.frames = st.frames[:len(st.frames)-1]
		f.ret(e, st, vals)
		return
	}
	if len(f.defers) > 0 {
		e.runDefer(st, f)
		return
	}
	p := f.panic
	st.frames = st.frames[:len(st.frames)-1]
	if f.onPanic != nil && f.onPanic(e, st, p) {
		return
	}
	if len(st.frames) == 0 {
		st.rpanic = p
		return
	}
	g := st.top()
	g.panic = &panicInfo{val: p.val, msg: p.msg, exit: p.exit}
	g.unwind = true
}

func (e *Engine) runDefer(st *State, f *Frame) {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	if d.intr != nil {
		e.builtin(st, d.intr.Name(), d.args, nil, retNone, nil)
		return
	}
	n := len(st.frames)
	e.callFn(st, d.fn, d.args, retNone, nil)
	if len(st.frames) > n {
		st.top().isDefer = true
	}
}

// ---- stepping ----

func (e *Engine) step(st *State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathSwitch); ok {
				return
			}
			if _, ok := r.(unsup); !ok && e.debug {
				w, q := e.where(st)
				fmt.Fprintln(os.Stderr, "INTERNAL", w, q)
			}
			panic(r)
		}
	}()
	f := st.top()
	if f.unwind {
		e.unwindStep(st)
		return
	}
	if !f.entered {
		f.entered = true
		if e.blockEntry(st, f) {
			return
		}
	}
	if f.ip >= len(f.block.Instrs) {
		panic("ip")
	}
	in := f.block.Instrs[f.ip]
	f.ip++
	e.exec(st, f, in)
}

// blockEntry handles phis and loop headers; returns true when control was taken over.
func (e *Engine) blockEntry(st *State, f *Frame) bool {
	b := f.block
	if st.stopAt != nil && len(st.frames) == st.stopAt.depth {
		// inside a loop analysis
		if b == st.stopAt.h && f.prev != nil && st.stopAt.loop.body[f.prev] {
			// back edge
			phis := map[*ssa.Phi]Value{}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis[ph] = e.val(st, f, ph.Edges[predIndex(b, f.prev)])
			}
			st.stopPhi = phis
			st.hitStop = true
			return true
		}
		if !st.stopAt.loop.body[b] {
			st.dead = true // left the loop
			return true
		}
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	l := e.loopsOf(f.fn)[b]
	if l != nil && f.prev != nil && l.body[f.prev] {
		if f.cuts != nil && f.cuts[b] != nil {
			st.dead = true // invariant already established for the next iteration
			return true
		}
	}
	if l != nil && f.prev != nil && !l.body[f.prev] {
		if f.cuts != nil {
			delete(f.cuts, b)
		}
		if f.unroll != nil {
			delete(f.unroll, b)
		}
	}
	if len(phis) > 0 {
		pi := predIndex(b, f.prev)
		vals := make([]Value, len(phis))
		for i, ph := range phis {
			vals[i] = e.val(st, f, ph.Edges[pi])
		}
		for i, ph := range phis {
			f.env[ph] = vals[i]
		}
	}
	f.ip = len(phis)
	if l != nil {
		if f.cuts != nil && f.cuts[b] != nil {
			return false
		}
		n := 0
		if f.unroll != nil {
			n = f.unroll[b]
		}
		if n < 80 && e.concreteHeader(st, f, l) {
			if f.unroll == nil {
				f.unroll = map[*ssa.BasicBlock]int{}
			}
			f.unroll[b] = n + 1
			return false
		}
		e.cutLoop(st, f, l, phis)
		return true
	}
	return false
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	panic("pred")
}

// concreteHeader: the header ends in an exit test whose outcome is syntactically determined
func (e *Engine) concreteHeader(st *State, f *Frame, l *loop) bool {
	iff, ok := l.h.Instrs[len(l.h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if l.body[l.h.Succs[0]] && l.body[l.h.Succs[1]] {
		return false
	}
	for _, in := range l.h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Extract, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.ChangeType:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	p := st.clone()
	pf := p.top()
	defer func() { e.silent-- }()
	e.silent++
	okc := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				okc = false
			}
		}()
		for pf.ip < len(l.h.Instrs)-1 {
			in := l.h.Instrs[pf.ip]
			pf.ip++
			e.exec(p, pf, in)
		}
		c := e.term(p, pf, iff.Cond)
		if c.isConst() {
			okc = true
		} else if v, k := p.knows(c); k {
			// a way out that is taken for sure
			okc = l.body[l.h.Succs[0]] != v
		}
	}()
	return okc
}

// val evaluates an SSA operand
func (e *Engine) val(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(st, x)
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := f.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
	}
	return r
}
func (e *Engine) term(st *State, f *Frame, v ssa.Value) *Term {
	return e.scalar(e.val(st, f, v))
}

func (e *Engine) globalPtr(x *ssa.Global) PtrV {
	t := x.Type().(*types.Pointer).Elem()
	return PtrV{base: "global:" + x.Pkg.Pkg.Path() + "." + x.Name(), ref: IntT(1), typ: t}
}

func (e *Engine) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.Basic); ok && t.(*types.Basic).Kind() == types.UntypedNil {
			return IntT(0)
		}
		return e.zero(t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		unsupported("const %s", c)
	}
	if b.Kind() == types.Bool || b.Kind() == types.UntypedBool {
		return BoolT(constant.BoolVal(c.Value))
	}
	if b.Info()&types.IsString != 0 {
		return StrLit(constant.StringVal(c.Value))
	}
	if n, _, ok := intBits(b); ok {
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return BV(uint64(i), n)
		}
		u, _ := constant.Uint64Val(v)
		return BV(u, n)
	}
	if n := floatBits(b); n != 0 {
		fl, _ := constant.Float64Val(c.Value)
		if n == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return BV(uint64(math.Float32bits(f32)), 32)
		}
		return BV(math.Float64bits(fl), 64)
	}
	unsupported("const %s", c)
	return nil
}

func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	f.prev = f.block
	f.block = to
	f.ip = 0
	f.entered = false
}

func toIdx(t *Term, typ types.Type) *Term {
	if t.sort.bits == 64 {
		return t
	}
	if b, ok := under(typ).(*types.Basic); ok {
		if _, s, ok := intBits(b); ok && s {
			return SExt(t, 64)
		}
	}
	return ZExt(t, 64)
}

func (e *Engine) exec(st *State, f *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Jump:
		e.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c := e.term(st, f, x.Cond)
		blk := f.block
		e.branch(st, c, func(st *State, b bool) {
			g := st.top()
			if b {
				e.jump(st, g, blk.Succs[0])
			} else {
				e.jump(st, g, blk.Succs[1])
			}
		})
	case *ssa.Return:
		var vals []Value
		for _, r := range x.Results {
			vals = append(vals, e.val(st, f, r))
		}
		st.frames = st.frames[:len(st.frames)-1]
		if f.verify != nil {
			st.retMods = f.mods
		}
		if len(st.frames) == 0 {
			st.result = vals
		}
		f.ret(e, st, vals)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			f.ip--
			e.runDefer(st, f)
		}
	case *ssa.Panic:
		v := e.term(st, f, x.X)
		msg := "explicit panic"
		if !e.catching(st) {
			e.oblige(st, "panic", "no panic: "+msg, tFalse)
			st.dead = true
			return
		}
		e.startPanic(st, &panicInfo{msg: msg, val: v})
	case *ssa.Defer:
		d := deferred{}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			d.intr = b
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(st, f, a))
			}
			f.defers = append(f.defers, d)
			return
		}
		e.resolve(st, f, &x.Call, func(st *State, fv FuncV, args []Value) {
			g := st.top()
			g.defers = append(g.defers, deferred{fn: fv, args: args})
		})
	case *ssa.Go:
		pos := e.pos(x.Pos())
		e.resolve(st, f, &x.Call, func(st *State, fv FuncV, args []Value) {
			st.spawned = append(st.spawned, spawn{fv, args, pos, nil})
		})
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			var args []Value
			for _, a := range x.Call.Args {
				args = append(args, e.val(st, f, a))
			}
			e.builtin(st, b.Name(), args, x.Call.Args, retTo(x), x)
			return
		}
		e.resolve(st, f, &x.Call, func(st *State, fv FuncV, args []Value) {
			e.callFn(st, fv, args, retTo(x), x)
		})
	case *ssa.Store:
		p := e.val(st, f, x.Addr)
		v := e.val(st, f, x.Val)
		pp := e.deref(st, p, x.Addr.Type())
		if e.interfere(st, f, pp) {
			return
		}
		e.escape(st, x.Val.Type(), v)
		e.store(st, pp, v)
	case *ssa.UnOp:
		e.unop(st, f, x)
	case *ssa.BinOp:
		a, b := e.val(st, f, x.X), e.val(st, f, x.Y)
		f.env[x] = e.binop(st, x.Op, a, b, x.X.Type(), x.Y.Type())
	case *ssa.Phi:
		panic("phi")
	case *ssa.Alloc:
		v := e.allocZero(st, x.Type().(*types.Pointer).Elem())
		if len(st.guards) > 0 && v.ref.op == "int" {
			st.flags["own:"+v.ref.String()] = true
		}
		f.env[x] = v
	case *ssa.FieldAddr:
		p := e.deref(st, e.val(st, f, x.X), x.X.Type())
		s := under(p.typ).(*types.Struct)
		fl := s.Field(x.Field)
		f.env[x] = PtrV{base: p.base + "." + fl.Name(), ref: p.ref, idx: p.idx, typ: fl.Type()}
	case *ssa.Field:
		v := e.val(st, f, x.X)
		f.env[x] = v.(StructV).fields[x.Field]
	case *ssa.IndexAddr:
		idx := toIdx(e.term(st, f, x.Index), x.Index.Type())
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			s := e.val(st, f, x.X).(SliceV)
			e.panicIf(st, Not(Ult(idx, s.len)), "index out of range")
			f.env[x] = PtrV{base: "[]" + typekey(u.Elem()), ref: s.arr, idx: Add(s.off, idx), typ: u.Elem()}
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			p := e.deref(st, e.val(st, f, x.X), x.X.Type())
			e.panicIf(st, Not(Ult(idx, BV(uint64(a.Len()), 64))), "index out of range")
			f.env[x] = PtrV{base: e.elemBase(p), ref: p.ref, idx: idx, typ: a.Elem()}
		default:
			unsupported("indexaddr %s", x.X.Type())
		}
	case *ssa.Index:
		idx := toIdx(e.term(st, f, x.Index), x.Index.Type())
		switch u := under(x.X.Type()).(type) {
		case *types.Array:
			e.panicIf(st, Not(Ult(idx, BV(uint64(u.Len()), 64))), "index out of range")
			f.env[x] = Select(e.val(st, f, x.X).(*Term), idx)
		case *types.Basic:
			s := e.term(st, f, x.X)
			e.panicIf(st, Not(Ult(idx, slen(s))), "index out of range")
			f.env[x] = strByte(s, idx)
		default:
			unsupported("index %s", x.X.Type())
		}
	case *ssa.Lookup:
		e.lookup(st, f, x)
	case *ssa.MapUpdate:
		m := e.term(st, f, x.Map)
		mt := under(x.Map.Type()).(*types.Map)
		k := e.val(st, f, x.Key)
		v := e.val(st, f, x.Value)
		e.panicIf(st, Eq(m, IntT(0)), "assignment to entry in nil map")
		kt := e.mapKey(st, mt, k)
		e.mapSet(st, mt, m, kt, v)
	case *ssa.MakeMap:
		r := e.newRef(st)
		e.mapInit(st, under(x.Type()).(*types.Map), r)
		f.env[x] = r
	case *ssa.MakeChan:
		r := e.newRef(st)
		sz := toIdx(e.term(st, f, x.Size), x.Size.Type())
		e.storeLeaf(st, "chan#cap", sBV(64), r, nil, sz)
		e.storeLeaf(st, "chan#closed", sBool, r, nil, tFalse)
		e.storeLeaf(st, "chan#sent", sBV(64), r, nil, BV(0, 64))
		e.storeLeaf(st, "chan#rcvd", sBV(64), r, nil, BV(0, 64))
		f.env[x] = r
	case *ssa.MakeSlice:
		n := toIdx(e.term(st, f, x.Len), x.Len.Type())
		c := toIdx(e.term(st, f, x.Cap), x.Cap.Type())
		e.panicIf(st, Not(Ult(n, BV(1<<40, 64))), "makeslice: len out of range")
		e.panicIf(st, Not(And(Ult(c, BV(1<<40, 64)), Ule(n, c))), "makeslice: cap out of range")
		el := under(x.Type()).(*types.Slice).Elem()
		r := e.newRef(st)
		e.zeroElems(st, el, r)
		if h, ok := st.hooks["make"]; ok && e.pureDepth == 0 {
			// allocation-size hook: func(cap int)
			f.env[x] = SliceV{r, BV(0, 64), n, c, el}
			e.callFn(st, h, []Value{Value(c)}, retNone, nil)
			return
		}
		f.env[x] = SliceV{r, BV(0, 64), n, c, el}
	case *ssa.Slice:
		e.slice(st, f, x)
	case *ssa.MakeInterface:
		f.env[x] = e.makeIface(st, x.X.Type(), e.val(st, f, x.X))
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, f, b))
		}
		f.env[x] = FuncV{fn: x.Fn.(*ssa.Function), bind: bs}
	case *ssa.ChangeType:
		v := e.val(st, f, x.X)
		f.env[x] = e.retype(v, x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		f.env[x] = e.val(st, f, x.X)
	case *ssa.Convert:
		f.env[x] = e.convert(st, e.val(st, f, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		e.typeAssert(st, f, x)
	case *ssa.Extract:
		f.env[x] = e.val(st, f, x.Tuple).(TupleV).vs[x.Index]
	case *ssa.Range:
		e.rangeInit(st, f, x)
	case *ssa.Next:
		e.next(st, f, x)
	case *ssa.Send:
		ch := e.term(st, f, x.Chan)
		v := e.val(st, f, x.X)
		e.chanSend(st, ch, under(x.Chan.Type()).(*types.Chan), v, true, func(st *State) {})
	case *ssa.Select:
		e.selectStmt(st, f, x)
	default:
		unsupported("instruction %T", in)
	}
}

func (e *Engine) retype(v Value, from, to types.Type) Value {
	switch x := v.(type) {
	case StructV:
		return StructV{typ: to, fields: x.fields}
	case PtrV:
		el := under(to).(*types.Pointer).Elem()
		if x.base == typekey(x.typ) && x.idx == nil && typekey(el) != typekey(x.typ) {
			unsupported("pointer conversion %s -> %s", from, to)
		}
		x.typ = el
		return x
	case SliceV:
		el := under(to).(*types.Slice).Elem()
		if typekey(el) != typekey(x.elem) {
			unsupported("slice retype")
		}
		x.elem = el
		return x
	}
	return v
}

// deref checks for nil and returns the location
func (e *Engine) deref(st *State, v Value, pt types.Type) PtrV {
	switch p := v.(type) {
	case PtrV:
		if p.ref.op != "int" || p.ref.val == 0 {
			if !strings.HasPrefix(p.base, "global:") && !(p.ref.op == "app") {
				e.panicIf(st, Eq(p.ref, IntT(0)), "nil pointer dereference")
			}
		}
		return p
	case *Term:
		if p.op == "ite" {
			unsupported("deref of ite")
		}
		el := under(pt).(*types.Pointer).Elem()
		return e.deref(st, e.ptrOf(el, p), pt)
	}
	unsupported("deref of %T", v)
	return PtrV{}
}

func (e *Engine) unop(st *State, f *Frame, x *ssa.UnOp) {
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			f.env[x] = e.stdGlobal(st, g)
			return
		}
		p := e.deref(st, e.val(st, f, x.X), x.X.Type())
		if e.interfere(st, f, p) {
			return
		}
		f.env[x] = e.load(st, p)
	case token.NOT:
		f.env[x] = Not(e.term(st, f, x.X))
	case token.SUB:
		t := e.term(st, f, x.X)
		if b, ok := under(x.Type()).(*types.Basic); ok && floatBits(b) != 0 {
			r := Fresh("fneg", t.sort)
			n := t.sort.bits
			st.assume(Eq(r, BVBin("bvxor", t, BV(uint64(1)<<uint(n-1), n))))
			f.env[x] = r
			return
		}
		f.env[x] = Neg(t)
	case token.XOR:
		f.env[x] = BVNot(e.term(st, f, x.X))
	case token.ARROW:
		ch := e.term(st, f, x.X)
		ct := under(x.X.Type()).(*types.Chan)
		commaok := x.CommaOk
		e.chanRecv(st, ch, ct, func(st *State, v Value, ok *Term) {
			g := st.top()
			if commaok {
				g.env[x] = TupleV{[]Value{v, ok}}
			} else {
				g.env[x] = v
			}
		})
	default:
		unsupported("unop %s", x.Op)
	}
}

func (e *Engine) stdGlobal(st *State, g *ssa.Global) Value {
	t := g.Type().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		if v, ok := e.errGlob[name]; ok {
			return v
		}
		v := App("iref", sIface, IntT(9998), IntT(int64(900000+len(e.errGlob))))
		e.errGlob[name] = v
		return v
	}
	if v, ok := stdGlobals[name]; ok {
		return v(e, st)
	}
	if _, ok := under(t).(*types.Interface); ok {
		v, ok := e.errGlob[name]
		if !ok {
			v = App("iref", sIface, IntT(9998), IntT(int64(900000+len(e.errGlob))))
			e.errGlob[name] = v
		}
		return v
	}
	unsupported("library global %s", name)
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && floatBits(b) != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	_, s, _ := intBits(b)
	return s
}

func (e *Engine) eqVal(st *State, a, b Value, t types.Type) *Term {
	if isFloat(t) {
		return FPOp("eq", sBool, e.scalar(a), e.scalar(b))
	}
	if s := scalarSort(t); s != nil {
		if s == sIface {
			return e.ifaceEq(st, e.scalar(a), e.scalar(b))
		}
		x, y := e.scalar(a), e.scalar(b)
		if x.sort != y.sort {
			unsupported("eq sorts %s %s", x.sort.str, y.sort.str)
		}
		return Eq(x, y)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var cs []*Term
		x, y := a.(StructV), b.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, e.eqVal(st, x.fields[i], y.fields[i], u.Field(i).Type()))
		}
		return And(cs...)
	case *types.Slice:
		// comparison with nil only
		x, y := a.(SliceV), b.(SliceV)
		if x.arr.op == "int" && x.arr.val == 0 {
			x, y = y, x
		}
		return Eq(x.arr, IntT(0))
	}
	unsupported("eq %s", t)
	return nil
}

func (e *Engine) ifaceEq(st *State, x, y *Term) *Term {
	if x == tINil {
		return isCtor("inil", y)
	}
	if y == tINil {
		return isCtor("inil", x)
	}
	// interface equality: floats compare by ==, boxed structs by content; both are
	// approximated by identity of the representation except for floats.
	tx, ty := e.dynType(st, x), e.dynType(st, y)
	if tx != nil && ty != nil && typekey(tx) != typekey(ty) {
		return tFalse
	}
	if tx != nil && ty != nil && isFloat(tx) {
		return FPOp("eq", sBool, e.scalar(e.unbox(st, x, tx)), e.scalar(e.unbox(st, y, ty)))
	}
	if tx != nil && ifaceKind(tx) == "box" {
		unsupported("comparison of boxed interface values")
	}
	return Eq(x, y)
}

func (e *Engine) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	switch op {
	case token.EQL:
		// interface vs concrete mixes are converted by ssa
		return e.eqVal(st, a, b, ta)
	case token.NEQ:
		return Not(e.eqVal(st, a, b, ta))
	}
	x, y := e.scalar(a), e.scalar(b)
	if isString(ta) {
		switch op {
		case token.ADD:
			return strCat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return App("strcmp"+op.String(), sBool, x, y)
		}
	}
	if isFloat(ta) {
		switch op {
		case token.LSS:
			return FPOp("lt", sBool, x, y)
		case token.LEQ:
			return FPOp("le", sBool, x, y)
		case token.GTR:
			return FPOp("lt", sBool, y, x)
		case token.GEQ:
			return FPOp("le", sBool, y, x)
		}
		if x.isConst() && y.isConst() {
			return constFloat(op, x, y)
		}
		n := map[token.Token]string{token.ADD: "is_add", token.SUB: "is_sub", token.MUL: "is_mul", token.QUO: "is_div"}[op]
		if n == "" {
			unsupported("float op %s", op)
		}
		key := fmt.Sprintf("%s!%d!%d", n, x.id, y.id)
		r := Var("fp_"+key, x.sort)
		st.assume(FPOp(n, sBool, r, x, y))
		return r
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.QUO, token.REM:
		e.panicIf(st, Eq(y, BV(0, y.sort.bits)), "integer divide by zero")
		n := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[sg][op]
		return BVBin(n, x, y)
	case token.AND:
		return BVBin("bvand", x, y)
	case token.OR:
		return BVBin("bvor", x, y)
	case token.XOR:
		return BVBin("bvxor", x, y)
	case token.AND_NOT:
		return BVBin("bvand", x, BVNot(y))
	case token.SHL, token.SHR:
		n := x.sort.bits
		// shift count: saturate
		var c *Term
		if isSigned(tb) {
			e.panicIf(st, Slt(y, BV(0, y.sort.bits)), "negative shift amount")
		}
		if y.sort.bits > n {
			big := Not(Ult(y, BV(uint64(n), y.sort.bits)))
			c = Ite(big, BV(uint64(n), n), Extract(y, n-1, 0))
			if n < 8 {
				unsupported("shift width")
			}
		} else {
			c = ZExt(y, n)
		}
		if op == token.SHL {
			return BVBin("bvshl", x, c)
		}
		if sg {
			return BVBin("bvashr", x, c)
		}
		return BVBin("bvlshr", x, c)
	case token.LSS:
		if sg {
			return Slt(x, y)
		}
		return Ult(x, y)
	case token.LEQ:
		if sg {
			return Sle(x, y)
		}
		return Ule(x, y)
	case token.GTR:
		if sg {
			return Slt(y, x)
		}
		return Ult(y, x)
	case token.GEQ:
		if sg {
			return Sle(y, x)
		}
		return Ule(y, x)
	}
	unsupported("binop %s", op)
	return nil
}

func constFloat(op token.Token, x, y *Term) *Term {
	if x.sort.bits == 32 {
		a, b := math.Float32frombits(uint32(x.val)), math.Float32frombits(uint32(y.val))
		var r float32
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		}
		return BV(uint64(math.Float32bits(r)), 32)
	}
	a, b := math.Float64frombits(x.val), math.Float64frombits(y.val)
	var r float64
	switch op {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO:
		r = a / b
	}
	return BV(math.Float64bits(r), 64)
}

var sBytes = sArr(sBV(64), sBV(8))

func slen(s *Term) *Term {
	if s.op == "app" && s.name == "strcat" {
		return Add(slen(s.args[0]), slen(s.args[1]))
	}
	return App("slen", sBV(64), s)
}
func strByte(s, i *Term) *Term {
	if s.op == "strlit" && i.op == "bv" && i.val < uint64(len(s.name)) {
		return BV(uint64(s.name[i.val]), 8)
	}
	if s.op == "app" && s.name == "strOf" {
		return Select(s.args[0], Add(s.args[1], i))
	}
	return Select(App("bytesOf", sBytes, s), i)
}

// strCat in canonical right-nested form with merged literals
func strCat(a, b *Term) *Term {
	if a.op == "strlit" && a.name == "" {
		return b
	}
	if b.op == "strlit" && b.name == "" {
		return a
	}
	if a.op == "app" && a.name == "strcat" {
		return strCat(a.args[0], strCat(a.args[1], b))
	}
	if a.op == "strlit" && b.op == "strlit" {
		return StrLit(a.name + b.name)
	}
	if a.op == "strlit" && b.op == "app" && b.name == "strcat" && b.args[0].op == "strlit" {
		return strCat(StrLit(a.name+b.args[0].name), b.args[1])
	}
	return App("strcat", sStr, a, b)
}
func strOf(content, off, n *Term) *Term {
	if n.op == "bv" {
		if n.val == 0 {
			return StrLit("")
		}
		if n.val <= 64 {
			var bs []byte
			for i := uint64(0); i < n.val; i++ {
				c := Select(content, Add(off, BV(i, 64)))
				if c.op != "bv" {
					bs = nil
					break
				}
				bs = append(bs, byte(c.val))
			}
			if bs != nil {
				return StrLit(string(bs))
			}
		}
	}
	if content.op == "app" && content.name == "bytesOf" && off.op == "bv" && off.val == 0 && n == slen(content.args[0]) {
		return content.args[0]
	}
	if content.op == "cp" {
		// whole copied region
		d := Sub(off, content.args[1])
		if d.op == "bv" && d.val == 0 && n == content.args[4] {
			return strOf(content.args[2], content.args[3], n)
		}
	}
	return App("strOf", sStr, content, off, n)
}

func (e *Engine) bytesContent(st *State, s SliceV) *Term {
	return Select(e.hget(st, "[]uint8", sBytes), s.arr)
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	uf, ut := under(from), under(to)
	bf, okf := uf.(*types.Basic)
	bt, okt := ut.(*types.Basic)
	if okf && okt {
		if bt.Kind() == types.UnsafePointer || bf.Kind() == types.UnsafePointer {
			return v
		}
		nf, sf, iff := intBits(bf)
		nt, stt, itt := intBits(bt)
		_ = nf
		if iff && itt {
			t := e.scalar(v)
			if sf {
				return SExt(t, nt)
			}
			return ZExt(t, nt)
		}
		ff, ft := floatBits(bf), floatBits(bt)
		if ff != 0 && ft != 0 {
			t := e.scalar(v)
			if ff == ft {
				return t
			}
			if t.op == "bv" {
				if ft == 32 {
					return BV(uint64(math.Float32bits(float32(math.Float64frombits(t.val)))), 32)
				}
				return BV(math.Float64bits(float64(math.Float32frombits(uint32(t.val)))), 64)
			}
			r := App(fmt.Sprintf("fcvt%d_%d", ff, ft), sBV(ft), t)
			if !st.wf[r.id] {
				st.wf[r.id] = true
				st.assume(FPOp("is_cvt", sBool, r, t))
				if ft == 64 {
					// widening then narrowing restores the bits of non-NaN values; NaN payload
					// is preserved by the hardware conversions up to the quiet bit.
					back := App("fcvt64_32", sBV(32), r)
					st.assume(Implies(Not(FPOp("isnan", sBool, t)), Eq(back, t)))
				}
			}
			return r
		}
		if iff && ft != 0 {
			t := e.scalar(v)
			if t.op == "bv" && ft == 64 && sf {
				return BV(math.Float64bits(float64(sx(t.val, nf))), 64)
			}
			if t.op == "bv" && ft == 32 && sf {
				return BV(uint64(math.Float32bits(float32(sx(t.val, nf)))), 32)
			}
			r := App(fmt.Sprintf("icvt%v%d_%d", sf, nf, ft), sBV(ft), t)
			n := "is_fromubv"
			if sf {
				n = "is_fromsbv"
			}
			if !st.wf[r.id] {
				st.wf[r.id] = true
				st.assume(FPOp(n, sBool, r, t))
			}
			return r
		}
		if ff != 0 && itt {
			t := e.scalar(v)
			if t.op == "bv" && stt {
				fv := math.Float64frombits(t.val)
				if ff == 32 {
					fv = float64(math.Float32frombits(uint32(t.val)))
				}
				return BV(uint64(int64(fv)), nt)
			}
			n := "to_ubv64"
			if stt {
				n = "to_sbv64"
			}
			return Extract(FPOp(n, sBV(64), t), nt-1, 0)
		}
		if bt.Info()&types.IsString != 0 && bf.Info()&types.IsString != 0 {
			return v
		}
		if bt.Info()&types.IsString != 0 && iff {
			return App("runeStr", sStr, SExt(e.scalar(v), 64))
		}
	}
	if sl, ok := ut.(*types.Slice); ok && okf && bf.Info()&types.IsString != 0 {
		if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			s := e.scalar(v)
			r := e.newRef(st)
			n := slen(s)
			e.wfStr(st, s)
			src := App("bytesOf", sBytes, s)
			base := ConstArr(sBytes, BV(0, 8))
			var content *Term
			if s.op == "strlit" && len(s.name) <= 64 {
				content = base
				for i := 0; i < len(s.name); i++ {
					content = Store(content, BV(uint64(i), 64), BV(uint64(s.name[i]), 8))
				}
			} else if s.op == "app" && s.name == "strOf" {
				content = Copy(base, BV(0, 64), s.args[0], s.args[1], s.args[2])
			} else {
				content = Copy(base, BV(0, 64), src, BV(0, 64), n)
			}
			h := e.hget(st, "[]uint8", sBytes)
			e.hset(st, "[]uint8", r, Store(h, r, content))
			return SliceV{r, BV(0, 64), n, n, sl.Elem()}
		}
	}
	if sl, ok := uf.(*types.Slice); ok && okt && bt.Info()&types.IsString != 0 {
		if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			s := v.(SliceV)
			return strOf(e.bytesContent(st, s), s.off, s.len)
		}
	}
	if pt, ok := ut.(*types.Pointer); ok {
		// unsafe reinterpretation
		if p, ok := v.(PtrV); ok {
			a, b := scalarSort(p.typ), scalarSort(pt.Elem())
			if a != nil && a == b {
				p.typ = pt.Elem()
				return p
			}
		}
		unsupported("unsafe conversion %s -> %s", from, to)
	}
	if okt && bt.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(uf, ut) {
		return e.retype(v, from, to)
	}
	unsupported("convert %s -> %s", from, to)
	return nil
}

func (e *Engine) wfStr(st *State, s *Term) {
	n := slen(s)
	if n.op == "bv" || st.wf[n.id] {
		return
	}
	st.wf[n.id] = true
	st.assume(Ult(n, BV(1<<39, 64)))
}

func (e *Engine) slice(st *State, f *Frame, x *ssa.Slice) {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return toIdx(e.term(st, f, v), v.Type())
	}
	lo := get(x.Low, BV(0, 64))
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		s := e.val(st, f, x.X).(SliceV)
		hi := get(x.High, s.len)
		mx := get(x.Max, s.cap)
		e.panicIf(st, Not(And(Ule(hi, mx), Ule(mx, s.cap), Ule(lo, hi))), "slice bounds out of range")
		f.env[x] = SliceV{s.arr, Add(s.off, lo), Sub(hi, lo), Sub(mx, lo), u.Elem()}
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		p := e.deref(st, e.val(st, f, x.X), x.X.Type())
		n := BV(uint64(a.Len()), 64)
		hi := get(x.High, n)
		mx := get(x.Max, n)
		e.panicIf(st, Not(And(Ule(hi, mx), Ule(mx, n), Ule(lo, hi))), "slice bounds out of range")
		if e.elemBase(p) != "[]"+typekey(a.Elem()) {
			unsupported("slice of embedded array")
		}
		f.env[x] = SliceV{p.ref, lo, Sub(hi, lo), Sub(mx, lo), a.Elem()}
	case *types.Basic:
		s := e.term(st, f, x.X)
		e.wfStr(st, s)
		n := slen(s)
		hi := get(x.High, n)
		e.panicIf(st, Not(And(Ule(hi, n), Ule(lo, hi))), "slice bounds out of range")
		if lo.op == "bv" && hi.op == "bv" && s.op == "strlit" {
			f.env[x] = StrLit(s.name[lo.val:hi.val])
			return
		}
		f.env[x] = strSub(s, lo, hi)
	default:
		unsupported("slice %s", x.X.Type())
	}
}
func strSub(s, lo, hi *Term) *Term {
	if lo.op == "bv" && lo.val == 0 && hi == slen(s) {
		return s
	}
	if s.op == "app" && s.name == "strOf" {
		return strOf(s.args[0], Add(s.args[1], lo), Sub(hi, lo))
	}
	return strOf(App("bytesOf", sBytes, s), lo, Sub(hi, lo))
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it) 
}

func (e *Engine) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) {
	v := e.term(st, f, x.X)
	// split merged interface values
	if v.op == "ite" {
		e.branch(st, v.args[0], func(st *State, b bool) {
			g := st.top()
			nv := v.args[2]
			if b {
				nv = v.args[1]
			}
			// rebinding the operand keeps later uses consistent
			g.env[x.X] = nv
			e.typeAssert1(st, g, x, nv)
		})
		return
	}
	e.typeAssert1(st, f, x, v)
}

func (e *Engine) typeAssert1(st *State, f *Frame, x *ssa.TypeAssert, v *Term) {
	if v.op == "ite" {
		e.typeAssert(st, f, x)
		return
	}
	e.wfIface(st, v)
	var cond *Term
	it, isI := under(x.AssertedType).(*types.Interface)
	if isI {
		dt := e.dynType(st, v)
		if dt != nil {
			cond = BoolT(e.implements(dt, it))
		} else if v == tINil {
			cond = tFalse
		} else if it.NumMethods() == 0 {
			cond = Not(isCtor("inil", v))
		} else if isICtor(v) == "iref" && v.args[0].op == "int" && (v.args[0].val >= 9000) {
			cond = BoolT(it.NumMethods() == 1 && it.Method(0).Name() == "Error" || v.args[0].val == 9999 && it.NumMethods() <= 2)
		} else {
			cond = And(Not(isCtor("inil", v)), App("impl:"+typekey(x.AssertedType), sBool, tagOf(v)))
		}
	} else {
		cond = e.hasType(v, x.AssertedType)
	}
	conv := func(st *State) Value {
		if isI {
			return v
		}
		return e.unbox(st, v, x.AssertedType)
	}
	if x.CommaOk {
		e.branch(st, cond, func(st *State, b bool) {
			g := st.top()
			if b {
				g.env[x] = TupleV{[]Value{conv(st), tTrue}}
			} else {
				g.env[x] = TupleV{[]Value{e.zero(x.AssertedType), tFalse}}
			}
		})
		return
	}
	e.panicIf(st, Not(cond), "interface conversion (type assertion to "+shortFn(typekey(x.AssertedType))+")")
	if st.dead {
		return
	}
	f.env[x] = conv(st)
}

// resolve the callee of a call
func (e *Engine) resolve(st *State, f *Frame, c *ssa.CallCommon, k func(st *State, fv FuncV, args []Value)) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(st, f, a))
	}
	if !c.IsInvoke() {
		v := e.val(st, f, c.Value)
		fv, ok := v.(FuncV)
		if !ok {
			if t, ok := v.(*Term); ok {
				fv = e.funcOf(t)
			} else {
				unsupported("call of %T", v)
			}
		}
		if fv.fn == nil && fv.id != nil && fv.id.op != "ite" {
			e.panicIf(st, Eq(fv.id, IntT(0)), "call of nil function")
		}
		k(st, fv, args)
		return
	}
	recv := e.term(st, f, c.Value)
	e.invoke(st, recv, c.Method, c.Value.Type(), args, k)
}

func (e *Engine) invoke(st *State, recv *Term, m *types.Func, it types.Type, args []Value, k func(st *State, fv FuncV, args []Value)) {
	if recv.op == "ite" {
		e.branch(st, recv.args[0], func(st *State, b bool) {
			r := recv.args[2]
			if b {
				r = recv.args[1]
			}
			e.invoke(st, r, m, it, args, k)
		})
		return
	}
	e.wfIface(st, recv)
	e.panicIf(st, isCtor("inil", recv), "nil interface method call ("+m.Name()+")")
	if st.dead {
		return
	}
	dt := e.dynType(st, recv)
	if dt == nil {
		// opaque implementation: handled by name
		key := "invoke:" + m.FullName()
		if h, ok := st.hooks[key]; ok {
			k(st, h, append([]Value{recv}, args...))
			return
		}
		if fi, ok := invokeIntr[m.FullName()]; ok {
			fi(e, st, recv, m, args, k)
			return
		}
		if fi, ok := invokeIntr[m.Name()]; ok {
			// represent as intrinsic call through a pseudo function
			e.trusted["(interface)."+m.FullName()] = true
			fi(e, st, recv, m, args, k)
			return
		}
		unsupported("method %s on value of unknown type", m.FullName())
	}
	sel := e.prog.MethodSets.MethodSet(dt).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		// exported methods ignore package
		sel = e.prog.MethodSets.MethodSet(dt).Lookup(nil, m.Name())
	}
	if sel == nil {
		unsupported("no method %s on %s", m.Name(), dt)
	}
	fn := e.prog.MethodValue(sel)
	rv := e.unbox(st, recv, dt)
	k(st, FuncV{fn: fn}, append([]Value{rv}, args...))
}

// ---- maps ----

func mkey(mt *types.Map) string { return "map[" + typekey(mt.Key()) + "]" + typekey(mt.Elem()) }

func (e *Engine) mapKey(st *State, mt *types.Map, k Value) *Term {
	s := scalarSort(mt.Key())
	if s == nil {
		unsupported("map key type %s", mt.Key())
	}
	kt := e.scalar(k)
	if s == sIface {
		e.checkHashable(st, kt)
	}
	return kt
}

func (e *Engine) unhashable(k *Term) *Term {
	// unknown dynamic type: unhashable types are boxed (slices) or maps/functions (iref)
	var bad []*Term
	for id, t := range e.tagTypes {
		if !types.Comparable(t) {
			bad = append(bad, And(isCtor("iref", k), Eq(App("iref_tag", sInt, k), IntT(int64(id)))))
		}
	}
	bad = append(bad, And(isCtor("iref", k), App("unhashable", sBool, App("iref_tag", sInt, k))))
	return Or(bad...)
}

func (e *Engine) checkHashable(st *State, k *Term) {
	dt := e.dynType(st, k)
	if dt != nil {
		if !types.Comparable(dt) {
			e.panicIf(st, tTrue, "hash of unhashable type")
		}
		return
	}
	if k == tINil {
		return
	}
	if isICtor(k) == "ibv" || isICtor(k) == "istr" {
		return
	}
	e.panicIf(st, e.unhashable(k), "hash of unhashable type")
}

func (e *Engine) mapInit(st *State, mt *types.Map, r *Term) {
	k := mkey(mt)
	ks := scalarSort(mt.Key())
	if ks == nil {
		unsupported("map key type %s", mt.Key())
	}
	ps := sArr(ks, sBool)
	e.storeLeaf(st, k+"#p", ps, r, nil, ConstArr(ps, tFalse))
	e.storeLeaf(st, k+"#n", sBV(64), r, nil, BV(0, 64))
}

func (e *Engine) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	ks := scalarSort(mt.Key())
	p := e.loadLeaf(st, mkey(mt)+"#p", sArr(ks, sBool), m, nil)
	if m.op == "int" && m.val == 0 {
		return tFalse
	}
	return And(Not(Eq(m, IntT(0))), Select(p, k))
}
func (e *Engine) mapGet(st *State, mt *types.Map, m, k *Term) Value {
	ks := scalarSort(mt.Key())
	ls := leaves(mt.Elem())
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = Select(e.loadLeaf(st, mkey(mt)+"#v"+l.path, sArr(ks, l.sort), m, nil), k)
	}
	e.wfLeaves(st, ls, ts)
	return e.unflatten(mt.Elem(), ts)
}
func (e *Engine) mapLen(st *State, mt *types.Map, m *Term) *Term {
	n := e.loadLeaf(st, mkey(mt)+"#n", sBV(64), m, nil)
	if n.op != "bv" && !st.wf[n.id] && !n.fv {
		st.wf[n.id] = true
		st.assume(Ult(n, BV(1<<39, 64)))
	}
	if m.op == "int" && m.val == 0 {
		return BV(0, 64)
	}
	return Ite(Eq(m, IntT(0)), BV(0, 64), n)
}
func (e *Engine) mapSet(st *State, mt *types.Map, m, k *Term, v Value) {
	e.escape(st, mt.Elem(), v)
	e.guardMap(st, mt, m, true)
	ks := scalarSort(mt.Key())
	mk := mkey(mt)
	had := e.mapHas(st, mt, m, k)
	p := e.loadLeaf(st, mk+"#p", sArr(ks, sBool), m, nil)
	n := e.loadLeaf(st, mk+"#n", sBV(64), m, nil)
	e.mapLen(st, mt, m)
	e.storeLeaf(st, mk+"#p", sArr(ks, sBool), m, nil, Store(p, k, tTrue))
	e.storeLeaf(st, mk+"#n", sBV(64), m, nil, Ite(had, n, Add(n, BV(1, 64))))
	ls := leaves(mt.Elem())
	ts := e.flatten(st, mt.Elem(), v)
	for i, l := range ls {
		a := e.loadLeaf(st, mk+"#v"+l.path, sArr(ks, l.sort), m, nil)
		e.storeLeaf(st, mk+"#v"+l.path, sArr(ks, l.sort), m, nil, Store(a, k, ts[i]))
	}
}
func (e *Engine) mapDelete(st *State, mt *types.Map, m, k *Term) {
	if m.op == "int" && m.val == 0 {
		return
	}
	e.guardMap(st, mt, m, true)
	ks := scalarSort(mt.Key())
	mk := mkey(mt)
	had := e.mapHas(st, mt, m, k)
	p := e.loadLeaf(st, mk+"#p", sArr(ks, sBool), m, nil)
	n := e.loadLeaf(st, mk+"#n", sBV(64), m, nil)
	e.storeLeaf(st, mk+"#p", sArr(ks, sBool), m, nil, Store(p, k, tFalse))
	nz := Implies(had, Not(Eq(n, BV(0, 64))))
	if !nz.isConst() {
		st.assume(nz)
	}
	e.storeLeaf(st, mk+"#n", sBV(64), m, nil, Ite(had, Sub(n, BV(1, 64)), n))
}

func (e *Engine) lookup(st *State, f *Frame, x *ssa.Lookup) {
	if b, ok := under(x.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := e.term(st, f, x.X)
		idx := toIdx(e.term(st, f, x.Index), x.Index.Type())
		e.panicIf(st, Not(Ult(idx, slen(s))), "index out of range")
		f.env[x] = strByte(s, idx)
		return
	}
	mt := under(x.X.Type()).(*types.Map)
	m := e.term(st, f, x.X)
	k := e.mapKey(st, mt, e.val(st, f, x.Index))
	e.guardMap(st, mt, m, false)
	has := e.mapHas(st, mt, m, k)
	commaok := x.CommaOk
	// scalar boolean/BV values can be merged; others fork
	e.branch(st, has, func(st *State, b bool) {
		g := st.top()
		var v Value
		if b {
			v = e.mapGet(st, mt, m, k)
		} else {
			v = e.zero(mt.Elem())
		}
		if commaok {
			g.env[x] = TupleV{[]Value{v, BoolT(b)}}
		} else {
			g.env[x] = v
		}
	})
}

var iterN int

func (e *Engine) rangeInit(st *State, f *Frame, x *ssa.Range) {
	mt, ok := under(x.X.Type()).(*types.Map)
	if !ok {
		unsupported("range over string")
	}
	m := e.term(st, f, x.X)
	id := e.newRef(st)
	ks := scalarSort(mt.Key())
	it := IterV{m: m, mt: mt, id: id, base: "iter:" + mkey(mt)}
	ps := sArr(ks, sBool)
	e.storeLeaf(st, it.base+"#seen", ps, id, nil, ConstArr(ps, tFalse))
	e.storeLeaf(st, it.base+"#cnt", sBV(64), id, nil, BV(0, 64))
	f.env[x] = it
	st.iters = append(st.iters, &it)
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) {
	it, ok := e.val(st, f, x.Iter).(IterV)
	if !ok {
		unsupported("next")
	}
	mt := it.mt
	ks := scalarSort(mt.Key())
	ps := sArr(ks, sBool)
	e.guardMap(st, mt, it.m, false)
	seen := e.loadLeaf(st, it.base+"#seen", ps, it.id, nil)
	cnt := e.loadLeaf(st, it.base+"#cnt", sBV(64), it.id, nil)
	pres := e.loadLeaf(st, mkey(mt)+"#p", ps, it.m, nil)
	ln := e.mapLen(st, mt, it.m)
	// end
	end := st.clone()
	q := BVar(ks)
	end.addPC(Quant("forall", []*Term{q}, Implies(And(Not(Eq(it.m, IntT(0))), Select(pres, q)), Select(seen, q))), true)
	end.assume(Implies(Not(e.iterDirty(st, it)), Eq(cnt, ln)))
	endOK := true
	if pp := pres; pp.op == "store" {
		// a concretely present and unseen key rules the end out
		for a := pp; a.op == "store"; a = a.args[0] {
			if a.args[2].isTrue() && Select(pp, a.args[1]).isTrue() && Select(seen, a.args[1]).isFalse() {
				endOK = false
			}
		}
	}
	endG := end.top()
	tt := x.Type().(*types.Tuple)
	endG.env[x] = TupleV{[]Value{tFalse, e.zeroOr(tt.At(1).Type()), e.zeroOr(tt.At(2).Type())}}
	if endOK && !end.dead && e.feasible(end, tTrue) {
		e.push(end)
	}
	// another element
	k := Fresh("key", ks)
	c := And(Not(Eq(it.m, IntT(0))), Select(pres, k), Not(Select(seen, k)))
	st.addPC(c, true)
	st.assume(Implies(Not(e.iterDirty(st, it)), Ult(cnt, ln)))
	if st.dead || !e.feasible(st, tTrue) {
		st.dead = true
		return
	}
	if ks == sIface {
		e.wfIface(st, k)
		// keys of a map are hashable
	}
	st.assume(Eq(App("itpos:"+ks.str, sBV(64), it.id, k), cnt))
	e.storeLeaf(st, it.base+"#seen", ps, it.id, nil, Store(seen, k, tTrue))
	e.storeLeaf(st, it.base+"#cnt", sBV(64), it.id, nil, Add(cnt, BV(1, 64)))
	st.lastKey = k
	g := st.top()
	var kv, vv Value = UnitV{}, UnitV{}
	kv = e.wrap(mt.Key(), k)
	if ks == sInt {
		e.wfRef(st, k)
	}
	vv = e.mapGet(st, mt, it.m, k)
	g.env[x] = TupleV{[]Value{tTrue, kv, vv}}
}

// iterDirty: whether the map was modified since the iteration began (conservative: syntactic)
func (e *Engine) iterDirty(st *State, it IterV) *Term {
	if st.flags["dirty:"+it.id.String()] {
		return tTrue
	}
	return tFalse
}

func (e *Engine) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return UnitV{}
	}
	return e.zero(t)
}

// ---- channels ----

func chanHook(kind string, ch *Term) string { return kind + ":" + ch.String() }

func (e *Engine) findHook(st *State, kind string, ch *Term, elem types.Type) (FuncV, bool) {
	if h, ok := st.hooks[chanHook(kind, ch)]; ok {
		return h, true
	}
	if h, ok := st.hooks[kind+":type:"+typekey(elem)]; ok {
		return h, true
	}
	return FuncV{}, false
}

func (e *Engine) chanSend(st *State, ch *Term, ct *types.Chan, v Value, blocking bool, k func(st *State)) {
	if ch.op == "int" && ch.val == 0 {
		// send on nil channel blocks forever
		st.dead = true
		return
	}
	closed := e.loadLeaf(st, "chan#closed", sBool, ch, nil)
	e.panicIf(st, And(Not(Eq(ch, IntT(0))), closed), "send on closed channel")
	st.addPC(Not(Eq(ch, IntT(0))), false)
	if blocking { // a send that may have to wait
		if h, ok := e.findHook(st, "block", ch, ct.Elem()); ok {
			e.callFn(st, h, nil, func(e *Engine, st *State, _ []Value) { e.chanSend(st, ch, ct, v, false, k) }, nil)
			return
		}
	}
	if h, ok := e.findHook(st, "send", ch, ct.Elem()); ok {
		args := []Value{v}
		if len(h.fn.Params) == 2 {
			args = []Value{Value(ch), v}
		}
		e.callFn(st, h, args, func(e *Engine, st *State, _ []Value) { e.chanPut(st, ch, ct, v); k(st) }, nil)
		return
	}
	e.chanPut(st, ch, ct, v)
	k(st)
}

// ghost queue: chan#sent / chan#rcvd counters and chan#q:<elem> contents
func (e *Engine) chanPut(st *State, ch *Term, ct *types.Chan, v Value) {
	e.escape(st, ct.Elem(), v)
	n := e.loadLeaf(st, "chan#sent", sBV(64), ch, nil)
	for i, l := range leaves(ct.Elem()) {
		t := e.flatten(st, ct.Elem(), v)[i]
		e.storeLeaf(st, "chan#q:"+typekey(ct.Elem())+l.path, l.sort, ch, n, t)
	}
	e.storeLeaf(st, "chan#sent", sBV(64), ch, nil, Add(n, BV(1, 64)))
}

func (e *Engine) chanRecv(st *State, ch *Term, ct *types.Chan, k func(st *State, v Value, ok *Term)) {
	if ch.op == "int" && ch.val == 0 {
		st.dead = true
		return
	}
	if h, ok := e.findHook(st, "recv", ch, ct.Elem()); ok {
		args := []Value{}
		if len(h.fn.Params) == 1 {
			args = []Value{Value(ch)}
		}
		e.callFn(st, h, args, func(e *Engine, st *State, vals []Value) { k(st, vals[0], tTrue) }, nil)
		return
	}
	sent := e.loadLeaf(st, "chan#sent", sBV(64), ch, nil)
	rcvd := e.loadLeaf(st, "chan#rcvd", sBV(64), ch, nil)
	have := Not(Eq(sent, rcvd))
	if have.isTrue() {
		ls := leaves(ct.Elem())
		ts := make([]*Term, len(ls))
		for i, l := range ls {
			ts[i] = e.loadLeaf(st, "chan#q:"+typekey(ct.Elem())+l.path, l.sort, ch, rcvd)
		}
		e.storeLeaf(st, "chan#rcvd", sBV(64), ch, nil, Add(rcvd, BV(1, 64)))
		k(st, e.unflatten(ct.Elem(), ts), tTrue)
		return
	}
	closed := e.loadLeaf(st, "chan#closed", sBool, ch, nil)
	if closed.isTrue() {
		k(st, e.zero(ct.Elem()), tFalse)
		return
	}
	// run pending goroutines that might send? The harness decides; otherwise the value is arbitrary.
	if st.flags["strictrecv"] {
		if h, ok := st.hooks["deadlock"]; ok {
			e.callFn(st, h, nil, func(e *Engine, st *State, vals []Value) { st.dead = true }, nil)
			return
		}
		st.dead = true
		return
	}
	v := e.fresh(st, ct.Elem(), "recv")
	k(st, v, tTrue)
}

func (e *Engine) selectStmt(st *State, f *Frame, x *ssa.Select) {
	// result tuple: (index int, recvOk bool, r_0 T0, ...)
	tt := x.Type().(*types.Tuple)
	finish := func(st *State, idx int, ok *Term, ri int, rv Value) {
		g := st.top()
		vs := []Value{BV(uint64(int64(idx)), 64), ok}
		for i := 2; i < tt.Len(); i++ {
			if i-2 == ri {
				vs = append(vs, rv)
			} else {
				vs = append(vs, e.zero(tt.At(i).Type()))
			}
		}
		g.env[x] = TupleV{vs}
	}
	n := len(x.States)
	ri := 0
	for i, s := range x.States {
		o := st
		last := i == n-1 && x.Blocking
		if !last {
			o = st.clone()
		}
		c := Fresh("sel", sBool)
		o.addPC(c, true)
		ch := e.term(o, o.top(), s.Chan)
		ct := under(s.Chan.Type()).(*types.Chan)
		if s.Dir == types.SendOnly {
			v := e.val(o, o.top(), s.Send)
			idx := i
			if !x.Blocking {
				// room must exist
			}
			e.chanSend(o, ch, ct, v, false, func(st *State) { finish(st, idx, tFalse, -1, nil) })
		} else {
			idx, r := i, ri
			ri++
			e.chanRecv(o, ch, ct, func(st *State, v Value, ok *Term) { finish(st, idx, ok, r, v) })
		}
		if !last {
			e.push(o)
		}
	}
	if !x.Blocking {
		if h, ok := st.hooks["seldefault"]; ok {
			var ch *Term = IntT(0)
			for _, s := range x.States {
				ch = e.term(st, f, s.Chan)
			}
			finish(st, -1, tFalse, -1, nil)
			e.callFn(st, h, []Value{Value(ch)}[:len(h.fn.Params)], retNone, nil)
			return
		}
		finish(st, -1, tFalse, -1, nil)
	} else if n == 0 {
		st.dead = true
	}
}

// ---- builtins ----

func (e *Engine) builtin(st *State, name string, args []Value, ssaArgs []ssa.Value, ret func(e *Engine, st *State, vals []Value), instr ssa.Instruction) {
	r1 := func(v Value) { ret(e, st, []Value{v}) }
	switch name {
	case "len", "cap":
		t := ssaArgs[0].Type()
		switch u := under(t).(type) {
		case *types.Slice:
			if name == "len" {
				r1(args[0].(SliceV).len)
			} else {
				r1(args[0].(SliceV).cap)
			}
		case *types.Basic:
			e.wfStr(st, args[0].(*Term))
			r1(slen(args[0].(*Term)))
		case *types.Map:
			e.guardMap(st, u, e.scalar(args[0]), false)
			r1(e.mapLen(st, u, e.scalar(args[0])))
		case *types.Chan:
			ch := e.scalar(args[0])
			if name == "cap" {
				r1(e.loadLeaf(st, "chan#cap", sBV(64), ch, nil))
			} else {
				if _, ok := e.findHook(st, "send", ch, u.Elem()); ok {
					n := Fresh("chanlen", sBV(64))
					st.assume(Ule(n, e.loadLeaf(st, "chan#cap", sBV(64), ch, nil)))
					r1(n)
					return
				}
				r1(Sub(e.loadLeaf(st, "chan#sent", sBV(64), ch, nil), e.loadLeaf(st, "chan#rcvd", sBV(64), ch, nil)))
			}
		case *types.Pointer:
			r1(BV(uint64(under(u.Elem()).(*types.Array).Len()), 64))
		case *types.Array:
			r1(BV(uint64(u.Len()), 64))
		default:
			unsupported("len %s", t)
		}
	case "append":
		s := args[0].(SliceV)
		var o SliceV
		if b, ok := under(ssaArgs[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			o = e.convert(st, args[1], ssaArgs[1].Type(), types.NewSlice(types.Typ[types.Uint8])).(SliceV)
		} else {
			o = args[1].(SliceV)
		}
		e.appendSlice(st, s, o, func(st *State, r SliceV) { ret(e, st, []Value{r}) })
	case "copy":
		d := args[0].(SliceV)
		var s SliceV
		if b, ok := under(ssaArgs[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s = e.convert(st, args[1], ssaArgs[1].Type(), types.NewSlice(types.Typ[types.Uint8])).(SliceV)
		} else {
			s = args[1].(SliceV)
		}
		n := Ite(Ult(d.len, s.len), d.len, s.len)
		if v, ok := st.knows(Ult(d.len, s.len)); ok {
			if v {
				n = d.len
			} else {
				n = s.len
			}
		} else if !n.isConst() && n.op == "ite" {
			if !e.feasible(st, Ult(d.len, s.len)) {
				n = s.len
			} else if !e.feasible(st, Not(Ult(d.len, s.len))) {
				n = d.len
			}
		}
		e.copyElems(st, d.elem, d.arr, d.off, s.arr, s.off, n)
		r1(n)
	case "delete":
		mt := under(ssaArgs[0].Type()).(*types.Map)
		e.mapDelete(st, mt, e.scalar(args[0]), e.mapKey(st, mt, args[1]))
		ret(e, st, nil)
	case "close":
		ch := e.scalar(args[0])
		closed := e.loadLeaf(st, "chan#closed", sBool, ch, nil)
		e.panicIf(st, Or(Eq(ch, IntT(0)), closed), "close of nil or closed channel")
		e.storeLeaf(st, "chan#closed", sBool, ch, nil, tTrue)
		ret(e, st, nil)
	case "recover":
		// the caller frame is a deferred call of a panicking frame
		n := len(st.frames)
		if n >= 2 && st.frames[n-1].isDefer && st.frames[n-2].unwind && !st.frames[n-2].panic.recovered {
			p := st.frames[n-2].panic
			p.recovered = true
			r1(p.val)
			return
		}
		r1(tINil)
	case "print", "println":
		ret(e, st, nil)
	case "min", "max":
		v := args[0].(*Term)
		for i := 1; i < len(args); i++ {
			w := args[i].(*Term)
			var c *Term
			if isFloat(ssaArgs[0].Type()) {
				unsupported("float min/max")
			}
			if isSigned(ssaArgs[0].Type()) {
				c = Slt(w, v)
			} else {
				c = Ult(w, v)
			}
			if name == "max" {
				if isSigned(ssaArgs[0].Type()) {
					c = Slt(v, w)
				} else {
					c = Ult(v, w)
				}
			}
			v = Ite(c, w, v)
		}
		r1(v)
	case "ssa:wrapnilchk":
		p := args[0]
		e.panicIf(st, Eq(e.scalar(p), IntT(0)), "nil pointer dereference")
		r1(p)
	case "clear":
		mt, ok := under(ssaArgs[0].Type()).(*types.Map)
		if !ok {
			unsupported("clear")
		}
		e.guardMap(st, mt, e.scalar(args[0]), true)
		e.mapInit(st, mt, e.scalar(args[0]))
		ret(e, st, nil)
	default:
		unsupported("builtin %s", name)
	}
}

func (e *Engine) copyElems(st *State, elem types.Type, darr, doff, sarr, soff, n *Term) {
	if n.op == "bv" && n.val == 0 {
		return
	}
	for _, l := range leaves(elem) {
		k := "[]" + typekey(elem) + l.path
		h := e.hget(st, k, sArr(sBV(64), l.sort))
		dc, sc := Select(h, darr), Select(h, sarr)
		e.hset(st, k, darr, Store(h, darr, Copy(dc, doff, sc, soff, n)))
	}
}

const hugeCap = uint64(1) << 39

func (e *Engine) appendSlice(st *State, s, o SliceV, k func(st *State, r SliceV)) {
	if o.len.op == "bv" && o.len.val == 0 {
		k(st, s)
		return
	}
	nl := Add(s.len, o.len)
	fits := Ule(nl, s.cap)
	e.branch(st, fits, func(st *State, b bool) {
		if b {
			e.copyElems(st, s.elem, s.arr, Add(s.off, s.len), o.arr, o.off, o.len)
			k(st, SliceV{s.arr, s.off, nl, s.cap, s.elem})
			return
		}
		r := e.newRef(st)
		for _, l := range leaves(s.elem) {
			kk := "[]" + typekey(s.elem) + l.path
			as := sArr(sBV(64), l.sort)
			h := e.hget(st, kk, as)
			c := ConstArr(as, zeroTerm(l.sort))
			c = Copy(c, BV(0, 64), Select(h, s.arr), s.off, s.len)
			c = Copy(c, s.len, Select(h, o.arr), o.off, o.len)
			e.hset(st, kk, r, Store(h, r, c))
		}
		e.trusted["append: growth leaves unbounded spare capacity"] = true
		k(st, SliceV{r, BV(0, 64), nl, BV(hugeCap, 64), s.elem})
	})
}
