package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	stConst = iota
	stLinear
	stHavoc
)

type locStat struct {
	st int
	c  *Term
}

type cand struct {
	name string
	user bool
	eval func(st *State, f *Frame, k *Term) *Term // nil when not expressible
}

type loopAna struct {
	e     *Engine
	base  *State
	fi    int // frame index
	l     *loop
	phis  []*ssa.Phi
	entry map[*ssa.Phi][]*Term
	pst   map[*ssa.Phi][]locStat
	ls    map[*ssa.Phi][]leaf
	heap  map[string]map[*Term]*locStat
	any   map[string]bool
	fresh map[string]bool
	amark int64
	mark  int
	cands []*cand
}

func mulK(c, k *Term) *Term {
	n := c.sort.bits
	if n == 64 {
		return Mul(c, k)
	}
	return Mul(c, Extract(k, n-1, 0))
}

// header builds an arbitrary-iteration state at the loop header.
func (a *loopAna) header() (*State, *Term) {
	e := a.e
	s := a.base.clone()
	f := s.frames[a.fi]
	k := Fresh("k", sBV(64))
	s.assume(Ult(k, BV(1<<38, 64)))
	s.alloc = a.amark + (1 << 20)
	for _, ph := range a.phis {
		ts := make([]*Term, len(a.entry[ph]))
		for i, t0 := range a.entry[ph] {
			switch a.pst[ph][i].st {
			case stConst:
				ts[i] = t0
			case stLinear:
				ts[i] = Add(t0, mulK(a.pst[ph][i].c, k))
			default:
				ts[i] = Fresh("phi_"+ph.Name(), t0.sort)
			}
		}
		e.wfLeaves(s, a.ls[ph], ts)
		f.env[ph] = e.unflatten(ph.Type(), ts)
	}
	var keys []string
	for key := range a.heap {
		keys = append(keys, key)
	}
	for key := range a.any {
		if a.heap[key] == nil {
			keys = append(keys, key)
		}
	}
	for key := range a.fresh {
		if a.heap[key] == nil && !a.any[key] {
			keys = append(keys, key)
		}
	}
	sort.Strings(keys)
	for _, key := range keys {
		h := s.heap[key]
		if h == nil {
			continue
		}
		if a.any[key] {
			s.heap[key] = bounded(Fresh("H_"+key, h.sort), s.alloc)
			continue
		}
		if a.fresh[key] {
			h = HV(h, bounded(Fresh("HF_"+key, h.sort), s.alloc), a.amark)
		}
		var refs []*Term
		for r := range a.heap[key] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			ls := a.heap[key][r]
			old := Select(h, r)
			switch ls.st {
			case stLinear:
				h = Store(h, r, Add(Select(a.base.heap[key], r), mulK(ls.c, k)))
			case stHavoc:
				_ = old
				h = Store(h, r, bounded(Fresh("h_"+key, h.sort.v), s.alloc))
			}
		}
		s.heap[key] = h
	}
	f.ip = len(a.phis)
	f.entered = true
	return s, k
}

func bvDiff(a, b *Term) *Term {
	if a.sort.kind != "BV" {
		return nil
	}
	d := Sub(a, b)
	if d.op == "bv" {
		return d
	}
	return nil
}

func (e *Engine) cutLoop(st *State, f *Frame, l *loop, phis []*ssa.Phi) {
	a := &loopAna{e: e, base: st.clone(), fi: len(st.frames) - 1, l: l, phis: phis, entry: map[*ssa.Phi][]*Term{}, pst: map[*ssa.Phi][]locStat{}, ls: map[*ssa.Phi][]leaf{},
		heap: map[string]map[*Term]*locStat{}, any: map[string]bool{}, fresh: map[string]bool{}, amark: st.alloc, mark: freshN}
	for _, ph := range phis {
		v := f.env[ph]
		a.entry[ph] = e.flatten(st, ph.Type(), v)
		a.pst[ph] = make([]locStat, len(a.entry[ph]))
		a.ls[ph] = leaves(ph.Type())
	}
	if a.base.frames[a.fi].cuts == nil {
		a.base.frames[a.fi].cuts = map[*ssa.BasicBlock]*loopRec{}
	}
	a.base.frames[a.fi].cuts[l.h] = &loopRec{h: l.h}
	silent0 := e.silent
	where, pos := e.where(st)
	lname := fmt.Sprintf("loop in %s", where)
	if where == "" {
		lname = "loop in " + shortFn(f.fn.String())
	}
	_ = pos
	e.silent++
	func() {
		defer func() { e.silent-- }()
		a.makeCands()
		// entry filter
		var keep []*cand
		for _, c := range a.cands {
			s := a.base.clone()
			t := a.try(c, s, BV(0, 64))
			if t != nil && !t.isFalse() && e.valid(s, t) {
				keep = append(keep, c)
			} else if e.debug && c.user {
				fmt.Fprintf(os.Stderr, "inv %s dropped at entry of %s: %v\n", c.name, lname, t)
			}
		}
		a.cands = keep
		for round := 0; ; round++ {
			if round > 40 {
				unsupported("loop analysis does not stabilise")
			}
			if !a.round() {
				break
			}
		}
	}()
	// final header
	s, k := a.header()
	hf := s.frames[a.fi]
	for _, c := range a.cands {
		t := a.try(c, s, k)
		if t != nil {
			s.assume(t)
		}
	}
	hf.cuts[l.h] = &loopRec{h: l.h, k: k}
	// tell enclosing analyses what this loop may write
	for _, r := range []*writeRec{st.rec, st.vrec} {
		if r == nil {
			continue
		}
		for key, m := range a.heap {
			for ref, ls := range m {
				if ls.st != stConst {
					r.note(e, st, key, ref)
				}
			}
		}
		for key := range a.any {
			r.note(e, st, key, refAny)
		}
		for key := range a.fresh {
			r.note(e, st, key, refFresh)
		}
	}
	if silent0 == 0 {
		for _, c := range a.cands {
			e.record(st, "invariant", "loop invariant "+c.name+" ("+lname+")", "proved", "z3", "", "")
		}
		if e.debug {
			var ns []string
			for _, c := range a.cands {
				ns = append(ns, c.name)
			}
			fmt.Fprintf(os.Stderr, "%s: invariants %v\n", lname, ns)
			for key, m := range a.heap {
				for ref, ls := range m {
					fmt.Fprintf(os.Stderr, "   mod %s[%s] %d\n", key, ref, ls.st)
				}
			}
			for key := range a.any {
				fmt.Fprintf(os.Stderr, "   mod-any %s\n", key)
			}
		}
	}
	s.rec, s.vrec, s.stopAt = st.rec, st.vrec, st.stopAt
	*st = *s
	if s.dead || !e.feasible(st, tTrue) {
		st.dead = true
	}
}

func (a *loopAna) try(c *cand, s *State, k *Term) (r *Term) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsup); ok {
				if os.Getenv("GOV_INV") != "" {
					fmt.Fprintln(os.Stderr, "inv", c.name, "not evaluable:", u.msg)
				}
				r = nil
				return
			}
			panic(x)
		}
	}()
	return c.eval(s, s.frames[a.fi], k)
}

// round runs the body once from an arbitrary iteration; reports whether something changed.
func (a *loopAna) round() bool {
	e := a.e
	s, k := a.header()
	for _, c := range a.cands {
		if t := a.try(c, s, k); t != nil {
			s.assume(t)
		}
	}
	hdr := s.clone()
	rec := &writeRec{mark: a.mark, amark: a.amark, w: map[string]map[*Term]bool{}}
	s.rec = rec
	s.vrec = nil
	s.stopAt = &stopSpec{depth: a.fi + 1, h: a.l.h, loop: a.l}
	if s.frames[a.fi].cuts != nil {
		delete(s.frames[a.fi].cuts, a.l.h)
		// keep a marker so that re-entry from the body stops
		s.frames[a.fi].cuts[a.l.h] = &loopRec{h: a.l.h, k: k}
	}
	changed := false
	var ends []*State
	if !s.dead {
		e.explore(s, func(x *State) {
			if x.hitStop {
				ends = append(ends, x)
			}
		})
	}
	for key, m := range rec.w {
		if m[refAny] && !a.any[key] {
			a.any[key] = true
			changed = true
		}
		if m[refFresh] && !a.fresh[key] {
			a.fresh[key] = true
			changed = true
		}
	}
	dropped := map[*cand]bool{}
	for _, x := range ends {
		for _, ph := range a.phis {
			nv := e.flatten(x, ph.Type(), x.stopPhi[ph])
			ov := e.flatten(hdr, ph.Type(), hdr.frames[a.fi].env[ph])
			for i := range nv {
				ps := &a.pst[ph][i]
				if nv[i] == ov[i] || ps.st == stHavoc {
					if ps.st == stLinear {
						ps.st = stHavoc
						changed = true
					}
					continue
				}
				d := bvDiff(nv[i], ov[i])
				if d != nil && ps.st == stLinear && ps.c == d {
					continue
				}
				if d != nil && ps.st == stConst {
					ps.st = stLinear
					ps.c = d
					changed = true
					continue
				}
				if ps.st == stConst && e.validQuick(x, e.eqTerm(nv[i], ov[i])) {
					continue
				}
				ps.st = stHavoc
				changed = true
			}
		}
		for key, m := range rec.w {
			if a.any[key] {
				continue
			}
			for ref := range m {
				if ref == refAny || ref == refFresh {
					continue
				}
				if hdr.heap[key] == nil || x.heap[key] == nil {
					// key first touched in the body: initial heap variable
					if x.heap[key] == nil {
						continue
					}
				}
				hh := hdr.heap[key]
				if hh == nil {
					hh = Var("H0:"+key, x.heap[key].sort)
					a.base.heap[key] = hh
				}
				ov := Select(hh, ref)
				nv := Select(x.heap[key], ref)
				if a.heap[key] == nil {
					a.heap[key] = map[*Term]*locStat{}
				}
				ls := a.heap[key][ref]
				if ls == nil {
					if nv == ov {
						continue
					}
					ls = &locStat{}
					a.heap[key][ref] = ls
				}
				if ls.st == stHavoc {
					continue
				}
				if nv == ov {
					if ls.st == stLinear {
						ls.st = stHavoc
						changed = true
					}
					continue
				}
				d := bvDiff(nv, ov)
				if d != nil && ls.st == stLinear && ls.c == d {
					continue
				}
				if d != nil && ls.st == stConst {
					ls.st = stLinear
					ls.c = d
					changed = true
					continue
				}
				if ls.st == stConst && nv.sort.kind != "Array" && e.validQuick(x, e.eqTerm(nv, ov)) {
					continue
				}
				ls.st = stHavoc
				changed = true
				a.sliceCell(key, ref)
			}
		}
	}
	if changed {
		// candidates are re-examined under the weaker description first
		return true
	}
	for _, x := range ends {
		xf := x.frames[a.fi]
		// invariants
		for ph, v := range x.stopPhi {
			xf.env[ph] = v
		}
		x.hitStop = false
		x.stopAt = nil
		if fmt.Sprint(lockNames(x)) != fmt.Sprint(lockNames(a.base)) {
			unsupported("a loop iteration ends holding a different set of locks")
		}
		for _, c := range a.cands {
			if dropped[c] {
				continue
			}
			t := a.try(c, x, Add(k, BV(1, 64)))
			if t == nil || !e.validInv(x, t, c.user) {
				dropped[c] = true
				if slowLog {
					fmt.Fprintf(os.Stderr, "DROP %s %v\n", c.name, t != nil && t.isFalse())
				}
				if e.debug && c.user {
					fmt.Fprintf(os.Stderr, "inv %s not preserved in %s: %v\n", c.name, a.l.h, t)
					if os.Getenv("GOV_PC") != "" {
						for _, p := range x.pcs() {
							fmt.Fprintf(os.Stderr, "   pc: %s\n", p)
						}
					}
				}
			}
		}
	}
	if len(dropped) > 0 {
		var keep []*cand
		for _, c := range a.cands {
			if !dropped[c] {
				keep = append(keep, c)
			}
		}
		a.cands = keep
		return true
	}
	return false
}

func (e *Engine) validInv(x *State, t *Term, user bool) bool {
	if v, ok := x.knows(t); !user || t.isConst() || ok && v {
		return e.valid(x, t)
	}
	r, _, _ := e.sol.Prove(x.pcs(), t, nil)
	return e.patiently(r, func() string { y, _, _ := e.sol.Prove(x.pcs(), t, nil); return y }) == "unsat"
}

// sliceCell proposes that a slice held in memory keeps the array it has at entry or moves to one allocated by the loop
func (a *loopAna) sliceCell(key string, ref *Term) {
	e := a.e
	b := strings.TrimSuffix(key, ".arr")
	if b == key || a.base.heap[key] == nil || a.base.heap[key].sort.v != sInt {
		return
	}
	cell := func(st *State, k string, s *Sort) *Term { return e.loadLeaf(st, b+k, s, ref, nil) }
	e0 := a.base.clone()
	arr0, off0, cap0 := cell(e0, ".arr", sInt), cell(e0, ".off", sBV(64)), cell(e0, ".cap", sBV(64))
	a.cands = append(a.cands, &cand{name: "array " + b, eval: func(st *State, f *Frame, k *Term) *Term {
		arr, off, cp := cell(st, ".arr", sInt), cell(st, ".off", sBV(64)), cell(st, ".cap", sBV(64))
		return Or(And(Eq(arr, arr0), Eq(off, off0), Eq(cp, cap0)), And(ILe(IntT(a.amark), arr), Eq(off, BV(0, 64)), Eq(cp, BV(hugeCap, 64))))
	}})
}

func (e *Engine) eqTerm(a, b *Term) *Term { return Eq(a, b) }

func lockNames(st *State) []string {
	var out []string
	for k := range st.locks {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (a *loopAna) makeCands() {
	e := a.e
	// header comparison
	if iff, ok := a.l.h.Instrs[len(a.l.h.Instrs)-1].(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Block() == a.l.h {
			for _, strict := range []bool{false} {
				_ = strict
				a.cands = append(a.cands, &cand{name: "bound", eval: func(st *State, f *Frame, k *Term) *Term {
					return e.headerBound(st, a, bo)
				}})
			}
		}
	}
	for _, ph := range a.phis {
		ph := ph
		for i, l := range a.ls[ph] {
			i := i
			if l.kind == "arr" {
				e0 := a.entry[ph]
				a.cands = append(a.cands, &cand{name: "array " + ph.Name(), eval: func(st *State, f *Frame, k *Term) *Term {
					t := e.flatten(st, ph.Type(), f.env[ph])
					same := And(Eq(t[i], e0[i]), Eq(t[i+1], e0[i+1]), Eq(t[i+3], e0[i+3]))
					fr := And(ILe(IntT(a.amark), t[i]), Eq(t[i+1], BV(0, 64)), Eq(t[i+3], BV(hugeCap, 64)))
					return Or(same, fr)
				}})
				a.cands = append(a.cands, &cand{name: "shrink " + ph.Name(), eval: func(st *State, f *Frame, k *Term) *Term {
					t := e.flatten(st, ph.Type(), f.env[ph])
					return And(Eq(Add(t[i+1], t[i+2]), Add(e0[i+1], e0[i+2])), Ule(t[i+2], e0[i+2]), Ule(e0[i+1], t[i+1]), Eq(Add(t[i+1], t[i+3]), Add(e0[i+1], e0[i+3])))
				}})
				if under(ph.Type()).(*types.Slice) != nil {
					a.cands = append(a.cands, &cand{name: "len " + ph.Name(), eval: func(st *State, f *Frame, k *Term) *Term {
						t := e.flatten(st, ph.Type(), f.env[ph])
						return Eq(t[i+2], Add(e0[i+2], k))
					}})
					a.cands = append(a.cands, &cand{name: "lenmax " + ph.Name(), eval: func(st *State, f *Frame, k *Term) *Term {
						t := e.flatten(st, ph.Type(), f.env[ph])
						return And(Ule(e0[i+2], t[i+2]), Ule(t[i+2], Add(e0[i+2], k)))
					}})
				}
			}
			if l.kind == "" && l.sort.kind == "BV" && l.sort.bits == 64 {
				e0 := a.entry[ph][i]
				// counters that count down: they end at zero, or below it
				down := func() bool {
					c := a.pst[ph][i].c
					return a.pst[ph][i].st == stLinear && c != nil && c.op == "bv" && c == BV(^uint64(0), 64)
				}
				a.cands = append(a.cands, &cand{name: "down " + ph.Name(), eval: func(st *State, f *Frame, k *Term) *Term {
					if !down() {
						return tTrue
					}
					return Ule(k, e0)
				}})
				a.cands = append(a.cands, &cand{name: "below " + ph.Name(), eval: func(st *State, f *Frame, k *Term) *Term {
					if !down() {
						return tTrue
					}
					return Sle(k, Add(e0, BV(1, 64)))
				}})
				// monotone counters
				a.cands = append(a.cands, &cand{name: "mono " + ph.Name(), eval: func(st *State, f *Frame, k *Term) *Term {
					if a.pst[ph][i].st != stHavoc {
						return tTrue
					}
					t := e.flatten(st, ph.Type(), f.env[ph])
					return Sle(e0, t[i])
				}})
			}
			if p, ok := ph.Type().(*types.Pointer); ok && isNamed(p.Elem(), "container/list.Element") {
				e0 := a.entry[ph][i]
				a.cands = append(a.cands, &cand{name: "list " + ph.Name(), eval: func(st *State, f *Frame, k *Term) *Term {
					t := e.flatten(st, ph.Type(), f.env[ph])[0]
					of := func(x *Term) *Term { return App("uf:list_"+sInt.str, sInt, x) }
					return Or(Eq(t, IntT(0)), Eq(of(t), of(e0)))
				}})
			}
		}
	}
	for _, iv := range a.base.invs {
		iv := iv
		a.cands = append(a.cands, &cand{name: iv.name, user: true, eval: func(st *State, f *Frame, k *Term) *Term {
			st.curK = k
			st.loopBase = a.base
			st.outerKs = a.outerKs(st)
			st.loopPhis = a.sliceVals(st, f)
			st.loopVals = loopVals(f)
			st.phiVals = nil
			for _, ph := range a.phis {
				st.phiVals = append(st.phiVals, typedVal{ph.Type(), f.env[ph]})
			}
			defer func() { st.curK, st.outerKs, st.loopBase = nil, nil, nil; st.loopPhis = nil; st.loopVals = nil; st.phiVals = nil }()
			var args []Value
			for i := range iv.f.fn.Params {
				if i == 0 {
					args = append(args, Value(k))
				}
			}
			return e.scalar(e.evalPure(st, iv.f, args))
		}})
	}
}

// outerKs: iteration numbers of the loops around the one described, innermost first, in callers too
func (a *loopAna) outerKs(st *State) []*Term {
	var ks []*Term
	for i := a.fi; i >= 0; i-- {
		f := st.frames[i]
		b := f.block
		if i == a.fi {
			b = a.l.h
		}
		var ls []*loop
		for h, l := range a.e.loopsOf(f.fn) {
			if (i != a.fi || h != a.l.h) && l.body[b] && f.cuts[h] != nil && f.cuts[h].k != nil {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
		for _, l := range ls {
			ks = append(ks, f.cuts[l.h].k)
		}
	}
	return ks
}

type typedVal struct {
	typ types.Type
	v   Value
}

// loopVals: the parameters and values of the function the loop is in, in order of definition
func loopVals(f *Frame) []typedVal {
	var out []typedVal
	for _, p := range f.fn.Params {
		if v, ok := f.env[p]; ok {
			out = append(out, typedVal{p.Type(), v})
		}
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.Value); ok {
				if v, ok := f.env[x]; ok {
					out = append(out, typedVal{x.Type(), v})
				}
			}
		}
	}
	for _, p := range f.fn.FreeVars {
		if v, ok := f.env[p]; ok {
			out = append(out, typedVal{p.Type(), v})
		}
	}
	return out
}

// slices the loop builds or fills: slice phis and slices stored to within the loop
func (a *loopAna) sliceVals(st *State, f *Frame) []Value {
	var out []Value
	for _, ph := range a.phis {
		if _, ok := under(ph.Type()).(*types.Slice); ok {
			out = append(out, f.env[ph])
		}
	}
	seen := map[ssa.Value]bool{}
	var bs []*ssa.BasicBlock
	for b := range a.l.body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && !seen[ia.X] {
				seen[ia.X] = true
				if _, ok := under(ia.X.Type()).(*types.Slice); ok {
					if v, ok := f.env[ia.X]; ok {
						if _, ok := ia.X.(*ssa.Phi); ok {
							continue
						}
						out = append(out, v)
					}
				}
			}
		}
	}
	return out
}

func (e *Engine) headerBound(st *State, a *loopAna, bo *ssa.BinOp) *Term {
	p := st.clone()
	p.rec, p.vrec = nil, nil
	pf := p.frames[a.fi]
	if len(p.frames) != a.fi+1 {
		return nil
	}
	pf.block = a.l.h
	pf.entered = true
	pf.ip = len(a.phis)
	for pf.ip < len(a.l.h.Instrs)-1 {
		in := a.l.h.Instrs[pf.ip]
		pf.ip++
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return nil
		}
		switch in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
		e.exec(p, pf, in)
	}
	if isFloat(bo.X.Type()) || !isInteger(bo.X.Type()) {
		return nil
	}
	x, y := e.term(p, pf, bo.X), e.term(p, pf, bo.Y)
	sg := isSigned(bo.X.Type())
	le := Ule
	if sg {
		le = Sle
	}
	one := BV(1, x.sort.bits)
	switch bo.Op {
	case token.LSS:
		return le(x, y)
	case token.LEQ:
		return le(x, Add(y, one))
	case token.GTR:
		return le(y, x)
	case token.GEQ:
		return le(y, Add(x, one))
	case token.NEQ:
		return le(x, y)
	}
	return nil
}

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ---- pure evaluation ----

// evalPure evaluates a specification closure to a value without side effects on st
// (well-formedness facts discovered on the way are kept).
func (e *Engine) evalPure(st *State, fv FuncV, args []Value) Value {
	if fv.fn == nil {
		unsupported("pure call of unknown function")
	}
	s := st.clone()
	s.frames = nil
	s.stopAt = nil
	s.rec = nil
	s.vrec = nil
	s.curK, s.outerKs, s.loopBase = st.curK, st.outerKs, st.loopBase
	s.loopPhis = st.loopPhis
	s.loopVals = st.loopVals
	s.phiVals = st.phiVals
	base := st.pc
	rt := fv.fn.Signature.Results()
	if rt.Len() != 1 {
		unsupported("pure function with %d results", rt.Len())
	}
	t := rt.At(0).Type()
	e.pureDepth++
	e.silent++
	defer func() { e.pureDepth--; e.silent-- }()
	type outcome struct {
		cond *Term
		v    []*Term
	}
	var outs []outcome
	e.pushFrame(s, fv, args, func(e *Engine, st *State, vals []Value) { st.result = vals })
	maxAlloc := st.alloc
	var facts []*Term
	e.explore(s, func(x *State) {
		if x.rpanic != nil || x.result == nil {
			return
		}
		conds := []*Term{}
		var nodes []*pcNode
		for n := x.pc; n != base && n != nil; n = n.next {
			nodes = append(nodes, n)
		}
		for i := len(nodes) - 1; i >= 0; i-- {
			n := nodes[i]
			if n.branch {
				conds = append(conds, n.t)
			} else {
				facts = append(facts, Implies(And(conds...), n.t))
			}
		}
		if x.alloc > maxAlloc {
			maxAlloc = x.alloc
		}
		outs = append(outs, outcome{And(conds...), e.flatten(x, t, x.result[0])})
	})
	if len(outs) == 0 {
		unsupported("pure evaluation has no outcome (%s)", fv.fn)
	}
	res := outs[len(outs)-1].v
	for i := len(outs) - 2; i >= 0; i-- {
		n := make([]*Term, len(res))
		for j := range res {
			n[j] = Ite(outs[i].cond, outs[i].v[j], res[j])
		}
		res = n
	}
	for _, fct := range facts {
		if !fct.isTrue() {
			st.assume(fct)
		}
	}
	st.alloc = maxAlloc
	return e.unflatten(t, res)
}

// quantify evaluates a predicate closure over a bound variable
func (e *Engine) quantify(st *State, q string, fv FuncV) *Term {
	var sks, bvs []*Term
	var args []Value
	for _, p := range fv.fn.Params {
		s := scalarSort(p.Type())
		if s == nil {
			unsupported("quantification over %s", p.Type())
		}
		sk := Fresh("qv", s)
		sks = append(sks, sk)
		bvs = append(bvs, BVar(s))
		args = append(args, e.wrap(p.Type(), sk))
	}
	base := st.pc
	body := e.scalar(e.evalPure(st, fv, args))
	// drop facts that mention the bound variables, keep the others
	var keep []*pcNode
	var about []*Term
	for n := st.pc; n != base; n = n.next {
		if !mentions(n.t, sks) {
			keep = append(keep, n)
		} else if !n.t.quant {
			about = append(about, n.t)
		}
	}
	st.pc = base
	for i := len(keep) - 1; i >= 0; i-- {
		st.addPC(keep[i].t, keep[i].branch)
	}
	m := map[*Term]*Term{}
	for i := range sks {
		m[sks[i]] = bvs[i]
	}
	r := Quant(q, bvs, Subst(body, m))
	if len(about) > 0 && r.op == "quant" && quantFacts[r] == nil {
		quantFacts[r] = Subst(And(about...), m)
	}
	return r
}

func mentions(t *Term, vs []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, v := range vs {
			if v == t {
				return true
			}
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// ---- contracts ----

func (e *Engine) contractFor(fn *ssa.Function, st *State) *ssa.Function {
	c := e.contracts[fn]
	if c == nil || e.nocontr[fn.String()] {
		return nil
	}
	if n := len(st.frames); n > 0 {
		t := st.frames[n-1]
		if t.verify == fn {
			return nil
		}
		if t.summary == fn {
			return nil
		}
	}
	return c
}

func (e *Engine) callSummary(st *State, c, target *ssa.Function, args []Value, ret func(e *Engine, st *State, vals []Value)) {
	e.summed[shortFn(target.String())] = true
	fr := e.pushFrame(st, FuncV{fn: c}, args, ret)
	fr.summary = target
}

// summaryHavoc replaces the call of the target inside a contract in summary mode
func (e *Engine) summaryHavoc(st *State, fr *Frame, target *ssa.Function, ret func(e *Engine, st *State, vals []Value)) {
	st.alloc += 1 << 20
	for _, m := range fr.mods {
		h := st.heap[m.key]
		if h == nil {
			continue
		}
		if m.ref == nil {
			e.hset(st, m.key, refAny, bounded(Fresh("H_"+m.key, h.sort), st.alloc))
			continue
		}
		e.hset(st, m.key, m.ref, Store(h, m.ref, bounded(Fresh("m_"+m.key, h.sort.v), st.alloc)))
	}
	var vals []Value
	rs := target.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, e.fresh(st, rs.At(i).Type(), "r_"+target.Name()))
	}
	ret(e, st, vals)
}

var _ = strings.HasPrefix

func bounded(v *Term, alloc int64) *Term {
	varBound[v] = alloc
	return v
}
