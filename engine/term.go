package main

// Hash-consed SMT terms with an eager simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort struct {
	kind string // Bool BV Int Unint Array
	bits int
	name string
	k, v *Sort
	str  string
}

var (
	sBool  = &Sort{kind: "Bool", str: "Bool"}
	sInt   = &Sort{kind: "Int", str: "Int"}
	sStr   = &Sort{kind: "Unint", name: "Str", str: "Str"}
	sIface = &Sort{kind: "Unint", name: "Iface", str: "Iface"}
	sRVal  = &Sort{kind: "Unint", name: "RVal", str: "RVal"}
)

var bvSorts [65]*Sort

func sBV(n int) *Sort {
	if n < 1 || n > 64 {
		panic(fmt.Sprintf("bv width %d", n))
	}
	if bvSorts[n] == nil {
		bvSorts[n] = &Sort{kind: "BV", bits: n, str: fmt.Sprintf("(_ BitVec %d)", n)}
	}
	return bvSorts[n]
}

var arrSorts = map[string]*Sort{}

func sArr(k, v *Sort) *Sort {
	s := "(Array " + k.str + " " + v.str + ")"
	if x, ok := arrSorts[s]; ok {
		return x
	}
	x := &Sort{kind: "Array", k: k, v: v, str: s}
	arrSorts[s] = x
	return x
}

var unSorts = map[string]*Sort{"Str": sStr, "Iface": sIface, "RVal": sRVal}

func sUn(name string) *Sort {
	if x, ok := unSorts[name]; ok {
		return x
	}
	x := &Sort{kind: "Unint", name: name, str: name}
	unSorts[name] = x
	return x
}

type Term struct {
	id    int
	op    string // const, var(bound), app ops...
	name  string // for var/app/strlit
	args  []*Term
	sort  *Sort
	val   uint64 // for bv const, int const (as int64), bool const 0/1
	i, j  int    // extract hi lo / ext amount
	bound []*Term
	pats  [][]*Term
	fv    bool // contains bound variables
	quant bool // contains quantifier
}

var termTab = map[string]*Term{}
var termMu sync.Mutex
var termN int

func mk(op, name string, sort *Sort, val uint64, i, j int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	fmt.Fprintf(&sb, "|%d|%d|%d|%s", val, i, j, sort.str)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termN++
	t := &Term{id: termN, op: op, name: name, sort: sort, val: val, i: i, j: j, args: append([]*Term{}, args...)}
	if op == "bvar" {
		t.fv = true
	}
	for _, a := range args {
		if a.fv {
			t.fv = true
		}
		if a.quant {
			t.quant = true
		}
	}
	termTab[key] = t
	return t
}

var tTrue = mk("bool", "", sBool, 1, 0, 0)
var tFalse = mk("bool", "", sBool, 0, 0, 0)

func BoolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mask(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func BV(v uint64, n int) *Term      { return mk("bv", "", sBV(n), v&mask(n), 0, 0) }
func IntT(v int64) *Term            { return mk("int", "", sInt, uint64(v), 0, 0) }
func Var(name string, s *Sort) *Term { return mk("var", name, s, 0, 0, 0) }

var freshN int

func resetFresh() { freshN = 0 }
func Fresh(prefix string, s *Sort) *Term {
	freshN++
	return Var(fmt.Sprintf("%s!%d", sanitize(prefix), freshN), s)
}
func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (t *Term) isConst() bool { return t.op == "bv" || t.op == "bool" || t.op == "int" }
func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }

func sx(v uint64, n int) int64 {
	if n >= 64 {
		return int64(v)
	}
	if v&(1<<uint(n-1)) != 0 {
		return int64(v | ^mask(n))
	}
	return int64(v)
}

// ---- boolean ----
func Not(a *Term) *Term {
	if a == tTrue {
		return tFalse
	}
	if a == tFalse {
		return tTrue
	}
	if a.op == "not" {
		return a.args[0]
	}
	return mk("not", "", sBool, 0, 0, 0, a)
}

func And(xs ...*Term) *Term { return nary("and", xs) }
func Or(xs ...*Term) *Term  { return nary("or", xs) }

func nary(op string, xs []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == "or" {
		unit, zero = tFalse, tTrue
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, "", sBool, 0, 0, 0, out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if b == tFalse {
			return And(c, a)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
	}
	if c.op == "not" {
		return mk("ite", "", a.sort, 0, 0, 0, c.args[0], b, a)
	}
	return mk("ite", "", a.sort, 0, 0, 0, c, a, b)
}

// distinct syntactic knowledge
func known(a, b *Term) (bool, bool) {
	if a == b {
		return true, true
	}
	if a.isConst() && b.isConst() {
		return a.val == b.val, true
	}
	if a.op == "strlit" && b.op == "strlit" {
		return false, true
	}
	if a.sort.kind == "BV" {
		d := Sub(a, b)
		if d.op == "bv" {
			return d.val == 0, true
		}
	}
	if a.sort == sIface {
		ca, cb := isICtor(a), isICtor(b)
		if ca != "" && cb != "" {
			if ca != cb {
				return false, true
			}
			all := true
			for i := range a.args {
				e, k := known(a.args[i], b.args[i])
				if k && !e {
					return false, true
				}
				if !k {
					all = false
				}
			}
			return true, all
		}
	}
	if a.sort == sInt {
		// ref offsets: (x + c)
	}
	return false, false
}

func isICtor(t *Term) string {
	if t.op == "app" {
		switch t.name {
		case "inil", "ibv", "istr", "iref":
			return t.name
		}
	}
	return ""
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s / %s", a.sort.str, b.sort.str, a, b))
	}
	if e, k := known(a, b); k {
		return BoolT(e)
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.sort == sIface {
		ca, cb := isICtor(a), isICtor(b)
		if ca != "" && ca == cb {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
		if ca == "inil" {
			return Not(Not(isCtor("inil", b)))
		}
		if cb == "inil" {
			return isCtor("inil", a)
		}
	}
	if a.op == "app" && a.name == "strcat" && b.op == "app" && b.name == "strcat" {
		p, q := a.args[0], b.args[0]
		if p == q {
			return Eq(a.args[1], b.args[1])
		}
		if p.op == "strlit" && q.op == "strlit" && !strings.HasPrefix(p.name, q.name) && !strings.HasPrefix(q.name, p.name) {
			return tFalse
		}
	}
	// const vs ite of consts
	if a.isConst() && b.op == "ite" {
		a, b = b, a
	}
	if b.isConst() && a.op == "ite" && (a.args[1].isConst() || a.args[2].isConst()) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "bv" && a.op == "zext" {
		inner := a.args[0]
		if b.val>>uint(inner.sort.bits) != 0 {
			return tFalse
		}
		return Eq(inner, BV(b.val, inner.sort.bits))
	}
	if a.op == "bv" && b.op == "zext" {
		return Eq(b, a)
	}
	if a.op == "zext" && b.op == "zext" && a.args[0].sort == b.args[0].sort {
		return Eq(a.args[0], b.args[0])
	}
	if a.op == "sext" && b.op == "sext" && a.args[0].sort == b.args[0].sort {
		return Eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", sBool, 0, 0, 0, a, b)
}

// ---- bitvectors ----
type lin struct {
	c  uint64
	ts map[*Term]uint64
}

func (l *lin) add(t *Term, k uint64) {
	switch t.op {
	case "bv":
		l.c += t.val * k
	case "bvadd":
		for _, a := range t.args {
			l.add(a, k)
		}
	case "bvmulc": // const * term
		l.add(t.args[0], k*t.val)
	default:
		l.ts[t] += k
	}
}

func (l *lin) build(n int) *Term {
	m := mask(n)
	var ks []*Term
	for t, c := range l.ts {
		if c&m != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, t := range ks {
		c := l.ts[t] & m
		if c == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk("bvmulc", "", t.sort, c, 0, 0, t))
		}
	}
	if l.c&m != 0 || len(args) == 0 {
		args = append(args, BV(l.c, n))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("bvadd", "", sBV(n), 0, 0, 0, args...)
}

func Add(a, b *Term) *Term {
	if a.sort == sInt {
		if a.op == "int" && b.op == "int" {
			return IntT(int64(a.val) + int64(b.val))
		}
		if b.op == "int" && b.val == 0 {
			return a
		}
		return mk("+", "", sInt, 0, 0, 0, a, b)
	}
	l := &lin{ts: map[*Term]uint64{}}
	l.add(a, 1)
	l.add(b, 1)
	return l.build(a.sort.bits)
}
func Sub(a, b *Term) *Term {
	l := &lin{ts: map[*Term]uint64{}}
	l.add(a, 1)
	l.add(b, ^uint64(0))
	return l.build(a.sort.bits)
}
func Neg(a *Term) *Term { return Sub(BV(0, a.sort.bits), a) }
func Mul(a, b *Term) *Term {
	if a.op == "bv" {
		a, b = b, a
	}
	if b.op == "bv" {
		l := &lin{ts: map[*Term]uint64{}}
		l.add(a, b.val)
		return l.build(a.sort.bits)
	}
	return mk("bvmul", "", a.sort, 0, 0, 0, a, b)
}

func BVBin(op string, a, b *Term) *Term {
	n := a.sort.bits
	switch op {
	case "bvadd":
		return Add(a, b)
	case "bvsub":
		return Sub(a, b)
	case "bvmul":
		return Mul(a, b)
	}
	if a.op == "bv" && b.op == "bv" {
		x, y := a.val, b.val
		switch op {
		case "bvand":
			return BV(x&y, n)
		case "bvor":
			return BV(x|y, n)
		case "bvxor":
			return BV(x^y, n)
		case "bvshl":
			if y >= uint64(n) {
				return BV(0, n)
			}
			return BV(x<<y, n)
		case "bvlshr":
			if y >= uint64(n) {
				return BV(0, n)
			}
			return BV(x>>y, n)
		case "bvashr":
			if y >= uint64(n) {
				y = uint64(n - 1)
			}
			return BV(uint64(sx(x, n)>>y), n)
		case "bvudiv":
			if y != 0 {
				return BV(x/y, n)
			}
		case "bvurem":
			if y != 0 {
				return BV(x%y, n)
			}
		case "bvsdiv":
			if y != 0 {
				return BV(uint64(sx(x, n)/sx(y, n)), n)
			}
		case "bvsrem":
			if y != 0 {
				return BV(uint64(sx(x, n)%sx(y, n)), n)
			}
		}
	}
	if b.op == "bv" && b.val == 0 {
		switch op {
		case "bvor", "bvxor", "bvshl", "bvlshr", "bvashr":
			return a
		case "bvand":
			return b
		}
	}
	if a.op == "bv" && a.val == 0 {
		switch op {
		case "bvor", "bvxor":
			return b
		case "bvand", "bvshl", "bvlshr", "bvashr":
			return a
		}
	}
	if op == "bvand" && b.op == "bv" && b.val == mask(n) {
		return a
	}
	if op == "bvand" && a.op == "bv" && a.val == mask(n) {
		return b
	}
	// shifts by constants become concat/extract
	if b.op == "bv" {
		s := int(b.val)
		if b.val >= uint64(n) {
			if op == "bvshl" || op == "bvlshr" {
				return BV(0, n)
			}
			s = n - 1
		}
		switch op {
		case "bvlshr":
			return ZExt(Extract(a, n-1, s), n)
		case "bvashr":
			return SExt(Extract(a, n-1, s), n)
		case "bvshl":
			return Concat(Extract(a, n-1-s, 0), BV(0, s))
		}
	}
	// or of disjoint parts
	if op == "bvor" {
		if t := orConcat(a, b); t != nil {
			return t
		}
	}
	if op == "bvor" || op == "bvand" || op == "bvxor" {
		if a == b {
			if op == "bvxor" {
				return BV(0, n)
			}
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mk(op, "", a.sort, 0, 0, 0, a, b)
}

// parts decomposes a term as concatenation of pieces (high to low)
func parts(t *Term) []*Term {
	switch t.op {
	case "concat":
		var out []*Term
		for _, a := range t.args {
			out = append(out, parts(a)...)
		}
		return out
	case "zext":
		d := t.sort.bits - t.args[0].sort.bits
		return append([]*Term{BV(0, d)}, parts(t.args[0])...)
	}
	return []*Term{t}
}

func orConcat(a, b *Term) *Term {
	pa, pb := parts(a), parts(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	// cut points
	cuts := map[int]bool{}
	acc := func(ps []*Term) {
		x := 0
		for i := len(ps) - 1; i >= 0; i-- {
			x += ps[i].sort.bits
			cuts[x] = true
		}
	}
	acc(pa)
	acc(pb)
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	get := func(ps []*Term, lo, hi int) *Term {
		x := 0
		for i := len(ps) - 1; i >= 0; i-- {
			w := ps[i].sort.bits
			if lo >= x && hi <= x+w {
				return Extract(ps[i], hi-1-x, lo-x)
			}
			x += w
		}
		return nil
	}
	var out []*Term
	lo := 0
	for _, hi := range cs {
		x, y := get(pa, lo, hi), get(pb, lo, hi)
		if x == nil || y == nil {
			return nil
		}
		if x.op == "bv" && x.val == 0 {
			out = append([]*Term{y}, out...)
		} else if y.op == "bv" && y.val == 0 {
			out = append([]*Term{x}, out...)
		} else if x == y {
			out = append([]*Term{x}, out...)
		} else {
			return nil
		}
		lo = hi
	}
	return Concat(out...)
}

func BVNot(a *Term) *Term {
	if a.op == "bv" {
		return BV(^a.val, a.sort.bits)
	}
	return mk("bvnot", "", a.sort, 0, 0, 0, a)
}

func Extract(a *Term, hi, lo int) *Term {
	n := a.sort.bits
	if hi < lo {
		panic("extract")
	}
	if lo == 0 && hi == n-1 {
		return a
	}
	w := hi - lo + 1
	switch a.op {
	case "bv":
		return BV(a.val>>uint(lo), w)
	case "extract":
		return Extract(a.args[0], hi+a.j, lo+a.j)
	case "zext":
		in := a.args[0].sort.bits
		if hi < in {
			return Extract(a.args[0], hi, lo)
		}
		if lo >= in {
			return BV(0, w)
		}
		return ZExt(Extract(a.args[0], in-1, lo), w)
	case "sext":
		in := a.args[0].sort.bits
		if hi < in {
			return Extract(a.args[0], hi, lo)
		}
		if lo < in {
			return SExt(Extract(a.args[0], in-1, lo), w)
		}
	case "concat":
		ps := parts(a)
		x := 0
		var out []*Term
		for i := len(ps) - 1; i >= 0; i-- {
			pw := ps[i].sort.bits
			l, h := x, x+pw-1
			if h >= lo && l <= hi {
				ll, hh := max(lo, l)-x, min(hi, h)-x
				out = append([]*Term{Extract(ps[i], hh, ll)}, out...)
			}
			x += pw
		}
		return Concat(out...)
	case "ite":
		if a.args[1].isConst() || a.args[2].isConst() {
			return Ite(a.args[0], Extract(a.args[1], hi, lo), Extract(a.args[2], hi, lo))
		}
	case "bvand", "bvor", "bvxor":
		return BVBin(a.op, Extract(a.args[0], hi, lo), Extract(a.args[1], hi, lo))
	case "bvadd":
		if lo == 0 {
			r := Extract(a.args[0], hi, 0)
			for _, x := range a.args[1:] {
				r = Add(r, Extract(x, hi, 0))
			}
			return r
		}
	}
	return mk("extract", "", sBV(w), 0, hi, lo, a)
}

func Concat(ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		if t.op == "concat" {
			ps = append(ps, t.args...)
		} else if t.op == "zext" {
			ps = append(ps, parts(t)...)
		} else {
			ps = append(ps, t)
		}
	}
	// merge neighbours
	var out []*Term
	for _, p := range ps {
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.op == "bv" && p.op == "bv" {
				out[len(out)-1] = BV(l.val<<uint(p.sort.bits)|p.val, l.sort.bits+p.sort.bits)
				continue
			}
			// extract adjacency
			lb, lh, ll := exr(l)
			pb, ph, pl := exr(p)
			if lb == pb && ll == ph+1 && (l.op == "extract" || p.op == "extract") {
				out[len(out)-1] = Extract(lb, lh, pl)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	n := 0
	for _, p := range out {
		n += p.sort.bits
	}
	if out[0].op == "bv" && out[0].val == 0 {
		return ZExt(Concat(out[1:]...), n)
	}
	return mk("concat", "", sBV(n), 0, 0, 0, out...)
}
func exr(t *Term) (*Term, int, int) {
	if t.op == "extract" {
		return t.args[0], t.i, t.j
	}
	return t, t.sort.bits - 1, 0
}

func ZExt(a *Term, n int) *Term {
	if a.sort.bits == n {
		return a
	}
	if a.sort.bits > n {
		return Extract(a, n-1, 0)
	}
	if a.op == "bv" {
		return BV(a.val, n)
	}
	if a.op == "zext" {
		return ZExt(a.args[0], n)
	}
	return mk("zext", "", sBV(n), 0, n-a.sort.bits, 0, a)
}
func SExt(a *Term, n int) *Term {
	if a.sort.bits == n {
		return a
	}
	if a.sort.bits > n {
		return Extract(a, n-1, 0)
	}
	if a.op == "bv" {
		return BV(uint64(sx(a.val, a.sort.bits)), n)
	}
	if a.op == "zext" {
		return ZExt(a.args[0], n)
	}
	if a.op == "sext" {
		return SExt(a.args[0], n)
	}
	return mk("sext", "", sBV(n), 0, n-a.sort.bits, 0, a)
}

// comparison: op in bvult bvule bvslt bvsle
func Cmp(op string, a, b *Term) *Term {
	n := a.sort.bits
	if a.op == "bv" && b.op == "bv" {
		switch op {
		case "bvult":
			return BoolT(a.val < b.val)
		case "bvule":
			return BoolT(a.val <= b.val)
		case "bvslt":
			return BoolT(sx(a.val, n) < sx(b.val, n))
		case "bvsle":
			return BoolT(sx(a.val, n) <= sx(b.val, n))
		}
	}
	if a == b {
		return BoolT(op == "bvule" || op == "bvsle")
	}
	if op == "bvult" && b.op == "bv" && b.val == 0 {
		return tFalse
	}
	if op == "bvule" && a.op == "bv" && a.val == 0 {
		return tTrue
	}
	if op == "bvult" && b.op == "bv" && b.val == 1 {
		return Eq(a, BV(0, n))
	}
	if a.op == "zext" && b.op == "bv" {
		in := a.args[0].sort.bits
		if op[2] == 'u' || sx(b.val, n) >= 0 {
			if b.val > mask(in) {
				return tTrue
			}
			if op == "bvslt" || op == "bvult" {
				return Cmp("bvult", a.args[0], BV(b.val, in))
			}
			return Cmp("bvule", a.args[0], BV(b.val, in))
		}
		return tFalse
	}
	if b.op == "zext" && a.op == "bv" {
		in := b.args[0].sort.bits
		if op[2] == 'u' || sx(a.val, n) >= 0 {
			if a.val > mask(in) {
				return tFalse
			}
			if op == "bvslt" || op == "bvult" {
				return Cmp("bvult", BV(a.val, in), b.args[0])
			}
			return Cmp("bvule", BV(a.val, in), b.args[0])
		}
		return tTrue
	}
	// a<b  as not (b<=a)
	switch op {
	case "bvule":
		return Not(Cmp("bvult", b, a))
	case "bvsle":
		return Not(Cmp("bvslt", b, a))
	}
	return mk(op, "", sBool, 0, 0, 0, a, b)
}
func Ult(a, b *Term) *Term { return Cmp("bvult", a, b) }
func Ule(a, b *Term) *Term { return Cmp("bvule", a, b) }
func Slt(a, b *Term) *Term { return Cmp("bvslt", a, b) }
func Sle(a, b *Term) *Term { return Cmp("bvsle", a, b) }

// Int comparisons
func ILe(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return BoolT(int64(a.val) <= int64(b.val))
	}
	return mk("<=", "", sBool, 0, 0, 0, a, b)
}
func ILt(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return BoolT(int64(a.val) < int64(b.val))
	}
	return mk("<", "", sBool, 0, 0, 0, a, b)
}

// ---- arrays ----
func Select(a, i *Term) *Term {
	if a.sort.kind != "Array" || a.sort.k != i.sort {
		panic(fmt.Sprintf("select sort: %s [%s]", a.sort.str, i.sort.str))
	}
	for {
		switch a.op {
		case "store":
			e, k := known(a.args[1], i)
			if k {
				if e {
					return a.args[2]
				}
				a = a.args[0]
				continue
			}
			if a.sort.k == sInt {
				break
			}
			if a.sort.v.kind != "Array" {
				return Ite(Eq(a.args[1], i), a.args[2], Select(a.args[0], i))
			}
		case "constarr":
			return a.args[0]
		case "hv":
			return Ite(ILt(i, IntT(int64(a.val))), Select(a.args[0], i), Select(a.args[1], i))
		case "cp":
			d, dp, s, sp, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
			off := Sub(i, dp)
			c := Ult(off, n)
			if c == tTrue {
				return Select(s, Add(sp, off))
			}
			if c == tFalse {
				a = d
				continue
			}
			if off.op == "bv" && n.op != "bv" && false {
			}
			return Ite(c, Select(s, Add(sp, off)), Select(d, i))
		case "ite":
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		break
	}
	return mk("select", "", a.sort.v, 0, 0, 0, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.sort.k != i.sort || a.sort.v != v.sort {
		panic(fmt.Sprintf("store sort: %s [%s] := %s", a.sort.str, i.sort.str, v.sort.str))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, 0, 0, 0, a, i, v)
}
// HV: heap equal to a below reference mark, to b from the mark on
func HV(a, b *Term, mark int64) *Term { return mk("hv", "", a.sort, uint64(mark), 0, 0, a, b) }
func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", "", s, 0, 0, 0, v) }

// Copy: dst with n elements from src at sp placed at dp (BV64 indices)
func Copy(d, dp, s, sp, n *Term) *Term {
	if n.op == "bv" && n.val <= 16 {
		r := d
		for i := uint64(0); i < n.val; i++ {
			r = Store(r, Add(dp, BV(i, 64)), Select(s, Add(sp, BV(i, 64))))
		}
		return r
	}
	return mk("cp", "", d.sort, 0, 0, 0, d, dp, s, sp, n)
}

// ---- uninterpreted / datatype ----
type fdecl struct {
	name string
	args []*Sort
	ret  *Sort
}

var fdecls = map[string]*fdecl{}

func App(name string, ret *Sort, args ...*Term) *Term {
	// iface selectors
	if len(args) == 1 && args[0].sort == sIface {
		c := isICtor(args[0])
		if c != "" {
			a := args[0]
			switch name {
			case "is-inil", "is-ibv", "is-istr", "is-iref":
				return BoolT(name[3:] == c)
			case "ibv_tag", "istr_tag", "iref_tag":
				if c == name[:strings.Index(name, "_")] {
					return a.args[0]
				}
			case "ibv_bits", "istr_s", "iref_r":
				if c == name[:strings.Index(name, "_")] {
					return a.args[1]
				}
			}
		}
		if args[0].op == "ite" && name != "tagOf" {
			a := args[0]
			if isICtor(a.args[1]) != "" || isICtor(a.args[2]) != "" {
				return Ite(a.args[0], App(name, ret, a.args[1]), App(name, ret, a.args[2]))
			}
		}
	}
	switch name {
	case "inil", "ibv", "istr", "iref", "is-inil", "is-ibv", "is-istr", "is-iref", "ibv_tag", "ibv_bits", "istr_tag", "istr_s", "iref_tag", "iref_r":
	default:
		if _, ok := fdecls[name]; !ok {
			d := &fdecl{name: name, ret: ret}
			for _, a := range args {
				d.args = append(d.args, a.sort)
			}
			fdecls[name] = d
		}
	}
	if name == "slen" && args[0].op == "strlit" {
		return BV(uint64(len(args[0].name)), 64)
	}
	if name == "slen" && args[0].op == "app" && args[0].name == "strOf" {
		return args[0].args[2]
	}
	if name == "bytesOf" && args[0].op == "strlit" && len(args[0].name) == 0 {
		// contents irrelevant
	}
	return mk("app", name, ret, 0, 0, 0, args...)
}

func isCtor(c string, t *Term) *Term { return App("is-"+c, sBool, t) }

var tINil = App("inil", sIface)

func StrLit(s string) *Term { return mk("strlit", s, sStr, 0, 0, 0) }

// ---- quantifiers ----
var bvarN int

func BVar(s *Sort) *Term {
	bvarN++
	return mk("bvar", fmt.Sprintf("q%d", bvarN), s, 0, 0, 0)
}

func Quant(q string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isConst() {
		return body
	}
	// drop unused
	if !usesAny(body, vars) {
		return body
	}
	if len(pats) == 0 && q == "forall" {
		pats = autoPats(vars, body)
	}
	name := q
	for _, v := range vars {
		name += " " + v.name + ":" + v.sort.str
	}
	for _, p := range pats {
		name += " {"
		for _, t := range p {
			name += fmt.Sprintf(" %d", t.id)
		}
		name += "}"
	}
	t := mk("quant", name, sBool, 0, 0, 0, body)
	t.op = "quant"
	t.bound = vars
	t.pats = pats
	t.quant = true
	if q == "forall" {
		t.i = 1
	}
	t.fv = false
	set := map[*Term]bool{}
	for _, v := range vars {
		set[v] = true
	}
	t.fv = hasFreeBV(body, set)
	return t
}

func usesAny(t *Term, vars []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if !t.fv || seen[t] {
			return false
		}
		seen[t] = true
		for _, v := range vars {
			if t == v {
				return true
			}
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
func hasFreeBV(t *Term, bound map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term, b map[*Term]bool) bool
	f = func(t *Term, b map[*Term]bool) bool {
		if !t.fv {
			return false
		}
		if t.op == "bvar" {
			return !b[t]
		}
		if t.op == "quant" {
			nb := map[*Term]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.bound {
				nb[v] = true
			}
			return f(t.args[0], nb)
		}
		if seen[t] {
			return false
		}
		for _, a := range t.args {
			if f(a, b) {
				return true
			}
		}
		seen[t] = true
		return false
	}
	return f(t, bound)
}

// autoPats: pick select/app terms that cover all bound variables where the variable is a direct argument.
func autoPats(vars []*Term, body *Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.fv || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "quant" {
			return
		}
		if (t.op == "select" || t.op == "app") && t.sort != nil {
			ok := true
			var chk func(x *Term)
			chk = func(x *Term) {
				switch x.op {
				case "ite", "not", "and", "or", "=", "bvult", "bvslt", "quant", "bvadd", "bvmulc", "bvmul", "concat", "zext", "sext", "extract", "cp", "store":
					if x.fv {
						ok = false
					}
				}
				for _, a := range x.args {
					if ok && x.fv {
						chk(a)
					}
				}
			}
			for _, a := range t.args {
				chk(a)
			}
			direct := false
			for _, a := range t.args {
				for _, v := range vars {
					if a == v {
						direct = true
					}
				}
			}
			if ok && direct {
				cands = append(cands, t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var out [][]*Term
	covers := func(ts []*Term) bool {
		for _, v := range vars {
			f := false
			for _, t := range ts {
				if usesAny(t, []*Term{v}) {
					f = true
				}
			}
			if !f {
				return false
			}
		}
		return true
	}
	for _, c := range cands {
		if covers([]*Term{c}) {
			out = append(out, []*Term{c})
		}
	}
	if len(out) == 0 && len(vars) == 2 {
		for i := range cands {
			for j := i + 1; j < len(cands); j++ {
				if covers([]*Term{cands[i], cands[j]}) && len(out) < 4 {
					out = append(out, []*Term{cands[i], cands[j]})
				}
			}
		}
	}
	return out
}

// Subst replaces terms (simultaneously) rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, args []*Term, f func(*Term) *Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "bvadd":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "bvmulc":
		return Mul(args[0], BV(t.val, t.sort.bits))
	case "bvmul":
		return Mul(args[0], args[1])
	case "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		return BVBin(t.op, args[0], args[1])
	case "bvnot":
		return BVNot(args[0])
	case "extract":
		return Extract(args[0], t.i, t.j)
	case "concat":
		return Concat(args...)
	case "zext":
		return ZExt(args[0], t.sort.bits)
	case "sext":
		return SExt(args[0], t.sort.bits)
	case "bvult", "bvslt":
		return Cmp(t.op, args[0], args[1])
	case "<=":
		return ILe(args[0], args[1])
	case "<":
		return ILt(args[0], args[1])
	case "+":
		return Add(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "cp":
		return Copy(args[0], args[1], args[2], args[3], args[4])
	case "constarr":
		return ConstArr(t.sort, args[0])
	case "hv":
		return HV(args[0], args[1], int64(t.val))
	case "app":
		return App(t.name, t.sort, args...)
	case "quant":
		q := "exists"
		if t.i == 1 {
			q = "forall"
		}
		return Quant(q, t.bound, args[0])
	case "fp":
		return mk("fp", t.name, t.sort, t.val, t.i, t.j, args...)
	}
	panic("rebuild " + t.op)
}

// FPOp: an SMT floating-point operation over bit patterns; name is a template key.
func FPOp(name string, s *Sort, args ...*Term) *Term {
	return mk("fp", name, s, 0, 0, 0, args...)
}

// ---- printing ----
func (t *Term) String() string {
	left := 3000
	s := t.short(&left)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// short prints at most about *left nodes
func (t *Term) short(left *int) string {
	*left--
	if *left < 0 {
		return "..."
	}
	return t.smt(func(a *Term) string { return a.short(left) })
}

func smtName(n string) string { return "|" + n + "|" }

func (t *Term) smt(ref func(*Term) string) string {
	arg := func(a *Term) string {
		if ref != nil {
			return ref(a)
		}
		return a.smt(nil)
	}
	join := func(op string) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(arg(a))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	switch t.op {
	case "bool":
		if t.val == 1 {
			return "true"
		}
		return "false"
	case "bv":
		if t.sort.bits%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.sort.bits/4, t.val)
		}
		b := new(big.Int).SetUint64(t.val)
		return fmt.Sprintf("(_ bv%s %d)", b.String(), t.sort.bits)
	case "int":
		v := int64(t.val)
		if v < 0 {
			return fmt.Sprintf("(- %d)", -v)
		}
		return fmt.Sprint(v)
	case "var", "bvar":
		return smtName(t.name)
	case "strlit":
		return smtName(fmt.Sprintf("lit!%x", t.name))
	case "zext":
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.i, arg(t.args[0]))
	case "sext":
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.i, arg(t.args[0]))
	case "extract":
		return fmt.Sprintf("((_ extract %d %d) %s)", t.i, t.j, arg(t.args[0]))
	case "bvmulc":
		return fmt.Sprintf("(bvmul %s %s)", BV(t.val, t.sort.bits).smt(nil), arg(t.args[0]))
	case "hv":
		return smtName(fmt.Sprintf("hv!%d", t.id))
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.sort.str, arg(t.args[0]))
	case "cp":
		return smtName(fmt.Sprintf("cp!%d", t.id))
	case "app":
		n := t.name
		if strings.HasPrefix(n, "is-") {
			n = "(_ is " + n[3:] + ")"
			return join(n)
		}
		switch n {
		case "inil", "ibv", "istr", "iref", "ibv_tag", "ibv_bits", "istr_tag", "istr_s", "iref_tag", "iref_r":
		default:
			n = smtName(n)
		}
		if len(t.args) == 0 {
			return n
		}
		return join(n)
	case "quant":
		var sb strings.Builder
		if t.i == 1 {
			sb.WriteString("(forall (")
		} else {
			sb.WriteString("(exists (")
		}
		for _, v := range t.bound {
			fmt.Fprintf(&sb, "(%s %s)", smtName(v.name), v.sort.str)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(arg(t.args[0]))
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(arg(x))
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	case "fp":
		return fpPrint(t, arg)
	}
	return join(t.op)
}

func fpPrint(t *Term, arg func(*Term) string) string {
	f := func(a *Term) string {
		if a.sort.bits == 32 {
			return "((_ to_fp 8 24) " + arg(a) + ")"
		}
		return "((_ to_fp 11 53) " + arg(a) + ")"
	}
	switch t.name {
	case "lt":
		return "(fp.lt " + f(t.args[0]) + " " + f(t.args[1]) + ")"
	case "le":
		return "(fp.leq " + f(t.args[0]) + " " + f(t.args[1]) + ")"
	case "eq":
		return "(fp.eq " + f(t.args[0]) + " " + f(t.args[1]) + ")"
	case "isnan":
		return "(fp.isNaN " + f(t.args[0]) + ")"
	case "to_sbv64": // truncation
		return "((_ fp.to_sbv 64) RTZ " + f(t.args[0]) + ")"
	case "to_ubv64":
		return "((_ fp.to_ubv 64) RTZ " + f(t.args[0]) + ")"
	// relations result-bits = op(...): predicate forms
	case "is_add", "is_sub", "is_mul", "is_div":
		op := map[string]string{"is_add": "fp.add", "is_sub": "fp.sub", "is_mul": "fp.mul", "is_div": "fp.div"}[t.name]
		return "(= " + f(t.args[0]) + " (" + op + " RNE " + f(t.args[1]) + " " + f(t.args[2]) + "))"
	case "is_cvt": // result width from args[0], source args[1]
		d := "8 24"
		if t.args[0].sort.bits == 64 {
			d = "11 53"
		}
		return "(= " + f(t.args[0]) + " ((_ to_fp " + d + ") RNE " + f(t.args[1]) + "))"
	case "is_fromsbv":
		d := "8 24"
		if t.args[0].sort.bits == 64 {
			d = "11 53"
		}
		return "(= " + f(t.args[0]) + " ((_ to_fp " + d + ") RNE " + arg(t.args[1]) + "))"
	case "is_fromubv":
		d := "8 24"
		if t.args[0].sort.bits == 64 {
			d = "11 53"
		}
		return "(= " + f(t.args[0]) + " ((_ to_fp_unsigned " + d + ") RNE " + arg(t.args[1]) + "))"
	case "is_neg":
		return "(= " + f(t.args[0]) + " (fp.neg " + f(t.args[1]) + "))"
	}
	panic("fp " + t.name)
}
