package main

import (
	"context"
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

const smtHeader = `(set-option :print-success false)
(set-option :smt.mbqi false)
(set-option :auto_config false)
(set-option :model.completion true)
(set-option :global-declarations true)
(declare-sort Str 0)
(declare-sort RVal 0)
(declare-datatypes ((Iface 0)) (((inil) (ibv (ibv_tag Int) (ibv_bits (_ BitVec 64))) (istr (istr_tag Int) (istr_s Str)) (iref (iref_tag Int) (iref_r Int)))))
`

func init() {
	fdecls["slen"] = &fdecl{name: "slen", args: []*Sort{sStr}, ret: sBV(64)}
	fdecls["bytesOf"] = &fdecl{name: "bytesOf", args: []*Sort{sStr}, ret: sArr(sBV(64), sBV(8))}
}

type Solver struct {
	quick   bool
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	declV   map[string]bool
	declF   map[string]bool
	declS   map[string]bool
	log     *os.File

	Queries  int
	Time     time.Duration
	FeasQ    int
	FeasTime time.Duration
	ByBack   map[string]int
	Timeout  int // ms full queries
	axioms   []*Term

	// ground hypotheses currently asserted, level by level
	levels []level
	ctx    auxCtx
}

type level struct {
	terms []*Term
	seen  int
	lits  int
}

// auxCtx remembers which terms have had their auxiliary axioms asserted
type auxCtx struct {
	seen map[*Term]bool
	log  []*Term
	lits []*Term
}

func (c *auxCtx) undo(l level) {
	for _, t := range c.log[l.seen:] {
		delete(c.seen, t)
	}
	c.log = c.log[:l.seen]
	c.lits = c.lits[:l.lits]
}

var slowLog = os.Getenv("GOV_SLOW") != ""

func NewSolver() *Solver {
	s := &Solver{ByBack: map[string]int{}, Timeout: 8000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.defined = map[int]bool{}
	s.declV = map[string]bool{}
	s.declF = map[string]bool{}
	s.declS = map[string]bool{"Str": true, "Iface": true, "RVal": true}
	s.levels = nil
	s.ctx = auxCtx{seen: map[*Term]bool{}}
	if f := os.Getenv("GOV_SMTLOG"); f != "" && s.log == nil {
		s.log, _ = os.Create(f)
	}
	s.send(smtHeader)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *Solver) readResult() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "error: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
		if l == "timeout" {
			return "unknown"
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "SMT:", l)
			if os.Getenv("GOV_DEBUG") != "" {
				panic(l)
			}
		}
	}
}

// printer emits declarations/definitions (into sb) and returns reference strings
type printer struct {
	sb      *strings.Builder
	defined map[int]bool
	declV   map[string]bool
	declF   map[string]bool
	declS   map[string]bool
}

func (p *printer) declSort(st *Sort) {
	if st.kind == "Array" {
		p.declSort(st.k)
		p.declSort(st.v)
		return
	}
	if st.kind == "Unint" && !p.declS[st.name] {
		p.declS[st.name] = true
		fmt.Fprintf(p.sb, "(declare-sort %s 0)\n", st.name)
	}
}

func (p *printer) prep(t *Term) {
	if p.defined[t.id] {
		return
	}
	p.defined[t.id] = true
	for _, a := range t.args {
		p.prep(a)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.prep(x)
		}
	}
	for _, v := range t.bound {
		p.declSort(v.sort)
	}
	switch t.op {
	case "var", "strlit":
		n := t.smt(nil)
		if !p.declV[n] {
			p.declV[n] = true
			p.declSort(t.sort)
			fmt.Fprintf(p.sb, "(declare-const %s %s)\n", n, t.sort.str)
		}
		return
	case "cp", "hv":
		if t.fv {
			panic("cp under binder")
		}
		n := t.smt(nil)
		if !p.declV[n] {
			p.declV[n] = true
			fmt.Fprintf(p.sb, "(declare-const %s %s)\n", n, t.sort.str)
		}
		return
	case "app":
		if d, ok := fdecls[t.name]; ok && !p.declF[t.name] {
			p.declF[t.name] = true
			var as []string
			for _, a := range d.args {
				p.declSort(a)
				as = append(as, a.str)
			}
			p.declSort(d.ret)
			fmt.Fprintf(p.sb, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(as, " "), d.ret.str)
		}
	}
	if t.fv || len(t.args) == 0 {
		return
	}
	p.declSort(t.sort)
	fmt.Fprintf(p.sb, "(define-fun t%d () %s %s)\n", t.id, t.sort.str, t.smt(p.ref))
}

func (p *printer) ref(t *Term) string {
	if t.fv {
		return t.smt(p.ref)
	}
	if len(t.args) == 0 || t.op == "cp" || t.op == "hv" {
		return t.smt(nil)
	}
	return fmt.Sprintf("t%d", t.id)
}

// aux axioms for the special terms appearing in ts
func auxAxioms(ts []*Term, quant bool) []*Term {
	return auxAxiomsIn(&auxCtx{seen: map[*Term]bool{}}, ts, quant)
}

func auxAxiomsIn(ctx *auxCtx, ts []*Term, quant bool) []*Term {
	var out []*Term
	var work []*Term
	lits0 := len(ctx.lits)
	var walk func(t *Term)
	push := func(t *Term) { out = append(out, t); work = append(work, t) }
	walk = func(t *Term) {
		if ctx.seen[t] {
			return
		}
		ctx.seen[t] = true
		ctx.log = append(ctx.log, t)
		for _, a := range t.args {
			walk(a)
		}
		if t.op == "quant" {
			return
		}
		if t.fv {
			return
		}
		switch t.op {
		case "strlit":
			ctx.lits = append(ctx.lits, t)
			push(mk("=", "", sBool, 0, 0, 0, mk("app", "slen", sBV(64), 0, 0, 0, t), BV(uint64(len(t.name)), 64)))
			if len(t.name) <= 80 {
				for i := 0; i < len(t.name); i++ {
					push(Eq(Select(App("bytesOf", sArr(sBV(64), sBV(8)), t), BV(uint64(i), 64)), BV(uint64(t.name[i]), 8)))
				}
			}
		case "hv":
			if quant {
				i := BVar(sInt)
				sel := mk("select", "", t.sort.v, 0, 0, 0, t, i)
				rhs := mk("ite", "", t.sort.v, 0, 0, 0, ILt(i, IntT(int64(t.val))), Select(t.args[0], i), Select(t.args[1], i))
				push(Quant("forall", []*Term{i}, Eq(sel, rhs), []*Term{sel}))
			}
		case "cp":
			if quant {
				i := BVar(sBV(64))
				d, dp, s, sp, n := t.args[0], t.args[1], t.args[2], t.args[3], t.args[4]
				off := Sub(i, dp)
				sel := mk("select", "", t.sort.v, 0, 0, 0, t, i)
				rhs := mk("ite", "", t.sort.v, 0, 0, 0, Ult(off, n), Select(s, Add(sp, off)), Select(d, i))
				push(Quant("forall", []*Term{i}, Eq(sel, rhs), []*Term{sel}))
			}
		case "app":
			switch t.name {
			case "slen":
				push(Ult(t, BV(1<<40, 64)))
			case "strOf":
				sl := mk("app", "slen", sBV(64), 0, 0, 0, t)
				push(mk("=", "", sBool, 0, 0, 0, sl, t.args[2]))
				if quant {
					i := BVar(sBV(64))
					bo := App("bytesOf", sArr(sBV(64), sBV(8)), t)
					sel := mk("select", "", sBV(8), 0, 0, 0, bo, i)
					push(Quant("forall", []*Term{i}, Implies(Ult(i, t.args[2]), Eq(sel, Select(t.args[0], Add(t.args[1], i)))), []*Term{sel}))
				}
			case "strcat":
				a, b := t.args[0], t.args[1]
				push(Eq(App("slen", sBV(64), t), Add(App("slen", sBV(64), a), App("slen", sBV(64), b))))
				if quant {
					i := BVar(sBV(64))
					bs := sArr(sBV(64), sBV(8))
					sel := mk("select", "", sBV(8), 0, 0, 0, App("bytesOf", bs, t), i)
					la := App("slen", sBV(64), a)
					push(Quant("forall", []*Term{i}, Eq(sel, Ite(Ult(i, la), Select(App("bytesOf", bs, a), i), Select(App("bytesOf", bs, b), Sub(i, la)))), []*Term{sel}))
				}
			}
		case "=":
			a, b := t.args[0], t.args[1]
			if a.sort == sStr && !(a.op == "strlit" && b.op == "strlit") {
				d := Var(fmt.Sprintf("diff!%d", t.id), sBV(64))
				bs := sArr(sBV(64), sBV(8))
				la, lb := App("slen", sBV(64), a), App("slen", sBV(64), b)
				push(Or(t, Not(Eq(la, lb)), And(Ult(d, la), Not(Eq(Select(App("bytesOf", bs, a), d), Select(App("bytesOf", bs, b), d))))))
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		walk(t)
	}
	if len(ctx.lits) > 1 && len(ctx.lits) > lits0 {
		out = append(out, mk("distinct", "", sBool, 0, 0, 0, append([]*Term{}, ctx.lits...)...))
	}
	return out
}

func (s *Solver) newPrinter(sb *strings.Builder) *printer {
	return &printer{sb, s.defined, s.declV, s.declF, s.declS}
}

// Check runs check-sat on the conjunction. full=false: feasibility (quantifier-free subset).
func (s *Solver) Check(ts []*Term, full bool, timeout int, vals []*Term) (string, []string) {
	var qs []*Term
	for _, t := range ts {
		if t.isFalse() {
			return "unsat", nil
		}
		if t.isTrue() {
			continue
		}
		if !full && t.quant {
			continue
		}
		qs = append(qs, t)
	}
	t0 := time.Now()
	var sb strings.Builder
	p := s.newPrinter(&sb)
	assert := func(ts []*Term) {
		for _, t := range ts {
			p.prep(t)
		}
		for _, t := range ts {
			sb.WriteString("(assert " + p.ref(t) + ")\n")
		}
	}
	// hypotheses stay asserted between queries as long as they are a prefix of the next query's
	var prefix, rest []*Term
	for i, t := range qs {
		if i < len(qs)-1 && !t.quant {
			prefix = append(prefix, t)
		} else {
			rest = append(rest, t)
		}
	}
	common, keep := 0, 0
scan:
	for _, l := range s.levels {
		if common+len(l.terms) > len(prefix) {
			break
		}
		for i, t := range l.terms {
			if prefix[common+i] != t {
				break scan
			}
		}
		common += len(l.terms)
		keep++
	}
	if n := len(s.levels) - keep; n > 0 {
		s.ctx.undo(s.levels[keep])
		s.levels = s.levels[:keep]
		fmt.Fprintf(&sb, "(pop %d)\n", n)
	}
	if delta := prefix[common:]; len(delta) > 0 {
		s.levels = append(s.levels, level{delta, len(s.ctx.log), len(s.ctx.lits)})
		sb.WriteString("(push)\n")
		assert(append(append([]*Term{}, delta...), auxAxiomsIn(&s.ctx, delta, false)...))
	}
	for _, v := range vals {
		p.prep(v)
	}
	sb.WriteString("(push)\n")
	if full {
		all := append(append([]*Term{}, prefix...), rest...)
		all = append(all, s.axioms...)
		assert(append(append(append([]*Term{}, rest...), s.axioms...), auxAxioms(all, true)...))
	} else {
		l := level{nil, len(s.ctx.log), len(s.ctx.lits)}
		aux := auxAxiomsIn(&s.ctx, rest, false)
		s.ctx.undo(l)
		assert(append(append([]*Term{}, rest...), aux...))
	}
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n(check-sat)\n", timeout)
	s.send(sb.String())
	r := s.readResult()
	var out []string
	if strings.HasPrefix(r, "error") {
		fmt.Fprintln(os.Stderr, "solver died:", r)
		s.restart()
		return "unknown", nil
	}
	if r != "unsat" && len(vals) > 0 {
		for _, v := range vals {
			out = append(out, s.getValue(p.ref(v)))
		}
	}
	s.send("(pop)\n")
	d := time.Since(t0)
	if slowLog && d > 400*time.Millisecond {
		x := qs[len(qs)-1].String()
		if len(x) > 300 {
			x = x[:300]
		}
		fmt.Fprintf(os.Stderr, "SLOW %v full=%v %s feasq=%d %s\n", d, full, r, s.FeasQ, x)
	}
	if full {
		s.Queries++
		s.Time += d
	} else {
		s.FeasQ++
		s.FeasTime += d
	}
	return r, out
}

func (s *Solver) getValue(ref string) string {
	s.send("(get-value (" + ref + "))\n(echo \"@@end\")\n")
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "?"
		}
		if strings.Contains(l, "@@end") {
			break
		}
		sb.WriteString(strings.TrimSpace(l))
		sb.WriteByte(' ')
	}
	x := strings.TrimSpace(sb.String())
	if strings.HasPrefix(x, "(error") {
		return "?"
	}
	x = strings.TrimPrefix(x, "(("+ref)
	x = strings.TrimSuffix(x, "))")
	return strings.TrimSpace(x)
}

// Script renders a standalone SMT-LIB query (for fallback solvers and for replay files).
func Script(ts []*Term, axioms []*Term, header string) string {
	all := append([]*Term{}, ts...)
	all = append(all, axioms...)
	all = append(all, auxAxioms(all, true)...)
	var sb strings.Builder
	p := &printer{&sb, map[int]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{"Str": true, "Iface": true, "RVal": true}}
	sb.WriteString(header)
	for _, t := range all {
		p.prep(t)
	}
	for _, t := range all {
		sb.WriteString("(assert " + p.ref(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func runExternal(ctx context.Context, script string, name string, args ...string) string {
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

// Prove: hyps => goal. returns verdict, backend, model values
func (s *Solver) Prove(hyps []*Term, goal *Term, vals []*Term) (string, string, []string) {
	if goal.isTrue() {
		s.ByBack["simplifier"]++
		return "unsat", "simplifier", nil
	}
	goal = skolem(goal)
	if goal.isTrue() {
		s.ByBack["simplifier"]++
		return "unsat", "simplifier", nil
	}
	ts := append(append([]*Term{}, hyps...), Not(goal))
	// quick attempt without quantifiers
	anyq := len(s.axioms) > 0
	for _, h := range ts {
		if h.quant {
			anyq = true
		}
	}
	if anyq && !goal.quant {
		if r, _ := s.Check(ts, false, 1000, nil); r == "unsat" {
			s.ByBack["z3"]++
			return "unsat", "z3", nil
		}
	}
	t := s.Timeout
	if s.quick && t > 2000 {
		t = 2000
	}
	// the incremental solver is given a short while first; solvers that start afresh often do better
	first := t
	if !s.quick && first > 1000 {
		first = 1000
	}
	r, vs := s.Check(ts, true, first, vals)
	if r == "unsat" {
		s.ByBack["z3"]++
		return r, "z3", nil
	}
	if r == "unknown" && !s.quick {
		t0 := time.Now()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if slowLog {
			defer func() {
				x := goal.String()
				if len(x) > 200 {
					x = x[:200]
				}
				fmt.Fprintf(os.Stderr, "SLOWFB %v after %s: %s\n", time.Since(t0), r, x)
			}()
		}
		hdr := strings.Replace(strings.Replace(smtHeader, "(set-option :smt.mbqi false)\n", "", 1), "(set-option :auto_config false)\n", "", 1)
		sc := Script(ts, s.axioms, hdr)
		tmo := s.Timeout / 1000
		if tmo < 2 || s.quick {
			tmo = 2
		}
		type res struct{ r, b string }
		ch := make(chan res, 4)
		go func() { ch <- res{runExternal(ctx, sc, "z3-new", "-in", fmt.Sprintf("-T:%d", tmo)), "z3-mbqi"} }()
		go func() { ch <- res{runExternal(ctx, sc, "z3", "-in", fmt.Sprintf("-T:%d", tmo)), "z3-4.8"} }()
		cv := "(set-logic ALL)\n" + Script(ts, s.axioms, stripOpts(smtHeader))
		go func() {
			ch <- res{runExternal(ctx, cv, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", tmo*1000)), "cvc5"}
		}()
		best := ""
		for i := 0; i < 3; i++ {
			x := <-ch
			if x.r == "unsat" {
				s.Time += time.Since(t0)
				s.ByBack[x.b]++
				return "unsat", x.b, nil
			}
			if x.r == "sat" {
				best = "sat"
				break
			}
		}
		s.Time += time.Since(t0)
		if best == "sat" && r != "sat" {
			return "sat", "", vs
		}
		if first < t {
			if r, vs = s.Check(ts, true, t, vals); r == "unsat" {
				s.ByBack["z3"]++
				return r, "z3", nil
			}
		}
	}
	return r, "", vs
}

func stripOpts(h string) string {
	var out []string
	for _, l := range strings.Split(h, "\n") {
		if !strings.HasPrefix(l, "(set-option") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// quantFacts: what is known of the bound variables of a quantified formula, whatever they are
var quantFacts = map[*Term]*Term{}

// skolem replaces outermost universal quantifiers of a goal by fresh constants
func skolem(g *Term) *Term {
	switch g.op {
	case "quant":
		if g.i == 1 {
			m := map[*Term]*Term{}
			for _, b := range g.bound {
				m[b] = Fresh("sk", b.sort)
			}
			r := Subst(g.args[0], m)
			if f := quantFacts[g]; f != nil {
				r = Implies(Subst(f, m), r)
			}
			return skolem(r)
		}
	case "and":
		var as []*Term
		for _, a := range g.args {
			as = append(as, skolem(a))
		}
		return And(as...)
	case "ite":
		if g.quant {
			return Ite(g.args[0], skolem(g.args[1]), skolem(g.args[2]))
		}
	case "or":
		var as []*Term
		for _, a := range g.args {
			as = append(as, skolem(a))
		}
		return Or(as...)
	}
	return g
}
