package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var verifDir = "/verif"

// ---- harness files ----

type specFile struct {
	path  string // file in /verif/contracts
	pkg   string // package directory relative to the repository ("." for the root)
	props []string
	names []string // Verif_* and Contract_* functions
	bound map[string]string
}

var reProps = regexp.MustCompile(`(?m)^// verif:properties (.*)$`)
var reFunc = regexp.MustCompile(`(?m)^func ((?:Verif|Contract)_\w+)\(`)
var reBound = regexp.MustCompile(`(?m)^// verif:bounded (\w+) (.*)$`)

func specFiles(prop string) []specFile {
	var out []specFile
	root := filepath.Join(verifDir, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasPrefix(fi.Name(), "verif_") || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		m := reProps.FindSubmatch(b)
		if m == nil {
			return nil
		}
		f := specFile{path: p, props: strings.Fields(string(m[1])), bound: map[string]string{}}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		f.pkg = rel
		if rel == "root" {
			f.pkg = "."
		}
		ok := false
		for _, x := range f.props {
			if x == prop {
				ok = true
			}
		}
		if !ok {
			return nil
		}
		for _, m := range reFunc.FindAllSubmatch(b, -1) {
			f.names = append(f.names, string(m[1]))
		}
		for _, m := range reBound.FindAllSubmatch(b, -1) {
			f.bound[string(m[1])] = string(m[2])
		}
		out = append(out, f)
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out
}

// harnesses of a property: in a file shared by several properties, names with a property infix belong to it alone
func harnessesOf(prop string, fs []specFile) []string {
	var out []string
	re := regexp.MustCompile(`_C\d\d_`)
	for _, f := range fs {
		for _, n := range f.names {
			if m := re.FindString(n); m != "" && m != "_"+prop+"_" {
				continue
			}
			out = append(out, f.pkg+":"+n)
		}
	}
	return out
}

type loaded struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by relative dir
	dropped map[string]string       // spec file -> reason
}

func load(fs []specFile) (*loaded, error) {
	l := &loaded{pkgs: map[string]*ssa.Package{}, dropped: map[string]string{}}
	ghost, err := os.ReadFile(filepath.Join(verifDir, "contracts/verifghost/ghost.go"))
	if err != nil {
		return nil, err
	}
	for {
		ov := map[string][]byte{repoDir + "/verifghost/ghost.go": ghost}
		over := map[string]string{}
		dirs := map[string]bool{}
		for _, f := range fs {
			if l.dropped[f.path] != "" {
				continue
			}
			b, _ := os.ReadFile(f.path)
			t := filepath.Join(repoDir, f.pkg, filepath.Base(f.path))
			ov[t] = b
			over[t] = f.path
			dirs["./"+f.pkg] = true
		}
		var pats []string
		for d := range dirs {
			pats = append(pats, d)
		}
		if len(pats) == 0 {
			return l, nil
		}
		sort.Strings(pats)
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov,
			Env: append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		retry := false
		var fatal string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				fn := er.Pos
				if i := strings.Index(fn, ":"); i >= 0 {
					fn = fn[:i]
				}
				if s, ok := over[fn]; ok && l.dropped[s] == "" {
					l.dropped[s] = er.Msg + " (" + er.Pos + ")"
					retry = true
				} else if strings.HasPrefix(p.PkgPath, modPath) && !ok {
					fatal = er.Error()
				}
			}
		})
		if retry {
			continue
		}
		if fatal != "" {
			return nil, fmt.Errorf("%s", fatal)
		}
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		l.prog = prog
		for _, p := range ps {
			rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
			if rel == "" {
				rel = "."
			}
			l.pkgs[rel] = prog.Package(p.Types)
		}
		return l, nil
	}
}

// ---- running one harness ----

type HResult struct {
	Name     string
	Obls     []*Obligation
	ByBack   map[string]int
	Queries  int
	SolverS  float64
	FeasS    float64
	Inlined  []string
	Summed   []string
	Trusted  []string
	Paths    int
	Steps    int
	Ends     int
	WallS    float64
	Target   string
	Err      string
	Internal bool
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func newEngine(l *loaded, name string) *Engine {
	e := &Engine{patience: 3, prog: l.prog, sol: NewSolver(), tagIDs: map[string]int{}, tagTypes: map[int]types.Type{}, contracts: map[*ssa.Function]*ssa.Function{},
		inlined: map[string]bool{}, summed: map[string]bool{}, trusted: map[string]bool{}, obls: map[string]*Obligation{}, covers: map[string]bool{}, maxPaths: 30000, feasMs: 300,
		name: name, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, invLog: map[string]bool{}, errGlob: map[string]*Term{}, nocontr: map[string]bool{}}
	e.pkgs = l.pkgs
	for _, p := range l.pkgs {
		for n, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "Contract_") {
				continue
			}
			if t := contractTarget(l.prog, fn); t != nil {
				e.contracts[t] = fn
			}
		}
	}
	return e
}

func contractTarget(prog *ssa.Program, fn *ssa.Function) *ssa.Function {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if f, ok := c.Call.Value.(*ssa.Function); !ok || f.Name() != "ContractFor" {
				continue
			}
			v := c.Call.Args[0]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			switch x := v.(type) {
			case *ssa.Function:
				if x.Synthetic != "" && x.Object() != nil {
					if o, ok := x.Object().(*types.Func); ok {
						return prog.FuncValue(o)
					}
				}
				return x
			case *ssa.MakeClosure:
				return x.Fn.(*ssa.Function)
			}
		}
	}
	return nil
}

func coverLabels(fn *ssa.Function) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "Cover" && f.Pkg != nil && f.Pkg.Pkg.Path() == ghostPath {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						out = append(out, constant.StringVal(k.Value))
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		out = append(out, coverLabels(a)...)
	}
	return out
}

func runHarness(l *loaded, full string, dbg bool) (res HResult) {
	t0 := time.Now()
	res.Name = full
	i := strings.Index(full, ":")
	pk, name := full[:i], full[i+1:]
	p := l.pkgs[pk]
	if p == nil {
		res.Err = "package " + pk + " not loaded"
		return
	}
	fn := p.Func(name)
	if fn == nil {
		res.Err = "harness does not compile against this tree"
		for f, why := range l.dropped {
			b, _ := os.ReadFile(f)
			if strings.Contains(string(b), "func "+name+"(") {
				res.Err += ": " + why
			}
		}
		return
	}
	resetFresh()
	e := newEngine(l, name)
	e.debug = dbg
	defer e.sol.Close()
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Sprintf("%v", r)
			res.Internal = true
			if u, ok := r.(unsup); ok {
				res.Err = u.msg
			} else if dbg {
				debug.PrintStack()
			}
		}
		for _, n := range e.order {
			res.Obls = append(res.Obls, e.obls[n])
		}
		res.ByBack = e.sol.ByBack
		res.Queries = e.sol.Queries
		res.SolverS = e.sol.Time.Seconds()
		res.FeasS = e.sol.FeasTime.Seconds()
		res.Inlined, res.Summed, res.Trusted = keys(e.inlined), keys(e.summed), keys(e.trusted)
		res.Paths, res.Steps = e.paths, e.steps
		res.WallS = time.Since(t0).Seconds()
	}()
	st := newState()
	var args []Value
	for _, pr := range fn.Params {
		args = append(args, e.fresh(st, pr.Type(), "in."+pr.Name()))
	}
	fr := e.pushFrame(st, FuncV{fn: fn}, args, func(e *Engine, st *State, vals []Value) { st.result = vals })
	var target *ssa.Function
	if strings.HasPrefix(name, "Contract_") {
		target = contractTarget(l.prog, fn)
		if target == nil {
			res.Err = "contract has no target"
			return
		}
		res.Target = shortFn(target.String())
		fr.verify = target
		e.verifying = target
		st.vrec = &writeRec{mark: freshN, amark: st.alloc, w: map[string]map[*Term]bool{}}
	}
	ends := 0
	e.explore(st, func(s *State) {
		if s.rpanic != nil {
			e.oblige(s, "panic", name+": no panic escapes ("+s.rpanic.msg+")", tFalse)
			return
		}
		ends++
		if len(s.locks) > 0 {
			e.oblige(s, "guard", name+": every lock taken is released", tFalse)
		}
		if target != nil {
			e.checkFrame(s, fr, name)
		}
	})
	res.Ends = ends
	for _, c := range coverLabels(fn) {
		if !e.covers[name+": "+c] {
			e.record(st, "vacuity", name+": reachable: "+c, "failed", "", "no execution reaches this point", "")
		} else {
			e.record(st, "vacuity", name+": reachable: "+c, "proved", "", "", "")
		}
	}
	if len(e.obls) == 0 {
		e.record(st, "vacuity", name+": generates obligations", "failed", "", "no obligation generated", "")
	}
	return
}

func (e *Engine) checkFrame(s *State, fr *Frame, name string) {
	mods := s.retMods
	for k, refs := range s.vrec.w {
		if strings.HasPrefix(k, "spos") || strings.HasPrefix(k, "iter") {
			continue
		}
		for r := range refs {
			if r == refFresh {
				continue
			}
			ok := false
			var eqs []*Term
			for _, m := range mods {
				if m.key != k {
					continue
				}
				if m.ref == nil || m.ref == r {
					ok = true
					break
				}
				if r != refAny {
					eqs = append(eqs, Eq(m.ref, r))
				}
			}
			if ok {
				continue
			}
			if r == refAny {
				e.oblige(s, "frame", name+": modifies only what its contract lists ("+k+")", tFalse)
				continue
			}
			eqs = append(eqs, ILe(IntT(s.vrec.amark), r))
			e.oblige(s, "frame", name+": modifies only what its contract lists ("+k+")", Or(eqs...))
		}
	}
}

// ---- worker ----

func worker(prop string) {
	fs := specFiles(prop)
	l, err := load(fs)
	enc := json.NewEncoder(os.Stdout)
	if err != nil {
		enc.Encode(HResult{Name: "load", Err: err.Error()})
		return
	}
	enc.Encode(HResult{Name: "ready"})
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		enc.Encode(runHarness(l, sc.Text(), false))
	}
}

type workerProc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	dec *json.Decoder
}

func startWorker(prop string) (*workerProc, string) {
	c := exec.Command(os.Args[0], "-prop", prop, "-repo", repoDir, "-verif", verifDir, "worker")
	c.Stderr = os.Stderr
	c.Env = append(os.Environ(), "GOMAXPROCS=2")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		return nil, err.Error()
	}
	w := &workerProc{c, bufio.NewWriter(in), json.NewDecoder(bufio.NewReader(out))}
	var r HResult
	if err := w.dec.Decode(&r); err != nil {
		return nil, "worker: " + err.Error()
	}
	if r.Name == "load" {
		return nil, r.Err
	}
	return w, ""
}

func (w *workerProc) run(h string, limit time.Duration) HResult {
	fmt.Fprintln(w.in, h)
	w.in.Flush()
	ch := make(chan HResult, 1)
	go func() {
		var r HResult
		if err := w.dec.Decode(&r); err != nil {
			r = HResult{Name: h, Err: "verifier process failed: " + err.Error(), Internal: true}
		}
		ch <- r
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(limit):
		w.cmd.Process.Kill()
		r := <-ch
		r.Name = h
		r.Err = fmt.Sprintf("time limit of %v exceeded", limit)
		r.Internal = true
		return r
	}
}

func runAll(prop string, hs []string, limit time.Duration, jobs int) ([]HResult, string) {
	q := make(chan string, len(hs))
	for _, h := range hs {
		q <- h
	}
	close(q)
	var mu sync.Mutex
	var out []HResult
	loadErr := ""
	var wg sync.WaitGroup
	if jobs > len(hs) {
		jobs = len(hs)
	}
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, er := startWorker(prop)
			if er != "" {
				mu.Lock()
				loadErr = er
				mu.Unlock()
				return
			}
			defer func() { w.cmd.Process.Kill(); w.cmd.Wait() }()
			for h := range q {
				r := w.run(h, limit)
				mu.Lock()
				out = append(out, r)
				mu.Unlock()
				if r.Internal {
					w.cmd.Process.Kill()
					w.cmd.Wait()
					var er string
					w2, er := startWorker(prop)
					if er != "" {
						return
					}
					w = w2
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out, loadErr
}

// ---- evidence and verdict ----

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	one := flag.String("h", "", "run harnesses whose name contains this, with debug output")
	jobs := flag.Int("j", 8, "parallel verifier processes")
	flag.Parse()
	_ = token.NoPos
	switch flag.Arg(0) {
	case "worker":
		worker(*prop)
		return
	case "debug":
		fs := specFiles(*prop)
		l, err := load(fs)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		for f, w := range l.dropped {
			fmt.Println("dropped", f, w)
		}
		for _, h := range harnessesOf(*prop, fs) {
			if *one != "" && !strings.Contains(h, *one) {
				continue
			}
			r := runHarness(l, h, true)
			fmt.Printf("== %s paths=%d steps=%d ends=%d wall=%.1fs solver=%.1fs feas=%.1fs queries=%d err=%q back=%v\n", r.Name, r.Paths, r.Steps, r.Ends, r.WallS, r.SolverS, r.FeasS, r.Queries, r.Err, r.ByBack)
			for _, o := range r.Obls {
				if o.Status != "proved" || os.Getenv("GOV_ALL") != "" {
					fmt.Printf("   %-10s %-8s x%d %s  [%s %s]\n", o.Status, o.Kind, o.Count, o.Name, o.Func, o.Pos)
					if o.Model != "" {
						fmt.Println("        ", o.Model)
					}
				}
			}
		}
		return
	case "ssa":
		fs := specFiles(*prop)
		l, err := load(fs)
		if err != nil {
			fmt.Println(err)
			return
		}
		for fn := range ssautil.AllFunctions(l.prog) {
			if strings.HasSuffix(fn.String(), *one) && strings.Contains(fn.String(), modPath) {
				fn.WriteTo(os.Stdout)
			}
		}
		return
	}
	os.Exit(check(*prop, *tier, *jobs))
}
