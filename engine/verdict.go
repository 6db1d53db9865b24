package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type finding struct{ key, text string }

// knownFindings: lines "finding: property=<id> obligation=<text> :: <what fails>" ; "fixed:" lines suppress nothing
func knownFindings(prop string) []finding {
	var out []finding
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	re := regexp.MustCompile(`^finding: property=(\S+) obligation="([^"]*)" :: (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out = append(out, finding{m[2], m[3]})
		}
	}
	return out
}

var reAssume = regexp.MustCompile(`(?m)^// verif:assumes (.*)$`)

func specAssumptions(fs []specFile) []string {
	var out []string
	for _, f := range fs {
		b, _ := os.ReadFile(f.path)
		for _, m := range reAssume.FindAllSubmatch(b, -1) {
			out = append(out, string(m[1]))
		}
	}
	return out
}

// witness: concrete Go tests that try to exhibit a violation on the real code
type witnessRun struct {
	ran    bool
	failed bool
	built  bool
	out    string
	cmd    string
	wall   float64
}

func runWitness(prop, tier string) witnessRun {
	t0 := time.Now()
	var w witnessRun
	root := filepath.Join(verifDir, "witness", prop)
	over := map[string]string{}
	pkgs := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		if rel == "root" {
			rel = "."
		}
		over[filepath.Join(repoDir, rel, "zz_verif_"+strings.ToLower(prop)+"_"+filepath.Base(p))] = p
		pkgs["./"+rel] = true
		return nil
	})
	if len(pkgs) == 0 {
		return w
	}
	w.ran = true
	tmp, err := os.MkdirTemp("", "verifw")
	if err != nil {
		w.out = err.Error()
		return w
	}
	defer os.RemoveAll(tmp)
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": over})
	os.WriteFile(ov, b, 0644)
	keep := filepath.Join(verifDir, "replay", prop+"-overlay.json")
	os.MkdirAll(filepath.Dir(keep), 0755)
	os.WriteFile(keep, b, 0644)
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		to := "100s"
		args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", to, "-run", "^TestWitness" + prop}
		if b, _ := os.ReadFile(filepath.Join(root, "race")); b != nil || fileExists(filepath.Join(root, "race")) {
			args = append(args, "-race")
		}
		args = append(args, p)
		c := exec.Command("go", args...)
		c.Dir = repoDir
		c.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "VERIF_TIER="+tier)
		o, err := c.CombinedOutput()
		s := string(o)
		if len(s) > 20000 {
			s = s[:10000] + "\n...\n" + s[len(s)-10000:]
		}
		w.out += s
		if err != nil {
			if strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]") {
				continue
			}
			w.built = true
			w.failed = true
			w.cmd = "cd " + repoDir + " && go test -overlay " + keep + " -vet=off -count=1 -run '^TestWitness" + prop + "' " + p
		} else {
			w.built = true
		}
	}
	w.wall = time.Since(t0).Seconds()
	return w
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }

func check(prop, tier string, jobs int) int {
	t0 := time.Now()
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	fs := specFiles(prop)
	hs := harnessesOf(prop, fs)
	if len(hs) == 0 {
		fmt.Println("no specification for", prop)
		return 2
	}
	limit := 360 * time.Second
	if tier == "thorough" {
		limit = 700 * time.Second
	}
	rs, loadErr := runAll(prop, hs, limit, jobs)
	// a second attempt at what timed out or crashed
	type fail struct{ h, name, status, detail string }
	var fails []fail
	if loadErr != "" {
		fails = append(fails, fail{"", "the specification loads against this tree", "unsupported", loadErr})
	}
	obl, dis := 0, 0
	names := 0
	by := map[string]int{}
	var queries, paths int
	var solver float64
	fun := map[string]bool{}
	contracts := map[string]bool{}
	trusted := map[string]bool{}
	lib := map[string]bool{}
	var samples []map[string]interface{}
	bounded := map[string]string{}
	for _, f := range fs {
		for k, v := range f.bound {
			bounded[k] = v
		}
	}
	ran := map[string]bool{}
	for _, r := range rs {
		ran[r.Name] = true
		if r.Err != "" {
			fails = append(fails, fail{r.Name, r.Name + " can be verified", "unsupported", r.Err})
		}
		for _, o := range r.Obls {
			names++
			obl += o.Count
			if o.Status == "proved" {
				dis += o.Count
			} else {
				dis += o.Count - 1
				d := o.Detail
				if o.Model != "" {
					d += "\ncounterexample: " + o.Model
				}
				fails = append(fails, fail{r.Name, o.Name, o.Status, o.Func + " " + o.Pos + "\n" + d})
			}
		}
		for k, v := range r.ByBack {
			by[k] += v
		}
		queries += r.Queries
		paths += r.Paths
		solver += r.SolverS + r.FeasS
		for _, x := range r.Inlined {
			if strings.Contains(x, modPath) {
				if !strings.Contains(x, "Verif_") && !strings.Contains(x, "Contract_") {
					fun[shortFn(x)] = true
				}
			} else {
				lib[x] = true
			}
		}
		for _, x := range r.Summed {
			contracts[x] = true
			fun[x] = true
		}
		if r.Target != "" {
			contracts[r.Target] = true
			fun[r.Target] = true
		}
		for _, x := range r.Trusted {
			trusted[x] = true
		}
		n := 0
		for _, o := range r.Obls {
			if o.Status == "proved" && o.Kind != "vacuity" && n < 2 && len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"obligation": o.Name, "at": o.Pos, "instances": o.Count, "by": o.By})
				n++
			}
		}
	}
	for _, h := range hs {
		if !ran[h] && loadErr == "" {
			fails = append(fails, fail{h, h + " was run", "unsupported", "no result"})
		}
	}
	if loadErr != "" && len(rs) == 0 {
		fails = fails[:1]
	}
	kf := knownFindings(prop)
	var real []fail
	hit := map[string]bool{}
	for _, f := range fails {
		known := false
		for _, k := range kf {
			if strings.Contains(f.name, k.key) && f.status != "unsupported" {
				known = true
				hit[k.text] = true
			}
		}
		if !known {
			real = append(real, f)
		}
	}
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		_ = hit
	}
	var wit witnessRun
	if len(real) > 0 || tier == "thorough" {
		wit = runWitness(prop, tier)
	}
	code := 0
	replay := filepath.Join(verifDir, "replay", prop+".txt")
	os.MkdirAll(filepath.Dir(replay), 0755)
	os.Remove(replay)
	if len(real) > 0 || wit.failed {
		code = 1
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d obligation(s) not discharged against the current /repo\n", prop, len(real))
		for _, f := range real {
			fmt.Fprintf(&sb, "\n[%s] %s\n  harness %s\n  %s\n", f.status, f.name, f.h, strings.ReplaceAll(trunc(f.detail, 4000), "\n", "\n  "))
		}
		if wit.ran {
			if wit.failed {
				fmt.Fprintf(&sb, "\nReplayed against the real code; failing input found.\nre-run: %s\n%s\n", wit.cmd, wit.out)
			} else {
				fmt.Fprintf(&sb, "\nReplay against the real code found no failing input.\n%s\n", trunc(wit.out, 3000))
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
		for i, f := range real {
			if i >= 10 {
				fmt.Printf("... and %d more\n", len(real)-10)
				break
			}
			fmt.Printf("not discharged [%s]: %s\n    %s\n", f.status, f.name, strings.ReplaceAll(trunc(f.detail, 600), "\n", "\n    "))
		}
		if wit.failed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	}
	level := "proof"
	var tb []string
	for k := range trusted {
		tb = append(tb, "contract of "+k)
	}
	sort.Strings(tb)
	tb = append(tb, "the verification-condition generator in /verif/engine (symbolic execution of go/ssa)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "go/ssa from golang.org/x/tools v0.52.0")
	tb = append(tb, specAssumptions(fs)...)
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis, "named_obligations": names,
		"checker_cmd":              "/verif/check.sh " + prop + " " + tier,
		"trusted_base":             tb,
		"functions_under_contract": keys(fun),
		"contracts_used":           keys(contracts),
		"library_code_verified_inline": keys(lib),
		"discharged_by":            by,
		"solver_queries":           queries,
		"solver_s":                 round2(solver),
		"paths":                    paths,
		"harnesses":                len(hs),
		"samples":                  samples,
	}
	if len(bounded) > 0 {
		cov["bounded"] = bounded
	}
	if wit.ran {
		cov["replay_on_real_code"] = map[string]interface{}{"ran": true, "failed": wit.failed, "built": wit.built, "wall_s": round2(wit.wall)}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round2(time.Since(t0).Seconds())}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s %s: %d of %d obligations discharged over %d harnesses, %d functions, %d solver queries, %.1fs\n", prop, tier, dis, obl, len(hs), len(fun), queries, time.Since(t0).Seconds())
	return code
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func round2(f float64) float64 { return float64(int(f*100)) / 100 }
