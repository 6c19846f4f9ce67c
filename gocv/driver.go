package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"text/template"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ProofCfg is one group of contracts: a spec file, the packages it speaks about and the functions to verify.
type ProofCfg struct {
	Spec     string   `json:"spec"`
	Pkgs     []string `json:"pkgs"`
	Dialects []string `json:"dialects"`
	Roots    []string `json:"roots"` // function names as in the spec; empty: all
	Exclude  []string `json:"exclude"`
	Need     []string `json:"need"`   // functions that must exist (the others are verified where the code has them)
	Kinds    []string `json:"kinds"`  // obligation kinds; empty: all
	Labels   []string `json:"labels"` // ensures clauses by label; empty: all
	Not      []string `json:"not"`    // obligation kinds left to another property
	Timeout  int      `json:"timeout"`
}

// WitnessCfg is one concrete harness compiled into a package of /repo through an overlay.
type WitnessCfg struct {
	Pkg      string   `json:"pkg"`
	Tmpl     []string `json:"tmpl"`
	Dialects []string `json:"dialects"`
	Run      string   `json:"run"`
	Seconds  int      `json:"seconds"` // quick budget per process
	What     string   `json:"what"`
}

type PropCfg struct {
	Level       string       `json:"level"`
	Proof       []ProofCfg   `json:"proof"`
	Witness     []WitnessCfg `json:"witness"`
	Assumptions []string     `json:"assumptions"`
	Trusted     []string     `json:"trusted"`
	Bounded     []string     `json:"bounded"`
}

type KnownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"` // witness key or obligation name
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type witnessHit struct {
	Key  string `json:"key"`
	Text string `json:"text"`
	src  string
}

type oblOut struct {
	Name     string  `json:"name"`
	Pos      string  `json:"pos,omitempty"`
	Dialect  string  `json:"dialect,omitempty"`
	Backend  string  `json:"backend"`
	Seconds  float64 `json:"seconds"`
	Why      string  `json:"why,omitempty"`
	Desc     string  `json:"desc,omitempty"`
	query    string
	ok       bool
	unsupped bool
}

type fnOut struct {
	Fn          string  `json:"fn"`
	Dialect     string  `json:"dialect,omitempty"`
	Obligations int     `json:"obligations"`
	Discharged  int     `json:"discharged"`
	Loops       int     `json:"loops"`
	Seconds     float64 `json:"seconds"`
	Note        string  `json:"note,omitempty"`
}

type proofOut struct {
	obls    []oblOut
	fns     []fnOut
	externs map[string]bool
	inlined map[string]bool
	fatal   []string
	notes   []string
}

func runCheck(repo, vdir, prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var cfg map[string]*PropCfg
	b, err := os.ReadFile(filepath.Join(vdir, "specs/props.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfg)
	}
	if err != nil {
		fmt.Println("specs/props.json:", err)
		return 2
	}
	pc := cfg[prop]
	if pc == nil {
		fmt.Println("no such property:", prop)
		return 2
	}
	var known []KnownFinding
	if b, err := os.ReadFile(filepath.Join(vdir, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("known-findings.json:", err)
			return 2
		}
	}
	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)

	verifyDeadline = t0.Add(360 * time.Second)
	if tier == "thorough" {
		verifyDeadline = t0.Add(1800 * time.Second)
	}
	var po *proofOut
	var wo *witnessOut
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); po = runProofs(repo, vdir, pc) }()
	go func() { defer wg.Done(); wo = runWitnesses(repo, vdir, scratch, prop, tier, seed, pc) }()
	wg.Wait()

	// verdict
	evdir := filepath.Join(vdir, "evidence")
	rdir := filepath.Join(evdir, "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	isKnown := func(key string) *KnownFinding {
		for i, k := range known {
			if k.Property == prop && k.Fixed == "" && k.Key == key {
				return &known[i]
			}
		}
		return nil
	}
	printed := map[string]bool{}
	finding := func(k *KnownFinding) {
		if !printed[k.Key] {
			printed[k.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	violations := 0
	var fails []oblOut
	knownFail := 0
	for _, o := range po.obls {
		if o.ok {
			continue
		}
		if k := isKnown("obligation " + o.Name); k != nil {
			finding(k)
			knownFail++
			continue
		}
		fails = append(fails, o)
	}
	var hits []witnessHit
	for _, h := range wo.hits {
		if k := isKnown(h.Key); k != nil {
			finding(k)
			continue
		}
		hits = append(hits, h)
	}
	var rep strings.Builder
	for _, f := range po.fatal {
		fmt.Fprintf(&rep, "verification could not run: %s\n", f)
	}
	for _, o := range fails {
		fmt.Fprintf(&rep, "failed obligation: %s %s\n  at %s\n  %s\n  verifier: %s\n", o.Dialect, o.Name, o.Pos, o.Desc, o.Why)
		if o.query != "" {
			fmt.Fprintf(&rep, "  query:\n%s\n", cut(o.query, 20000))
		}
	}
	if len(hits) > 0 {
		violations += len(hits)
		seen := map[string]bool{}
		n := 0
		for _, h := range hits {
			if seen[h.src+h.Key] || n >= 5 {
				continue
			}
			seen[h.src+h.Key] = true
			n++
			p := filepath.Join(rdir, fmt.Sprintf("%s-%d.txt", prop, n))
			os.WriteFile(p, []byte(fmt.Sprintf("property %s\nharness %s (VERIF_SEED=%d)\nfailing case: %s\n\n%s\n\nfailed obligations of the same run:\n%s", prop, h.src, seed, h.Key, h.Text, rep.String())), 0o644)
			fmt.Printf("%s\n", firstLines(h.Key+": "+h.Text, 12))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
	} else if len(fails) > 0 || len(po.fatal) > 0 {
		violations += len(fails) + len(po.fatal)
		p := filepath.Join(rdir, prop+"-obligation.txt")
		os.WriteFile(p, []byte(fmt.Sprintf("property %s\nre-run: cd /verif && ./check.sh %s %s\n\n%s", prop, prop, tier, rep.String())), 0o644)
		for i, o := range fails {
			if i < 5 {
				fmt.Printf("failed obligation %s %s at %s: %s\n", o.Dialect, o.Name, o.Pos, cut(o.Why, 200))
			}
		}
		for _, f := range po.fatal {
			fmt.Println(cut(f, 300))
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
	}

	writeEvidence(evdir, prop, tier, seed, pc, po, wo, len(fails), knownFail, violations, time.Since(t0).Seconds())
	n, d := len(po.obls), 0
	for _, o := range po.obls {
		if o.ok {
			d++
		}
	}
	fmt.Printf("%s: %d/%d obligations discharged over %d functions, %d concrete cases, %.0fs\n", prop, d, n, len(po.fns), wo.cases, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = append(ls[:n], "...")
	}
	return cut(strings.Join(ls, "\n"), 3000)
}

func writeEvidence(evdir, prop, tier string, seed int, pc *PropCfg, po *proofOut, wo *witnessOut, fails, known, violations int, wall float64) {
	disch := 0
	back := map[string]int{}
	secs := 0.0
	for _, o := range po.obls {
		if o.ok {
			disch++
			back[o.Backend]++
		}
		secs += o.Seconds
	}
	trusted := append([]string{"gocv (the contract verifier in /verif/gocv: Go SSA front end golang.org/x/tools/go/ssa, symbolic executor, loop summarisation, simplifier)", "SMT solvers z3 and cvc5", "Go compiler and runtime semantics as modelled by gocv"}, pc.Trusted...)
	var ext []string
	for e := range po.externs {
		ext = append(ext, e)
	}
	sort.Strings(ext)
	for _, e := range ext {
		trusted = append(trusted, "assumed contract: "+e)
	}
	var inl []string
	for e := range po.inlined {
		inl = append(inl, e)
	}
	sort.Strings(inl)
	assume := append([]string{"machine integers are treated as mathematical integers"}, pc.Assumptions...)
	assume = append(assume, po.notes...)
	cov := map[string]any{
		"functions":             po.fns,
		"inlined_functions":     inl,
		"by_back_end":           back,
		"solver_seconds":        secs,
		"bounded_not_proved":    pc.Bounded,
		"concrete_cases":        wo.cases,
		"concrete_harnesses":    wo.stats,
		"samples":               wo.samples,
		"known_failing":         known,
		"undischarged":          fails,
		"unsupported_or_absent": po.fatal,
	}
	if pc.Level == "proof" {
		cov["obligations"] = len(po.obls)
		cov["discharged"] = disch
		cov["checker_cmd"] = "./check.sh " + prop + " " + tier
		cov["trusted_base"] = trusted
	} else {
		cov["obligations"] = len(po.obls)
		cov["discharged"] = disch
		cov["evaluations"] = wo.cases
		cov["distinct_nontrivial"] = wo.distinct
		cov["rule"] = strings.Join(wo.rules, "; ")
		cov["explanation"] = strings.Join(pc.Bounded, "; ")
		cov["trusted_base"] = trusted
	}
	if wo.samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": pc.Level, "coverage": cov, "assumptions": assume, "wall_s": wall, "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, prop+".json"), append(b, '\n'), 0o644)
}

// ---- proofs

func match(list []string, name string) bool {
	for _, r := range list {
		if strings.HasSuffix(name, "."+r) {
			return true
		}
	}
	return false
}

func runProofs(repo, vdir string, pc *PropCfg) *proofOut {
	out := &proofOut{externs: map[string]bool{}, inlined: map[string]bool{}}
	type job struct {
		pr  *Prog
		m   *Module
		sp  *FuncSpec
		cfg ProofCfg
		d   string
		res *RootResult
	}
	var jobs []*job
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, p := range pc.Proof {
		ds := p.Dialects
		if len(ds) == 0 {
			ds = []string{""}
		}
		for _, d := range ds {
			p, d := p, d
			wg.Add(1)
			go func() {
				defer wg.Done()
				var pats []string
				for _, q := range p.Pkgs {
					pats = append(pats, pkgPattern(strings.ReplaceAll(q, "{d}", d)))
				}
				pr, err := Load(repo, pats)
				if err != nil {
					mu.Lock()
					out.fatal = append(out.fatal, fmt.Sprintf("loading %s: %v", strings.Join(pats, " "), err))
					mu.Unlock()
					return
				}
				m := NewModule(p.Spec + d)
				if err := LoadSpec(pr, m, filepath.Join(vdir, "specs", p.Spec), map[string]string{"dialect": d}); err != nil {
					mu.Lock()
					out.fatal = append(out.fatal, fmt.Sprintf("contracts %s %s: %v", p.Spec, d, err))
					mu.Unlock()
					return
				}
				for _, n := range m.order {
					sp := m.funcs[n]
					if sp.trusted || sp.noroot || sp.inline || len(p.Roots) > 0 && !match(p.Roots, n) || match(p.Exclude, n) {
						continue
					}
					mu.Lock()
					if pr.fns[n] == nil || !sp.matches(pr.fns[n]) {
						if match(p.Need, n) {
							out.fatal = append(out.fatal, fmt.Sprintf("%s: the function the contract is about is not in the source", n))
						} else {
							out.notes = append(out.notes, fmt.Sprintf("%s: not in the current source; its callers are verified without its contract", shortName(n)))
						}
					} else {
						jobs = append(jobs, &job{pr: pr, m: m, sp: sp, cfg: p, d: d})
					}
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
	// the long ones first
	sort.SliceStable(jobs, func(i, j int) bool {
		a, b := jobs[i], jobs[j]
		sa, sb := fnSize(a.pr.fns[a.sp.name]), fnSize(b.pr.fns[b.sp.name])
		if sa != sb {
			return sa > sb
		}
		return a.d+a.sp.name < b.d+b.sp.name
	})
	sem := make(chan bool, 8)
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			to := j.cfg.Timeout
			if to == 0 {
				to = 60
			}
			j.res = VerifyRoot(j.pr, j.m, j.sp, time.Duration(to)*time.Second, func(o *Obl) bool {
				if hasStr(j.cfg.Not, o.kind) {
					return false
				}
				if len(j.cfg.Kinds) > 0 && !hasStr(j.cfg.Kinds, o.kind) && o.kind != "cover" {
					return false
				}
				if o.kind == "ensures" && len(j.cfg.Labels) > 0 {
					for _, l := range j.cfg.Labels {
						if strings.HasPrefix(o.id, "ensures:"+l+"@") {
							return true
						}
					}
					return false
				}
				return true
			})
		}()
	}
	wg.Wait()
	for _, j := range jobs {
		r := j.res
		fo := fnOut{Fn: shortName(r.fn), Dialect: j.d, Loops: r.loops, Seconds: r.dur.Seconds()}
		if r.unsup != "" {
			fo.Note = r.unsup
			out.obls = append(out.obls, oblOut{Name: shortName(r.fn) + "/supported", Dialect: j.d, Why: "outside the verifier's reach: " + r.unsup})
			fo.Obligations++
		}
		for _, o := range r.obls {
			if o.res == nil {
				continue
			}
			fo.Obligations++
			x := oblOut{Name: o.name(), Pos: o.pos, Dialect: j.d, Backend: o.res.how, Seconds: o.res.dur.Seconds(), Desc: o.desc, ok: o.res.ok != o.expectSat}
			if x.ok {
				fo.Discharged++
			} else {
				x.Why, x.query = o.res.why, o.res.query
				x.Desc += "\n  goal " + o.goal.str(9)
			}
			out.obls = append(out.obls, x)
		}
		for _, e := range r.externs {
			out.externs[shortName(e)] = true
		}
		for _, e := range r.inlined {
			out.inlined[shortName(e)] = true
		}
		out.fns = append(out.fns, fo)
	}
	return out
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- concrete harnesses

type witnessStat struct {
	Harness  string         `json:"harness"`
	Cases    int            `json:"cases"`
	Distinct int            `json:"distinct"`
	Rule     string         `json:"rule"`
	Note     string         `json:"note,omitempty"`
	Detail   map[string]int `json:"detail,omitempty"`
	Samples  []string       `json:"samples,omitempty"`
}

type witnessOut struct {
	hits     []witnessHit
	stats    []witnessStat
	cases    int
	distinct int
	rules    []string
	samples  []string
}

func runWitnesses(repo, vdir, scratch, prop, tier string, seed int, pc *PropCfg) *witnessOut {
	out := &witnessOut{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i, w := range pc.Witness {
		ds := w.Dialects
		if len(ds) == 0 {
			ds = []string{""}
		}
		for _, d := range ds {
			i, w, d := i, w, d
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				hits, st := runWitness(repo, vdir, filepath.Join(scratch, fmt.Sprintf("w%d%s", i, d)), prop, tier, seed, w, d)
				mu.Lock()
				defer mu.Unlock()
				out.hits = append(out.hits, hits...)
				out.stats = append(out.stats, st)
				out.cases += st.Cases
				out.distinct += st.Distinct
				if st.Rule != "" && !hasStr(out.rules, st.Rule) {
					out.rules = append(out.rules, st.Rule)
				}
				if len(out.samples) < 6 && len(st.Samples) > 0 {
					out.samples = append(out.samples, st.Samples[:1]...)
				}
			}()
		}
	}
	wg.Wait()
	sort.Slice(out.stats, func(i, j int) bool { return out.stats[i].Harness < out.stats[j].Harness })
	sort.SliceStable(out.hits, func(i, j int) bool { return out.hits[i].src+out.hits[i].Key < out.hits[j].src+out.hits[j].Key })
	return out
}

func runWitness(repo, vdir, dir, prop, tier string, seed int, w WitnessCfg, d string) ([]witnessHit, witnessStat) {
	pkg := strings.ReplaceAll(w.Pkg, "{d}", d)
	name := strings.TrimSuffix(filepath.Base(w.Tmpl[len(w.Tmpl)-1]), ".go.tmpl")
	st := witnessStat{Harness: name + " in " + pkg}
	os.MkdirAll(dir, 0o755)
	fail := func(f string, a ...any) ([]witnessHit, witnessStat) {
		st.Note = "not run: " + cut(fmt.Sprintf(f, a...), 1500)
		fmt.Printf("note: harness %s %s\n", st.Harness, st.Note)
		return nil, st
	}
	rep := map[string]string{}
	for i, t := range w.Tmpl {
		b, err := os.ReadFile(filepath.Join(vdir, "witness", t))
		if err != nil {
			return fail("%v", err)
		}
		tp, err := template.New(t).Delims("<<", ">>").Parse(string(b))
		if err != nil {
			return fail("%v", err)
		}
		var buf bytes.Buffer
		if err := tp.Execute(&buf, map[string]string{"dialect": d, "prop": prop, "pkgname": pkgClause(filepath.Join(repo, pkg))}); err != nil {
			return fail("%v", err)
		}
		src := filepath.Join(dir, fmt.Sprintf("h%d.go", i))
		os.WriteFile(src, buf.Bytes(), 0o644)
		rep[filepath.Join(repo, pkg, fmt.Sprintf("zz_verif_%d_test.go", i))] = src
	}
	// the repository's own tests are not part of the harness
	if es, err := os.ReadDir(filepath.Join(repo, pkg)); err == nil {
		for _, e := range es {
			if strings.HasSuffix(e.Name(), "_test.go") {
				rep[filepath.Join(repo, pkg, e.Name())] = ""
			}
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	secs := w.Seconds
	if secs == 0 {
		secs = 20
	}
	if tier == "thorough" {
		secs *= 6
	}
	env := witnessEnv()
	bin := filepath.Join(dir, "harness.test")
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	build := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+pkg)
	build.Dir, build.Env = repo, env
	if o, err := build.CombinedOutput(); err != nil {
		return fail("does not build against the current source: %v\n%s", err, o)
	}
	work := filepath.Join(dir, "work")
	os.MkdirAll(work, 0o755)
	resf := filepath.Join(dir, "result.jsonl")
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(secs+120)*time.Second)
	defer cancel2()
	run := exec.CommandContext(ctx2, bin, "-test.run", "^"+w.Run+"$", "-test.timeout", fmt.Sprintf("%ds", secs+100))
	run.Dir = work
	run.Env = append(env, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_SECONDS=%d", secs), "VERIF_TIER="+tier, "VERIF_OUT="+resf, "VERIF_PROP="+prop, "VERIF_WORK="+work, "GOMEMLIMIT=3GiB")
	run.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	run.Cancel = func() error { return syscall.Kill(-run.Process.Pid, syscall.SIGKILL) }
	o, rerr := run.CombinedOutput()
	var hits []witnessHit
	done := false
	cur := ""
	rb, _ := os.ReadFile(resf)
	for _, line := range strings.Split(string(rb), "\n") {
		if line == "" {
			continue
		}
		var rec struct {
			Kind     string
			Key      string
			Text     string
			Cases    int
			Distinct int
			Rule     string
			Detail   map[string]int
			Samples  []string
		}
		if json.Unmarshal([]byte(line), &rec) != nil {
			continue
		}
		switch rec.Kind {
		case "hit":
			hits = append(hits, witnessHit{Key: d + " " + rec.Key, Text: rec.Text, src: st.Harness})
		case "cur":
			cur = rec.Text
		case "done":
			done = true
			st.Cases, st.Distinct, st.Rule, st.Detail, st.Samples = rec.Cases, rec.Distinct, rec.Rule, rec.Detail, rec.Samples
		}
	}
	if !done && len(hits) == 0 {
		if cb, err := os.ReadFile(resf + ".cur"); err == nil {
			cur = string(cb)
		}
		hits = append(hits, witnessHit{Key: d + " crash", Text: fmt.Sprintf("the program under test ended the harness (%v)\ninput being processed:\n%s\n%s", rerr, cur, cut(string(o), 4000)), src: st.Harness})
	}
	return hits, st
}

// pkgClause reads the package name of a directory's non-test files.
func pkgClause(dir string) string {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		if f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.PackageClauseOnly); err == nil {
			return f.Name.Name
		}
	}
	return filepath.Base(dir)
}

func witnessEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOSUMDB", "PATH":
		default:
			env = append(env, e)
		}
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.23.12/bin/go"); err == nil {
		path = "/opt/veriftools/go1.23.12/bin:" + path
	}
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off")
}

func fnSize(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	return n
}
