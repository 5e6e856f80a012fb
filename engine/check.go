package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var _ = ast.IsExported

// staticLabels lists the literal labels of vEnsures / vCover calls in a harness.
func staticLabels(fn *ssa.Function, name string) []string {
	var out []string
	seen := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cl := ci.Common().StaticCallee()
					if cl != nil && cl.Name() == name && len(ci.Common().Args) > 0 {
						if k, ok := ci.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
							l := constant.StringVal(k.Value)
							if !seen[l] {
								seen[l] = true
								out = append(out, l)
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return out
}

// vacuity turns postconditions that no path reaches into failures.
func vacuity(r *HarnessResult) {
	if r.Err != "" {
		return
	}
	cov := map[string]bool{}
	for _, c := range r.Covers {
		cov[c] = true
	}
	add := func(n, msg string) {
		r.Fails = append(r.Fails, &Failure{Name: n, Kind: "vacuous", Msg: msg, Res: "unreached"})
	}
	if r.Returns == 0 {
		add(r.Decl.Name+": some input reaches the end of the contract", "no path returns: every path ends in a failed obligation or a contradiction")
		return
	}
	for _, l := range staticLabels(r.Decl.fn, "vEnsures") {
		if !cov["ensures "+r.Decl.Name+":"+l] {
			add(r.Decl.Name+": postcondition is reached ["+l+"]", "no feasible path of the current code reaches this postcondition")
		}
	}
	for _, l := range staticLabels(r.Decl.fn, "vCover") {
		if !cov["cover "+l] {
			add(r.Decl.Name+": cover ["+l+"]", "no feasible path of the current code reaches this point")
		}
	}
}

type known struct {
	prop, obl, what string
}

func loadKnown(path, prop string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		i := strings.Index(l, "obligation=\"")
		if i < 0 {
			continue
		}
		r := l[i+len("obligation=\""):]
		j := strings.Index(r, "\"")
		if j < 0 {
			continue
		}
		out = append(out, known{prop, r[:j], strings.TrimSpace(r[j+1:])})
	}
	return out
}

type replayOut struct {
	Property    string                 `json:"property"`
	Harness     string                 `json:"harness"`
	Package     string                 `json:"package"`
	Obligation  string                 `json:"obligation"`
	Verifier    string                 `json:"verifier_output"`
	Where       string                 `json:"where"`
	Failing     map[string]interface{} `json:"failing_input,omitempty"`
	Observed    string                 `json:"observed,omitempty"`
	AllFailed   []string               `json:"all_failed_obligations,omitempty"`
	HowToReplay string                 `json:"how_to_replay"`
	Tried       string                 `json:"replay_attempts,omitempty"`
}

func checkMain(repo, verif, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, "replay_"+prop+"_*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	writeReplay := func(r *replayOut, n int) string {
		r.HowToReplay = "/verif/check.sh " + prop + " (re-verifies); the failing_input lists the arguments of " + r.Harness + " in /verif/contracts/" + prop + " which calls the real functions; /verif/replay.sh FILE runs it natively"
		p := filepath.Join(evDir, fmt.Sprintf("replay_%s_%d.json", prop, n))
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(p, b, 0o644)
		return p
	}
	evidence := func(cov map[string]interface{}, assume []string, viol int) {
		ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
			"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": viol}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evDir, prop+".json"), b, 0o644)
	}
	cmdline := "govc check " + prop + " (symbolic verification-condition generation over go/ssa of /repo's current source; z3-new, z3, cvc5)"
	w, err := Load(repo, prop, verif)
	if err != nil {
		fmt.Println("cannot bind the contracts to the code:", err)
		p := writeReplay(&replayOut{Property: prop, Obligation: "contracts bind to the current source", Verifier: err.Error()}, 0)
		evidence(map[string]interface{}{"obligations": 1, "discharged": 0, "checker_cmd": cmdline, "trusted_base": []string{"none reached"}}, nil, 1)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
		return 1
	}
	stats := &SolverStats{ByTool: map[string]int{}}
	res := make([]*HarnessResult, len(w.harnesses))
	var skipped []string
	if tier == "quick" {
		var hs []*HarnessDecl
		for _, d := range w.harnesses {
			if d.Thorough {
				skipped = append(skipped, d.Name+": proved in the thorough tier only")
			} else {
				hs = append(hs, d)
			}
		}
		w.harnesses = hs
		res = res[:len(hs)]
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	order := make([]int, len(w.harnesses))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return w.harnesses[order[a]].TimeS > w.harnesses[order[b]].TimeS })
	for _, i := range order {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			d := w.harnesses[i]
			lim := time.Duration(d.TimeS) * time.Second
			if left := 640*time.Second - time.Since(t0); lim > left {
				lim = left
			}
			if lim < 20*time.Second {
				lim = 20 * time.Second
			}
			res[i] = RunHarness(w, d, stats, false, lim)
			vacuity(res[i])
		}(i)
	}
	wg.Wait()

	kn := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"), prop)
	knownHit := map[string]bool{}
	type bad struct {
		r *HarnessResult
		f []*Failure
	}
	var bads []bad
	obl, dis, bobl, bdis, triv := 0, 0, 0, 0, 0
	names := map[string]bool{}
	inl, contr, asm, loops := map[string]bool{}, map[string]bool{}, map[string]bool{}, 0
	var hs []interface{}
	var bounded []string
	ensures := 0
	for _, r := range res {
		n, ok := 0, 0
		for _, o := range r.Obl {
			n += o.Checked
			ok += o.Discharged
			triv += o.Trivial
			names[r.Decl.Name+"/"+o.Name] = true
		}
		if r.Bounded {
			bobl += n
			bdis += ok
			bounded = append(bounded, fmt.Sprintf("%s: loops unrolled at most %d times", r.Decl.Name, r.Decl.Bounded))
		} else {
			obl += n
			dis += ok
			if r.Err != "" {
				obl++
			}
		}
		for _, a := range r.Inlined {
			inl[a] = true
		}
		for _, a := range r.Contr {
			contr[a] = true
		}
		for _, a := range r.Assumed {
			asm[a] = true
		}
		loops += r.Loops
		ensures += len(staticLabels(r.Decl.fn, "vEnsures"))
		h := map[string]interface{}{"harness": r.Decl.Name, "package": r.Decl.Dir, "obligations": n, "discharged": ok, "paths": r.Paths,
			"invariant_rounds": r.Rounds, "loops_cut_by_invariant": r.Loops, "seconds": r.Elapsed.Seconds(), "returns_reached": r.Returns, "bounded": r.Bounded}
		if r.Err != "" {
			h["undecided"] = r.Err
		}
		hs = append(hs, h)
		var fs []*Failure
		for _, f := range r.Fails {
			kf := false
			for _, k := range kn {
				if k.obl == f.Name {
					kf = true
					if !knownHit[k.obl] {
						knownHit[k.obl] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
					}
				}
			}
			if !kf {
				fs = append(fs, f)
			}
		}
		if r.Err != "" {
			fs = append(fs, &Failure{Name: r.Decl.Name + ": verified completely", Kind: "undecided", Res: r.Err, Msg: r.Err})
		}
		if len(fs) > 0 {
			bads = append(bads, bad{r, fs})
		}
	}
	replays := 0
	viol := 0
	type vio struct {
		path  string
		input bool
	}
	var vios []vio
	natRuns := 0
	if len(bads) > 0 {
		for _, b := range bads {
			for _, f := range b.f {
				fmt.Printf("FAILED %s: %s (%s) %s\n", b.r.Decl.Name, f.Name, f.Res, f.Trace)
			}
		}
		nat := newNative(repo, verif, prop, w)
		defer nat.close()
		budget := 150 * time.Second
		per := budget / time.Duration(len(bads))
		if per > 30*time.Second {
			per = 30 * time.Second
		}
		if per < 6*time.Second {
			per = 6 * time.Second
		}
		outs := make([]*natResult, len(bads))
		var wg sync.WaitGroup
		nsem := make(chan struct{}, 6)
		for i, b := range bads {
			wg.Add(1)
			go func(i int, b bad) {
				defer wg.Done()
				nsem <- struct{}{}
				defer func() { <-nsem }()
				var ms []map[string]interface{}
				for _, f := range b.f {
					if f.HasMod {
						ms = append(ms, f.Inputs)
					}
				}
				if !b.r.Decl.NoReplay {
					outs[i] = nat.run(b.r.Decl, ms, per, seed)
				}
			}(i, b)
		}
		wg.Wait()
		for i, b := range bads {
			f := b.f[0]
			ro := &replayOut{Property: prop, Harness: b.r.Decl.Name, Package: b.r.Decl.Dir, Obligation: f.Name, Where: f.Trace,
				Verifier: fmt.Sprintf("obligation not discharged: solver answered %q %s", f.Res, f.Msg)}
			for _, g := range b.f {
				ro.AllFailed = append(ro.AllFailed, g.Name)
			}
			in := false
			if o := outs[i]; o != nil {
				natRuns += o.Runs
				ro.Tried = fmt.Sprintf("%d native executions (verifier models first, then random search from them, seed %d); %s", o.Runs, seed, o.Err)
				if o.Found {
					ro.Failing, ro.Observed = o.Inputs, o.Msg
					in = true
				}
			}
			vios = append(vios, vio{writeReplay(ro, i), in})
			replays++
		}
		any := false
		for _, v := range vios {
			if v.input {
				any = true
				viol++
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.path)
			}
		}
		if !any {
			viol++
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, vios[0].path)
		}
	}
	natX := 0
	if tier == "thorough" && viol == 0 {
		// cross-check of the verifier and the contracts: run every harness natively
		nat := newNative(repo, verif, prop, w)
		defer nat.close()
		for i, d := range w.harnesses {
			if d.NoReplay {
				continue
			}
			o := nat.run(d, nil, 20*time.Second, seed+int64(i))
			natX += o.Runs
			if o.Found {
				ro := &replayOut{Property: prop, Harness: d.Name, Package: d.Dir, Obligation: "native execution of the contract", Failing: o.Inputs, Observed: o.Msg,
					Verifier: "all obligations discharged, but a native run violates the contract (verifier defect or assumption violated)"}
				viol++
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, writeReplay(ro, 100+i))
			}
		}
	}
	tb := []string{"govc (verification-condition generator in /verif/engine, over golang.org/x/tools/go/ssa)", "SMT solvers z3-new 4.x, z3 4.8.12, cvc5 1.1.2", "go/types, go/packages front end",
		"Go semantics: machine integers modelled as bit-vectors of their exact width; slices, strings and maps hold fewer than 2^40 elements; allocation never fails; termination of loops is not proved unless stated"}
	for _, a := range sortedKeys(asm) {
		tb = append(tb, a)
	}
	for _, k := range skipped {
		tb = append(tb, k)
	}
	cov := map[string]interface{}{"obligations": obl, "discharged": dis, "checker_cmd": cmdline, "trusted_base": tb,
		"distinct_obligation_names": len(names), "trivially_true_after_simplification": triv, "postconditions_stated": ensures,
		"functions_under_contract": mergeKeys(contr, inl), "loops_cut_by_inferred_or_stated_invariants": loops,
		"solver_queries": stats.Queries, "solver_queries_by_back_end": stats.ByTool, "solver_seconds": stats.Time.Seconds(), "harnesses": hs,
		"bounded_obligations": bobl, "bounded_discharged": bdis, "bounded_checks": bounded, "known_findings_reported": sortedKeys(knownHit),
		"native_cross_check_runs": natX, "native_replay_runs": natRuns}
	evidence(cov, append([]string{}, sortedKeys(asm)...), viol)
	if viol > 0 {
		return 1
	}
	fmt.Printf("property %s: %d obligations discharged (%d bounded) in %d harnesses, %d functions, %.1fs\n", prop, dis, bdis, len(res), len(inl)+len(contr), time.Since(t0).Seconds())
	return 0
}

func mergeKeys(a, b map[string]bool) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedKeys(m)
}

// ---- native replay ----

type natResult struct {
	Found  bool                   `json:"found"`
	Inputs map[string]interface{} `json:"inputs"`
	Msg    string                 `json:"msg"`
	Runs   int                    `json:"runs"`
	Skips  int                    `json:"skips"`
	Err    string
}

type native struct {
	repo, verif, prop string
	w                 *World
	tmp               string
	mu                sync.Mutex
	bins              map[string]string
	errs              map[string]string
}

func newNative(repo, verif, prop string, w *World) *native {
	tmp, err := os.MkdirTemp("", "govc-nat")
	if err != nil {
		tmp = os.TempDir()
	}
	return &native{repo: repo, verif: verif, prop: prop, w: w, tmp: tmp, bins: map[string]string{}, errs: map[string]string{}}
}

func (n *native) close() {
	if strings.Contains(n.tmp, "govc-nat") {
		os.RemoveAll(n.tmp)
	}
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
}

func (n *native) build(dir string) (string, string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[dir]; ok {
		return b, n.errs[dir]
	}
	fail := func(e string) (string, string) {
		n.bins[dir], n.errs[dir] = "", e
		return "", e
	}
	_, ov, err := overlays(n.repo, n.prop, n.verif, true)
	if err != nil {
		return fail(err.Error())
	}
	pkg := pkgNameOf(filepath.Join(n.repo, dir))
	rb, err := os.ReadFile(filepath.Join(n.verif, "contracts", "_api", "runner.txt"))
	if err != nil {
		return fail(err.Error())
	}
	ov[filepath.Join(n.repo, dir, "zz_verif_runner_test.go")] = []byte(strings.ReplaceAll(string(rb), "PKGNAME", pkg))
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nvar vHarnesses = map[string]interface{}{\n", pkg)
	for _, d := range n.w.harnesses {
		if d.Dir == dir {
			fmt.Fprintf(&sb, "\t%q: %s,\n", d.Name, d.Name)
		}
	}
	sb.WriteString("}\n")
	ov[filepath.Join(n.repo, dir, "zz_verif_reg_test.go")] = []byte(sb.String())
	rep := map[string]string{}
	k := 0
	tag := strings.ReplaceAll(dir, "/", "_")
	for dst, b := range ov {
		k++
		p := filepath.Join(n.tmp, fmt.Sprintf("%s_%d.go", tag, k))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return fail(err.Error())
		}
		rep[dst] = p
	}
	// the repository's own tests of the package are not part of the replay binary
	own, _ := filepath.Glob(filepath.Join(n.repo, dir, "*_test.go"))
	for _, f := range own {
		rep[f] = ""
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(n.tmp, tag+".json")
	os.WriteFile(ovf, j, 0o644)
	bin := filepath.Join(n.tmp, tag+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+dir)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fail("native build failed: " + string(out))
	}
	n.bins[dir] = bin
	return bin, ""
}

func (n *native) run(d *HarnessDecl, models []map[string]interface{}, search time.Duration, seed int64) *natResult {
	bin, e := n.build(d.Dir)
	if e != "" {
		return &natResult{Err: e}
	}
	dir, err := os.MkdirTemp(n.tmp, "run")
	if err != nil {
		return &natResult{Err: err.Error()}
	}
	var params []string
	for _, p := range d.fn.Params {
		params = append(params, p.Name())
	}
	if models == nil {
		models = []map[string]interface{}{}
	}
	out := filepath.Join(dir, "out.json")
	cur := filepath.Join(dir, "cur.json")
	req := map[string]interface{}{"harness": d.Name, "params": params, "models": models, "search_s": search.Seconds(), "seed": seed, "out": out, "cur": cur}
	b, _ := json.Marshal(req)
	rq := filepath.Join(dir, "req.json")
	os.WriteFile(rq, b, 0o644)
	cmd := exec.Command("prlimit", "--as=12000000000", bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_REQ="+rq, "GOMEMLIMIT=3GiB", "GOMAXPROCS=2")
	var so strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &so
	if err := cmd.Start(); err != nil {
		return &natResult{Err: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hung := false
	select {
	case <-done:
	case <-time.After(search + 60*time.Second):
		hung = true
		cmd.Process.Kill()
		<-done
	}
	r := &natResult{}
	if rb, err := os.ReadFile(out); err == nil && json.Unmarshal(rb, r) == nil {
		return r
	}
	// the process died (stack overflow, out of memory): the input being run is in cur.json
	if cb, err := os.ReadFile(cur); err == nil && !hung {
		var in map[string]interface{}
		if json.Unmarshal(cb, &in) == nil {
			m := so.String()
			if len(m) > 1500 {
				m = m[:1500]
			}
			return &natResult{Found: true, Inputs: in, Msg: "process died: " + m, Runs: 1}
		}
	}
	return &natResult{Err: "no result from the native run"}
}
