package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- harness registry ----

type harnessFile struct {
	pkg  string // repo-relative package directory
	name string
	src  []byte
}

type directive struct {
	prop   string
	fn     string
	file   *harnessFile
	opts   map[string]string
	flags  map[string]bool
	quick  map[string]int
	thor   map[string]int
	qtime  int
	ttime  int
	expect []string
}

var dirRe = regexp.MustCompile(`^// ?vsym (C\d+)(.*)$`)
var fnRe = regexp.MustCompile(`^func (VSym_\w+)\(\)`)

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if kv == "" {
			continue
		}
		k, v, _ := strings.Cut(kv, "=")
		n, err := strconv.Atoi(v)
		if err != nil {
			panic("bad parameter " + kv)
		}
		m[k] = n
	}
	return m
}

func scanHarness(dir string) ([]*harnessFile, []*directive, error) {
	var files []*harnessFile
	var dirs []*directive
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	for _, d := range ents {
		if !d.IsDir() || d.Name() == "vsym" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(dir, d.Name(), "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			hf := &harnessFile{pkg: strings.ReplaceAll(d.Name(), "__", "/"), name: filepath.Base(f), src: b}
			files = append(files, hf)
			var pend []*directive
			for _, l := range strings.Split(string(b), "\n") {
				if m := dirRe.FindStringSubmatch(l); m != nil {
					dr := &directive{prop: m[1], file: hf, flags: map[string]bool{}, opts: map[string]string{}, qtime: 40, ttime: 400}
					for _, o := range strings.Fields(m[2]) {
						k, v, has := strings.Cut(o, ":")
						if !has {
							dr.flags[o] = true
							continue
						}
						switch k {
						case "quick":
							dr.quick = parseParams(v)
						case "thorough":
							dr.thor = parseParams(v)
						case "time":
							a, b, _ := strings.Cut(v, "/")
							dr.qtime, _ = strconv.Atoi(a)
							if b != "" {
								dr.ttime, _ = strconv.Atoi(b)
							}
						case "expect":
							dr.expect = strings.Split(v, ",")
						default:
							dr.opts[k] = v
						}
					}
					if dr.thor == nil {
						dr.thor = dr.quick
					}
					pend = append(pend, dr)
				}
				if m := fnRe.FindStringSubmatch(l); m != nil {
					for _, p := range pend {
						p.fn = m[1]
					}
					dirs = append(dirs, pend...)
					pend = nil
				}
			}
		}
	}
	return files, dirs, nil
}

type config struct {
	repo, verif string
	prop, tier  string
	seed        int
	jobFilter   string
	verbose     bool
	noReplay    bool
	workers     int
	keep        bool
	dropped     []string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(2)
	}
	var c config
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	fs.StringVar(&c.repo, "repo", "/repo", "")
	fs.StringVar(&c.verif, "verif", "/verif", "")
	fs.StringVar(&c.prop, "prop", "", "")
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	fs.StringVar(&c.tier, "tier", tier, "")
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	fs.StringVar(&c.jobFilter, "job", "", "")
	fs.BoolVar(&c.verbose, "v", false, "")
	fs.BoolVar(&c.noReplay, "noreplay", false, "")
	fs.IntVar(&c.workers, "j", runtime.NumCPU(), "")
	fs.BoolVar(&c.keep, "keep", false, "")
	fs.Parse(os.Args[2:])
	os.Setenv("GOFLAGS", "-mod=readonly")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOWORK", "off")
	os.Setenv("GODEBUG", "")
	switch os.Args[1] {
	case "check":
		os.Exit(check(&c))
	case "replay":
		os.Exit(replayCmd(&c, fs.Args()))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

type overlaySet struct {
	files map[string][]byte
	pkgs  []string
}

func buildOverlay(c *config, files []*harnessFile, dirs []*directive) (*overlaySet, error) {
	ov := &overlaySet{files: map[string][]byte{}}
	vs, _ := filepath.Glob(filepath.Join(c.verif, "harness/vsym/*.go"))
	for _, f := range vs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov.files[filepath.Join(c.repo, "internal/vsym", filepath.Base(f))] = b
	}
	need := map[*harnessFile]bool{}
	pk := map[string]bool{}
	for _, d := range dirs {
		need[d.file] = true
		pk[d.file.pkg] = true
	}
	for _, f := range files {
		if need[f] || pk[f.pkg] && strings.HasPrefix(f.name, "support") {
			ov.files[filepath.Join(c.repo, f.pkg, "zz_vsym_"+f.name)] = f.src
		}
	}
	for p := range pk {
		ov.pkgs = append(ov.pkgs, p)
	}
	sort.Strings(ov.pkgs)
	return ov, nil
}

func (ov *overlaySet) has(c *config, f *harnessFile) bool {
	_, ok := ov.files[filepath.Join(c.repo, f.pkg, "zz_vsym_"+f.name)]
	return ok
}

// dropBroken removes the harness files that the load errors point to.
func dropBroken(c *config, ov *overlaySet, errs string) []string {
	var bad []string
	for f := range ov.files {
		if !strings.Contains(filepath.Base(f), "zz_vsym_") {
			continue
		}
		if strings.Contains(errs, f+":") || strings.Contains(errs, filepath.Base(f)+":") {
			bad = append(bad, f)
		}
	}
	sort.Strings(bad)
	for _, f := range bad {
		delete(ov.files, f)
	}
	return bad
}

func check(c *config) int {
	t0 := time.Now()
	files, all, err := scanHarness(filepath.Join(c.verif, "harness"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var dirs []*directive
	for _, d := range all {
		if d.prop == c.prop && (c.tier == "thorough" || !d.flags["thorough-only"]) {
			dirs = append(dirs, d)
		}
	}
	if len(dirs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", c.prop)
		return 2
	}
	ov, err := buildOverlay(c, files, dirs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pats := []string{"./internal/vsym"}
	for _, p := range ov.pkgs {
		pats = append(pats, "./"+p)
	}
	e, err := load(c.repo, ov.files, pats)
	for err != nil {
		// a harness that does not fit the current tree any more (it uses
		// internal names that are gone) is left out; the others decide
		bad := dropBroken(c, ov, err.Error())
		if len(bad) > 0 {
			var keep []*directive
			for _, d := range dirs {
				if ov.has(c, d.file) {
					keep = append(keep, d)
				} else {
					c.dropped = append(c.dropped, d.fn)
				}
			}
			dirs = keep
		}
		if len(bad) == 0 || len(dirs) == 0 {
			fmt.Fprintln(os.Stderr, "cannot encode the current tree:", err)
			return 2
		}
		fmt.Println("note: left out, does not compile against the current tree:", strings.Join(bad, " "))
		if c.verbose {
			fmt.Println(err)
		}
		e, err = load(c.repo, ov.files, pats)
	}
	nat := newNative(c, ov, all)
	defer nat.cleanup()
	if !c.noReplay {
		go nat.build()
	}
	e.verbose = c.verbose
	loadT := time.Since(t0)
	total := 600 * time.Second
	if c.tier == "thorough" {
		total = 840 * time.Second
		e.maxSteps = 3000000
	}
	var jobs []*Job
	for _, d := range dirs {
		j := &Job{Name: d.fn, Pkg: d.file.pkg, Fn: d.fn, Sync: d.flags["sync"], Stress: d.flags["stress"], Expect: d.expect, NoTrace: d.flags["notrace"]}
		j.Params = d.quick
		j.Budget = time.Duration(d.qtime) * time.Second
		if c.tier == "thorough" {
			j.Params = d.thor
			j.Budget = time.Duration(d.ttime) * time.Second
		}
		if v := d.opts["name"]; v != "" {
			j.Name += "/" + v
		}
		if c.jobFilter != "" && !strings.Contains(j.Name, c.jobFilter) {
			continue
		}
		for _, p := range e.prog.AllPackages() {
			if p.Pkg.Path() == modPath+"/"+j.Pkg {
				j.fn = p.Func(j.Fn)
			}
		}
		if j.fn == nil {
			fmt.Fprintln(os.Stderr, "no function", j.Fn)
			return 2
		}
		jobs = append(jobs, j)
	}
	e.globalEnd = t0.Add(total)
	kf := loadFindings(filepath.Join(c.verif, "known_findings.txt"), c.prop)
	res := &results{cfg: c, eng: e, nat: nat, kf: kf, seen: map[string]int{}}
	res.cond = sync.NewCond(&res.mu)
	e.onCand = res.candidate
	var rw sync.WaitGroup
	rw.Add(1)
	go func() { defer rw.Done(); res.replayer() }()
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	go e.watchMemory(16 << 30)
	// run
	nw := c.workers
	e.nwork = nw
	for _, j := range jobs {
		e.push(item{job: j})
	}
	var wg sync.WaitGroup
	tInit := time.Now()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := e.newWorker(i)
			if c.verbose && i == 0 {
				fmt.Fprintln(os.Stderr, "load", loadT, "init", time.Since(tInit))
			}
			w.loop()
			w.flushStats()
		}(i)
	}
	wg.Wait()
	res.close()
	rw.Wait()
	if !c.noReplay && !e.stop.Load() {
		res.validate(jobs)
	}
	return res.report(jobs, t0, loadT)
}

// ---- known findings ----

type finding struct {
	fn, msg, note string
	hit           bool
}

// Lines: "finding: property=C01 fn=VSym_X msg=<substring of the message> :: what fails"
func loadFindings(file, prop string) []*finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []*finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		head, note, _ := strings.Cut(l, " :: ")
		f := &finding{note: note}
		if i := strings.Index(head, " fn="); i >= 0 {
			f.fn = strings.Fields(head[i+4:])[0]
		}
		if i := strings.Index(head, " msg="); i >= 0 {
			f.msg = head[i+5:]
		}
		r = append(r, f)
	}
	return r
}

// ---- results ----

type confirmed struct {
	c       *Case
	outcome string
	path    string
}

type results struct {
	cfg   *config
	eng   *Engine
	nat   *native
	kf    []*finding
	mu    sync.Mutex
	cond  *sync.Cond
	queue []*Case
	seen  map[string]int
	ended bool

	violations  []confirmed
	unconfirmed []*Case
	known       []*finding
	traces      int
	diverged    []string
	valFail     int
}

func (r *results) candidate(c *Case) {
	r.mu.Lock()
	r.queue = append(r.queue, c)
	r.mu.Unlock()
	r.cond.Signal()
	if r.cfg.verbose {
		fmt.Fprintf(os.Stderr, "candidate %s %s: %s\n   at %s\n", c.Job, c.Kind, c.Msg, c.Where)
	}
}
func (r *results) close() {
	r.mu.Lock()
	r.ended = true
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (r *results) matchKnown(c *Case, outcome string) *finding {
	for _, f := range r.kf {
		if (f.fn == "" || f.fn == c.Fn) && (strings.Contains(c.Msg, f.msg) || strings.Contains(outcome, f.msg)) {
			return f
		}
	}
	return nil
}

// replayBudget is the time after which no further counterexamples are tried.
const replayBudget = 10 * time.Minute

func (r *results) replayer() {
	done := map[string]bool{}
	tries := map[string]int{}
	begin := time.Now()
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && !r.ended {
			r.cond.Wait()
		}
		if len(r.queue) == 0 {
			r.mu.Unlock()
			return
		}
		// take turns, since a failure may be easier to reproduce in another job
		at := 0
		for i, c := range r.queue {
			if tries[c.Job] < tries[r.queue[at].Job] {
				at = i
			}
		}
		c := r.queue[at]
		r.queue = append(r.queue[:at:at], r.queue[at+1:]...)
		nviol := len(r.violations)
		r.mu.Unlock()
		key := c.Job + c.Kind + c.Msg
		if done[key] || nviol > 0 && !r.cfg.verbose {
			continue
		}
		if r.cfg.noReplay {
			r.unconfirmed = append(r.unconfirmed, c)
			continue
		}
		if time.Since(begin) > replayBudget {
			c.Outcome = "not tried"
			r.unconfirmed = append(r.unconfirmed, c)
			continue
		}
		tries[c.Job]++
		ok, outcome := r.nat.confirm(c)
		c.Outcome = outcome
		if !ok {
			r.unconfirmed = append(r.unconfirmed, c)
			if r.cfg.verbose {
				fmt.Fprintf(os.Stderr, "not reproduced: %s %s: %s (%s)\n", c.Job, c.Kind, c.Msg, outcome)
			}
			continue
		}
		done[key] = true
		if f := r.matchKnown(c, outcome); f != nil {
			f.hit = true
			continue
		}
		p := r.nat.save(c)
		r.mu.Lock()
		r.violations = append(r.violations, confirmed{c, outcome, p})
		r.mu.Unlock()
		if !r.cfg.verbose {
			r.eng.stop.Store(true)
		}
	}
}

// validate runs sampled paths natively and compares the observations.
func (r *results) validate(jobs []*Job) {
	var wg sync.WaitGroup
	sem := make(chan bool, r.cfg.workers)
	for _, j := range jobs {
		for _, c := range j.samples {
			wg.Add(1)
			sem <- true
			go func(j *Job, c *Case) {
				defer func() { <-sem; wg.Done() }()
				st, out, obs := r.nat.run(c, 30*time.Second, false)
				if st == "fail" || st == "crash" { // run once more to exclude accidents
					st, out, obs = r.nat.run(c, 30*time.Second, false)
				}
				r.mu.Lock()
				defer r.mu.Unlock()
				r.traces++
				switch st {
				case "ok":
					a, _ := json.Marshal(c.Obs)
					b, _ := json.Marshal(obs)
					if string(a) != string(b) && !(len(c.Obs) == 0 && len(obs) == 0) {
						r.diverged = append(r.diverged, fmt.Sprintf("%s: symbolic %.300s native %.300s", c.Job, a, b))
						r.traces--
					}
				case "fail", "crash":
					r.traces--
					r.diverged = append(r.diverged, fmt.Sprintf("%s: native run %s: %.300s", c.Job, st, out))
					c.Kind, c.Msg = "assert", out
					if f := r.matchKnown(c, out); f != nil {
						f.hit = true
						return
					}
					r.violations = append(r.violations, confirmed{c, out, r.nat.save(c)})
				default:
					r.traces--
					r.diverged = append(r.diverged, fmt.Sprintf("%s: native run %s: %.300s", c.Job, st, out))
				}
			}(j, c)
		}
	}
	wg.Wait()
}

func (r *results) report(jobs []*Job, t0 time.Time, loadT time.Duration) int {
	e := r.eng
	var fns []string
	e.used.Range(func(k, _ any) bool {
		fn := k.(fnStringer)
		fns = append(fns, fn.String())
		return true
	})
	sort.Strings(fns)
	var modFns []string
	stdN := 0
	for _, f := range fns {
		if strings.Contains(f, modPath) {
			if !strings.Contains(f, "VSym_") && !strings.Contains(f, vsymPath) {
				modFns = append(modFns, strings.ReplaceAll(f, modPath+"/", ""))
			}
		} else {
			stdN++
		}
	}
	paths, steps, asserts := 0, int64(0), int64(0)
	var jl []map[string]any
	var samples []any
	complete := true
	var problems []string
	for _, j := range jobs {
		paths += j.paths
		steps += j.steps
		asserts += j.asserts
		red := map[string]int{}
		for k, v := range j.reduced {
			if len(k) > 400 {
				k = k[:400]
			}
			red[k] += v
		}
		if j.dropped > 0 {
			red["time budget: unexplored branches"] = j.dropped
		}
		if len(red) > 0 {
			complete = false
		}
		var miss []string
		for _, x := range j.Expect {
			if j.covers[x] == 0 {
				miss = append(miss, x)
			}
		}
		if len(miss) > 0 {
			problems = append(problems, j.Name+": not reached: "+strings.Join(miss, ","))
		}
		if j.paths == 0 {
			problems = append(problems, j.Name+": no path completed")
		}
		m := map[string]any{"harness": j.Name, "package": j.Pkg, "bounds": j.Params, "paths": j.paths, "paths_cut_by_assumptions": j.assumed,
			"instructions": j.steps, "assertions_discharged": j.asserts, "max_decisions": j.maxDepth, "covers": j.covers,
			"cpu_s": round(j.wall.Seconds()), "exhausted_within_bounds": len(red) == 0}
		if len(red) > 0 {
			m["reduced"] = red
		}
		if j.schedMax > 0 {
			m["longest_schedule"] = j.schedMax
		}
		jl = append(jl, m)
		for i, c := range j.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": c.Job, "inputs": cutInputs(c.Inputs), "observed": c.Obs})
			}
		}
		if r.cfg.verbose {
			fmt.Fprintf(os.Stderr, "%-40s paths %d (cut %d) steps %d (path %d) asserts %d depth %d covers %v reduced %v cands %v cpu %.1fs\n", j.Name, j.paths, j.assumed, j.steps, j.maxPath, j.asserts, j.maxDepth, j.covers, red, j.cands, j.wall.Seconds())
		}
	}
	var unc []string
	for _, c := range r.unconfirmed {
		unc = append(unc, fmt.Sprintf("%s %s: %s (%s)", c.Job, c.Kind, c.Msg, c.Outcome))
	}
	cov := map[string]any{
		"states": paths, "transitions": steps, "traces_validated_against_impl": r.traces,
		"samples": samples, "harnesses": jl, "functions_encoded": modFns, "library_functions_encoded": stdN,
		"assertions": asserts, "forks": e.stats.forks.Load(),
		"queries": e.stats.queries.Load(), "queries_sat": e.stats.sat.Load(), "queries_unsat": e.stats.unsat.Load(), "queries_unknown": e.stats.unknown.Load(),
		"solver_s": round(float64(e.stats.solverNs.Load()) / 1e9), "longest_query_s": round(float64(e.stats.maxNs.Load()) / 1e9),
		"solver":     solverBin,
		"encode_s":   round(loadT.Seconds()),
		"exhaustive": complete && len(problems) == 0,
		"rule":       "states = feasible symbolic execution paths, transitions = SSA instructions executed symbolically; every assertion is an SMT query over all input values of its path",
	}
	if len(unc) > 0 {
		cov["unconfirmed_candidates"] = unc
	}
	if len(r.diverged) > 0 {
		cov["divergences"] = r.diverged
	}
	if len(r.cfg.dropped) > 0 {
		cov["harnesses_left_out"] = r.cfg.dropped
		cov["exhaustive"] = false
	}
	if len(problems) > 0 {
		cov["vacuity_warnings"] = problems
	}
	ev := map[string]any{"property": r.cfg.prop, "tier": r.cfg.tier, "seed": r.cfg.seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": len(r.violations)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.cfg.verif, "evidence"), 0o755)
	if r.cfg.jobFilter == "" && r.cfg.repo == "/repo" {
		os.WriteFile(filepath.Join(r.cfg.verif, "evidence", r.cfg.prop+".json"), append(b, '\n'), 0o644)
	}
	for _, f := range r.kf {
		if f.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.cfg.prop, f.note)
		}
	}
	for _, d := range r.diverged {
		fmt.Println("DIVERGENCE", d)
	}
	for _, p := range problems {
		fmt.Println("WARNING", p)
	}
	for _, u := range unc {
		fmt.Println("UNCONFIRMED", u)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d instructions, %d assertions, %d queries (%.1fs solver), %d traces validated, exhaustive=%v, %.1fs\n",
		r.cfg.prop, r.cfg.tier, len(jobs), paths, steps, asserts, e.stats.queries.Load(), float64(e.stats.solverNs.Load())/1e9, r.traces, cov["exhaustive"], time.Since(t0).Seconds())
	if len(r.violations) > 0 {
		for _, v := range r.violations {
			fmt.Printf("%s: %s (%s): %s\n", v.c.Job, v.c.Msg, v.c.Kind, firstLines(v.outcome, 6))
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.cfg.prop, v.path)
		}
		return 1
	}
	if paths == 0 {
		fmt.Println("nothing could be explored")
		for _, j := range jobs {
			for k := range j.reduced {
				fmt.Println("  ", j.Name, k)
			}
		}
		return 2
	}
	return 0
}

type fnStringer interface{ String() string }

var assumptions = []string{
	"Go source is translated to SSA by golang.org/x/tools/go/ssa for amd64; integers are bit-vectors, memory is a map of objects with functional arrays",
	"inputs and steps are bounded as listed per harness; executions beyond them are not covered",
	"library code is interpreted from its source except the functions modelled in gosym/intrin.go and harness/vsym/models.go (fmt formatting, sync primitives, timers, reflect subset)",
	"goroutine schedules: sequentially consistent interleavings at synchronisation operations, up to the stated number of preemptions, where a harness enables exploration; otherwise one schedule",
	"sync.Pool returns the most recently put object; garbage collection is not modelled",
	"a counterexample is reported only after it was reproduced by the compiled code",
}

func cutInputs(in []CaseInput) []CaseInput {
	var r []CaseInput
	for i, x := range in {
		if i >= 24 {
			break
		}
		if len(x.B) > 160 {
			x.B = x.B[:160] + "..."
		}
		r = append(r, x)
	}
	return r
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func round(x float64) float64 { return float64(int64(x*1000)) / 1000 }
