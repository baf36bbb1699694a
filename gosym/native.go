package main

// Replay of concrete cases against the compiled code.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type native struct {
	cfg  *config
	ov   *overlaySet
	dirs []*directive
	tmp  string
	once sync.Once
	bins map[string]string
	errs map[string]string
	race map[string]string
	jit  map[string]string
	mu   sync.Mutex
}

func newNative(c *config, ov *overlaySet, dirs []*directive) *native {
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		panic(err)
	}
	return &native{cfg: c, ov: ov, dirs: dirs, tmp: tmp, bins: map[string]string{}, errs: map[string]string{}, race: map[string]string{}, jit: map[string]string{}}
}

func (n *native) cleanup() {
	if !n.cfg.keep && strings.Contains(n.tmp, "gosym") {
		os.RemoveAll(n.tmp)
	}
}

func (n *native) overlayFile() (string, error) {
	rep := map[string]string{}
	i := 0
	add := func(dst string, b []byte) error {
		i++
		p := filepath.Join(n.tmp, fmt.Sprintf("f%d_%s", i, filepath.Base(dst)))
		rep[dst] = p
		return os.WriteFile(p, b, 0o644)
	}
	for dst, b := range n.ov.files {
		if err := add(dst, b); err != nil {
			return "", err
		}
	}
	tmpl, err := os.ReadFile(filepath.Join(n.cfg.verif, "harness/vsym/run.go.txt"))
	if err != nil {
		return "", err
	}
	for _, p := range n.ov.pkgs {
		var fl []string
		seen := map[string]bool{}
		for _, d := range n.dirs {
			if d.file.pkg == p && !seen[d.fn] {
				if _, ok := n.ov.files[filepath.Join(n.cfg.repo, p, "zz_vsym_"+d.file.name)]; ok {
					seen[d.fn] = true
					fl = append(fl, fmt.Sprintf("\t%q: %s,", d.fn, d.fn))
				}
			}
		}
		src := strings.Replace(string(tmpl), "PKG", filepath.Base(p), 1)
		src = strings.Replace(src, "FUNCS", strings.Join(fl, "\n"), 1)
		if err := add(filepath.Join(n.cfg.repo, p, "zz_vsym_test.go"), []byte(src)); err != nil {
			return "", err
		}
		// the repository's own tests of the package are not part of the replay binary
		ts, _ := filepath.Glob(filepath.Join(n.cfg.repo, p, "*_test.go"))
		for _, t := range ts {
			if filepath.Base(t) != "zz_vsym_test.go" {
				rep[t] = ""
			}
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(n.tmp, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

func (n *native) build() {
	n.once.Do(func() {
		ovf, err := n.overlayFile()
		for _, p := range n.ov.pkgs {
			if err != nil {
				n.errs[p] = err.Error()
				continue
			}
			bin := filepath.Join(n.tmp, strings.ReplaceAll(p, "/", "_")+".test")
			cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+p)
			cmd.Dir = n.cfg.repo
			out, e := cmd.CombinedOutput()
			if e != nil {
				n.errs[p] = fmt.Sprintf("%v: %s", e, out)
				fmt.Fprintln(os.Stderr, "replay build:", n.errs[p])
				continue
			}
			n.bins[p] = bin
		}
	})
}

func (n *native) raceBin(p string) string {
	n.build()
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.race[p]; ok {
		return b
	}
	bin := filepath.Join(n.tmp, strings.ReplaceAll(p, "/", "_")+".race.test")
	cmd := exec.Command("go", "test", "-c", "-race", "-vet=off", "-overlay", filepath.Join(n.tmp, "overlay.json"), "-o", bin, "./"+p)
	cmd.Dir = n.cfg.repo
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, e := cmd.CombinedOutput(); e != nil {
		fmt.Fprintf(os.Stderr, "race build: %v: %s\n", e, out)
		bin = ""
	}
	n.race[p] = bin
	return bin
}

// jitterBin is a replay binary of which the code under test has a scheduling
// point in front of every statement.
func (n *native) jitterBin(p string) string {
	n.build()
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.jit[p]; ok {
		return b
	}
	n.jit[p] = n.bins[p]
	b, err := os.ReadFile(filepath.Join(n.tmp, "overlay.json"))
	if err != nil {
		return n.jit[p]
	}
	var ov struct{ Replace map[string]string }
	json.Unmarshal(b, &ov)
	var dirs []string
	filepath.WalkDir(n.cfg.repo, func(d string, e os.DirEntry, err error) error {
		if err == nil && e.IsDir() {
			if strings.HasPrefix(e.Name(), ".") && d != n.cfg.repo {
				return filepath.SkipDir
			}
			dirs = append(dirs, d)
		}
		return nil
	})
	for _, d := range dirs {
		if strings.HasSuffix(d, "/testutil") {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if _, ok := ov.Replace[f]; ok {
				continue
			}
			if src := jitter(f); src != nil {
				o := filepath.Join(n.tmp, fmt.Sprintf("j%d_%s", len(ov.Replace), filepath.Base(f)))
				if os.WriteFile(o, src, 0o644) == nil {
					ov.Replace[f] = o
				}
			}
		}
	}
	b, _ = json.Marshal(&ov)
	ovf := filepath.Join(n.tmp, "overlay_jitter.json")
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(n.tmp, strings.ReplaceAll(p, "/", "_")+".jitter.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+p)
	cmd.Dir = n.cfg.repo
	if out, e := cmd.CombinedOutput(); e != nil {
		fmt.Fprintf(os.Stderr, "jitter build: %v: %s\n", e, out)
		return n.jit[p]
	}
	n.jit[p] = bin
	return bin
}

func jitter(file string) []byte {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil || f.Name.Name == "main" {
		return nil
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, st := range l {
			at = append(at, fset.Position(st.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			for _, st := range x.List {
				switch st.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	sort.Ints(at)
	var out bytes.Buffer
	pos := fset.Position(f.Name.End()).Offset
	out.Write(src[:pos])
	out.WriteString("; import vsymJitter \"github.com/dropmorepackets/haproxy-go/internal/vsym\"")
	for _, a := range at {
		out.Write(src[pos:a])
		out.WriteString("vsymJitter.Yield(); ")
		pos = a
	}
	out.Write(src[pos:])
	return out.Bytes()
}

// run executes a case; status is ok, fail, crash, assume, timeout or error.
func (n *native) run(c *Case, limit time.Duration, race bool) (status, out string, obs []CaseObs) {
	n.build()
	bin := n.bins[c.Pkg]
	if race {
		bin = n.raceBin(c.Pkg)
	}
	if bin == "" {
		return "error", n.errs[c.Pkg], nil
	}
	f, err := os.CreateTemp(n.tmp, "case")
	if err != nil {
		return "error", err.Error(), nil
	}
	b, _ := json.Marshal(c)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	return n.exec(bin, f.Name(), limit, 0, c.Params["cpus"])
}

func (n *native) exec(bin, file string, limit time.Duration, stress, cpus int) (status, out string, obs []CaseObs) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	args := []string{bin, "-test.run", "^TestVSymReplay$", "-test.timeout", "0"}
	if cpus > 0 {
		// the code under test asks for the number of CPUs
		args = append([]string{"taskset", "-c", pickCPUs(cpus)}, args...)
	}
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Dir = n.tmp
	cmd.Env = append(os.Environ(), "VSYM_CASE="+file, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
	if stress > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VSYM_STRESS=%d", stress))
	}
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	// what is still running says where
	cmd.Cancel = func() error { return cmd.Process.Signal(syscall.SIGQUIT) }
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	out = buf.String()
	if ctx.Err() != nil {
		if g := lockedOut(out); g != "" {
			return "stuck", "waiting for a lock that is never released: " + g, nil
		}
		return "timeout", "still running after " + limit.String(), nil
	}
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "VSYM-OK "):
			json.Unmarshal([]byte(l[8:]), &obs)
			return "ok", out, obs
		case strings.HasPrefix(l, "VSYM-FAIL "):
			return "fail", strings.TrimPrefix(l, "VSYM-FAIL "), nil
		case l == "VSYM-ASSUME":
			return "assume", out, nil
		}
	}
	if strings.Contains(out, "WARNING: DATA RACE") {
		return "race", out, nil
	}
	if err != nil && (strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ") || strings.Contains(out, "deadlock")) {
		i := strings.Index(out, "panic: ")
		if i < 0 {
			i = strings.Index(out, "fatal error: ")
		}
		if i < 0 {
			i = 0
		}
		return "crash", out[i:], nil
	}
	return "error", fmt.Sprintf("%v: %s", err, out), nil
}

var goroutineRE = regexp.MustCompile(`(?m)^goroutine (\d+).*\[([^\]]*)\]:$`)

// lockedOut finds a goroutine that waits for a lock in a dump of a process in
// which nothing runs.
func lockedOut(dump string) string {
	at := ""
	for _, m := range goroutineRE.FindAllStringSubmatchIndex(dump, -1) {
		id, state := dump[m[2]:m[3]], strings.Split(dump[m[4]:m[5]], ",")[0]
		switch {
		case id == "0":
		case state == "running" || state == "runnable" || state == "syscall":
			return ""
		case strings.HasPrefix(state, "sync.Mutex.") || strings.HasPrefix(state, "sync.RWMutex."):
			at = firstLines(dump[m[0]:], 12)
		}
	}
	return at
}

var nextCPU atomic.Int64

// pickCPUs names n of the CPUs that may be used, others every time.
func pickCPUs(n int) string {
	var mask [128]uint64
	var cpus []string
	sz, _, _ := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, uintptr(len(mask)*8), uintptr(unsafe.Pointer(&mask)))
	for i := 0; i < int(sz)*8; i++ {
		if mask[i/64]>>(i%64)&1 == 1 {
			cpus = append(cpus, strconv.Itoa(i))
		}
	}
	if len(cpus) == 0 {
		return "0"
	}
	at := int(nextCPU.Add(int64(n))) - n
	var out []string
	for i := 0; i < n && i < len(cpus); i++ {
		out = append(out, cpus[(at+i)%len(cpus)])
	}
	return strings.Join(out, ",")
}

// confirm reports whether the compiled code misbehaves on the case.
func (n *native) confirm(c *Case) (bool, string) {
	if c.Kind == "race" {
		st, out := n.stress(c, true)
		return st == "race" || st == "fail" || st == "crash", st + ": " + firstLines(out, 40)
	}
	limit := 20 * time.Second
	st, out, _ := n.run(c, limit, false)
	switch st {
	case "fail", "crash", "stuck":
		return true, st + ": " + out
	case "timeout":
		return c.Kind == "deadlock" || c.Kind == "hang", "timeout: " + out
	}
	if c.Stress && c.Kind != "hang" {
		st2, out2 := n.stress(c, false)
		switch st2 {
		case "fail", "crash", "stuck":
			return true, "under stress: " + st2 + ": " + out2
		case "timeout":
			return c.Kind == "deadlock", "under stress: timeout: " + out2
		}
		return false, st2
	}
	return false, st + ": " + firstLines(out, 10)
}

// stress repeats a schedule-dependent case under randomised timing.
func (n *native) stress(c *Case, race bool) (string, string) {
	n.build()
	bin := ""
	if race {
		bin = n.raceBin(c.Pkg)
	} else {
		bin = n.jitterBin(c.Pkg)
	}
	if bin == "" {
		return "error", n.errs[c.Pkg]
	}
	f, err := os.CreateTemp(n.tmp, "case")
	if err != nil {
		return "error", err.Error()
	}
	cc := *c
	cc.Stress = true
	b, _ := json.Marshal(&cc)
	f.Write(b)
	f.Close()
	const secs = 20
	end := time.Now().Add(secs * time.Second)
	var mu sync.Mutex
	best, bestOut := "ok", ""
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				s := 0
				if !c.Sync {
					s = secs
				}
				lim := time.Duration(s+8) * time.Second
				st, out, _ := n.exec(bin, f.Name(), lim, s, c.Params["cpus"])
				mu.Lock()
				if st != "ok" && st != "assume" && best == "ok" {
					best, bestOut = st, out
					end = time.Now()
				}
				stop := best != "ok"
				mu.Unlock()
				if stop || s > 0 {
					return
				}
			}
		}()
	}
	wg.Wait()
	return best, bestOut
}

func (n *native) save(c *Case) string {
	b, _ := json.MarshalIndent(c, "", " ")
	h := sha256.Sum256(b)
	dir := filepath.Join(n.cfg.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", n.cfg.prop, c.Fn, h[:4]))
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func replayCmd(c *config, args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var cs Case
	if err := json.Unmarshal(b, &cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	files, all, err := scanHarness(filepath.Join(c.verif, "harness"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var dirs []*directive
	for _, d := range all {
		if d.fn == cs.Fn && d.file.pkg == cs.Pkg {
			dirs = append(dirs, d)
		}
	}
	ov, err := buildOverlay(c, files, dirs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := newNative(c, ov, all)
	defer n.cleanup()
	ok, out := n.confirm(&cs)
	fmt.Println("reproduced:", ok)
	fmt.Println(out)
	if ok {
		return 1
	}
	return 0
}
