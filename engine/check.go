package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The driver: it builds the replayer against the current tree, runs the explorations of one property in
// parallel, replays every counterexample and a sample of paths natively, and writes the evidence.

type outcome struct {
	job  Job
	res  *Result
	err  string
	wall time.Duration
}

type validation struct {
	ok, bad int
	notes   []string
}

func env(extra ...string) []string {
	root := "/opt/veriftools/go1.27.3"
	e := os.Environ()
	if _, err := os.Stat(root + "/bin/go"); err == nil {
		e = append(e, "GOROOT="+root, "PATH="+root+"/bin:"+os.Getenv("PATH"))
	}
	e = append(e, "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	return append(e, extra...)
}

func goTool() string {
	if _, err := os.Stat("/opt/veriftools/go1.27.3/bin/go"); err == nil {
		return "/opt/veriftools/go1.27.3/bin/go"
	}
	return "go"
}

func runCmd(limit time.Duration, dir string, name string, args ...string) (string, int, bool) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env()
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := c.Start(); err != nil {
		return err.Error(), -1, false
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		code := 0
		if err != nil {
			code = -1
			if x, ok := err.(*exec.ExitError); ok {
				code = x.ExitCode()
			}
		}
		return b.String(), code, false
	case <-time.After(limit):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		return b.String(), -1, true
	}
}

func check(id, tier string) int {
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	root, _ := os.Getwd()
	if _, err := os.Stat(filepath.Join(root, "harness")); err != nil {
		root = filepath.Dir(filepath.Dir(self))
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	sp, ok := specs[id]
	if !ok {
		fatal("no check for %s", id)
	}
	jobs := sp.quick
	budget := 500 * time.Second
	if tier == "thorough" {
		jobs = append(append([]Job(nil), sp.quick...), sp.thorough...)
		if sp.replace {
			jobs = sp.thorough
		}
		budget = 3 * time.Hour
	}
	for i := range jobs {
		jobs[i].Prop = id
		jobs[i].Seed = seed
		if jobs[i].Seconds == 0 {
			jobs[i].Seconds = 420
			if tier == "thorough" {
				jobs[i].Seconds = 5400
			}
		}
		if jobs[i].Samples == 0 {
			jobs[i].Samples = 6
		}
		if tier == "thorough" && len(jobs[i].Solvers) == 0 {
			jobs[i].Solvers = []string{"z3 -in", "cvc5 --incremental --produce-models"}
		}
	}
	tmp, err := os.MkdirTemp("", "verif-check-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	hdir := filepath.Join(root, "harness")
	replayer := filepath.Join(tmp, "harness")
	if out, code, _ := runCmd(10*time.Minute, hdir, goTool(), "build", "-o", replayer, "."); code != 0 {
		fmt.Fprintln(os.Stderr, out)
		fatal("cannot build the replayer")
	}
	racer := replayer
	if sp.race {
		racer = filepath.Join(tmp, "harness-race")
		if out, code, _ := runCmd(10*time.Minute, hdir, goTool(), "build", "-race", "-o", racer, "."); code != 0 {
			fmt.Fprintln(os.Stderr, out)
			racer = replayer
		}
	}
	rep := &replay{root: root, tmp: tmp, id: id, bin: replayer, racer: racer, seen: map[string]int{}}

	outs := make([]*outcome, len(jobs))
	var wg sync.WaitGroup
	var mu sync.Mutex
	stop := make(chan struct{})
	stopped := false
	next := 0
	workers := runtime.NumCPU()
	if workers > len(jobs) {
		workers = len(jobs)
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var wk *worker
			defer func() {
				if wk != nil {
					wk.kill()
				}
			}()
			for {
				mu.Lock()
				if next >= len(jobs) || stopped {
					mu.Unlock()
					return
				}
				i := next
				next++
				left := budget - time.Since(t0)
				mu.Unlock()
				o := &outcome{job: jobs[i]}
				if left < 5*time.Second {
					o.err = "not run: the time of this check was used up"
				} else {
					if time.Duration(jobs[i].Seconds)*time.Second > left {
						jobs[i].Seconds = int(left.Seconds())
					}
					o = runOne(&wk, self, hdir, tmp, i, jobs[i], stop)
				}
				if o.res != nil {
					for _, c := range o.res.Cex {
						rep.try(jobs[i], c)
					}
				}
				mu.Lock()
				outs[i] = o
				if rep.found() && !stopped && tier != "thorough" {
					stopped = true
					close(stop)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	val := &validation{}
	for i, o := range outs {
		if o != nil && o.res != nil {
			rep.validate(jobs[i], o.res, val)
		}
	}
	known := loadKnown(filepath.Join(root, "known_findings.txt"))
	fails := 0
	for _, v := range rep.violations {
		if k := known.match(id, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		fails++
		fmt.Printf("  %s: %s\n", v.what, v.input)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.path)
	}
	ev := evidence(id, tier, seed, sp, outs, rep, val, fails, time.Since(t0))
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	complete := 0
	for _, o := range outs {
		if o != nil && o.res != nil && o.res.Coverage == "complete" && len(o.res.Incomplete) == 0 {
			complete++
		}
	}
	fmt.Printf("%s %s: %d/%d explorations complete, %d violations, %d/%d sampled paths confirmed natively, %.1fs\n", id, tier, complete, len(jobs), fails, val.ok, val.ok+val.bad, time.Since(t0).Seconds())
	for _, n := range ev["coverage"].(map[string]interface{})["reduced"].([]string) {
		fmt.Println("  reduced bound:", cut(n, 300))
	}
	if fails > 0 {
		return 1
	}
	return 0
}

// worker is a process that explores one job after another.
type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb bytes.Buffer
}

func startWorker(self, hdir string) (*worker, error) {
	w := &worker{cmd: exec.Command(self, "worker", hdir)}
	w.cmd.Env = env()
	w.cmd.Stderr = &w.errb
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReader(o)
	return w, w.cmd.Start()
}

func (w *worker) kill() {
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.in.Close()
	w.cmd.Wait()
}

// runOne has a worker, which it starts when there is none, explore one job.
func runOne(wp **worker, self, hdir, tmp string, i int, j Job, stop chan struct{}) *outcome {
	t := time.Now()
	o := &outcome{job: j}
	jf := filepath.Join(tmp, fmt.Sprintf("job%d.json", i))
	of := filepath.Join(tmp, fmt.Sprintf("out%d.json", i))
	b, _ := json.Marshal(j)
	os.WriteFile(jf, b, 0o644)
	if *wp == nil {
		w, err := startWorker(self, hdir)
		if err != nil {
			o.err = err.Error()
			return o
		}
		*wp = w
	}
	w := *wp
	done := make(chan error, 1)
	go func() {
		if _, err := fmt.Fprintln(w.in, jf, of); err != nil {
			done <- err
			return
		}
		_, err := w.out.ReadString('\n')
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			w.kill()
			*wp = nil
			o.err = cut(err.Error()+": "+tail(w.errb.String(), 600), 900)
		}
	case <-stop:
		w.kill()
		*wp = nil
		o.err = "stopped: a violation was found by another exploration"
		return o
	case <-time.After(time.Duration(j.Seconds)*time.Second + 150*time.Second):
		w.kill()
		*wp = nil
		o.err = "time limit reached"
	}
	if rb, err := os.ReadFile(of); err == nil {
		var r Result
		if json.Unmarshal(rb, &r) == nil {
			o.res = &r
		}
	}
	o.wall = time.Since(t)
	return o
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---------------------------------------------------------------- native replay

type violation struct {
	what, input, path, msg string
	job                    Job
}

type replay struct {
	mu                  sync.Mutex
	root, tmp, id       string
	bin, racer          string
	seen                map[string]int
	violations          []violation
	unconfirmed         []string
	confirmed, replayed int
	n                   int
}

func (r *replay) found() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) > 0
}

type modelFile struct {
	Property string
	Fn       string
	Kind     string
	Message  string
	Input    string
	Bounds   map[string]int
	Env      map[string]uint64
	Repeat   int  `json:",omitempty"`
	Race     bool `json:",omitempty"`
	Run      string
}

func (r *replay) native(bin string, fn string, bounds map[string]int, env map[string]uint64, repeat int) (string, int, bool) {
	r.mu.Lock()
	r.n++
	f := filepath.Join(r.tmp, fmt.Sprintf("m%d.json", r.n))
	r.mu.Unlock()
	b, _ := json.Marshal(map[string]interface{}{"Env": env, "Bounds": bounds})
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	if repeat < 1 {
		repeat = 1
	}
	limit := 20 * time.Second
	if repeat > 1 {
		limit = 120 * time.Second
	}
	return runCmd(limit, r.tmp, bin, f, fn, strconv.Itoa(repeat))
}

// try replays one counterexample against the real code.
func (r *replay) try(j Job, c *Cex) {
	r.mu.Lock()
	key := c.Kind + ":" + c.Msg
	if r.seen[key] >= 2 {
		r.mu.Unlock()
		return
	}
	r.replayed++
	r.mu.Unlock()
	bin := r.bin
	if j.Race {
		bin = r.racer
	}
	out, code, timeout := r.native(bin, j.Fn, j.Bounds, c.Env, j.Repeat)
	what := ""
	switch {
	case timeout:
		what = "the real code does not return (20 s)"
	case code == 1:
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "FAIL "+r.id+":") {
				what = strings.TrimPrefix(l, "FAIL ")
				break
			}
		}
	case code == 3:
		what = "the real code panics: " + strings.TrimSpace(lastLine(out, "PANIC"))
	case code == 66 || strings.Contains(out, "DATA RACE"):
		what = "data race in the real code"
	case code != 0 && code != 4 && (strings.Contains(out, "goroutine ") || strings.Contains(out, "fatal error")):
		what = "the real code crashes: " + cut(out, 200)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if what == "" {
		r.unconfirmed = append(r.unconfirmed, fmt.Sprintf("%s %s at %s (%s) did not reproduce natively: %s", c.Kind, c.Msg, c.Pos, showEnv(c.Env), cut(strings.TrimSpace(out), 200)))
		return
	}
	r.confirmed++
	r.seen[key]++
	if r.seen[key] > 1 {
		return
	}
	dir := filepath.Join(r.root, "replays", r.id)
	os.MkdirAll(dir, 0o755)
	m := modelFile{Property: r.id, Fn: j.Fn, Kind: c.Kind, Message: c.Msg, Input: showEnv(c.Env), Bounds: j.Bounds, Env: c.Env, Repeat: j.Repeat, Race: j.Race}
	b, _ := json.MarshalIndent(m, "", " ")
	h := sha256.Sum256(b)
	p := filepath.Join(dir, hex.EncodeToString(h[:6])+".json")
	m.Run = fmt.Sprintf("cd /verif/harness && go run . %s %s", p, j.Fn)
	b, _ = json.MarshalIndent(m, "", " ")
	os.WriteFile(p, b, 0o644)
	r.violations = append(r.violations, violation{what: what, input: showEnv(c.Env), path: p, msg: c.Msg, job: j})
}

func lastLine(s, with string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, with) {
			return l
		}
	}
	return s
}

var obsRe = regexp.MustCompile(`(?m)^OBS .*$`)

// timeText leaves out the wording of time.Parse errors, which the model does not have.
func timeText(obs []string) string {
	return timeRe.ReplaceAllString(strings.Join(obs, "\n"), "parsing time$1")
}

var timeRe = regexp.MustCompile(`(?m)parsing time.*?( \[col|"$)`)

// validate runs sampled paths natively and compares what was observed on them.
func (r *replay) validate(j Job, res *Result, v *validation) {
	for _, s := range res.Samples {
		out, code, _ := r.native(r.bin, j.Fn, j.Bounds, s.Env, 1)
		got := obsRe.FindAllString(out, -1)
		if code == 4 { // cannot be: the path was not left out by an assumption
			v.bad++
			v.notes = append(v.notes, fmt.Sprintf("%s: sampled path is skipped natively (%s)", j.Fn, showEnv(s.Env)))
			continue
		}
		if timeText(got) == timeText(s.Obs) && (code == 0 || code == 1 && len(res.Cex) > 0) {
			v.ok++
			continue
		}
		if len(res.Cex) > 0 {
			continue // a broken tree: what is observed may stop early
		}
		v.bad++
		v.notes = append(v.notes, fmt.Sprintf("%s: symbolic and native runs differ (%s): %q / %q", j.Fn, showEnv(s.Env), s.Obs, cut(out, 300)))
	}
}

// ---------------------------------------------------------------- known findings

type known struct{ lines [][2]string }

// loadKnown reads lines "finding: property=<id> msg=<assertion> input=<input as printed> :: <what fails>"; lines starting
// with "fixed:" suppress nothing.
func loadKnown(path string) *known {
	k := &known{}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: ") {
			p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " :: ", 2)
			if len(p) == 2 {
				k.lines = append(k.lines, [2]string{p[0], p[1]})
			}
		}
	}
	return k
}

func (k *known) match(id string, v violation) string {
	for _, l := range k.lines {
		if l[0] == fmt.Sprintf("property=%s msg=%s input=%s", id, v.msg, v.input) {
			return l[1]
		}
	}
	return ""
}

// ---------------------------------------------------------------- evidence

func evidence(id, tier string, seed int64, sp spec, outs []*outcome, rep *replay, val *validation, fails int, wall time.Duration) map[string]interface{} {
	states, trans := 0, int64(0)
	funcs := map[string]bool{}
	stubs := map[string]int{}
	reached := map[string]int{}
	unreached := map[string]bool{}
	var reduced []string
	var expl []interface{}
	samples := []interface{}{}
	tot := map[string]int64{}
	cross := map[string]string{}
	for i, o := range outs {
		if o == nil {
			reduced = append(reduced, fmt.Sprintf("exploration %d was not run", i))
			continue
		}
		name := fmt.Sprintf("%s %v", o.job.Fn, o.job.Bounds)
		if o.err != "" {
			reduced = append(reduced, name+": "+o.err)
		}
		r := o.res
		if r == nil {
			continue
		}
		states += r.Paths + r.Merges
		trans += r.Instr
		for _, f := range r.Functions {
			funcs[f] = true
		}
		for s, n := range r.Stubs {
			stubs[s] += n
		}
		for n, k := range r.Reached {
			reached[n] += k
		}
		for _, n := range r.Unreached {
			unreached[n] = true
		}
		for _, n := range r.Incomplete {
			reduced = append(reduced, name+": "+n)
		}
		if r.Coverage != "complete" {
			reduced = append(reduced, name+": coverage query "+r.Coverage)
		}
		for sv, c := range r.CrossChecks {
			cross[name+" / "+sv] = c
		}
		tot["paths"] += int64(r.Paths)
		tot["merges"] += int64(r.Merges)
		tot["forks"] += int64(r.Forks)
		tot["obligations"] += int64(r.Obligations)
		tot["decided_by_simplification"] += int64(r.Folded)
		tot["decided_by_solver"] += int64(r.OblQueries)
		tot["queries"] += int64(r.Queries)
		tot["sat"] += int64(r.Sat)
		tot["unsat"] += int64(r.Unsat)
		tot["unknown"] += int64(r.Unknown)
		tot["solver_ms"] += r.SolverMs
		expl = append(expl, map[string]interface{}{
			"harness": o.job.Fn, "bounds": r.Bounds, "coverage_query": r.Coverage, "paths": r.Paths, "merges": r.Merges,
			"obligations": r.Obligations, "queries": r.Queries, "solver_ms": r.SolverMs, "max_query_ms": r.MaxQueryMs,
			"wall_ms": r.TotalMs, "symbolic_variables": r.Vars, "counterexamples": len(r.Cex), "scheduling_points": r.ConcPoints,
		})
		for k, s := range r.Samples {
			if k < 2 && len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"harness": o.job.Fn, "input": showEnv(s.Env), "observed": s.Obs})
			}
		}
	}
	for n := range reached {
		delete(unreached, n)
	}
	var un []string
	for n := range unreached {
		un = append(un, n)
	}
	sort.Strings(un)
	for _, n := range un {
		reduced = append(reduced, "never reached: "+n)
	}
	for _, n := range rep.unconfirmed {
		reduced = append(reduced, "unconfirmed: "+n)
	}
	for _, n := range val.notes {
		reduced = append(reduced, "validation: "+n)
	}
	if reduced == nil {
		reduced = []string{}
	}
	var fs []string
	for f := range funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": val.ok, "samples": samples,
		"rule":         "states: ended paths plus merges of symbolic states; transitions: SSA instructions executed symbolically; each exploration covers every input within its bounds exactly when its coverage query is unsat (\"complete\")",
		"bounds":       sp.bounds,
		"outside":      sp.outside,
		"explorations": expl, "functions_encoded": fs, "stubs": stubs, "totals": tot, "assertions_reached": reached,
		"reduced": reduced, "cross_checks": cross, "counterexamples_replayed": rep.replayed, "counterexamples_confirmed": rep.confirmed,
		"violations": fails,
	}
	return map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(),
	}
}
