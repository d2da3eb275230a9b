package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Job is one exploration of one harness.
type Job struct {
	Prop    string         `json:"prop"`
	Fn      string         `json:"fn"`
	Bounds  map[string]int `json:"bounds"`
	Strict  bool           `json:"strict"`
	MapOrd  bool           `json:"maporder"`
	Conc    bool           `json:"conc"`
	Seconds int            `json:"seconds"`
	MemMB   int            `json:"mem_mb"`
	Samples int            `json:"samples"`
	Seed    int64          `json:"seed"`
	Solvers []string       `json:"solvers"` // cross-checking solvers
	Repeat  int            `json:"repeat"`  // native repetitions when replaying
	Race    bool           `json:"race"`
	Trace   bool           `json:"trace"`
}

// Sample is a model of one explored path with the values observed on it.
type Sample struct {
	Env map[string]uint64 `json:"env"`
	Obs []string          `json:"obs"`
}

// Result is what one exploration found.
type Result struct {
	Job         Job
	Cex         []*Cex
	Incomplete  []string
	Coverage    string
	Unreached   []string
	Reached     map[string]int
	Samples     []Sample
	Paths       int
	Merges      int
	Forks       int
	Instr       int64
	Obligations int
	Folded      int
	OblQueries  int
	Queries     int
	Sat         int
	Unsat       int
	Unknown     int
	SolverMs    int64
	MaxQueryMs  int64
	TotalMs     int64
	Terms       int
	Vars        int
	Functions   []string
	Stubs       map[string]int
	Bounds      map[string]int
	ConcPoints  int
	CrossChecks map[string]string
	LoadMs      int64
	MaxWait     int
}

func runJob(p *Program, j Job) *Result {
	debug.SetGCPercent(300)
	t0 := time.Now()
	r := &Result{Job: j, Coverage: "not asked"}
	e := NewEngine(p)
	defer e.sol.stop()
	setup := func(e *Engine) {
		e.prop, e.strict, e.mapOrder, e.trace = j.Prop, j.Strict, j.MapOrd, j.Trace
		if j.Bounds != nil {
			e.bounds = j.Bounds
		}
		if j.Seconds == 0 {
			j.Seconds = 600
		}
		e.memLimit = uint64(j.MemMB) << 20
		if j.MemMB == 0 {
			e.memLimit = 3400 << 20
		}
		e.deadline = t0.Add(time.Duration(j.Seconds) * time.Second)
	}
	setup(e)
	fn := p.fn("verif/harness/h", j.Fn)
	if fn == nil {
		r.Incomplete = append(r.Incomplete, "no harness "+j.Fn)
		return r
	}
	if j.Conc {
		// first pass: which shared cells do the two activities touch?
		e.concRecord = true
		e.Run(e.spawn(fn, nil))
		acc := e.concAcc
		inc := e.incomplete
		e.sol.stop()
		e = NewEngine(p)
		defer e.sol.stop()
		setup(e)
		e.concAcc = acc
		e.incomplete = inc
	}
	e.Run(e.spawn(fn, nil))
	r.LoadMs = p.load.Milliseconds()
	// the coverage query: every input is either followed to an end or left out by an assumption
	if !e.timedOut {
		all := e.tm.tFalse
		for _, t := range e.covered {
			all = e.tm.Or(all, t)
		}
		for _, t := range e.assumed {
			all = e.tm.Or(all, t)
		}
		res, env := e.sol.Check([]*Term{e.tm.Not(all)}, 60*time.Second, true)
		r.Coverage = map[string]string{"unsat": "complete", "sat": "incomplete", "unknown": "unknown"}[res]
		if res == "sat" {
			e.note("inputs not covered, e.g. %s", showEnv(e.envMap(env)))
		}
	}
	// every assertion and marked point must be reachable
	r.Reached = map[string]int{}
	var names []string
	for n := range e.reachN {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		hit := e.reachOK[n]
		if hit {
			r.Reached[n] = e.reachN[n]
			continue
		}
		for _, t := range e.reach[n] {
			if res, _ := e.sol.Check([]*Term{t}, e.qTimeout, false); res == "sat" {
				hit = true
				break
			}
		}
		if hit {
			r.Reached[n] = e.reachN[n]
		} else {
			r.Unreached = append(r.Unreached, n)
		}
	}
	// the paths partition the inputs: a model belongs to exactly one of them
	e.partition(j.Seed)
	// sampled paths
	rnd := rand.New(rand.NewSource(j.Seed + 1))
	ds := e.done
	rnd.Shuffle(len(ds), func(a, b int) { ds[a], ds[b] = ds[b], ds[a] })
	for _, s := range ds {
		if len(r.Samples) >= j.Samples {
			break
		}
		e.sampleState(s, r, rnd, j.Samples)
	}
	r.Cex = e.cex
	r.Incomplete = e.incomplete
	r.Paths, r.Merges, r.Forks, r.Instr = e.nDone, e.nMerge, e.nFork, e.nInstr
	r.Obligations, r.Folded, r.OblQueries = e.obligations, e.folded, e.oblQueries
	r.Queries, r.Sat, r.Unsat, r.Unknown = e.sol.Queries, e.sol.Sat, e.sol.Unsat, e.sol.Unknown
	r.SolverMs, r.MaxQueryMs = e.sol.Time.Milliseconds(), e.sol.MaxTime.Milliseconds()
	r.Terms, r.Vars = e.tm.n, len(e.tm.vars)
	for f := range e.used {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "verif/") {
			continue
		}
		r.Functions = append(r.Functions, f.String())
	}
	sort.Strings(r.Functions)
	r.Stubs, r.Bounds, r.ConcPoints, r.MaxWait = e.stubs, e.boundsUsed, e.concPoints, e.maxWait
	if len(e.sol.errs) > 0 {
		r.Incomplete = append(r.Incomplete, "solver: "+e.sol.errs[0])
	}
	if len(j.Solvers) > 0 {
		r.CrossChecks = e.crossCheck(j.Solvers)
	}
	r.TotalMs = time.Since(t0).Milliseconds()
	return r
}

// partition checks, for some models, that they belong to exactly one of the ended paths; two would mean
// that a path condition has been weakened on the way.
func (e *Engine) partition(seed int64) {
	if e.timedOut || len(e.covered) == 0 || len(e.incomplete) > 0 {
		return
	}
	rnd := rand.New(rand.NewSource(seed))
	ends := append(append([]*Term(nil), e.covered...), e.assumed...)
	for k := 0; k < 24; k++ {
		t := ends[rnd.Intn(len(ends))]
		res, env := e.sol.Check([]*Term{t}, 2*time.Second, true)
		if res != "sat" {
			continue
		}
		memo := map[*Term]uint64{}
		n := 0
		for _, c := range ends {
			if e.tm.eval(c, env, memo) == 1 {
				n++
			}
		}
		if n != 1 {
			e.note("engine: a model belongs to %d paths (%s)", n, showEnv(e.envMap(env)))
			return
		}
	}
}

func (e *Engine) envMap(env []uint64) map[string]uint64 {
	m := map[string]uint64{}
	for n, t := range e.vars {
		if int(t.val) < len(env) {
			m[n] = env[t.val]
		}
	}
	return m
}

var elemRe = regexp.MustCompile(`^(.*)#(\d+)\[(\d+)\]$`)

// showEnv prints a model with byte sequences as text.
func showEnv(m map[string]uint64) string {
	seq := map[string][]byte{}
	var names []string
	for n, v := range m {
		if x := elemRe.FindStringSubmatch(n); x != nil {
			i, _ := strconv.Atoi(x[3])
			k := x[1] + "#" + x[2]
			for len(seq[k]) <= i {
				seq[k] = append(seq[k], 0)
			}
			seq[k][i] = byte(v)
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	var p []string
	for _, n := range names {
		if !strings.Contains(n, ".len#") {
			p = append(p, fmt.Sprintf("%s=%d", n, m[n]))
		}
	}
	var ks []string
	for k := range seq {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b := seq[k]
		i := strings.LastIndex(k, "#")
		if l, ok := m[k[:i]+".len"+k[i:]]; ok && int(l) < len(b) {
			b = b[:l]
		}
		p = append(p, fmt.Sprintf("%s=%q", k, b))
	}
	return strings.Join(p, " ")
}

// sampleState asks the solver for models of a finished path and evaluates what was observed on it.
func (e *Engine) sampleState(s *State, r *Result, rnd *rand.Rand, limit int) {
	ts := s.pcTerms()
	tries := 2
	if len(e.done) < limit {
		tries = limit/len(e.done) + 1
	}
	for k := 0; k < tries && len(r.Samples) < limit; k++ {
		q := append([]*Term(nil), ts...)
		if k > 0 {
			// push the model away from the solver's favourite by random bits
			for i := 0; i < 6; i++ {
				if len(e.tm.varTerm) == 0 {
					break
				}
				vt := e.tm.varTerm[rnd.Intn(len(e.tm.varTerm))]
				vi := e.tm.vars[vt.val]
				if vi.size > 1 {
					set := make([]uint64, vi.words)
					for b := 0; b < vi.size; b++ {
						if rnd.Intn(2) == 0 {
							set[b/64] |= 1 << uint(b%64)
						}
					}
					q = append(q, e.tm.InSet(vi, set))
				}
			}
		}
		res, env := e.sol.Check(q, 5*time.Second, true)
		if res != "sat" {
			continue
		}
		memo := map[*Term]uint64{}
		var obs []string
		bad := false
		for o := s.obs; o != nil; o = o.prev {
			if strings.HasPrefix(o.name, "\x00") {
				continue
			}
			v, okv := e.concreteVal(s, o.v, env, memo)
			if !okv {
				bad = true
				break
			}
			obs = append(obs, fmt.Sprintf("OBS %s %q", o.name, fmt.Sprint(v)))
		}
		if bad {
			continue
		}
		for a, b := 0, len(obs)-1; a < b; a, b = a+1, b-1 {
			obs[a], obs[b] = obs[b], obs[a]
		}
		r.Samples = append(r.Samples, Sample{Env: e.envMap(env), Obs: obs})
	}
}

// concreteVal evaluates an observed value under a model.
func (e *Engine) concreteVal(s *State, v Value, env []uint64, memo map[*Term]uint64) (interface{}, bool) {
	switch x := v.(type) {
	case *Union:
		for _, a := range x.alts {
			if e.tm.eval(a.g, env, memo) == 1 {
				return e.concreteVal(s, a.v, env, memo)
			}
		}
		return nil, false
	case *Iface:
		if x.t == nil {
			return nil, true
		}
		if t, ok := x.v.(*Term); ok {
			n := e.tm.eval(t, env, memo)
			switch {
			case t.w == 0:
				return n == 1, true
			case isSigned(x.t):
				return sx(n, t.w), true
			}
			return n, true
		}
		if _, isP := x.v.(*Ptr); isP {
			if t := e.textOf(s, x); t != nil {
				return e.concreteVal(s, t, env, memo)
			}
			return nil, false
		}
		return e.concreteVal(s, x.v, env, memo)
	case *Str:
		if x.fs != nil {
			var args []interface{}
			for _, a := range x.fs.args {
				c, ok := e.concreteVal(s, a, env, memo)
				if !ok {
					return nil, false
				}
				args = append(args, c)
			}
			return fmt.Sprintf(x.fs.format, args...), true
		}
		n := int(e.tm.eval(x.len, env, memo))
		off := int(e.tm.eval(x.off, env, memo))
		b := make([]byte, n)
		for i := range b {
			if off+i >= x.arr.n {
				return nil, false
			}
			b[i] = byte(e.tm.eval(x.arr.get(off+i).(*Term), env, memo))
		}
		return string(b), true
	case *Term:
		n := e.tm.eval(x, env, memo)
		if x.w == 0 {
			return n == 1, true
		}
		return sx(n, x.w), true
	}
	return nil, false
}

// crossCheck repeats the decisive queries with other solvers.
func (e *Engine) crossCheck(solvers []string) map[string]string {
	r := map[string]string{}
	all := e.tm.tFalse
	for _, t := range append(append([]*Term(nil), e.covered...), e.assumed...) {
		all = e.tm.Or(all, t)
	}
	for _, sv := range solvers {
		f := strings.Fields(sv)
		s := NewSolver(e.tm, f[0], f[1:]...)
		res, _ := s.Check([]*Term{e.tm.Not(all)}, 120*time.Second, false)
		agree, differ, unknown := 0, 0, 0
		for _, q := range e.decided {
			got, _ := s.Check(q.ts, 60*time.Second, false)
			switch {
			case got == "unknown":
				unknown++
			case got == q.res:
				agree++
			default:
				differ++
			}
		}
		s.stop()
		r[sv] = fmt.Sprintf("coverage query %s; %d assertion queries agree, %d differ, %d unanswered", res, agree, differ, unknown)
		if differ > 0 {
			e.note("solvers disagree: %s", sv)
		}
	}
	return r
}

var _ = types.Identical
