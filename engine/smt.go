package main

// SMT-LIB2 back end: one z3 process, terms are emitted once as define-fun and shared by all queries.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	tm      *TM
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	epoch   int
	bin     string
	args    []string
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	MaxTime time.Duration
	size    int
	log     io.Writer
	errs    []string
	soft    time.Duration // longer queries go to a solver process of their own
	OneShot int
	rec     *[]emitted
}

// emitted remembers the mark of a term defined in another solver process.
type emitted struct {
	t    *Term
	mark int
}

func NewSolver(tm *TM, bin string, args ...string) *Solver {
	return &Solver{tm: tm, bin: bin, args: args, soft: 1500 * time.Millisecond}
}

func (s *Solver) start() error {
	s.epoch++
	s.size = 0
	s.cmd = exec.Command(s.bin, s.args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	s.inC, s.in, s.out = w, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvc(w int, v uint64) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return bvc(t.w, t.val)
	case OVar, OBoolVar:
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(t.id)
}

// define emits the cone of t.
func (s *Solver) define(root *Term) {
	if root.op == OConst || root.emit == s.epoch {
		return
	}
	stack := []*Term{root}
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		if t.emit == s.epoch || t.op == OConst {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, c := range []*Term{t.a, t.b, t.c} {
			if c != nil && c.op != OConst && c.emit != s.epoch {
				stack = append(stack, c)
				ready = false
			}
		}
		if t.op == OInSet {
			vt := s.tm.varTerm[t.v.id]
			if vt.emit != s.epoch {
				stack = append(stack, vt)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		if s.rec != nil {
			*s.rec = append(*s.rec, emitted{t, t.emit})
		}
		t.emit = s.epoch
		s.size++
		switch t.op {
		case OVar, OBoolVar:
			fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.val, sortName(t.w))
			if vi := s.tm.vars[t.val]; vi.size > 0 && uint64(vi.size) <= mask(vi.w) {
				fmt.Fprintf(s.in, "(assert (bvult v%d %s))\n", t.val, bvc(vi.w, uint64(vi.size)))
			}
			continue
		}
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), s.body(t))
	}
}

func (s *Solver) body(t *Term) string {
	switch t.op {
	case OInSet:
		vi := t.v
		v := "v" + strconv.Itoa(vi.id)
		var p []string
		for i := 0; i < vi.size; i++ {
			if t.set[i/64]>>(uint(i)%64)&1 == 0 {
				continue
			}
			j := i
			for j+1 < vi.size && t.set[(j+1)/64]>>(uint(j+1)%64)&1 == 1 {
				j++
			}
			switch {
			case i == j:
				p = append(p, fmt.Sprintf("(= %s %s)", v, bvc(vi.w, uint64(i))))
			case i == 0:
				p = append(p, fmt.Sprintf("(bvule %s %s)", v, bvc(vi.w, uint64(j))))
			case uint64(j) == mask(vi.w) || j == vi.size-1:
				p = append(p, fmt.Sprintf("(bvuge %s %s)", v, bvc(vi.w, uint64(i))))
			default:
				p = append(p, fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", v, bvc(vi.w, uint64(i)), v, bvc(vi.w, uint64(j))))
			}
			i = j
		}
		if len(p) == 1 {
			return p[0]
		}
		return "(or " + strings.Join(p, " ") + ")"
	case ONot:
		return "(not " + s.ref(t.a) + ")"
	case OAnd:
		return "(and " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OOr:
		return "(or " + s.ref(t.a) + " " + s.ref(t.b) + ")"
	case OIte:
		return "(ite " + s.ref(t.a) + " " + s.ref(t.b) + " " + s.ref(t.c) + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.ref(t.a))
	}
	n, ok := opNames[t.op]
	if !ok {
		panic(fmt.Sprintf("no SMT name for op %d", t.op))
	}
	return "(" + n + " " + s.ref(t.a) + " " + s.ref(t.b) + ")"
}

// Check decides the conjunction of the terms. res is "sat", "unsat" or "unknown".
func (s *Solver) Check(ts []*Term, timeout time.Duration, model bool) (res string, env []uint64) {
	for _, t := range ts {
		if t.isFalse() {
			return "unsat", nil
		}
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	if s.cmd == nil || s.size > 600000 {
		s.stop()
		if err := s.start(); err != nil {
			s.errs = append(s.errs, err.Error())
			return "unknown", nil
		}
	}
	s.Queries++
	if os.Getenv("ENGINE_Q") != "" {
		defer func() { fmt.Fprintln(os.Stderr, "query", s.Queries, time.Since(t0), res, len(ts), s.size) }()
	}
	for _, t := range ts {
		s.define(t)
	}
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, t := range ts {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(t))
	}
	full := timeout
	if s.soft > 0 && s.soft < timeout {
		timeout = s.soft
	}
	if strings.Contains(s.bin, "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", timeout.Milliseconds())
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.errs = append(s.errs, err.Error())
		s.stop()
		s.Unknown++
		return "unknown", nil
	}
	timer := time.AfterFunc(timeout+time.Second, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
	})
	line, err := s.out.ReadString('\n')
	timer.Stop()
	line = strings.TrimSpace(line)
	if err != nil || (line != "sat" && line != "unsat" && line != "unknown" && line != "timeout") {
		// the process was stuck or is broken: decide the query in a fresh one
		s.stop()
		if timeout < full && err != nil {
			if line, env = s.oneShot(ts, full, model); line != "unknown" {
				return line, env
			}
		}
		s.errs = append(s.errs, fmt.Sprintf("%s %v", line, err))
		s.Unknown++
		return "unknown", nil
	}
	switch line {
	case "sat":
		s.Sat++
		if model {
			env = s.model()
		}
	case "unsat":
		s.Unsat++
	default:
		line = "unknown"
	}
	if s.cmd != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	if line == "unknown" && timeout < full {
		line, env = s.oneShot(ts, full, model)
	}
	if line == "unknown" {
		s.Unknown++
	}
	return line, env
}

// oneShot decides a query in a fresh process, where the solver may preprocess it as a whole.
func (s *Solver) oneShot(ts []*Term, timeout time.Duration, model bool) (string, []uint64) {
	s.OneShot++
	var rec []emitted
	n := &Solver{tm: s.tm, bin: s.bin, args: s.args, epoch: -s.OneShot - 1, rec: &rec}
	defer func() {
		n.stop()
		for _, r := range rec {
			r.t.emit = r.mark
		}
		s.errs = append(s.errs, n.errs...)
	}()
	if err := n.start(); err != nil {
		return "unknown", nil
	}
	if d := os.Getenv("ENGINE_SLOW"); d != "" {
		// debugging aid: keep the query
		if f, err := os.Create(fmt.Sprintf("%s/slow%d.smt2", d, s.OneShot)); err == nil {
			defer f.Close()
			n.in = bufio.NewWriterSize(io.MultiWriter(n.inC, f), 1<<16)
		}
	}
	for _, t := range ts {
		n.define(t)
	}
	for _, t := range ts {
		fmt.Fprintf(n.in, "(assert %s)\n", n.ref(t))
	}
	if strings.Contains(n.bin, "z3") {
		fmt.Fprintf(n.in, "(set-option :timeout %d)\n", timeout.Milliseconds())
	}
	fmt.Fprintf(n.in, "(check-sat)\n")
	if n.in.Flush() != nil {
		return "unknown", nil
	}
	timer := time.AfterFunc(timeout+20*time.Second, func() { n.cmd.Process.Kill() })
	line, err := n.out.ReadString('\n')
	timer.Stop()
	line = strings.TrimSpace(line)
	switch {
	case err != nil:
		return "unknown", nil
	case line == "sat":
		s.Sat++
		if model {
			return line, n.model()
		}
		return line, nil
	case line == "unsat":
		s.Unsat++
		return line, nil
	}
	return "unknown", nil
}

func (s *Solver) model() []uint64 {
	env := make([]uint64, len(s.tm.vars))
	var ids []string
	for i, t := range s.tm.varTerm {
		if t.emit == s.epoch {
			ids = append(ids, "v"+strconv.Itoa(i))
		}
	}
	if len(ids) == 0 {
		return env
	}
	fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(ids, " "))
	s.in.Flush()
	depth := 0
	var b strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.errs = append(s.errs, err.Error())
			s.stop()
			return env
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(b.String()))
	for i := 0; i+1 < len(f); {
		id, err := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
		if err != nil {
			i++
			continue
		}
		v := f[i+1]
		i += 2
		switch {
		case v == "true":
			env[id] = 1
		case v == "false":
			env[id] = 0
		case strings.HasPrefix(v, "#x"):
			env[id], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			env[id], _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_" && i < len(f):
			env[id], _ = strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			i += 2
		}
	}
	return env
}
