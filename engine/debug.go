package main

import (
	"encoding/json"
	"fmt"
	"os"
)

// Debugging aid: ENGINE_TRACE names a file with a model; the symbolic states that contain the model are
// printed as they are run, so that a disagreement with the native run can be located.
var dbgEnv map[string]uint64

func init() {
	if f := os.Getenv("ENGINE_TRACE"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		var m struct{ Env map[string]uint64 }
		if err := json.Unmarshal(b, &m); err != nil {
			fatal("%v", err)
		}
		dbgEnv = m.Env
	}
}

func (e *Engine) dbgVars() []uint64 {
	env := make([]uint64, len(e.tm.varTerm))
	for n, t := range e.vars {
		if v, ok := dbgEnv[n]; ok {
			env[t.val] = v
		}
	}
	return env
}

func (e *Engine) dbgIn(s *State) bool {
	env := e.dbgVars()
	memo := map[*Term]uint64{}
	for _, t := range s.pcTerms() {
		if e.tm.eval(t, env, memo) != 1 {
			return false
		}
	}
	return true
}

func (e *Engine) dbgTrace(what string, s *State) {
	if e.initing || !e.dbgIn(s) {
		return
	}
	env := e.dbgVars()
	memo := map[*Term]uint64{}
	f := s.top()
	r := ""
	for i, v := range f.cross {
		if t, ok := v.(*Term); ok {
			r += fmt.Sprintf(" c%d=%d", i, int64(e.tm.eval(t, env, memo)))
		}
	}
	fmt.Fprintln(os.Stderr, "TRACE", what, s.id, e.where(s), r)
}

func (e *Engine) dbgFork(s *State, conds []*Term) {
	if e.initing || !e.dbgIn(s) {
		return
	}
	env := e.dbgVars()
	memo := map[*Term]uint64{}
	n := 0
	r := ""
	for _, c := range conds {
		v := e.tm.eval(c, env, memo)
		n += int(v)
		r += fmt.Sprintf(" %d:%.200s", v, c)
	}
	if n != 1 {
		fmt.Fprintln(os.Stderr, "FORK covers the model", n, "times", s.id, e.where(s), r)
	}
}
