package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type valuer = ssa.Value

type forkReq struct{ conds []*Term }
type deadState struct{}
type goPanic struct{ msg string }
type callReq struct {
	fn   *ssa.Function
	args []Value
	fs   *FmtS
}

type Engine struct {
	seasonals   map[int]bool // objects that are the location nd.Seasonal
	tm          *TM
	sol         *Solver
	prog        *ssa.Program
	fns         map[*ssa.Function]*FuncInfo
	zeros       map[types.Type]Value
	strs        map[string]*Str
	base        map[int]*Obj
	pinned      map[int]bool
	globals     map[*ssa.Global]int
	globalOf    map[int]*ssa.Global
	objIDs      map[[2]int]int
	nobj        int
	nsite       int
	nstate      int
	seq         int
	keyVals     map[ssa.Value]bool
	keyF        map[fieldRef]bool
	keyG        map[*ssa.Global]bool
	strict      bool
	heap        stateHeap
	wait        map[uint64][]*State
	intr        map[string]intrinsic
	redirect    map[string]*ssa.Function
	vars        map[string]*Term
	varNames    []string
	initing     bool
	ordVar      map[int]int
	keyObj      map[int]bool
	fieldKeyC   map[*types.Struct][]bool
	boundsUsed  map[string]int
	errorString types.Type
	wrapError   types.Type
	concRecord  bool
	concAcc     [2]map[int]int
	concPoints  int
	initSites   map[int]int
	initNotes   []string

	nMerge, nMergeTry, maxWait int
	nFork                      int
	nInstr                     int64
	maxInstr                   int64
	obligations, folded        int
	oblQueries                 int
	deadline                   time.Time
	timedOut                   bool
	incomplete                 []string
	cex                        []*Cex
	cexSeen                    map[string]int
	done                       []*State
	nDone                      int
	reach                      map[string][]*Term
	reachN                     map[string]int
	reachOK                    map[string]bool
	feasCache                  map[feasKey]string
	trace                      bool
	qTimeout                   time.Duration
	memAt                      time.Time
	memLimit                   uint64
	models                     []*knownModel
	nModelHit                  int
	bounds                     map[string]int
	prop                       string
	used                       map[*ssa.Function]bool
	covered                    []*Term
	assumed                    []*Term
	ordNext                    int
	lib                        map[string]*ssa.Function
	mapOrder                   bool
	pruned                     int
	maxSteps                   int64
	sample                     map[string]*Term
	satWit                     []witness
	stubs                      map[string]int
	known                      map[string]bool
	decided                    []query
}

type query struct {
	ts  []*Term
	res string
}

type witness struct {
	env []uint64
	obs *obsNode
	end string
}

type feasKey struct {
	pc *PC
	t  *Term
}

// Cex is a counterexample found by the solver.
type Cex struct {
	Kind string // assert, panic, hang
	Msg  string
	Pos  string
	Env  map[string]uint64
	Ctx  map[string]string
}

func (e *Engine) get(f *Frame, o opnd) Value {
	switch o.kind {
	case 0:
		return o.val
	case 1:
		return f.cross[o.idx]
	case 2:
		return f.locals[o.idx]
	}
	return nil
}

func (e *Engine) set(f *Frame, d opnd, v Value) {
	switch d.kind {
	case 1:
		f.cross[d.idx] = v
	case 2:
		f.locals[d.idx] = v
	}
}

// feasible asks the solver whether t is possible in the state.
func (e *Engine) feasible(s *State, t *Term) string {
	k := feasKey{s.pc, t}
	if r, ok := e.feasCache[k]; ok {
		return r
	}
	for i, m := range e.models {
		if m.eval(e.tm, t) && m.holds(e.tm, s.pc) {
			copy(e.models[1:i+1], e.models[:i])
			e.models[0] = m
			e.feasCache[k] = "sat"
			e.nModelHit++
			return "sat"
		}
	}
	r, env := e.sol.Check(append(s.pcTerms(), t), e.qTimeout, true)
	if r == "sat" {
		n := 7
		if len(e.models) < n {
			n = len(e.models)
		}
		e.models = append([]*knownModel{{env: env, memo: map[*Term]uint64{}, pc: map[*PC]bool{}}}, e.models[:n]...)
	}
	e.feasCache[k] = r
	return r
}

// knownModel is an assignment the solver found earlier. It answers "sat" for every query it satisfies.
type knownModel struct {
	env  []uint64
	memo map[*Term]uint64
	pc   map[*PC]bool
}

func (m *knownModel) eval(tm *TM, t *Term) bool {
	for len(m.env) < len(tm.vars) {
		m.env = append(m.env, 0)
	}
	if len(m.memo) > 400000 {
		m.memo = map[*Term]uint64{}
	}
	return tm.eval(t, m.env, m.memo) == 1
}

func (m *knownModel) holds(tm *TM, p *PC) bool {
	if len(m.pc) > 200000 {
		m.pc = map[*PC]bool{}
	}
	var todo []*PC
	r := true
	for ; p != nil; p = p.prev {
		if v, ok := m.pc[p]; ok {
			r = v
			break
		}
		todo = append(todo, p)
	}
	for i := len(todo) - 1; i >= 0; i-- {
		r = r && m.eval(tm, todo[i].t)
		m.pc[todo[i]] = r
	}
	return r
}

// decide resolves a condition, forking the state when both outcomes are possible.
func (e *Engine) decide(s *State, c *Term) bool {
	switch e.eval3(s, c) {
	case yes:
		return true
	case no:
		return false
	}
	if c.op != OInSet {
		nc := e.tm.Not(c)
		r1 := e.feasible(s, c)
		if r1 == "unsat" {
			if !e.addPC(s, nc) {
				panic(deadState{})
			}
			return false
		}
		r2 := e.feasible(s, nc)
		if r2 == "unsat" {
			if !e.addPC(s, c) {
				panic(deadState{})
			}
			return true
		}
	}
	panic(forkReq{[]*Term{c, e.tm.Not(c)}})
}

// possible values of a term under the state's domains (nil: unknown or too many).
func (e *Engine) values(s *State, t *Term, limit int) []uint64 {
	if t.isConst() {
		return []uint64{t.val}
	}
	if t.v != nil && t.tab != nil {
		d := s.dom.get(t.v.id)
		seen := map[uint64]bool{}
		var r []uint64
		for i, x := range t.tab {
			if d != nil && d[i/64]>>(uint(i)%64)&1 == 0 {
				continue
			}
			if !seen[x] {
				seen[x] = true
				r = append(r, x)
				if len(r) > limit {
					return nil
				}
			}
		}
		return r
	}
	if t.tree && len(t.vals) <= limit {
		return t.vals
	}
	if t.op == OIte {
		x, y := e.values(s, t.b, limit), e.values(s, t.c, limit)
		if x != nil && y != nil {
			sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
			sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
			r := mergeVals(x, y)
			if len(r) <= limit {
				return r
			}
		}
	}
	return nil
}

// concretize forks over the values of t.
func (e *Engine) concretize(s *State, t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	vs := e.values(s, t, 1024)
	if vs == nil {
		// ask the solver for the values
		ts := s.pcTerms()
		for len(vs) < 64 {
			q := append([]*Term(nil), ts...)
			for _, v := range vs {
				q = append(q, e.tm.Not(e.tm.Eq(t, e.tm.C(t.w, v))))
			}
			r, env := e.sol.Check(q, e.qTimeout, true)
			if r == "unsat" {
				break
			}
			if r != "sat" {
				unsup("cannot enumerate the values of %s", t.str(4))
			}
			vs = append(vs, e.tm.eval(t, env, map[*Term]uint64{}))
		}
		if len(vs) >= 64 {
			unsup("too many values of %s", t.str(4))
		}
		if len(vs) == 0 {
			panic(deadState{})
		}
	}
	var conds []*Term
	var last uint64
	for _, v := range vs {
		c := e.tm.Eq(t, e.tm.C(t.w, v))
		switch e.eval3(s, c) {
		case yes:
			return v
		case no:
			continue
		}
		conds = append(conds, c)
		last = v
	}
	if len(conds) == 0 {
		panic(deadState{})
	}
	if len(conds) == 1 {
		if !e.addPC(s, conds[0]) {
			panic(deadState{})
		}
		return last
	}
	panic(forkReq{conds})
}

// pick resolves a union by forking.
func (e *Engine) pick(s *State, v Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return v
	}
	var conds []*Term
	var vals []Value
	for _, a := range u.alts {
		switch e.eval3(s, a.g) {
		case yes:
			return a.v
		case no:
			continue
		}
		conds = append(conds, a.g)
		vals = append(vals, a.v)
	}
	if len(conds) == 0 {
		panic(deadState{})
	}
	// drop infeasible alternatives
	var keep []*Term
	var last Value
	for i, c := range conds {
		if c.op != OInSet && e.feasible(s, c) == "unsat" {
			continue
		}
		keep = append(keep, c)
		last = vals[i]
	}
	switch len(keep) {
	case 0:
		panic(deadState{})
	case 1:
		return last // the alternatives of a union are exhaustive
	}
	panic(forkReq{keep})
}

// ---------------------------------------------------------------- running

func (e *Engine) spawn(fn *ssa.Function, args []Value) *State {
	s := &State{heap: &Heap{m: map[int]*Obj{}}, counters: map[string]int{}, sites: map[int]int{}, locks: map[string]int{}}
	for k, v := range e.initSites {
		s.sites[k] = v
	}
	e.nstate++
	s.id = e.nstate
	e.push(s, fn, args, nil, 0)
	return s
}

func (e *Engine) push(s *State, fn *ssa.Function, args, binds []Value, ret int) {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn)
	}
	if len(s.frames) > 200 {
		unsup("call stack too deep in %s", fn)
	}
	fi := e.fnInfo(fn)
	if !e.initing {
		e.used[fn] = true
	}
	f := &Frame{fi: fi, cross: make([]Value, fi.ncross), locals: make([]Value, fi.nlocal), ret: ret}
	all := append(append([]Value(nil), args...), binds...)
	if len(all) != len(fi.params) {
		panic(fmt.Sprintf("arity of %s: %d args, %d params", fn, len(all), len(fi.params)))
	}
	for i, sl := range fi.params {
		f.cross[sl] = all[i]
	}
	s.frames = append(s.frames, f)
}

// Run explores everything reachable from s.
func (e *Engine) Run(s *State) {
	e.enqueue(s)
	for len(e.heap) > 0 {
		if time.Now().After(e.deadline) {
			e.timedOut = true
			e.note("time limit reached with %d states waiting", len(e.heap))
			return
		}
		if now := time.Now(); now.After(e.memAt) {
			e.memAt = now.Add(2 * time.Second)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if e.memLimit > 0 && ms.HeapInuse > e.memLimit {
				e.timedOut = true
				e.note("memory limit reached with %d states waiting", len(e.heap))
				return
			}
		}
		n := e.next()
		n.join = false
		if dbgEnv != nil {
			e.dbgTrace("run", n)
		}
		e.runState(n)
	}
}

func (e *Engine) note(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, x := range e.incomplete {
		if x == m {
			return
		}
	}
	if len(e.incomplete) < 40 {
		e.incomplete = append(e.incomplete, m)
	}
}

func (e *Engine) runState(s *State) {
	work := []*State{s}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			req, stop := e.steps(c)
			if req == nil {
				if stop {
					break
				}
				continue
			}
			e.nFork++
			if dbgEnv != nil {
				e.dbgFork(c, req.conds)
			}
			var kids []*State
			for i, cond := range req.conds {
				k := c
				if i < len(req.conds)-1 {
					k = c.clone(e)
				}
				if e.addPC(k, cond) {
					kids = append(kids, k)
				}
			}
			// cloning keeps c as the last child
			for i := len(kids) - 1; i >= 0; i-- {
				work = append(work, kids[i])
			}
			break
		}
	}
}

// steps executes instructions until the state is queued, ends, or has to fork.
func (e *Engine) steps(s *State) (req *forkReq, stop bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				req = &x
			case callReq:
				req, stop = nil, false
				func() {
					defer func() {
						if r := recover(); r != nil {
							if u, ok := r.(unsupported); ok {
								e.note("unsupported: %s", u.what)
								stop = true
								return
							}
							panic(r)
						}
					}()
					e.push(s, x.fn, x.args, nil, 3)
					s.obs = &obsNode{name: "\x00fs", v: &Str{fs: x.fs}, prev: s.obs}
				}()
			case deadState:
				e.pruned++
				stop = true
			case goPanic:
				e.panicked(s, x.msg)
				stop = true
			case unsupported:
				e.note("unsupported: %s at %s", x.what, e.where(s))
				if e.trace {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", x.what, e.where(s))
				}
				stop = true
			default:
				fmt.Fprintln(os.Stderr, "at", e.where(s))
				panic(r)
			}
		}
	}()
	for {
		if e.exec(s) {
			return nil, true
		}
	}
}

func (e *Engine) where(s *State) string {
	r := ""
	for i := len(s.frames) - 1; i >= 0 && i >= len(s.frames)-4; i-- {
		f := s.frames[i]
		pos := token.NoPos
		if f.idx < len(f.fi.blocks[f.block]) {
			pos = f.fi.blocks[f.block][f.idx].ins.Pos()
		}
		p := e.prog.Fset.Position(pos)
		r += fmt.Sprintf("%s (%s:%d b%d i%d) < ", f.fi.fn, p.Filename, p.Line, f.block, f.idx)
	}
	return r
}

// goTo moves the top frame to a block, evaluating its phis.
func (e *Engine) goTo(s *State, f *Frame, to int) {
	fi := f.fi
	np := fi.nphi[to]
	if np > 0 {
		pi := -1
		for i, p := range fi.fn.Blocks[to].Preds {
			if p.Index == f.block {
				pi = i
				break
			}
		}
		vals := make([]Value, np)
		for i := 0; i < np; i++ {
			vals[i] = e.get(f, fi.blocks[to][i].ops[pi])
		}
		for i := range f.locals {
			f.locals[i] = nil
		}
		for i := 0; i < np; i++ {
			e.set(f, fi.blocks[to][i].dst, vals[i])
		}
	} else {
		for i := range f.locals {
			f.locals[i] = nil
		}
	}
	f.block = to
	f.idx = np
}

// exec executes one instruction; true when the state has been queued or has ended.
func (e *Engine) exec(s *State) bool {
	f := s.frames[len(s.frames)-1]
	ci := &f.fi.blocks[f.block][f.idx]
	e.nInstr++
	s.steps++
	if s.steps > e.maxSteps {
		e.note("step limit reached at %s", e.where(s))
		e.hang(s)
		return true
	}
	switch ins := ci.ins.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Jump:
		e.goTo(s, f, f.fi.fn.Blocks[f.block].Succs[0].Index)
		if len(f.fi.fn.Blocks[f.block].Preds) > 1 && !e.initing {
			e.enqueue(s)
			return true
		}
	case *ssa.If:
		c := e.get(f, ci.ops[0]).(*Term)
		return e.branch(s, f, c)
	case *ssa.Return:
		return e.ret(s, f, ci)
	case *ssa.BinOp:
		e.set(f, ci.dst, e.binop(s, ins, e.get(f, ci.ops[0]), e.get(f, ci.ops[1])))
		f.idx++
	case *ssa.UnOp:
		if ins.Op == token.MUL {
			if e.concSwitch(s, f, ci, e.get(f, ci.ops[0])) {
				return false
			}
			v := e.load(s, e.get(f, ci.ops[0]))
			if e.feed(s, v) {
				return false
			}
			if isString(ins.Type()) {
				// *(*string)(unsafe.Pointer(&bytes))
				v = e.mapAlts(v, func(v Value) Value {
					if sl, ok := v.(*Slice); ok {
						return &Str{alias: sl}
					}
					return v
				})
			}
			e.set(f, ci.dst, v)
		} else {
			e.set(f, ci.dst, e.unop(s, ins, e.get(f, ci.ops[0])))
		}
		f.idx++
	case *ssa.Store:
		if e.concSwitch(s, f, ci, e.get(f, ci.ops[0])) {
			return false
		}
		e.store(s, e.get(f, ci.ops[0]), e.get(f, ci.ops[1]))
		f.idx++
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		id := e.newObj(s, ci.site, t, e.zeroOf(t))
		if e.keyVals[ins] {
			e.keyObj[id] = true
		}
		e.set(f, ci.dst, &Ptr{obj: id})
		f.idx++
	case *ssa.FieldAddr:
		e.set(f, ci.dst, e.mapAlts(e.get(f, ci.ops[0]), func(v Value) Value {
			p, ok := v.(*Ptr)
			if !ok {
				unsup("field address of %s", vstr(v))
			}
			if p.obj == 0 {
				return p
			}
			return &Ptr{obj: p.obj, path: appendPE(p.path, PE{i: ins.Field})}
		}))
		f.idx++
	case *ssa.Field:
		e.set(f, ci.dst, e.mapAlts(e.get(f, ci.ops[0]), func(v Value) Value { return v.(*StructV).f[ins.Field] }))
		f.idx++
	case *ssa.IndexAddr:
		e.set(f, ci.dst, e.indexAddr(s, e.get(f, ci.ops[0]), e.idxTerm(e.get(f, ci.ops[1]), ins.Index.Type())))
		f.idx++
	case *ssa.Index:
		v := e.index(s, e.get(f, ci.ops[0]), e.idxTerm(e.get(f, ci.ops[1]), ins.Index.Type()))
		if e.feed(s, v) {
			return false
		}
		e.set(f, ci.dst, v)
		f.idx++
	case *ssa.Lookup:
		if isString(ins.X.Type()) {
			v := e.index(s, e.get(f, ci.ops[0]), e.idxTerm(e.get(f, ci.ops[1]), ins.Index.Type()))
			if e.feed(s, v) {
				return false
			}
			e.set(f, ci.dst, v)
			f.idx++
			break
		}
		if e.concSwitch(s, f, ci, e.get(f, ci.ops[0])) {
			return false
		}
		e.set(f, ci.dst, e.lookup(s, ins, e.get(f, ci.ops[0]), e.get(f, ci.ops[1])))
		f.idx++
	case *ssa.MapUpdate:
		if e.concSwitch(s, f, ci, e.get(f, ci.ops[0])) {
			return false
		}
		e.mapUpdate(s, e.get(f, ci.ops[0]), e.get(f, ci.ops[1]), e.get(f, ci.ops[2]))
		f.idx++
	case *ssa.MakeMap:
		id := e.newObj(s, ci.site, ins.Type(), &MapObj{})
		e.set(f, ci.dst, &MapRef{obj: id})
		f.idx++
	case *ssa.MakeSlice:
		l := e.idxTerm(e.get(f, ci.ops[0]), ins.Len.Type())
		c := e.idxTerm(e.get(f, ci.ops[1]), ins.Cap.Type())
		lim := e.i64(1 << 30)
		if e.decide(s, e.tm.Cmp(OUlt, lim, l)) {
			panic(goPanic{"makeslice: len out of range"})
		}
		cv := e.concretize(s, c)
		if e.decide(s, e.tm.Cmp(OUlt, c, l)) {
			panic(goPanic{"makeslice: cap out of range"})
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		id := e.newObj(s, ci.site, nil, newPVec(int(cv), e.zeroOf(et)))
		e.set(f, ci.dst, &Slice{obj: id, off: e.i64(0), len: l, cap: e.i64(int(cv))})
		f.idx++
	case *ssa.Slice:
		e.set(f, ci.dst, e.slice(s, ins, e.get(f, ci.ops[0]), e.get(f, ci.ops[1]), e.get(f, ci.ops[2]), e.get(f, ci.ops[3])))
		f.idx++
	case *ssa.Convert:
		if sl, isSl := ins.Type().Underlying().(*types.Slice); isSl && isString(ins.X.Type()) && bitsOf(sl.Elem()) == 32 {
			e.push(s, e.lib["Runes"], []Value{e.get(f, ci.ops[0])}, nil, 0)
			break
		}
		v := e.convert(s, ci, e.get(f, ci.ops[0]), ins.X.Type(), ins.Type())
		e.set(f, ci.dst, v)
		f.idx++
	case *ssa.ChangeType:
		e.set(f, ci.dst, e.get(f, ci.ops[0]))
		f.idx++
	case *ssa.ChangeInterface:
		e.set(f, ci.dst, e.get(f, ci.ops[0]))
		f.idx++
	case *ssa.MakeInterface:
		e.set(f, ci.dst, &Iface{t: ins.X.Type(), v: e.get(f, ci.ops[0])})
		f.idx++
	case *ssa.TypeAssert:
		e.set(f, ci.dst, e.typeAssert(s, ins, e.get(f, ci.ops[0])))
		f.idx++
	case *ssa.Extract:
		v := e.get(f, ci.ops[0])
		e.set(f, ci.dst, e.mapAlts(v, func(v Value) Value { return v.(*TupleV).f[ins.Index] }))
		f.idx++
	case *ssa.MakeClosure:
		fv := &FuncV{fn: ins.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.ops); i++ {
			fv.binds = append(fv.binds, e.get(f, ci.ops[i]))
		}
		e.set(f, ci.dst, fv)
		f.idx++
	case *ssa.Range:
		e.set(f, ci.dst, e.rangeOf(s, ci, e.get(f, ci.ops[0])))
		f.idx++
	case *ssa.Next:
		if e.nextIter(s, f, ci, ins) {
			return false
		}
	case *ssa.Defer:
		d := &deferred{call: &ins.Call, prev: f.defers}
		for i, o := range ci.ops[:len(ins.Call.Args)+1] {
			if i == 0 && !isBuiltin(ins.Call.Value) {
				d.fn = e.get(f, o)
			} else {
				d.args = append(d.args, e.get(f, o))
			}
		}
		f.defers = d
		f.idx++
	case *ssa.RunDefers:
		if f.defers == nil {
			f.idx++
			break
		}
		d := f.defers
		f.defers = d.prev
		if isBuiltin(d.call.Value) {
			break
		}
		fn, args, binds := e.resolve(s, d.call, d.fn, d.args)
		if h := e.intr[fname(fn)]; h != nil {
			if h(e, s, ci, args) == nil {
				_ = h
			}
			break
		}
		if to := e.redirect[fname(fn)]; to != nil {
			fn = to
		}
		e.push(s, fn, args, binds, 1)
	case *ssa.Call:
		return e.call(s, f, ci, ins)
	case *ssa.Panic:
		v := e.get(f, ci.ops[0])
		m := "panic"
		if i, ok := v.(*Iface); ok {
			m = "panic: " + vstr(i.v)
		}
		panic(goPanic{m})
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	default:
		unsup("instruction %T", ci.ins)
	}
	return false
}

func appendPE(p []PE, x PE) []PE {
	n := make([]PE, len(p)+1)
	copy(n, p)
	n[len(p)] = x
	return n
}

func isBuiltin(v ssa.Value) bool { _, ok := v.(*ssa.Builtin); return ok }

func (e *Engine) idxTerm(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		if v == nil {
			return nil
		}
		unsup("index %s", vstr(v))
	}
	if x.w == 64 {
		return x
	}
	if isSigned(t) {
		return e.tm.conv(OSext, x, 64)
	}
	return e.tm.conv(OZext, x, 64)
}

func (e *Engine) branch(s *State, f *Frame, c *Term) bool {
	succ := f.fi.fn.Blocks[f.block].Succs
	var b bool
	switch e.eval3(s, c) {
	case yes:
		b = true
	case no:
		b = false
	default:
		if c.op != OInSet {
			b = e.decide(s, c) // forks by panic and comes back with a known condition
			break
		}
		e.nFork++
		o := s.clone(e)
		ok1 := e.addPC(s, c)
		ok2 := e.addPC(o, e.tm.Not(c))
		if ok1 {
			e.goTo(s, f, succ[0].Index)
			e.enqueue(s)
		}
		if ok2 {
			g := o.top()
			e.goTo(o, g, succ[1].Index)
			e.enqueue(o)
		}
		return true
	}
	to := succ[1]
	if b {
		to = succ[0]
	}
	e.goTo(s, f, to.Index)
	if len(to.Preds) > 1 && !e.initing {
		e.enqueue(s)
		return true
	}
	return false
}

func (e *Engine) ret(s *State, f *Frame, ci *cinstr) bool {
	var v Value
	switch len(ci.ops) {
	case 0:
	case 1:
		v = e.get(f, ci.ops[0])
	default:
		t := &TupleV{}
		for _, o := range ci.ops {
			t.f = append(t.f, e.get(f, o))
		}
		v = t
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		e.finish(s)
		return true
	}
	t := s.top()
	switch f.ret {
	case 0:
		c := &t.fi.blocks[t.block][t.idx]
		e.set(t, c.dst, v)
		t.idx++
	case 1: // re-execute
	case 2:
		t.idx++
	case 3: // rendered text
		n := s.obs
		if n == nil || n.name != "\x00fs" {
			unsup("lost text rendering")
		}
		s.obs = n.prev
		s.ownCounters()
		e.setRendered(s, n.v.(*Str).fs, v)
	case 4: // end of the second activity of a concurrent pair
		c := *s.conc
		c.state = 2
		s.conc = &c
	}
	if len(f.fi.blocks) > 1 && !e.initing {
		e.enqueue(s)
		return true
	}
	return false
}

func (e *Engine) mapAlts(v Value, f func(Value) Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return f(v)
	}
	alts := make([]Alt, 0, len(u.alts))
	for _, a := range u.alts {
		alts = append(alts, Alt{a.g, f(a.v)})
	}
	return e.combine(alts)
}

// ---------------------------------------------------------------- memory

func (e *Engine) at(v Value, path []PE) Value {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[p.i]
		case *PVec:
			if p.sym == nil {
				if p.i < 0 || p.i >= x.n {
					panic(goPanic{"index out of range"})
				}
				v = x.get(p.i)
			} else {
				v = e.muxVec(x, p.sym, p.i)
			}
		case *Union:
			var alts []Alt
			for _, a := range x.alts {
				alts = append(alts, Alt{a.g, e.at(a.v, []PE{p})})
			}
			v = e.combine(alts)
		default:
			unsup("path into %s", vstr(v))
		}
	}
	return v
}

// muxVec reads x[i+base] for a symbolic i known to be in range.
func (e *Engine) muxVec(x *PVec, i *Term, base int) Value {
	if i.v != nil && i.tab != nil {
		// complete table over one variable
		all := true
		tab := make([]uint64, i.v.size)
		w := -1
		for k, ix := range i.tab {
			j := int(ix) + base
			if j < 0 || j >= x.n {
				continue
			}
			t, ok := x.get(j).(*Term)
			if !ok || !t.isConst() || (w >= 0 && t.w != w) {
				all = false
				break
			}
			w = t.w
			tab[k] = t.val
		}
		if all && w >= 0 {
			return e.tabulate(i, w, tab)
		}
	}
	var idx []uint64
	if i.vals != nil {
		idx = i.vals
	} else if i.v != nil && i.tab != nil {
		seen := map[uint64]bool{}
		for _, y := range i.tab {
			if !seen[y] {
				seen[y] = true
				idx = append(idx, y)
			}
		}
	} else if i.hi-i.lo < 4096 {
		for y := i.lo; y <= i.hi; y++ {
			idx = append(idx, y)
		}
	} else {
		for y := 0; y < x.n-base && y < 4096; y++ {
			idx = append(idx, uint64(y))
		}
	}
	var alts []Alt
	var last Value
	for _, y := range idx {
		j := int(y) + base
		if j < 0 || j >= x.n {
			continue
		}
		c := x.get(j)
		if t, ok := c.(*Term); ok {
			if last == nil {
				last = t
			} else {
				last = e.tm.Ite(e.tm.Eq(i, e.tm.C(i.w, y)), t, last.(*Term))
			}
			continue
		}
		alts = append(alts, Alt{e.tm.Eq(i, e.tm.C(i.w, y)), c})
	}
	if last != nil {
		return last
	}
	if len(alts) == 0 {
		return x.zero
	}
	return e.combine(alts)
}

// tabulate makes the term with the given value table over i's variable.
func (e *Engine) tabulate(i *Term, w int, tab []uint64) Value {
	m := e.tm
	if w == 0 {
		s := make([]uint64, i.v.words)
		for k, x := range tab {
			if x == 1 {
				s[k/64] |= 1 << uint(k%64)
			}
		}
		return m.InSet(i.v, s)
	}
	by := map[uint64][]uint64{}
	var order []uint64
	for k, x := range tab {
		if by[x] == nil {
			by[x] = make([]uint64, i.v.words)
			order = append(order, x)
		}
		by[x][k/64] |= 1 << uint(k%64)
	}
	sort.Slice(order, func(a, b int) bool { return order[a] < order[b] })
	r := m.C(w, order[len(order)-1])
	for k := len(order) - 2; k >= 0; k-- {
		r = m.Ite(m.InSet(i.v, by[order[k]]), m.C(w, order[k]), r)
	}
	return r
}

func (e *Engine) load(s *State, v Value) Value {
	switch p := v.(type) {
	case *Ptr:
		if p.obj == 0 {
			panic(goPanic{"nil pointer dereference"})
		}
		return e.at(e.obj(s, p.obj).v, p.path)
	case *Union:
		var alts []Alt
		for _, a := range p.alts {
			if q, ok := a.v.(*Ptr); ok && q.obj == 0 {
				if e.decide(s, a.g) {
					panic(goPanic{"nil pointer dereference"})
				}
				continue
			}
			if e.eval3(s, a.g) == no {
				continue
			}
			alts = append(alts, Alt{a.g, e.load(s, a.v)})
		}
		if len(alts) == 0 {
			panic(deadState{})
		}
		if len(alts) == 1 {
			return alts[0].v
		}
		return e.combine(alts)
	}
	unsup("load from %s", vstr(v))
	return nil
}

func (e *Engine) put(s *State, v Value, path []PE, n Value) Value {
	if len(path) == 0 {
		return n
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		c := e.put(s, x.f[p.i], path[1:], n)
		if c == x.f[p.i] {
			return x
		}
		y := &StructV{f: append([]Value(nil), x.f...)}
		y.f[p.i] = c
		return y
	case *PVec:
		i := p.i
		if p.sym != nil {
			i += int(int64(e.concretize(s, p.sym)))
		}
		if i < 0 || i >= x.n {
			panic(goPanic{"index out of range"})
		}
		return x.set(i, e.put(s, x.get(i), path[1:], n))
	case *Union:
		return e.put(s, e.pick(s, x), path, n)
	}
	unsup("store into %s", vstr(v))
	return nil
}

func (e *Engine) store(s *State, addr, v Value) {
	addr = e.pick(s, addr)
	p, ok := addr.(*Ptr)
	if !ok {
		unsup("store to %s", vstr(addr))
	}
	if p.obj == 0 {
		panic(goPanic{"nil pointer dereference (store)"})
	}
	o := e.obj(s, p.obj)
	n := e.put(s, o.v, p.path, v)
	if n == o.v {
		return
	}
	if e.initing {
		if _, isBase := e.base[p.obj]; isBase {
			e.base[p.obj] = &Obj{v: n, typ: o.typ}
			return
		}
	}
	s.setObj(p.obj, &Obj{v: n, typ: o.typ})
}

func (e *Engine) bound(s *State, i, n *Term, what string) {
	c := e.tm.Cmp(OUlt, i, n)
	if c.isTrue() {
		e.folded++
		e.obligations++
		return
	}
	e.obligations++
	if !e.decide(s, c) {
		panic(goPanic{what})
	}
}

func (e *Engine) indexAddr(s *State, x Value, i *Term) Value {
	x = e.pick(s, x)
	switch v := x.(type) {
	case *Ptr:
		if v.obj == 0 {
			panic(goPanic{"nil array pointer"})
		}
		arr, ok := e.at(e.obj(s, v.obj).v, v.path).(*PVec)
		if !ok {
			unsup("index address of %s", vstr(x))
		}
		e.bound(s, i, e.i64(arr.n), "index out of range")
		return &Ptr{obj: v.obj, path: appendPE(v.path, e.pe(0, i))}
	case *Slice:
		e.bound(s, i, v.len, "index out of range")
		if v.off.isConst() {
			return &Ptr{obj: v.obj, path: appendPE(v.path, e.pe(int(v.off.val), i))}
		}
		return &Ptr{obj: v.obj, path: appendPE(v.path, e.pe(0, e.tm.Bin(OAdd, v.off, i)))}
	}
	unsup("index address of %s", vstr(x))
	return nil
}

func (e *Engine) pe(base int, i *Term) PE {
	if i.isConst() {
		return PE{i: base + int(int64(i.val))}
	}
	return PE{i: base, sym: i}
}

func (e *Engine) index(s *State, x Value, i *Term) Value {
	switch v := x.(type) {
	case *PVec:
		e.bound(s, i, e.i64(v.n), "index out of range")
		p := e.pe(0, i)
		return e.at(v, []PE{p})
	case *Str:
		v = e.plain(s, v)
		e.bound(s, i, v.len, "index out of range (string)")
		return e.strAt(v, i)
	case *Union:
		return e.index(s, e.pick(s, v), i)
	}
	unsup("index of %s", vstr(x))
	return nil
}

func (e *Engine) strAt(v *Str, i *Term) *Term {
	j := e.tm.Bin(OAdd, v.off, i)
	if j.isConst() {
		if int(j.val) >= v.arr.n {
			return e.tm.C(8, 0)
		}
		return v.arr.get(int(j.val)).(*Term)
	}
	return e.muxVec(v.arr, j, 0).(*Term)
}

func (e *Engine) slice(s *State, ins *ssa.Slice, x, lo, hi, mx Value) Value {
	x = e.pick(s, x)
	t := func(v Value, ty ssa.Value) *Term {
		if v == nil || ty == nil {
			return nil
		}
		return e.idxTerm(e.pick(s, v), ty.Type())
	}
	l, h, m := t(lo, ins.Low), t(hi, ins.High), t(mx, ins.Max)
	if l == nil {
		l = e.i64(0)
	}
	switch v := x.(type) {
	case *Str:
		v = e.plain(s, v)
		if h == nil {
			h = v.len
		}
		e.inRange(s, l, h, v.len)
		if l.isConst() && l.val == 0 && h == v.len {
			return v
		}
		if v.con && l.isConst() && h.isConst() {
			return e.str(v.s[l.val:h.val])
		}
		return &Str{arr: v.arr, off: e.tm.Bin(OAdd, v.off, l), len: e.tm.Bin(OSub, h, l)}
	case *Slice:
		if h == nil {
			h = v.len
		}
		c := v.cap
		if m != nil {
			e.inRange(s, h, m, v.cap)
			c = m
		}
		e.inRange(s, l, h, c)
		return &Slice{obj: v.obj, path: v.path, off: e.tm.Bin(OAdd, v.off, l), len: e.tm.Bin(OSub, h, l), cap: e.tm.Bin(OSub, c, l)}
	case *Ptr:
		if v.obj == 0 {
			panic(goPanic{"slice of nil array pointer"})
		}
		arr, ok := e.at(e.obj(s, v.obj).v, v.path).(*PVec)
		if !ok {
			unsup("slice of %s", vstr(x))
		}
		n := e.i64(arr.n)
		if h == nil {
			h = n
		}
		c := n
		if m != nil {
			e.inRange(s, h, m, n)
			c = m
		}
		e.inRange(s, l, h, c)
		return &Slice{obj: v.obj, path: v.path, off: l, len: e.tm.Bin(OSub, h, l), cap: e.tm.Bin(OSub, c, l)}
	}
	unsup("slice of %s", vstr(x))
	return nil
}

func (e *Engine) inRange(s *State, l, h, c *Term) {
	e.obligations++
	k := e.tm.And(e.tm.Cmp(OUle, l, h), e.tm.Cmp(OUle, h, c))
	if k.isTrue() {
		e.folded++
		return
	}
	if !e.decide(s, k) {
		panic(goPanic{"slice bounds out of range"})
	}
}

// ---------------------------------------------------------------- maps

func (e *Engine) mapObj(s *State, m *MapRef) *MapObj {
	if m.obj == 0 {
		return &MapObj{}
	}
	return e.obj(s, m.obj).v.(*MapObj)
}

func (e *Engine) lookup(s *State, ins *ssa.Lookup, x, k Value) Value {
	x = e.pick(s, x)
	mr, ok := x.(*MapRef)
	if !ok {
		unsup("lookup in %s", vstr(x))
	}
	mt := ins.X.Type().Underlying().(*types.Map)
	zero := e.zeroOf(mt.Elem())
	mo := e.mapObj(s, mr)
	var alts []Alt
	none := e.tm.tTrue
	for i, key := range mo.keys {
		g := e.eq(s, key, k)
		switch e.eval3(s, g) {
		case yes:
			alts = append(alts, Alt{none, mo.vals[i]})
			none = e.tm.tFalse
		case no:
			continue
		default:
			alts = append(alts, Alt{e.tm.And(none, g), mo.vals[i]})
			none = e.tm.And(none, e.tm.Not(g))
		}
		if none.isFalse() {
			break
		}
	}
	simple := true
	for _, a := range alts {
		switch a.v.(type) {
		case *Term, *Str, *Ptr, *MapRef, *Union:
		default:
			simple = false
		}
	}
	if !simple || (e.strict && len(alts) > 0 && !none.isFalse()) || (e.strict && len(alts) > 1) {
		// resolve by forking
		found := false
		var v Value = zero
		for i, key := range mo.keys {
			if e.decide(s, e.eq(s, key, k)) {
				found = true
				v = mo.vals[i]
				break
			}
		}
		if ins.CommaOk {
			return &TupleV{f: []Value{v, e.tm.Bool(found)}}
		}
		return v
	}
	if !none.isFalse() {
		alts = append(alts, Alt{none, zero})
	}
	v := e.combine(alts)
	if ins.CommaOk {
		return &TupleV{f: []Value{v, e.tm.Not(none)}}
	}
	return v
}

func (e *Engine) mapUpdate(s *State, x, k, v Value) {
	x = e.pick(s, x)
	k = e.pick(s, k)
	mr, ok := x.(*MapRef)
	if !ok {
		unsup("map update of %s", vstr(x))
	}
	if mr.obj == 0 {
		panic(goPanic{"assignment to entry in nil map"})
	}
	o := e.obj(s, mr.obj)
	mo := o.v.(*MapObj)
	n := &MapObj{}
	hit := -1
	for i, key := range mo.keys {
		if e.decide(s, e.eq(s, key, k)) {
			hit = i
			break
		}
	}
	if hit >= 0 {
		n.keys = mo.keys
		n.vals = append([]Value(nil), mo.vals...)
		n.vals[hit] = v
	} else {
		n.keys = append(append([]Value(nil), mo.keys...), k)
		n.vals = append(append([]Value(nil), mo.vals...), v)
	}
	if e.initing {
		if _, isBase := e.base[mr.obj]; isBase {
			e.base[mr.obj] = &Obj{v: n, typ: o.typ}
			return
		}
	}
	s.setObj(mr.obj, &Obj{v: n, typ: o.typ})
}

func (e *Engine) mapDelete(s *State, x, k Value) {
	x = e.pick(s, x)
	mr := x.(*MapRef)
	if mr.obj == 0 {
		return
	}
	k = e.pick(s, k)
	o := e.obj(s, mr.obj)
	mo := o.v.(*MapObj)
	for i, key := range mo.keys {
		if e.decide(s, e.eq(s, key, k)) {
			n := &MapObj{}
			n.keys = append(append(n.keys, mo.keys[:i]...), mo.keys[i+1:]...)
			n.vals = append(append(n.vals, mo.vals[:i]...), mo.vals[i+1:]...)
			s.setObj(mr.obj, &Obj{v: n, typ: o.typ})
			return
		}
	}
}

func (e *Engine) rangeOf(s *State, ci *cinstr, x Value) Value {
	x = e.pick(s, x)
	var it *IterV
	switch v := x.(type) {
	case *Str:
		it = &IterV{str: e.plain(s, v), pos: e.i64(0)}
	case *MapRef:
		mo := e.mapObj(s, v)
		it = &IterV{m: mo, perm: e.permutation(s, ci, len(mo.keys))}
	default:
		unsup("range over %s", vstr(x))
	}
	id := e.newObj(s, ci.site, nil, it)
	return &Ptr{obj: id}
}

// permutation chooses an iteration order; every order is explored for up to three keys, and two orders
// (insertion and reverse) beyond.
func (e *Engine) permutation(s *State, ci *cinstr, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n < 2 || e.initing || !e.mapOrder {
		return p
	}
	k := s.counters["maporder"]
	var perms [][]int
	if n <= 3 {
		perms = allPerms(n)
	} else {
		q := make([]int, n)
		for i := range q {
			q[i] = n - 1 - i
		}
		perms = [][]int{p, q}
	}
	v := e.variable(fmt.Sprintf("maporder%d_%d", n, k), 8, len(perms), -1)
	c := e.concretize(s, v)
	s.ownCounters()
	s.counters["maporder"] = k + 1
	return perms[c]
}

func allPerms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range allPerms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		for k := range r[i] {
			if r[i][k] != r[j][k] {
				return r[i][k] < r[j][k]
			}
		}
		return false
	})
	return r
}

func (e *Engine) nextIter(s *State, f *Frame, ci *cinstr, ins *ssa.Next) bool {
	p := e.get(f, ci.ops[0]).(*Ptr)
	it := e.obj(s, p.obj).v.(*IterV)
	tm := e.tm
	if it.m != nil {
		// keys deleted or added meanwhile are not tracked: the snapshot is iterated
		if it.k >= len(it.perm) {
			t := ins.Type().(*types.Tuple)
			e.set(f, ci.dst, &TupleV{f: []Value{tm.tFalse, e.zeroOr(t.At(1).Type()), e.zeroOr(t.At(2).Type())}})
			f.idx++
			return false
		}
		i := it.perm[it.k]
		n := *it
		n.k++
		s.setObj(p.obj, &Obj{v: &n})
		e.set(f, ci.dst, &TupleV{f: []Value{tm.tTrue, it.m.keys[i], it.m.vals[i]}})
		f.idx++
		return false
	}
	// strings: decode one rune
	if !e.decide(s, tm.Cmp(OUlt, it.pos, it.str.len)) {
		e.set(f, ci.dst, &TupleV{f: []Value{tm.tFalse, e.i64(0), tm.C(32, 0)}})
		f.idx++
		return false
	}
	b := e.strAt(it.str, it.pos)
	if e.feed(s, b) {
		return true
	}
	adv := func(r *Term, n int) {
		e.set(f, ci.dst, &TupleV{f: []Value{tm.tTrue, it.pos, r}})
		m := *it
		m.pos = tm.Bin(OAdd, it.pos, e.i64(n))
		s.setObj(p.obj, &Obj{v: &m})
		f.idx++
	}
	if e.decide(s, tm.Cmp(OUlt, b, tm.C(8, 0x80))) {
		adv(tm.conv(OZext, b, 32), 1)
		return false
	}
	rest := tm.Bin(OSub, it.str.len, it.pos)
	at := func(i int) *Term { return e.strAt(it.str, tm.Bin(OAdd, it.pos, e.i64(i))) }
	in := func(t *Term, lo, hi int) *Term {
		return tm.And(tm.Cmp(OUle, tm.C(8, uint64(lo)), t), tm.Cmp(OUle, t, tm.C(8, uint64(hi))))
	}
	have := func(n int) bool { return e.decide(s, tm.Cmp(OUle, e.i64(n), rest)) }
	z := func(t *Term) *Term { return tm.conv(OZext, t, 32) }
	sh := func(t *Term, m, k uint64) *Term {
		return tm.Bin(OShl, tm.Bin(OBand, z(t), tm.C(32, m)), tm.C(32, k))
	}
	or := func(a, b *Term) *Term { return tm.Bin(OBor, a, b) }
	bad := tm.C(32, 0xFFFD)
	type cl struct{ lo, hi, n, l2, h2 int }
	for _, c := range []cl{{0xC2, 0xDF, 2, 0x80, 0xBF}, {0xE0, 0xE0, 3, 0xA0, 0xBF}, {0xE1, 0xEC, 3, 0x80, 0xBF}, {0xED, 0xED, 3, 0x80, 0x9F}, {0xEE, 0xEF, 3, 0x80, 0xBF}, {0xF0, 0xF0, 4, 0x90, 0xBF}, {0xF1, 0xF3, 4, 0x80, 0xBF}, {0xF4, 0xF4, 4, 0x80, 0x8F}} {
		if !e.decide(s, in(b, c.lo, c.hi)) {
			continue
		}
		if !have(c.n) {
			adv(bad, 1)
			return false
		}
		for i := 1; i < c.n; i++ {
			if e.feed(s, at(i)) {
				return true
			}
		}
		ok := in(at(1), c.l2, c.h2)
		for i := 2; i < c.n; i++ {
			ok = tm.And(ok, in(at(i), 0x80, 0xBF))
		}
		if !e.decide(s, ok) {
			adv(bad, 1)
			return false
		}
		switch c.n {
		case 2:
			adv(or(sh(b, 0x1F, 6), sh(at(1), 0x3F, 0)), 2)
		case 3:
			adv(or(or(sh(b, 0xF, 12), sh(at(1), 0x3F, 6)), sh(at(2), 0x3F, 0)), 3)
		case 4:
			adv(or(or(or(sh(b, 7, 18), sh(at(1), 0x3F, 12)), sh(at(2), 0x3F, 6)), sh(at(3), 0x3F, 0)), 4)
		}
		return false
	}
	adv(bad, 1)
	return false
}

func (e *Engine) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return e.zeroOf(t)
}
