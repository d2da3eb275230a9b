package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- path conditions and domains

type PC struct {
	t     *Term
	prev  *PC
	depth int
	all   map[*Term]bool // every conjunct up to this one; computed when needed, on every 32nd
}

// has tells whether t is a conjunct.
func (p *PC) has(t *Term) bool {
	for ; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
		if p.depth%32 == 0 {
			if p.all == nil {
				p.all = map[*Term]bool{}
				for q := p; q != nil; q = q.prev {
					if q != p && q.all != nil {
						for t := range q.all {
							p.all[t] = true
						}
						break
					}
					p.all[q.t] = true
				}
			}
			return p.all[t]
		}
	}
	return false
}

type Dom struct{ ch []*[chunk][]uint64 }

func (d *Dom) get(i int) []uint64 {
	if d == nil || i/chunk >= len(d.ch) || d.ch[i/chunk] == nil {
		return nil
	}
	return d.ch[i/chunk][i%chunk]
}

func (d *Dom) set(i int, s []uint64) *Dom {
	n := &Dom{}
	l := i/chunk + 1
	if d != nil && len(d.ch) > l {
		l = len(d.ch)
	}
	n.ch = make([]*[chunk][]uint64, l)
	if d != nil {
		copy(n.ch, d.ch)
	}
	c := new([chunk][]uint64)
	if n.ch[i/chunk] != nil {
		*c = *n.ch[i/chunk]
	}
	c[i%chunk] = s
	n.ch[i/chunk] = c
	return n
}

func sameSet(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func unionDom(a, b *Dom) *Dom {
	if a == b || a == nil || b == nil {
		if a == b {
			return a
		}
		return nil
	}
	l := len(a.ch)
	if len(b.ch) < l {
		l = len(b.ch)
	}
	n := &Dom{ch: make([]*[chunk][]uint64, l)}
	for i := 0; i < l; i++ {
		x, y := a.ch[i], b.ch[i]
		if x == y {
			n.ch[i] = x
			continue
		}
		if x == nil || y == nil {
			continue
		}
		c := new([chunk][]uint64)
		for j := range c {
			p, q := x[j], y[j]
			if p == nil || q == nil {
				continue
			}
			if sameSet(p, q) {
				c[j] = p
				continue
			}
			u := make([]uint64, len(p))
			for k := range u {
				u[k] = p[k] | q[k]
			}
			c[j] = u
		}
		n.ch[i] = c
	}
	return n
}

// ---------------------------------------------------------------- heap

type Obj struct {
	v   Value
	typ types.Type
	fp  uint64 // fingerprint of what must agree when states merge; 0: not computed
}

type Heap struct {
	m      map[int]*Obj
	shared bool
}

// ---------------------------------------------------------------- functions

type opnd struct {
	kind uint8 // 0: constant value, 1: cross register, 2: local register, 3: global, 4: nil
	idx  int
	val  Value
}

type cinstr struct {
	ins  ssa.Instruction
	ops  []opnd
	dst  opnd // kind 1 or 2, 4 if none
	site int
}

type FuncInfo struct {
	fn       *ssa.Function
	ncross   int
	nlocal   int
	params   []int // cross slots of parameters and free variables
	blocks   [][]cinstr
	nphi     []int
	order    []int
	live     [][]uint64 // cross registers live at block start
	crossKey []bool
	crossTyp []types.Type
	steps    int64
	noMerge  bool
	id       int
}

func (e *Engine) fnInfo(fn *ssa.Function) *FuncInfo {
	if f, ok := e.fns[fn]; ok {
		return f
	}
	f := &FuncInfo{fn: fn, id: len(e.fns) + 1}
	e.fns[fn] = f
	slot := map[ssa.Value]opnd{}
	cross := func(v ssa.Value) {
		slot[v] = opnd{kind: 1, idx: f.ncross}
		f.crossTyp = append(f.crossTyp, v.Type())
		f.crossKey = append(f.crossKey, e.keyVals[v])
		f.ncross++
	}
	for _, p := range fn.Params {
		f.params = append(f.params, f.ncross)
		cross(p)
	}
	for _, p := range fn.FreeVars {
		f.params = append(f.params, f.ncross)
		cross(p)
	}
	for _, b := range fn.Blocks {
		nl := 0
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok {
				continue
			}
			local := true
			if rs := v.Referrers(); rs != nil {
				for _, r := range *rs {
					if r.Block() != b {
						local = false
						break
					}
					if _, isPhi := r.(*ssa.Phi); isPhi {
						local = false
						break
					}
				}
			}
			if _, isAlloc := ins.(*ssa.Alloc); isAlloc {
				_ = isAlloc
			}
			if local {
				slot[v] = opnd{kind: 2, idx: nl}
				nl++
			} else {
				cross(v)
			}
		}
		if nl > f.nlocal {
			f.nlocal = nl
		}
	}
	var rands []*ssa.Value
	for _, b := range fn.Blocks {
		var cs []cinstr
		np := 0
		for _, ins := range b.Instrs {
			ci := cinstr{ins: ins, dst: opnd{kind: 4}}
			e.nsite++
			ci.site = e.nsite
			if _, ok := ins.(*ssa.Phi); ok {
				np++
			}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = slot[v]
			}
			rands = ins.Operands(rands[:0])
			for _, r := range rands {
				ci.ops = append(ci.ops, e.operand(*r, slot))
			}
			cs = append(cs, ci)
		}
		f.blocks = append(f.blocks, cs)
		f.nphi = append(f.nphi, np)
	}
	f.order = blockOrder(fn)
	f.liveness()
	return f
}

func (e *Engine) operand(v ssa.Value, slot map[ssa.Value]opnd) opnd {
	if v == nil {
		return opnd{kind: 4}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: 0, val: e.constVal(x)}
	case *ssa.Global:
		return opnd{kind: 0, val: &Ptr{obj: e.globalObj(x)}}
	case *ssa.Function:
		return opnd{kind: 0, val: &FuncV{fn: x}}
	case *ssa.Builtin:
		return opnd{kind: 4}
	}
	o, ok := slot[v]
	if !ok {
		panic("no slot for " + v.Name() + " in " + v.Parent().String())
	}
	return o
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zeroOf(t)
	}
	if isString(t) {
		return e.str(constant.StringVal(c.Value))
	}
	w := bitsOf(t)
	switch {
	case w == 0:
		return e.tm.Bool(constant.BoolVal(c.Value))
	case w > 0:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return e.tm.C(w, uint64(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return e.tm.C(w, u)
	}
	return &Opaque{"const " + c.String()}
}

// liveness of cross registers (at block starts, after phis).
func (f *FuncInfo) liveness() {
	words := (f.ncross + 63) / 64
	n := len(f.blocks)
	use := make([][]uint64, n)
	def := make([][]uint64, n)
	out := make([][]uint64, n)
	f.live = make([][]uint64, n)
	for i := range f.blocks {
		use[i] = make([]uint64, words)
		def[i] = make([]uint64, words)
		out[i] = make([]uint64, words)
		f.live[i] = make([]uint64, words)
	}
	for i, cs := range f.blocks {
		b := f.fn.Blocks[i]
		for k, c := range cs {
			if k < f.nphi[i] {
				// operands are used at the end of the predecessors
				for pi, o := range c.ops {
					if o.kind == 1 {
						p := b.Preds[pi].Index
						out[p][o.idx/64] |= 1 << uint(o.idx%64)
					}
				}
				if c.dst.kind == 1 {
					// defined on entry: live-in after phis includes them if used; treat as defined before
				}
				continue
			}
			for _, o := range c.ops {
				if o.kind == 1 && def[i][o.idx/64]>>uint(o.idx%64)&1 == 0 {
					use[i][o.idx/64] |= 1 << uint(o.idx%64)
				}
			}
			if c.dst.kind == 1 {
				def[i][c.dst.idx/64] |= 1 << uint(c.dst.idx%64)
			}
		}
	}
	phiDef := make([][]uint64, n)
	for i, cs := range f.blocks {
		phiDef[i] = make([]uint64, words)
		for k := 0; k < f.nphi[i]; k++ {
			if d := cs[k].dst; d.kind == 1 {
				phiDef[i][d.idx/64] |= 1 << uint(d.idx%64)
			}
		}
	}
	base := make([][]uint64, n)
	for i := range base {
		base[i] = append([]uint64(nil), out[i]...)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			o := append([]uint64(nil), base[i]...)
			for _, s := range f.fn.Blocks[i].Succs {
				for w := range o {
					o[w] |= f.live[s.Index][w] &^ phiDef[s.Index][w]
				}
			}
			for w := range o {
				l := use[i][w] | (o[w] &^ def[i][w])
				if l != f.live[i][w] {
					f.live[i][w] = l
					changed = true
				}
			}
		}
	}
}

// blockOrder numbers the blocks in a weak topological order: loop bodies come before loop exits.
func blockOrder(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	order := make([]int, n)
	for i := range order {
		order[i] = -1
	}
	next := 0
	var visit func(nodes []int, entry int)
	visit = func(nodes []int, entry int) {
		in := make(map[int]bool, len(nodes))
		for _, x := range nodes {
			in[x] = true
		}
		sccs := tarjan(fn, nodes, in, entry)
		// tarjan yields reverse topological order
		for i := len(sccs) - 1; i >= 0; i-- {
			c := sccs[i]
			if len(c) == 1 {
				order[c[0]] = next
				next++
				continue
			}
			// head: a node entered from outside the component (first in DFS)
			cin := map[int]bool{}
			for _, x := range c {
				cin[x] = true
			}
			head := -1
			for _, x := range c {
				if x == entry {
					head = x
					break
				}
			}
			if head < 0 {
				best := -1
				for _, x := range c {
					k := 0
					for _, p := range fn.Blocks[x].Preds {
						if !cin[p.Index] && order[p.Index] >= 0 {
							k++
						}
					}
					if k > best {
						best, head = k, x
					}
				}
			}
			order[head] = next
			next++
			rest := c[:0:0]
			for _, x := range c {
				if x != head {
					rest = append(rest, x)
				}
			}
			visit(rest, -1)
		}
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	visit(all, 0)
	return order
}

func tarjan(fn *ssa.Function, nodes []int, in map[int]bool, entry int) [][]int {
	idx := map[int]int{}
	low := map[int]int{}
	on := map[int]bool{}
	var st []int
	var res [][]int
	cnt := 0
	type fr struct{ v, i int }
	run := func(r int) {
		stack := []fr{{r, 0}}
		idx[r], low[r] = cnt, cnt
		cnt++
		st = append(st, r)
		on[r] = true
		for len(stack) > 0 {
			f := &stack[len(stack)-1]
			succ := fn.Blocks[f.v].Succs
			if f.i < len(succ) {
				w := succ[f.i].Index
				f.i++
				if !in[w] {
					continue
				}
				if _, ok := idx[w]; !ok {
					idx[w], low[w] = cnt, cnt
					cnt++
					st = append(st, w)
					on[w] = true
					stack = append(stack, fr{w, 0})
				} else if on[w] && idx[w] < low[f.v] {
					low[f.v] = idx[w]
				}
				continue
			}
			v := f.v
			stack = stack[:len(stack)-1]
			if len(stack) > 0 {
				p := stack[len(stack)-1].v
				if low[v] < low[p] {
					low[p] = low[v]
				}
			}
			if low[v] == idx[v] {
				var c []int
				for {
					w := st[len(st)-1]
					st = st[:len(st)-1]
					on[w] = false
					c = append(c, w)
					if w == v {
						break
					}
				}
				// keep discovery order
				for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
					c[i], c[j] = c[j], c[i]
				}
				res = append(res, c)
			}
		}
	}
	if entry >= 0 {
		run(entry)
	}
	for _, v := range nodes {
		if _, ok := idx[v]; !ok {
			run(v)
		}
	}
	return res
}

// ---------------------------------------------------------------- states

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	prev *deferred
}

type Frame struct {
	fi     *FuncInfo
	block  int
	idx    int
	cross  []Value
	locals []Value
	defers *deferred
	// what happens on return: 0 store into dst of the call instruction, 1 re-execute the instruction,
	// 2 continue with the next instruction ignoring the result
	ret int
}

type obsNode struct {
	name string
	v    Value
	prev *obsNode
}

// Track is an input with a monitor that is stepped when a byte of the input is first looked at.
type Track struct {
	bytes []*Term
	pos   map[int]int // variable order -> position
	off   int
	len   *Term
	step  *FuncV
	fed   int
}

type State struct {
	id       int
	frames   []*Frame
	heap     *Heap
	pc       *PC
	dom      *Dom
	prog     int // input progress
	counters map[string]int
	sites    map[int]int
	shareCnt bool
	track    *Track
	locks    map[string]int
	lockSh   bool
	obs      *obsNode
	conc     *concState
	steps    int64
	mode     int // merge policy
	dirty    bool
	key      []int32
	hash     uint64
	dead     bool
	seq      int
	heapIdx  int
	rend     map[*FmtS]Value
	join     bool
	apart    uint64 // states that differ here are never merged
}

type concState struct {
	b     *FuncV
	state int // 0: b not started; 1: b runs inside the first activity; 2: b done; 3: b runs after it
	base  map[int]bool
}

func (s *State) clone(e *Engine) *State {
	n := *s
	e.nstate++
	n.id = e.nstate
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.cross = append([]Value(nil), f.cross...)
		g.locals = append([]Value(nil), f.locals...)
		n.frames[i] = &g
	}
	s.heap.shared = true
	s.shareCnt, n.shareCnt = true, true
	s.lockSh, n.lockSh = true, true
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) ownHeap() map[int]*Obj {
	if s.heap.shared {
		m := make(map[int]*Obj, len(s.heap.m)+4)
		for k, v := range s.heap.m {
			m[k] = v
		}
		s.heap = &Heap{m: m}
	}
	return s.heap.m
}

func (s *State) ownCounters() {
	if s.shareCnt {
		c := make(map[string]int, len(s.counters)+1)
		for k, v := range s.counters {
			c[k] = v
		}
		s.counters = c
		d := make(map[int]int, len(s.sites)+1)
		for k, v := range s.sites {
			d[k] = v
		}
		s.sites = d
		s.shareCnt = false
	}
}

func (e *Engine) obj(s *State, id int) *Obj {
	if o, ok := s.heap.m[id]; ok {
		return o
	}
	o := e.base[id]
	if o == nil {
		panic(fmt.Sprintf("no object %d", id))
	}
	return o
}

func (s *State) setObj(id int, o *Obj) { s.ownHeap()[id] = o; s.dirty = true }

// newObj allocates an object; the identity depends only on the site and its allocation count.
func (e *Engine) newObj(s *State, site int, typ types.Type, v Value) int {
	s.ownCounters()
	k := s.sites[site]
	s.sites[site] = k + 1
	id := e.objID(site, k)
	s.setObj(id, &Obj{v: v, typ: typ})
	return id
}

func (e *Engine) objID(site, k int) int {
	key := [2]int{site, k}
	if id, ok := e.objIDs[key]; ok {
		return id
	}
	e.nobj++
	e.objIDs[key] = e.nobj
	return e.nobj
}

func (e *Engine) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	e.nobj++
	id := e.nobj
	e.globals[g] = id
	t := g.Type().(*types.Pointer).Elem()
	e.base[id] = &Obj{v: e.zeroOf(t), typ: t}
	e.globalOf[id] = g
	return id
}

// addPC assumes t; false if the state became infeasible.
func (e *Engine) addPC(s *State, t *Term) bool { return e.addPC1(s, t, false) }

// addPC1 is addPC; force records the conjunct even where the domains already imply it (after a merge the
// domains hold facts the recorded condition does not).
func (e *Engine) addPC1(s *State, t *Term, force bool) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	if t.op == OAnd {
		return e.addPC1(s, t.a, force) && e.addPC1(s, t.b, force)
	}
	if t.op == OInSet {
		if d := s.dom.get(t.v.id); d != nil {
			n := make([]uint64, len(d))
			any := false
			same := true
			for i := range n {
				n[i] = d[i] & t.set[i]
				any = any || n[i] != 0
				same = same && n[i] == d[i]
			}
			if !any {
				return false
			}
			if same && !force {
				return true
			}
			s.dom = s.dom.set(t.v.id, n)
		} else {
			s.dom = s.dom.set(t.v.id, t.set)
		}
	}
	d := 1
	if s.pc != nil {
		d = s.pc.depth + 1
	}
	s.pc = &PC{t: t, prev: s.pc, depth: d}
	return true
}

// pcTerms lists the conjuncts of the path condition.
func (s *State) pcTerms() []*Term {
	var r []*Term
	for p := s.pc; p != nil; p = p.prev {
		r = append(r, p.t)
	}
	return r
}

const (
	unk = iota
	yes
	no
)

// eval3 evaluates a condition under the state's domains and recent facts.
func (e *Engine) eval3(s *State, t *Term) int {
	budget := 400
	memo := map[*Term]int{}
	return e.ev3(s, t, memo, &budget)
}

func (e *Engine) ev3(s *State, t *Term, memo map[*Term]int, budget *int) int {
	switch t.op {
	case OConst:
		if t.val == 1 {
			return yes
		}
		return no
	case OInSet:
		d := s.dom.get(t.v.id)
		if d == nil {
			return unk
		}
		sub, dis := true, true
		for i := range d {
			if d[i]&t.set[i] != 0 {
				dis = false
			}
			if d[i]&^t.set[i] != 0 {
				sub = false
			}
		}
		if dis {
			return no
		}
		if sub {
			return yes
		}
		return unk
	}
	if r, ok := memo[t]; ok {
		return r
	}
	*budget--
	if *budget < 0 {
		return unk
	}
	if s.pc.has(t) {
		memo[t] = yes
		return yes
	}
	n := t.a
	if t.op != ONot {
		n = e.tm.Not(t)
	}
	if s.pc.has(n) {
		memo[t] = no
		return no
	}
	r := unk
	switch t.op {
	case ONot:
		switch e.ev3(s, t.a, memo, budget) {
		case yes:
			r = no
		case no:
			r = yes
		}
	case OAnd:
		x := e.ev3(s, t.a, memo, budget)
		if x == no {
			r = no
			break
		}
		y := e.ev3(s, t.b, memo, budget)
		if y == no {
			r = no
		} else if x == yes && y == yes {
			r = yes
		}
	case OOr:
		x := e.ev3(s, t.a, memo, budget)
		if x == yes {
			r = yes
			break
		}
		y := e.ev3(s, t.b, memo, budget)
		if y == yes {
			r = yes
		} else if x == no && y == no {
			r = no
		}
	case OIte:
		if t.w == 0 {
			switch e.ev3(s, t.a, memo, budget) {
			case yes:
				r = e.ev3(s, t.b, memo, budget)
			case no:
				r = e.ev3(s, t.c, memo, budget)
			default:
				x, y := e.ev3(s, t.b, memo, budget), e.ev3(s, t.c, memo, budget)
				if x == y {
					r = x
				}
			}
		}
	}
	memo[t] = r
	return r
}

func popcount(s []uint64) int {
	n := 0
	for _, x := range s {
		n += bits.OnesCount64(x)
	}
	return n
}
