package main

import (
	"container/heap"
	"fmt"
	"go/types"
	"os"
)

// ---------------------------------------------------------------- priority queue with merging

type stateHeap []*State

func (h stateHeap) Len() int { return len(h) }
func (h stateHeap) Less(i, j int) bool {
	a, b := h[i], h[j]
	if a.apart != b.apart {
		return a.apart < b.apart
	}
	if a.join != b.join {
		return b.join
	}
	if a.prog != b.prog && !a.join {
		return a.prog < b.prog
	}
	n := len(a.key)
	if len(b.key) < n {
		n = len(b.key)
	}
	for k := 0; k < n; k++ {
		if a.key[k] != b.key[k] {
			return a.key[k] < b.key[k]
		}
	}
	if len(a.key) != len(b.key) {
		return len(a.key) < len(b.key)
	}
	return a.seq < b.seq
}
func (h stateHeap) Swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].heapIdx, h[j].heapIdx = i, j
}
func (h *stateHeap) Push(x interface{}) {
	s := x.(*State)
	s.heapIdx = len(*h)
	*h = append(*h, s)
}
func (h *stateHeap) Pop() interface{} {
	o := *h
	s := o[len(o)-1]
	*h = o[:len(o)-1]
	return s
}

func (e *Engine) locate(s *State) {
	k := s.key[:0:0]
	h := uint64(1469598103934665603)
	for _, f := range s.frames {
		k = append(k, int32(f.fi.order[f.block]), int32(f.idx))
		h = (h ^ uint64(f.fi.id)) * 1099511628211
		h = (h ^ uint64(f.block)) * 1099511628211
		h = (h ^ uint64(f.idx)) * 1099511628211
	}
	h = (h ^ s.apart) * 1099511628211
	if s.join {
		h ^= 0x9e3779b97f4a7c15
	} else {
		h = (h ^ uint64(s.prog)) * 1099511628211
		h = e.bucket(s, h)
	}
	s.key, s.hash = k, h
}

func sameLoc(a, b *State) bool {
	if len(a.frames) != len(b.frames) || a.join != b.join || a.apart != b.apart || (a.prog != b.prog && !a.join) {
		return false
	}
	for i, f := range a.frames {
		g := b.frames[i]
		if f.fi != g.fi || f.block != g.block || f.idx != g.idx || f.ret != g.ret || f.defers != g.defers {
			return false
		}
	}
	return true
}

// enqueue adds a state to the work list, merging it with a waiting state where possible.
func (e *Engine) enqueue(s *State) {
	if s.dirty {
		e.gc(s)
	}
	e.locate(s)
	b := e.wait[s.hash]
	for {
		merged := false
		for i, o := range b {
			if !sameLoc(o, s) {
				continue
			}
			e.nMergeTry++
			n := e.merge(o, s)
			if n == nil {
				continue
			}
			e.nMerge++
			heap.Remove(&e.heap, o.heapIdx)
			b = append(b[:i:i], b[i+1:]...)
			n.seq = o.seq
			if len(b) == 0 {
				delete(e.wait, s.hash)
			} else {
				e.wait[s.hash] = b
			}
			s = n
			e.locate(s)
			b = e.wait[s.hash]
			merged = true
			break
		}
		if !merged {
			break
		}
	}
	if s.seq == 0 {
		e.seq++
		s.seq = e.seq
	}
	e.wait[s.hash] = append(b, s)
	heap.Push(&e.heap, s)
	if len(e.heap) > e.maxWait {
		e.maxWait = len(e.heap)
	}
}

func (e *Engine) next() *State {
	s := heap.Pop(&e.heap).(*State)
	b := e.wait[s.hash]
	for i, o := range b {
		if o == s {
			b = append(b[:i:i], b[i+1:]...)
			break
		}
	}
	if len(b) == 0 {
		delete(e.wait, s.hash)
	} else {
		e.wait[s.hash] = b
	}
	s.seq = 0
	return s
}

// ---------------------------------------------------------------- merging of values

const (
	polStrict = iota
	polLoose
	polForce
)

type merger struct {
	e   *Engine
	g   *Term // a if g, else b
	pol int
	noU bool // no unions
	fsm map[[2]*FmtS]*FmtS
}

func constDiff(a, b *Term) bool { return a.isConst() && b.isConst() }

// val merges two values; key tells that the value must stay concrete.
func (m *merger) val(a, b Value, t types.Type, key bool) (Value, bool) {
	if a == b {
		return a, true
	}
	if a == nil || b == nil {
		return nil, false
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		if m.pol != polForce && (x.isConst() || y.isConst()) && (key || m.pol == polStrict) {
			if constDiff(x, y) || key {
				return nil, false
			}
		}
		return m.e.tm.Ite(m.g, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if ok {
			return m.str(x, y)
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		n := &StructV{f: make([]Value, len(x.f))}
		for i := range x.f {
			var ft types.Type
			k := key
			if st != nil && i < st.NumFields() {
				ft = st.Field(i).Type()
				k = m.e.fieldKey(st, i)
			}
			v, ok := m.val(x.f[i], y.f[i], ft, k)
			if !ok {
				return nil, false
			}
			n.f[i] = v
		}
		return n, true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		n := &TupleV{f: make([]Value, len(x.f))}
		for i := range x.f {
			v, ok := m.val(x.f[i], y.f[i], nil, key)
			if !ok {
				return nil, false
			}
			n.f[i] = v
		}
		return n, true
	case *PVec:
		y, ok := b.(*PVec)
		if !ok || x.n != y.n {
			return nil, false
		}
		return m.vec(x, y)
	case *Ptr:
		if y, ok := b.(*Ptr); ok && samePtr(x, y) {
			return x, true
		}
	case *MapRef:
		if y, ok := b.(*MapRef); ok && x.obj == y.obj {
			return x, true
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && len(x.binds) == len(y.binds) {
			n := &FuncV{fn: x.fn, binds: make([]Value, len(x.binds))}
			for i := range x.binds {
				v, ok := m.val(x.binds[i], y.binds[i], nil, key)
				if !ok {
					return nil, false
				}
				n.binds[i] = v
			}
			return n, true
		}
	case *Slice:
		if y, ok := b.(*Slice); ok && x.obj == y.obj && samePath(x.path, y.path) {
			k := m.pol != polForce
			o, ok1 := m.val(x.off, y.off, nil, k)
			l, ok2 := m.val(x.len, y.len, nil, k)
			c, ok3 := m.val(x.cap, y.cap, nil, k)
			if ok1 && ok2 && ok3 {
				return &Slice{obj: x.obj, path: x.path, off: o.(*Term), len: l.(*Term), cap: c.(*Term)}, true
			}
			if m.pol != polForce {
				return nil, false
			}
		} else if ok && m.pol == polLoose && x.obj != 0 && y.obj != 0 {
			return nil, false
		}
	case *Iface:
		if y, ok := b.(*Iface); ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			if v, ok := m.val(x.v, y.v, x.t, key); ok {
				return &Iface{t: x.t, v: v}, true
			}
		}
	case *TimeV:
		if y, ok := b.(*TimeV); ok && x.op == y.op && len(x.args) == len(y.args) {
			n := &TimeV{op: x.op, args: make([]Value, len(x.args)), loc: x.loc}
			good := true
			if !m.e.sameLoc(x.loc, y.loc) {
				good = !m.e.seasonal(x.loc) && !m.e.seasonal(y.loc)
				n.loc = nil
			}
			for i := range x.args {
				v, ok := m.val(x.args[i], y.args[i], nil, false)
				if !ok {
					good = false
					break
				}
				n.args[i] = v
			}
			if good {
				return n, true
			}
		}
	case *LocV:
		if y, ok := b.(*LocV); ok && x.off != nil && y.off != nil {
			if v, ok := m.val(x.off, y.off, nil, false); ok {
				if t, isT := v.(*Term); isT {
					if title, ok := m.val(x.title, y.title, nil, false); ok {
						return &LocV{name: x.name, off: t, title: title}, true
					}
				}
			}
		}
		return nil, false
	case *IterV:
		return nil, false
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || len(x.keys) != len(y.keys) {
			return nil, false
		}
		n := &MapObj{keys: x.keys, vals: make([]Value, len(x.vals))}
		for i := range x.keys {
			if x.keys[i] != y.keys[i] && !m.e.identical(x.keys[i], y.keys[i]) {
				return nil, false
			}
			v, ok := m.val(x.vals[i], y.vals[i], nil, false)
			if !ok {
				return nil, false
			}
			n.vals[i] = v
		}
		return n, true
	}
	if m.pol == polStrict {
		if m.e.identical(a, b) {
			return a, true
		}
		return nil, false
	}
	switch a.(type) {
	case *StructV, *TupleV, *PVec, *MapObj:
		return nil, false
	}
	return m.unite(a, b)
}

func (m *merger) str(x, y *Str) (Value, bool) {
	e := m.e
	if x.fs != nil && x.fs == y.fs {
		return x, true
	}
	if x.fs != nil && y.fs != nil && x.fs.format == y.fs.format && len(x.fs.args) == len(y.fs.args) {
		// one merge gives one object for one pair: rendered texts are kept by object
		k := [2]*FmtS{x.fs, y.fs}
		if n := m.fsm[k]; n != nil {
			return &Str{fs: n}, true
		}
		n := &FmtS{format: x.fs.format, args: make([]Value, len(x.fs.args))}
		good := true
		for i := range n.args {
			v, ok := m.val(x.fs.args[i], y.fs.args[i], nil, false)
			if !ok {
				good = false
				break
			}
			n.args[i] = v
		}
		if good {
			if m.fsm != nil {
				m.fsm[k] = n
			}
			return &Str{fs: n}, true
		}
		if m.pol == polStrict {
			return nil, false
		}
		return m.unite(x, y)
	}
	if x.alias != nil && y.alias != nil {
		if v, ok := m.val(x.alias, y.alias, nil, false); ok {
			if sl, ok := v.(*Slice); ok {
				return &Str{alias: sl}, true
			}
		}
	}
	if x.fs == nil && y.fs == nil && x.alias == nil && y.alias == nil {
		if e.identical(x, y) {
			return x, true
		}
		if m.pol == polStrict {
			// same length, different symbolic bytes of which none are constant on both sides
			n, ok1 := x.concLen()
			k, ok2 := y.concLen()
			if ok1 && ok2 && n == k && n <= 64 && n > 0 {
				bs := make([]*Term, n)
				for i := range bs {
					p, q := x.at(i), y.at(i)
					if p != q && (p.isConst() || q.isConst()) {
						return nil, false
					}
					bs[i] = e.tm.Ite(m.g, p, q)
				}
				return e.strOf(bs), true
			}
			return nil, false
		}
		if sameVec(x.arr, y.arr) {
			return &Str{arr: x.arr, off: e.tm.Ite(m.g, x.off, y.off), len: e.tm.Ite(m.g, x.len, y.len)}, true
		}
		z := e.i64(0)
		if x.len.isConst() && x.len.val == 0 {
			return &Str{arr: y.arr, off: y.off, len: e.tm.Ite(m.g, z, y.len)}, true
		}
		if y.len.isConst() && y.len.val == 0 {
			return &Str{arr: x.arr, off: x.off, len: e.tm.Ite(m.g, x.len, z)}, true
		}
	}
	if m.pol == polStrict {
		return nil, false
	}
	return m.unite(x, y)
}

func (m *merger) unite(a, b Value) (Value, bool) {
	if m.noU {
		return nil, false
	}
	return m.e.unite(m.g, a, b), true
}

func sameVec(a, b *PVec) bool {
	if a == b {
		return true
	}
	if a.n != b.n {
		return false
	}
	for i := range a.ch {
		if a.ch[i] != b.ch[i] {
			return false
		}
	}
	return true
}

func (m *merger) vec(x, y *PVec) (Value, bool) {
	n := &PVec{n: x.n, ch: make([]*[chunk]Value, len(x.ch)), zero: x.zero}
	for i := range x.ch {
		p, q := x.ch[i], y.ch[i]
		if p == q {
			n.ch[i] = p
			continue
		}
		c := new([chunk]Value)
		for j := range c {
			a, b := x.zero, y.zero
			if p != nil {
				a = p[j]
			}
			if q != nil {
				b = q[j]
			}
			if a == b {
				c[j] = a
				continue
			}
			ta, ok1 := a.(*Term)
			tb, ok2 := b.(*Term)
			if ok1 && ok2 && m.pol != polForce && ta.w > 8 && (ta.isConst() || tb.isConst()) {
				return nil, false
			}
			if ok1 && ok2 && m.pol == polStrict && constDiff(ta, tb) {
				return nil, false
			}
			v, ok := m.val(a, b, nil, false)
			if !ok {
				return nil, false
			}
			c[j] = v
		}
		n.ch[i] = c
	}
	return n, true
}

func samePath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func samePtr(a, b *Ptr) bool { return a.obj == b.obj && samePath(a.path, b.path) }

// identical reports structural identity (sufficient for equality).
func (e *Engine) identical(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x.fs != nil || y.fs != nil {
			if x.fs == nil || y.fs == nil || x.fs.format != y.fs.format || len(x.fs.args) != len(y.fs.args) {
				return false
			}
			for i := range x.fs.args {
				if !e.identical(x.fs.args[i], y.fs.args[i]) {
					return false
				}
			}
			return true
		}
		if x.alias != nil || y.alias != nil {
			return x.alias != nil && y.alias != nil && e.identical(x.alias, y.alias)
		}
		if x.len != y.len {
			return false
		}
		if x.off == y.off && sameVec(x.arr, y.arr) {
			return true
		}
		n, ok := x.concLen()
		k, ok2 := y.concLen()
		if !ok || !ok2 || n != k || n > 4096 {
			return false
		}
		for i := 0; i < n; i++ {
			if x.at(i) != y.at(i) {
				return false
			}
		}
		return true
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && samePtr(x, y)
	case *MapRef:
		y, ok := b.(*MapRef)
		return ok && x.obj == y.obj
	case *Iface:
		y, ok := b.(*Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || (types.Identical(x.t, y.t) && e.identical(x.v, y.v))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.identical(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.identical(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.obj == y.obj && samePath(x.path, y.path) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !e.identical(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *LocV:
		y, ok := b.(*LocV)
		return ok && x.off == y.off && x.name == y.name && e.identical(x.title, y.title)
	case *TimeV:
		y, ok := b.(*TimeV)
		if !ok || x.op != y.op || len(x.args) != len(y.args) || !e.sameLoc(x.loc, y.loc) {
			return false
		}
		for i := range x.args {
			if !e.identical(x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !e.identical(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	}
	return false
}

// unite builds the union "a if g else b".
func (e *Engine) unite(g *Term, a, b Value) Value {
	return e.combine([]Alt{{g, a}, {e.tm.Not(g), b}})
}

// combine merges alternatives without loss (guards are mutually exclusive).
func (e *Engine) combine(alts []Alt) Value {
	var flat []Alt
	for _, a := range alts {
		if a.g.isFalse() {
			continue
		}
		if u, ok := a.v.(*Union); ok {
			for _, x := range u.alts {
				if g := e.tm.And(a.g, x.g); !g.isFalse() {
					flat = append(flat, Alt{g, x.v})
				}
			}
		} else {
			flat = append(flat, a)
		}
	}
	var out []Alt
next:
	for _, a := range flat {
		for i := range out {
			if e.identical(out[i].v, a.v) {
				out[i].g = e.tm.Or(out[i].g, a.g)
				continue next
			}
		}
		for i := range out {
			m := merger{e: e, g: out[i].g, pol: polLoose}
			var v Value
			ok := false
			switch out[i].v.(type) {
			case *Term:
				if t, isT := a.v.(*Term); isT {
					v, ok = e.tm.Ite(out[i].g, out[i].v.(*Term), t), true
				}
			case *Str, *Iface, *TimeV:
				m.noU = true
				v, ok = m.val(out[i].v, a.v, nil, false)
			case *StructV, *TupleV:
				m.pol = polForce
				v, ok = m.val(out[i].v, a.v, nil, false)
			}
			if ok {
				out[i] = Alt{e.tm.Or(out[i].g, a.g), v}
				continue next
			}
		}
		out = append(out, a)
	}
	if len(out) == 1 {
		return out[0].v
	}
	return &Union{alts: out}
}

// ---------------------------------------------------------------- merging of states

func commonPC(a, b *PC) *PC {
	for a != b {
		da, db := 0, 0
		if a != nil {
			da = a.depth
		}
		if b != nil {
			db = b.depth
		}
		if da >= db {
			a = a.prev
		} else {
			b = b.prev
		}
	}
	return a
}

func (e *Engine) merge(a, b *State) (n *State) {
	pol := polLoose
	if e.strict {
		pol = polStrict
	}
	if a.mode != b.mode && !a.join {
		return nil
	}
	switch a.mode {
	case 1:
		pol = polStrict
	case 2:
		pol = polLoose
	}
	if a.join {
		pol = polForce
	}
	if a.conc != b.conc || len(a.frames) != len(b.frames) {
		return nil
	}
	if (a.track == nil) != (b.track == nil) {
		return nil
	}
	if a.track != nil && (a.track.fed != b.track.fed || a.track.len != b.track.len || a.track.off != b.track.off || len(a.track.bytes) != len(b.track.bytes) || !e.identical(a.track.step, b.track.step)) {
		return nil
	}
	if len(a.locks) != len(b.locks) {
		return nil
	}
	for k, v := range a.locks {
		if b.locks[k] != v {
			return nil
		}
	}
	if pol != polForce && e.refuse(a, b) {
		return nil
	}
	if dbgEnv != nil {
		defer func() {
			if n != nil && e.dbgIn(n) != (e.dbgIn(a) || e.dbgIn(b)) {
				fmt.Fprintln(os.Stderr, "MERGE", a.id, b.id, n.id, e.dbgIn(a), e.dbgIn(b), e.dbgIn(n), e.where(n))
			}
		}()
	}
	base := commonPC(a.pc, b.pc)
	tm := e.tm
	d1, d2 := tm.tTrue, tm.tTrue
	var c1, c2 []*Term
	for p := a.pc; p != base; p = p.prev {
		c1 = append(c1, p.t)
	}
	for p := b.pc; p != base; p = p.prev {
		c2 = append(c2, p.t)
	}
	var g *Term
	// a discriminating conjunct
	if len(c1) > 0 && len(c2) > 0 {
		x, y := c1[len(c1)-1], c2[len(c2)-1]
		if tm.Not(x) == y {
			g = x
		}
	}
	for i := len(c1) - 1; i >= 0; i-- {
		d1 = tm.And(d1, c1[i])
	}
	for i := len(c2) - 1; i >= 0; i-- {
		d2 = tm.And(d2, c2[i])
	}
	if g == nil {
		if d1.op == OInSet || !d1.isTrue() {
			g = d1
		} else {
			// a's path condition is implied by b's: the states cannot be told apart
			return nil
		}
	}
	if d2.isTrue() {
		return nil
	}
	if a.obs != b.obs {
		for _, o := range []*obsNode{a.obs, b.obs} {
			if o != nil && o.name == "\x00fs" {
				return nil // different texts are being rendered
			}
		}
	}
	m := &merger{e: e, g: g, pol: pol, fsm: map[[2]*FmtS]*FmtS{}}
	frames := make([]*Frame, len(a.frames))
	for i, f := range a.frames {
		h := b.frames[i]
		n := *f
		top := i == len(a.frames)-1
		if top && f.idx == f.fi.nphi[f.block] {
			// at block start: only live registers matter
			n.cross = make([]Value, len(f.cross))
			n.locals = make([]Value, len(f.locals))
			live := f.fi.live[f.block]
			for j := range f.cross {
				if live[j/64]>>uint(j%64)&1 == 0 {
					continue
				}
				v, ok := m.val(f.cross[j], h.cross[j], f.fi.crossTyp[j], f.fi.crossKey[j])
				if !ok {
					return nil
				}
				n.cross[j] = v
			}
			for j := 0; j < f.fi.nphi[f.block]; j++ {
				if d := f.fi.blocks[f.block][j].dst; d.kind == 2 {
					v, ok := m.val(f.locals[d.idx], h.locals[d.idx], nil, e.keyVals[f.fi.blocks[f.block][j].ins.(valuer)])
					if !ok {
						return nil
					}
					n.locals[d.idx] = v
				}
			}
		} else {
			n.cross = append([]Value(nil), f.cross...)
			n.locals = append([]Value(nil), f.locals...)
			for j := range f.cross {
				if f.cross[j] == h.cross[j] {
					continue
				}
				if f.cross[j] == nil || h.cross[j] == nil {
					n.cross[j] = nil
					continue
				}
				v, ok := m.val(f.cross[j], h.cross[j], f.fi.crossTyp[j], f.fi.crossKey[j])
				if !ok {
					return nil
				}
				n.cross[j] = v
			}
			for j := range f.locals {
				if f.locals[j] == h.locals[j] {
					continue
				}
				if f.locals[j] == nil || h.locals[j] == nil {
					n.locals[j] = nil
					continue
				}
				v, ok := m.val(f.locals[j], h.locals[j], nil, false)
				if !ok {
					return nil
				}
				n.locals[j] = v
			}
		}
		frames[i] = &n
	}
	// heap
	var hm map[int]*Obj
	if a.heap == b.heap {
		hm = a.heap.m
	} else {
		hm = make(map[int]*Obj, len(a.heap.m)+2)
		for id, x := range a.heap.m {
			y, ok := b.heap.m[id]
			if !ok {
				if bo := e.base[id]; bo != nil {
					y, ok = bo, true
				}
			}
			if !ok || x == y {
				hm[id] = x
				continue
			}
			v, ok := m.val(x.v, y.v, x.typ, e.objKey(id))
			if !ok {
				return nil
			}
			hm[id] = &Obj{v: v, typ: x.typ}
		}
		for id, y := range b.heap.m {
			if _, ok := a.heap.m[id]; ok {
				continue
			}
			if x := e.base[id]; x != nil {
				v, ok := m.val(x.v, y.v, x.typ, e.objKey(id))
				if !ok {
					return nil
				}
				hm[id] = &Obj{v: v, typ: x.typ}
				continue
			}
			hm[id] = y
		}
	}
	n = &State{}
	*n = *a
	e.nstate++
	n.id = e.nstate
	n.frames = frames
	n.heap = &Heap{m: hm}
	if a.heap == b.heap {
		n.heap = a.heap
		n.heap.shared = true
	}
	n.pc = base
	if len(c1) > 0 && len(c2) > 0 && g == c1[len(c1)-1] && tm.Not(g) == c2[len(c2)-1] {
		r1, r2 := tm.tTrue, tm.tTrue
		for i := len(c1) - 2; i >= 0; i-- {
			r1 = tm.And(r1, c1[i])
		}
		for i := len(c2) - 2; i >= 0; i-- {
			r2 = tm.And(r2, c2[i])
		}
		d := tm.Ite(g, r1, r2)
		n.dom = unionDom(a.dom, b.dom)
		e.mergedPC(n, d)
	} else {
		n.dom = unionDom(a.dom, b.dom)
		e.mergedPC(n, tm.Or(d1, d2))
	}
	if a.prog < b.prog {
		n.prog = b.prog
	}
	n.counters = mergeMax(a.counters, b.counters)
	n.sites = mergeMaxI(a.sites, b.sites)
	n.shareCnt = false
	if a.obs != b.obs {
		n.obs = e.mergeObs(m, a.obs, b.obs)
	}
	if a.steps < b.steps {
		n.steps = b.steps
	}
	n.rend = nil
	for k, v := range a.rend {
		w, ok := b.rend[k]
		if ok && !e.identical(v, w) {
			mm := *m
			mm.pol = polForce
			v, ok = mm.val(v, w, nil, false)
		}
		if ok {
			if n.rend == nil {
				n.rend = map[*FmtS]Value{}
			}
			n.rend[k] = v
		}
	}
	n.dirty = false
	return n
}

// mergedPC records the condition of a merged state; when it cannot hold (both states were infeasible,
// unnoticed so far) that is recorded too.
func (e *Engine) mergedPC(n *State, t *Term) {
	if !e.addPC1(n, t, true) {
		n.pc = &PC{t: e.tm.tFalse, prev: n.pc, depth: 1}
		if n.pc.prev != nil {
			n.pc.depth = n.pc.prev.depth + 1
		}
	}
}

func (e *Engine) mergeObs(m *merger, a, b *obsNode) *obsNode {
	if a == b {
		return a
	}
	if a == nil || b == nil || a.name != b.name {
		return &obsNode{name: "?", v: &Opaque{"observations differ"}}
	}
	mm := *m
	mm.pol = polForce
	v, ok := mm.val(a.v, b.v, nil, false)
	if !ok {
		v = &Opaque{"merged"}
	}
	return &obsNode{name: a.name, v: v, prev: e.mergeObs(m, a.prev, b.prev)}
}

func mergeMax(a, b map[string]int) map[string]int {
	r := make(map[string]int, len(a)+1)
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		if r[k] < v {
			r[k] = v
		}
	}
	return r
}

func mergeMaxI(a, b map[int]int) map[int]int {
	r := make(map[int]int, len(a)+1)
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		if r[k] < v {
			r[k] = v
		}
	}
	return r
}

// gc drops unreachable objects from the overlay.
func (e *Engine) gc(s *State) {
	s.dirty = false
	seen := make(map[int]bool, len(s.heap.m))
	var todo []int
	var walk func(v Value)
	mark := func(id int) {
		if id != 0 && !seen[id] {
			seen[id] = true
			todo = append(todo, id)
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case *Ptr:
			mark(x.obj)
		case *Slice:
			mark(x.obj)
		case *MapRef:
			mark(x.obj)
		case *Iface:
			if x.t != nil {
				walk(x.v)
			}
		case *FuncV:
			for _, b := range x.binds {
				walk(b)
			}
		case *StructV:
			for _, f := range x.f {
				walk(f)
			}
		case *TupleV:
			for _, f := range x.f {
				walk(f)
			}
		case *PVec:
			switch x.zero.(type) {
			case *Term:
				return
			}
			for _, c := range x.ch {
				if c != nil {
					for _, f := range c {
						walk(f)
					}
				}
			}
		case *Union:
			for _, a := range x.alts {
				walk(a.v)
			}
		case *Str:
			if x.alias != nil {
				walk(x.alias)
			}
			if x.fs != nil {
				for _, a := range x.fs.args {
					walk(a)
				}
			}
		case *TimeV:
			for _, a := range x.args {
				walk(a)
			}
			if x.loc != nil {
				walk(x.loc)
			}
		case *MapObj:
			for i := range x.keys {
				walk(x.keys[i])
				walk(x.vals[i])
			}
		case *IterV:
			if x.m != nil {
				walk(x.m)
			}
		}
	}
	for i, f := range s.frames {
		top := i == len(s.frames)-1
		if top && f.idx == f.fi.nphi[f.block] {
			live := f.fi.live[f.block]
			for j, v := range f.cross {
				if live[j/64]>>uint(j%64)&1 == 1 {
					walk(v)
				} else if f.cross[j] != nil {
					f.cross[j] = nil
				}
			}
		} else {
			for _, v := range f.cross {
				walk(v)
			}
		}
		for _, v := range f.locals {
			walk(v)
		}
		for d := f.defers; d != nil; d = d.prev {
			walk(d.fn)
			for _, a := range d.args {
				walk(a)
			}
		}
	}
	if s.track != nil {
		walk(s.track.step)
	}
	for o := s.obs; o != nil; o = o.prev {
		walk(o.v)
	}
	for _, v := range s.rend {
		walk(v)
	}
	if s.conc != nil {
		walk(s.conc.b)
	}
	for id := range s.heap.m {
		if e.base[id] != nil {
			mark(id)
		}
	}
	for id := range e.pinned {
		mark(id)
	}
	for len(todo) > 0 {
		id := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if o, ok := s.heap.m[id]; ok {
			walk(o.v)
		}
	}
	drop := 0
	for id := range s.heap.m {
		if !seen[id] {
			drop++
		}
	}
	if drop > 0 {
		m := s.ownHeap()
		for id := range m {
			if !seen[id] {
				delete(m, id)
			}
		}
		s.dirty = false
	}
}

const fpPrime = 1099511628211

// fpv is a fingerprint of the parts of a value that must agree for two states to merge. It only saves
// attempts: equal fingerprints promise nothing.
func (e *Engine) fpv(v Value, t types.Type, key bool) uint64 {
	switch x := v.(type) {
	case *Term:
		if key {
			if x.isConst() {
				return (x.val + 3) * 0x9e3779b97f4a7c15
			}
			return 2
		}
	case *StructV:
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		h := uint64(7)
		for i, f := range x.f {
			k := key
			var ft types.Type
			if st != nil && i < st.NumFields() {
				k = e.fieldKey(st, i)
				ft = st.Field(i).Type()
			}
			h = (h ^ e.fpv(f, ft, k)) * fpPrime
		}
		return h
	case *PVec:
		h := uint64(x.n) + 11
		if z, ok := x.zero.(*Term); ok && z.w > 8 {
			for _, c := range x.ch {
				for j := 0; j < chunk; j++ {
					w := z
					if c != nil {
						if w, ok = c[j].(*Term); !ok {
							return h
						}
					}
					h = (h ^ e.fpv(w, nil, true)) * fpPrime
				}
			}
		}
		return h
	case *MapObj:
		return uint64(len(x.keys)) + 13
	case *Slice:
		h := uint64(17)
		for _, c := range []*Term{x.off, x.len, x.cap} {
			h = (h ^ e.fpv(c, nil, true)) * fpPrime
		}
		return h
	}
	return 1
}

func (e *Engine) objFP(id int, o *Obj) uint64 {
	if o.fp == 0 {
		o.fp = e.fpv(o.v, o.typ, e.objKey(id)) | 1
	}
	return o.fp
}

// refuse tells cheaply that two states cannot merge.
func (e *Engine) refuse(a, b *State) bool {
	for i := len(a.frames) - 1; i >= 0; i-- {
		f, h := a.frames[i], b.frames[i]
		var live []uint64
		if i == len(a.frames)-1 && f.idx == f.fi.nphi[f.block] {
			live = f.fi.live[f.block]
		}
		for j, k := range f.fi.crossKey {
			x, y := f.cross[j], h.cross[j]
			if x == y || !k || live != nil && live[j/64]>>uint(j%64)&1 == 0 {
				continue
			}
			p, ok1 := x.(*Term)
			q, ok2 := y.(*Term)
			if ok1 && ok2 && (p.isConst() || q.isConst()) {
				return true
			}
		}
	}
	if a.heap == b.heap {
		return false
	}
	for id, x := range a.heap.m {
		y, ok := b.heap.m[id]
		if !ok {
			y = e.base[id]
		}
		if y != nil && x != y && e.objFP(id, x) != e.objFP(id, y) {
			return true
		}
	}
	return false
}

// bucket refines a location hash by what must agree in states that can merge.
func (e *Engine) bucket(s *State, h uint64) uint64 {
	for i, f := range s.frames {
		var live []uint64
		if i == len(s.frames)-1 && f.idx == f.fi.nphi[f.block] {
			live = f.fi.live[f.block]
		}
		for j, k := range f.fi.crossKey {
			if live != nil && live[j/64]>>uint(j%64)&1 == 0 {
				continue
			}
			if x, ok := f.cross[j].(*Term); ok && k {
				h = (h ^ e.fpv(x, nil, true)) * fpPrime
			}
			if i == 0 {
				h = e.bucketPtr(s, f.cross[j], h)
			}
		}
		if i == 0 && len(s.frames) > 1 {
			for _, v := range f.locals {
				h = e.bucketPtr(s, v, h)
			}
		}
	}
	return h
}

// bucketPtr looks through the pointers of the outermost function: what they point to is older than any branch.
func (e *Engine) bucketPtr(s *State, v Value, h uint64) uint64 {
	switch x := v.(type) {
	case *Ptr:
		if o := s.heap.m[x.obj]; o != nil && x.obj != 0 {
			return (h ^ e.objFP(x.obj, o)) * fpPrime
		}
	case *Iface:
		if x.t != nil {
			return e.bucketPtr(s, x.v, h)
		}
	}
	return h
}
