package main

// Hash-consed terms over booleans and fixed-width bit-vectors. Terms that depend on a single
// small-domain variable carry their complete value table, so every predicate over one input byte
// is kept in canonical form (a set of values of that byte).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // val
	OVar             // v
	OInSet           // bool: v in set
	OBoolVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OEq: "="}

// VarInfo is a symbolic variable; its values are 0..size-1.
type VarInfo struct {
	id    int
	name  string
	w     int
	size  int // domain size if small, 0 otherwise
	ord   int // position of the variable in the input (progress measure), -1 if none
	decl  bool
	words int
}

type Term struct {
	id     int
	op     Op
	w      int // 0: boolean
	a      *Term
	b      *Term
	c      *Term
	val    uint64
	v      *VarInfo // the only variable, when it is small
	tab    []uint64 // value table over v (w>0)
	set    []uint64 // value set over v (w==0)
	lo, hi uint64
	tree   bool     // ite tree with constant leaves
	vals   []uint64 // distinct leaf values of a tree, sorted (nil: too many)
	maxOrd int      // largest input position occurring in the term, -1 if none
	emit   int      // solver epoch in which the term was last defined
	mark   int
}

type tkey struct {
	op      Op
	w       int
	a, b, c int
	val     uint64
	s       string
}

// TM is a term manager.
type TM struct {
	uniq    map[tkey]*Term
	opc     map[tkey]*Term
	n       int
	vars    []*VarInfo
	varTerm []*Term
	tTrue   *Term
	tFalse  *Term
	nFold   int64
}

func NewTM() *TM {
	m := &TM{uniq: map[tkey]*Term{}, opc: map[tkey]*Term{}}
	m.tFalse = m.mk(&Term{op: OConst, w: 0, val: 0, maxOrd: -1}, tkey{op: OConst, w: 0, val: 0})
	m.tTrue = m.mk(&Term{op: OConst, w: 0, val: 1, maxOrd: -1}, tkey{op: OConst, w: 0, val: 1})
	return m
}

func (m *TM) mk(t *Term, k tkey) *Term {
	if o, ok := m.uniq[k]; ok {
		return o
	}
	m.n++
	t.id = m.n
	t.emit = -1
	m.uniq[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (m *TM) C(w int, v uint64) *Term {
	if w == 0 {
		panic("C of width 0")
	}
	v &= mask(w)
	return m.mk(&Term{op: OConst, w: w, val: v, lo: v, hi: v, tree: true, vals: []uint64{v}, maxOrd: -1}, tkey{op: OConst, w: w, val: v})
}

func (m *TM) Bool(b bool) *Term {
	if b {
		return m.tTrue
	}
	return m.tFalse
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

// NewVar creates a bit-vector variable whose values are 0..size-1 (size 0: the whole width).
func (m *TM) NewVar(name string, w, size, ord int) *Term {
	vi := &VarInfo{id: len(m.vars), name: name, w: w, ord: ord}
	if size > 0 && size <= 1024 {
		vi.size = size
		vi.words = (size + 63) / 64
	} else if size > 0 {
		panic("domain too large: " + name)
	}
	m.vars = append(m.vars, vi)
	t := &Term{op: OVar, w: w, v: vi, lo: 0, hi: mask(w), maxOrd: ord}
	if vi.size > 0 {
		t.hi = uint64(size - 1)
		t.tab = make([]uint64, size)
		for i := range t.tab {
			t.tab[i] = uint64(i)
		}
	}
	k := tkey{op: OVar, w: w, val: uint64(vi.id)}
	t.val = uint64(vi.id)
	r := m.mk(t, k)
	if vi.size == 0 {
		r.v = nil
	}
	m.varTerm = append(m.varTerm, r)
	return r
}

func (m *TM) varOf(t *Term) *VarInfo { return m.vars[t.val] }

func (m *TM) NewBool(name string) *Term {
	vi := &VarInfo{id: len(m.vars), name: name, w: 0, ord: -1}
	m.vars = append(m.vars, vi)
	r := m.mk(&Term{op: OBoolVar, w: 0, val: uint64(vi.id), maxOrd: -1}, tkey{op: OBoolVar, val: uint64(vi.id)})
	m.varTerm = append(m.varTerm, r)
	return r
}

func setKey(s []uint64) string {
	b := make([]byte, 0, len(s)*8)
	for _, x := range s {
		for i := 0; i < 8; i++ {
			b = append(b, byte(x>>(8*uint(i))))
		}
	}
	return string(b)
}

func (m *TM) fullSet(v *VarInfo) []uint64 {
	s := make([]uint64, v.words)
	for i := 0; i < v.size; i++ {
		s[i/64] |= 1 << uint(i%64)
	}
	return s
}

func (m *TM) InSet(v *VarInfo, s []uint64) *Term {
	cnt := 0
	for _, x := range s {
		cnt += bits.OnesCount64(x)
	}
	if cnt == 0 {
		return m.tFalse
	}
	if cnt == v.size {
		return m.tTrue
	}
	return m.mk(&Term{op: OInSet, w: 0, v: v, set: s, maxOrd: v.ord}, tkey{op: OInSet, val: uint64(v.id), s: setKey(s)})
}

func (m *TM) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return m.Bool(a.val == 0)
	case ONot:
		return a.a
	case OInSet:
		f := m.fullSet(a.v)
		for i := range f {
			f[i] &^= a.set[i]
		}
		return m.InSet(a.v, f)
	}
	return m.mk(&Term{op: ONot, a: a, maxOrd: a.maxOrd}, tkey{op: ONot, a: a.id})
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (m *TM) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isFalse() || b.isFalse() {
		return m.tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() {
		return a
	}
	if a.op == OInSet && b.op == OInSet && a.v == b.v {
		s := make([]uint64, len(a.set))
		for i := range s {
			s[i] = a.set[i] & b.set[i]
		}
		return m.InSet(a.v, s)
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return m.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := tkey{op: OAnd, a: a.id, b: b.id}
	if r, ok := m.opc[k]; ok {
		return r
	}
	r := m.and1(a, b)
	if r == nil {
		r = m.and1(b, a)
	}
	if r == nil {
		r = m.mk(&Term{op: OAnd, a: a, b: b, maxOrd: max(a.maxOrd, b.maxOrd)}, k)
	}
	m.opc[k] = r
	return r
}

// and1 simplifies a AND b, looking into b.
func (m *TM) and1(a, b *Term) *Term {
	switch b.op {
	case OAnd:
		if b.a == a || b.b == a {
			return b
		}
		if m.isNeg(a, b.a) || m.isNeg(a, b.b) {
			return m.tFalse
		}
		if a.op == OInSet {
			if b.a.op == OInSet && b.a.v == a.v {
				return m.And(m.And(a, b.a), b.b)
			}
			if b.b.op == OInSet && b.b.v == a.v {
				return m.And(m.And(a, b.b), b.a)
			}
		}
	case OOr:
		if b.a == a || b.b == a {
			return a
		}
		if m.isNeg(a, b.a) {
			return m.And(a, b.b)
		}
		if m.isNeg(a, b.b) {
			return m.And(a, b.a)
		}
	}
	return nil
}

func (m *TM) isNeg(a, b *Term) bool {
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return true
	}
	if a.op == OInSet && b.op == OInSet && a.v == b.v {
		for i := range a.set {
			if a.set[i]&b.set[i] != 0 {
				return false
			}
		}
		f := m.fullSet(a.v)
		for i := range f {
			if a.set[i]|b.set[i] != f[i] {
				return false
			}
		}
		return true
	}
	return false
}

func (m *TM) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isTrue() || b.isTrue() {
		return m.tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() {
		return a
	}
	if a.op == OInSet && b.op == OInSet && a.v == b.v {
		s := make([]uint64, len(a.set))
		for i := range s {
			s[i] = a.set[i] | b.set[i]
		}
		return m.InSet(a.v, s)
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return m.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := tkey{op: OOr, a: a.id, b: b.id}
	if r, ok := m.opc[k]; ok {
		return r
	}
	r := m.or1(a, b)
	if r == nil {
		r = m.or1(b, a)
	}
	if r == nil && a.op == OAnd && b.op == OAnd {
		var x, y, z *Term
		switch {
		case a.a == b.a:
			x, y, z = a.a, a.b, b.b
		case a.a == b.b:
			x, y, z = a.a, a.b, b.a
		case a.b == b.a:
			x, y, z = a.b, a.a, b.b
		case a.b == b.b:
			x, y, z = a.b, a.a, b.a
		}
		if x != nil {
			r = m.And(x, m.Or(y, z))
		}
	}
	if r == nil {
		r = m.mk(&Term{op: OOr, a: a, b: b, maxOrd: max(a.maxOrd, b.maxOrd)}, k)
	}
	m.opc[k] = r
	return r
}

func (m *TM) or1(a, b *Term) *Term {
	switch b.op {
	case OOr:
		if b.a == a || b.b == a {
			return b
		}
		if m.isNeg(a, b.a) || m.isNeg(a, b.b) {
			return m.tTrue
		}
		if a.op == OInSet {
			if b.a.op == OInSet && b.a.v == a.v {
				return m.Or(m.Or(a, b.a), b.b)
			}
			if b.b.op == OInSet && b.b.v == a.v {
				return m.Or(m.Or(a, b.b), b.a)
			}
		}
	case OAnd:
		if b.a == a || b.b == a {
			return a
		}
		if m.isNeg(a, b.a) {
			return m.Or(a, b.b)
		}
		if m.isNeg(a, b.b) {
			return m.Or(a, b.a)
		}
	}
	return nil
}

func (m *TM) Implies(a, b *Term) *Term { return m.Or(m.Not(a), b) }
func (m *TM) Iff(a, b *Term) *Term     { return m.Ite(a, b, m.Not(b)) }

func mergeVals(a, b []uint64) []uint64 {
	if a == nil || b == nil {
		return nil
	}
	r := make([]uint64, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	if len(r) > 2048 {
		return nil
	}
	return r
}

func (m *TM) Ite(c, t, e *Term) *Term {
	if c.isTrue() {
		return t
	}
	if c.isFalse() {
		return e
	}
	if t == e {
		return t
	}
	if t.w == 0 {
		if t.isTrue() {
			return m.Or(c, e)
		}
		if t.isFalse() {
			return m.And(m.Not(c), e)
		}
		if e.isTrue() {
			return m.Or(m.Not(c), t)
		}
		if e.isFalse() {
			return m.And(c, t)
		}
		if c.v != nil && c.v == t.v && c.v == e.v {
			return m.Or(m.And(c, t), m.And(m.Not(c), e))
		}
		if c == t {
			return m.Or(c, e)
		}
		if c == e {
			return m.And(c, t)
		}
	}
	if c.op == ONot {
		return m.Ite(c.a, e, t)
	}
	if t.op == OIte && t.a == c {
		return m.Ite(c, t.b, e)
	}
	if e.op == OIte && e.a == c {
		return m.Ite(c, t, e.c)
	}
	// ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
	if e.op == OIte && e.b == t {
		return m.Ite(m.Or(c, e.a), t, e.c)
	}
	if e.op == OIte && e.c == t {
		return m.Ite(m.And(m.Not(c), e.a), e.b, t)
	}
	if t.op == OIte && t.c == e {
		return m.Ite(m.And(c, t.a), t.b, e)
	}
	if t.op == OIte && t.b == e {
		return m.Ite(m.And(c, m.Not(t.a)), t.c, e)
	}
	k := tkey{op: OIte, w: t.w, a: c.id, b: t.id, c: e.id}
	if r, ok := m.uniq[k]; ok {
		return r
	}
	n := &Term{op: OIte, w: t.w, a: c, b: t, c: e, maxOrd: max(c.maxOrd, max(t.maxOrd, e.maxOrd))}
	if t.w > 0 {
		n.lo, n.hi = t.lo, t.hi
		if e.lo < n.lo {
			n.lo = e.lo
		}
		if e.hi > n.hi {
			n.hi = e.hi
		}
		if t.tree && e.tree {
			n.tree = true
			n.vals = mergeVals(t.vals, e.vals)
			if n.vals == nil {
				n.tree = false
			}
		}
		if c.v != nil && (t.v == c.v || t.isConst()) && (e.v == c.v || e.isConst()) {
			tab := make([]uint64, c.v.size)
			for i := range tab {
				s := e
				if c.set[i/64]>>(uint(i)%64)&1 == 1 {
					s = t
				}
				if s.isConst() {
					tab[i] = s.val
				} else {
					tab[i] = s.tab[i]
				}
			}
			n.v, n.tab = c.v, tab
			n.lo, n.hi = rangeOf(tab)
		}
	}
	return m.mk(n, k)
}

func rangeOf(tab []uint64) (lo, hi uint64) {
	lo = ^uint64(0)
	for _, x := range tab {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	return
}

func foldBV(op Op, w int, x, y uint64) uint64 {
	switch op {
	case OAdd:
		return (x + y) & mask(w)
	case OSub:
		return (x - y) & mask(w)
	case OMul:
		return (x * y) & mask(w)
	case OUdiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(w)
		}
		if b == -1 {
			return uint64(-a) & mask(w)
		}
		return uint64(a/b) & mask(w)
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mask(w)
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mask(w)
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx(x, w)>>y) & mask(w)
	}
	panic("foldBV")
}

func foldCmp(op Op, w int, x, y uint64) bool {
	switch op {
	case OEq:
		return x == y
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sx(x, w) < sx(y, w)
	case OSle:
		return sx(x, w) <= sx(y, w)
	}
	panic("foldCmp")
}

// single reports the common small variable of a and b (constants allowed), or nil.
func single(a, b *Term) *VarInfo {
	switch {
	case a.v != nil && (b.v == a.v || b.isConst()):
		return a.v
	case b.v != nil && a.isConst():
		return b.v
	}
	return nil
}

func at(t *Term, i int) uint64 {
	if t.op == OConst {
		return t.val
	}
	return t.tab[i]
}

func (m *TM) tabTerm(n *Term, k tkey) *Term {
	// constant table?
	same := true
	for _, x := range n.tab[1:] {
		if x != n.tab[0] {
			same = false
			break
		}
	}
	if same {
		return m.C(n.w, n.tab[0])
	}
	n.lo, n.hi = rangeOf(n.tab)
	return m.mk(n, k)
}

func (m *TM) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	if a.isConst() && b.isConst() {
		return m.C(w, foldBV(op, w, a.val, b.val))
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch {
		case b.val == 0 && (op == OAdd || op == OSub || op == OBor || op == OBxor || op == OShl || op == OLshr || op == OAshr):
			return a
		case b.val == 0 && (op == OMul || op == OBand):
			return b
		case b.val == 1 && (op == OMul || op == OUdiv || op == OSdiv):
			return a
		case op == OBand && b.val == mask(w):
			return a
		}
		if op == OSub {
			return m.Bin(OAdd, a, m.C(w, -b.val))
		}
		if op == OMul && a.op == OMul && a.b.isConst() {
			return m.Bin(OMul, a.a, m.C(w, a.b.val*b.val))
		}
		if op == OAdd && a.op == OAdd && a.b.isConst() {
			return m.Bin(OAdd, a.a, m.C(w, a.b.val+b.val))
		}
	}
	if op == OSub && a == b {
		return m.C(w, 0)
	}
	if op == OSub && a.isConst() && a.val == 0 && b.op == OSub && b.a.isConst() && b.a.val == 0 {
		return b.b
	}
	k := tkey{op: op, w: w, a: a.id, b: b.id}
	if r, ok := m.opc[k]; ok {
		return r
	}
	r := m.bin1(op, w, a, b, k)
	m.opc[k] = r
	return r
}

func (m *TM) bin1(op Op, w int, a, b *Term, k tkey) *Term {
	if v := single(a, b); v != nil {
		n := &Term{op: op, w: w, a: a, b: b, v: v, maxOrd: max(a.maxOrd, b.maxOrd)}
		n.tab = make([]uint64, v.size)
		for i := range n.tab {
			n.tab[i] = foldBV(op, w, at(a, i), at(b, i))
		}
		for _, x := range []*Term{a, b} {
			if x.v == v && sameTab(x.tab, n.tab) {
				return x
			}
		}
		return m.tabTerm(n, k)
	}
	if r := m.push2(a, b, func(x, y *Term) *Term { return m.Bin(op, x, y) }); r != nil {
		return r
	}
	n := &Term{op: op, w: w, a: a, b: b, maxOrd: max(a.maxOrd, b.maxOrd)}
	n.lo, n.hi = 0, mask(w)
	switch op {
	case OAdd:
		if s, c := bits.Add64(a.hi, b.hi, 0); c == 0 && s <= mask(w) {
			n.lo, n.hi = a.lo+b.lo, s
		} else if b.isConst() && -b.val&mask(w) <= a.lo { // subtraction of a constant
			d := -b.val & mask(w)
			n.lo, n.hi = a.lo-d, a.hi-d
		}
	case OSub:
		if a.lo >= b.hi {
			n.lo, n.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= mask(w) {
			n.lo, n.hi = a.lo*b.lo, l
		}
	case OUdiv:
		if r := m.divConst(op, w, a, b); r != nil {
			return r
		}
		if b.lo > 0 {
			n.lo, n.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OUrem:
		if r := m.divConst(op, w, a, b); r != nil {
			return r
		}
		if b.lo > 0 {
			n.hi = b.hi - 1
			if a.hi < n.hi {
				n.hi = a.hi
			}
		}
	case OSdiv:
		if a.hi < 1<<uint(w-1) && b.hi < 1<<uint(w-1) && b.lo > 0 {
			return m.Bin(OUdiv, a, b)
		}
	case OSrem:
		if a.hi < 1<<uint(w-1) && b.hi < 1<<uint(w-1) && b.lo > 0 {
			return m.Bin(OUrem, a, b)
		}
	case OBand:
		n.hi = a.hi
		if b.hi < n.hi {
			n.hi = b.hi
		}
	case OLshr:
		if b.isConst() {
			n.lo, n.hi = a.lo>>b.val, a.hi>>b.val
		}
	}
	return m.mk(n, k)
}

func sameTab(a, b []uint64) bool {
	for i, x := range a {
		if x != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// multiples splits a sum into d*x + y, where the sum is known not to overflow; x is nil if nothing in
// it is a multiple of d.
func (m *TM) multiples(a *Term, d uint64) (x, y *Term) {
	w := a.w
	x, y = m.C(w, 0), m.C(w, 0)
	found := false
	var total uint64
	var split func(t *Term, coeff uint64) bool
	split = func(t *Term, coeff uint64) bool {
		switch {
		case t.isConst():
			v := t.val
			h, l := bits.Mul64(v, coeff)
			s, c := bits.Add64(total, l, 0)
			if h != 0 || c != 0 || s > mask(w) {
				return false
			}
			total = s
			x = m.Bin(OAdd, x, m.C(w, l/d))
			y = m.Bin(OAdd, y, m.C(w, l%d))
			return true
		case t.op == OAdd:
			s, c := bits.Add64(t.a.hi, t.b.hi, 0)
			if c == 0 && s <= mask(w) {
				return split(t.a, coeff) && split(t.b, coeff)
			}
		case t.op == OMul && t.b.isConst():
			h, l := bits.Mul64(t.a.hi, t.b.val)
			if h == 0 && l <= mask(w) {
				h, l = bits.Mul64(coeff, t.b.val)
				if h != 0 || l > mask(w) {
					return false
				}
				return split(t.a, l)
			}
		}
		h, l := bits.Mul64(t.hi, coeff)
		s, c := bits.Add64(total, l, 0)
		if h != 0 || c != 0 || s > mask(w) {
			return false
		}
		total = s
		if k := coeff / d; k > 0 {
			found = true
			x = m.Bin(OAdd, x, m.Bin(OMul, t, m.C(w, k)))
		}
		if k := coeff % d; k > 0 {
			y = m.Bin(OAdd, y, m.Bin(OMul, t, m.C(w, k)))
		}
		return true
	}
	if !split(a, 1) || !found {
		return nil, nil
	}
	return x, y
}

// divConst simplifies the division of a bounded value by a constant.
func (m *TM) divConst(op Op, w int, a, b *Term) *Term {
	if !b.isConst() || b.val == 0 {
		return nil
	}
	d := b.val
	if d&(d-1) == 0 {
		if op == OUrem {
			return m.Bin(OBand, a, m.C(w, d-1))
		}
		return m.Bin(OLshr, a, m.C(w, uint64(bits.TrailingZeros64(d))))
	}
	if a.hi < d {
		if op == OUrem {
			return a
		}
		return m.C(w, 0)
	}
	if a.op == OIte {
		return m.Ite(a.a, m.Bin(op, a.b, b), m.Bin(op, a.c, b))
	}
	if x, y := m.multiples(a, d); x != nil {
		// a = d*x + y without overflow
		if op == OUrem {
			return m.Bin(op, y, b)
		}
		return m.Bin(OAdd, x, m.Bin(op, y, b))
	}
	if q := a.hi / d; q <= 4 {
		q0 := a.lo / d
		res := func(k uint64) *Term {
			if op == OUrem {
				return m.Bin(OSub, a, m.C(w, k*d))
			}
			return m.C(w, k)
		}
		r := res(q)
		for k := q; k > q0; k-- {
			r = m.Ite(m.Cmp(OUlt, a, m.C(w, k*d)), res(k-1), r)
		}
		return r
	}
	if k := bits.Len64(a.hi); k < w && k <= 32 && d <= mask(k) {
		return m.conv(OZext, m.Bin(op, m.conv(OTrunc, a, k), m.C(k, d)), w)
	}
	return nil
}

// push2 pushes a binary operation into ite trees with constant leaves.
func (m *TM) push2(a, b *Term, f func(x, y *Term) *Term) *Term {
	switch {
	case a.tree && b.isConst():
		return m.Ite(a.a, f(a.b, b), f(a.c, b))
	case b.tree && a.isConst():
		return m.Ite(b.a, f(a, b.b), f(a, b.c))
	case a.tree && b.tree:
		if a.a == b.a {
			return m.Ite(a.a, f(a.b, b.b), f(a.c, b.c))
		}
		if len(a.vals)*len(b.vals) <= 64 {
			return m.Ite(a.a, f(a.b, b), f(a.c, b))
		}
	}
	return nil
}

func (m *TM) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d in comparison", a.w, b.w))
	}
	if w == 0 {
		if op != OEq {
			panic("ordering on booleans")
		}
		return m.Iff(a, b)
	}
	if a.isConst() && b.isConst() {
		return m.Bool(foldCmp(op, w, a.val, b.val))
	}
	if a == b {
		return m.Bool(op == OEq || op == OUle || op == OSle)
	}
	half := uint64(1) << uint(w-1)
	if (op == OSlt || op == OSle) && a.hi < half && b.hi < half {
		op = map[Op]Op{OSlt: OUlt, OSle: OUle}[op]
	}
	if op == OSlt || op == OSle {
		// both ranges within one sign each
		if a.lo >= half && b.hi < half {
			return m.tTrue
		}
		if b.lo >= half && a.hi < half {
			return m.tFalse
		}
		if a.lo >= half && b.lo >= half {
			op = map[Op]Op{OSlt: OUlt, OSle: OUle}[op]
		}
	}
	switch op {
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return m.tFalse
		}
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	case OUlt:
		if a.hi < b.lo {
			return m.tTrue
		}
		if a.lo >= b.hi {
			return m.tFalse
		}
	case OUle:
		if a.hi <= b.lo {
			return m.tTrue
		}
		if a.lo > b.hi {
			return m.tFalse
		}
	}
	k := tkey{op: op, w: w, a: a.id, b: b.id}
	if r, ok := m.opc[k]; ok {
		return r
	}
	r := m.cmp1(op, w, a, b, k)
	m.opc[k] = r
	return r
}

func (m *TM) cmp1(op Op, w int, a, b *Term, k tkey) *Term {
	if v := single(a, b); v != nil {
		s := make([]uint64, v.words)
		for i := 0; i < v.size; i++ {
			if foldCmp(op, w, at(a, i), at(b, i)) {
				s[i/64] |= 1 << uint(i%64)
			}
		}
		return m.InSet(v, s)
	}
	if op == OEq && b.isConst() {
		// zext(x) = c, x + c1 = c2
		if a.op == OZext {
			if b.val > mask(a.a.w) {
				return m.tFalse
			}
			return m.Cmp(OEq, a.a, m.C(a.a.w, b.val))
		}
		if a.op == OAdd && a.b.isConst() {
			return m.Cmp(OEq, a.a, m.C(w, b.val-a.b.val))
		}
		if a.tree && a.vals != nil {
			i := sort.Search(len(a.vals), func(i int) bool { return a.vals[i] >= b.val })
			if i == len(a.vals) || a.vals[i] != b.val {
				return m.tFalse
			}
		}
	}
	if (op == OEq || op == OUlt || op == OUle) && a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return m.Cmp(op, a.a, b.a)
	}
	if r := m.push2(a, b, func(x, y *Term) *Term { return m.Cmp(op, x, y) }); r != nil {
		return r
	}
	// ite with one constant leaf compared with a constant
	if b.isConst() && a.op == OIte && (a.b.isConst() || a.c.isConst()) {
		return m.Ite(a.a, m.Cmp(op, a.b, b), m.Cmp(op, a.c, b))
	}
	return m.mk(&Term{op: op, w: 0, a: a, b: b, maxOrd: max(a.maxOrd, b.maxOrd)}, tkey{op: op, w: 0, a: a.id, b: b.id, val: uint64(w)})
}

func (m *TM) Eq(a, b *Term) *Term { return m.Cmp(OEq, a, b) }

// conv: OZext / OSext / OTrunc to width w.
func (m *TM) conv(op Op, a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	f := func(x uint64) uint64 {
		switch op {
		case OZext:
			return x
		case OSext:
			return uint64(sx(x, a.w)) & mask(w)
		}
		return x & mask(w)
	}
	if a.isConst() {
		return m.C(w, f(a.val))
	}
	if op == OSext && a.hi < 1<<uint(a.w-1) {
		op = OZext
	}
	if op == OTrunc && (a.op == OZext || a.op == OSext) {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return m.conv(OTrunc, a.a, w)
		}
		return m.conv(a.op, a.a, w)
	}
	if op == OZext && a.op == OZext {
		return m.conv(OZext, a.a, w)
	}
	k := tkey{op: op, w: w, a: a.id}
	if r, ok := m.opc[k]; ok {
		return r
	}
	var r *Term
	if a.v != nil {
		n := &Term{op: op, w: w, a: a, v: a.v, maxOrd: a.maxOrd}
		n.tab = make([]uint64, len(a.tab))
		for i, x := range a.tab {
			n.tab[i] = f(x)
		}
		r = m.tabTerm(n, k)
	} else if a.tree {
		r = m.Ite(a.a, m.conv(op, a.b, w), m.conv(op, a.c, w))
	} else {
		n := &Term{op: op, w: w, a: a, lo: 0, hi: mask(w), maxOrd: a.maxOrd}
		if op == OZext || (op == OTrunc && a.hi <= mask(w)) {
			n.lo, n.hi = a.lo, a.hi
		}
		r = m.mk(n, k)
	}
	m.opc[k] = r
	return r
}

func (m *TM) Bnot(a *Term) *Term { return m.Bin(OBxor, a, m.C(a.w, mask(a.w))) }

// eval computes the value of a term under an assignment of the variables (by id).
func (m *TM) eval(t *Term, env []uint64, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if r, ok := memo[t]; ok {
		return r
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var r uint64
	switch t.op {
	case OVar, OBoolVar:
		r = env[t.val]
	case OInSet:
		x := env[t.v.id]
		r = b2u(int(x) < t.v.size && t.set[x/64]>>(x%64)&1 == 1)
	case ONot:
		r = 1 - m.eval(t.a, env, memo)
	case OAnd:
		r = m.eval(t.a, env, memo)
		if r == 1 {
			r = m.eval(t.b, env, memo)
		}
	case OOr:
		r = m.eval(t.a, env, memo)
		if r == 0 {
			r = m.eval(t.b, env, memo)
		}
	case OIte:
		if m.eval(t.a, env, memo) == 1 {
			r = m.eval(t.b, env, memo)
		} else {
			r = m.eval(t.c, env, memo)
		}
	case OEq, OUlt, OUle, OSlt, OSle:
		r = b2u(foldCmp(t.op, t.a.w, m.eval(t.a, env, memo), m.eval(t.b, env, memo)))
	case OZext:
		r = m.eval(t.a, env, memo)
	case OSext:
		r = uint64(sx(m.eval(t.a, env, memo), t.a.w)) & mask(t.w)
	case OTrunc:
		r = m.eval(t.a, env, memo) & mask(t.w)
	default:
		r = foldBV(t.op, t.w, m.eval(t.a, env, memo), m.eval(t.b, env, memo))
	}
	memo[t] = r
	return r
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d", sx(t.val, t.w))
	case OVar, OBoolVar:
		return fmt.Sprintf("v%d", t.val)
	case OInSet:
		var p []string
		for i := 0; i < t.v.size; i++ {
			if t.set[i/64]>>(uint(i)%64)&1 == 0 {
				continue
			}
			j := i
			for j+1 < t.v.size && t.set[(j+1)/64]>>(uint(j+1)%64)&1 == 1 {
				j++
			}
			p = append(p, fmt.Sprintf("%d-%d", i, j))
			i = j
		}
		return t.v.name + "∈{" + strings.Join(p, ",") + "}"
	}
	if d == 0 {
		return "…"
	}
	s := fmt.Sprintf("(%d", t.op)
	if n, ok := opNames[t.op]; ok {
		s = "(" + n
	} else {
		switch t.op {
		case OAnd:
			s = "(and"
		case OOr:
			s = "(or"
		case ONot:
			s = "(not"
		case OIte:
			s = "(ite"
		}
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
