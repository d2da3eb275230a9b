package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- operators

func (e *Engine) binop(s *State, ins *ssa.BinOp, x, y Value) Value {
	tm := e.tm
	switch ins.Op {
	case token.EQL:
		return e.eq(s, x, y)
	case token.NEQ:
		return tm.Not(e.eq(s, x, y))
	}
	if isString(ins.X.Type()) {
		a, b := e.plain(s, e.pick(s, x).(*Str)), e.plain(s, e.pick(s, y).(*Str))
		switch ins.Op {
		case token.ADD:
			return e.concat(s, a, b)
		case token.LSS:
			return e.strLess(s, a, b)
		case token.GTR:
			return e.strLess(s, b, a)
		case token.LEQ:
			return tm.Not(e.strLess(s, b, a))
		case token.GEQ:
			return tm.Not(e.strLess(s, a, b))
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		if u, ok := x.(*Union); ok {
			return e.binop(s, ins, e.pick(s, u), y)
		}
		if u, ok := y.(*Union); ok {
			return e.binop(s, ins, x, e.pick(s, u))
		}
		unsup("operator %s on %s, %s", ins.Op, vstr(x), vstr(y))
	}
	sg := isSigned(ins.X.Type())
	if a.w == 0 {
		switch ins.Op {
		case token.AND:
			return tm.And(a, b)
		case token.OR:
			return tm.Or(a, b)
		}
		unsup("boolean operator %s", ins.Op)
	}
	switch ins.Op {
	case token.ADD:
		return tm.Bin(OAdd, a, b)
	case token.SUB:
		return tm.Bin(OSub, a, b)
	case token.MUL:
		return tm.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if e.decide(s, tm.Eq(b, tm.C(b.w, 0))) {
			panic(goPanic{"integer divide by zero"})
		}
		op := map[bool]map[token.Token]Op{true: {token.QUO: OSdiv, token.REM: OSrem}, false: {token.QUO: OUdiv, token.REM: OUrem}}[sg][ins.Op]
		return tm.Bin(op, a, b)
	case token.AND:
		return tm.Bin(OBand, a, b)
	case token.OR:
		return tm.Bin(OBor, a, b)
	case token.XOR:
		return tm.Bin(OBxor, a, b)
	case token.AND_NOT:
		return tm.Bin(OBand, a, tm.Bnot(b))
	case token.SHL, token.SHR:
		if isSigned(ins.Y.Type()) && !b.isConst() {
			if e.decide(s, tm.Cmp(OSlt, b, tm.C(b.w, 0))) {
				panic(goPanic{"negative shift amount"})
			}
		}
		if b.w > a.w {
			big := tm.Cmp(OUle, tm.C(b.w, uint64(a.w)), b)
			b = tm.Ite(big, tm.C(a.w, uint64(a.w)), tm.conv(OTrunc, b, a.w))
		} else {
			b = tm.conv(OZext, b, a.w)
		}
		switch {
		case ins.Op == token.SHL:
			return tm.Bin(OShl, a, b)
		case sg:
			return tm.Bin(OAshr, a, b)
		}
		return tm.Bin(OLshr, a, b)
	case token.LSS:
		if sg {
			return tm.Cmp(OSlt, a, b)
		}
		return tm.Cmp(OUlt, a, b)
	case token.LEQ:
		if sg {
			return tm.Cmp(OSle, a, b)
		}
		return tm.Cmp(OUle, a, b)
	case token.GTR:
		if sg {
			return tm.Cmp(OSlt, b, a)
		}
		return tm.Cmp(OUlt, b, a)
	case token.GEQ:
		if sg {
			return tm.Cmp(OSle, b, a)
		}
		return tm.Cmp(OUle, b, a)
	}
	unsup("operator %s", ins.Op)
	return nil
}

func (e *Engine) unop(s *State, ins *ssa.UnOp, x Value) Value {
	t, ok := x.(*Term)
	if !ok {
		unsup("operator %s on %s", ins.Op, vstr(x))
	}
	switch ins.Op {
	case token.NOT:
		return e.tm.Not(t)
	case token.SUB:
		return e.tm.Bin(OSub, e.tm.C(t.w, 0), t)
	case token.XOR:
		return e.tm.Bnot(t)
	}
	unsup("operator %s", ins.Op)
	return nil
}

// eq compares two values.
func (e *Engine) eq(s *State, a, b Value) *Term {
	tm := e.tm
	if a == b {
		return tm.tTrue
	}
	if u, ok := a.(*Union); ok {
		r := tm.tFalse
		for _, x := range u.alts {
			if e.eval3(s, x.g) == no {
				continue
			}
			r = tm.Or(r, tm.And(x.g, e.eq(s, x.v, b)))
		}
		return r
	}
	if _, ok := b.(*Union); ok {
		return e.eq(s, b, a)
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return tm.Eq(x, y)
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return e.strEq(s, x, y)
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			if x.obj != y.obj {
				return tm.tFalse
			}
			if len(x.path) != len(y.path) {
				// a pointer to a struct and to its first field never have the same type
				return tm.tFalse
			}
			r := tm.tTrue
			for i := range x.path {
				p, q := x.path[i], y.path[i]
				if p == q {
					continue
				}
				if p.sym == nil && q.sym == nil {
					return tm.tFalse
				}
				l, m := e.i64(p.i), e.i64(q.i)
				if p.sym != nil {
					l = tm.Bin(OAdd, l, p.sym)
				}
				if q.sym != nil {
					m = tm.Bin(OAdd, m, q.sym)
				}
				r = tm.And(r, tm.Eq(l, m))
			}
			return r
		}
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return tm.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tm.tFalse
		}
		return e.eq(s, x.v, y.v)
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if x.fn == nil || y.fn == nil {
				return tm.Bool(x.fn == nil && y.fn == nil)
			}
		}
	case *MapRef:
		if y, ok := b.(*MapRef); ok {
			return tm.Bool(x.obj == y.obj)
		}
	case *Slice:
		if y, ok := b.(*Slice); ok && (x.obj == 0 || y.obj == 0) {
			return tm.Bool(x.obj == 0 && y.obj == 0)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := tm.tTrue
			for i := range x.f {
				r = tm.And(r, e.eq(s, x.f[i], y.f[i]))
			}
			return r
		}
	case *PVec:
		if y, ok := b.(*PVec); ok && x.n == y.n {
			r := tm.tTrue
			for i := 0; i < x.n; i++ {
				r = tm.And(r, e.eq(s, x.get(i), y.get(i)))
			}
			return r
		}
	case *TimeV:
		if y, ok := b.(*TimeV); ok {
			return e.timeEq(s, x, y)
		}
	}
	unsup("comparison of %s and %s", vstr(a), vstr(b))
	return nil
}

func (e *Engine) timeEq(s *State, x, y *TimeV) *Term {
	if e.identical(x, y) {
		return e.tm.tTrue
	}
	if x.op != y.op || len(x.args) != len(y.args) {
		return e.tm.tFalse
	}
	r := e.tm.tTrue
	for i := range x.args {
		r = e.tm.And(r, e.eq(s, x.args[i], y.args[i]))
	}
	return r
}

// plain renders formatted text.
func (e *Engine) plain(s *State, v *Str) *Str {
	if v.alias != nil {
		return e.sliceStr(s, v.alias)
	}
	if v.fs == nil {
		return v
	}
	if r := e.getRendered(s, v.fs); r != nil {
		if st, ok := r.(*Str); ok {
			return e.plain(s, st)
		}
		return e.plain(s, e.pick(s, r).(*Str))
	}
	fn := e.lib["Sprintf"]
	if fn == nil {
		unsup("formatted text is inspected: %q", v.fs.format)
	}
	// build the variadic slice
	id := e.newObj(s, -7, nil, vecOf(v.fs.args, nilIface))
	n := e.i64(len(v.fs.args))
	sl := &Slice{obj: id, off: e.i64(0), len: n, cap: n}
	panic(callReq{fn: fn, args: []Value{e.str(v.fs.format), sl}, fs: v.fs})
}

func (e *Engine) concat(s *State, a, b *Str) *Str {
	a, b = e.plain(s, a), e.plain(s, b)
	if a.con && b.con {
		return e.str(a.s + b.s)
	}
	if a.len.isConst() && a.len.val == 0 {
		return b
	}
	if b.len.isConst() && b.len.val == 0 {
		return a
	}
	return e.strOf(append(e.bytesOf(s, a), e.bytesOf(s, b)...))
}

// clen forks over a length; a negative one is a case the path condition already rules out.
func (e *Engine) clen(s *State, t *Term) int {
	n := int(e.concretize(s, t))
	if n < 0 {
		panic(deadState{})
	}
	return n
}

// bytesOf makes the bytes of a string explicit, forking over its length and offset.
func (e *Engine) bytesOf(s *State, a *Str) []*Term {
	a = e.plain(s, a)
	n := e.clen(s, a.len)
	r := make([]*Term, n)
	for i := range r {
		r[i] = e.strAt(a, e.i64(i))
	}
	return r
}

func (e *Engine) strEq(s *State, x, y *Str) *Term {
	tm := e.tm
	if e.identical(x, y) {
		return tm.tTrue
	}
	if x.fs != nil && y.fs != nil && x.fs.format == y.fs.format && len(x.fs.args) == len(y.fs.args) {
		r := tm.tTrue
		for i := range x.fs.args {
			r = tm.And(r, e.eq(s, x.fs.args[i], y.fs.args[i]))
		}
		return r
	}
	x, y = e.plain(s, x), e.plain(s, y)
	le := tm.Eq(x.len, y.len)
	if le.isFalse() {
		return le
	}
	if x.off == y.off && sameVec(x.arr, y.arr) {
		return le
	}
	n := 0
	if x.len.isConst() {
		n = int(x.len.val)
	} else if y.len.isConst() {
		n = int(y.len.val)
	} else {
		hi := x.len.hi
		if y.len.hi < hi {
			hi = y.len.hi
		}
		if hi > 64 {
			if vs := e.values(s, x.len, 400); vs != nil {
				n = e.clen(s, x.len)
			} else {
				n = e.clen(s, y.len)
			}
		} else {
			r := le
			for i := 0; i < int(hi); i++ {
				c := tm.Or(tm.Not(tm.Cmp(OUlt, e.i64(i), x.len)), tm.Eq(e.strAt(x, e.i64(i)), e.strAt(y, e.i64(i))))
				r = tm.And(r, c)
			}
			return r
		}
	}
	r := le
	for i := 0; i < n; i++ {
		if r.isFalse() {
			break
		}
		r = tm.And(r, tm.Eq(e.strAt(x, e.i64(i)), e.strAt(y, e.i64(i))))
	}
	return r
}

func (e *Engine) strLess(s *State, a, b *Str) *Term {
	tm := e.tm
	x, y := e.bytesOf(s, a), e.bytesOf(s, b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := tm.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = tm.Or(tm.Cmp(OUlt, x[i], y[i]), tm.And(tm.Eq(x[i], y[i]), r))
	}
	return r
}

func isUnsafePointer(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (e *Engine) convert(s *State, ci *cinstr, v Value, from, to types.Type) Value {
	tm := e.tm
	if u, ok := v.(*Union); ok {
		if _, isT := to.Underlying().(*types.Pointer); !isT {
			v = e.pick(s, u)
		}
	}
	wf, wt := bitsOf(from), bitsOf(to)
	if wf > 0 && wt > 0 {
		t := v.(*Term)
		switch {
		case wt == wf:
			return t
		case wt < wf:
			return tm.conv(OTrunc, t, wt)
		case isSigned(from):
			return tm.conv(OSext, t, wt)
		}
		return tm.conv(OZext, t, wt)
	}
	ft, tt := from.Underlying(), to.Underlying()
	if isUnsafePointer(ft) || isUnsafePointer(tt) {
		if p, ok := v.(*Ptr); ok {
			return p
		}
	}
	if isString(to) {
		switch x := v.(type) {
		case *Slice:
			if el := ft.(*types.Slice).Elem(); bitsOf(el) != 8 {
				// []rune
				n := e.clen(s, x.len)
				var bs []*Term
				for i := 0; i < n; i++ {
					r := e.load(s, &Ptr{obj: x.obj, path: appendPE(x.path, e.pe(int(e.concretize(s, x.off)), e.i64(i)))}).(*Term)
					bs = append(bs, e.encodeRune(s, r)...)
				}
				return e.strOf(bs)
			}
			return e.sliceStr(s, x)
		case *Term:
			r := x
			if r.w > 32 {
				if e.decide(s, tm.Cmp(OUlt, tm.C(r.w, 0x10FFFF), r)) {
					r = tm.C(32, 0xFFFD)
				} else {
					r = tm.conv(OTrunc, r, 32)
				}
			} else if isSigned(from) {
				r = tm.conv(OSext, r, 32)
			} else {
				r = tm.conv(OZext, r, 32)
			}
			return e.strOf(e.encodeRune(s, r))
		case *Str:
			return x
		}
	}
	if isString(from) {
		st := e.plain(s, v.(*Str))
		sl, ok := tt.(*types.Slice)
		if ok && bitsOf(sl.Elem()) == 8 {
			off := int(e.concretize(s, st.off))
			n := st.arr.n - off
			if st.len.hi < uint64(n) {
				n = int(st.len.hi)
			}
			vs := make([]Value, n)
			for i := range vs {
				vs[i] = st.arr.get(off + i)
			}
			id := e.newObj(s, ci.site, nil, vecOf(vs, tm.C(8, 0)))
			return &Slice{obj: id, off: e.i64(0), len: st.len, cap: st.len}
		}
	}
	if _, ok := tt.(*types.Pointer); ok {
		return v
	}
	if b, ok := tt.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (e *Engine) sliceStr(s *State, x *Slice) *Str {
	if x.obj == 0 {
		return e.str("")
	}
	vec, ok := e.at(e.obj(s, x.obj).v, x.path).(*PVec)
	if !ok {
		unsup("string of %s", vstr(x))
	}
	if x.len.isConst() && x.off.isConst() {
		n := int(x.len.val)
		con := true
		b := make([]byte, n)
		for i := 0; i < n; i++ {
			t := vec.get(int(x.off.val) + i).(*Term)
			if !t.isConst() {
				con = false
				break
			}
			b[i] = byte(t.val)
		}
		if con {
			return e.str(string(b))
		}
	}
	return &Str{arr: vec, off: x.off, len: x.len}
}

func (e *Engine) encodeRune(s *State, r *Term) []*Term {
	tm := e.tm
	c := func(v uint64) *Term { return tm.C(32, v) }
	b := func(t *Term) *Term { return tm.conv(OTrunc, t, 8) }
	part := func(sh, m, or uint64) *Term {
		return b(tm.Bin(OBor, tm.Bin(OBand, tm.Bin(OLshr, r, c(sh)), c(m)), c(or)))
	}
	if e.decide(s, tm.Cmp(OUlt, r, c(0x80))) {
		return []*Term{b(r)}
	}
	if e.decide(s, tm.Cmp(OUlt, r, c(0x800))) {
		return []*Term{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)}
	}
	bad := tm.Or(tm.Cmp(OUlt, c(0x10FFFF), r), tm.And(tm.Cmp(OUle, c(0xD800), r), tm.Cmp(OUle, r, c(0xDFFF))))
	if e.decide(s, bad) {
		return []*Term{tm.C(8, 0xEF), tm.C(8, 0xBF), tm.C(8, 0xBD)}
	}
	if e.decide(s, tm.Cmp(OUlt, r, c(0x10000))) {
		return []*Term{part(12, 0xF, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	return []*Term{part(18, 7, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
}

func (e *Engine) typeAssert(s *State, ins *ssa.TypeAssert, v Value) Value {
	v = e.pick(s, v)
	x, ok := v.(*Iface)
	if !ok {
		unsup("type assertion on %s", vstr(v))
	}
	good := false
	var r Value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil {
			good = types.Implements(x.t, it)
			r = x
		}
	} else if x.t != nil && types.Identical(x.t, ins.AssertedType) {
		good = true
		r = x.v
	}
	if ins.CommaOk {
		if !good {
			r = e.zeroOf(ins.AssertedType)
		}
		return &TupleV{f: []Value{r, e.tm.Bool(good)}}
	}
	if !good {
		panic(goPanic{"interface conversion"})
	}
	return r
}

// ---------------------------------------------------------------- calls

func fname(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// resolve finds the function called and its arguments.
func (e *Engine) resolve(s *State, c *ssa.CallCommon, fv Value, args []Value) (*ssa.Function, []Value, []Value) {
	if c.IsInvoke() {
		v := e.pick(s, fv)
		x, ok := v.(*Iface)
		if !ok {
			unsup("method call on %s", vstr(v))
		}
		if x.t == nil {
			panic(goPanic{"method call on nil interface"})
		}
		fn := e.prog.LookupMethod(x.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsup("no method %s on %s", c.Method.Name(), x.t)
		}
		return fn, append([]Value{x.v}, args...), nil
	}
	v := e.pick(s, fv)
	f, ok := v.(*FuncV)
	if !ok {
		unsup("call of %s", vstr(v))
	}
	if f.fn == nil {
		panic(goPanic{"call of nil function"})
	}
	return f.fn, args, f.binds
}

func (e *Engine) call(s *State, f *Frame, ci *cinstr, ins *ssa.Call) bool {
	var args []Value
	for _, o := range ci.ops[1:] {
		args = append(args, e.get(f, o))
	}
	if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
		v, again := e.builtin(s, f, ci, ins, b.Name(), args)
		if again {
			return false
		}
		e.set(f, ci.dst, v)
		f.idx++
		return false
	}
	fn, args, binds := e.resolve(s, &ins.Call, e.get(f, ci.ops[0]), args)
	name := fname(fn)
	if h := e.intr[name]; h != nil {
		r := h(e, s, ci, args)
		if r == nil {
			panic("intrinsic " + name + " gave no result")
		}
		switch r.ctl {
		case ctlPushed:
			return false
		case ctlEnd:
			return true
		case ctlQueue:
			e.set(f, ci.dst, r.v)
			f.idx++
			e.enqueue(s)
			return true
		case ctlAgain:
			return false
		}
		e.set(f, ci.dst, r.v)
		f.idx++
		return false
	}
	if to := e.redirect[name]; to != nil && f.fi.fn != to {
		e.stubs[name]++
		fn = to
	}
	if len(fn.Blocks) == 0 {
		unsup("call of %s (no Go body)", name)
	}
	e.push(s, fn, args, binds, 0)
	return false
}

func (e *Engine) lenOf(s *State, v Value) *Term {
	switch x := v.(type) {
	case *Str:
		return e.plain(s, x).len
	case *Slice:
		return x.len
	case *PVec:
		return e.i64(x.n)
	case *MapRef:
		return e.i64(len(e.mapObj(s, x).keys))
	case *Ptr:
		if a, ok := e.at(e.obj(s, x.obj).v, x.path).(*PVec); ok {
			return e.i64(a.n)
		}
	case *Union:
		var r *Term
		for i := len(x.alts) - 1; i >= 0; i-- {
			l := e.lenOf(s, x.alts[i].v)
			if r == nil {
				r = l
			} else {
				r = e.tm.Ite(x.alts[i].g, l, r)
			}
		}
		return r
	}
	unsup("len of %s", vstr(v))
	return nil
}

func (e *Engine) builtin(s *State, f *Frame, ci *cinstr, ins *ssa.Call, name string, args []Value) (Value, bool) {
	tm := e.tm
	switch name {
	case "len":
		return e.lenOf(s, args[0]), false
	case "cap":
		switch x := e.pick(s, args[0]).(type) {
		case *Slice:
			return x.cap, false
		case *PVec:
			return e.i64(x.n), false
		}
	case "append":
		a, ok := e.pick(s, args[0]).(*Slice)
		if !ok {
			unsup("append to %s", vstr(args[0]))
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		var el []Value
		switch b := e.pick(s, args[1]).(type) {
		case *Slice:
			n := e.clen(s, b.len)
			off := 0
			if n > 0 {
				off = int(e.concretize(s, b.off))
				vec := e.at(e.obj(s, b.obj).v, b.path).(*PVec)
				for i := 0; i < n; i++ {
					el = append(el, vec.get(off+i))
				}
			}
		case *Str:
			for _, t := range e.bytesOf(s, b) {
				el = append(el, t)
			}
		default:
			unsup("append of %s", vstr(args[1]))
		}
		if len(el) == 0 {
			return a, false
		}
		la := e.clen(s, a.len)
		ca := int(e.concretize(s, a.cap))
		off := int(e.concretize(s, a.off))
		if a.obj != 0 && la+len(el) <= ca {
			o := e.obj(s, a.obj)
			vec := e.at(o.v, a.path).(*PVec)
			nv := e.put(s, o.v, a.path, vec.setRange(off+la, el))
			s.setObj(a.obj, &Obj{v: nv, typ: o.typ})
			return &Slice{obj: a.obj, path: a.path, off: a.off, len: e.i64(la + len(el)), cap: a.cap}, false
		}
		n := la + len(el)
		nc := e.growCap(ca, n, et)
		var all []Value
		if la > 0 {
			vec := e.at(e.obj(s, a.obj).v, a.path).(*PVec)
			for i := 0; i < la; i++ {
				all = append(all, vec.get(off+i))
			}
		}
		all = append(all, el...)
		vec := vecOf(all, e.zeroOf(et))
		if nc > n {
			big := newPVec(nc, e.zeroOf(et))
			copy(big.ch, vec.ch)
			vec = big
		}
		id := e.newObj(s, ci.site, nil, vec)
		return &Slice{obj: id, off: e.i64(0), len: e.i64(n), cap: e.i64(nc)}, false
	case "copy":
		d := e.pick(s, args[0]).(*Slice)
		dl := e.clen(s, d.len)
		var el []Value
		switch b := e.pick(s, args[1]).(type) {
		case *Slice:
			n := e.clen(s, b.len)
			if n > dl {
				n = dl
			}
			if n > 0 {
				off := int(e.concretize(s, b.off))
				vec := e.at(e.obj(s, b.obj).v, b.path).(*PVec)
				for i := 0; i < n; i++ {
					el = append(el, vec.get(off+i))
				}
			}
		case *Str:
			for _, t := range e.bytesOf(s, b) {
				if len(el) < dl {
					el = append(el, t)
				}
			}
		}
		if len(el) > 0 {
			doff := int(e.concretize(s, d.off))
			o := e.obj(s, d.obj)
			vec := e.at(o.v, d.path).(*PVec)
			nv := e.put(s, o.v, d.path, vec.setRange(doff, el))
			s.setObj(d.obj, &Obj{v: nv, typ: o.typ})
		}
		return e.i64(len(el)), false
	case "delete":
		if e.concSwitch(s, f, ci, args[0]) {
			return nil, true
		}
		e.mapDelete(s, args[0], args[1])
		return &TupleV{}, false
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p.obj == 0 {
			panic(goPanic{"nil receiver"})
		}
		return args[0], false
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			op := OUlt
			if isSigned(ins.Type()) {
				op = OSlt
			}
			c := tm.Cmp(op, t, r)
			if name == "max" {
				c = tm.Cmp(op, r, t)
			}
			r = tm.Ite(c, t, r)
		}
		return r, false
	case "recover":
		return nilIface, false
	case "print", "println":
		return &TupleV{}, false
	case "clear":
		switch x := e.pick(s, args[0]).(type) {
		case *MapRef:
			if x.obj != 0 {
				s.setObj(x.obj, &Obj{v: &MapObj{}, typ: e.obj(s, x.obj).typ})
			}
			return &TupleV{}, false
		}
	case "SliceData":
		if x, ok := e.pick(s, args[0]).(*Slice); ok {
			if x.obj == 0 {
				return nilPtr, false
			}
			return &Ptr{obj: x.obj, path: appendPE(x.path, e.pe(0, x.off))}, false
		}
	case "String":
		p := e.pick(s, args[0]).(*Ptr)
		n := e.idxTerm(args[1], ins.Call.Args[1].Type())
		if p.obj == 0 {
			return e.str(""), false
		}
		l := p.path[len(p.path)-1]
		off := e.i64(l.i)
		if l.sym != nil {
			off = tm.Bin(OAdd, off, l.sym)
		}
		sl := &Slice{obj: p.obj, path: p.path[:len(p.path)-1], off: off, len: n, cap: n}
		if pk := f.fi.fn.Pkg; pk != nil && !strings.Contains(pk.Pkg.Path(), ".") {
			return e.sliceStr(s, sl), false // the standard library never writes to such memory again
		}
		return &Str{alias: sl}, false
	}
	unsup("builtin %s", name)
	return nil, false
}

// growCap mirrors runtime.growslice closely enough for observable behaviour: the new capacity is
// unspecified by the language; it is at least what is needed.
func (e *Engine) growCap(old, need int, et types.Type) int {
	n := need
	if d := old * 2; d > n && old < 256 {
		n = d
	}
	if bitsOf(et) == 8 && n < 8 {
		n = 8
	}
	return n
}

// ---------------------------------------------------------------- input variables and monitors

func (e *Engine) variable(name string, w, size, ord int) *Term {
	if t, ok := e.vars[name]; ok {
		return t
	}
	var t *Term
	if w == 0 {
		t = e.tm.NewBool(name)
	} else {
		t = e.tm.NewVar(name, w, size, ord)
	}
	e.vars[name] = t
	e.varNames = append(e.varNames, name)
	return t
}

// feed notes that a byte of the input is looked at: progress, and a step of the monitor.
func (e *Engine) feed(s *State, v Value) bool {
	t, ok := v.(*Term)
	if !ok || t.op != OVar {
		return false
	}
	o := t.maxOrd
	if o < 0 {
		return false
	}
	if o >= s.prog {
		s.prog = o + 1
	}
	k := s.track
	if k == nil {
		return false
	}
	i, in := k.pos[o]
	if !in || i < k.fed {
		return false
	}
	e.stepTrack(s)
	return true
}

func (e *Engine) stepTrack(s *State) {
	k := *s.track
	i := k.fed
	k.fed++
	s.track = &k
	b := k.bytes[i]
	if b.op == OVar && b.maxOrd >= s.prog {
		s.prog = b.maxOrd + 1
	}
	e.push(s, k.step.fn, []Value{e.i64(i), b}, k.step.binds, 1)
}

// ---------------------------------------------------------------- ends of paths

func (e *Engine) finish(s *State) {
	e.nDone++
	e.coverPC(s, "end")
	if e.nDone <= 200000 {
		e.sampleEnd(s, "end")
	}
}

func (e *Engine) coverPC(s *State, why string) {
	if e.initing {
		return
	}
	e.covered = append(e.covered, e.pcTerm(s))
}

func (e *Engine) sampleEnd(s *State, end string) {
	if len(e.done) < 64 {
		e.done = append(e.done, s)
		return
	}
	// keep a spread: exponentially thinning
	if e.nDone%((e.nDone/64)+1) == 0 {
		e.done[e.nDone%64] = s
	}
}

// excluded remembers the part of the state's inputs that an assumption leaves out.
func (e *Engine) excluded(s *State, t *Term) {
	e.assumed = append(e.assumed, e.tm.And(e.pcTerm(s), t))
}

func (e *Engine) pcTerm(s *State) *Term {
	c := e.tm.tTrue
	ts := s.pcTerms()
	for i := len(ts) - 1; i >= 0; i-- {
		c = e.tm.And(c, ts[i])
	}
	return c
}

// reachPoint remembers how a point can be reached; that it can is checked at the end.
func (e *Engine) reachPoint(s *State, name string) {
	e.reachN[name]++
	if e.reachOK[name] {
		return
	}
	for _, m := range e.models {
		if m.holds(e.tm, s.pc) {
			e.reachOK[name] = true
			return
		}
	}
	if n := e.reachN[name]; n <= 30 || n%97 == 0 && len(e.reach[name]) < 60 {
		e.reach[name] = append(e.reach[name], e.pcTerm(s))
	}
}

func (e *Engine) panicked(s *State, msg string) {
	if e.initing {
		e.note("panic during initialisation: %s at %s", msg, e.where(s))
		return
	}
	e.nDone++
	e.coverPC(s, "panic")
	key := "panic:" + msg + ":" + s.top().fi.fn.String()
	e.violation(s, e.tm.tTrue, "panic", msg, key)
}

func (e *Engine) hang(s *State) {
	e.hangMsg(s, "does not terminate within the step limit")
}

// violation asks the solver for an input that reaches s with bad true.
func (e *Engine) violation(s *State, bad *Term, kind, msg, key string) {
	if e.cexSeen[key] >= 3 {
		return
	}
	e.oblQueries++
	ts := append(s.pcTerms(), bad)
	res, env := e.sol.Check(ts, e.qTimeout*10, true)
	if res != "unknown" && len(e.decided) < 400 {
		e.decided = append(e.decided, query{ts, res})
	}
	switch res {
	case "unsat":
		return
	case "unknown":
		e.note("solver gave no answer for: %s (%s)", msg, kind)
		return
	}
	e.cexSeen[key]++
	m := map[string]uint64{}
	for n, t := range e.vars {
		if int(t.val) < len(env) {
			m[n] = env[t.val]
		}
	}
	e.cex = append(e.cex, &Cex{Kind: kind, Msg: msg, Pos: e.where(s), Env: m})
	if e.trace {
		fmt.Fprintln(os.Stderr, "CEX", kind, msg, e.where(s))
	}
}

func (e *Engine) assert(s *State, c *Term, msg string) {
	if !e.wants(msg) {
		return
	}
	e.obligations++
	e.reachPoint(s, msg)
	switch e.eval3(s, c) {
	case yes:
		e.folded++
		return
	}
	e.violation(s, e.tm.Not(c), "assert", msg, "assert:"+msg)
}

// wants tells whether an assertion belongs to the property being checked.
func (e *Engine) wants(msg string) bool {
	if e.prop == "" || len(msg) < 4 || msg[3] != ':' {
		return true
	}
	return strings.HasPrefix(msg, e.prop+":")
}

var _ = time.Now
