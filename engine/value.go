package main

// Symbolic values. A value is one of: *Term (booleans, integers), *Str, *Slice, *Ptr, *Iface, *FuncV,
// *MapRef, *StructV, *PVec (arrays), *TupleV, *TimeV, *Union, *IterV.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

const chunk = 32

// PVec is a persistent vector.
type PVec struct {
	n    int
	ch   []*[chunk]Value
	zero Value
}

func newPVec(n int, zero Value) *PVec {
	return &PVec{n: n, ch: make([]*[chunk]Value, (n+chunk-1)/chunk), zero: zero}
}

func (p *PVec) get(i int) Value {
	c := p.ch[i/chunk]
	if c == nil {
		return p.zero
	}
	return c[i%chunk]
}

func (p *PVec) set(i int, v Value) *PVec {
	if p.get(i) == v {
		return p
	}
	q := &PVec{n: p.n, ch: append([]*[chunk]Value(nil), p.ch...), zero: p.zero}
	q.setIn(i, v)
	return q
}

// setIn writes into a vector of which only the chunk table is owned.
func (p *PVec) setIn(i int, v Value) {
	c := p.ch[i/chunk]
	n := new([chunk]Value)
	if c != nil {
		*n = *c
	} else {
		for j := range n {
			n[j] = p.zero
		}
	}
	n[i%chunk] = v
	p.ch[i/chunk] = n
}

func vecOf(vs []Value, zero Value) *PVec {
	p := newPVec(len(vs), zero)
	for i := 0; i < len(vs); i += chunk {
		c := new([chunk]Value)
		for j := range c {
			if i+j < len(vs) {
				c[j] = vs[i+j]
			} else {
				c[j] = zero
			}
		}
		p.ch[i/chunk] = c
	}
	return p
}

// setRange returns p with p[at:at+len(vs)] replaced.
func (p *PVec) setRange(at int, vs []Value) *PVec {
	q := &PVec{n: p.n, ch: append([]*[chunk]Value(nil), p.ch...), zero: p.zero}
	for i := 0; i < len(vs); {
		ci := (at + i) / chunk
		n := new([chunk]Value)
		if q.ch[ci] != nil {
			*n = *q.ch[ci]
		} else {
			for j := range n {
				n[j] = p.zero
			}
		}
		for i < len(vs) && (at+i)/chunk == ci {
			n[(at+i)%chunk] = vs[i]
			i++
		}
		q.ch[ci] = n
	}
	return q
}

type Str struct {
	arr *PVec
	off *Term
	len *Term
	fs  *FmtS // lazily formatted text; arr is nil then
	s   string
	con bool // s is the concrete content
	// alias is the memory a string made by package unsafe shows; arr is nil then.
	alias *Slice
}

// FmtS is formatted text that has not been rendered.
type FmtS struct {
	format string
	args   []Value
}

type PE struct {
	i   int
	sym *Term // symbolic index when not nil
}

type Ptr struct {
	obj  int
	path []PE
}

type Slice struct {
	obj           int
	path          []PE
	off, len, cap *Term
}

type Iface struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
}

type MapRef struct{ obj int }

// MapObj is the content of a map object; keys are known to be pairwise different.
type MapObj struct {
	keys []Value
	vals []Value
}

type StructV struct{ f []Value }
type TupleV struct{ f []Value }

// TimeV is a time.Time: the zero time or the application of a time operation.
type TimeV struct {
	op   string // "", parse, adddate, in, havoc
	args []Value
	loc  *Ptr // the location, when known
}

type Alt struct {
	g *Term
	v Value
}

// Union is a value that is one of several, under mutually exclusive guards.
type Union struct{ alts []Alt }

// IterV iterates over a string or over a map.
type IterV struct {
	str  *Str
	pos  *Term
	m    *MapObj
	perm []int
	k    int
}

// Opaque stands for a value the engine does not model.
type Opaque struct{ what string }

// LocV is the content of a time.Location object.
type LocV struct {
	name  string // "fixed", or "seasonal" (see nd.Seasonal)
	off   *Term  // nil for a seasonal one
	title Value
}

var (
	nilPtr   = &Ptr{}
	nilIface = &Iface{}
	nilFunc  = &FuncV{}
	nilMap   = &MapRef{}
	zeroTime = &TimeV{}
)

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

func bitsOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

type unsupported struct{ what string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// zeroOf gives the zero value of a type.
func (e *Engine) zeroOf(t types.Type) Value {
	if z, ok := e.zeros[t]; ok {
		return z
	}
	z := e.zero1(t)
	e.zeros[t] = z
	return z
}

func (e *Engine) zero1(t types.Type) Value {
	if isNamed(t, "time.Time") {
		return zeroTime
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return e.str("")
		}
		w := bitsOf(t)
		if w == 0 {
			return e.tm.tFalse
		}
		if w > 0 {
			return e.tm.C(w, 0)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return nilPtr
		}
		return &Opaque{"zero " + t.String()}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		z := e.tm.C(64, 0)
		return &Slice{off: z, len: z, cap: z}
	case *types.Map:
		return nilMap
	case *types.Signature:
		return nilFunc
	case *types.Interface:
		return nilIface
	case *types.Chan:
		return nilPtr
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zeroOf(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return newPVec(int(u.Len()), e.zeroOf(u.Elem()))
	case *types.Tuple:
		s := &TupleV{f: make([]Value, u.Len())}
		for i := range s.f {
			s.f[i] = e.zeroOf(u.At(i).Type())
		}
		return s
	}
	unsup("zero of %s", t)
	return nil
}

func (e *Engine) i64(v int) *Term { return e.tm.C(64, uint64(int64(v))) }

// str makes a constant string.
func (e *Engine) str(s string) *Str {
	if r, ok := e.strs[s]; ok {
		return r
	}
	vs := make([]Value, len(s))
	for i := range vs {
		vs[i] = e.tm.C(8, uint64(s[i]))
	}
	r := &Str{arr: vecOf(vs, e.tm.C(8, 0)), off: e.i64(0), len: e.i64(len(s)), s: s, con: true}
	e.strs[s] = r
	return r
}

// strOf makes a string of byte terms.
func (e *Engine) strOf(bs []*Term) *Str {
	con := true
	for _, b := range bs {
		if !b.isConst() {
			con = false
			break
		}
	}
	if con {
		r := make([]byte, len(bs))
		for i := range r {
			r[i] = byte(bs[i].val)
		}
		return e.str(string(r))
	}
	vs := make([]Value, len(bs))
	for i := range vs {
		vs[i] = bs[i]
	}
	return &Str{arr: vecOf(vs, e.tm.C(8, 0)), off: e.i64(0), len: e.i64(len(bs))}
}

func (s *Str) concLen() (int, bool) {
	if s.fs != nil || s.alias != nil {
		return 0, false
	}
	if s.len.isConst() && s.off.isConst() {
		return int(s.len.val), true
	}
	return 0, false
}

func (s *Str) at(i int) *Term { return s.arr.get(int(s.off.val) + i).(*Term) }

// concrete gives the content when it is constant.
func (s *Str) concrete() (string, bool) {
	if s.con {
		return s.s, true
	}
	if s.fs != nil || s.alias != nil {
		return "", false
	}
	n, ok := s.concLen()
	if !ok {
		return "", false
	}
	b := make([]byte, n)
	for i := range b {
		t := s.at(i)
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func vstr(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return x.str(3)
	case *Str:
		if c, ok := x.concrete(); ok {
			return fmt.Sprintf("%q", c)
		}
		if x.fs != nil {
			return fmt.Sprintf("fmt(%q,%d)", x.fs.format, len(x.fs.args))
		}
		if x.alias != nil {
			return "alias of " + vstr(x.alias)
		}
		return fmt.Sprintf("str[%s+%s]", x.off.str(3), x.len.str(3))
	case *Slice:
		return fmt.Sprintf("slice(o%d%v,%s,%s)", x.obj, x.path, x.off.str(3), x.len.str(3))
	case *Ptr:
		return fmt.Sprintf("&o%d%v", x.obj, x.path)
	case *Iface:
		if x.t == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%s,%s)", x.t, vstr(x.v))
	case *StructV:
		var p []string
		for _, f := range x.f {
			p = append(p, vstr(f))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *TupleV:
		var p []string
		for _, f := range x.f {
			p = append(p, vstr(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *Union:
		var p []string
		for _, a := range x.alts {
			p = append(p, a.g.str(2)+"=>"+vstr(a.v))
		}
		return "union{" + strings.Join(p, " | ") + "}"
	case *TimeV:
		return fmt.Sprintf("time(%s/%d)", x.op, len(x.args))
	case *MapRef:
		return fmt.Sprintf("map(o%d)", x.obj)
	case *FuncV:
		if x.fn == nil {
			return "nil-func"
		}
		return x.fn.String()
	case *PVec:
		return fmt.Sprintf("array[%d]", x.n)
	}
	return fmt.Sprintf("%T", v)
}
