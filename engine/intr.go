package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const (
	ctlNext   = iota // store the value, go on
	ctlPushed        // a frame was pushed (or the state changed); the instruction is not finished by us
	ctlEnd           // the state ended
	ctlQueue         // store, go on, but queue the state first
	ctlAgain         // re-execute
)

type res struct {
	v   Value
	ctl int
}

type intrinsic func(e *Engine, s *State, ci *cinstr, args []Value) *res

const ndPath = "verif/harness/nd"
const modelPath = "verif/harness/model"

func ok(v Value) *res { return &res{v: v} }

var none = &TupleV{}

// ctr numbers the uses of a name along a path.
func (e *Engine) ctr(s *State, name string) string {
	k := s.counters[name]
	return fmt.Sprintf("%s#%d", name, k)
}

func (s *State) bump(name string) {
	s.ownCounters()
	s.counters[name]++
}

func (e *Engine) cstr(s *State, v Value) string {
	st, isS := e.pick(s, v).(*Str)
	if !isS {
		unsup("text expected, got %s", vstr(v))
	}
	c, con := e.plain(s, st).concrete()
	if !con {
		unsup("constant text expected")
	}
	return c
}

func (e *Engine) cint(s *State, v Value) int {
	return int(int64(e.concretize(s, e.pick(s, v).(*Term))))
}

// inputBytes makes the variables of an input.
func (e *Engine) inputBytes(name string, n int) []Value {
	vs := make([]Value, n)
	for i := range vs {
		nm := fmt.Sprintf("%s[%d]", name, i)
		if t, ok := e.vars[nm]; ok {
			vs[i] = t
			continue
		}
		o := e.ordNext
		e.ordNext++
		t := e.variable(nm, 8, 256, o)
		e.ordVar[o] = int(t.val)
		vs[i] = t
	}
	return vs
}

// input makes a byte slice of a constant prefix and up to k arbitrary bytes.
func (e *Engine) input(s *State, ci *cinstr, n, prefix string, k int) Value {
	nm := e.ctr(s, n)
	l := e.variable(e.ctr(s, n+".len"), 64, k+1, -1)
	vs := e.inputBytes(nm, k)
	s.bump(n)
	s.bump(n + ".len")
	var all []Value
	for i := 0; i < len(prefix); i++ {
		all = append(all, e.tm.C(8, uint64(prefix[i])))
	}
	all = append(all, vs...)
	id := e.newObj(s, ci.site, nil, vecOf(all, e.tm.C(8, 0)))
	l = e.tm.Bin(OAdd, l, e.i64(len(prefix)))
	return &Slice{obj: id, off: e.i64(0), len: l, cap: l}
}

func boolT(v Value) *Term {
	t, isT := v.(*Term)
	if !isT || t.w != 0 {
		unsup("boolean expected, got %s", vstr(v))
	}
	return t
}

func (e *Engine) boolV(s *State, v Value) *Term { return boolT(e.pick(s, v)) }

var intrinsics map[string]intrinsic

func nd(n string) string { return ndPath + "." + n }

func init() {
	intrinsics = map[string]intrinsic{
		nd("Byte"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			v := e.variable(e.ctr(s, n), 8, 256, -1)
			s.bump(n)
			return ok(v)
		},
		nd("Bool"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			v := e.variable(e.ctr(s, n), 8, 2, -1)
			s.bump(n)
			return ok(e.tm.Eq(v, e.tm.C(8, 1)))
		},
		nd("U16"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			v := e.variable(e.ctr(s, n), 16, 0, -1)
			s.bump(n)
			return ok(v)
		},
		nd("I64"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			v := e.variable(e.ctr(s, n), 64, 0, -1)
			s.bump(n)
			return ok(v)
		},
		nd("Int"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			lo, hi := e.cint(s, a[1]), e.cint(s, a[2])
			v := e.variable(e.ctr(s, n), 64, hi-lo+1, -1)
			s.bump(n)
			return ok(e.tm.Bin(OAdd, v, e.i64(lo)))
		},
		nd("Choose"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			k := e.cint(s, a[1])
			v := e.variable(e.ctr(s, n), 64, k, -1)
			c := e.concretize(s, v)
			s.bump(n)
			return ok(e.i64(int(c)))
		},
		nd("Each"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			k := e.cint(s, a[1])
			v := e.variable(e.ctr(s, n), 64, k, -1)
			c := e.concretize(s, v)
			s.bump(n)
			s.apart = (s.apart ^ (c + 1)) * 1099511628211
			return ok(e.i64(int(c)))
		},
		nd("Input"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.input(s, ci, e.cstr(s, a[0]), "", e.cint(s, a[1])))
		},
		nd("InputAfter"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.input(s, ci, e.cstr(s, a[0]), e.cstr(s, a[1]), e.cint(s, a[2])))
		},
		nd("Bytes"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			k := e.cint(s, a[1])
			vs := e.inputBytes(e.ctr(s, n), k)
			s.bump(n)
			id := e.newObj(s, ci.site, nil, vecOf(vs, e.tm.C(8, 0)))
			return ok(&Slice{obj: id, off: e.i64(0), len: e.i64(k), cap: e.i64(k)})
		},
		nd("Assume"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			c := e.boolV(s, a[0])
			if e.eval3(s, c) == yes {
				return ok(none)
			}
			// the part of the input space left out is remembered for the coverage query
			e.excluded(s, e.tm.Not(c))
			if !e.addPC(s, c) {
				return &res{ctl: ctlEnd}
			}
			if c.op != OInSet && e.feasible(s, e.tm.tTrue) == "unsat" {
				return &res{ctl: ctlEnd}
			}
			return ok(none)
		},
		nd("Stop"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			e.excluded(s, e.tm.tTrue)
			return &res{ctl: ctlEnd}
		},
		nd("Assert"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			e.assert(s, e.boolV(s, a[0]), e.cstr(s, a[1]))
			return ok(none)
		},
		nd("Reach"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			e.reachPoint(s, e.cstr(s, a[0]))
			return ok(none)
		},
		nd("Bound"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cstr(s, a[0])
			d := e.cint(s, a[1])
			if v, has := e.bounds[n]; has {
				d = v
			}
			e.boundsUsed[n] = d
			return ok(e.i64(d))
		},
		nd("Track"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			sl := e.pick(s, a[0]).(*Slice)
			fv := e.pick(s, a[1]).(*FuncV)
			t := &Track{len: sl.len, step: fv, off: int(e.concretize(s, sl.off))}
			if sl.obj != 0 {
				vec := e.at(e.obj(s, sl.obj).v, sl.path).(*PVec)
				for i := t.off; i < vec.n; i++ {
					t.bytes = append(t.bytes, vec.get(i).(*Term))
				}
			}
			t.pos = map[int]int{}
			for i, b := range t.bytes {
				if b.op == OVar && b.maxOrd >= 0 {
					t.pos[b.maxOrd] = i
				}
			}
			s.track = t
			return ok(none)
		},
		nd("Feed"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			if s.track == nil {
				return ok(none)
			}
			n := e.pick(s, a[0]).(*Term)
			if s.track.fed >= len(s.track.bytes) {
				return ok(none)
			}
			f := e.i64(s.track.fed)
			if !e.decide(s, e.tm.And(e.tm.Cmp(OSlt, f, n), e.tm.Cmp(OSlt, f, s.track.len))) {
				return ok(none)
			}
			e.stepTrack(s)
			return &res{ctl: ctlPushed}
		},
		nd("TrackEnd"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			s.track = nil
			return ok(none)
		},
		nd("Join"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			s.join = true
			return &res{v: none, ctl: ctlQueue}
		},
		nd("Loose"):  func(e *Engine, s *State, ci *cinstr, a []Value) *res { s.mode = 2; return ok(none) },
		nd("Strict"): func(e *Engine, s *State, ci *cinstr, a []Value) *res { s.mode = 1; return ok(none) },
		nd("And"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.tm.And(e.boolV(s, a[0]), e.boolV(s, a[1])))
		},
		nd("Or"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.tm.Or(e.boolV(s, a[0]), e.boolV(s, a[1])))
		},
		nd("Not"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.tm.Not(e.boolV(s, a[0])))
		},
		nd("Implies"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.tm.Implies(e.boolV(s, a[0]), e.boolV(s, a[1])))
		},
		nd("Rep"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.str(strings.Repeat(e.cstr(s, a[0]), e.cint(s, a[1]))))
		},
		nd("Ite"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.tm.Ite(e.boolV(s, a[0]), e.pick(s, a[1]).(*Term), e.pick(s, a[2]).(*Term)))
		},
		nd("IteB"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.tm.Ite(e.boolV(s, a[0]), e.boolV(s, a[1]), e.boolV(s, a[2])))
		},
		nd("Abs"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := e.pick(s, a[0]).(*Term)
			z := e.i64(0)
			small := func(t *Term) bool { return t.hi < 1<<62 }
			var abs func(t *Term, depth int) *Term
			abs = func(t *Term, depth int) *Term {
				n := e.tm.Bin(OSub, z, t)
				switch {
				case small(t):
					return t
				case small(n):
					return n
				case t.op == OIte && depth < 40:
					return e.tm.Ite(t.a, abs(t.b, depth+1), abs(t.c, depth+1))
				}
				return e.tm.Ite(e.tm.Cmp(OSlt, t, z), n, t)
			}
			return &res{v: abs(t, 0)}
		},
		nd("Digit"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			b := e.pick(s, a[0]).(*Term)
			c := e.tm.And(e.tm.Cmp(OUle, e.tm.C(8, '0'), b), e.tm.Cmp(OUle, b, e.tm.C(8, '9')))
			d := e.tm.Ite(c, e.tm.Bin(OAdd, b, e.tm.C(8, 256-'0')), e.tm.C(8, 0))
			return ok(e.tm.conv(OZext, d, 64))
		},
		nd("SplitCol"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			v := e.splitCol(s, a[0])
			if v == nil {
				e.push(s, e.lib["SlowSplitCol"], a, nil, 0)
				return &res{ctl: ctlPushed}
			}
			return ok(v)
		},
		nd("SameErr"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			r := e.sameErr(s, a[0], a[1], 0)
			if r == nil {
				e.push(s, e.lib["SlowSameErr"], a, nil, 0)
				return &res{ctl: ctlPushed}
			}
			return ok(r)
		},
		nd("SameText"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.sameText(s, a[0], a[1], 0))
		},
		nd("Unsup"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			unsup("%s", e.cstr(s, a[0]))
			return nil
		},
		nd("AsTarget"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			x, isX := e.pick(s, a[0]).(*Iface)
			y, isY := e.pick(s, a[1]).(*Iface)
			if !isX || !isY || x.t == nil || y.t == nil {
				unsup("errors.As")
			}
			pt, isP := y.t.Underlying().(*types.Pointer)
			p, isQ := e.pick(s, y.v).(*Ptr)
			if !isP || !isQ || p.obj == 0 {
				unsup("errors.As")
			}
			el := pt.Elem()
			if it, isI := el.Underlying().(*types.Interface); isI {
				if !types.Implements(x.t, it) {
					return ok(e.tm.tFalse)
				}
				e.store(s, p, x)
				return ok(e.tm.tTrue)
			}
			if !types.Identical(x.t, el) {
				return ok(e.tm.tFalse)
			}
			e.store(s, p, x.v)
			return ok(e.tm.tTrue)
		},
		nd("SliceLen"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			x, isX := e.pick(s, a[0]).(*Iface)
			if !isX || x.t == nil {
				unsup("sort")
			}
			sl, isS := e.pick(s, x.v).(*Slice)
			if !isS {
				unsup("sort")
			}
			return ok(sl.len)
		},
		nd("SliceSwap"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			sl := e.pick(s, e.pick(s, a[0]).(*Iface).v).(*Slice)
			off := int(e.concretize(s, sl.off))
			p := &Ptr{obj: sl.obj, path: appendPE(sl.path, e.pe(off, e.i64(e.cint(s, a[1]))))}
			q := &Ptr{obj: sl.obj, path: appendPE(sl.path, e.pe(off, e.i64(e.cint(s, a[2]))))}
			v, w := e.load(s, p), e.load(s, q)
			e.store(s, p, w)
			e.store(s, q, v)
			return ok(none)
		},
		nd("SameTime"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			return ok(e.eq(s, e.normTime(s, a[0]), e.normTime(s, a[1])))
		},
		nd("Observe"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			s.obs = &obsNode{name: e.cstr(s, a[0]), v: e.snapshot(s, a[1]), prev: s.obs}
			return ok(none)
		},
		nd("Native"): func(e *Engine, s *State, ci *cinstr, a []Value) *res { return ok(e.tm.tFalse) },
		nd("concBegin"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			e.concBegin(s, a[0])
			return ok(none)
		},
		nd("concEnd"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			c := s.conc
			if c == nil {
				return ok(none)
			}
			if c.state == 0 {
				n := *c
				n.state = 3
				s.conc = &n
				e.push(s, c.b.fn, nil, c.b.binds, 1)
				return &res{ctl: ctlPushed}
			}
			s.conc = nil
			return ok(none)
		},
		nd("MkTime"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := &TimeV{op: "civil"}
			for _, x := range a[:7] {
				t.args = append(t.args, e.pick(s, x))
			}
			t.args = append(t.args, e.pick(s, a[7]))
			if p, isP := e.pick(s, a[8]).(*Ptr); isP && p.obj != 0 {
				t.loc = p
			}
			return ok(t)
		},
		nd("Civil"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := &TimeV{op: "civil"}
			for _, x := range a {
				t.args = append(t.args, e.pick(s, x))
			}
			return ok(t)
		},
		nd("ZoneOff"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			z, isT := e.zoneOf(s, a[0], e.i64(0)).(*Term)
			if !isT {
				unsup("offset of a named location")
			}
			return ok(z)
		},
		nd("LocKind"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			p, isP := e.pick(s, a[0]).(*Ptr)
			if isP && e.seasonalIn(s, p) {
				return ok(e.i64(1))
			}
			return ok(e.i64(0))
		},
		nd("TimeKind"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := e.pick(s, e.normTime(s, a[0])).(*TimeV)
			if t.op == "now" {
				return ok(e.i64(2))
			}
			if t.loc != nil && e.seasonalIn(s, t.loc) {
				return ok(e.i64(1))
			}
			return ok(e.i64(0))
		},
		nd("TimeLoc"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := e.pick(s, e.normTime(s, a[0])).(*TimeV)
			if t.loc == nil {
				return ok(nilPtr)
			}
			return ok(t.loc)
		},
		nd("NowIn"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := e.pick(s, a[0]).(*TimeV)
			p, isP := e.pick(s, a[1]).(*Ptr)
			if !isP {
				unsup("location")
			}
			return ok(&TimeV{op: "now", loc: p, args: t.args})
		},
		nd("NowOff"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := e.pick(s, a[0]).(*TimeV)
			if t.loc == nil {
				unsup("offset of the local time zone")
			}
			if e.seasonalIn(s, t.loc) {
				off := 3600
				if u := time.Now().UTC(); (int(u.Month())*32+u.Day())*32+u.Hour() >= (3*32+31)*32+1 && (int(u.Month())*32+u.Day())*32+u.Hour() < (10*32+27)*32+1 {
					off = 7200
				}
				return ok(e.i64(off))
			}
			z, isT := e.zoneOf(s, t.loc, e.i64(0)).(*Term)
			if !isT {
				unsup("offset of a named location")
			}
			return ok(z)
		},
		nd("Seasonal"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			id := e.newObj(s, ci.site, nil, &LocV{name: "seasonal", title: e.str("seasonal")})
			if e.seasonals == nil {
				e.seasonals = map[int]bool{}
			}
			e.seasonals[id] = true
			return ok(&Ptr{obj: id})
		},
		nd("TimeField"): func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := e.pick(s, e.normTime(s, a[0])).(*TimeV)
			if t.op != "civil" {
				unsup("field of time %s", t.op)
			}
			k := e.cint(s, a[1])
			v, isT := t.args[k].(*Term)
			if !isT {
				unsup("offset of a named location")
			}
			return ok(v)
		},

		// formatted text
		"fmt.Errorf": func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			fs := e.fmtS(s, a[0], a[1])
			if f, isF := fs.(*Str); isF && f.fs != nil {
				n := 0
				for _, v := range verbRe.FindAllString(f.fs.format, -1) {
					if v == "%w" && n < len(f.fs.args) {
						f.fs.format = verbRe.ReplaceAllStringFunc(f.fs.format, func(v string) string {
							if v == "%w" {
								return "%v"
							}
							return v
						})
						id := e.newObj(s, ci.site, e.wrapError, &StructV{f: []Value{fs, f.fs.args[n]}})
						return ok(&Iface{t: types.NewPointer(e.wrapError), v: &Ptr{obj: id}})
					}
					if v != "%%" {
						n++
					}
				}
			}
			t := e.errorString
			id := e.newObj(s, ci.site, t, &StructV{f: []Value{fs}})
			return ok(&Iface{t: types.NewPointer(t), v: &Ptr{obj: id}})
		},
		"fmt.Sprintf": func(e *Engine, s *State, ci *cinstr, a []Value) *res { return ok(e.fmtS(s, a[0], a[1])) },
		"fmt.Sprint": func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			sl := e.pick(s, a[0]).(*Slice)
			n := e.cint(s, sl.len)
			f := ""
			wasText := true
			for i := 0; i < n; i++ {
				v := e.load(s, &Ptr{obj: sl.obj, path: appendPE(sl.path, e.pe(e.cint(s, sl.off), e.i64(i)))})
				x, isX := e.pick(s, v).(*Iface)
				if !isX {
					unsup("Sprint")
				}
				text := x.t != nil && isString(x.t)
				if i > 0 && !text && !wasText {
					f += " "
				}
				wasText = text
				f += "%v"
			}
			return ok(e.fmtS(s, e.str(f), a[0]))
		},
		"fmt.Sprintln": func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			n := e.cint(s, e.pick(s, a[0]).(*Slice).len)
			return ok(e.fmtS(s, e.str(strings.TrimSuffix(strings.Repeat("%v ", n), " ")+"\n"), a[0]))
		},

		// sync
		"(*sync.Mutex).Lock":      lockI,
		"(*sync.Mutex).Unlock":    unlockI,
		"(*sync.RWMutex).Lock":    lockI,
		"(*sync.RWMutex).Unlock":  unlockI,
		"(*sync.RWMutex).RLock":   rlockI,
		"(*sync.RWMutex).RUnlock": runlockI,

		"(*strings.Builder).copyCheck": func(e *Engine, s *State, ci *cinstr, a []Value) *res { return ok(none) },

		// time
		"time.FixedZone": func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			id := e.newObj(s, ci.site, nil, &LocV{name: "fixed", off: e.pick(s, a[1]).(*Term), title: e.pick(s, a[0])})
			return ok(&Ptr{obj: id})
		},
		"(*time.Location).String": func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			p, isP := e.pick(s, a[0]).(*Ptr)
			if isP && p.obj == 0 {
				return ok(e.str("UTC"))
			}
			if isP {
				if g, isG := e.globalOf[p.obj]; isG && g.Name() == "utcLoc" {
					return ok(e.str("UTC"))
				}
				if l, isL := e.pick(s, e.obj(s, p.obj).v).(*LocV); isL {
					return ok(l.title)
				}
			}
			unsup("name of a location")
			return nil
		},
		"time.Now": func(e *Engine, s *State, ci *cinstr, a []Value) *res { return ok(&TimeV{op: "now"}) },
		"(time.Time).Year": func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := e.pick(s, e.normTime(s, a[0])).(*TimeV)
			switch t.op {
			case "civil":
				return ok(t.args[0])
			case "now":
				return ok(e.tm.conv(OZext, e.variable("now.year", 16, 0, -1), 64))
			}
			unsup("year of time %s", t.op)
			return nil
		},
		"(time.Time).IsZero": func(e *Engine, s *State, ci *cinstr, a []Value) *res {
			t := e.pick(s, e.normTime(s, a[0])).(*TimeV)
			switch t.op {
			case "":
				return ok(e.tm.tTrue)
			case "civil":
				return ok(e.eq(s, t, e.zeroCivil()))
			}
			return ok(e.tm.tFalse)
		},
		"runtime.Gosched":   func(e *Engine, s *State, ci *cinstr, a []Value) *res { return ok(none) },
		"runtime.KeepAlive": func(e *Engine, s *State, ci *cinstr, a []Value) *res { return ok(none) },
	}
}

func lockKey(e *Engine, s *State, v Value) string {
	p, isP := e.pick(s, v).(*Ptr)
	if !isP || p.obj == 0 {
		panic(goPanic{"lock of nil mutex"})
	}
	return fmt.Sprintf("%d%v", p.obj, p.path)
}

func (s *State) ownLocks() {
	m := map[string]int{}
	for k, v := range s.locks {
		m[k] = v
	}
	s.locks = m
}

func lockI(e *Engine, s *State, ci *cinstr, a []Value) *res {
	k := lockKey(e, s, a[0])
	if s.locks[k] != 0 {
		if s.conc != nil && s.conc.state == 1 {
			// the second activity would wait here: this placement is no complete call inside the first
			e.pruned++
			e.excluded(s, e.tm.tTrue)
			return &res{ctl: ctlEnd}
		}
		e.hangMsg(s, "deadlock: lock is never released")
		return &res{ctl: ctlEnd}
	}
	s.ownLocks()
	s.locks[k] = 1
	return ok(none)
}

func unlockI(e *Engine, s *State, ci *cinstr, a []Value) *res {
	k := lockKey(e, s, a[0])
	if s.locks[k] <= 0 {
		panic(goPanic{"unlock of unlocked mutex"})
	}
	s.ownLocks()
	delete(s.locks, k)
	return ok(none)
}

func rlockI(e *Engine, s *State, ci *cinstr, a []Value) *res {
	k := lockKey(e, s, a[0])
	if s.locks[k] > 0 {
		return lockI(e, s, ci, a)
	}
	s.ownLocks()
	s.locks[k]--
	return ok(none)
}

func runlockI(e *Engine, s *State, ci *cinstr, a []Value) *res {
	k := lockKey(e, s, a[0])
	if s.locks[k] >= 0 {
		panic(goPanic{"unlock of unlocked mutex"})
	}
	s.ownLocks()
	if s.locks[k]++; s.locks[k] == 0 {
		delete(s.locks, k)
	}
	return ok(none)
}

// ---------------------------------------------------------------- time values

func (e *Engine) zeroCivil() *TimeV {
	o := e.i64(1)
	z := e.i64(0)
	return &TimeV{op: "civil", args: []Value{o, o, o, z, z, z, z, z}}
}

func (e *Engine) normTime(s *State, v Value) Value {
	return e.mapAlts(v, func(v Value) Value {
		t, isT := v.(*TimeV)
		if !isT {
			unsup("time expected, got %s", vstr(v))
		}
		if t.op == "" {
			return e.zeroCivil()
		}
		return t
	})
}

// zoneOf gives the offset term of a location, or the location itself.
func (e *Engine) zoneOf(s *State, loc Value, off *Term) Value {
	p, isP := e.pick(s, loc).(*Ptr)
	if !isP || p.obj == 0 {
		return off
	}
	if g, isG := e.globalOf[p.obj]; isG && g.Name() == "utcLoc" {
		return e.i64(0)
	}
	if l, isL := e.pick(s, e.obj(s, p.obj).v).(*LocV); isL {
		if l.off == nil {
			return p
		}
		return l.off
	}
	return p
}

func (e *Engine) seasonalIn(s *State, p *Ptr) bool {
	if p.obj == 0 {
		return false
	}
	l, isL := e.pick(s, e.obj(s, p.obj).v).(*LocV)
	return isL && l.off == nil
}

// seasonal tells the same without a state.
func (e *Engine) seasonal(p *Ptr) bool { return p != nil && e.seasonals[p.obj] }

func (e *Engine) sameLoc(x, y *Ptr) bool {
	if x == nil || y == nil {
		return x == y
	}
	return x.obj == y.obj
}

// ---------------------------------------------------------------- text

func (e *Engine) fmtS(s *State, format, args Value) Value {
	f := e.cstr(s, format)
	sl, isS := e.pick(s, args).(*Slice)
	if !isS {
		unsup("format arguments")
	}
	n := e.cint(s, sl.len)
	fs := &FmtS{format: f}
	if n > 0 {
		off := e.cint(s, sl.off)
		vec := e.at(e.obj(s, sl.obj).v, sl.path).(*PVec)
		for i := 0; i < n; i++ {
			fs.args = append(fs.args, vec.get(off+i))
		}
	}
	if n == 0 && !strings.Contains(f, "%") {
		return e.str(f)
	}
	return &Str{fs: fs}
}

var verbRe = regexp.MustCompile(`%[a-zA-Z%]`)

// constText renders the format if every argument is constant; the second result tells.
func (e *Engine) constText(s *State, format string, args []Value) (string, bool) {
	k := 0
	good := strings.Count(verbRe.ReplaceAllString(format, ""), "%") == 0
	out := verbRe.ReplaceAllStringFunc(format, func(v string) string {
		if v == "%%" {
			return "%"
		}
		if k >= len(args) {
			good = false
			return ""
		}
		a := args[k]
		k++
		i, isI := a.(*Iface)
		if !isI || i.t == nil {
			good = false
			return ""
		}
		switch x := i.v.(type) {
		case *Term:
			if x.w > 0 && x.isConst() && (v == "%d" || v == "%v") {
				if isSigned(i.t) {
					return strconv.FormatInt(sx(x.val, x.w), 10)
				}
				return strconv.FormatUint(x.val, 10)
			}
		case *Str:
			if x.fs != nil {
				t, c := e.constText(s, x.fs.format, x.fs.args)
				if c && (v == "%s" || v == "%v") {
					return t
				}
			} else if c, con := x.concrete(); con && (v == "%s" || v == "%v") {
				return c
			}
		}
		good = false
		return ""
	})
	return out, good
}

// runeRanges are the ranges of runes a predicate of package unicode holds for.
var runeRanges = map[string][][2]uint64{}

func rangesOf(name string, f func(rune) bool) [][2]uint64 {
	if r, has := runeRanges[name]; has {
		return r
	}
	var rs [][2]uint64
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if !f(r) {
			continue
		}
		if n := len(rs); n > 0 && rs[n-1][1] == uint64(r)-1 {
			rs[n-1][1] = uint64(r)
		} else {
			rs = append(rs, [2]uint64{uint64(r), uint64(r)})
		}
	}
	runeRanges[name] = rs
	return rs
}

func unicodeIs(name string, f func(rune) bool) intrinsic {
	return func(e *Engine, s *State, ci *cinstr, a []Value) *res {
		r := e.pick(s, a[0]).(*Term)
		res := e.tm.tFalse
		for _, x := range rangesOf(name, f) {
			if x[0] > r.hi {
				break
			}
			res = e.tm.Or(res, e.tm.And(e.tm.Cmp(OUle, e.tm.C(r.w, x[0]), r), e.tm.Cmp(OUle, r, e.tm.C(r.w, x[1]))))
		}
		return ok(res)
	}
}

func unicodeTo(name string, f func(rune) rune) intrinsic {
	return func(e *Engine, s *State, ci *cinstr, a []Value) *res {
		r := e.pick(s, a[0]).(*Term)
		if r.isConst() {
			return ok(e.tm.C(r.w, uint64(uint32(f(rune(int32(r.val)))))))
		}
		if !e.decide(s, e.tm.Cmp(OUlt, r, e.tm.C(r.w, 0x250))) {
			if vs := e.values(s, r, 64); vs != nil {
				return ok(e.tm.C(r.w, uint64(uint32(f(rune(int32(e.concretize(s, r))))))))
			}
			unsup("unicode.%s of an arbitrary rune", name)
		}
		res := r
		for c := rune(0); c < 0x250; {
			d := f(c) - c
			n := c
			for n < 0x250 && f(n)-n == d {
				n++
			}
			if d != 0 {
				in := e.tm.And(e.tm.Cmp(OUle, e.tm.C(r.w, uint64(c)), r), e.tm.Cmp(OUlt, r, e.tm.C(r.w, uint64(n))))
				res = e.tm.Ite(in, e.tm.Bin(OAdd, r, e.tm.C(r.w, uint64(uint32(d)))), res)
			}
			c = n
		}
		return ok(res)
	}
}

func init() {
	for n, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter,
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint,
		"IsGraphic": unicode.IsGraphic, "IsPunct": unicode.IsPunct, "IsNumber": unicode.IsNumber, "IsSymbol": unicode.IsSymbol,
		"IsMark": unicode.IsMark, "IsTitle": unicode.IsTitle} {
		intrinsics["unicode."+n] = unicodeIs(n, f)
	}
	for n, f := range map[string]func(rune) rune{"ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower, "ToTitle": unicode.ToTitle,
		"SimpleFold": unicode.SimpleFold} {
		intrinsics["unicode."+n] = unicodeTo(n, f)
	}
}

var colFmt = regexp.MustCompile(`^(?s)(.*?) ?\[col %d\]$`)
var colText = regexp.MustCompile(`^(?s)(.*?) ?\[col (\d+)\]$`)

// splitCol splits an error text into its text and column.
func (e *Engine) splitCol(s *State, v Value) Value {
	st := e.pick(s, v).(*Str)
	if st.fs == nil {
		c, con := st.concrete()
		if !con {
			return nil
		}
		if m := colText.FindStringSubmatch(c); m != nil {
			n, _ := strconv.Atoi(m[2])
			return &TupleV{f: []Value{e.str(m[1]), e.i64(n)}}
		}
		return &TupleV{f: []Value{st, e.i64(-1)}}
	}
	fs := st.fs
	if c, con := e.constText(s, fs.format, fs.args); con {
		return e.splitCol(s, e.str(c))
	}
	m := colFmt.FindStringSubmatch(fs.format)
	if m == nil {
		// the column may be inside a nested text: "%s" + " [col %d]" and the like
		if fs.format == "%s" || fs.format == "%v" {
			if i, isI := e.pick(s, fs.args[0]).(*Iface); isI && i.t != nil {
				if inner, isS := e.textOf(s, i).(*Str); isS {
					return e.splitCol(s, inner)
				}
			}
		}
		return &TupleV{f: []Value{st, e.i64(-1)}}
	}
	last := fs.args[len(fs.args)-1].(*Iface).v.(*Term)
	if last.w != 64 {
		last = e.tm.conv(OZext, last, 64)
	}
	rest := fs.args[:len(fs.args)-1]
	pre, con := e.constText(s, m[1], rest)
	if con {
		return &TupleV{f: []Value{e.str(pre), last}}
	}
	return &TupleV{f: []Value{&Str{fs: &FmtS{format: m[1], args: rest}}, last}}
}

// textOf gives the text of a formatting argument or error where that needs no execution.
func (e *Engine) textOf(s *State, i *Iface) Value {
	switch x := i.v.(type) {
	case *Str:
		return x
	case *Ptr:
		if x.obj != 0 && (types.Identical(i.t, types.NewPointer(e.errorString)) || strings.HasSuffix(i.t.String(), "errors.errorString") || types.Identical(i.t, types.NewPointer(e.wrapError))) {
			return e.firstField(e.load(s, x))
		}
	case *Union:
		n := &Union{}
		for _, a := range x.alts {
			if e.eval3(s, a.g) == no {
				continue
			}
			t := e.textOf(s, &Iface{t: i.t, v: a.v})
			if t == nil {
				return nil
			}
			n.alts = append(n.alts, Alt{a.g, t})
		}
		return n
	}
	return nil
}

func (e *Engine) firstField(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		return x.f[0]
	case *Union:
		n := &Union{}
		for _, a := range x.alts {
			t := e.firstField(a.v)
			if t == nil {
				return nil
			}
			n.alts = append(n.alts, Alt{a.g, t})
		}
		return n
	}
	return nil
}

// textsDiffer tells that two rendered texts cannot be equal because their constant parts differ.
func textsDiffer(a, b string) bool {
	i, j := strings.IndexByte(a, '%'), strings.IndexByte(b, '%')
	if i < 0 || j < 0 {
		return false
	}
	for k := 0; k < i && k < j; k++ {
		if a[k] != b[k] {
			return true
		}
	}
	return false
}

// sameErr compares errors by text.
func (e *Engine) sameErr(s *State, a, b Value, depth int) *Term {
	tm := e.tm
	if a == b {
		return tm.tTrue
	}
	if depth > 8 {
		unsup("nested errors")
	}
	if u, isU := a.(*Union); isU {
		r := tm.tFalse
		for _, x := range u.alts {
			if e.eval3(s, x.g) != no {
				c := e.sameErr(s, x.v, b, depth)
				if c == nil {
					return nil
				}
				r = tm.Or(r, tm.And(x.g, c))
			}
		}
		return r
	}
	if _, isU := b.(*Union); isU {
		return e.sameErr(s, b, a, depth)
	}
	x, ok1 := a.(*Iface)
	y, ok2 := b.(*Iface)
	if !ok1 || !ok2 {
		unsup("comparison of errors %s, %s", vstr(a), vstr(b))
	}
	if x.t == nil || y.t == nil {
		return tm.Bool(x.t == nil && y.t == nil)
	}
	if e.identical(x, y) {
		return tm.tTrue
	}
	t1, t2 := e.textOf(s, x), e.textOf(s, y)
	if t1 == nil || t2 == nil {
		if types.Identical(x.t, y.t) {
			if c1, isT := x.v.(*Term); isT {
				return tm.Eq(c1, y.v.(*Term))
			}
		}
		return nil
	}
	return e.sameText(s, t1, t2, depth+1)
}

func (e *Engine) sameText(s *State, a, b Value, depth int) *Term {
	tm := e.tm
	if u, isU := a.(*Union); isU {
		r := tm.tFalse
		for _, x := range u.alts {
			if e.eval3(s, x.g) != no {
				r = tm.Or(r, tm.And(x.g, e.sameText(s, x.v, b, depth)))
			}
		}
		return r
	}
	if _, isU := b.(*Union); isU {
		return e.sameText(s, b, a, depth)
	}
	x, y := a.(*Str), b.(*Str)
	if x.fs == nil && y.fs == nil {
		return e.strEq(s, x, y)
	}
	if x.fs != nil && y.fs != nil && x.fs.format == y.fs.format && len(x.fs.args) == len(y.fs.args) {
		r := tm.tTrue
		sure := true
		for i := range x.fs.args {
			p, ok1 := x.fs.args[i].(*Iface)
			q, ok2 := y.fs.args[i].(*Iface)
			if ok1 && ok2 && p.t != nil && q.t != nil {
				if e.textOf(s, p) != nil && e.textOf(s, q) != nil {
					r = tm.And(r, e.sameText(s, e.textOf(s, p), e.textOf(s, q), depth+1))
					continue
				}
			}
			if c := e.argEq(s, x.fs.args[i], y.fs.args[i]); c != nil {
				r = tm.And(r, c)
			} else {
				sure = false
			}
		}
		if sure || r == tm.tFalse {
			return r
		}
	}
	if x.fs != nil && y.fs != nil && textsDiffer(x.fs.format, y.fs.format) {
		return tm.tFalse
	}
	cx, k1 := e.constStr(s, x)
	cy, k2 := e.constStr(s, y)
	if k1 && k2 {
		return tm.Bool(cx == cy)
	}
	return e.strEq(s, e.plain(s, x), e.plain(s, y))
}

// argEq tells when two arguments of a format are printed alike; nil if that takes printing them.
func (e *Engine) argEq(s *State, a, b Value) *Term {
	x, ok1 := a.(*Iface)
	y, ok2 := b.(*Iface)
	if !ok1 || !ok2 || x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
		return nil
	}
	switch x.v.(type) {
	case *Term, *Str:
		return e.eq(s, x.v, y.v)
	case *Slice:
		if t, isS := x.t.Underlying().(*types.Slice); isS && bitsOf(t.Elem()) == 8 {
			if z, isZ := y.v.(*Slice); isZ {
				return e.strEq(s, e.sliceStr(s, x.v.(*Slice)), e.sliceStr(s, z))
			}
		}
	}
	return nil
}

func (e *Engine) constStr(s *State, x *Str) (string, bool) {
	if x.fs != nil {
		return e.constText(s, x.fs.format, x.fs.args)
	}
	return x.concrete()
}

// snapshot keeps the present content of an observed value.
func (e *Engine) snapshot(s *State, v Value) Value {
	i, isI := v.(*Iface)
	if !isI || i.t == nil {
		return v
	}
	switch x := i.v.(type) {
	case *Slice:
		if b, isB := i.t.Underlying().(*types.Slice); isB && bitsOf(b.Elem()) == 8 {
			return &Iface{t: types.Typ[types.String], v: e.sliceStr(s, x)}
		}
	case *Ptr:
		if t := e.textOf(s, i); t != nil {
			return &Iface{t: types.Typ[types.String], v: t}
		}
	}
	return v
}

// ---------------------------------------------------------------- rendered texts

func (e *Engine) getRendered(s *State, f *FmtS) Value {
	if c, con := e.constText(s, f.format, f.args); con {
		return e.str(c)
	}
	return s.rend[f]
}

func (e *Engine) setRendered(s *State, f *FmtS, v Value) {
	m := map[*FmtS]Value{}
	for k, x := range s.rend {
		m[k] = x
	}
	m[f] = v
	s.rend = m
}

// ---------------------------------------------------------------- concurrency

func (e *Engine) concBegin(s *State, g Value) {
	fv := e.pick(s, g).(*FuncV)
	c := &concState{b: fv, base: map[int]bool{}}
	for id := range s.heap.m {
		c.base[id] = true
	}
	s.conc = c
}

// accessed lists the shared objects an address may denote.
func accessed(v Value, ids []int) []int {
	switch p := v.(type) {
	case *Ptr:
		return append(ids, p.obj)
	case *MapRef:
		return append(ids, p.obj)
	case *Union:
		for _, a := range p.alts {
			ids = accessed(a.v, ids)
		}
	}
	return ids
}

// concSwitch lets the second activity run in front of an access to shared memory.
func (e *Engine) concSwitch(s *State, f *Frame, ci *cinstr, addr Value) bool {
	c := s.conc
	if c == nil || c.state == 2 || e.initing {
		return false
	}
	// a function of the model that is one step is entered by the other activity only in front
	if fn := f.fi.fn; !e.concRecord && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modelPath && strings.HasPrefix(fn.Name(), "Atomic") {
		held := strings.HasPrefix(fn.Name(), "AtomicPool") || strings.HasPrefix(fn.Name(), "AtomicMap")
		switch ci.ins.(type) {
		case *ssa.Lookup:
			if !held {
				return false
			}
		case *ssa.UnOp:
			if held {
				return false
			}
		case *ssa.Store:
			if !strings.HasPrefix(fn.Name(), "AtomicStore") {
				return false
			}
		default:
			return false
		}
	}
	write := false
	switch x := ci.ins.(type) {
	case *ssa.Store, *ssa.MapUpdate:
		write = true
	case *ssa.Call:
		if isBuiltin(x.Call.Value) {
			write = true // delete
		}
	}
	who := 0
	if c.state != 0 {
		who = 1
	}
	conflict := false
	for _, id := range accessed(addr, nil) {
		if id == 0 || !(c.base[id] || e.base[id] != nil) {
			continue
		}
		if e.concRecord {
			m := e.concAcc[who]
			if write {
				m[id] |= 2
			} else {
				m[id] |= 1
			}
			continue
		}
		o := e.concAcc[1][id]
		if o&2 != 0 || (write && o != 0) {
			conflict = true
		}
	}
	if who == 1 || !conflict {
		return false
	}
	e.concPoints++
	v := e.variable(fmt.Sprintf("switch#%d", s.counters["switch"]), 8, 2, -1)
	if !e.decide(s, e.tm.Eq(v, e.tm.C(8, 1))) {
		s.bump("switch")
		return false
	}
	n := *c
	n.state = 1
	s.conc = &n
	e.push(s, c.b.fn, nil, c.b.binds, 4)
	return true
}

func (e *Engine) hangMsg(s *State, m string) {
	e.coverPC(s, "hang")
	e.violation(s, e.tm.tTrue, "hang", m, "hang:"+m)
}
