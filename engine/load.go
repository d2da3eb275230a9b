package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/influxdata/go-syslog"

var execStd = map[string]bool{"io": true, "bufio": true, "bytes": true, "strings": true, "errors": true, "strconv": true,
	"unicode/utf8": true, "sort": true, "slices": true, "cmp": true, "maps": true, "iter": true, "internal/stringslite": true,
	"internal/bytealg": true, "math/bits": true, "unsafe": true, "internal/itoa": true, "internal/strconv": true, "sync": true, "sync/atomic": true, "container/list": true, "unicode/utf16": true}

// execPkg tells which packages are executed symbolically.
func execPkg(p string) bool {
	return strings.HasPrefix(p, repoPath) || strings.HasPrefix(p, "github.com/leodido/ragel-machinery") ||
		strings.HasPrefix(p, "verif/harness") || execStd[p]
}

// initPkg tells which packages are initialised by executing their initialiser.
func initPkg(p string) bool {
	return execPkg(p) && p != "internal/bytealg" && p != "sync" && p != "sync/atomic"
}

// Program is the loaded program.
type Program struct {
	prog *ssa.Program
	keys *keyInfo
	pkgs []*packages.Package
	load time.Duration
}

func loadProgram(dir string) (*Program, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./h", "./model", "./nd")
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("packages do not load: %s", strings.Join(msgs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, p := range prog.AllPackages() {
		if execPkg(p.Pkg.Path()) {
			p.Build()
		}
	}
	if p := prog.ImportedPackage("time"); p != nil {
		p.Build()
	}
	return &Program{prog: prog, keys: analyseKeys(prog), pkgs: pkgs, load: time.Since(t0)}, nil
}

func (p *Program) fn(path, name string) *ssa.Function {
	pk := p.prog.ImportedPackage(path)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func NewEngine(p *Program) *Engine {
	tm := NewTM()
	e := &Engine{tm: tm, sol: NewSolver(tm, "z3-new", "-in"), prog: p.prog,
		fns: map[*ssa.Function]*FuncInfo{}, zeros: map[types.Type]Value{}, strs: map[string]*Str{}, base: map[int]*Obj{},
		pinned: map[int]bool{}, globals: map[*ssa.Global]int{}, globalOf: map[int]*ssa.Global{}, objIDs: map[[2]int]int{},
		keyVals: p.keys.vals, keyF: p.keys.fields, keyG: p.keys.globs, wait: map[uint64][]*State{}, intr: intrinsics,
		redirect: map[string]*ssa.Function{}, vars: map[string]*Term{}, ordVar: map[int]int{}, keyObj: map[int]bool{},
		fieldKeyC: map[*types.Struct][]bool{}, boundsUsed: map[string]int{}, initSites: map[int]int{},
		concAcc: [2]map[int]int{{}, {}}, cexSeen: map[string]int{}, reach: map[string][]*Term{}, reachN: map[string]int{}, reachOK: map[string]bool{},
		feasCache: map[feasKey]string{}, qTimeout: 20 * time.Second, bounds: map[string]int{}, used: map[*ssa.Function]bool{},
		lib: map[string]*ssa.Function{}, maxSteps: 12000000, stubs: map[string]int{}, deadline: time.Now().Add(time.Hour)}
	if ep := p.prog.ImportedPackage("errors"); ep != nil {
		e.errorString = ep.Type("errorString").Type()
	}
	for _, n := range []string{"Sprintf", "SlowSameErr", "SlowSplitCol", "Runes"} {
		e.lib[n] = p.fn(modelPath, n)
	}
	if mp := p.prog.ImportedPackage(modelPath); mp != nil {
		e.wrapError = mp.Type("WrapError").Type()
	}
	for from, to := range map[string]string{
		"internal/bytealg.IndexByte": "IndexByte", "internal/bytealg.IndexByteString": "IndexByteString",
		"internal/bytealg.Count": "Count", "internal/bytealg.CountString": "CountString", "internal/bytealg.Equal": "Equal",
		"internal/bytealg.Compare": "Compare", "internal/bytealg.CompareString": "CompareString",
		"internal/bytealg.IndexString": "IndexString", "internal/bytealg.Index": "Index",
		"bytes.Equal": "Equal", "bytes.Compare": "Compare", "strings.Compare": "CompareString", "bytes.Index": "Index", "strings.Index": "IndexString",
		"bytes.IndexByte": "IndexByte", "strings.IndexByte": "IndexByteString",
		"internal/stringslite.IndexByte": "IndexByteString", "internal/stringslite.Index": "IndexString",
		"strings.ToUpper": "ToUpper", "strings.ToLower": "ToLower",
		"bytes.ToUpper": "BytesToUpper", "bytes.ToLower": "BytesToLower", "strings.TrimSpace": "TrimSpace", "bytes.TrimSpace": "BytesTrimSpace",
		"(time.Time).Zone": "TimeZone", "(time.Time).Location": "TimeLocation", "(time.Time).Equal": "TimeEqual",
		"(time.Time).Sub": "TimeSub", "(time.Time).Weekday": "TimeWeekday",
		"time.Parse": "TimeParse", "time.ParseInLocation": "TimeParseInLocation", "(time.Time).Format": "TimeFormat",
		"(time.Time).AddDate": "TimeAddDate", "(time.Time).In": "TimeIn", "(time.Time).UTC": "TimeUTC", "time.Date": "TimeDate",
		"(time.Time).Month": "TimeMonth", "(time.Time).Day": "TimeDay", "(time.Time).Hour": "TimeHour", "(time.Time).Minute": "TimeMinute",
		"internal/bytealg.MakeNoZero": "MakeNoZero", "strings.IndexAny": "IndexAny", "strings.LastIndexAny": "LastIndexAny",
		"bytes.IndexAny": "BytesIndexAny", "bytes.LastIndexAny": "BytesLastIndexAny", "fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln",
		"errors.Is": "ErrorsIs", "errors.As": "ErrorsAs", "sort.Slice": "SortSlice", "sort.SliceStable": "SortSliceStable", "sort.SliceIsSorted": "SliceIsSorted",
		"(*sync.Map).Load": "AtomicMapLoad", "(*sync.Map).Store": "AtomicMapStore", "(*sync.Map).Delete": "AtomicMapDelete", "(*sync.Map).LoadOrStore": "AtomicMapLoadOrStore",
		"sync/atomic.LoadPointer": "AtomicLoadPointer", "sync/atomic.StorePointer": "AtomicStorePointer",
		"sync/atomic.SwapPointer": "AtomicSwapPointer", "sync/atomic.CompareAndSwapPointer": "AtomicCASPointer", "(*sync.Pool).Get": "AtomicPoolGet", "(*sync.Pool).Put": "AtomicPoolPut",
		"sync/atomic.AddInt32": "AtomicAddInt32", "sync/atomic.AddUint32": "AtomicAddUint32", "sync/atomic.AddInt64": "AtomicAddInt64", "sync/atomic.AddUint64": "AtomicAddUint64",
		"sync/atomic.LoadInt32": "AtomicLoadInt32", "sync/atomic.LoadUint32": "AtomicLoadUint32", "sync/atomic.LoadInt64": "AtomicLoadInt64", "sync/atomic.LoadUint64": "AtomicLoadUint64",
		"sync/atomic.StoreInt32": "AtomicStoreInt32", "sync/atomic.StoreUint32": "AtomicStoreUint32", "sync/atomic.StoreInt64": "AtomicStoreInt64", "sync/atomic.StoreUint64": "AtomicStoreUint64",
		"sync/atomic.SwapInt32": "AtomicSwapInt32", "sync/atomic.SwapUint32": "AtomicSwapUint32", "sync/atomic.SwapInt64": "AtomicSwapInt64", "sync/atomic.SwapUint64": "AtomicSwapUint64",
		"sync/atomic.CompareAndSwapInt32": "AtomicCASInt32", "sync/atomic.CompareAndSwapUint32": "AtomicCASUint32",
		"sync/atomic.CompareAndSwapInt64": "AtomicCASInt64", "sync/atomic.CompareAndSwapUint64": "AtomicCASUint64",
		"(time.Time).Add": "TimeAdd", "(time.Time).Before": "TimeBefore", "(time.Time).After": "TimeAfter", "(time.Time).Compare": "TimeCompare",
		"(time.Time).Truncate": "TimeTruncate", "(time.Time).Round": "TimeRound", "(time.Time).Unix": "TimeUnix", "(time.Time).UnixNano": "TimeUnixNano",
		"(time.Time).YearDay": "TimeYearDay", "(time.Time).AppendFormat": "TimeAppendFormat",
		"(time.Time).Second": "TimeSecond", "(time.Time).Nanosecond": "TimeNanosecond", "(time.Time).Date": "TimeYMD", "(time.Time).Clock": "TimeClock",
	} {
		f := p.fn(modelPath, to)
		if f == nil {
			panic("no model " + to)
		}
		e.redirect[from] = f
	}
	e.init(p)
	return e
}

// init executes the initialisers of the packages the engine executes.
func (e *Engine) init(p *Program) {
	e.initing = true
	if tp := e.prog.ImportedPackage("time"); tp != nil {
		for g, l := range map[string]string{"UTC": "utcLoc", "Local": "localLoc"} {
			id := e.globalObj(tp.Var(g))
			e.base[id] = &Obj{v: &Ptr{obj: e.globalObj(tp.Var(l))}, typ: e.base[id].typ}
		}
	}
	done := map[*types.Package]bool{}
	s := &State{heap: &Heap{m: map[int]*Obj{}}, counters: map[string]int{}, sites: map[int]int{}, locks: map[string]int{}}
	var visit func(pk *types.Package)
	visit = func(pk *types.Package) {
		if done[pk] {
			return
		}
		done[pk] = true
		for _, i := range pk.Imports() {
			visit(i)
		}
		if !initPkg(pk.Path()) {
			return
		}
		sp := e.prog.Package(pk)
		if sp == nil || sp.Func("init") == nil {
			return
		}
		e.runInit(s, sp.Func("init"))
	}
	for _, pk := range p.pkgs {
		visit(pk.Types)
	}
	for id, o := range s.heap.m {
		e.base[id] = o
	}
	e.initSites = s.sites
	e.initing = false
	e.incomplete = nil
	e.nInstr = 0
	e.done = nil
	e.stubs = map[string]int{}
}

func isInit(f *ssa.Function) bool { return f.Synthetic == "package initializer" }

func (e *Engine) runInit(s *State, fn *ssa.Function) {
	s.frames = nil
	e.push(s, fn, nil, nil, 0)
	skip := func(what string) bool {
		e.initNotes = append(e.initNotes, what+" in "+e.where(s))
		for len(s.frames) > 0 && !isInit(s.top().fi.fn) {
			s.frames = s.frames[:len(s.frames)-1]
		}
		if len(s.frames) == 0 {
			return true
		}
		f := s.top()
		ci := &f.fi.blocks[f.block][f.idx]
		switch ci.ins.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			return true
		}
		e.set(f, ci.dst, &Opaque{what})
		f.idx++
		return false
	}
	for n := 0; n < 2000000; n++ {
		stop := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case unsupported:
						stop = skip(x.what)
					case goPanic:
						stop = skip(x.msg)
					case forkReq, deadState, callReq:
						stop = skip("fork")
					default:
						stop = skip(fmt.Sprint(x))
					}
				}
			}()
			f := s.top()
			if c, isC := f.fi.blocks[f.block][f.idx].ins.(*ssa.Call); isC {
				if g := c.Call.StaticCallee(); g != nil && isInit(g) {
					f.idx++
					return
				}
			}
			if len(s.frames) == 1 {
				if _, isR := f.fi.blocks[f.block][f.idx].ins.(*ssa.Return); isR {
					stop = true
					return
				}
			}
			e.exec(s)
			if len(s.frames) == 0 {
				stop = true
			}
		}()
		if stop {
			break
		}
	}
	s.frames = nil
}
