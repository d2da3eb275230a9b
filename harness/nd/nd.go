// Package nd is the interface between the harnesses and the symbolic engine. Under the engine every
// function here is an intrinsic; compiled natively the same harness replays one concrete model, read
// from the file named by VERIF_MODEL.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	vals   map[string]uint64
	bounds map[string]int
	cnt    = map[string]int{}
	// Failed lists the messages of the assertions that failed in a native run.
	Failed []string
	// Skipped is set when an assumption does not hold.
	Skipped bool
)

// Load reads a model (native runs).
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var m struct {
		Env    map[string]uint64
		Bounds map[string]int
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	vals, bounds = m.Env, m.Bounds
	return nil
}

// Reset forgets everything but the model.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	cnt = map[string]int{}
	Failed = nil
	Skipped = false
}

type skip struct{}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := cnt[name]
	cnt[name] = k + 1
	return vals[fmt.Sprintf("%s#%d", name, k)]
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(get(name)) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return get(name) != 0 }

// U16 is an arbitrary 16-bit value.
func U16(name string) uint16 { return uint16(get(name)) }

// I64 is an arbitrary 64-bit value.
func I64(name string) int64 { return int64(get(name)) }

// Int is an arbitrary value between lo and hi inclusive (at most 1024 values).
func Int(name string, lo, hi int) int { return lo + int(get(name)) }

// Choose is an arbitrary value in 0..n-1, explored one by one.
func Choose(name string, n int) int { return int(get(name)) }

// Each is like Choose, and the runs stay apart from then on.
func Each(name string, n int) int { return int(get(name)) }

// Rep is n times c.
func Rep(c string, n int) string { return strings.Repeat(c, n) }

// Input is an arbitrary byte sequence of length 0..max.
func Input(name string, max int) []byte {
	n := int(get(name + ".len"))
	mu.Lock()
	k := cnt[name]
	cnt[name] = k + 1
	mu.Unlock()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vals[fmt.Sprintf("%s#%d[%d]", name, k, i)])
	}
	return b
}

// InputAfter is prefix followed by an arbitrary byte sequence of length 0..max.
func InputAfter(name, prefix string, max int) []byte {
	return append([]byte(prefix), Input(name, max)...)
}

// Bytes is an arbitrary byte sequence of length n.
func Bytes(name string, n int) []byte {
	mu.Lock()
	k := cnt[name]
	cnt[name] = k + 1
	mu.Unlock()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vals[fmt.Sprintf("%s#%d[%d]", name, k, i)])
	}
	return b
}

// Assume restricts the runs considered.
func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

// Stop ends the run silently.
func Stop() { panic(skip{}) }

// Assert states a property. The message starts with the property's id.
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		Failed = append(Failed, msg)
		mu.Unlock()
		fmt.Println("FAIL " + msg)
	}
}

// Reach marks a point that must be reachable.
func Reach(name string) { fmt.Println("REACH " + name) }

// Run executes a harness natively.
func Run(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skip); ok {
				Skipped = true
				return
			}
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	f()
	return nil
}

// Bound is a limit chosen by the check configuration.
func Bound(name string, def int) int {
	if v, ok := bounds[name]; ok {
		return v
	}
	return def
}

type track struct {
	data []byte
	step func(int, byte)
	fed  int
}

var cur *track

// Track attaches a monitor to an input: step is called for byte i before the code under test first
// looks at it. Natively the monitor is fed when asked for.
func Track(data []byte, step func(i int, b byte)) { cur = &track{data: data, step: step} }

// Feed steps the monitor over the bytes up to position n.
func Feed(n int) {
	for cur != nil && cur.fed < n && cur.fed < len(cur.data) {
		i := cur.fed
		cur.fed++
		cur.step(i, cur.data[i])
	}
}

// TrackEnd detaches the monitor.
func TrackEnd() { cur = nil }

// Join merges all waiting paths that reach this point.
func Join() {}

// Loose and Strict set the way the paths below are merged (performance only).
func Loose()  {}
func Strict() {}

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }
func Implies(a, b bool) bool {
	return !a || b
}

// Ite is a choice that does not split the run.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteB is a choice that does not split the run.
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// Abs is the absolute value of a number.
func Abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// Digit is the value of a decimal digit, 0 for other bytes.
func Digit(b byte) int {
	if b >= '0' && b <= '9' {
		return int(b - '0')
	}
	return 0
}

var colRe = regexp.MustCompile(`^(?s)(.*) ?\[col (\d+)\]$`)

// SplitCol splits an error text "... [col n]" into its text and n (-1 if it has no column).
func SplitCol(text string) (string, int) {
	m := colRe.FindStringSubmatch(text)
	if m == nil {
		return text, -1
	}
	n, _ := strconv.Atoi(m[2])
	return strings.TrimSuffix(m[1], " "), n
}

// SameErr compares errors by presence and text.
func SameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Error() == b.Error()
}

// SameTime compares instants and offsets.
func SameTime(a, b time.Time) bool {
	_, x := a.Zone()
	_, y := b.Zone()
	return a.Equal(b) && x == y
}

// Observe records a value for the comparison of symbolic and native runs.
func Observe(name string, v interface{}) {
	s := fmt.Sprint(v)
	if b, ok := v.([]byte); ok {
		s = string(b)
	}
	fmt.Printf("OBS %s %q\n", name, s)
}

// Concurrent runs f and g as concurrent activities.
func Concurrent(f, g func()) {
	concBegin(g)
	f()
	concEnd()
}

var concWG sync.WaitGroup

func concBegin(g func()) {
	concWG.Add(1)
	go func() {
		defer concWG.Done()
		g()
	}()
}

func concEnd() { concWG.Wait() }

// Civil is the given wall clock at the given offset.
func Civil(year, month, day, hour, min, sec, nsec, off int) time.Time {
	return time.Date(year, time.Month(month), day, hour, min, sec, nsec, time.FixedZone("", off))
}

// MkTime and TimeField are used by the model of package time (engine only).
func MkTime(year, month, day, hour, min, sec, nsec, off int, loc *time.Location) time.Time {
	panic("engine only")
}
func TimeField(t time.Time, k int) int { panic("engine only") }

// Unsup ends the run: the model does not cover it (engine only).
func Unsup(why string) { panic("engine only") }

// AsTarget stores err in *target if its type allows (engine only).
func AsTarget(err error, target interface{}) bool { panic("engine only") }

// SliceLen and SliceSwap work on a slice of any type (engine only).
func SliceLen(x interface{}) int        { panic("engine only") }
func SliceSwap(x interface{}, i, j int) { panic("engine only") }

// SameText compares texts.
func SameText(a, b string) bool { return a == b }

// LocKind is 1 for the location Seasonal, TimeKind for a time in it; 2 for the current time (engine only).
func LocKind(loc *time.Location) int { panic("engine only") }
func TimeKind(t time.Time) int       { panic("engine only") }

// TimeLoc is the location of a time, NowIn the current time elsewhere, NowOff its offset (engine only).
func TimeLoc(t time.Time) *time.Location              { panic("engine only") }
func NowIn(t time.Time, loc *time.Location) time.Time { panic("engine only") }
func NowOff(t time.Time) int                          { panic("engine only") }

// Seasonal is a location with daylight saving: an hour ahead of UTC, two hours from March 31 to October 27
// (both 01:00 UTC) in 1980 and later.
func Seasonal() *time.Location { return seasonal() }

// ZoneOff is the offset of a fixed location (engine only).
func ZoneOff(loc *time.Location) int { panic("engine only") }

// Opaque text that is never inspected (engine only).
func Native() bool { return native() }

func native() bool { return true }
