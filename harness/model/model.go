// Package model replaces, under the symbolic engine only, library functions that are written in
// assembly, that depend on the outside world, or whose arithmetic would burden the solver. Each model
// is compared with the library natively by the engine's self test.
package model

import (
	"errors"
	"fmt"
	"io"
	"sync"
	"time"
	"unsafe"

	"verif/harness/nd"
)

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Equal(a, b []byte) bool { return string(a) == string(b) }

func Compare(a, b []byte) int {
	x, y := string(a), string(b)
	if x == y {
		return 0
	}
	if x < y {
		return -1
	}
	return 1
}

func CompareString(x, y string) int {
	if x == y {
		return 0
	}
	if x < y {
		return -1
	}
	return 1
}

func IndexString(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func Index(s, sub []byte) int { return IndexString(string(s), string(sub)) }

func foreign(s string) bool {
	non := false
	for i := 0; i < len(s); i++ {
		non = nd.Or(non, s[i] >= 0x80)
	}
	return non
}

// mapped maps the characters whose mapping is an ASCII letter and keeps the others: what differs from the
// library is text that is not ASCII in both.
func mapped(s string, upper bool) string {
	var r []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case upper && i+1 < len(s) && c == 0xC4 && s[i+1] == 0xB1:
			r = append(r, 'I')
			i++
		case upper && i+1 < len(s) && c == 0xC5 && s[i+1] == 0xBF:
			r = append(r, 'S')
			i++
		case !upper && i+1 < len(s) && c == 0xC4 && s[i+1] == 0xB0:
			r = append(r, 'i')
			i++
		case !upper && i+2 < len(s) && c == 0xE2 && s[i+1] == 0x84 && s[i+2] == 0xAA:
			r = append(r, 'k')
			i += 2
		case upper:
			low := nd.And(c >= 'a', c <= 'z')
			r = append(r, c-byte(nd.Ite(low, 32, 0)))
		default:
			up := nd.And(c >= 'A', c <= 'Z')
			r = append(r, c+byte(nd.Ite(up, 32, 0)))
		}
	}
	return string(r)
}

func ToUpper(s string) string {
	if foreign(s) {
		return mapped(s, true)
	}
	b := []byte(s)
	for i := range b {
		low := nd.And(b[i] >= 'a', b[i] <= 'z')
		b[i] -= byte(nd.Ite(low, 32, 0))
	}
	return string(b)
}

func ToLower(s string) string {
	if foreign(s) {
		return mapped(s, false)
	}
	b := []byte(s)
	for i := range b {
		up := nd.And(b[i] >= 'A', b[i] <= 'Z')
		b[i] += byte(nd.Ite(up, 32, 0))
	}
	return string(b)
}

func BytesToUpper(s []byte) []byte { return []byte(ToUpper(string(s))) }
func BytesToLower(s []byte) []byte { return []byte(ToLower(string(s))) }

func space1(a byte) bool { return nd.Or(a == ' ', nd.And(a >= 9, a <= 13)) }

func space2(a, b byte) bool { return nd.And(a == 0xC2, nd.Or(b == 0x85, b == 0xA0)) }

func space3(a, b, c byte) bool {
	e280 := nd.Or(nd.And(c >= 0x80, c <= 0x8A), nd.Or(nd.Or(c == 0xA8, c == 0xA9), c == 0xAF))
	e2 := nd.And(a == 0xE2, nd.Or(nd.And(b == 0x80, e280), nd.And(b == 0x81, c == 0x9F)))
	e1 := nd.And(nd.And(a == 0xE1, b == 0x9A), c == 0x80)
	return nd.Or(e1, nd.Or(e2, nd.And(nd.And(a == 0xE3, b == 0x80), c == 0x80)))
}

// TrimSpace knows the encodings of the white space characters.
func TrimSpace(s string) string {
	i, j := 0, len(s)
	for i < j {
		if space1(s[i]) {
			i++
		} else if i+1 < j && space2(s[i], s[i+1]) {
			i += 2
		} else if i+2 < j && space3(s[i], s[i+1], s[i+2]) {
			i += 3
		} else {
			break
		}
	}
	for i < j {
		if space1(s[j-1]) {
			j--
		} else if i+1 < j && space2(s[j-2], s[j-1]) {
			j -= 2
		} else if i+2 < j && space3(s[j-3], s[j-2], s[j-1]) {
			j -= 3
		} else {
			break
		}
	}
	return s[i:j]
}

func BytesTrimSpace(s []byte) []byte {
	t := TrimSpace(string(s))
	if len(t) == 0 {
		return nil
	}
	// the text is a part of s: find it
	i := 0
	for i < len(s) {
		if space1(s[i]) {
			i++
		} else if i+1 < len(s) && space2(s[i], s[i+1]) {
			i += 2
		} else if i+2 < len(s) && space3(s[i], s[i+1], s[i+2]) {
			i += 3
		} else {
			break
		}
	}
	return s[i : i+len(t)]
}

// ---------------------------------------------------------------- fmt

func itoa(v int64) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	u := uint64(v)
	if neg {
		u = -u
	}
	return utoa(u, neg)
}

func utoa(u uint64, neg bool) string {
	var buf [24]byte
	i := len(buf)
	for u > 0 {
		i--
		buf[i] = byte(u%10) + '0'
		u /= 10
	}
	if i == len(buf) {
		i--
		buf[i] = '0'
	}
	if neg {
		i--
		buf[i] = '-'
	}
	return string(buf[i:])
}

type stringer interface{ String() string }

func arg(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return x
	case []byte:
		return string(x)
	case error:
		return x.Error()
	case stringer:
		return x.String()
	case int:
		return itoa(int64(x))
	case int64:
		return itoa(x)
	case int32:
		return itoa(int64(x))
	case int16:
		return itoa(int64(x))
	case int8:
		return itoa(int64(x))
	case uint:
		return utoa(uint64(x), false)
	case uint64:
		return utoa(x, false)
	case uint32:
		return utoa(uint64(x), false)
	case uint16:
		return utoa(uint64(x), false)
	case uint8:
		return utoa(uint64(x), false)
	case *string:
		return "pointer"
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	nd.Unsup("unsupported formatting argument")
	return ""
}

func num(v interface{}) string {
	switch v.(type) {
	case int, int64, int32, int16, int8, uint, uint64, uint32, uint16, uint8:
		return arg(v)
	}
	nd.Unsup("unsupported number argument")
	return ""
}

// unsigned gives the value of a number that is not negative.
func unsigned(v interface{}) uint64 {
	switch x := v.(type) {
	case int:
		if x >= 0 {
			return uint64(x)
		}
	case int64:
		if x >= 0 {
			return uint64(x)
		}
	case int32:
		if x >= 0 {
			return uint64(x)
		}
	case uint:
		return uint64(x)
	case uint64:
		return x
	case uint32:
		return uint64(x)
	case uint16:
		return uint64(x)
	case uint8:
		return uint64(x)
	}
	nd.Unsup("unsupported number argument")
	return 0
}

func hex(v interface{}, digits string) string {
	switch x := v.(type) {
	case string:
		res := ""
		for i := 0; i < len(x); i++ {
			res += string([]byte{digits[x[i]>>4], digits[x[i]&15]})
		}
		return res
	case []byte:
		return hex(string(x), digits)
	}
	u := unsigned(v)
	res := ""
	for u > 0 {
		res = string([]byte{digits[u&15]}) + res
		u >>= 4
	}
	if res == "" {
		return "0"
	}
	return res
}

// Sprintf renders %s, %v, %d, %q (simple text), %c, %x, %X, %t, %w and %% with the flags - and 0, a width and (%s)
// a precision.
func Sprintf(format string, a ...interface{}) string {
	res := ""
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			res += format[i:j]
			i = j - 1
			continue
		}
		i++
		minus, zero, width := false, false, 0
		for i < len(format) && (format[i] == '-' || format[i] == '0' || format[i] == '+') {
			minus = minus || format[i] == '-'
			zero = zero || format[i] == '0'
			if format[i] == '+' && (i+1 >= len(format) || format[i+1] != 'v') {
				nd.Unsup("unsupported flag")
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		prec := -1
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
			if i < len(format) && format[i] != 's' {
				nd.Unsup("unsupported precision")
			}
		}
		if i >= len(format) {
			return res + "%!(NOVERB)"
		}
		if format[i] == '%' {
			res += "%"
			continue
		}
		if k >= len(a) {
			nd.Unsup("unsupported: missing argument")
		}
		t := ""
		switch format[i] {
		case 's', 'v', 'w':
			t = arg(a[k])
			if prec >= 0 {
				n := 0
				for i := range t {
					if n == prec {
						t = t[:i]
						break
					}
					n++
				}
			}
		case 'd':
			t = num(a[k])
		case 'q':
			t = "\"" + arg(a[k]) + "\""
		case 'c':
			if r, ok := a[k].(int32); ok {
				t = string(r)
			} else {
				t = string(rune(unsigned(a[k])))
			}
		case 'x':
			t = hex(a[k], "0123456789abcdef")
		case 'X':
			t = hex(a[k], "0123456789ABCDEF")
		case 't':
			if _, ok := a[k].(bool); !ok {
				nd.Unsup("unsupported verb")
			}
			t = arg(a[k])
		default:
			nd.Unsup("unsupported verb")
		}
		k++
		if width > 0 {
			n := len([]rune(t))
			for ; n < width; n++ {
				switch {
				case minus:
					t += " "
				case !zero:
					t = " " + t
				case t[0] == '-':
					t = "-0" + t[1:]
				default:
					t = "0" + t
				}
			}
		}
		res += t
	}
	if k < len(a) {
		nd.Unsup("unsupported: too many arguments")
	}
	return res
}

func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}
func Fprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(fmt.Sprint(a...))) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintln(a...)))
}

// Runes converts text to runes.
func Runes(s string) []rune {
	var r []rune
	for _, c := range s {
		r = append(r, c)
	}
	if r == nil {
		r = []rune{}
	}
	return r
}

// ---------------------------------------------------------------- errors

// WrapError is what fmt.Errorf makes for %w.
type WrapError struct {
	Msg string
	Err error
}

func (e *WrapError) Error() string { return e.Msg }
func (e *WrapError) Unwrap() error { return e.Err }

// SlowSameErr compares errors by the text their methods give.
func SlowSameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return nd.SameText(a.Error(), b.Error())
}

// SlowSplitCol splits an error text into its text and column.
func SlowSplitCol(t string) (string, int) {
	n := len(t)
	if n == 0 || t[n-1] != ']' {
		return t, -1
	}
	i := n - 1
	for i > 0 && isD(t[i-1]) {
		i--
	}
	if i == n-1 || i < 5 || t[i-5:i] != "[col " {
		return t, -1
	}
	c := 0
	for j := i; j < n-1; j++ {
		c = c*10 + nd.Digit(t[j])
	}
	i -= 5
	if i > 0 && t[i-1] == ' ' {
		i--
	}
	return t[:i], c
}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target interface{}) bool {
	if err == nil {
		return false
	}
	for {
		if nd.AsTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ---------------------------------------------------------------- sort

// SortSlice is the insertion sort the library uses for short slices. Long ones are sorted in another way,
// which only shows when elements are equal.
func SortSlice(x interface{}, less func(i, j int) bool) {
	SortSliceStable(x, less)
	n := nd.SliceLen(x)
	for i := 1; n > 12 && i < n; i++ {
		if !less(i-1, i) {
			nd.Unsup("unsupported: sort of a long slice with equal elements")
		}
	}
}

func SortSliceStable(x interface{}, less func(i, j int) bool) {
	n := nd.SliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			nd.SliceSwap(x, j, j-1)
		}
	}
}

func SliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	for i := nd.SliceLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- sync

// A function named Atomic... is one step of the activity that calls it.

var pools = map[*sync.Pool][]interface{}{}

func AtomicPoolGet(p *sync.Pool) interface{} {
	l := pools[p]
	if n := len(l); n > 0 {
		x := l[n-1]
		pools[p] = l[: n-1 : n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func AtomicPoolPut(p *sync.Pool, x interface{}) {
	if x == nil {
		return
	}
	pools[p] = append(pools[p], x)
}

type kv struct{ k, v interface{} }

var maps = map[*sync.Map][]kv{}

func AtomicMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	for _, x := range maps[m] {
		if x.k == k {
			return x.v, true
		}
	}
	return nil, false
}

func AtomicMapStore(m *sync.Map, k, v interface{}) {
	l := maps[m]
	n := make([]kv, 0, len(l)+1)
	for _, x := range l {
		if x.k != k {
			n = append(n, x)
		}
	}
	maps[m] = append(n, kv{k, v})
}

func AtomicMapDelete(m *sync.Map, k interface{}) {
	l := maps[m]
	n := make([]kv, 0, len(l))
	for _, x := range l {
		if x.k != k {
			n = append(n, x)
		}
	}
	maps[m] = n
}

func AtomicMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	l := maps[m]
	for _, x := range l {
		if x.k == k {
			return x.v, true
		}
	}
	maps[m] = append(l[:len(l):len(l)], kv{k, v})
	return v, false
}

func AtomicAddInt32(p *int32, d int32) int32  { *p += d; return *p }
func AtomicLoadInt32(p *int32) int32          { return *p }
func AtomicStoreInt32(p *int32, v int32)      { *p = v }
func AtomicSwapInt32(p *int32, v int32) int32 { o := *p; *p = v; return o }
func AtomicCASInt32(p *int32, o, n int32) bool {
	if *p == o {
		*p = n
		return true
	}
	return false
}
func AtomicAddUint32(p *uint32, d uint32) uint32  { *p += d; return *p }
func AtomicLoadUint32(p *uint32) uint32           { return *p }
func AtomicStoreUint32(p *uint32, v uint32)       { *p = v }
func AtomicSwapUint32(p *uint32, v uint32) uint32 { o := *p; *p = v; return o }
func AtomicCASUint32(p *uint32, o, n uint32) bool {
	if *p == o {
		*p = n
		return true
	}
	return false
}
func AtomicAddInt64(p *int64, d int64) int64  { *p += d; return *p }
func AtomicLoadInt64(p *int64) int64          { return *p }
func AtomicStoreInt64(p *int64, v int64)      { *p = v }
func AtomicSwapInt64(p *int64, v int64) int64 { o := *p; *p = v; return o }
func AtomicCASInt64(p *int64, o, n int64) bool {
	if *p == o {
		*p = n
		return true
	}
	return false
}
func AtomicAddUint64(p *uint64, d uint64) uint64  { *p += d; return *p }
func AtomicLoadUint64(p *uint64) uint64           { return *p }
func AtomicStoreUint64(p *uint64, v uint64)       { *p = v }
func AtomicSwapUint64(p *uint64, v uint64) uint64 { o := *p; *p = v; return o }
func AtomicCASUint64(p *uint64, o, n uint64) bool {
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AtomicLoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return *p }
func AtomicStorePointer(p *unsafe.Pointer, v unsafe.Pointer) { *p = v }
func AtomicSwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	o := *p
	*p = v
	return o
}
func AtomicCASPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	if *p == o {
		*p = n
		return true
	}
	return false
}

// ---------------------------------------------------------------- text

func MakeNoZero(n int) []byte { return make([]byte, n) }

func ascii(s string) {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			nd.Unsup("unsupported: set of characters that are not ASCII")
		}
	}
}

func in(c byte, set string) bool {
	hit := false
	for i := 0; i < len(set); i++ {
		hit = nd.Or(hit, c == set[i])
	}
	return hit
}

func IndexAny(s, set string) int {
	ascii(set)
	for i := 0; i < len(s); i++ {
		if in(s[i], set) {
			return i
		}
	}
	return -1
}

func LastIndexAny(s, set string) int {
	ascii(set)
	for i := len(s) - 1; i >= 0; i-- {
		if in(s[i], set) {
			return i
		}
	}
	return -1
}

func BytesIndexAny(s []byte, set string) int     { return IndexAny(string(s), set) }
func BytesLastIndexAny(s []byte, set string) int { return LastIndexAny(string(s), set) }

// ---------------------------------------------------------------- time

const (
	cYear = iota
	cMonth
	cDay
	cHour
	cMin
	cSec
	cNano
	cOff
)

var errTime = errors.New("parsing time: cannot parse")
var errRange = errors.New("parsing time: day out of range")

// next splits a layout into a literal prefix, the kind of its first element and the rest.
func next(l string) (string, string, string) {
	for i := 0; i < len(l); i++ {
		r := l[i:]
		for _, k := range elems {
			if len(r) >= len(k) && r[:len(k)] == k {
				return l[:i], k, r[len(k):]
			}
		}
		if len(r) >= 2 && (r[0] == '.' || r[0] == ',') && (r[1] == '0' || r[1] == '9') {
			j := 1
			for j < len(r) && r[j] == r[1] {
				j++
			}
			if j >= len(r) || r[j] < '0' || r[j] > '9' {
				if r[1] == '0' {
					return l[:i], ".0", r[j:]
				}
				return l[:i], ".9" + r[2:j], r[j:]
			}
		}
	}
	return l, "", ""
}

var elems = []string{"2006", "Z07:00", "-07:00", "Jan", "_2", "01", "02", "15", "04", "05"}

var months = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

func isD(b byte) bool { return b >= '0' && b <= '9' }

func dig2(v string) (int, string, bool) {
	if len(v) < 2 || !isD(v[0]) || !isD(v[1]) {
		return 0, v, false
	}
	return nd.Digit(v[0])*10 + nd.Digit(v[1]), v[2:], true
}

func lower(b byte) byte { return b | 0x20 }

// leap tells whether a day is impossible for the month and year.
func badDay(y, m, d int) bool {
	leap := nd.And(y%4 == 0, nd.Or(y%100 != 0, y%400 == 0))
	short := nd.Or(nd.Or(m == 4, m == 6), nd.Or(m == 9, m == 11))
	feb := m == 2
	lim := nd.Ite(feb, nd.Ite(leap, 29, 28), nd.Ite(short, 30, 31))
	return nd.Or(d < 1, d > lim)
}

// Parse models time.Parse and, with loc, time.ParseInLocation.
func parse(layout, value string, loc *time.Location) (time.Time, error) {
	year, month, day, hour, min, sec, nsec, off := 0, 0, 0, 0, 0, 0, 0, 0
	hasOff := false
	var zero time.Time
	bad := false // range errors are reported after syntax errors
	ok := false
	haveMonth, haveDay := false, false
	for {
		prefix, k, rest := next(layout)
		if len(value) < len(prefix) {
			return zero, errTime
		}
		for i := 0; i < len(prefix); i++ {
			if value[i] != prefix[i] {
				return zero, errTime
			}
		}
		value = value[len(prefix):]
		if k == "" {
			if len(value) != 0 {
				return zero, errTime
			}
			break
		}
		layout = rest
		switch k {
		case "2006":
			if len(value) < 4 || !isD(value[0]) || !isD(value[1]) || !isD(value[2]) || !isD(value[3]) {
				return zero, errTime
			}
			year = ((nd.Digit(value[0])*10+nd.Digit(value[1]))*10+nd.Digit(value[2]))*10 + nd.Digit(value[3])
			value = value[4:]
		case "01":
			if month, value, ok = dig2(value); !ok {
				return zero, errTime
			}
			haveMonth = true
			bad = nd.Or(bad, nd.Or(month < 1, month > 12))
		case "Jan":
			if len(value) < 3 {
				return zero, errTime
			}
			month = 0
			found := false
			for i, n := range months {
				hit := nd.And(lower(value[0]) == lower(n[0]), nd.And(lower(value[1]) == n[1], lower(value[2]) == n[2]))
				month = nd.Ite(hit, i+1, month)
				found = nd.Or(found, hit)
			}
			if !found {
				return zero, errTime
			}
			value = value[3:]
			haveMonth = true
		case "02":
			if day, value, ok = dig2(value); !ok {
				return zero, errTime
			}
			haveDay = true
		case "_2":
			if len(value) > 0 && value[0] == ' ' {
				value = value[1:]
			}
			if len(value) < 1 || !isD(value[0]) {
				return zero, errTime
			}
			if len(value) < 2 || !isD(value[1]) {
				day = nd.Digit(value[0])
				value = value[1:]
			} else if day, value, ok = dig2(value); !ok {
				return zero, errTime
			}
			haveDay = true
		case "15":
			if hour, value, ok = dig2(value); !ok {
				return zero, errTime
			}
			bad = nd.Or(bad, hour > 23)
		case "04":
			if min, value, ok = dig2(value); !ok {
				return zero, errTime
			}
			bad = nd.Or(bad, min > 59)
		case "05":
			if sec, value, ok = dig2(value); !ok {
				return zero, errTime
			}
			bad = nd.Or(bad, sec > 59)
			if len(value) >= 2 && (value[0] == '.' || value[0] == ',') && isD(value[1]) {
				_, nk, _ := next(layout)
				if nk != "" && nk[0] == '.' {
					break
				}
				nsec, value = frac(value)
			}
		case ".0":
			nd.Unsup("unsupported time layout")
		case "Z07:00":
			if len(value) > 0 && value[0] == 'Z' {
				value = value[1:]
				hasOff, off = true, 0
				break
			}
			if off, value, bad, ok = zone(value, bad); !ok {
				return zero, errTime
			}
			hasOff = true
		case "-07:00":
			if off, value, bad, ok = zone(value, bad); !ok {
				return zero, errTime
			}
			hasOff = true
		default:
			// fraction
			if len(value) < 2 || (value[0] != '.' && value[0] != ',') || !isD(value[1]) {
				break
			}
			nsec, value = frac(value)
		}
	}
	if bad {
		return zero, errRange
	}
	if !haveMonth {
		month = 1
	}
	if !haveDay {
		day = 1
	} else if badDay(year, month, day) {
		return zero, errRange
	}
	if !hasOff {
		if loc == nil {
			loc = time.UTC
		}
		return civil(year, month, day, hour, min, sec, nsec, loc), nil
	}
	return nd.MkTime(year, month, day, hour, min, sec, nsec, off, nil), nil
}

func frac(v string) (int, string) {
	n := 0
	x := 0
	i := 1
	for i < len(v) && isD(v[i]) {
		if n < 9 {
			x = x*10 + nd.Digit(v[i])
			n++
		}
		i++
	}
	for ; n < 9; n++ {
		x *= 10
	}
	return x, v[i:]
}

func zone(v string, bad bool) (int, string, bool, bool) {
	if len(v) < 6 || (v[0] != '+' && v[0] != '-') || v[3] != ':' || !isD(v[1]) || !isD(v[2]) || !isD(v[4]) || !isD(v[5]) {
		return 0, v, bad, false
	}
	h := nd.Digit(v[1])*10 + nd.Digit(v[2])
	m := nd.Digit(v[4])*10 + nd.Digit(v[5])
	bad = nd.Or(bad, nd.Or(h > 24, m > 60))
	o := (h*60 + m) * 60
	return nd.Ite(v[0] == '-', -o, o), v[6:], bad, true
}

func TimeParse(layout, value string) (time.Time, error) { return parse(layout, value, nil) }

func TimeParseInLocation(layout, value string, loc *time.Location) (time.Time, error) {
	return parse(layout, value, loc)
}

func put(b []byte, v, n int) []byte {
	var t [10]byte
	for i := n - 1; i >= 0; i-- {
		t[i] = byte(v%10) + '0'
		v /= 10
	}
	return append(b, t[:n]...)
}

// TimeFormat models time.Time.Format for times between the years 0 and 9999.
func TimeFormat(t time.Time, layout string) string {
	var b []byte
	for {
		prefix, k, rest := next(layout)
		b = append(b, prefix...)
		if k == "" {
			return string(b)
		}
		layout = rest
		switch k {
		case "2006":
			b = put(b, nd.TimeField(t, cYear), 4)
		case "01":
			b = put(b, nd.TimeField(t, cMonth), 2)
		case "02":
			b = put(b, nd.TimeField(t, cDay), 2)
		case "15":
			b = put(b, nd.TimeField(t, cHour), 2)
		case "04":
			b = put(b, nd.TimeField(t, cMin), 2)
		case "05":
			b = put(b, nd.TimeField(t, cSec), 2)
		case "Z07:00", "-07:00":
			off := nd.TimeField(t, cOff)
			if k[0] == 'Z' && off == 0 {
				b = append(b, 'Z')
				break
			}
			sign := byte('+')
			if off < 0 {
				sign = '-'
			}
			off = nd.Abs(off)
			off /= 60
			b = append(b, sign)
			b = put(b, off/60, 2)
			b = append(b, ':')
			b = put(b, off%60, 2)
		case "Jan", "_2", ".0":
			nd.Unsup("unsupported time layout")
		default:
			n := len(k) - 1
			ns := nd.TimeField(t, cNano)
			for i := n; i < 9; i++ {
				ns /= 10
			}
			d := put(nil, ns, n)
			for n > 0 && d[n-1] == '0' {
				n--
			}
			if n > 0 {
				b = append(b, '.')
				b = append(b, d[:n]...)
			}
		}
	}
}

// ---------------------------------------------------------------- calendar arithmetic

func monthLen(y, m int) int {
	leap := nd.And(y%4 == 0, nd.Or(y%100 != 0, y%400 == 0))
	short := nd.Or(nd.Or(m == 4, m == 6), nd.Or(m == 9, m == 11))
	return nd.Ite(m == 2, nd.Ite(leap, 29, 28), nd.Ite(short, 30, 31))
}

// norm carries a day just outside its month over to the neighbouring month.
func norm(y, m, d int) (int, int, int) {
	l := monthLen(y, m)
	prev := monthLen(y, m-1)
	over, under := d > l, d < 1
	d = nd.Ite(over, d-l, nd.Ite(under, d+prev, d))
	m = nd.Ite(over, m+1, nd.Ite(under, m-1, m))
	y = nd.Ite(m > 12, y+1, nd.Ite(m < 1, y-1, y))
	m = nd.Ite(m > 12, 1, nd.Ite(m < 1, 12, m))
	return y, m, d
}

func fields(t time.Time) (int, int, int, int, int, int, int, int) {
	return nd.TimeField(t, cYear), nd.TimeField(t, cMonth), nd.TimeField(t, cDay), nd.TimeField(t, cHour),
		nd.TimeField(t, cMin), nd.TimeField(t, cSec), nd.TimeField(t, cNano), nd.TimeField(t, cOff)
}

func shift(t time.Time, to int) time.Time {
	y, m, d, h, mi, s, ns, off := fields(t)
	if nd.TimeKind(t) == 0 && to == off {
		return t
	}
	delta := to - off
	if delta%60 != 0 || delta >= 86400 || delta <= -86400 {
		nd.Unsup("unsupported zone offset")
	}
	delta /= 60
	mi += delta % 60
	c := nd.Ite(mi < 0, -1, nd.Ite(mi >= 60, 1, 0))
	mi = nd.Ite(mi < 0, mi+60, nd.Ite(mi >= 60, mi-60, mi))
	h += delta/60 + c
	c = nd.Ite(h < 0, -1, nd.Ite(h >= 24, 1, 0))
	h = nd.Ite(h < 0, h+24, nd.Ite(h >= 24, h-24, h))
	y, m, d = norm(y, m, d+c)
	return nd.MkTime(y, m, d, h, mi, s, ns, to, nil)
}

func TimeIn(t time.Time, loc *time.Location) time.Time {
	if loc == nil {
		panic("time: missing Location in call to Time.In")
	}
	if nd.TimeKind(t) == 2 {
		return nd.NowIn(t, loc)
	}
	if nd.LocKind(loc) == 0 {
		return at(shift(t, nd.ZoneOff(loc)), loc)
	}
	if nd.TimeKind(t) == 1 {
		return at(t, loc)
	}
	u := shift(t, 0)
	if summer(u) {
		return at(shift(u, 7200), loc)
	}
	return at(shift(u, 3600), loc)
}

// at is the same time with a location.
func at(t time.Time, loc *time.Location) time.Time {
	y, m, d, h, mi, s, ns, off := fields(t)
	return nd.MkTime(y, m, d, h, mi, s, ns, off, loc)
}

// summer tells whether the location nd.Seasonal is two hours ahead at an instant given as in UTC.
func summer(t time.Time) bool {
	y, m, d, h := nd.TimeField(t, cYear), nd.TimeField(t, cMonth), nd.TimeField(t, cDay), nd.TimeField(t, cHour)
	k := (m*32+d)*32 + h
	return nd.And(y >= 1980, nd.And(k >= (3*32+31)*32+1, k < (10*32+27)*32+1))
}

// civil is what time.Date does after it normalised the date.
func civil(y, m, d, h, mi, s, ns int, loc *time.Location) time.Time {
	if nd.LocKind(loc) == 0 {
		return nd.MkTime(y, m, d, h, mi, s, ns, nd.ZoneOff(loc), loc)
	}
	// time.Date takes the offset at the wall clock taken as UTC, then the one at the instant that gives. Here:
	// an hour that is skipped in spring is one later, an hour that is there twice in autumn is the first one.
	k := (m*32+d)*32 + h
	dst := nd.And(y >= 1980, nd.And(k >= (3*32+31)*32+2, k < (10*32+27)*32+2))
	if dst {
		h += nd.Ite(k == (3*32+31)*32+2, 1, 0)
		return nd.MkTime(y, m, d, h, mi, s, ns, 7200, loc)
	}
	return nd.MkTime(y, m, d, h, mi, s, ns, 3600, loc)
}

func TimeZone(t time.Time) (string, int) {
	if nd.TimeKind(t) == 2 {
		return "", nd.NowOff(t)
	}
	return "", nd.TimeField(t, cOff)
}

func TimeLocation(t time.Time) *time.Location {
	loc := nd.TimeLoc(t)
	if loc == nil {
		nd.Unsup("location of a time")
	}
	return loc
}

func TimeEqual(t, u time.Time) bool { return TimeCompare(t, u) == 0 }

func TimeUTC(t time.Time) time.Time { return shift(t, 0) }

func TimeAddDate(t time.Time, years, months, days int) time.Time {
	y, m, d, h, mi, s, ns, off := fields(t)
	y += years
	if months != 0 {
		k := y*12 + m - 1 + months
		y, m = k/12, k%12+1
	}
	y, m, d = norm(y, m, d)
	if days != 0 {
		if days > 28 || days < -28 {
			nd.Unsup("unsupported number of days")
		}
		y, m, d = norm(y, m, d+days)
	}
	if nd.TimeKind(t) == 1 {
		return civil(y, m, d, h, mi, s, ns, nd.TimeLoc(t))
	}
	return nd.MkTime(y, m, d, h, mi, s, ns, off, nd.TimeLoc(t))
}

func TimeDate(year int, month time.Month, day, hour, min, sec, nsec int, loc *time.Location) time.Time {
	if loc == nil {
		panic("time: missing Location in call to Date")
	}
	y, m, d := norm(year, int(month), day)
	return civil(y, m, d, hour, min, sec, nsec, loc)
}

func TimeMonth(t time.Time) time.Month { return time.Month(nd.TimeField(t, cMonth)) }
func TimeDay(t time.Time) int          { return nd.TimeField(t, cDay) }
func TimeHour(t time.Time) int         { return nd.TimeField(t, cHour) }
func TimeMinute(t time.Time) int       { return nd.TimeField(t, cMin) }
func TimeSecond(t time.Time) int       { return nd.TimeField(t, cSec) }
func TimeNanosecond(t time.Time) int   { return nd.TimeField(t, cNano) }
func TimeYMD(t time.Time) (int, time.Month, int) {
	return nd.TimeField(t, cYear), time.Month(nd.TimeField(t, cMonth)), nd.TimeField(t, cDay)
}
func TimeClock(t time.Time) (int, int, int) {
	return nd.TimeField(t, cHour), nd.TimeField(t, cMin), nd.TimeField(t, cSec)
}

func carry(x, m int) (int, int) {
	lo, hi := x < 0, x >= m
	return nd.Ite(lo, x+m, nd.Ite(hi, x-m, x)), nd.Ite(lo, -1, nd.Ite(hi, 1, 0))
}

func TimeAdd(t time.Time, dur time.Duration) time.Time {
	if nd.TimeKind(t) == 1 {
		return TimeIn(TimeAdd(shift(t, 0), dur), nd.TimeLoc(t))
	}
	y, m, d, h, mi, s, ns, off := fields(t)
	q := int(dur)
	var c int
	ns, c = carry(ns+q%1000000000, 1000000000)
	q /= 1000000000
	s, c = carry(s+q%60+c, 60)
	q /= 60
	mi, c = carry(mi+q%60+c, 60)
	q /= 60
	h, c = carry(h+q%24+c, 24)
	q /= 24
	if q > 26 || q < -26 {
		nd.Unsup("unsupported: addition of many days")
	}
	y, m, d = norm(y, m, d+q+c)
	return nd.MkTime(y, m, d, h, mi, s, ns, off, nil)
}

func TimeTruncate(t time.Time, d time.Duration) time.Time {
	if d <= 0 {
		return t
	}
	if nd.TimeKind(t) == 1 {
		return TimeIn(TimeTruncate(shift(t, 0), d), nd.TimeLoc(t))
	}
	y, m, day, h, mi, s, ns, off := fields(t)
	k := int(d)
	switch {
	case 1000000000%k == 0:
		ns -= ns % k
	case k%1000000000 == 0 && 60%(k/1000000000) == 0:
		s -= s % (k / 1000000000)
		ns = 0
	default:
		nd.Unsup("unsupported: truncation")
	}
	return nd.MkTime(y, m, day, h, mi, s, ns, off, nil)
}

func TimeRound(t time.Time, d time.Duration) time.Time {
	if d <= 0 {
		return t
	}
	k := int(d)
	if 1000000000%k != 0 {
		nd.Unsup("unsupported: rounding")
	}
	r := nd.TimeField(t, cNano) % k
	return TimeAdd(TimeTruncate(t, d), time.Duration(nd.Ite(r+r < k, 0, k)))
}

func order(a, b, then int) int { return nd.Ite(a < b, -1, nd.Ite(a > b, 1, then)) }

func TimeCompare(t, u time.Time) int {
	t, u = shift(t, 0), shift(u, 0)
	r := 0
	for k := cNano; k >= cYear; k-- {
		r = order(nd.TimeField(t, k), nd.TimeField(u, k), r)
	}
	return r
}

func TimeBefore(t, u time.Time) bool { return TimeCompare(t, u) < 0 }
func TimeAfter(t, u time.Time) bool  { return TimeCompare(t, u) > 0 }

func TimeUnix(t time.Time) int64 {
	y, m, d, h, mi, s, _, off := fields(t)
	y += 400 - nd.Ite(m <= 2, 1, 0)
	mp := nd.Ite(m <= 2, m+9, m-3)
	days := 365*y + y/4 - y/100 + y/400 + (153*mp+2)/5 + d - 1 - 865565
	return int64(((days*24+h)*60+mi)*60 + s - off)
}

func TimeUnixNano(t time.Time) int64 {
	return TimeUnix(t)*1000000000 + int64(nd.TimeField(t, cNano))
}

func TimeYearDay(t time.Time) int {
	y, m, d, _, _, _, _, _ := fields(t)
	n := d
	for k := 1; k < 12; k++ {
		n += nd.Ite(m > k, monthLen(y, k), 0)
	}
	return n
}

func TimeAppendFormat(t time.Time, b []byte, layout string) []byte {
	return append(b, t.Format(layout)...)
}

func TimeSub(t, u time.Time) time.Duration {
	return time.Duration((TimeUnix(t)-TimeUnix(u))*1000000000 + int64(nd.TimeField(t, cNano)-nd.TimeField(u, cNano)))
}

func TimeWeekday(t time.Time) time.Weekday {
	y, m, d, _, _, _, _, _ := fields(t)
	days := int(TimeUnix(nd.MkTime(y, m, d, 0, 0, 0, 0, 0, nil))) / 86400
	return time.Weekday((days + 4 + 7*200000) % 7)
}
