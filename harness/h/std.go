package h

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/harness/nd"
)

func init() {
	Funcs["Std"] = Std
}

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return b[i] > b[j] }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

type wrapErr struct{ e error }

func (w *wrapErr) Error() string { return "w:" + w.e.Error() }
func (w *wrapErr) Unwrap() error { return w.e }

var stdPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
var replacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, `]`, `\]`)

// Std calls functions of the standard library that the code under test could use. What it observes is
// compared natively: it tests the engine, not go-syslog.
func Std() {
	s := string(nd.Input("s", nd.Bound("n", 3)))
	b := []byte(s)
	o := func(v interface{}) { nd.Observe("r", v) }
	cases := []func(){
		0:  func() { o(strings.Contains(s, "ab")) },
		1:  func() { o(strings.ContainsAny(s, "\"\\]")) },
		2:  func() { o(strings.ContainsRune(s, ']')) },
		3:  func() { o(strings.HasPrefix(s, "<1")); o(strings.HasSuffix(s, ">")) },
		4:  func() { o(strings.Trim(s, "ab")) },
		5:  func() { o(strings.TrimSpace(s)) },
		6:  func() { o(strings.TrimLeft(s, " ")); o(strings.TrimRight(s, ".")) },
		7:  func() { o(strings.TrimPrefix(s, "a")); o(strings.TrimSuffix(s, "b")) },
		8:  func() { o(strings.Replace(s, "a", "bb", -1)) },
		9:  func() { o(strings.ReplaceAll(s, `"`, `\"`)) },
		10: func() { o(replacer.Replace(s)) },
		11: func() { o(len(strings.Split(s, " "))); o(strings.Join(strings.Split(s, "-"), "+")) },
		12: func() { o(strings.Join(strings.Fields(s), "_")) },
		13: func() { o(strings.EqualFold(s, "lf")) },
		14: func() { o(strings.ToUpper(s)); o(strings.ToLower(s)) },
		15: func() { o(strings.Repeat(s, 2)) },
		16: func() { o(strings.IndexAny(s, "=]")); o(strings.LastIndexByte(s, ' ')); o(strings.IndexByte(s, 'x')) },
		17: func() { o(strings.LastIndex(s, "ab")); o(strings.Count(s, "a")) },
		18: func() { o(strings.IndexFunc(s, func(r rune) bool { return r < 33 || r > 126 })) },
		19: func() {
			o(strings.Map(func(r rune) rune {
				if r == 'a' {
					return -1
				}
				return r
			}, s))
		},
		20: func() {
			var sb strings.Builder
			sb.WriteString(s)
			sb.WriteByte('x')
			sb.Write(b)
			sb.Grow(10)
			o(sb.String())
			o(sb.Len())
		},
		21: func() {
			var bb bytes.Buffer
			bb.WriteString(s)
			bb.WriteByte('x')
			bb.Write(b)
			bb.Truncate(1)
			o(bb.String())
		},
		22: func() { o(string(bytes.TrimSpace(b))); o(bytes.Contains(b, []byte("ab"))) },
		23: func() { o(string(bytes.TrimRight(b, "\n\x00"))); o(string(bytes.TrimSuffix(b, []byte{10}))) },
		24: func() { o(bytes.IndexByte(b, 10)); o(bytes.LastIndexByte(b, 10)); o(bytes.HasPrefix(b, []byte{60})) },
		25: func() { o(string(bytes.ReplaceAll(b, []byte("a"), []byte("bc")))) },
		26: func() { o(len(bytes.Split(b, []byte{10}))) },
		27: func() { o(utf8.Valid(b)); o(utf8.ValidString(s)) },
		28: func() { o(utf8.RuneCountInString(s)); r, n := utf8.DecodeRuneInString(s); o(int(r)); o(n) },
		29: func() {
			n := 0
			for i, r := range s {
				n += i * int(r)
			}
			o(n)
		},
		30: func() { o(len([]rune(s))); o(string([]rune(s))) },
		31: func() { n, err := strconv.Atoi(s); o(n); o(err) },
		32: func() { n, err := strconv.ParseUint(s, 10, 16); o(int(n)); o(err != nil) },
		33: func() { n, err := strconv.ParseInt(s, 10, 64); o(int(n)); o(err != nil) },
		34: func() { o(strconv.Itoa(len(s))); o(string(strconv.AppendInt(nil, int64(len(s)), 10))) },
		35: func() { o(strconv.Quote(s)) },
		36: func() { o(fmt.Sprintf("%s-%d-%v", s, len(s), s)) },
		37: func() { o(fmt.Sprintf("%q", s)) },
		38: func() { o(fmt.Sprintf("%c %02d %x", 'a', len(s), len(s))) },
		39: func() { o(fmt.Sprint(s, 1, s)); o(fmt.Sprintln(s)) },
		40: func() { var sb strings.Builder; fmt.Fprintf(&sb, "<%d>%s", len(s), s); o(sb.String()) },
		41: func() { o(errors.New(s).Error()); o(fmt.Errorf("x %s", s)) },
		42: func() { e := fmt.Errorf("x: %w", io.EOF); o(errors.Is(e, io.EOF)); o(e) },
		43: func() {
			var w *wrapErr
			e := error(&wrapErr{io.EOF})
			o(errors.As(e, &w))
			o(errors.Unwrap(e) == io.EOF)
			o(errors.Is(e, io.EOF))
		},
		44: func() { l := []string{s, "b", "a"}; sort.Strings(l); o(strings.Join(l, ",")) },
		45: func() {
			l := []string{s, "b", "a"}
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
			o(strings.Join(l, ","))
		},
		46: func() { l := byLen{s, "b", "a"}; sort.Sort(l); o(strings.Join(l, ",")) },
		47: func() { l := sort.StringSlice{s, "b", "a"}; sort.Stable(l); o(sort.StringsAreSorted(l)) },
		48: func() {
			l := []string{s, "b", "a"}
			sort.SliceStable(l, func(i, j int) bool { return l[i] < l[j] })
			o(strings.Join(l, ","))
		},
		49: func() { l := []int{len(s), 2, 1}; sort.Ints(l); o(l[0]); o(sort.SearchInts(l, 2)) },
		50: func() {
			x := stdPool.Get().(*bytes.Buffer)
			x.Reset()
			x.WriteString(s)
			o(x.String())
			stdPool.Put(x)
		},
		51: func() { var n int32; atomic.AddInt32(&n, 2); o(int(atomic.LoadInt32(&n))) },
		52: func() { var once sync.Once; n := 0; once.Do(func() { n++ }); once.Do(func() { n++ }); o(n) },
		53: func() {
			var mu sync.RWMutex
			mu.RLock()
			mu.RUnlock()
			mu.Lock()
			defer mu.Unlock()
			o(1)
		},
		54: func() { r := bufio.NewReader(strings.NewReader(s)); x, err := r.ReadBytes(10); o(string(x)); o(err) },
		55: func() { r := bufio.NewReader(bytes.NewReader(b)); x, err := r.ReadString(10); o(x); o(err) },
		56: func() { r := bufio.NewScanner(strings.NewReader(s)); r.Scan(); o(r.Text()) },
		57: func() {
			x := make([]byte, 2)
			n, err := io.ReadFull(strings.NewReader(s), x)
			o(n)
			o(err)
			o(string(x))
		},
		58: func() { x, err := io.ReadAll(strings.NewReader(s)); o(string(x)); o(err) },
		59: func() {
			x, _ := io.ReadAll(io.LimitReader(io.MultiReader(strings.NewReader(s), strings.NewReader("zz")), 3))
			o(string(x))
		},
		60: func() { o(unicode.IsDigit(rune(len(s)) + 47)); o(unicode.IsLetter('a')) },
		61: func() {
			n := 0
			for _, r := range s {
				if unicode.IsDigit(r) {
					n++
				}
				if unicode.IsSpace(r) {
					n += 10
				}
				if unicode.IsUpper(r) {
					n += 100
				}
				if unicode.IsControl(r) {
					n += 1000
				}
				if unicode.IsPrint(r) {
					n += 10000
				}
			}
			o(n)
		},
		62: func() { o(bits.Len(uint(len(s)))); o(bits.TrailingZeros8(uint8(len(s)))) },
		63: func() { t := time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC); o(t.Add(time.Hour).Format(time.RFC3339)) },
		64: func() {
			t := time.Date(2001, 2, 3, 4, 5, 6, 7000, time.FixedZone("", 3600))
			o(t.UTC().Format(time.RFC3339Nano))
			o(t.Unix())
			o(t.YearDay())
			o(t.Truncate(time.Second).Nanosecond())
		},
		65: func() {
			t, err := time.Parse(time.RFC3339Nano, "2001-02-03T04:05:06.7Z")
			o(t.Format(time.RFC3339))
			o(err)
		},
		66: func() { t, err := time.Parse(time.RFC3339, s); o(t.IsZero()); o(err != nil) },
		67: func() {
			m := map[string]int{s: 1, "a": 2}
			delete(m, "a")
			o(len(m))
			_, ok := m["b"]
			o(ok)
		},
		68: func() {
			defer func() { r := recover(); o(r != nil) }()
			o(int(s[len(s)]))
		},
		69: func() {
			var a [4]byte
			copy(a[:], s)
			o(string(a[:]))
			x := a
			x[0] = 'q'
			o(a == x)
		},
		70: func() {
			ch := make(chan string, 2)
			ch <- s
			o(<-ch)
			close(ch)
			_, ok := <-ch
			o(ok)
		},
		71: func() {
			var x interface{} = s
			switch v := x.(type) {
			case int:
				o(1)
			case fmt.Stringer:
				o(2)
			case string:
				o(v)
			}
		},
		72: func() {
			r := strings.NewReader(s)
			c, err := r.ReadByte()
			o(int(c))
			o(err)
			r.UnreadByte()
			o(r.Len())
		},
		73: func() { x, y, ok := strings.Cut(s, "="); o(x); o(y); o(ok) },
		74: func() { o(strings.Title("ab c")); o(strings.ToValidUTF8(s, "?")) },
		75: func() { o(bytes.Equal(b, []byte("ab"))); o(bytes.Count(b, []byte{10})); o(string(bytes.ToUpper(b))) },
		76: func() { o(strings.SplitN(s, " ", 2)[0]); o(strings.TrimFunc(s, func(r rune) bool { return r == ' ' })) },
		77: func() { w := bufio.NewWriter(io.Discard); w.WriteString(s); w.Flush(); o(w.Buffered()) },
		78: func() {
			t := time.Date(2001, 2, 3, 4, 5, 6, 7000, time.UTC)
			o(t.Before(t.Add(1)))
			o(t.Sub(t) == 0)
			o(t.Weekday() == 6)
		},
		79: func() { var e *strconv.NumError; _, err := strconv.Atoi("x" + s); o(errors.As(err, &e)) },
		80: func() { o(fmt.Sprintf("%v %+v %T", len(s), "a", 1)); o(fmt.Sprintf("%5d|%-5s|%05d", len(s), "a", 3)) },
		81: func() {
			x := append([]byte("ab"), s...)
			y := x[:1:1]
			y = append(y, 'z')
			o(string(x))
			o(cap(y) >= 2)
		},
		82: func() {
			f := func(x ...string) int { return len(x) }
			o(f(strings.Split(s, "")...))
		},
		83: func() {
			n := 0
		loop:
			for i := 0; i < len(s); i++ {
				switch c := s[i]; {
				case c >= '0' && c <= '9':
					n = n*10 + int(c-'0')
				case c == ' ':
					continue loop
				default:
					break loop
				}
			}
			o(n)
		},
	}
	cases[nd.Bound("k", 0)]()
	nd.Reach("C02: std")
}
