package h

import (
	"errors"
	"io"

	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	Funcs["Octet"] = Octet
	Funcs["NonT"] = NonT
}

// source is a reader that splits its data into reads in a way of its own.
type source struct {
	data []byte
	pos  int
	cut  int  // no read crosses this position
	step int  // no read returns more than this many bytes, if not 0
	with bool // the last bytes come together with the error
	zero bool // every other read returns nothing
	odd  bool
	end  error // how it ends; nil means io.EOF
}

func (r *source) Read(p []byte) (int, error) {
	end := r.end
	if end == nil {
		end = io.EOF
	}
	if r.zero {
		r.odd = !r.odd
		if r.odd {
			return 0, nil
		}
	}
	n := len(r.data) - r.pos
	if n == 0 {
		return 0, end
	}
	if r.pos < r.cut && r.cut-r.pos < n {
		n = r.cut - r.pos
	}
	if r.step > 0 && r.step < n {
		n = r.step
	}
	if len(p) < n {
		n = len(p)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.with && r.pos == len(r.data) {
		return n, end
	}
	return n, nil
}

// newSource chooses how the data are read: "reads" is 0 for all at once, 1 for every way to split them in
// two, 2 for two bytes at a time, the last ones together with the end, 3 for one byte at a time with
// empty reads in between.
func newSource(data []byte) *source {
	r := &source{data: data}
	switch nd.Bound("reads", 0) {
	case 1:
		r.cut = nd.Choose("cut", len(data)+1)
		r.with = nd.Bool("with")
	case 2:
		r.step, r.with = 2, true
	case 3:
		r.step, r.zero = 1, true
	}
	if nd.Bound("fail", 0) == 1 {
		r.end = errors.New("connection reset")
	}
	return r
}

// result is an expected result.
type result struct {
	kind int // 0: what the message parser returns for body; 1: the same, with an error in any case; 2: an error alone
	body []byte
}

func collect(to *[]*syslog.Result) syslog.ParserListener {
	return func(r *syslog.Result) { *to = append(*to, r) }
}

// assertResults compares what was delivered with what was expected.
func assertResults(got []*syslog.Result, want []result, be bool, id string) {
	nd.Observe("results", len(got))
	nd.Assert(len(got) == len(want), id+": as many results as there are messages and errors")
	if len(got) != len(want) {
		return
	}
	got = snaps(got)
	for i, w := range want {
		g := got[i]
		nd.Assert(g != nil, id+": a result")
		if g == nil {
			return
		}
		nd.Assert(nd.Or(g.Message != nil, g.Error != nil), id+": a result carries a message or an error")
		if w.kind == 2 {
			nd.Assert(g.Message == nil, id+": no message with a framing error")
			nd.Assert(g.Error != nil, id+": a framing error is reported")
			continue
		}
		m, err := rfc5424.NewParser(opts5424(be, false)...).Parse(w.body)
		if w.kind == 0 {
			nd.Assert((g.Error == nil) == (err == nil), id+": an error exactly when the message has one")
		} else {
			nd.Assert(g.Error != nil, id+": a truncated stream is reported")
		}
		if err != nil {
			nd.Assert(nd.SameErr(g.Error, err), "C21: the error is that of the message parser")
		}
		assertSame(g.Message, m, id)
		assertSame(g.Message, m, "C21")
	}
}

// streamBytes makes the stream of a template: a beginning, arbitrary bytes and an end. The number of
// arbitrary bytes is exactly n for a hole and every number up to n otherwise. With "short" the stream is
// cut at every position of its end.
func streamBytes(t tmpl) []byte {
	n := nd.Bound("n", 4)
	if t.fill != "" {
		return t.bytes("in", n)
	}
	if t.marks {
		data := t.bytes("in", 0)
		if nd.Bound("short", 0) == 1 {
			data = data[:nd.Choose("short", len(data)+1)]
		}
		return data
	}
	if !t.hole {
		n = nd.Choose("len", n+1)
	}
	data := append(append([]byte(t.pre), nd.Bytes("in", n)...), t.suf...)
	if nd.Bound("short", 0) == 1 {
		data = data[:nd.Choose("short", len(data)+1)]
	}
	return data
}

// octetStreams lead into the parts of an octet-counted stream.
var octetStreams = []tmpl{
	0:  {pre: ""},
	1:  {pre: "16 <1>1 - - - - - -"},
	2:  {pre: "16 "},
	3:  {pre: "18 <1>1 - - - - - - x"},
	4:  {pre: "18 <1>1 - - - - - - ", suf: "17 <1>1 - - - - - - ", hole: true},
	5:  {pre: "18 <1>1 - - - - - - ", suf: "16 <2>1 - - - - - -", hole: true},
	6:  {pre: "18 <1", suf: "1 - - - - - - 17 <2>2 h - - - - - ", hole: true},
	7:  {suf: " <1>1 - - - - - - 16 <3>1 - - - - - -", hole: true},
	8:  {pre: "16 <1>1 - - - - - -", suf: "<1>1 - - - - - - 16 <3>1 - - - - - -", hole: true},
	9:  {pre: "16 <1>1 - - - - - -1", suf: " <1>1 - - - - - - abcdefghijklmnopqrstuvwxyz", hole: true},
	10: {pre: "30 <1>1 - - - - - - "},
	11: {pre: "16 <1>1 - - - - - -17 <2>1 - - - - - - 20 <3>1 - - - - - - ", hole: true},
	12: {pre: "1", suf: "<1>1 - - - - - -", hole: true},
	13: {pre: "2 <16 <1>1 - - - - - -", suf: "<2>1 - - - - - -", hole: true},
	14: {pre: "16 <1>1 - - - - - -184467440737095516"},
	15: {pre: "45 <1>1 - h a p m [a b=\"", suf: "\"][c d=\"e\"] hi23 <1>1 - h a p m - end\n\n\n", hole: true},
	16: {pre: "8192 <1>1 - - - - - - " + rep("x", 8173), suf: "17 <2>1 - - - - - - 8192 <3>1 - - - - - - " + rep("y", 8175), hole: true},
	17: {pre: "5000 <1>1 - - - - - - " + rep("x", 4983) + "8193 <2>1 - - - - - - " + rep("x", 8174), suf: "16 <2>1 - - - - - -", hole: true},
	18: {pre: many("18 <", ">1 - - - - - -", 40), suf: "17 <2>1 - - - - - - ", hole: true},
	20: {pre: "5000 <1>1 - - - - - - " + rep("x", 4980), hole: true},
	21: {pre: "5000 <1>1 - - - - - - " + rep("x", 4980), suf: "16 <2>1 - - - - - -", hole: true},
	22: {pre: "42949673", suf: " <1>1 - - - - - -16 <2>1 - - - - - -", hole: true},
	23: {pre: "70000 <1>1 - - - - - - " + rep("x", 69981), suf: "16 <2>1 - - - - - -", hole: true},
	25: {marks: true, pre: "16 <1>1 - - - - - -1? <2>1 - - - - - - ?16 <3>1 - ? - - - -"},
	26: {marks: true, pre: "16 <1?1 - - - - - -17 <?>1 - - - - - - ?16 <3>1 - ? - - - -"},
	27: {marks: true, pre: "2? <1>1 - h? a p - - 16 <2>1 - - - - -?"},
	28: {pre: "70000 <1>1 - - - - - - " + rep("x", 69979), hole: true},
	29: {pre: "16 <1>1 - - - - - -1844674407370955161", suf: " <1>1 - - - - - x", hole: true},
	24: {pre: rep("16 <1>1 - - - - - -", 120), suf: "17 <2>1 - - - - - - ", hole: true},
	19: {fill: "16 <1>1 - - - - - -19 <23>1 - - - - - - a26 <3>1 - h a p m [i n=\"v\"] b16 <4>1 - - - - - -", count: 1},
}

// octetSpec is what octet counting prescribes for a stream.
func octetSpec(data []byte, max int, be bool) (want []result, whole bool) {
	pos := 0
	for {
		if pos == len(data) && len(want) > 0 {
			return want, true
		}
		if pos == len(data) || data[pos] < '1' || data[pos] > '9' {
			return append(want, result{kind: 2}), false
		}
		l := uint64(0) // at most 2^64-1
		for pos < len(data) && data[pos] >= '0' && data[pos] <= '9' {
			d := uint64(data[pos] - '0')
			if l > (1<<64-1-d)/10 {
				l = 1<<64 - 1
			} else {
				l = l*10 + d
			}
			pos++
		}
		if max < 0 || l > uint64(max) || pos == len(data) || data[pos] != ' ' {
			return append(want, result{kind: 2}), false
		}
		pos++
		if pos == len(data) || data[pos] != '<' {
			return append(want, result{kind: 2}), false
		}
		if uint64(len(data)-pos) < l {
			k := 2
			if be {
				k = 1
			}
			return append(want, result{k, data[pos:]}), false
		}
		n := int(l)
		body := data[pos : pos+n]
		pos += n
		if !be {
			if _, err := rfc5424.NewParser().Parse(body); err != nil {
				return append(want, result{0, body}), false
			}
		}
		want = append(want, result{0, body})
	}
}

// Octet reads an arbitrary octet-counted stream.
func Octet() {
	data := streamBytes(octetStreams[nd.Bound("t", 0)])
	be := nd.Bool("bestEffort")
	max := 8192
	var got []*syslog.Result
	listener := syslog.WithListener(collect(&got))
	opts := []syslog.ParserOption{listener}
	if m := nd.Bound("max", 0); m != 0 {
		max = m
		if m == -1 {
			max = 15 + nd.Int("max", 0, 5)
		}
		opts = append(opts, syslog.WithMaxMessageLength(max))
	}
	if be {
		opts = append(opts, syslog.WithBestEffort())
	}
	if nd.Bound("order", 0) == 1 {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	p := octetcounting.NewParser(opts...)
	if nd.Bound("again", 0) == 1 {
		p.Parse(&source{data: []byte("16 <1>1 - - - - - -9 <1>")})
		got = nil
	}
	p.Parse(newSource(data))
	nd.Reach("C14: stream read")
	want, whole := octetSpec(data, max, be)
	id := "C15"
	if whole {
		id = "C14"
	}
	if len(got) > 0 {
		last := got[len(got)-1]
		nd.Assert(nd.Or(whole, last.Error != nil), "C15: a malformed stream ends in an error")
	}
	assertResults(got, want, be, id)
}

// lines lead into the parts of a stream with trailers; "\n" stands for the trailer.
var lines = []tmpl{
	0:  {pre: ""},
	1:  {pre: "<1>1 - - - - - -\n"},
	2:  {pre: "<1>1 - - - - - - a\n"},
	3:  {pre: "<1>1 - - - - - - ", suf: "\n<2>1 - - - - - - b\n", hole: true},
	4:  {pre: "<1>1 - - - - - - a", suf: "<2>1 - - - - - - b\n<3>1 - - - - - -\n", hole: true},
	5:  {pre: "<1>1 - - - - - - a\n", suf: "2>1 - - - - - - b\n<3>1 - - - - - - c\n", hole: true},
	6:  {suf: ">1 - - - - - - a\n<2>1 - - - - - - b\n", hole: true},
	7:  {pre: "<1>1 - - - - - - a\n<2>1 - - - - - - b"},
	8:  {pre: "<1>1 - h a p m [a b=\"", suf: "\"][c d=\"e\"] hi\n\n\nx\n<2>1 - - - - - -\n<3>1 - - - - - - c\n", hole: true},
	9:  {pre: "<1>1 - - - - - - a\nbb", suf: "\n\n<2>1 - - - - - -", hole: true},
	10: {pre: "x\n<1>1 - - - - - -\n<"},
	11: {pre: "<1>1 - - - - - - " + rep("x", 9000) + "\n<2>1 - - - - - - " + rep("y", 4096), suf: "\n<3>1 - - - - - -\n", hole: true},
	12: {pre: many("<", ">1 - - - - - -\n", 40), suf: "\n<3>1 - - - - - -\n", hole: true},
	15: {pre: "<1>1 - - - - - - " + rep("x", 70000), suf: "\n<3>1 - - - - - -\n", hole: true},
	16: {pre: rep("<1>1 - - - - - -\n", 120), suf: "\n<3>1 - - - - - -\n", hole: true},
	13: {fill: "<1>1 - - - - - -\n<23>1 - - - - - - a\nb\n<3>1 - h a p m [i n=\"v\"] b\n<4>1 - - - - - -\n", count: 1},
	14: {fill: "<1>1 - - - - - - " + "a\nb\n\nc\n" + "<2>1 - - - - - - e\n\n\nd", count: 1},
	17: {marks: true, pre: "<1>1 - - - - - - ?<2>1 - - - - - - ??3>1 - - - - - - ?\n"},
	18: {marks: true, pre: "<1>1 - h? - - - - ?\n?2>1 - - - - - -?<3>1 - - - - - - ?x?<4>1 - - - - -?"},
	19: {marks: true, pre: "??<1>1 - - - - - - ?\n<2>? - - - - [?]??<3>1"},
}

// nul has NUL for every LF.
func nul(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == '\n' {
			b[i] = 0
		}
	}
	return string(b)
}

// lineSpec is what framing by trailers prescribes for a stream.
func lineSpec(data []byte, trailer byte) (want []result, whole bool) {
	whole = len(data) > 0
	start, begin := 0, 0 // of the line, of the message
	live := len(data) > 0 && data[0] == '<'
	if !live {
		whole = false
	}
	for i := 0; i < len(data); i++ {
		if data[i] != trailer {
			continue
		}
		// the line start..i is terminated
		start = i + 1
		if live && (start == len(data) || data[start] == '<' || !contains(data[start:], trailer)) {
			// so is the message, when another one or the end follows, or text without a trailer
			want = append(want, result{0, data[begin:i]})
			begin = start
		}
	}
	if start < len(data) {
		want = append(want, result{1, data[start:]})
		whole = false
	}
	return want, whole
}

func contains(data []byte, c byte) bool {
	for _, b := range data {
		if b == c {
			return true
		}
	}
	return false
}

// NonT reads an arbitrary stream with trailers.
func NonT() {
	t := lines[nd.Bound("t", 0)]
	trailer := byte('\n')
	k := nd.Bound("trailer", 0)
	if k >= 2 {
		trailer = 0
		t.pre, t.suf, t.fill = nul(t.pre), nul(t.suf), nul(t.fill)
	}
	data := streamBytes(t)
	be := nd.Bool("bestEffort")
	var got []*syslog.Result
	opts := []syslog.ParserOption{syslog.WithListener(collect(&got))}
	if be {
		opts = append(opts, syslog.WithBestEffort())
	}
	switch k {
	case 1:
		opts = append(opts, nontransparent.WithTrailer(nontransparent.LF))
	case 2, 3:
		opts = append(opts, nontransparent.WithTrailer(nontransparent.NUL))
	}
	if k == 3 {
		opts = append(opts, nontransparent.WithTrailer(nontransparent.TrailerType(2+nd.Int("unknown", 0, 1000))))
	}
	if nd.Bound("order", 0) == 1 {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	p := nontransparent.NewParser(opts...)
	if nd.Bound("again", 0) == 1 {
		first := "<7>1 - - - - - - old\n<8>1 - - - - - - older\n<9>1 - - - - - - oldest"
		if k >= 2 {
			first = nul(first)
		}
		r := &source{data: []byte(first)}
		r.data = r.data[:len(r.data)-nd.Choose("old", 3)*10]
		p.Parse(r)
		got = nil
	}
	p.Parse(newSource(data))
	nd.Reach("C16: stream read")
	want, whole := lineSpec(data, trailer)
	id := "C17"
	if whole {
		id = "C16"
	}
	assertResults(got, want, be, id)
}
