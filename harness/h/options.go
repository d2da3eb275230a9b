package h

import (
	"time"

	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/common"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	Funcs["C22Machine"] = C22Machine
	Funcs["C22Stream"] = C22Stream
	Funcs["C22Silent"] = C22Silent
	Funcs["C23Escape"] = C23Escape
	Funcs["C23Remove"] = C23Remove
	Funcs["C23Number"] = C23Number
	Funcs["C23Range"] = C23Range
}

// C22Machine: message parsers whose options are given in another order, repeatedly or later, against ones
// that were given them once.
func C22Machine() {
	format := nd.Bound("format", 0)
	how := nd.Bound("how", 0)
	be := nd.Bool("bestEffort")
	other := nd.Bool("other")
	var opts, want []syslog.MachineOption
	var mk func(...syslog.MachineOption) syslog.Machine
	var data []byte
	late := false
	bestEffort := rfc5424.WithBestEffort()
	switch format {
	case 0, 1:
		mk = rfc5424.NewParser
		if format == 1 {
			mk = rfc5424.NewMachine
		}
		data = tmpls[nd.Bound("t", 0)].bytes("in", nd.Bound("n", 3))
		if other {
			opts = append(opts, rfc5424.WithCompliantMsg())
			want = append(want, rfc5424.WithCompliantMsg())
		}
	case 2, 3:
		mk = rfc3164.NewParser
		if format == 3 {
			mk = rfc3164.NewMachine
		}
		bestEffort = rfc3164.WithBestEffort()
		data = tmpls3164[nd.Bound("t", 0)].bytes("in", nd.Bound("n", 3))
		if other {
			opts = append(opts, rfc3164.WithRFC3339())
			want = append(want, rfc3164.WithRFC3339())
		}
		y := 1900 + int(nd.Byte("year"))
		want = append(want, rfc3164.WithYear(rfc3164.Year{YYYY: y}), rfc3164.WithLocaleTimezone(location(2)), rfc3164.WithTimezone(location(3)))
		// the last one counts
		opts = append(append([]syslog.MachineOption{rfc3164.WithYear(rfc3164.Year{YYYY: 2024}), rfc3164.WithTimezone(location(4)), rfc3164.WithLocaleTimezone(time.UTC)}, opts...),
			rfc3164.WithTimezone(location(3)), rfc3164.WithLocaleTimezone(location(2)), rfc3164.WithYear(rfc3164.Year{YYYY: y}))
	}
	if be {
		want = append(want, bestEffort)
		switch how {
		case 0:
			opts = append([]syslog.MachineOption{bestEffort}, opts...)
		case 1:
			opts = append(append([]syslog.MachineOption{bestEffort}, opts...), bestEffort)
		default:
			late = true
		}
	}
	if other && how == 1 {
		opts = append(opts, opts...)
	}
	p, q := mk(opts...), mk(want...)
	nd.Assert(q.HasBestEffort() == be, "C22: best effort is reported")
	if late {
		nd.Assert(!p.HasBestEffort(), "C22: best effort is off unless turned on")
		if how == 3 {
			p.Parse([]byte("<1>1 "))
		}
		p.WithBestEffort()
	}
	nd.Assert(p.HasBestEffort() == be, "C22: best effort is reported, however it was turned on")
	m, err := p.Parse(data)
	m = snap(m)
	w, errw := q.Parse(append([]byte(nil), data...))
	nd.Reach("C22: parsed")
	nd.Assert((err == nil) == (errw == nil), "C22: an error in both cases or in none")
	nd.Assert(nd.SameErr(err, errw), "C22: same error")
	assertSame(m, w, "C22")
	nd.Assert(nd.And(p.HasBestEffort() == be, q.HasBestEffort() == be), "C22: parsing does not change the mode")
}

func reversedOpts(o []syslog.ParserOption) []syslog.ParserOption {
	for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
		o[i], o[j] = o[j], o[i]
	}
	return o
}

// C22Stream: the same for stream parsers.
func C22Stream() {
	how := nd.Bound("how", 0)
	be := nd.Bool("bestEffort")
	mk := func(o ...syslog.ParserOption) syslog.Parser { return octetcounting.NewParser(o...) }
	ts := octetStreams
	max := 0
	if nd.Bound("kind", 0) == 1 {
		mk, ts = nontransparent.NewParser, lines
	} else {
		max = nd.Bound("max", 17)
	}
	data := streamBytes(ts[nd.Bound("t", 0)])
	var got, want, none []*syslog.Result
	w := []syslog.ParserOption{syslog.WithListener(collect(&want))}
	if max > 0 {
		w = append(w, syslog.WithMaxMessageLength(max))
	}
	if be {
		w = append(w, syslog.WithBestEffort())
	}
	q := mk(w...)
	var p syslog.Parser
	switch how {
	case 0: // another order, and repeated
		o := []syslog.ParserOption{syslog.WithListener(collect(&got))}
		if max > 0 {
			o = append(o, syslog.WithMaxMessageLength(max), syslog.WithListener(collect(&none)), syslog.WithMaxMessageLength(3))
		}
		if be {
			o = append([]syslog.ParserOption{syslog.WithBestEffort()}, append(o, syslog.WithBestEffort())...)
		}
		p = mk(reversedOpts(o)...)
	case 1: // by method, after the construction
		p = mk()
		nd.Assert(!p.HasBestEffort(), "C22: best effort is off unless turned on")
		p.WithListener(collect(&got))
		if max > 0 {
			p.WithMaxMessageLength(max)
		}
		if be {
			p.WithBestEffort()
		}
	case 2: // by method, after another stream
		p = mk(syslog.WithListener(collect(&none)))
		p.Parse(&source{data: []byte("5 <1>1 <")})
		if be {
			p.WithBestEffort()
		}
		if max > 0 {
			p.WithMaxMessageLength(max)
		}
		n := len(none)
		p.WithListener(collect(&got))
		defer func() { nd.Assert(len(none) == n, "C22: only the last listener is called") }()
	case 3: // options that do not concern the kind of stream
		p = mk(append(w, syslog.WithListener(collect(&got)))...)
		if max == 0 {
			p.WithMaxMessageLength(5)
		}
	}
	nd.Assert(nd.And(p.HasBestEffort() == be, q.HasBestEffort() == be), "C22: best effort is reported, however it was turned on")
	p.Parse(&source{data: data})
	got = snaps(got)
	q.Parse(&source{data: append([]byte(nil), data...)})
	nd.Reach("C22: stream read")
	nd.Assert(len(got) == len(want), "C22: as many results")
	if len(got) != len(want) {
		return
	}
	for i, g := range got {
		nd.Assert((g.Error == nil) == (want[i].Error == nil), "C22: an error in both cases or in none")
		nd.Assert(nd.SameErr(g.Error, want[i].Error), "C22: same error")
		assertSame(g.Message, want[i].Message, "C22")
	}
	nd.Assert(nd.And(p.HasBestEffort() == be, q.HasBestEffort() == be), "C22: parsing does not change the mode")
}

// C22Silent: a stream parser without a listener reads a stream to its end.
func C22Silent() {
	mk := func(o ...syslog.ParserOption) syslog.Parser { return octetcounting.NewParser(o...) }
	ts := octetStreams
	if nd.Bound("kind", 0) == 1 {
		mk, ts = nontransparent.NewParser, lines
	}
	var o []syslog.ParserOption
	if nd.Bool("bestEffort") {
		o = append(o, syslog.WithBestEffort())
	}
	mk(o...).Parse(newSource(streamBytes(ts[nd.Bound("t", 0)])))
	nd.Reach("C22: silent stream read")
}

// C23Escape: one backslash before each octet that needs it, and back.
func C23Escape() {
	v := string(nd.Input("v", nd.Bound("n", 4)))
	if k := nd.Bound("fill", 0); k > 0 {
		b := []byte(rep("v", k))
		copy(b[nd.Each("at", k-nd.Bound("n", 4)+1):], v)
		v = string(b)
	}
	e := common.EscapeBytes(v)
	var pos []int
	k := 0
	for i := 0; i < len(v); i++ {
		if v[i] == '"' || v[i] == '\\' || v[i] == ']' {
			nd.Assert(k < len(e) && e[k] == '\\', "C23: a backslash before what needs one")
			pos = append(pos, k+nd.Bound("offset", 7))
			k++
		}
		nd.Assert(k < len(e) && e[k] == v[i], "C23: every octet is kept")
		k++
	}
	nd.Assert(k == len(e), "C23: nothing else is added")
	nd.Reach("C23: escaped")
	back := common.RemoveBytes([]byte(e), pos, nd.Bound("offset", 7))
	nd.Assert(string(back) == v, "C23: removing the backslashes restores the value")
	nd.Observe("escaped", e)
}

// C23Remove: exactly the given positions are removed, and the data stay as they were.
func C23Remove() {
	n := nd.Bound("n", 5)
	data := nd.Bytes("data", n)
	old := append([]byte(nil), data...)
	offset := int(nd.U16("offset"))
	var pos []int
	var want []byte
	for i := 0; i < n; i++ {
		if nd.Bool("out") {
			pos = append(pos, offset+i)
		} else {
			want = append(want, data[i])
		}
	}
	r := common.RemoveBytes(data, pos, offset)
	nd.Reach("C23: removed")
	nd.Assert(string(r) == string(want), "C23: exactly the given positions are removed")
	nd.Assert(string(data) == string(old), "C23: the data stay as they were")
	for i := range data {
		data[i] = 0
	}
	nd.Assert(string(r) == string(want), "C23: the result does not share the data")
	nd.Observe("rest", string(want))
}

// C23Number: decimal digits to a number.
func C23Number() {
	n := nd.Bound("n", 5)
	d := nd.Bytes("d", n)
	if k := nd.Bound("fill", 0); k > 0 {
		long := []byte(rep("7", k))
		copy(long[nd.Each("at", k-n+1):], d)
		d = long
	}
	want := 0
	for _, c := range d {
		nd.Assume(nd.And(c >= '0', c <= '9'))
		want = want*10 + int(c-'0')
	}
	nd.Reach("C23: number")
	got := common.UnsafeUTF8DecimalCodePointsToInt(d)
	nd.Assert(got == want, "C23: digits mean their number")
	nd.Observe("number", got)
}

// C23Range: the ranges of priority and version.
func C23Range() {
	p, v := nd.Byte("p"), nd.U16("v")
	nd.Assert(common.ValidPriority(p) == (p < 192), "C23: priorities are 0-191")
	nd.Assert(common.ValidVersion(v) == nd.And(v > 0, v < 1000), "C23: versions are 1-999")
	x, lo, hi := int(nd.I64("x")), int(nd.I64("lo")), int(nd.I64("hi"))
	nd.Assert(common.InBetween(x, lo, hi) == nd.And(x >= lo, x <= hi), "C23: ranges include their ends")
	nd.Reach("C23: ranges")
}
