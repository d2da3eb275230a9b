package h

import (
	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	Funcs["P5424"] = P5424
}

// tmpl is a concrete beginning of the input and, for inputs with a hole, a concrete end.
type tmpl struct {
	pre, suf string
	hole     bool // exactly n arbitrary bytes between pre and suf; otherwise up to n arbitrary bytes after pre
	// fill, if not empty, stands count times between pre and suf. Octets of it, at an arbitrary place, are
	// arbitrary bytes (mode 0), or it ends anywhere and nothing comes after it (mode 1).
	fill  string
	count int
	marks bool // every question mark in pre is an arbitrary byte
}

// head is the part of the input that is the same in every input of the template.
func (t tmpl) head() string {
	if t.marks {
		for i := range []byte(t.pre) {
			if t.pre[i] == '?' {
				return t.pre[:i]
			}
		}
	}
	return t.pre
}

// bytes is an input made of the template and arbitrary bytes.
func (t tmpl) bytes(name string, n int) []byte {
	if t.fill != "" {
		data := []byte(t.pre + rep(t.fill, t.count) + t.suf)
		size := len(t.fill) * t.count
		if nd.Bound("mode", 0) == 1 {
			return data[:len(t.pre)+nd.Int(name+".at", 0, size-1)]
		}
		w := nd.Bound("w", 1)
		copy(data[len(t.pre)+nd.Each(name+".at", size-w+1):], nd.Bytes(name, w))
		return data
	}
	if t.marks {
		data := []byte(t.pre)
		k := 0
		for _, c := range data {
			if c == '?' {
				k++
			}
		}
		in := nd.Bytes(name, k)
		k = 0
		for i, c := range []byte(t.pre) {
			if c == '?' {
				data[i] = in[k]
				k++
			}
		}
		return data
	}
	if t.hole {
		return append(append([]byte(t.pre), nd.Bytes(name, n)...), t.suf...)
	}
	return nd.InputAfter(name, t.pre, n)
}

func rep(c string, n int) string { return nd.Rep(c, n) }

// many is a row of numbered pieces.
func many(pre, suf string, n int) string {
	var r []byte
	for i := 0; i < n; i++ {
		r = append(append(append(r, pre...), '0'+byte(i/10), '0'+byte(i%10)), suf...)
	}
	return string(r)
}

// tmpls lead into the parts of a message.
var tmpls = []tmpl{
	0:  {pre: ""},
	1:  {pre: "<1>1 - - - - - "},
	2:  {pre: "<1>1 - - - - - - "},
	3:  {pre: "<1>1 - "},
	4:  {pre: "<165>1 2003-10-11T22:14:15.003Z mymachine.example.com evntslog - ID47 "},
	5:  {pre: "<1>1 "},
	6:  {pre: "<1>1 - " + rep("h", 253)},
	7:  {pre: "<1>1 - h " + rep("a", 46)},
	8:  {pre: "<1>1 - h a " + rep("p", 126)},
	9:  {pre: "<1>1 - h a p " + rep("m", 30)},
	10: {pre: "<1>1 - h a p m [" + rep("i", 30)},
	11: {pre: "<1>1 - h a p m [i " + rep("n", 30)},
	12: {pre: "<1>1 - h a p m [i n=\""},
	13: {pre: "<1>1 - h a p m [ab c=\"d\"]["},
	14: {pre: "<1>1 - - - - - - \xEF\xBB\xBF"},
	15: {pre: "<1>1 2003-10-11T22:14:15"},
	16: {pre: "<1>1 - h a p m [ab c=\"d\" c=\"", suf: "\" e=\"f\"][x] hi", hole: true},
	17: {pre: "<1>1 ", suf: "-11T22:14:15.25+01:30 h a p m - hi", hole: true},
	18: {pre: "<34>1 2012-", suf: "T05:06:07.123456-08:00 h a p m - hi", hole: true},
	19: {pre: "<", suf: " - h a p m [a b=\"c\"] hi", hole: true},
	20: {pre: "<1>1 - h a p m [", suf: "=\"v\"] x", hole: true},
	21: {pre: "<1>1 1985-04-12T19:20:50.", suf: " h a p m - \n", hole: true},
	22: {pre: "<1>1 - - - - - [a b=\"", suf: "\xC3\xA9\"]", hole: true},
	23: {pre: "<1>1 1999-12-31T23:59:59", suf: " h a - m [x y=\"z\"]", hole: true},
	24: {pre: "<1>1 - h a p m [a b=\"1\" c=\"2\"][d e=\"3\"][", suf: " g=\"4\"] m", hole: true},
	26: {pre: "<1>1 - ", suf: " x", hole: true},
	25: {pre: "<1>1 20", suf: "T23:59:59Z - - - - -", hole: true},
	28: {pre: "<1>1 2004-02-29T", suf: ".5Z - - - - - y", hole: true},
	27: {pre: "<1>1 - h a p m ", suf: " x", hole: true},
	// long ones
	51: {pre: "<1>1 - h a p m - " + rep("m", 9000)},
	52: {pre: "<1>1 - h a p m [a b=\"" + rep("v", 5000), suf: "\" c=\"d\"] x", hole: true},
	53: {pre: "<1>1 - h a p m " + many("[", "]", 60), suf: " x", hole: true},
	54: {pre: "<1>1 - h a p m [e" + many(" ", "=\"\\\"v\"", 60), suf: "v\"][f]", hole: true},
	55: {pre: "<1>1 ", suf: "-01-01T00:00:00Z h a p m - hi", hole: true},
	56: {pre: "<1>1 - h a p m [a b=\"" + rep("\\\"", 40), suf: "\" c=\"" + rep("\\]", 20) + "\"] x", hole: true},
	57: {pre: "<1>1 0001-01-01T00:00:00", suf: " - - - - -", hole: true},
	58: {pre: "<0>", suf: " 0000-01-01T00:00:00Z - - - - -", hole: true},
	59: {pre: "<1>1 - h a p m [a" + many(" n", "=\"\"", 20) + " x=\"", suf: "\"][b][c d=\"\"] \xEF\xBB\xBFx", hole: true},
	62: {pre: "<1>1 - h a p m - " + rep("m", 70000)},
	63: {pre: "<1>1 - h a p m [a b=\"" + rep("v", 70000), suf: "\" c=\"d\"] x", hole: true},
	// sweeps
	30: {pre: "<1>1 - ", fill: "h", count: 256, suf: " a p m - x"},
	31: {pre: "<1>1 - ", fill: "h", count: 255, suf: " a p m - x"},
	32: {pre: "<1>1 - h ", fill: "a", count: 49, suf: " p m - x"},
	33: {pre: "<1>1 - h ", fill: "a", count: 48, suf: " p m - x"},
	34: {pre: "<1>1 - h a ", fill: "p", count: 129, suf: " m - x"},
	35: {pre: "<1>1 - h a ", fill: "p", count: 128, suf: " m - x"},
	36: {pre: "<1>1 - h a p ", fill: "m", count: 33, suf: " - x"},
	37: {pre: "<1>1 - h a p ", fill: "m", count: 32, suf: " - x"},
	38: {pre: "<1>1 - h a p m [", fill: "i", count: 33, suf: " a=\"b\"] x"},
	39: {pre: "<1>1 - h a p m [", fill: "i", count: 32, suf: " a=\"b\"] x"},
	40: {pre: "<1>1 - h a p m [i ", fill: "n", count: 33, suf: "=\"b\"] x"},
	41: {pre: "<1>1 - h a p m [i ", fill: "n", count: 32, suf: "=\"b\"] x"},
	42: {pre: "<1>1 - h a p m [i a=\"b\" ", fill: "n", count: 32, suf: "=\"c\"][j d=\"e\"]"},
	43: {pre: "<1>1 - h a p m [i a=\"b\"][", fill: "j", count: 32, suf: "][k]"},
	44: {pre: "<1>1 - h a p m [i a=\"", fill: "v", count: 12, suf: "\"]"},
	45: {pre: "<1>1 - h a p m - ", fill: "m", count: 12},
	46: {pre: "<1>1 - h a p m - \xEF\xBB\xBF", fill: "\xE2\x82\xAC", count: 4},
	47: {pre: "<1>1 - h a p m [i a=\"", fill: "\xF0\x9D\x84\x9E\\\"", count: 2, suf: "\"] \n"},
	48: {pre: "<1>1 ", fill: "2003-10-11T22:14:15.003123+01:30", count: 1, suf: " h a p m -"},
	49: {pre: "", fill: "<165>123 2000-02-29T23:59:59Z h a p m [i n=\"v\"][j] m", count: 1},
	60: {pre: "<1>1 ", fill: "0001-01-01T00:00:00.000000Z", count: 1, suf: " - - - - -"},
	61: {pre: "<1>1 - h a p m [a b=\"", fill: "\\\\", count: 18, suf: "\"]"},
	50: {pre: "", fill: "<9>1 - - - - - - - -", count: 1},
	// arbitrary bytes at many places together
	70: {marks: true, pre: "<1?>1 - h? a? p? m? [i? n?=\"v?\"][j? o?=\"?\"] ?m?"},
	71: {marks: true, pre: "<?3>1 20?3-1?-1?T2?:1?:1?.?5+0?:?0 h? a p m? - x?"},
	72: {marks: true, pre: "<?>1? ? h a ?? ? ? ?"},
	73: {marks: true, pre: "<1>1 - - - - - [a? b?=\"\\?\" b?=\"?\"][a? c=\"?\"][a?] ?"},
	74: {marks: true, pre: "<19?>99? 2?00-02-29T23:59:5?Z " + rep("h", 254) + "? " + rep("a", 47) + "? p - - ?"},
	75: {marks: true, pre: "<8>1 2016-12-31T23:59:?0.??????Z h?h a " + rep("p", 127) + "? " + rep("m", 31) + "? [" + rep("s", 31) + "? " + rep("n", 31) + "?=\"?\"]?"},
	77: {marks: true, pre: "<1>1 - ?? ?? ?? ?? [?? ??=\"???\"] ???"},
	79: {marks: true, pre: "<1>1 - - - - - [?? ??=\"??\" ??=\"??\"][?? ??=\"\"][??] ??"},
	76: {marks: true, pre: "<0>1 ? - ? - ? [x y=\"?\\\"?\"] \xEF\xBB??\xC3?"},
}

func tmplInput() ([]byte, string) {
	t := tmpls[nd.Bound("prefix", 0)]
	return t.bytes("in", nd.Bound("n", 12)), t.head()
}

func opts5424(be, compliant bool) []syslog.MachineOption {
	var opts []syslog.MachineOption
	if be {
		opts = append(opts, rfc5424.WithBestEffort())
	}
	if compliant {
		opts = append(opts, rfc5424.WithCompliantMsg())
	}
	return opts
}

// P5424 parses an arbitrary input with arbitrary options and compares with the grammar.
func P5424() {
	be := nd.Bool("bestEffort")
	compliant := nd.Bool("compliantMsg")
	if o := nd.Bound("options", -1); o >= 0 {
		be, compliant = o&1 != 0, o&2 != 0
	}
	p := rfc5424.NewParser(opts5424(be, compliant)...)
	data, pre := tmplInput()
	s := &spec5424{compliant: compliant, stopSD: nd.Bound("sd", 1) == 0, data: data}
	nd.Track(data, s.step)
	nd.Feed(len(pre))
	msg, err := p.Parse(data)
	nd.Feed(len(data))
	nd.TrackEnd()
	ok := s.end(len(data))
	check5424(s, ok, data, be, msg, err)
}

func check5424(s *spec5424, ok bool, data []byte, be bool, msg syslog.Message, err error) {
	// outcome
	nd.Assert(nd.Or(msg != nil, err != nil), "C01: a message or an error is returned")
	nd.Assert(nd.Implies(nd.Not(be), nd.Or(msg == nil, err == nil)), "C01: without best effort an error comes without a message")
	nd.Assert((err == nil) == ok, "C02: accepted exactly when the grammar accepts")
	minimal := nd.And(s.havePrio, s.ver > 0)
	nd.Assert(nd.Implies(nd.And(be, err != nil), (msg != nil) == minimal), "C01: best-effort message present exactly when priority and version were read")
	if err != nil {
		text, col := nd.SplitCol(err.Error())
		if s.dead {
			nd.Assert(col == s.deadAt, "C05: column of the first impossible byte")
			if !s.sem {
				nd.Assert(text == s.fieldErr(), "C05: text of the field")
			}
		}
		nd.Reach("C05: errors")
		nd.Observe("err", err)
	}
	if msg == nil {
		return
	}
	nd.Assert(msg.Valid(), "C01: a returned message is valid")
	if err != nil {
		nd.Reach("C06: partial messages")
		fields5424(s, data, "C06", msg)
	} else if ok {
		nd.Reach("C02: accepted")
		fields5424(s, data, "C03", msg)
	}
}

// fields5424 compares a message with what was read. Those of accepted inputs belong to C03 and C04,
// partial ones to C06.
func fields5424(s *spec5424, data []byte, id string, msg syslog.Message) {
	sid := id
	if id == "C03" {
		sid = "C04"
	}
	m := msg.(*rfc5424.SyslogMessage)
	nd.Assert(*m.Priority == uint8(s.prio), id+": priority as written")
	nd.Assert(m.Version == uint16(s.ver), id+": version as written")
	nd.Assert(nd.And(*m.Facility == uint8(s.prio)>>3, *m.Severity == uint8(s.prio)&7), "C19: facility and severity of the parsed priority")
	checkTime(s, m, id)
	checkField(m.Hostname, &s.f[0], data, id+": hostname verbatim")
	checkField(m.Appname, &s.f[1], data, id+": app-name verbatim")
	checkField(m.ProcID, &s.f[2], data, id+": procid verbatim")
	checkField(m.MsgID, &s.f[3], data, id+": msgid verbatim")
	// message
	if s.st == sMsg {
		end := len(data)
		if s.dead {
			end = s.deadAt
		}
		nd.Assert((m.Message == nil) == (s.msgAt == end), id+": message present exactly when not empty")
		if m.Message != nil {
			nd.Assert(*m.Message == string(data[s.msgAt:end]), id+": message verbatim")
			nd.Observe("msg", *m.Message)
		}
	} else {
		nd.Assert(m.Message == nil, id+": no message")
	}
	checkSD(s, m, data, sid)
}

func checkTime(s *spec5424, m *rfc5424.SyslogMessage, id string) {
	nd.Assert((m.Timestamp != nil) == s.tsSet, id+": timestamp present exactly when written")
	if m.Timestamp == nil || !s.tsSet {
		return
	}
	nd.Assert(nd.SameTime(*m.Timestamp, mkTime(s)), id+": timestamp as written")
}

func checkField(p *string, f *field, data []byte, what string) {
	if !f.set {
		nd.Assert(p == nil, what+" (absent)")
		return
	}
	nd.Assert((p == nil) == f.dash, what+" (presence)")
	if p != nil {
		nd.Assert(*p == string(data[f.from:f.to]), what)
		nd.Observe("field", *p)
	}
}

// checkSD compares the structured data with what is written.
func checkSD(s *spec5424, m *rfc5424.SyslogMessage, data []byte, id string) {
	n := 0
	for _, e := range s.elems {
		if e.done {
			n++
		}
	}
	nd.Assert((m.StructuredData == nil) == (n == 0), id+": structured data present exactly when written")
	if m.StructuredData == nil || n == 0 {
		return
	}
	sd := *m.StructuredData
	nd.Assert(len(sd) == n, id+": as many elements as written")
	for _, e := range s.elems {
		if !e.done {
			continue
		}
		params, ok := sd[string(data[e.from:e.to])]
		nd.Assert(ok, id+": element present")
		if !ok {
			continue
		}
		distinct := 0
		for k, p := range e.params {
			last := true
			for _, q := range e.params[k+1:] {
				if sameBytes(data, p.n0, p.n1, q.n0, q.n1) {
					last = false
				}
			}
			if !last {
				continue
			}
			distinct++
			v, ok := params[string(data[p.n0:p.n1])]
			nd.Assert(ok, id+": parameter present")
			nd.Assert(v == s.value(p), id+": parameter value unescaped")
			nd.Observe("value", v)
		}
		nd.Assert(len(params) == distinct, id+": as many parameters as written")
	}
}

// P5424Pair parses the same input with and without best effort.
func P5424Pair() {
	compliant := nd.Bool("compliantMsg")
	p := rfc5424.NewParser(opts5424(false, compliant)...)
	q := rfc5424.NewParser(opts5424(true, compliant)...)
	nd.Assert(nd.And(nd.Not(p.HasBestEffort()), q.HasBestEffort()), "C06: the parser tells its mode")
	data, _ := tmplInput()
	m1, e1 := p.Parse(data)
	m2, e2 := q.Parse(data)
	nd.Assert(nd.SameErr(e1, e2), "C06: same error with and without best effort")
	if e1 != nil {
		nd.Reach("C06: errors")
		return
	}
	nd.Reach("C06: accepted")
	assertSame(m1, m2, "C06")
}
