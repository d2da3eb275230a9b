package h

import (
	"time"

	"verif/harness/nd"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func strp(s string) *string { return &s }
func num(n uint8) *uint8    { return &n }

// fullMsg is a message with every field set and two elements.
func fullMsg() *rfc5424.SyslogMessage {
	m := &rfc5424.SyslogMessage{Version: 3}
	m.ComputeFromPriority(78)
	t := time.Date(2001, 2, 3, 4, 5, 6, 7000, time.UTC)
	m.Timestamp = &t
	m.Hostname, m.Appname, m.ProcID, m.MsgID = strp("oldh"), strp("olda"), strp("oldp"), strp("oldm")
	m.Message = strp("old text")
	m.StructuredData = &map[string]map[string]string{"a": {"k": "v\"", "é": ""}, "bb": {}}
	return m
}

// header fields and their limits: hostname, app-name, procid, msgid.
var limits = []int{255, 48, 128, 32}

func setHeader(m *rfc5424.SyslogMessage, f int, v string) rfc5424.Builder {
	switch f {
	case 0:
		return m.SetHostname(v)
	case 1:
		return m.SetAppname(v)
	case 2:
		return m.SetProcID(v)
	}
	return m.SetMsgID(v)
}

func headerOf(m *rfc5424.SyslogMessage, f int) **string {
	switch f {
	case 0:
		return &m.Hostname
	case 1:
		return &m.Appname
	case 2:
		return &m.ProcID
	}
	return &m.MsgID
}

func allGraph(v string) bool {
	ok := true
	for i := 0; i < len(v); i++ {
		ok = nd.And(ok, nd.And(v[i] >= 33, v[i] <= 126))
	}
	return ok
}

func allName(v string) bool {
	ok := allGraph(v)
	for i := 0; i < len(v); i++ {
		ok = nd.And(ok, nd.And(nd.And(v[i] != '=', v[i] != ']'), v[i] != '"'))
	}
	return ok
}

func isName(v string) bool {
	if len(v) < 1 || len(v) > 32 {
		return false
	}
	return allName(v)
}

func isHeader(v string, f int) bool {
	if len(v) < 1 || len(v) > limits[f] {
		return false
	}
	return allGraph(v)
}

// paramValue tells whether v is an escaped parameter value and what it stands for.
func paramValue(v string) (string, bool) {
	var out []byte
	k := 0
	for i := 0; i < len(v); i++ {
		b := v[i]
		if k != 0 {
			if k = utf8Next(k, b); k < 0 {
				return "", false
			}
			out = append(out, b)
			continue
		}
		if b == '\\' {
			i++
			if i == len(v) {
				return "", false
			}
			b = v[i]
			if b != '"' && b != '\\' && b != ']' {
				return "", false
			}
			out = append(out, b)
			continue
		}
		if b == '"' || b == ']' {
			return "", false
		}
		if b >= 0x80 {
			if k = utf8Next(0, b); k < 0 {
				return "", false
			}
		}
		out = append(out, b)
	}
	return string(out), k == 0
}

func baseMsg() *rfc5424.SyslogMessage {
	if nd.Bool("full") {
		return fullMsg()
	}
	return &rfc5424.SyslogMessage{}
}

// names to lead up to the length limit
var longNames = []string{0: "", 1: "n", 2: rep("n", 30), 3: "k", 4: "a"}

// argument is an arbitrary argument: a beginning and up to n arbitrary bytes, or "fill" octets with n of
// them arbitrary.
func argument(pre string, n int) string {
	if k := nd.Bound("fill", 0); k > 0 {
		return string(tmpl{fill: "x", count: k}.bytes("value", n))
	}
	return string(nd.InputAfter("value", pre, n))
}

// C11Set applies one setter to a message.
func C11Set() {
	op := nd.Bound("op", 0)
	n := nd.Bound("n", 4)
	m := baseMsg()
	want := copyMsg(m).(*rfc5424.SyslogMessage)
	var b rfc5424.Builder
	switch {
	case op == 0:
		v := nd.Byte("priority")
		b = m.SetPriority(v)
		if v <= 191 {
			want.Priority, want.Facility, want.Severity = num(v), num(v>>3), num(v&7)
		}
	case op == 1:
		v := nd.U16("version")
		b = m.SetVersion(v)
		if v >= 1 && v <= 999 {
			want.Version = v
		}
	case op >= 2 && op <= 5:
		f := op - 2
		v := argument(rep("x", nd.Bound("pre", 0)), n)
		b = setHeader(m, f, v)
		if isHeader(v, f) && v != "-" {
			*headerOf(want, f) = &v
		}
	case op == 6:
		v := argument(longNames[nd.Bound("pre", 0)], n)
		b = m.SetElementID(v)
		if isName(v) {
			if want.StructuredData == nil {
				want.StructuredData = &map[string]map[string]string{}
			}
			if _, ok := (*want.StructuredData)[v]; !ok {
				(*want.StructuredData)[v] = map[string]string{}
			}
		}
	case op == 7:
		v := argument("", n)
		b = m.SetMessage(v)
		if v != "" {
			want.Message = &v
		}
	case op == 8:
		id, name, value := "a", "nn", "x"
		v := argument(longNames[nd.Bound("pre", 0)], n)
		switch nd.Bound("which", 0) {
		case 0:
			id = v
		case 1:
			name = v
		case 2:
			value = v
		}
		b = m.SetParameter(id, name, value)
		addParam(want, id, name, value)
	case op == 9:
		// two parameters, the first one of which may exist already
		x, y := string(nd.Input("name1", n)), string(nd.Input("name2", n))
		m.SetParameter("a", x, "1")
		addParam(want, "a", x, "1")
		b = m.SetParameter("a", y, "2")
		addParam(want, "a", y, "2")
	case op == 10:
		// the same name under two ids
		x, y := string(nd.Input("id1", n)), string(nd.Input("id2", n))
		m.SetParameter(x, "k", "1")
		addParam(want, x, "k", "1")
		b = m.SetParameter(y, "k", "2")
		addParam(want, y, "k", "2")
	case op == 11:
		// the same name twice with different values, the first of which may be invalid
		x, y := string(nd.Input("value1", n)), string(nd.Input("value2", n))
		m.SetParameter("a", "z", x)
		addParam(want, "a", "z", x)
		b = m.SetParameter("a", "z", y)
		addParam(want, "a", "z", y)
	case op == 12:
		c11Timestamp(m, want)
		return
	}
	nd.Reach("C11: set")
	nd.Assert(b == rfc5424.Builder(m), "C11: a setter returns its message")
	assertSame(m, want, "C11")
}

// setStamps lead into the parts of a timestamp.
var setStamps = []tmpl{
	0:  {pre: ""},
	1:  {pre: "2003-10-11"},
	2:  {pre: "2003-10-11T22:14:15"},
	3:  {pre: "2003-10-11T22:14:15.003"},
	4:  {pre: "2003-10-11T22:14:15-0"},
	5:  {suf: "-11T22:14:15.25+01:30", hole: true},
	6:  {pre: "20", suf: "T05:06:07.123456-08:00", hole: true},
	7:  {pre: "2004-02-29T", suf: ".5Z", hole: true},
	8:  {pre: "2004-02-29T23:59:59", suf: "", hole: true},
	9:  {pre: "1970-12-31T23:59:59", suf: "Z", hole: true},
	10: {pre: "1970-01-01T00:00:00.25", suf: "", hole: true},
}

// c11Timestamp sets a timestamp. What follows a complete timestamp is documented to be ignored in some
// cases (it is tested that it is), so a value with such a rest may be stored without it.
func c11Timestamp(m, want *rfc5424.SyslogMessage) {
	data := from(setStamps, nd.Bound("pre", 0), nd.Bound("n", 4), "value")
	s := &spec5424{data: data, st: sTS}
	done := -1 // end of the first complete timestamp
	for i := 0; i < len(data) && done < 0 && !s.dead; i++ {
		s.step(i, data[i])
		if s.st == sTSe {
			done = i + 1
		}
	}
	b := m.SetTimestamp(string(data))
	nd.Reach("C11: timestamp set")
	nd.Assert(b == rfc5424.Builder(m), "C11: a setter returns its message")
	if done >= 0 && !s.dead && realDate(s.year, s.month, s.day) {
		t := mkTime(s)
		if done == len(data) || m.Timestamp != nil && nd.SameTime(*m.Timestamp, t) {
			want.Timestamp = &t
			nd.Reach("C11: timestamp stored")
		}
	}
	assertSame(m, want, "C11")
}

func addParam(want *rfc5424.SyslogMessage, id, name, value string) {
	if !isName(id) {
		return
	}
	if want.StructuredData == nil {
		want.StructuredData = &map[string]map[string]string{}
	}
	params, ok := (*want.StructuredData)[id]
	if !ok {
		params = map[string]string{}
		(*want.StructuredData)[id] = params
	}
	if !isName(name) {
		return
	}
	if _, ok := params[name]; ok {
		return
	}
	if t, ok := paramValue(value); ok {
		params[name] = t
	}
}

func init() {
	Funcs["C11Set"] = C11Set
}
