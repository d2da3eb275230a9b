package h

import (
	"strings"

	"verif/harness/nd"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	Funcs["C12Parse"] = C12Parse
	Funcs["C12Build"] = C12Build
	Funcs["C13Valid"] = C13Valid
	Funcs["C13Order"] = C13Order
}

// C12Parse parses an arbitrary input, serialises the message and parses the text again.
func C12Parse() {
	compliant := nd.Bool("compliantMsg")
	data, _ := tmplInput()
	m1, err := rfc5424.NewParser(opts5424(false, compliant)...).Parse(data)
	if err != nil || m1 == nil {
		return
	}
	m := m1.(*rfc5424.SyslogMessage)
	want := *m
	if nd.Bound("what", 0) == 9 { // no elements at all
		m.StructuredData = &map[string]map[string]string{}
		want.StructuredData = nil
	}
	text, err := m.String()
	nd.Reach("C12: serialised")
	nd.Assert(err == nil, "C12: an accepted message serialises")
	m2, err := rfc5424.NewParser(opts5424(false, compliant)...).Parse([]byte(text))
	nd.Assert(err == nil, "C12: the text of a parsed message is accepted")
	assertSame(m1, m2, "C12")
}

// C12Build serialises a message that was built and parses the text.
func C12Build() {
	n := nd.Bound("n", 3)
	k := nd.Bound("what", 0)
	m := &rfc5424.SyslogMessage{}
	m.SetPriority(165).SetVersion(42)
	switch k {
	case 7:
		m.SetPriority(nd.Byte("priority"))
	case 8:
		m.SetVersion(nd.U16("version"))
	case 0: // any fields are absent, one is arbitrary
		f := nd.Bound("field", 0)
		for i := 0; i < 4; i++ {
			if i == f {
				setHeader(m, i, string(nd.Input("value", n)))
			} else if nd.Bool("set") {
				setHeader(m, i, "fld")
			}
		}
		if nd.Bool("set") {
			m.SetMessage("some text")
		}
	case 1:
		m.SetMessage(string(nd.Input("value", n)))
		if nd.Bool("set") {
			m.SetParameter("e", "k", "v")
		}
	case 2: // a parameter with an arbitrary part
		m.SetParameter(string(nd.Input("id", nd.Bound("ni", 0))), "k", "v")
		m.SetParameter("e", "k", "v")
		m.SetParameter("e", string(nd.Input("name", nd.Bound("nn", 0))), "w")
		m.SetParameter("e", "l", string(nd.Input("value", n)))
		if nd.Bool("set") {
			m.SetMessage("some text")
		}
	case 3: // a parameter value given unescaped: anything that is UTF-8
		v := string(nd.Input("value", n))
		u := 0
		for i := 0; i < len(v); i++ {
			if u = utf8Next(u, v[i]); u < 0 {
				return
			}
		}
		if u != 0 {
			return
		}
		m.StructuredData = &map[string]map[string]string{"id": {"k": v, "l": "\"]\\é"}}
	case 4:
		m.SetTimestamp(string(from(setStamps, nd.Bound("pre", 0), n, "value")))
		if m.Timestamp == nil {
			return
		}
	case 5: // a timestamp given as such
		v := []int{1970, 12, 31, 23, 59, 59, 0, 0}
		switch nd.Bound("part", 0) {
		case 0:
			v[0], v[1], v[2] = nd.Int("century", 0, 99)*100+nd.Int("year", 0, 99), nd.Int("month", 1, 12), nd.Int("day", 1, 28)
		case 1:
			v[3], v[4], v[5] = nd.Int("hour", 0, 23), nd.Int("min", 0, 59), nd.Int("sec", 0, 59)
		case 2:
			for i := 0; i < nd.Bound("digits", 3); i++ {
				v[6] = v[6]*10 + nd.Int("digit", 0, 9)
			}
			v[6] *= 1000 * nd.Bound("unit", 1)
		case 3:
			v[7] = (nd.Int("offh", 0, 23)*60 + nd.Int("offm", 0, 59)) * 60
			if nd.Bool("west") {
				v[7] = -v[7]
			}
		}
		t := nd.Civil(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])
		m.Timestamp = &t
	case 9: // no elements
		for i := 0; i < 4; i++ {
			if nd.Bool("set") {
				setHeader(m, i, "fld")
			}
		}
		if nd.Bool("set") {
			m.SetMessage(string(nd.Input("value", n)))
		}
	case 6: // elements without parameters
		m.SetElementID(string(nd.Input("id", n)))
		m.SetElementID("x")
		m.SetElementID(string(nd.Input("id", 1)))
	}
	want := *m
	if nd.Bound("what", 0) == 9 { // no elements at all
		m.StructuredData = &map[string]map[string]string{}
		want.StructuredData = nil
	}
	text, err := m.String()
	nd.Reach("C12: serialised")
	nd.Assert(err == nil, "C12: a valid message serialises")
	got, err := rfc5424.NewParser().Parse([]byte(text))
	nd.Assert(err == nil, "C12: the text of a built message is accepted")
	assertSame(got, &want, "C12")
}

// C13Valid serialises messages with an arbitrary priority and version, present or not.
func C13Valid() {
	m := baseMsg()
	m.Priority, m.Version = nil, 0
	have := nd.Bool("havePriority")
	p := nd.Byte("priority")
	if have {
		if nd.Bool("compute") {
			m.ComputeFromPriority(p)
		} else {
			m.Priority = &p
		}
	}
	v := nd.U16("version")
	m.Version = v
	ok := nd.And(nd.And(have, p <= 191), nd.And(v >= 1, v <= 999))
	nd.Assert(m.Valid() == ok, "C13: valid exactly with a priority of 0-191 and a version of 1-999")
	nd.Assert(m.Base.Valid() == nd.And(have, p <= 191), "C13: the fields shared by the formats are valid exactly with a priority of 0-191")
	text, err := m.String()
	nd.Reach("C13: serialised")
	nd.Assert((err == nil) == ok, "C13: a message serialises exactly when it is valid")
	if err != nil {
		nd.Assert(text == "", "C13: no text with an error")
	}
}

// C13Order builds the same structured data in two orders and serialises it, under every iteration order
// of the maps.
func C13Order() {
	a, b := nd.Byte("a"), nd.Byte("b")
	nd.Assume(nd.And(sdNameByte(a), sdNameByte(b)))
	nd.Assume(a < b)
	// with a long beginning in common
	pre := strings.Repeat("p", nd.Bound("common", 0))
	x, y := pre+string([]byte{a}), pre+string([]byte{b})
	mk := func() *rfc5424.SyslogMessage {
		m := &rfc5424.SyslogMessage{}
		m.SetPriority(1)
		m.SetVersion(1)
		return m
	}
	m, n := mk(), mk()
	var want string
	switch nd.Bound("what", 0) {
	case 0:
		m.SetParameter("e", x, "1").SetParameter("e", y, "2")
		n.SetParameter("e", y, "2").SetParameter("e", x, "1")
		want = "[e " + x + "=\"1\" " + y + "=\"2\"]"
	case 1:
		m.SetParameter(x, "p", "1").SetParameter(y, "p", "2")
		n.SetParameter(y, "p", "2").SetParameter(x, "p", "1")
		want = "[" + x + " p=\"1\"][" + y + " p=\"2\"]"
	case 2:
		m.SetElementID(x).SetElementID(y).SetParameter(x, pre+"q", "").SetParameter(x, pre+"Q", "")
		n.SetParameter(x, pre+"Q", "").SetElementID(y).SetParameter(x, pre+"q", "")
		want = "[" + x + " " + pre + "Q=\"\" " + pre + "q=\"\"][" + y + "]"
	case 3:
		m.SetElementID(x).SetElementID(y).SetElementID(x + "0")
		n.SetElementID(x + "0").SetElementID(y).SetElementID(x)
		want = "[" + x + "][" + x + "0][" + y + "]"
	case 4:
		m.SetParameter("e", x, "1").SetParameter("e", y, "2").SetParameter("e", x+"a", "3")
		n.SetParameter("e", x+"a", "3").SetParameter("e", x, "1").SetParameter("e", y, "2")
		want = "[e " + x + "=\"1\" " + x + "a=\"3\" " + y + "=\"2\"]"
	case 5, 6:
		// many, with one name of arbitrary first byte among them
		names := make([]string, 0, 40)
		for i := 0; i < nd.Bound("many", 14); i++ {
			names = append(names, string([]byte{'C' + byte(i%13)*2, '0' + byte(i/13)}))
		}
		nd.Assume(nd.Or(b < 'C', b > 'C'+24))
		set := func(m *rfc5424.SyslogMessage, name string) {
			if nd.Bound("what", 0) == 5 {
				m.SetParameter("e", name, "v")
			} else {
				m.SetParameter(name, "n", "v")
			}
		}
		for i := range names {
			set(m, names[i])
			set(n, names[len(names)-1-i])
		}
		set(m, y)
		set(n, y)
		// in the order of the bytes
		one := func(name string) string {
			if nd.Bound("what", 0) == 5 {
				return " " + name + "=\"v\""
			}
			return "[" + name + " n=\"v\"]"
		}
		rest := ""
		for c := 0; c < 13; c++ {
			for i := c; i < len(names); i += 13 {
				rest += one(names[i])
			}
		}
		if b < 'C' {
			want = one(y) + rest
		} else {
			want = rest + one(y)
		}
		if nd.Bound("what", 0) == 5 {
			want = "[e" + want + "]"
		}
	}
	s, err := m.String()
	nd.Assert(err == nil, "C13: serialises")
	t, err := n.String()
	nd.Assert(err == nil, "C13: serialises")
	u, _ := m.String()
	nd.Reach("C13: sorted")
	nd.Assert(s == t, "C13: the order of setting does not matter")
	nd.Assert(s == u, "C13: the same text every time")
	nd.Assert(s == "<1>1 - - - - - "+want, "C13: elements and parameters are sorted")
}
