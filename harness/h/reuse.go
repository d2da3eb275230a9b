package h

import (
	"time"

	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// clone shares no memory with s, not even when s was made by unsafe means.
func clone(s string) string { return string([]byte(s)) }

func copyStr(p *string) *string {
	if p == nil {
		return nil
	}
	s := clone(*p)
	return &s
}

func copyNum(p *uint8) *uint8 {
	if p == nil {
		return nil
	}
	n := *p
	return &n
}

func copyTime(p *time.Time) *time.Time {
	if p == nil {
		return nil
	}
	t := *p
	return &t
}

func copyBase(b *syslog.Base) syslog.Base {
	return syslog.Base{
		Facility: copyNum(b.Facility), Severity: copyNum(b.Severity), Priority: copyNum(b.Priority),
		Timestamp: copyTime(b.Timestamp), Hostname: copyStr(b.Hostname), Appname: copyStr(b.Appname),
		ProcID: copyStr(b.ProcID), MsgID: copyStr(b.MsgID), Message: copyStr(b.Message),
	}
}

// copyMsg is a deep copy of a message.
func copyMsg(m syslog.Message) syslog.Message {
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		y := &rfc5424.SyslogMessage{Base: copyBase(&x.Base), Version: x.Version}
		if x.StructuredData != nil {
			sd := map[string]map[string]string{}
			for k, p := range *x.StructuredData {
				q := map[string]string{}
				for n, v := range p {
					q[clone(n)] = clone(v)
				}
				sd[clone(k)] = q
			}
			y.StructuredData = &sd
		}
		return y
	case *rfc3164.SyslogMessage:
		return &rfc3164.SyslogMessage{Base: copyBase(&x.Base)}
	}
	return nil
}

// snap is the message as it is now: what happens to its memory later (another message written there) does not
// reach the copy. Texts and the maps of the structured data are shared.
func snap(m syslog.Message) syslog.Message {
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		if x == nil {
			return m
		}
		y := &rfc5424.SyslogMessage{Base: snapBase(&x.Base), Version: x.Version}
		if x.StructuredData != nil {
			sd := *x.StructuredData
			y.StructuredData = &sd
		}
		return y
	case *rfc3164.SyslogMessage:
		if x == nil {
			return m
		}
		return &rfc3164.SyslogMessage{Base: snapBase(&x.Base)}
	}
	return m
}

func snapStr(p *string) *string {
	if p == nil {
		return nil
	}
	s := *p
	return &s
}

func snapBase(b *syslog.Base) syslog.Base {
	return syslog.Base{
		Facility: copyNum(b.Facility), Severity: copyNum(b.Severity), Priority: copyNum(b.Priority),
		Timestamp: copyTime(b.Timestamp), Hostname: snapStr(b.Hostname), Appname: snapStr(b.Appname),
		ProcID: snapStr(b.ProcID), MsgID: snapStr(b.MsgID), Message: snapStr(b.Message),
	}
}

// snaps are the results as they are now.
func snaps(rs []*syslog.Result) []*syslog.Result {
	out := make([]*syslog.Result, 0, 8)
	for _, r := range rs {
		if r == nil {
			out = append(out, nil)
			continue
		}
		out = append(out, &syslog.Result{Message: snap(r.Message), Error: r.Error})
	}
	return out
}

// from is an input made of a template and arbitrary bytes.
func from(ts []tmpl, t, n int, name string) []byte {
	return ts[t].bytes(name, n)
}

func parsers5424() (syslog.Machine, syslog.Machine) {
	be := nd.Bool("bestEffort")
	compliant := nd.Bool("compliantMsg")
	return rfc5424.NewParser(opts5424(be, compliant)...), rfc5424.NewParser(opts5424(be, compliant)...)
}

func parsers3164() (syslog.Machine, syslog.Machine) {
	be := nd.Bool("bestEffort")
	iso := nd.Bool("rfc3339")
	year := nd.Bool("year")
	opts := func() []syslog.MachineOption {
		var o []syslog.MachineOption
		if be {
			o = append(o, rfc3164.WithBestEffort())
		}
		if iso {
			o = append(o, rfc3164.WithRFC3339())
		}
		if year {
			o = append(o, rfc3164.WithYear(rfc3164.Year{YYYY: 2019}))
		}
		return o
	}
	return rfc3164.NewParser(opts()...), rfc3164.NewParser(opts()...)
}

// Reuse5424 and Reuse3164 parse one arbitrary input after another.
func Reuse5424() {
	used, fresh := parsers5424()
	reuse(used, fresh, tmpls)
}

func Reuse3164() {
	used, fresh := parsers3164()
	reuse(used, fresh, tmpls3164)
}

// scribble writes into everything a message gives access to: the message is its owner's.
func scribble(m syslog.Message) {
	switch x := m.(type) {
	case *rfc5424.SyslogMessage:
		if x == nil {
			return
		}
		if x.StructuredData != nil {
			for id, params := range *x.StructuredData {
				x.SetParameter(id, "zz", "zz")
				if params != nil {
					params["yy"] = "yy"
				}
			}
			x.SetElementID("xx").SetParameter("xx", "ww", "ww")
		}
		x.Version = 7
		scribbleBase(&x.Base)
		x.SetPriority(99).SetHostname("vv").SetAppname("vv").SetProcID("vv").SetMsgID("vv").SetMessage("vv").SetTimestamp("1999-12-31T23:59:59Z")
	case *rfc3164.SyslogMessage:
		if x != nil {
			scribbleBase(&x.Base)
		}
	}
}

func scribbleBase(b *syslog.Base) {
	for _, p := range []*uint8{b.Priority, b.Facility, b.Severity} {
		if p != nil {
			*p = 5
		}
	}
	for _, p := range []*string{b.Hostname, b.Appname, b.ProcID, b.MsgID, b.Message} {
		if p != nil {
			*p = "uu"
		}
	}
	if b.Timestamp != nil {
		*b.Timestamp = time.Date(1977, 7, 7, 7, 7, 7, 0, time.UTC)
	}
}

// inputs parsed before and between
var earlier5424 = []string{
	"<165>3 2003-10-11T22:14:15.003Z h a p m [x y=\"z\"][i] hi",
	"<1>1 - - - - - [a b=\"\\\"\\\"c\" c=\"",
	"<14>999 2016-02-29T23:59:59.123456-08:00 host app 123 id [e f=\"\\]\" g=\"\"][e",
	"<1>1 - - - - - -",
	"<191>1 - h a p m [ab",
	"<1>1 - - - - - - \xEF\xBB\xBF\xE2\x82",
	"<",
	"<1>1 2003-13-11T22:14:15Z - - - - -",
	"<1>2",
	"<34>1 - - - - - [a][b c=\"d\"][a] x",
}

var earlier3164 = []string{
	"<165>Oct 11 22:14:15 h app[12]: hi",
	"<1>Feb 29 00:00:00 host tag: text",
	"<14>2016-02-28T23:59:59-08:00 host app[12",
	"<1>Jan  1 00:00:00 h just text",
	"<191>Dec 31 23:59:59 ",
	"<1>Feb 31 00:00:00 h x",
	"<",
	"<13>Nov 11 11:11:11 h app:",
	"",
}

// earlier parses concrete inputs, from the kth on, and writes into what they give.
func earlier(m syslog.Machine, ts []tmpl, from, n int) {
	in := earlier5424
	if len(ts) == len(tmpls3164) {
		in = earlier3164
	}
	for i := 0; i < n; i++ {
		r, _ := m.Parse([]byte(in[(from+i)%len(in)]))
		scribble(r)
	}
}

// reuse parses an input with a parser that has been used, and with a fresh one afterwards or, where
// "first" is set, before everything else (so that what parsers share shows).
func reuse(used, fresh syslog.Machine, ts []tmpl) {
	first := nd.Bound("first", 0) == 1
	var b, c []byte
	var m3 syslog.Message
	var e3 error
	if first {
		b = from(ts, nd.Bound("b", 0), nd.Bound("nb", 3), "b")
		c = append([]byte(nil), b...)
		m3, e3 = fresh.Parse(c)
		m3 = copyMsg(m3)
	}
	earlier(used, ts, nd.Bound("from", 0), nd.Bound("warm", 0))
	m1, _ := used.Parse(from(ts, nd.Bound("a", 0), nd.Bound("na", 3), "a"))
	if nd.Bound("scribble", 0) == 1 {
		scribble(m1)
	}
	earlier(used, ts, nd.Bound("from", 0), nd.Bound("between", 0))
	if !first {
		b = from(ts, nd.Bound("b", 0), nd.Bound("nb", 3), "b")
		c = append([]byte(nil), b...)
	}
	m2, e2 := used.Parse(b)
	if !first {
		m3, e3 = fresh.Parse(c)
	}
	nd.Reach("C07: both parsed")
	nd.Assert(nd.SameErr(e2, e3), "C07: same error from a used and a fresh parser")
	assertSame(m2, m3, "C07")
}

// Keep5424 and Keep3164 overwrite the input of a parse and use the parser again.
func Keep5424() { keep(parsers5424, tmpls) }
func Keep3164() { keep(parsers3164, tmpls3164) }

func keep(mk func() (syslog.Machine, syslog.Machine), ts []tmpl) {
	used, other := mk()
	earlier(used, ts, nd.Bound("from", 0), nd.Bound("warm", 0))
	a := from(ts, nd.Bound("a", 0), nd.Bound("na", 3), "a")
	was := string(a)
	m1, e1 := used.Parse(a)
	nd.Assert(string(a) == was, "C07: the input is not modified")
	kept := copyMsg(m1)
	var text string
	if e1 != nil {
		text = e1.Error()
	}
	for i := range a {
		a[i] = '#'
	}
	used.Parse([]byte(ts[nd.Bound("b", 0)].pre + "\\x" + ts[nd.Bound("b", 0)].suf))
	earlier(used, ts, nd.Bound("from", 0), nd.Bound("after", 0))
	earlier(other, ts, nd.Bound("from", 0), nd.Bound("other", 0))
	if m1 != nil {
		nd.Reach("C07: first message")
		assertSame(m1, kept, "C07: message unchanged")
	}
	if e1 != nil {
		nd.Assert(e1.Error() == text, "C07: error unchanged")
	}
}
