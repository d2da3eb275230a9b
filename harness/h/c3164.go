package h

import (
	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
)

// tmpls3164 lead into the parts of a message.
var tmpls3164 = []tmpl{
	0:  {pre: ""},
	1:  {pre: "<1>"},
	2:  {pre: "<1>Oct"},
	3:  {pre: "<1>Oct 11 22:14:15 "},
	4:  {pre: "<1>Oct 11 22:14:15 h "},
	5:  {pre: "<1>Oct 11 22:14:15 h " + rep("t", 30)},
	6:  {pre: "<1>Oct 11 22:14:15 " + rep("h", 253)},
	7:  {pre: "<1>Oct 11 22:14:15 h tag["},
	8:  {pre: "<1>Oct 11 22:14:15 h su[1]: "},
	9:  {pre: "<191>Dec  1 00:00:00 mymachine ab[1"},
	10: {pre: "<1>2003-10-11T22:14:15"},
	11: {pre: "<1>2003-10-11T22:14:15-08:00 "},
	12: {pre: "<", suf: ">Oct 11 22:14:15 h su: x", hole: true},
	13: {pre: "<1>", suf: " 22:14:15 h su: x", hole: true},
	14: {pre: "<1>Feb ", suf: " h su: x", hole: true},
	15: {pre: "<1>20", suf: "T23:59:59Z h su: x", hole: true},
	16: {pre: "<1>2004-02-29T", suf: "+01:30 h m", hole: true},
	17: {pre: "<1>1999-12-31T23:59:59", suf: " h a[b]: c", hole: true},
	18: {pre: "<1>Jan 31 23:59:59 h ", suf: ": x", hole: true},
	19: {pre: "<1>Jan 31 23:59:59 h ", suf: "]: x\xC3\xA9", hole: true},
	21: {pre: "<1>Jan 31 23:59:59 h a[b]: " + rep("m", 9000)},
	22: {pre: "<1>Jan 31 23:59:59 h a[" + rep("c", 2000), suf: "]: x", hole: true},
	23: {pre: "<1>Jan 31 23:59:59 h a[b]: " + rep("m", 70000)},
	// sweeps
	30: {pre: "<1>Jan 31 23:59:59 ", fill: "h", count: 256, suf: " a: x"},
	31: {pre: "<1>Jan 31 23:59:59 ", fill: "h", count: 255, suf: " a[b]: x"},
	32: {pre: "<1>Jan 31 23:59:59 h ", fill: "a", count: 33, suf: ": x"},
	33: {pre: "<1>Jan 31 23:59:59 h ", fill: "a", count: 32, suf: "[c]: x"},
	34: {pre: "<1>Jan 31 23:59:59 h a[", fill: "c", count: 20, suf: "]: x"},
	35: {pre: "<1>Jan 31 23:59:59 h a: ", fill: "m", count: 12},
	36: {pre: "", fill: "<191>Feb 29 23:59:59 host app[pid]: text", count: 1},
	37: {pre: "", fill: "<13>2003-10-11T22:14:15-01:30 host app[pid]: text", count: 1},
	38: {pre: "<1>Jan 31 23:59:59 h ", fill: "x y[z] ", count: 3},
	40: {marks: true, pre: "<1?>Jan ?1 2?:5?:59 h?h a?a[?b]? ?x?"},
	41: {marks: true, pre: "<?>?eb ?9 0?:00:0? h ?: ?"},
	42: {marks: true, pre: "<18?>20?0-0?-2?T?3:5?:5?-0?:?0 h? a[?]: ?"},
	44: {marks: true, pre: "<1>Oct 11 22:14:15 ??? ???????: ??"},
	45: {marks: true, pre: "<1>Oct 11 22:14:15 ?? ??[??]:?? ??"},
	46: {marks: true, pre: "<???>??? ?? ??:??:?? h a: x"},
	47: {marks: true, pre: "<1>????-??-??T??:??:???????? h a: x"},
	43: {marks: true, pre: "<9>Dec  ? 23:59:60 " + rep("h", 254) + "? " + rep("a", 31) + "?[" + rep("c", 20) + "?]?? ?"},
	20: {pre: "<1>Jan 31 23:59:59 h a[" + rep("c", 40), suf: " z", hole: true},
}

func tmplInput3164() ([]byte, string) {
	t := tmpls3164[nd.Bound("prefix", 0)]
	return t.bytes("in", nd.Bound("n", 8)), t.head()
}

// P3164 parses an arbitrary input with and without best effort and RFC 3339 timestamps and compares with
// the grammar.
func P3164() {
	be := nd.Bool("bestEffort")
	iso := nd.Bool("rfc3339")
	var opts []syslog.MachineOption
	if be {
		opts = append(opts, rfc3164.WithBestEffort())
	}
	if iso {
		opts = append(opts, rfc3164.WithRFC3339())
	}
	p := rfc3164.NewParser(opts...)
	nd.Assert(p.HasBestEffort() == be, "C08: the parser tells its mode")
	data, pre := tmplInput3164()
	s := &spec3164{rfc3339: iso, data: data}
	nd.Track(data, s.step)
	nd.Feed(len(pre))
	msg, err := p.Parse(data)
	nd.Feed(len(data))
	nd.TrackEnd()
	ok := s.end(len(data))

	nd.Assert(nd.Or(msg != nil, err != nil), "C08: a message or an error is returned")
	nd.Assert(nd.Implies(nd.Not(be), nd.Or(msg == nil, err == nil)), "C08: without best effort an error comes without a message")
	nd.Assert((err == nil) == ok, "C09: accepted exactly when the grammar accepts")
	nd.Assert(nd.Implies(nd.And(be, err != nil), (msg != nil) == s.havePrio), "C08: best-effort message present exactly when a priority was read")
	if err != nil {
		_, col := nd.SplitCol(err.Error())
		if s.dead {
			nd.Assert(col == s.deadAt, "C08: column of the first impossible byte")
		}
		nd.Reach("C08: errors")
		nd.Observe("err", err)
	}
	if msg == nil {
		return
	}
	nd.Assert(msg.Valid(), "C08: a returned message is valid")
	id := "C09"
	if err != nil {
		nd.Reach("C08: partial messages")
		id = "C08"
	} else if !ok {
		return
	} else {
		nd.Reach("C09: accepted")
	}
	fields3164(s, data, id, msg)
}

func fields3164(s *spec3164, data []byte, id string, msg syslog.Message) {
	m := msg.(*rfc3164.SyslogMessage)
	nd.Assert(*m.Priority == uint8(s.prio), id+": priority as written")
	nd.Assert(nd.And(*m.Facility == uint8(s.prio)>>3, *m.Severity == uint8(s.prio)&7), "C19: facility and severity of the parsed priority")
	nd.Assert((m.Timestamp != nil) == s.tsSet, id+": timestamp present exactly when written")
	if m.Timestamp != nil && s.tsSet {
		o := (s.offH*60 + s.offM) * 60
		want := nd.Civil(s.year, s.month, s.day, s.hour, s.min, s.sec, 0, nd.Ite(s.neg, -o, o))
		nd.Assert(nd.SameTime(*m.Timestamp, want), id+": timestamp as written")
		if id == "C09" {
			nd.Assert(nd.SameTime(*m.Timestamp, want), "C10: timestamp as written when no year or timezone is configured")
		}
	}
	checkField(m.Hostname, &s.host, data, id+": hostname verbatim")
	nd.Assert(m.MsgID == nil, id+": no msgid")
	end := len(data)
	if s.tagged {
		checkField(m.Appname, &s.tag, data, id+": tag verbatim")
		checkField(m.ProcID, &s.content, data, id+": content verbatim")
		nd.Reach("C09: tagged")
	} else {
		nd.Assert(nd.And(m.Appname == nil, m.ProcID == nil), id+": no tag")
	}
	if s.dead || s.st <= rMsg0 {
		nd.Assert(m.Message == nil, id+": no message text in a partial message")
		return
	}
	from := s.msgAt
	if s.tagged {
		from = s.bodyAt
	}
	nd.Assert(m.Message != nil, "C09: message present")
	if m.Message != nil {
		nd.Assert(*m.Message == string(data[from:end]), "C09: message verbatim")
		nd.Observe("msg", *m.Message)
	}
}
