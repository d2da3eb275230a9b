package h

import (
	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	Funcs["C18Parse5424"] = C18Parse5424
	Funcs["C18Parse3164"] = C18Parse3164
	Funcs["C18Build"] = C18Build
	Funcs["C18Mixed"] = C18Mixed
	Funcs["C18Stream"] = C18Stream
}

func C18Parse5424() { c18parse(tmpls, parsers5424) }
func C18Parse3164() { c18parse(tmpls3164, parsers3164) }

// c18parse: two parses at the same time, with one parser ("same") or with two.
func c18parse(ts []tmpl, mk func() (syslog.Machine, syslog.Machine)) {
	x := from(ts, nd.Bound("a", 0), nd.Bound("na", 1), "a")
	y := from(ts, nd.Bound("b", 0), nd.Bound("nb", 1), "b")
	p, fresh := mk()
	q := p
	if nd.Bound("same", 1) == 0 {
		q, fresh = fresh, nil
	}
	var m1, m2 syslog.Message
	var e1, e2 error
	nd.Concurrent(func() { m1, e1 = p.Parse(x) }, func() { m2, e2 = q.Parse(y) })
	nd.Reach("C18: both done")
	if fresh == nil {
		fresh = p // it has no more to do with the other one
	}
	m1, m2 = snap(m1), snap(m2)
	w1, f1 := fresh.Parse(x)
	w1 = snap(w1)
	w2, f2 := fresh.Parse(y)
	nd.Assert(nd.SameErr(e1, f1), "C18: the first parse gives the error it gives alone")
	nd.Assert(nd.SameErr(e2, f2), "C18: the second parse gives the error it gives alone")
	assertSame(m1, w1, "C18")
	assertSame(m2, w2, "C18")
}

// buildOp is one of the things done to a message.
func buildOp(m *rfc5424.SyslogMessage, op int, v string) {
	switch op {
	case 0, 1, 2, 3:
		setHeader(m, op, v)
	case 4:
		m.SetTimestamp("2003-10-11T22:14:1" + v + "Z")
	case 5:
		m.SetElementID(v)
	case 6:
		m.SetParameter("id", v, "val")
	case 7:
		m.SetParameter("id", "k", v)
	case 8:
		m.SetMessage(v)
	case 9:
		m.SetParameter(v, "k", "a\\]b")
	case 10:
		m.SetPriority(17)
	case 11:
		m.SetVersion(2)
	}
}

// C18Build: two messages are built at the same time.
func C18Build() {
	a, b := nd.Bound("a", 0), nd.Bound("b", 0)
	v, w := string(nd.Input("v", nd.Bound("n", 1))), string(nd.Input("w", nd.Bound("n", 1)))
	base := func() *rfc5424.SyslogMessage {
		m := &rfc5424.SyslogMessage{}
		m.SetPriority(1).SetVersion(1)
		return m
	}
	m1, m2, w1, w2 := base(), base(), base(), base()
	var s1, s2 string
	var e1, e2 error
	text := nd.Bound("text", 1) == 1
	nd.Concurrent(func() {
		buildOp(m1, a, v)
		if text {
			s1, e1 = m1.String()
		}
	}, func() {
		buildOp(m2, b, w)
		if text {
			s2, e2 = m2.String()
		}
	})
	nd.Reach("C18: both done")
	buildOp(w1, a, v)
	buildOp(w2, b, w)
	assertSame(m1, w1, "C18")
	assertSame(m2, w2, "C18")
	if text {
		t1, f1 := w1.String()
		t2, f2 := w2.String()
		nd.Assert(nd.And(nd.SameErr(e1, f1), nd.SameErr(e2, f2)), "C18: serialising gives the error it gives alone")
		nd.Assert(s1 == t1, "C18: the first text is the one it is alone")
		nd.Assert(s2 == t2, "C18: the second text is the one it is alone")
	}
}

// C18Mixed: a message is built while another is parsed.
func C18Mixed() {
	a := nd.Bound("a", 0)
	v := string(nd.Input("v", 1))
	y := from(tmpls, nd.Bound("b", 0), nd.Bound("nb", 1), "b")
	p, fresh := parsers5424()
	m1, w1 := &rfc5424.SyslogMessage{}, &rfc5424.SyslogMessage{}
	var m2 syslog.Message
	var e2 error
	if nd.Bound("swap", 0) == 0 {
		nd.Concurrent(func() { buildOp(m1, a, v) }, func() { m2, e2 = p.Parse(y) })
	} else {
		nd.Concurrent(func() { m2, e2 = p.Parse(y) }, func() { buildOp(m1, a, v) })
	}
	nd.Reach("C18: both done")
	m2 = snap(m2)
	buildOp(w1, a, v)
	w2, f2 := fresh.Parse(y)
	assertSame(m1, w1, "C18")
	assertSame(m2, w2, "C18")
	nd.Assert(nd.SameErr(e2, f2), "C18: parsing gives the error it gives alone")
}

// C18Stream: two streams are read at the same time by two parsers.
func C18Stream() {
	be := nd.Bool("bestEffort")
	var g1, g2, w1, w2 []*syslog.Result
	mk := func(kind int, to *[]*syslog.Result) syslog.Parser {
		opts := []syslog.ParserOption{syslog.WithListener(collect(to))}
		if be {
			opts = append(opts, syslog.WithBestEffort())
		}
		if kind == 0 {
			return octetcounting.NewParser(opts...)
		}
		return nontransparent.NewParser(append(opts, nontransparent.WithTrailer(nontransparent.TrailerType(kind-1)))...)
	}
	stream := func(kind, n int, name string) []byte {
		switch kind {
		case 0:
			return append(append([]byte("18 <1>1 - - - - - - "), nd.Bytes(name, n)...), "17 <2>1 - - - - - - "...)
		case 1:
			return append(append([]byte("<1>1 - - - - - - "), nd.Bytes(name, n)...), "\n<2>1 - - - - - - b\n<3>"...)
		}
		return append(append([]byte("<1>1 - - - - - - "), nd.Bytes(name, n)...), "\x00<2>1 - - - - - - b\x00<3>"...)
	}
	a, b := nd.Bound("a", 0), nd.Bound("b", 0)
	x, y := stream(a, nd.Bound("na", 1), "a"), stream(b, nd.Bound("nb", 1), "b")
	p, q := mk(a, &g1), mk(b, &g2)
	nd.Concurrent(func() { p.Parse(&source{data: x}) }, func() { q.Parse(&source{data: y}) })
	nd.Reach("C18: both done")
	g1, g2 = snaps(g1), snaps(g2)
	mk(a, &w1).Parse(&source{data: x})
	w1 = snaps(w1)
	mk(b, &w2).Parse(&source{data: y})
	sameResults(g1, w1)
	sameResults(g2, w2)
}

func sameResults(g, w []*syslog.Result) {
	nd.Assert(len(g) == len(w), "C18: as many results as alone")
	for i := 0; i < len(g) && i < len(w); i++ {
		nd.Assert(nd.SameErr(g[i].Error, w[i].Error), "C18: the errors it gives alone")
		assertSame(g[i].Message, w[i].Message, "C18")
	}
}
