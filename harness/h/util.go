package h

import (
	"time"

	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func mkTime(s *spec5424) time.Time {
	return nd.Civil(s.year, s.month, s.day, s.hour, s.min, s.sec, s.nanos(), s.offset())
}

func samePtr(a, b *string) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func sameNum(a, b *uint8) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func sameWhen(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return nd.SameTime(*a, *b)
}

// assertBase asserts that two messages agree in the fields both formats have.
func assertBase(a, b *syslog.Base, id string) {
	nd.Assert(sameNum(a.Priority, b.Priority), id+": same priority")
	nd.Assert(nd.And(sameNum(a.Facility, b.Facility), sameNum(a.Severity, b.Severity)), id+": same facility and severity")
	nd.Assert(sameWhen(a.Timestamp, b.Timestamp), id+": same timestamp")
	nd.Assert(samePtr(a.Hostname, b.Hostname), id+": same hostname")
	nd.Assert(samePtr(a.Appname, b.Appname), id+": same app-name")
	nd.Assert(samePtr(a.ProcID, b.ProcID), id+": same procid")
	nd.Assert(samePtr(a.MsgID, b.MsgID), id+": same msgid")
	nd.Assert(samePtr(a.Message, b.Message), id+": same message text")
}

// assertSame asserts that two messages are equal.
func assertSame(x, y syslog.Message, id string) {
	nd.Assert((x == nil) == (y == nil), id+": a message in both cases or in none")
	if x == nil || y == nil {
		return
	}
	switch a := x.(type) {
	case *rfc5424.SyslogMessage:
		b, ok := y.(*rfc5424.SyslogMessage)
		nd.Assert(ok, id+": same kind of message")
		if ok {
			nd.Assert(a.Version == b.Version, id+": same version")
			assertBase(&a.Base, &b.Base, id)
			assertSD(a.StructuredData, b.StructuredData, id)
		}
	case *rfc3164.SyslogMessage:
		b, ok := y.(*rfc3164.SyslogMessage)
		nd.Assert(ok, id+": same kind of message")
		if ok {
			assertBase(&a.Base, &b.Base, id)
		}
	}
}

func assertSD(x, y *map[string]map[string]string, id string) {
	nd.Assert((x == nil) == (y == nil), id+": structured data in both cases or in none")
	if x == nil || y == nil {
		return
	}
	nd.Assert(len(*x) == len(*y), id+": as many elements")
	for k, p := range *x {
		q, ok := (*y)[k]
		nd.Assert(ok, id+": same elements")
		nd.Assert(len(p) == len(q), id+": as many parameters")
		for n, v := range p {
			w, ok := q[n]
			nd.Assert(ok, id+": same parameters")
			nd.Assert(v == w, id+": same parameter values")
		}
	}
}
