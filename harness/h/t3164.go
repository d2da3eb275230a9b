package h

import (
	"time"

	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
)

// offsets of the time zones tried, in seconds; 0 is time.UTC, 1 a location with daylight saving.
var zones = []int{0, 7200, -19800, 46800, -37800, 1}

// location is one of the locations; nil when none is configured.
func location(k int) *time.Location {
	if k == 0 {
		return nil
	}
	if zones[k-1] == 0 {
		return time.UTC
	}
	if zones[k-1] == 1 {
		return nd.Seasonal()
	}
	return time.FixedZone("zone", zones[k-1])
}

// stamps are inputs whose timestamp is arbitrary.
var stamps = []tmpl{
	{pre: "<1>", suf: " h su[1]: x"},                   // all of "Mmm dd hh:mm:ss"
	{pre: "<1>", suf: " h su[1]: x"},                   // all of "YYYY-MM-DDThh:mm:ssZ"
	{pre: "<1>2003-12-31T", suf: "5:30 h su[1]: x"},    // time and part of the offset
	{pre: "<1>", suf: "-11T22:14:15-08:00 h su[1]: x"}, // year and month
	{pre: "<1>Feb 2", suf: " h su[1]: x"},              // around the leap day
	{pre: "<1>", suf: " 23:59:59 h su[1]: x"},
}
var stampLen = []int{15, 20, 11, 7, 10, 6}

// pinned is a choice that the bounds of the exploration may fix.
func pinned(name string, n int) int {
	if k := nd.Bound(name, -1); k >= 0 {
		return k
	}
	return nd.Choose(name, n)
}

// T3164 parses an arbitrary timestamp under arbitrary year and timezone options.
func T3164() {
	form := nd.Bound("form", 0)
	yk := pinned("year.kind", 3)
	zi := pinned("locale", 1+len(zones))
	zo := pinned("timezone", 1+len(zones))
	iso := form >= 1 && form <= 3 || nd.Bool("rfc3339")
	be := nd.Bool("bestEffort")
	var opts []syslog.MachineOption
	if be {
		opts = append(opts, rfc3164.WithBestEffort())
	}
	year := 0
	switch yk {
	case 1:
		year = int(nd.U16("year"))
		opts = append(opts, rfc3164.WithYear(rfc3164.Year{YYYY: year}))
	case 2:
		year = time.Now().Year()
		opts = append(opts, rfc3164.WithYear(rfc3164.CurrentYear{}))
	}
	if zi > 0 {
		opts = append(opts, rfc3164.WithLocaleTimezone(location(zi)))
	}
	if zo > 0 {
		opts = append(opts, rfc3164.WithTimezone(location(zo)))
	}
	if iso {
		opts = append(opts, rfc3164.WithRFC3339())
	}
	if nd.Bool("reversed") {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	t := stamps[form]
	data := append(append([]byte(t.pre), nd.Bytes("in", stampLen[form])...), t.suf...)
	s := &spec3164{rfc3339: iso, data: data}
	p := rfc3164.NewParser(opts...)
	nd.Track(data, s.step)
	nd.Feed(len(data))
	nd.TrackEnd()
	if !s.end(len(data)) {
		nd.Stop()
	}
	msg, err := p.Parse(data)
	nd.Assert(nd.And(err == nil, msg != nil), "C10: timestamps are accepted whatever the year and timezone options")
	if err != nil || msg == nil {
		return
	}
	m := msg.(*rfc3164.SyslogMessage)
	nd.Assert(m.Timestamp != nil, "C10: timestamp present")
	if m.Timestamp == nil {
		return
	}
	if s.iso {
		o := (s.offH*60 + s.offM) * 60
		want := nd.Civil(s.year, s.month, s.day, s.hour, s.min, s.sec, 0, nd.Ite(s.neg, -o, o))
		nd.Assert(nd.SameTime(*m.Timestamp, want), "C10: an RFC 3339 timestamp is taken as written")
		nd.Reach("C10: RFC 3339 timestamps")
		return
	}
	from := time.UTC
	if zi > 0 {
		from = location(zi)
	}
	want := time.Date(year, time.Month(s.month), s.day, s.hour, s.min, s.sec, 0, from)
	if zo > 0 {
		want = want.In(location(zo))
	}
	nd.Assert(nd.SameTime(*m.Timestamp, want), "C10: year and timezones applied to the timestamp")
	nd.Reach("C10: Stamp timestamps")
	nd.Observe("day", m.Timestamp.Day())
	nd.Observe("hour", m.Timestamp.Hour())
}
