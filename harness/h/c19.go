package h

import (
	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	Funcs["C19Texts"] = C19Texts
	Funcs["C19Parse"] = C19Parse
	Funcs["C19Set"] = C19Set
}

// The tables of RFC 5424 6.2.1 and of syslog(3).
var facilityMessages = []string{
	"kernel messages", "user-level messages", "mail system messages", "system daemons messages",
	"authorization messages", "messages generated internally by syslogd", "line printer subsystem messages",
	"network news subsystem messages", "UUCP subsystem messages", "clock daemon messages",
	"security/authorization messages", "ftp daemon messages", "NTP subsystem messages", "audit messages",
	"console messages", "clock daemon messages", "local use 0 (local0)", "local use 1 (local1)",
	"local use 2 (local2)", "local use 3 (local3)", "local use 4 (local4)", "local use 5 (local5)",
	"local use 6 (local6)", "local use 7 (local7)",
}
var facilityLevels = []string{
	"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news", "uucp", "cron", "authpriv", "ftp", "ntp",
	"security", "console", "cron2", "local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7",
}
var severityMessages = []string{
	"system is unusable", "action must be taken immediately", "critical conditions", "error conditions",
	"warning conditions", "normal but significant condition", "informational messages", "debug-level messages",
}
var severityLevels = []string{"emergency", "alert", "critical", "error", "warning", "notice", "informational", "debug"}
var severityShort = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}

// assertTexts asserts the descriptions of a message with the given priority, -1 for none.
func assertTexts(m syslog.Message, p int) {
	texts := []*string{m.FacilityMessage(), m.FacilityLevel(), m.SeverityMessage(), m.SeverityLevel(), m.SeverityShortLevel()}
	for i, t := range texts {
		nd.Assert((t != nil) == (p >= 0), "C19: described exactly when present")
		if t == nil || p < 0 {
			continue
		}
		tab := [][]string{facilityMessages, facilityLevels, severityMessages, severityLevels, severityShort}[i]
		k := p / 8
		if i >= 2 {
			k = p % 8
		}
		nd.Assert(*t == tab[k], "C19: the description of that code")
	}
}

// assertCodes asserts priority, facility and severity, -1 for none.
func assertCodes(b *syslog.Base, p int) {
	nd.Assert(nd.And((b.Priority != nil) == (p >= 0), nd.And((b.Facility != nil) == (p >= 0), (b.Severity != nil) == (p >= 0))), "C19: priority, facility and severity are set together")
	if b.Priority == nil || b.Facility == nil || b.Severity == nil || p < 0 {
		return
	}
	nd.Assert(int(*b.Priority) == p, "C19: the priority")
	nd.Assert(int(*b.Facility) == p/8, "C19: facility is priority div 8")
	nd.Assert(int(*b.Severity) == p%8, "C19: severity is priority mod 8")
}

// C19Compute: facility and severity computed from an arbitrary priority.
func C19Compute() {
	p := nd.Byte("p")
	b := &syslog.Base{}
	if nd.Bool("before") {
		b.ComputeFromPriority(nd.Byte("q"))
	}
	b.ComputeFromPriority(p)
	nd.Assert(nd.And(b.Priority != nil, nd.And(b.Facility != nil, b.Severity != nil)), "C19: priority, facility and severity are set")
	nd.Assert(*b.Priority == p, "C19: priority stored")
	nd.Assert(*b.Facility == p/8, "C19: facility is priority div 8")
	nd.Assert(*b.Severity == p%8, "C19: severity is priority mod 8")
	nd.Observe("f", int(*b.Facility))
}

// C19Texts: the descriptions of every priority, of facilities without severity and the other way round.
func C19Texts() {
	p := nd.Int("p", 0, 191)
	var m syslog.Message
	var b *syslog.Base
	if nd.Bool("3164") {
		x := &rfc3164.SyslogMessage{}
		m, b = x, &x.Base
	} else {
		x := &rfc5424.SyslogMessage{}
		m, b = x, &x.Base
	}
	assertTexts(m, -1)
	m.ComputeFromPriority(uint8(p))
	nd.Reach("C19: computed")
	assertCodes(b, p)
	assertTexts(m, p)
	b.Severity = nil
	nd.Assert(m.FacilityMessage() != nil && *m.FacilityMessage() == facilityMessages[p/8], "C19: a facility alone is described")
	nd.Assert(m.SeverityMessage() == nil && m.SeverityLevel() == nil && m.SeverityShortLevel() == nil, "C19: an absent severity is not described")
	m.ComputeFromPriority(uint8(p))
	b.Facility = nil
	nd.Assert(m.SeverityLevel() != nil && *m.SeverityLevel() == severityLevels[p%8], "C19: a severity alone is described")
	nd.Assert(m.FacilityMessage() == nil && m.FacilityLevel() == nil, "C19: an absent facility is not described")
}

// C19Parse: the priority of parsed messages, also of incomplete ones.
func C19Parse() {
	n := nd.Bound("n", 3)
	digits := nd.Bytes("digits", n)
	data := append([]byte("<"), digits...)
	be := nd.Bool("bestEffort")
	k := nd.Bound("format", 0)
	var m syslog.Message
	var b *syslog.Base
	if k < 3 {
		data = append(data, []string{">1 - - - - - -", ">12 2003-10-11T22:14:15Z h a", ">1 - h a p m [a b=\"c\"] text"}[k]...)
		m, _ = rfc5424.NewParser(opts5424(be, false)...).Parse(data)
		if x, ok := m.(*rfc5424.SyslogMessage); ok && x != nil {
			b = &x.Base
		}
	} else {
		data = append(data, []string{">Oct 11 22:14:15 h app[1]: text", ">Oct 11 22", ">Oct 11 22:14:15 h "}[k-3]...)
		var opts []syslog.MachineOption
		if be {
			opts = append(opts, rfc3164.WithBestEffort())
		}
		m, _ = rfc3164.NewParser(opts...).Parse(data)
		if x, ok := m.(*rfc3164.SyslogMessage); ok && x != nil {
			b = &x.Base
		}
	}
	if b == nil {
		return
	}
	nd.Reach("C19: parsed")
	p := 0
	for i := 0; i < n && digits[i] != '>'; i++ {
		p = p*10 + nd.Digit(digits[i])
	}
	assertCodes(b, p)
	nd.Assert(p <= 191, "C19: a parsed priority is valid")
	if p <= 191 {
		assertTexts(m, p)
	}
}

// C19Set: built messages.
func C19Set() {
	p, q := nd.Byte("p"), nd.Byte("q")
	m := &rfc5424.SyslogMessage{}
	want := -1
	if nd.Bool("before") {
		m.SetPriority(p)
		if p <= 191 {
			want = int(p)
		}
	}
	m.SetPriority(q)
	if q <= 191 {
		want = int(q)
	}
	nd.Reach("C19: set")
	assertCodes(&m.Base, want)
	assertTexts(m, want)
}
