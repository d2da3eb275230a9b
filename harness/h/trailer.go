package h

import (
	"verif/harness/nd"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

func init() {
	Funcs["C20Value"] = C20Value
	Funcs["C20Text"] = C20Text
	Funcs["C20Option"] = C20Option
}

// C20Value: every trailer type to text and back.
func C20Value() {
	v := nd.I64("v")
	t := nontransparent.TrailerType(int(v))
	known := nd.Or(v == 0, v == 1)
	b, err := t.Value()
	nd.Assert((err == nil) == known, "C20: only known trailers have a byte")
	if err == nil {
		nd.Assert(b == nd.Ite(v == 0, 10, 0), "C20: the byte of the trailer")
	}
	text, err := t.MarshalText()
	nd.Assert((err == nil) == known, "C20: only known trailers have a text")
	nd.Assert((t.String() != "") == known, "C20: only known trailers have a name")
	if err != nil {
		nd.Assert(len(text) == 0, "C20: no text with an error")
		return
	}
	nd.Assert(string(text) == t.String(), "C20: the text is the name")
	nd.Reach("C20: text")
	prev := nontransparent.TrailerType(nd.Int("prev", 0, 3))
	u := prev
	nd.Assert(u.UnmarshalText(text) == nil, "C20: the text is read")
	nd.Assert(u == t, "C20: the text gives the trailer back")
	u = prev
	q := nd.Bool("quoted")
	toml := text
	if q {
		toml = append(append([]byte("\""), text...), '"')
	}
	nd.Assert(u.UnmarshalTOML(toml) == nil, "C20: the TOML text is read")
	nd.Assert(u == t, "C20: the TOML text gives the trailer back")
	w, err := nontransparent.TrailerTypeFromString(string(text))
	nd.Assert(nd.And(err == nil, w == t), "C20: the name gives the trailer back")
}

// trailerOf is the trailer a text stands for, -1 for none.
func trailerOf(s []byte) int {
	if n := len(s); n >= 2 && (s[0] == '"' || s[0] == '\'') && s[n-1] == s[0] {
		s = s[1 : n-1]
	}
	is := func(name string) bool {
		if len(s) != len(name) {
			return false
		}
		r := true
		for i := 0; i < len(name); i++ {
			r = nd.And(r, nd.Or(s[i] == name[i], s[i] == name[i]+32))
		}
		return r
	}
	if is("LF") {
		return 0
	}
	if is("NUL") {
		return 1
	}
	return -1
}

// C20Text: every text.
func C20Text() {
	text := nd.Bytes("text", nd.Bound("n", 2))
	given := append([]byte(nil), text...)
	want := trailerOf(text)
	check := func(t nontransparent.TrailerType, err error) {
		nd.Assert((err == nil) == (want >= 0), "C20: exactly the names are accepted")
		if err == nil {
			nd.Assert(int(t) == want, "C20: the trailer of that name")
		}
	}
	nd.Reach("C20: text read")
	check(nontransparent.TrailerTypeFromString(string(text)))
	var t nontransparent.TrailerType
	err := t.UnmarshalText(text)
	check(t, err)
	t = nontransparent.NUL
	err = t.UnmarshalTOML(text)
	check(t, err)
	nd.Assert(string(text) == string(given), "C20: the text is not modified")
}

// C20Option: trailers passed as options, one after the other; the last known one is in force.
func C20Option() {
	a, b := nd.I64("a"), nd.I64("b")
	var got []*syslog.Result
	p := nontransparent.NewParser(
		nontransparent.WithTrailer(nontransparent.TrailerType(int(a))),
		syslog.WithListener(collect(&got)),
		nontransparent.WithTrailer(nontransparent.TrailerType(int(b))))
	want := byte('\n')
	if a == 1 {
		want = 0
	}
	if b == 1 {
		want = 0
	}
	if b == 0 {
		want = '\n'
	}
	p.Parse(&source{data: []byte("<1>1 - - - - - - x\n<2>1 - - - - - - y\x00<3>1 - - - - - - z")})
	nd.Reach("C20: stream read")
	if want == 0 {
		nd.Assert(len(got) == 2, "C20: NUL is in force")
	} else {
		nd.Assert(len(got) == 2, "C20: LF is in force")
	}
	if len(got) != 2 {
		return
	}
	// the first message ends at the trailer in force
	m, err := freshParse(want == 0)
	assertSame(got[0].Message, m, "C20")
	nd.Assert(nd.SameErr(got[0].Error, err), "C20: the message up to the trailer in force")
}

func freshParse(nul bool) (syslog.Message, error) {
	text := "<1>1 - - - - - - x"
	if nul {
		text = "<1>1 - - - - - - x\n<2>1 - - - - - - y"
	}
	return rfc5424.NewParser().Parse([]byte(text))
}
