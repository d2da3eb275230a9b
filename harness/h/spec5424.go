package h

import (
	"verif/harness/nd"

	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// spec5424 is a byte-by-byte reading of the RFC 5424 grammar (RFC 5424 section 6, as documented by the
// library), written independently of the library's state machine.
type spec5424 struct {
	st, n     int // where we are, and how many bytes of the current item have been read
	dead      bool
	deadAt    int  // the first byte no valid message can have there
	deadSt    int  // the item it is in
	sem       bool // stopped for a semantic reason (impossible date, repeated element id)
	compliant bool
	stopSD    bool // structured data elements are outside the scope of this run

	prio, ver int
	havePrio  bool
	// timestamp
	tsSet                                bool
	year, month, day, hour, min, sec, ns int
	fracN, offH, offM                    int
	neg                                  bool
	f                                    [4]field // hostname, app-name, procid, msgid
	fi                                   int
	sdNil                                bool
	elems                                []elem
	cur                                  param
	data                                 []byte
	dup                                  bool
	u8                                   int // inside a UTF-8 sequence of a parameter value
	msgAt                                int
	bom                                  int // 1, 2: bytes of a possible BOM read; 3: BOM; -1: none
}

type field struct {
	from, to int
	set      bool
	dash     bool
}

type param struct {
	n0, n1, v0, v1 int
	esc            []int
}

type elem struct {
	from, to int
	params   []param
	done     bool // its id is complete
}

const (
	sLT    = iota
	sPri0  // after '<'
	sPri1  // '1'
	sPri1x // '1' and a digit up to 8
	sPri19
	sPriD // 2-9
	sPriE // complete
	sPriZ // 0
	sVer0 // after '>'
	sVer  // digits
	sTS   // first byte of the timestamp
	sTSn  // after '-'
	sDate
	sFrac
	sFracD
	sOff
	sTSe // timestamp complete
	sFld // header field
	sSD  // first byte of the structured data
	sSDn // after '-'
	sID  // element id
	sIDe // after an element's id or parameter: ' ' or ']'
	sPN  // parameter name
	sPQ  // opening quote
	sPV  // parameter value
	sPE  // after a backslash
	sPVe // after the closing quote
	sSDe // after ']'
	sMsg // message
)

func (s *spec5424) die(i int) {
	s.dead = true
	s.deadAt = i
	s.deadSt = s.st
	nd.Loose()
}

func graph(b byte) bool { return b >= 33 && b <= 126 }
func digit(b byte) bool { return b >= '0' && b <= '9' }

var dateForm = "dddd-mm-DDThh:mm:ss"

func (s *spec5424) step(i int, b byte) {
	if s.dead {
		return
	}
	switch s.st {
	case sLT:
		if b != '<' {
			s.die(i)
			return
		}
		s.st = sPri0
	case sPri0:
		s.prio = nd.Digit(b)
		switch {
		case b == '0':
			s.st = sPriZ
		case b == '1':
			s.st = sPri1
		case b >= '2' && b <= '9':
			s.st = sPriD
		default:
			s.die(i)
		}
	case sPri1, sPri1x, sPri19, sPriD, sPriE, sPriZ:
		if b == '>' {
			s.havePrio = true
			s.st = sVer0
			return
		}
		v := s.prio*10 + nd.Digit(b)
		to := -1
		switch {
		case !digit(b):
		case s.st == sPri1 && b == '9':
			to = sPri19
		case s.st == sPri1:
			to = sPri1x
		case s.st == sPri1x:
			to = sPriE
		case s.st == sPri19 && b <= '1':
			to = sPriE
		case s.st == sPriD:
			to = sPriE
		}
		if to < 0 {
			s.die(i)
			return
		}
		s.prio = v
		s.st = to
	case sVer0:
		if b < '1' || b > '9' {
			s.die(i)
			return
		}
		s.ver = nd.Digit(b)
		s.n = 1
		s.st = sVer
	case sVer:
		if b == ' ' {
			s.st = sTS
			return
		}
		if !digit(b) || s.n == 3 {
			s.die(i)
			return
		}
		s.ver = s.ver*10 + nd.Digit(b)
		s.n++
	case sTS, sTSn, sDate, sFrac, sFracD, sOff, sTSe:
		s.time(i, b)
	case sFld:
		f := &s.f[s.fi]
		if s.n > 0 && b == ' ' {
			f.to = i
			f.set = true
			s.n = 0
			s.fi++
			if s.fi == 4 {
				s.st = sSD
			}
			return
		}
		if !graph(b) || s.n == fieldMax[s.fi] {
			s.die(i)
			return
		}
		if s.n == 0 {
			f.from = i
			f.dash = b == '-'
		} else {
			f.dash = false
		}
		s.n++
	case sSD, sSDn, sID, sIDe, sPN, sPQ, sPV, sPE, sPVe, sSDe:
		s.sd(i, b)
	case sMsg:
		s.msg(i, b)
	}
}

var fieldMax = [4]int{255, 48, 128, 32}

// time reads the timestamp.
func (s *spec5424) time(i int, b byte) {
	switch s.st {
	case sTS:
		if b == '-' {
			s.st = sTSn
			return
		}
		if !digit(b) {
			s.die(i)
			return
		}
		s.year = nd.Digit(b)
		s.n = 1
		s.st = sDate
	case sTSn, sTSe:
		if b != ' ' {
			s.cutTime()
			s.die(i)
			return
		}
		if s.st == sTSe {
			if !realDate(s.year, s.month, s.day) {
				s.sem = true
				s.die(i)
				return
			}
			s.tsSet = true
		}
		s.st = sFld
		s.n = 0
	case sDate:
		// dddd-mm-DDThh:mm:ss
		k := s.n
		d := nd.Digit(b)
		ok := digit(b)
		switch k {
		case 1, 2, 3:
			s.year = s.year*10 + d
		case 4, 7:
			ok = b == '-'
		case 10:
			ok = b == 'T'
		case 13, 16:
			ok = b == ':'
		case 5:
			ok = b == '0' || b == '1'
			s.month = d
		case 6:
			ok = okSecond(s.month, b, '1', '9', '0', '2', 0, 0)
			s.month = s.month*10 + d
		case 8:
			ok = b >= '0' && b <= '3'
			s.day = d
		case 9:
			switch {
			case s.day == 0:
				ok = b >= '1' && b <= '9'
			case s.day == 3:
				ok = b == '0' || b == '1'
			}
			s.day = s.day*10 + d
		case 11:
			ok = b >= '0' && b <= '2'
			s.hour = d
		case 12:
			if s.hour == 2 {
				ok = b >= '0' && b <= '3'
			}
			s.hour = s.hour*10 + d
		case 14:
			ok = b >= '0' && b <= '5'
			s.min = d
		case 15:
			s.min = s.min*10 + d
		case 17:
			ok = b >= '0' && b <= '5'
			s.sec = d
		case 18:
			s.sec = s.sec*10 + d
		}
		if !ok {
			s.die(i)
			return
		}
		s.n++
		if s.n == 19 {
			s.st = sFrac
		}
	case sFrac:
		switch {
		case b == '.':
			s.st = sFracD
			s.fracN = 0
		default:
			s.zone(i, b)
		}
	case sFracD:
		if digit(b) && s.fracN < 6 {
			s.ns = s.ns*10 + nd.Digit(b)
			s.fracN++
			return
		}
		if s.fracN == 0 {
			s.die(i)
			return
		}
		s.zone(i, b)
	case sOff:
		// hh:mm
		d := nd.Digit(b)
		ok := digit(b)
		switch s.n {
		case 0:
			ok = b >= '0' && b <= '2'
			s.offH = d
		case 1:
			if s.offH == 2 {
				ok = b >= '0' && b <= '3'
			}
			s.offH = s.offH*10 + d
		case 2:
			ok = b == ':'
		case 3:
			ok = b >= '0' && b <= '5'
			s.offM = d
		case 4:
			s.offM = s.offM*10 + d
		}
		if !ok {
			s.die(i)
			return
		}
		s.n++
		if s.n == 5 {
			s.st = sTSe
		}
	}
}

func (s *spec5424) zone(i int, b byte) {
	switch b {
	case 'Z':
		s.st = sTSe
	case '+', '-':
		s.neg = b == '-'
		s.n = 0
		s.st = sOff
	default:
		s.die(i)
	}
}

func okSecond(first int, b byte, lo0, hi0, lo1, hi1 byte, _, _ int) bool {
	if first == 0 {
		return b >= lo0 && b <= hi0
	}
	return b >= lo1 && b <= hi1
}

// realDate tells whether the day exists.
func realDate(y, m, d int) bool {
	if d <= 28 {
		return true
	}
	switch m {
	case 4, 6, 9, 11:
		return d <= 30
	case 2:
		return d == 29 && leapYear(y)
	}
	return true
}

func leapYear(y int) bool {
	return nd.And(y%4 == 0, nd.Or(y%100 != 0, y%400 == 0))
}

// nanos is the fraction in nanoseconds.
func (s *spec5424) nanos() int {
	v := s.ns
	for k := s.fracN; k < 9; k++ {
		v *= 10
	}
	return v
}

// offset is the written zone offset in seconds.
func (s *spec5424) offset() int {
	o := (s.offH*60 + s.offM) * 60
	return nd.Ite(s.neg, -o, o)
}

func sdNameByte(b byte) bool { return graph(b) && b != '=' && b != ']' && b != '"' }

// sd reads the structured data.
func (s *spec5424) sd(i int, b byte) {
	switch s.st {
	case sSD:
		switch b {
		case '-':
			s.st = sSDn
			s.sdNil = true
		case '[':
			if s.stopSD {
				nd.Stop()
			}
			s.open(i)
		default:
			s.die(i)
		}
	case sSDn:
		if b != ' ' {
			s.die(i)
			return
		}
		s.toMsg(i)
	case sID:
		e := &s.elems[len(s.elems)-1]
		if s.n > 0 && (b == ' ' || b == ']') {
			e.to = i
			for k := range s.elems[:len(s.elems)-1] {
				if sameBytes(s.data, s.elems[k].from, s.elems[k].to, e.from, i) {
					s.dup = true
					s.elems = s.elems[:len(s.elems)-1]
					s.die(i)
					return
				}
			}
			e.done = true
			s.endElem(i, b)
			return
		}
		if !sdNameByte(b) || s.n == 32 {
			s.die(i)
			return
		}
		s.n++
	case sPN:
		if s.n > 0 && b == '=' {
			s.cur.n1 = i
			s.st = sPQ
			return
		}
		if !sdNameByte(b) || s.n == 32 {
			s.die(i)
			return
		}
		if s.n == 0 {
			s.cur.n0 = i
		}
		s.n++
	case sPQ:
		if b != '"' {
			s.die(i)
			return
		}
		s.cur.v0 = i + 1
		s.cur.esc = nil
		s.u8 = 0
		s.st = sPV
	case sPV:
		if s.u8 != 0 {
			k := utf8Next(s.u8, b)
			if k < 0 {
				s.die(i)
				return
			}
			s.u8 = k
			return
		}
		switch {
		case b == '"':
			s.cur.v1 = i
			s.st = sPVe
		case b == '\\':
			s.cur.esc = append(s.cur.esc, i)
			s.st = sPE
		case b == ']':
			s.die(i)
		case b < 0x80:
		default:
			k := utf8Next(0, b)
			if k < 0 {
				s.die(i)
				return
			}
			s.u8 = k
		}
	case sPE:
		if b != '"' && b != '\\' && b != ']' {
			s.die(i)
			return
		}
		s.st = sPV
	case sPVe:
		if b != ' ' && b != ']' {
			s.die(i)
			return
		}
		e := &s.elems[len(s.elems)-1]
		e.params = append(e.params, s.cur)
		s.endElem(i, b)
	case sSDe:
		switch b {
		case '[':
			s.open(i)
		case ' ':
			s.toMsg(i)
		default:
			s.die(i)
		}
	}
}

func (s *spec5424) open(i int) {
	s.elems = append(s.elems, elem{from: i + 1})
	s.n = 0
	s.st = sID
}

func (s *spec5424) endElem(i int, b byte) {
	if b == ' ' {
		s.st = sPN
		s.n = 0
		return
	}
	s.st = sSDe
}

// sameBytes tells whether two parts of the input are equal.
func sameBytes(d []byte, a0, a1, b0, b1 int) bool {
	if a1-a0 != b1-b0 {
		return false
	}
	return string(d[a0:a1]) == string(d[b0:b1])
}

// value is the parameter value without the backslashes that escape something.
func (s *spec5424) value(p param) string {
	if len(p.esc) == 0 {
		return string(s.data[p.v0:p.v1])
	}
	var r []byte
	k := 0
	for i := p.v0; i < p.v1; i++ {
		if k < len(p.esc) && p.esc[k] == i {
			k++
			continue
		}
		r = append(r, s.data[i])
	}
	return string(r)
}

// utf8Next follows RFC 3629: k is 0 between characters, otherwise what is expected next; -1 is an error.
func utf8Next(k int, b byte) int {
	switch k {
	case 0:
		switch {
		case b < 0x80:
			return 0
		case b >= 0xC2 && b <= 0xDF:
			return 1
		case b == 0xE0:
			return 4
		case b == 0xED:
			return 5
		case b >= 0xE1 && b <= 0xEF:
			return 2
		case b == 0xF0:
			return 6
		case b >= 0xF1 && b <= 0xF3:
			return 3
		case b == 0xF4:
			return 7
		}
	case 1, 2, 3:
		if b >= 0x80 && b <= 0xBF {
			return k - 1
		}
	case 4:
		if b >= 0xA0 && b <= 0xBF {
			return 1
		}
	case 5:
		if b >= 0x80 && b <= 0x9F {
			return 1
		}
	case 6:
		if b >= 0x90 && b <= 0xBF {
			return 2
		}
	case 7:
		if b >= 0x80 && b <= 0x8F {
			return 2
		}
	}
	return -1
}

func (s *spec5424) toMsg(i int) {
	s.st = sMsg
	s.msgAt = i + 1
	s.u8 = 0
	s.bom = 0
	if !s.compliant {
		s.bom = -1
	}
	nd.Loose()
}

func (s *spec5424) msg(i int, b byte) {
	switch s.bom {
	case -1:
	case 0:
		if b == 0xEF {
			s.bom = 1
		} else {
			s.bom = -1
		}
	case 1:
		if b == 0xBB {
			s.bom = 2
		} else {
			s.bom = -1
		}
	case 2:
		if b == 0xBF {
			s.bom = 3
		} else {
			s.bom = -1
		}
	case 3:
		s.u8 = utf8Next(s.u8, b)
		if s.u8 < 0 {
			s.die(i)
		}
	}
}

// end tells that the input ends at n; it reports whether the input is a complete message.
func (s *spec5424) end(n int) bool {
	if s.dead {
		return false
	}
	switch s.st {
	case sSDn, sSDe:
		return true
	case sMsg:
		if s.u8 == 0 {
			return true
		}
	}
	s.cutTime()
	s.die(n)
	return false
}

// cutTime: a timestamp is complete by itself, also when the message is broken right after it.
func (s *spec5424) cutTime() {
	if s.st == sTSe {
		s.tsSet = realDate(s.year, s.month, s.day)
	}
}

// fieldErr is the documented error text for the place where reading stopped.
func (s *spec5424) fieldErr() string {
	if s.dup {
		return rfc5424.ErrSdIDDuplicated
	}
	switch s.deadSt {
	case sLT:
		return rfc5424.ErrPri
	case sPri0, sPri1, sPri1x, sPri19, sPriD, sPriE, sPriZ:
		return rfc5424.ErrPrival
	case sVer0:
		return rfc5424.ErrVersion
	case sVer:
		if s.n == 1 {
			return rfc5424.ErrParse
		}
		return rfc5424.ErrVersion
	case sTSn, sTSe:
		return rfc5424.ErrParse
	case sTS, sDate, sFrac, sFracD, sOff:
		return rfc5424.ErrTimestamp
	case sFld:
		return [4]string{rfc5424.ErrHostname, rfc5424.ErrAppname, rfc5424.ErrProcID, rfc5424.ErrMsgID}[s.fi]
	case sSDn:
		return rfc5424.ErrParse
	case sSD:
		return rfc5424.ErrStructuredData
	case sID:
		return rfc5424.ErrSdID
	case sPV:
		if s.u8 == 0 {
			return rfc5424.ErrEscape
		}
		return rfc5424.ErrSdParam
	case sPN, sPQ, sPVe:
		return rfc5424.ErrSdParam
	case sPE:
		return rfc5424.ErrEscape
	case sSDe:
		return rfc5424.ErrStructuredData
	case sMsg:
		if s.compliant {
			return rfc5424.ErrMsgNotCompliant
		}
		return rfc5424.ErrMsg
	}
	return "?"
}
