package h

import "verif/harness/nd"

// spec3164 is a byte-by-byte reading of the RFC 3164 grammar documented by the library (priority,
// timestamp, host name, and a message part with an optional tag), written independently of the library's
// state machine.
type spec3164 struct {
	st, n   int
	dead    bool
	deadAt  int
	sem     bool // stopped by an impossible date
	rfc3339 bool

	prio                             int
	havePrio                         bool
	tsSet, iso                       bool
	year, month, day, hour, min, sec int
	offH, offM                       int
	neg                              bool
	mmm                              [2]byte
	host                             field
	msgAt                            int
	tag, content                     field
	tagged                           bool // the message part begins with a complete tag
	bodyAt                           int
	data                             []byte
}

const (
	rLT = iota
	rPri0
	rPri1
	rPri1x
	rPri19
	rPriD
	rPriE
	rTS    // first byte of the timestamp
	rStamp // Mmm dd hh:mm:ss
	rISO   // YYYY-MM-DDThh:mm:ss
	rZone  // Z or sign
	rOff   // hh:mm
	rTSe   // timestamp complete
	rHost
	rMsg0 // first byte of the message part
	rTag  // in what may be a tag
	rCont // in what may be a bracketed content
	rContE
	rCol  // after the colon
	rBody // after ": "
	rText
)

func (s *spec3164) die(i int) {
	s.dead = true
	s.deadAt = i
	nd.Loose()
}

func visible(b byte) bool { return b >= 0x20 && b != 0x7F }

func (s *spec3164) step(i int, b byte) {
	if s.dead {
		return
	}
	switch s.st {
	case rLT:
		if b != '<' {
			s.die(i)
			return
		}
		s.st = rPri0
	case rPri0:
		s.prio = nd.Digit(b)
		switch {
		case b == '0':
			s.st = rPriE
		case b == '1':
			s.st = rPri1
		case b >= '2' && b <= '9':
			s.st = rPriD
		default:
			s.die(i)
		}
	case rPri1, rPri1x, rPri19, rPriD, rPriE:
		if b == '>' {
			s.havePrio = true
			s.st = rTS
			return
		}
		to := -1
		switch {
		case !digit(b):
		case s.st == rPri1 && b == '9':
			to = rPri19
		case s.st == rPri1:
			to = rPri1x
		case s.st == rPri1x:
			to = rPriE
		case s.st == rPri19 && b <= '1':
			to = rPriE
		case s.st == rPriD:
			to = rPriE
		}
		if to < 0 {
			s.die(i)
			return
		}
		s.prio = s.prio*10 + nd.Digit(b)
		s.st = to
	case rTS, rStamp, rISO, rZone, rOff, rTSe:
		s.time(i, b)
	case rHost:
		if s.n > 0 && b == ' ' {
			s.host.to = i
			s.host.set = true
			s.st = rMsg0
			s.msgAt = i + 1
			return
		}
		if !graph(b) || s.n == 255 {
			s.die(i)
			return
		}
		if s.n == 0 {
			s.host.from = i
			s.host.dash = b == '-'
		} else {
			s.host.dash = false
		}
		s.n++
	case rMsg0, rTag, rCont, rContE, rCol, rBody, rText:
		if !visible(b) {
			s.die(i)
			return
		}
		s.msg(i, b)
	}
}

// msg follows the message part: every visible text is a message, and a tag is recognised at its start.
func (s *spec3164) msg(i int, b byte) {
	switch s.st {
	case rMsg0, rTag:
		n := i - s.msgAt
		switch {
		case b > 0x20 && b < 0x7F && b != ':' && b != '[':
			s.st = rTag
			if n == 0 {
				s.tag.from = i
				s.tag.dash = b == '-'
			} else {
				s.tag.dash = false
			}
			if n == 32 {
				s.st = rText
			}
		case n > 0 && b == '[':
			s.tag.to = i
			s.content.from = i + 1
			s.st = rCont
		case n > 0 && b == ':':
			s.tag.to = i
			s.st = rCol
		default:
			s.st = rText
		}
	case rCont:
		if b == ']' {
			s.content.to = i
			s.content.set = i > s.content.from
			s.content.dash = nd.And(i == s.content.from+1, s.data[i-1] == '-')
			s.st = rContE
		}
	case rContE:
		s.st = rText
		if b == ':' {
			s.st = rCol
		}
	case rCol:
		s.st = rText
		if b == ' ' {
			s.st = rBody
		}
	case rBody:
		s.tagged = true
		s.tag.set = true
		s.bodyAt = i
		s.st = rText
	}
}

var monthNames = [12]string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

// time reads the timestamp.
func (s *spec3164) time(i int, b byte) {
	d := nd.Digit(b)
	ok := digit(b)
	switch s.st {
	case rTS:
		if s.rfc3339 && ok {
			s.iso = true
			s.year = d
			s.n = 1
			s.st = rISO
			return
		}
		if b != 'J' && b != 'F' && b != 'M' && b != 'A' && b != 'S' && b != 'O' && b != 'N' && b != 'D' {
			s.die(i)
			return
		}
		s.mmm[0] = b
		s.n = 1
		s.st = rStamp
	case rStamp:
		switch s.n {
		case 1:
			ok = false
			for _, m := range monthNames {
				ok = nd.Or(ok, nd.And(m[0] == s.mmm[0], m[1] == b))
			}
			s.mmm[1] = b
		case 2:
			ok = false
			for k, m := range monthNames {
				hit := nd.And(nd.And(m[0] == s.mmm[0], m[1] == s.mmm[1]), m[2] == b)
				ok = nd.Or(ok, hit)
				s.month = nd.Ite(hit, k+1, s.month)
			}
		case 3, 6:
			ok = b == ' '
		case 4:
			ok = b == ' ' || b >= '1' && b <= '3'
			s.day = d
		case 5:
			switch {
			case s.day == 0:
				ok = b >= '1' && b <= '9'
			case s.day == 3:
				ok = b == '0' || b == '1'
			}
			s.day = s.day*10 + d
		default:
			ok = s.clock(s.n-7, b, d, ok)
		}
		if !ok {
			s.die(i)
			return
		}
		s.n++
		if s.n == 15 {
			s.st = rTSe
		}
	case rISO:
		switch s.n {
		case 1, 2, 3:
			s.year = s.year*10 + d
		case 4, 7:
			ok = b == '-'
		case 5:
			ok = b == '0' || b == '1'
			s.month = d
		case 6:
			ok = okSecond(s.month, b, '1', '9', '0', '2', 0, 0)
			s.month = s.month*10 + d
		case 8:
			ok = b >= '0' && b <= '3'
			s.day = d
		case 9:
			switch {
			case s.day == 0:
				ok = b >= '1' && b <= '9'
			case s.day == 3:
				ok = b == '0' || b == '1'
			}
			s.day = s.day*10 + d
		case 10:
			ok = b == 'T'
		default:
			ok = s.clock(s.n-11, b, d, ok)
		}
		if !ok {
			s.die(i)
			return
		}
		s.n++
		if s.n == 19 {
			s.st = rZone
		}
	case rZone:
		switch b {
		case 'Z':
			s.st = rTSe
		case '+', '-':
			s.neg = b == '-'
			s.n = 0
			s.st = rOff
		default:
			s.die(i)
		}
	case rOff:
		switch s.n {
		case 0:
			ok = b >= '0' && b <= '2'
			s.offH = d
		case 1:
			if s.offH == 2 {
				ok = b >= '0' && b <= '3'
			}
			s.offH = s.offH*10 + d
		case 2:
			ok = b == ':'
		case 3:
			ok = b >= '0' && b <= '5'
			s.offM = d
		case 4:
			s.offM = s.offM*10 + d
		}
		if !ok {
			s.die(i)
			return
		}
		s.n++
		if s.n == 5 {
			s.st = rTSe
		}
	case rTSe:
		if b != ' ' {
			s.cut()
			s.die(i)
			return
		}
		if !realDate(s.year, s.month, s.day) {
			s.sem = true
			s.die(i)
			return
		}
		s.tsSet = true
		s.n = 0
		s.st = rHost
	}
}

// clock reads hh:mm:ss.
func (s *spec3164) clock(k int, b byte, d int, ok bool) bool {
	switch k {
	case 0:
		ok = b >= '0' && b <= '2'
		s.hour = d
	case 1:
		if s.hour == 2 {
			ok = b >= '0' && b <= '3'
		}
		s.hour = s.hour*10 + d
	case 2, 5:
		ok = b == ':'
	case 3:
		ok = b >= '0' && b <= '5'
		s.min = d
	case 4:
		s.min = s.min*10 + d
	case 6:
		ok = b >= '0' && b <= '5'
		s.sec = d
	case 7:
		s.sec = s.sec*10 + d
	}
	return ok
}

// end tells that the input ends at n; it reports whether the input is a complete message.
func (s *spec3164) end(n int) bool {
	if s.dead {
		return false
	}
	if s.st > rMsg0 {
		return true
	}
	s.cut()
	s.die(n)
	return false
}

// cut: whether a complete timestamp counts when the message breaks right behind it.
func (s *spec3164) cut() {}
