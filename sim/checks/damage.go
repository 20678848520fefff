package checks

import (
	"bytes"
	"strings"

	"verif/sim/core"
)

var tokens = []string{
	"", "+", "-", "+1", "-1", "+1MO", "-MO", "P", "-P", "PT", "P1", "P1W2D", "T", "/", "/P", "20200101T000000/", ";", ":", ",", "=", "\"", "^", "^^", "\\", "\\n",
	"FREQ=", "FREQ=DAILY;BYDAY=+1", "FREQ=DAILY;BYDAY=1", "FREQ=DAILY;BYDAY=-", "FREQ=DAILY;BYDAY=MO,", "FREQ=DAILY;UNTIL=", "FREQ=DAILY;UNTIL=Z", "FREQ=DAILY;COUNT=-1", "FREQ=WEEKLY;BYDAY=", "FREQ=WEEKLY;BYDAY=+", ";;", "99999999999999999999", "-0000", "+", "1;", ";1", "1;2;3",
	"BEGIN:VALARM", "END:VALARM", "BEGIN:VEVENT", "END:VEVENT", "END:VCALENDAR", "BEGIN:VCALENDAR", "BEGIN:X", "END:X", "ACTION:AUDIO", "ACTION:", "TRIGGER:P", "BEGIN:", "END:", "VALUE=DATE", "VALUE=PERIOD", "VALUE=BINARY;ENCODING=BASE64", "TZID=Europe/Berlin", "TZID=", "TZID=\"\"", "TZID=Local", "TZID=../../etc/passwd",
	"RRULE:FREQ=DAILY;BYDAY=+1", "DTSTART;VALUE=DATE:2020", "GEO:;", "GEO:1", "DURATION:P", "RSVP=", "MEMBER=", "DELEGATED-TO=", "DELEGATED-TO=\"\"", "FMTTYPE=", "CN=^", "CN=\"^\"", "CN=\"^",
	"\x00", "\x7f", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xef\xbb\xbf", "\r", "\n", "\r\n", "\r\n ", "\r\n\t", "\r\r\n", "\r\n\r\n", " ", "\t",
}

var preambles = []string{"\ufeff", "\xef", "\xef\xbb", "\ufeff\ufeff", "\xff\xfe", "\r\n", "\n", " ", "\t", "\r\n ", "\x00", "\r", "\r\n\r\n", "\v\f ", "X-NOTE:1\r\n", "END:VCALENDAR\r\n"}

// damage corrupts a stream the way links and disks do (bits, blocks) and the
// way careless producers do (tokens, lines). It counts each kind.
func damage(r *core.Run, b []byte, other []byte) []byte {
	b = append([]byte(nil), b...)
	n := 1 + r.N(4)

	if r.Chance(1, 10) {
		n += r.N(20)
	}

	pick := func() (int, int) { // a block
		if len(b) == 0 {
			return 0, 0
		}

		i := r.N(len(b))
		m := 1 + r.N([]int{4, 40, 400}[r.N(3)])

		if i+m > len(b) {
			m = len(b) - i
		}

		return i, i + m
	}

	for ; n > 0; n-- {
		switch k := r.N(12); k {
		case 0:
			r.Fault("corrupt:bit-flip")

			if len(b) > 0 {
				b[r.N(len(b))] ^= 1 << uint(r.N(8))
			}
		case 1:
			r.Fault("corrupt:block-lost")

			i, j := pick()
			b = append(b[:i:i], b[j:]...)
		case 2:
			r.Fault("corrupt:block-duplicated")

			i, j := pick()
			b = append(b[:j:j], b[i:]...)
		case 3:
			r.Fault("corrupt:block-zeroed")

			i, j := pick()

			for ; i < j; i++ {
				b[i] = 0
			}
		case 4:
			r.Fault("corrupt:block-misdirected")

			i, j := pick()
			blk := append([]byte(nil), b[i:j]...)
			b = append(b[:i:i], b[j:]...)
			at := 0

			if len(b) > 0 {
				at = r.N(len(b))
			}

			b = append(b[:at:at], append(blk, b[at:]...)...)
		case 5:
			r.Fault("corrupt:truncated")

			if len(b) > 0 {
				b = b[:r.N(len(b))]
			}
		case 6:
			r.Fault("corrupt:spliced")

			if len(b) > 0 && len(other) > 0 {
				b = append(b[:r.N(len(b))], other[r.N(len(other)):]...)
			}
		case 7:
			r.Fault("corrupt:token-inserted")

			at := 0

			if len(b) > 0 {
				at = r.N(len(b))
			}

			b = append(b[:at:at], append([]byte(tokens[r.N(len(tokens))]), b[at:]...)...)
		case 10:
			r.Fault("corrupt:preamble")

			b = append([]byte(preambles[r.N(len(preambles))]), b...)
		case 8, 9, 11: // a line's value or tail
			r.Fault("corrupt:line-value")

			ls := bytes.Split(b, []byte("\r\n"))
			i := r.N(len(ls))
			l := ls[i]
			c := bytes.IndexAny(l, ":;")

			if c < 0 {
				break
			}

			switch r.N(7) {
			case 0: // replace the value
				if v := bytes.LastIndexByte(l, ':'); v >= 0 {
					l = append(l[:v+1:v+1], tokens[r.N(len(tokens))]...)
				}
			case 1: // cut it
				l = l[:c+1+r.N(len(l)-c)]
			case 2: // a character from the grammar
				at := c + 1 + r.N(len(l)-c)
				ch := "+-0123456789,;=/:\"^\\PTWDHMSZ "[r.N(28)]
				l = append(l[:at:at], append([]byte{ch}, l[at:]...)...)
			case 3: // remove a character
				if len(l) > c+1 {
					at := c + 1 + r.N(len(l)-c-1)
					l = append(l[:at:at], l[at+1:]...)
				}
			case 4: // repeat the line
				l = append(append(append([]byte(nil), l...), "\r\n"...), l...)
			case 5: // end it right before or after something that separates
				if at := separator(r, l, c+1); at >= 0 {
					l = l[:at+r.N(2)]
				}
			case 6: // lose what stands between two separators
				if at := separator(r, l, c+1); at >= 0 {
					e := at + 1

					for e < len(l) && !bytes.ContainsRune(separators, rune(l[e])) {
						e++
					}

					l = append(l[:at+1:at+1], l[e:]...)
				}
			}

			ls[i] = l
			b = bytes.Join(ls, []byte("\r\n"))
		}
	}

	r.Ev("damaged", len(b), 0, string(b))

	if r.Keep {
		r.Note("damaged stream: %s", show(b))
	}

	return b
}

var separators = []byte("/=,;:+-TPZ.\\\"^")

// separator picks a separator of a line from some position on, or -1.
func separator(r *core.Run, l []byte, from int) int {
	var at []int

	for i := from; i < len(l); i++ {
		if bytes.IndexByte(separators, l[i]) >= 0 {
			at = append(at, i)
		}
	}

	if len(at) == 0 {
		return -1
	}

	return at[r.N(len(at))]
}

// bomb nests unknown or known components deeply, or makes one thing very long.
func bomb(r *core.Run) []byte {
	n := 1 << uint(r.N(17))

	var s strings.Builder

	s.WriteString("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\n")

	switch k := r.N(7); k {
	case 0, 1:
		r.Fault("corrupt:nesting-bomb")

		for i := 0; i < n; i++ {
			s.WriteString("BEGIN:X\r\n")
		}

		if k == 1 {
			for i := 0; i < n; i++ {
				s.WriteString("END:X\r\n")
			}

			s.WriteString("END:VCALENDAR\r\n")
		}
	case 2:
		r.Fault("corrupt:nesting-bomb")

		for i := 0; i < n; i++ {
			s.WriteString([]string{"BEGIN:VEVENT\r\n", "BEGIN:VALARM\r\n", "BEGIN:VTIMEZONE\r\n", "BEGIN:VTODO\r\nBEGIN:X\r\n"}[r.N(4)])

			if i > 64 {
				s.WriteString(strings.Repeat("BEGIN:Y\r\n", n-i))

				break
			}
		}
	case 3:
		r.Fault("corrupt:long-value")
		s.WriteString("X-A:" + strings.Repeat("a", n) + "\r\nEND:VCALENDAR\r\n")
	case 4:
		r.Fault("corrupt:fold-flood")
		s.WriteString("X-A:a" + strings.Repeat("\r\n ", n) + "b\r\nEND:VCALENDAR\r\n")
	case 5:
		r.Fault("corrupt:param-flood")
		s.WriteString("X-A" + strings.Repeat(";B=c", n) + ":d\r\nEND:VCALENDAR\r\n")
	case 6:
		r.Fault("corrupt:escape-flood")
		s.WriteString("BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\nATTENDEE;CN=\"" + strings.Repeat("^n^'^^^", n) + "\":mailto:a\r\nSUMMARY:" + strings.Repeat("\\n\\,\\\\", n) + "\r\nCATEGORIES:" + strings.Repeat("a,", n) + "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")
	}

	b := []byte(s.String())
	r.Ev("bomb", n, len(b), "")

	if r.Chance(1, 3) && len(b) > 0 {
		b = b[:r.N(len(b))]
	}

	return b
}
