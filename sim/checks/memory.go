package checks

import (
	"io"
	"math/bits"
	"runtime"
	"strings"

	"verif/sim/core"
	"verif/sim/gen"
	"verif/sim/model"

	"vimagination.zapto.org/ics"
)

// What a call may allocate in total: a base, and so much for each byte of its input.
// Both are well above what the package needs, and far below what copying the
// input again and again needs.
const (
	allocBase    = 1 << 20
	allocPerByte = 1000
)

// lean delivers in chunks, with empty reads in between, and allocates nothing.
type lean struct {
	b            []byte
	chunk, empty int
	turn         int
}

func (l *lean) Read(p []byte) (int, error) {
	if len(l.b) == 0 {
		return 0, io.EOF
	}

	if l.turn++; l.empty > 0 && l.turn%l.empty == 0 {
		return 0, nil
	}

	if len(p) > l.chunk {
		p = p[:l.chunk]
	}

	n := copy(p, l.b)
	l.b = l.b[n:]

	return n, nil
}

// meter accepts everything and keeps nothing.
type meter struct{ n, left int }

func (m *meter) Write(p []byte) (int, error) {
	m.n += len(p)

	if m.left -= len(p); m.left < 0 {
		return 0, io.ErrShortWrite
	}

	return len(p), nil
}

func allocated() uint64 {
	var s runtime.MemStats

	runtime.ReadMemStats(&s)

	return s.TotalAlloc
}

// c24: memory.
func c24(r *core.Run) {
	host(r)

	g := gen.New(r)

	if g.K.Bulk == 0 && r.N(2) == 1 {
		g.K.Bulk = 1 + r.N(3)
	}

	s := newSubject(r, g)

	if r.N(3) == 2 {
		w := &meter{left: 1 << 40}

		if r.N(3) == 2 {
			w.left = r.N(s.size + 1)

			r.Fault("write:fails")
		}

		size := footprint(s.cal) + s.size
		before := allocated()
		o := r.Encode(w, s.cal, size)

		judge(r, "Encode of a calendar", allocated()-before, size, o)

		return
	}

	b := s.stream(r)

	switch r.N(16) {
	case 0, 1, 2, 3, 4, 5, 6, 7:
	case 14:
		scale(r, crowd(r))

		return
	case 15:
		scale(r, inflate(r, b))

		return
	default:
		b = inflate(r, b)(4000 << r.N(7))
	}

	for n := 1 + r.N(3); n > 0; n-- {
		d := b

		if r.N(2) == 1 {
			d = damage(r, b, b)
		}

		l := &lean{b: d, chunk: []int{1 << 30, 1, 2, 7, 64, 500, 4096}[r.N(7)], empty: []int{0, 2, 5}[r.N(3)]}

		r.Fault("deliver:chunks")

		if l.empty > 0 {
			r.Fault("read:empty")
		}

		before := allocated()
		o := r.Decode(l, len(d))

		judge(r, "Decode of a stream", allocated()-before, len(d), o)

		if o.Err == nil && o.Cal != nil && r.N(2) == 1 {
			size := footprint(o.Cal) + len(d)
			before = allocated()
			o = r.Encode(&meter{left: 1 << 40}, o.Cal, size)

			judge(r, "Encode of a decoded calendar", allocated()-before, size, o)
		}
	}
}

// scale compares the work for a long stream with that for one four times as long.
func scale(r *core.Run, grow func(int) []byte) {
	n := 16000 << r.N(3)
	d := [2][]byte{grow(n), grow(4 * n)}

	var o [2]*core.Outcome

	for i, b := range d {
		before := allocated()
		o[i] = r.Decode(&lean{b: b, chunk: 1 << 30}, len(b))

		judge(r, "Decode of a stream", allocated()-before, len(b), o[i])
	}

	work(r, "Decode of a stream", d, o)

	if o[0].Cal == nil || o[1].Cal == nil {
		return
	}

	for i, c := range []*ics.Calendar{o[0].Cal, o[1].Cal} {
		size := len(d[i]) + footprint(c)
		before := allocated()
		o[i] = r.Encode(&meter{left: 1 << 40}, c, size)

		judge(r, "Encode of a calendar", allocated()-before, size, o[i])
	}

	work(r, "Encode of a calendar", d, o)
}

func work(r *core.Run, what string, d [2][]byte, o [2]*core.Outcome) {
	if o[0].Crashed() || o[1].Crashed() {
		return // C05
	}

	r.Probe("work compared")

	if o[1].Steps > 7*o[0].Steps+200000 {
		r.Fail("work", "%s takes %d statements for %d bytes, but %d for %d bytes", what, o[0].Steps, len(d[0]), o[1].Steps, len(d[1]))
	}
}

const (
	stamp   = "DTSTAMP:20200101T000000Z\r\n"
	uid     = "UID:a\r\n"
	start   = "DTSTART:20200101T000000Z\r\n"
	shift   = "TZOFFSETFROM:+0100\r\nTZOFFSETTO:+0200\r\n"
	alarm   = "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:PT1M\r\nEND:VALARM\r\n"
	prose   = "BEGIN:VALARM\r\nACTION:DISPLAY\r\nTRIGGER:PT1M\r\nDESCRIPTION:a\r\nEND:VALARM\r\n"
	foreign = "BEGIN:X-A\r\nEND:X-A\r\n"
	mail    = "BEGIN:VALARM\r\nACTION:EMAIL\r\nTRIGGER:PT1M\r\nDESCRIPTION:a\r\nSUMMARY:a\r\nATTENDEE:m:a\r\n"
)

// crowds are the smallest streams, each with the smallest parts that may be repeated at one place.
var crowds = []struct {
	before, after string
	units         []string
}{
	{"", "", []string{
		"BEGIN:VEVENT\r\n" + stamp + uid + start + "END:VEVENT\r\n",
		"BEGIN:VTODO\r\n" + stamp + uid + "END:VTODO\r\n",
		"BEGIN:VJOURNAL\r\n" + stamp + uid + "END:VJOURNAL\r\n",
		"BEGIN:VFREEBUSY\r\n" + stamp + uid + "END:VFREEBUSY\r\n",
		"BEGIN:VTIMEZONE\r\nTZID:a\r\nBEGIN:STANDARD\r\n" + start + shift + "END:STANDARD\r\nEND:VTIMEZONE\r\n",
		foreign, "X-A:b\r\n", "A:\r\n",
	}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start, "END:VEVENT\r\n", []string{
		"ATTACH:m:a\r\n", "ATTENDEE:m:a\r\n", "CATEGORIES:a\r\n", "COMMENT:a\r\n", "CONTACT:a\r\n", "EXDATE:20200101T000000Z\r\n",
		"REQUEST-STATUS:1;a\r\n", "RELATED-TO:a\r\n", "RESOURCES:a\r\n", "RDATE:20200101T000000Z\r\n", alarm, prose, foreign, "X-A:b\r\n",
	}},
	{"BEGIN:VTODO\r\n" + stamp + uid, "END:VTODO\r\n", []string{
		"ATTACH:m:a\r\n", "ATTENDEE:m:a\r\n", "CATEGORIES:a\r\n", "COMMENT:a\r\n", "CONTACT:a\r\n", "EXDATE:20200101T000000Z\r\n",
		"REQUEST-STATUS:1;a\r\n", "RELATED-TO:a\r\n", "RESOURCES:a\r\n", "RDATE:20200101T000000Z\r\n", alarm, prose, foreign, "X-A:b\r\n",
	}},
	{"BEGIN:VJOURNAL\r\n" + stamp + uid, "END:VJOURNAL\r\n", []string{
		"ATTACH:m:a\r\n", "ATTENDEE:m:a\r\n", "CATEGORIES:a\r\n", "COMMENT:a\r\n", "CONTACT:a\r\n", "DESCRIPTION:a\r\n", "EXDATE:20200101T000000Z\r\n",
		"REQUEST-STATUS:1;a\r\n", "RELATED-TO:a\r\n", "RDATE:20200101T000000Z\r\n", foreign, "X-A:b\r\n",
	}},
	{"BEGIN:VFREEBUSY\r\n" + stamp + uid, "END:VFREEBUSY\r\n", []string{
		"ATTENDEE:m:a\r\n", "COMMENT:a\r\n", "REQUEST-STATUS:1;a\r\n", "FREEBUSY:20200101T000000Z/P1D\r\n", foreign, "X-A:b\r\n",
	}},
	{"BEGIN:VTIMEZONE\r\nTZID:a\r\nBEGIN:STANDARD\r\n" + start + shift + "END:STANDARD\r\n", "END:VTIMEZONE\r\n", []string{
		"BEGIN:STANDARD\r\n" + start + shift + "END:STANDARD\r\n", "BEGIN:DAYLIGHT\r\n" + start + shift + "END:DAYLIGHT\r\n", foreign, "X-A:b\r\n",
	}},
	{"BEGIN:VTIMEZONE\r\nTZID:a\r\nBEGIN:DAYLIGHT\r\n" + start + shift, "END:DAYLIGHT\r\nEND:VTIMEZONE\r\n", []string{
		"COMMENT:a\r\n", "RDATE:20200101T000000Z\r\n", "TZNAME:a\r\n", foreign, "X-A:b\r\n",
	}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + mail, "END:VALARM\r\nEND:VEVENT\r\n", []string{
		"ATTACH:m:a\r\n", "ATTENDEE:m:a\r\n", foreign, "X-A:b\r\n",
	}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "RRULE:FREQ=DAILY;BYHOUR=1", "\r\nEND:VEVENT\r\n", []string{",1"}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "RRULE:FREQ=DAILY;BYDAY=1MO", "\r\nEND:VEVENT\r\n", []string{",1MO", ",SU"}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "RRULE:FREQ=DAILY;BYSETPOS=1", "\r\nEND:VEVENT\r\n", []string{",1", ",-1"}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "CATEGORIES:a", "\r\nEND:VEVENT\r\n", []string{",", ",a", "\\,", "\\n"}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "ATTENDEE;MEMBER=\"m:a\"", ":m:a\r\nEND:VEVENT\r\n", []string{",\"m:a\""}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "SUMMARY", ":a\r\nEND:VEVENT\r\n", []string{";X-A=b", ";A=\"\""}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "ATTENDEE;CN=", ":m:a\r\nEND:VEVENT\r\n", []string{"a", "^n", "^^", "^", "é"}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "X-A;X-B=c", ":m:a\r\nEND:VEVENT\r\n", []string{",a", ",", ",\"\""}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "X-A:", "\r\nEND:VEVENT\r\n", []string{"a", ",", "\r\n ", "\\"}},
	{"BEGIN:VEVENT\r\n" + stamp + uid + start + "SUMMARY:", "\r\nEND:VEVENT\r\n", []string{"a", "\\,", "\r\n ", "\\n", "é"}},
}

// crowd is like inflate for the smallest parts, of which a stream can hold the most.
func crowd(r *core.Run) func(int) []byte {
	c := crowds[r.N(len(crowds))]
	unit := c.units[r.N(len(c.units))]

	r.Ev("crowd", 0, 0, unit)
	r.Probe("crowd")

	return func(most int) []byte {
		return []byte("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:a\r\n" + c.before + strings.Repeat(unit, most/len(unit)+1) + c.after + "END:VCALENDAR\r\n")
	}
}

func nameEnd(c rune) bool { return c == ':' || c == ';' }

// inflate repeats one part of a stream - a component, a line, an element of a list,
// a parameter, a bit of a value - until the stream is long. It
// draws how and returns a function that does it for a given length.
func inflate(r *core.Run, b []byte) func(int) []byte {
	lines, err := model.Unfold(b)

	if err != nil || len(lines) < 3 {
		return func(int) []byte { return b }
	}

	i := 1 + r.N(len(lines)-2)

	// usually a line that may occur again, if there is one from there on
	if r.N(4) > 0 {
		for j := i; j < len(lines)-1; j++ {
			if model.Repeats(strings.ToUpper(strings.FieldsFunc(lines[j]+":", nameEnd)[0])) {
				i = j

				break
			}
		}
	}

	l := lines[i]

	unit, left, right := "", l, ""

	switch r.N(6) {
	case 0: // the component that starts here or later
		for i < len(lines)-1 && !strings.HasPrefix(lines[i], "BEGIN:") {
			i++
		}

		end := strings.Replace(lines[i], "BEGIN:", "END:", 1)
		j := i

		for j < len(lines)-1 && lines[j] != end {
			j++
		}

		if j < len(lines)-1 {
			unit = "\r\n" + strings.Join(lines[i:j+1], "\r\n")
		}

		i, left = j, lines[j]

		r.Probe("many components")
	case 1:
		unit = "\r\n" + l

		r.Probe("many lines")
	case 2:
		left, right = model.SplitValue(l)

		if n := strings.LastIndexByte(right, '='); n >= 0 && strings.HasPrefix(right, "FREQ=") { // the last part of a rule
			left, right = left+right[:n+1], right[n+1:]
		}

		unit, _, _ = strings.Cut(right, ",")
		unit += ","

		r.Probe("many elements")
	case 3:
		left, right = model.SplitValue(l)
		left, unit, right = strings.TrimSuffix(left, ":"), ";X-A=b", ":"+right

		r.Probe("many parameters")
	case 4:
		left, right = model.SplitValue(l)
		unit, right = []string{"a", "\\n", "\\,", "é", "0", " ", right}[r.N(7)], ""

		r.Probe("long value")
	case 5:
		_, v := model.SplitValue(l)
		name := strings.FieldsFunc(l+":", nameEnd)[0]
		param := []string{"MEMBER", "DELEGATED-FROM", "DELEGATED-TO", "X-A"}[r.N(4)]

		if r.N(4) > 0 {
			name, v = "ATTENDEE", "m:a"
		}

		left, unit, right = name+";"+param+"=", "\"m:a\",", "\"m:a\":"+v

		r.Probe("many parameter values")
	}

	fold := r.N(2) == 1

	return func(most int) []byte {
		if unit != "" {
			lines[i] = left + strings.Repeat(unit, most/len(unit)+1) + right
		}

		all := strings.Join(lines, "\r\n") + "\r\n"

		if !fold {
			return []byte(all)
		}

		var d []byte

		for _, l := range strings.SplitAfter(all, "\r\n") {
			for len(l) > 70 {
				d = append(append(d, l[:60]...), "\r\n "...)
				l = l[60:]
			}

			d = append(d, l...)
		}

		return d
	}
}

func judge(r *core.Run, what string, n uint64, size int, o *core.Outcome) {
	if o.Over {
		r.Fail("work", "%s of about %d bytes takes more than %d statements", what, size, core.BudgetBase+core.BudgetPerByte*size)
	}

	if o.Crashed() {
		return // C05
	}

	if rate := float64(n) / float64(size+allocBase/allocPerByte); rate > r.MaxAlloc {
		r.MaxAlloc = rate
	}

	r.PointAt(what, uint64(bits.Len(uint(size)))<<8|uint64(bits.Len64(n)))

	if n > allocBase+allocPerByte*uint64(size) {
		r.Fail("memory", "%s of about %d bytes allocated more than %d bytes", what, size, allocBase+allocPerByte*size)
	}
}
