package model

import (
	"sort"
	"strconv"
	"strings"
)

// Skew adds to content lines what a peer with extensions sends: properties,
// parameters and components the package cannot know. Chance is one in oneIn for
// each place. It returns the lines and how many things it added.
func Skew(c Chooser, lines []string, oneIn int) ([]string, map[string]int) {
	var out []string

	n := map[string]int{}

	for i, l := range lines {
		at := strings.IndexAny(l, ";:")
		name := strings.ToUpper(l[:at])

		if name != "BEGIN" && name != "END" && c.Chance(1, oneIn) {
			for k := c.N(3); k >= 0; k-- {
				l = l[:at] + ";" + newParam(c) + l[at:]
				n["skew:parameter"]++
			}
		}

		out = append(out, l)

		if i == len(lines)-1 {
			break
		}

		if c.Chance(1, oneIn) {
			for k := run(c, 3, 300); k >= 0; k-- {
				out = append(out, newProp(c))
				n["skew:property"]++
			}
		}

		if c.Chance(1, 2*oneIn) {
			out = newComp(c, out, 0)
			n["skew:component"]++
		}
	}

	return out, n
}

var newNames = []string{"X-SIM", "X-BEGIN", "X-END", "ENDED", "BEGINS", "DTSTARTED", "DT", "X", "0", "-", "IANA-9", "x-lower", "UIDS", "X-WR-CALNAME", "X-ABC-MMSUBJ", "COLOR", "REFRESH-INTERVAL", "CONFERENCE", "STYLED-DESCRIPTION", "V", "VERSIONS", "XTRIGGER", "ACTIONS"}

// What is known, in order.
var knownProps, knownParams, knownComps = known()

func known() (ps, qs, cs []string) {
	ps = []string{"ACTION", "BEGIN", "CALSCALE", "END", "METHOD"}
	qs = []string{"ENCODING", "RANGE", "RELATED", "TZID", "VALUE"}
	cs = []string{"DAYLIGHT", "STANDARD", "VALARM", "VCALENDAR", "VEVENT", "VFREEBUSY", "VJOURNAL", "VTIMEZONE", "VTODO"}

	for _, p := range props {
		ps = append(ps, p.name)
	}

	for _, p := range params {
		qs = append(qs, p.name)
	}

	sort.Strings(ps)
	sort.Strings(qs)

	return ps, qs, cs
}

// near returns a name that resembles a known one.
func near(c Chooser, names []string) string {
	s := names[c.N(len(names))]
	i := c.N(len(s))

	switch c.N(6) {
	case 0:
		s += []string{"X", "S", "-", "2"}[c.N(4)]
	case 1:
		s = []string{"X", "X-", "-", "D"}[c.N(4)] + s
	case 2:
		s = s[:len(s)-1]
	case 3:
		s = s[1:]
	case 4:
		s = s[:i] + "Q" + s[i+1:]
	case 5:
		s = s[:i] + "-" + s[i:]
	}

	for _, n := range names {
		if n == s {
			return s + "0"
		}
	}

	if s == "" {
		return "Q"
	}

	return s
}

func newName(c Chooser) string {
	if c.N(3) == 2 {
		return near(c, knownProps)
	}

	return longer(c, newNames[c.N(len(newNames))])
}

// longer makes something else of a name that is not known.
func longer(c Chooser, s string) string {
	if c.N(4) == 3 {
		s += strconv.Itoa(c.N(100))
	}

	if c.N(32) == 31 {
		s += strings.Repeat("-LONG", c.N(80))
	}

	return s
}

// run draws a small number, sometimes a large one.
func run(c Chooser, small, large int) int {
	if c.N(256) == 255 {
		return c.N(large)
	}

	return c.N(small)
}

var newValues = []string{"", "1", "nothing to see", "BEGIN:VEVENT", "END:VCALENDAR", "a;b=c:d,e", "\\", "\\x\\;\\,\\n", "\"q\"", "^^^n^'", "tab\there", "ü€😀", "20200101T000000Z", "FREQ=NEVER", "=", ";", ":", ",", "   ", "http://example.com/?a=b;c,d"}

func newValue(c Chooser) string {
	s := newValues[c.N(len(newValues))]

	switch c.N(64) {
	case 56, 57, 58, 59, 60, 61, 62:
		s += strings.Repeat("0123456789", c.N(30))
	case 63:
		s += strings.Repeat("0123456789", c.N(1000))
	}

	return s
}

func newParam(c Chooser) string {
	s := []string{"X-SIM", "X-VALUE", "SCHEDULE-AGENT", "x-p", "ORDER", "DERIVED", "X-TZID", "9", "-", "LABEL", "VALUES", "X-CN"}[c.N(12)]

	if c.N(3) == 2 {
		s = near(c, knownParams)
	}

	s = longer(c, s)
	sep := "="

	for k := run(c, 3, 100); k >= 0; k-- {
		v := []string{"1", "", "\"\"", "\"a;b:c,d\"", "plain text", "ü€😀", "^n^^^'", "\"END:VCALENDAR\"", "a\tb", "="}[c.N(10)]

		if c.N(64) == 63 {
			v = strings.Repeat("long ", c.N(600))
		}

		s += sep + v
		sep = ","
	}

	return s
}

func newProp(c Chooser) string {
	s := newName(c)

	for k := run(c, 3, 100); k > 0; k-- {
		s += ";" + newParam(c)
	}

	return s + ":" + newValue(c)
}

func newComp(c Chooser, out []string, depth int) []string {
	n := []string{"X-SIM-COMP", "VAVAILABILITY", "VX", "AVAILABLE", "PARTICIPANT", "VLOCATION", "VRESOURCE", "X", "VEVENTS"}[c.N(9)]

	if c.N(3) == 2 {
		n = near(c, knownComps)
	}

	out = append(out, "BEGIN:"+n)

	if depth == 0 && c.N(32) == 31 {
		deep := c.N(200)
		out = append(out, strings.Split(strings.Repeat("BEGIN:X\n", deep)+strings.Repeat("END:X\n", deep)+"X:1", "\n")...)
	}

	for k := run(c, 4, max(1, 100>>uint(2*depth))); k > 0; k-- {
		switch c.N(4) {
		case 0:
			out = append(out, newProp(c))
		case 1: // what is known outside means nothing inside
			out = append(out, []string{"UID:not an event", "DTSTAMP:garbage", "DTSTART;VALUE=NONE:x", "VERSION:3.0", "ACTION:AUDIO", "TRIGGER:x", "RRULE:x"}[c.N(7)])
		case 2:
			if depth < 4 {
				out = newComp(c, out, depth+1)
			}
		case 3:
			m := []string{"VEVENT", "VALARM", "VTIMEZONE", "STANDARD", "VCALENDAR", "VTODO"}[c.N(6)]
			out = append(out, "BEGIN:"+m, newProp(c), "END:"+m)
		}
	}

	return append(out, "END:"+n)
}
