package model

import (
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Chooser supplies choices; 0 is the simplest.
type Chooser interface {
	N(n int) int
	Chance(num, den int) bool
	Perm(n int) []int
	Group(f func())
}

// Style says which liberties of the format the reference writer takes.
type Style struct {
	Order, Case, Quote, Extras, Escapes bool
	Spell                               bool // other spellings of the same value
	Shout                               bool // with Case: every name, not one in three
	Fold                                int  // 0 none, 1 at 75 octets, 2 random places (any octet)
}

// DrawStyle draws a style.
func DrawStyle(c Chooser) Style {
	return Style{Order: c.Chance(1, 3), Case: c.Chance(1, 4), Quote: c.Chance(1, 3), Extras: c.Chance(1, 3), Escapes: c.Chance(1, 3), Spell: c.Chance(1, 3), Fold: c.N(3)}
}

type lineWriter struct {
	c     Chooser
	st    Style
	lines []string
}

// Lines returns the unfolded content lines of the tree, without line ends.
func Lines(c Chooser, st Style, t *Comp) []string {
	w := &lineWriter{c: c, st: st}
	w.comp(t, true)

	return w.lines
}

func (w *lineWriter) name(s string) string {
	if !w.st.Case || !w.st.Shout && !w.c.Chance(1, 3) {
		return s
	}

	b := []byte(s)
	all := w.c.N(2) == 0

	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' && (all || w.c.N(2) == 1) {
			b[i] |= 0x20
		}
	}

	return string(b)
}

func (w *lineWriter) extra() {
	if !w.st.Extras || !w.c.Chance(1, 6) {
		return
	}

	w.lines = append(w.lines, []string{
		"X-SIM-NOTE:nothing to see",
		"X-SIM;X-A=1;X-B=\"q;:,\",two:BEGIN:VEVENT",
		"X-SIM-EMPTY:",
		"IANA-TOKEN;X-P=:v;a,l:u e \\n \"",
		"x-sim-lower:END:VCALENDAR",
		"X-SIM-LONG:" + strings.Repeat("0123456789", 12),
		"X-SIM-UTF8;X-N=ä€😀:ü€😀",
	}[w.c.N(7)])
}

func (w *lineWriter) extraComp(depth int) {
	n := []string{"X-SIM-COMP", "VAVAILABILITY", "VX", "X-SIM-INNER"}[w.c.N(4)]
	w.lines = append(w.lines, w.name("BEGIN")+":"+n, "X-INNER:1", "UID:not an event", "DTSTAMP:garbage")

	if depth < 3 && w.c.Chance(1, 2) {
		w.extraComp(depth + 1)
	}

	w.lines = append(w.lines, w.name("END")+":"+n)
}

func (w *lineWriter) comp(t *Comp, top bool) {
	w.lines = append(w.lines, w.name("BEGIN")+":"+w.name(t.Name))
	ps := t.Props

	if w.st.Order {
		// any order that keeps equal names in sequence
		perm := w.c.Perm(len(ps))
		byName := map[string][]Prop{}

		for _, p := range ps {
			byName[p.Name] = append(byName[p.Name], p)
		}

		out := make([]Prop, 0, len(ps))

		for _, i := range perm {
			n := ps[i].Name
			out = append(out, byName[n][0])
			byName[n] = byName[n][1:]
		}

		ps = out
	}

	for _, p := range ps {
		w.c.Group(func() {
			w.extra()
			w.prop(p)
		})
	}

	w.extra()

	ss := t.Subs

	if w.st.Order && len(ss) > 1 {
		perm := w.c.Perm(len(ss))
		byName := map[string][]*Comp{}

		for _, s := range ss {
			byName[s.Name] = append(byName[s.Name], s)
		}

		out := make([]*Comp, 0, len(ss))

		for _, i := range perm {
			n := ss[i].Name
			out = append(out, byName[n][0])
			byName[n] = byName[n][1:]
		}

		ss = out
	}

	for _, s := range ss {
		w.c.Group(func() {
			if top && w.st.Extras && w.c.Chance(1, 6) {
				w.extraComp(0)
			}

			w.comp(s, false)
		})
	}

	w.lines = append(w.lines, w.name("END")+":"+w.name(t.Name))
}

func (w *lineWriter) esc6868(s string) string {
	var b strings.Builder

	for i, c := range s {
		switch c {
		case '^':
			// before anything but ^, n, ' a lone one means itself
			if rest := s[i+1:]; w.st.Spell && (rest == "" || !strings.ContainsRune("^n'\n\"", rune(rest[0]))) && w.c.Chance(1, 2) {
				b.WriteByte('^')
			} else {
				b.WriteString("^^")
			}
		case '\n':
			b.WriteString("^n")
		case '"':
			b.WriteString("^'")
		default:
			b.WriteRune(c)
		}
	}

	return b.String()
}

// number spells a number with as many digits and signs as the format allows.
func (w *lineWriter) number(s string, digits int, sign bool) string {
	if !w.st.Spell || !w.c.Chance(1, 2) {
		return s
	}

	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")

	if n := digits - len(s); n > 0 {
		s = strings.Repeat("0", w.c.N(n+1)) + s
	}

	if neg {
		return "-" + s
	}

	if sign && w.c.N(2) == 1 {
		return "+" + s
	}

	return s
}

// ruleDigits says how many digits the numbers of a rule part may have.
var ruleDigits = map[string]int{"COUNT": 9, "INTERVAL": 6, "BYSECOND": 2, "BYMINUTE": 2, "BYHOUR": 2, "BYDAY": 2, "BYMONTHDAY": 2, "BYYEARDAY": 3, "BYWEEKNO": 2, "BYMONTH": 2, "BYSETPOS": 3}

func (w *lineWriter) rulePart(s string) string {
	k, v, _ := strings.Cut(s, "=")
	digits := ruleDigits[k]

	if digits == 0 {
		if k != "UNTIL" {
			v = w.name(v)
		}

		return w.name(k) + "=" + v
	}

	l := strings.Split(v, ",")

	for i, n := range l {
		word := strings.TrimLeft(n, "-0123456789")
		n = n[:len(n)-len(word)]

		if n != "" {
			n = w.number(n, digits, k == "BYDAY" || k == "BYMONTHDAY" || k == "BYYEARDAY" || k == "BYWEEKNO" || k == "BYSETPOS")
		}

		l[i] = n + w.name(word)
	}

	return w.name(k) + "=" + strings.Join(l, ",")
}

func (w *lineWriter) decimal(s string) string {
	f, _ := strconv.ParseFloat(s, 64)
	s = strconv.FormatFloat(f, 'f', -1, 64)

	if !w.st.Spell {
		return s
	}

	if w.c.Chance(1, 2) {
		if !strings.Contains(s, ".") {
			s += "."
		}

		s += strings.Repeat("0", 1+w.c.N(6))
	}

	if whole, part, ok := strings.Cut(s, "."); ok {
		return w.number(whole, 4, true) + "." + part
	}

	return w.number(s, 4, true)
}

func (w *lineWriter) paramText(s string, quote bool) string {
	e := w.esc6868(s)

	if quote || strings.ContainsAny(e, ";:,") || w.st.Quote && w.c.Chance(1, 2) {
		return "\"" + e + "\""
	}

	return e
}

func (w *lineWriter) escText(s string) string {
	var b strings.Builder

	for _, c := range s {
		switch c {
		case '\\':
			b.WriteString("\\\\")
		case ';', ',':
			b.WriteByte('\\')
			b.WriteRune(c)
		case '\n':
			if w.st.Escapes && w.c.Chance(1, 2) {
				b.WriteString("\\N")
			} else {
				b.WriteString("\\n")
			}
		default:
			b.WriteRune(c)
		}
	}

	return b.String()
}

func (w *lineWriter) dur(s string, neg int) string {
	if s == "0" {
		if w.st.Spell {
			return []string{"PT0S", "P0D", "P0W", "+PT0H", "PT0H0M0S", "P0DT0M", "P00D", "-PT0S"}[w.c.N(7+neg)]
		}

		return "PT0S"
	}

	sign := ""

	if s[0] == '-' {
		sign, s = "-", s[1:]
	} else if w.st.Spell && w.c.Chance(1, 3) {
		sign = "+"
	}

	if s[0] == 'W' {
		return sign + "P" + w.number(s[1:], 4, false) + "W"
	}

	if w.st.Spell && w.c.Chance(1, 2) {
		return w.longDur(sign, s)
	}

	f := strings.FieldsFunc(s, func(r rune) bool { return r >= 'A' })
	d, h, m, sec := f[0], f[1], f[2], f[3]
	out := sign + "P"

	if d != "0" {
		out += d + "D"
	}

	if h == "0" && m == "0" && sec == "0" {
		return out
	}

	out += "T"

	if h != "0" {
		out += h + "H"

		if m != "0" || sec != "0" {
			out += m + "M"
		}
	} else if m != "0" {
		out += m + "M"
	}

	if sec != "0" {
		out += sec + "S"
	}

	return out
}

// longDur writes out parts that are zero.
func (w *lineWriter) longDur(sign, s string) string {
	f := strings.FieldsFunc(s, func(r rune) bool { return r >= 'A' })
	first, last := 0, 3

	for first < 3 && f[first] == "0" && w.c.N(2) == 0 {
		first++
	}

	for last > first && f[last] == "0" && w.c.N(2) == 0 {
		last--
	}

	out := sign + "P"

	for i := first; i <= last; i++ {
		if i == 1 || i == first && i > 1 {
			out += "T"
		}

		out += w.number(f[i], 4, false) + "DHMS"[i:i+1]
	}

	return out
}

func stamp(zone, wall string) string {
	if zone == "utc" {
		return wall + "Z"
	}

	return wall
}

func writeOffset(s string) string {
	n, _ := strconv.Atoi(s)
	out := "+"

	if n < 0 {
		out, n = "-", -n
	}

	two := func(v int) string { return string(rune('0'+v/10)) + string(rune('0'+v%10)) }
	out += two(n/3600) + two(n/60%60)

	if n%60 != 0 {
		out += two(n % 60)
	}

	return out
}

func (w *lineWriter) prop(p Prop) {
	v := p.Val
	ps := []string{}

	for _, q := range p.Params {
		spec := paramByName[q.Name]
		s := w.name(q.Name) + "="

		for i, x := range q.S {
			if i > 0 {
				s += ","
			}

			switch spec.kind {
			case pText:
				s += w.paramText(x, false)
			case pQuoted, pTexts:
				s += w.paramText(x, true)
			case pURI, pAddrs:
				s += "\"" + x + "\""
			default:
				if x == spec.def && w.st.Extras && w.c.Chance(1, 2) {
					x = "X-SIM-KIND" // a value nobody knows
				}

				s += w.name(x)
			}
		}

		ps = append(ps, s)
	}

	zone, text := "", ""

	switch v.Kind {
	case Text:
		text = w.escText(v.S[0])
	case MText:
		l := make([]string, len(v.S))

		for i, s := range v.S {
			l[i] = w.escText(s)
		}

		text = strings.Join(l, ",")
	case DateTime:
		zone, text = v.S[0], stamp(v.S[0], v.S[1])
	case Period:
		zone = v.S[0]
		text = stamp(zone, v.S[1]) + "/"

		if v.S[2] == "dur" {
			text += w.dur(v.S[3], 0)
		} else {
			text += stamp(zone, v.S[3])
		}
	case Recur:
		zone = v.S[0]
		l := append([]string(nil), v.S[1:]...)

		// FREQ first, as RFC 5545 asks; the rest in any order.
		sort.SliceStable(l, func(a, b int) bool {
			return strings.HasPrefix(l[a], "FREQ=") && !strings.HasPrefix(l[b], "FREQ=")
		})

		if w.st.Order && len(l) > 2 {
			rest := append([]string(nil), l[1:]...)

			for i, j := range w.c.Perm(len(rest)) {
				l[1+i] = rest[j]
			}
		}

		for i, s := range l {
			if strings.HasPrefix(s, "UNTIL=") && zone == "utc" {
				l[i] = s + "Z"
			}

			l[i] = w.rulePart(l[i])
		}

		text = strings.Join(l, ";")
	case Duration:
		text = w.dur(v.S[0], 1)
	case Geo:
		text = w.decimal(v.S[0]) + ";" + w.decimal(v.S[1])
	case Integer:
		text = w.number(v.S[0], 5, true)
	case Offset:
		text = writeOffset(v.S[0])

		if w.st.Spell && len(text) == 5 && w.c.Chance(1, 2) {
			text += "00"
		}
	case Enum, Boolean:
		text = w.name(v.S[0])
	default:
		text = v.S[0]
	}

	if spec := byName[p.Name]; spec.kind != v.Kind {
		ps = append(ps, w.name("VALUE")+"="+w.name(v.Kind))
	} else if spec.alt != nil && w.st.Extras && w.c.Chance(1, 4) {
		ps = append(ps, w.name("VALUE")+"="+w.name(v.Kind))
	}

	if v.Kind == Binary {
		ps = append(ps, w.name("ENCODING")+"="+w.name("BASE64"))
	}

	if strings.HasPrefix(zone, "tz:") {
		ps = append(ps, w.name("TZID")+"="+w.paramText(zone[3:], false))
	}

	if w.st.Extras && w.c.Chance(1, 8) {
		ps = append(ps, []string{"X-SIM=1", "X-SIM-Q=\"a;b:c\"", "X-SIM-L=a,\"b,c\",d"}[w.c.N(3)])
	}

	line := w.name(p.Name)

	perm := make([]int, len(ps))

	for i := range perm {
		perm[i] = i
	}

	if w.st.Order {
		perm = w.c.Perm(len(ps))
	}

	for _, i := range perm {
		line += ";" + ps[i]
	}

	w.lines = append(w.lines, line+":"+text)
}

// Stream assembles content lines, folding them as the style says.
func Stream(c Chooser, st Style, lines []string) []byte {
	var b []byte

	for _, l := range lines {
		switch st.Fold {
		case 0:
			b = append(b, l...)
		case 1:
			col := 0

			for i := 0; i < len(l); {
				_, n := utf8.DecodeRuneInString(l[i:])

				if col+n > 75 {
					b = append(b, "\r\n "...)
					col = 1
				}

				b = append(b, l[i:i+n]...)
				col += n
				i += n
			}
		default:
			c.Group(func() { b = FoldAt(c, b, l, 20) })
		}

		b = append(b, "\r\n"...)
	}

	return b
}

// FoldAt appends l to b with folds at random octets, about one in oneIn.
func FoldAt(c Chooser, b []byte, l string, oneIn int) []byte {
	for i := 0; i < len(l); {
		if i > 0 {
			for k := 0; ; k++ {
				// consecutive folds happen, too
				if c.N(3) == 2 {
					b = append(b, "\r\n\t"...)
				} else {
					b = append(b, "\r\n "...)
				}

				if k == 0 && c.N(400) == 399 {
					b = append(b, strings.Repeat("\r\n ", c.N([]int{20, 200, 1500}[c.N(3)]))...)
				}

				if k > 2 || !c.Chance(1, 8) {
					break
				}
			}
		}

		n := 1 + c.N(2*oneIn)

		if n > len(l)-i {
			n = len(l) - i
		}

		b = append(b, l[i:i+n]...)
		i += n
	}

	return b
}
