package checks

import (
	"regexp"
	"strings"
	"unicode/utf8"

	"verif/sim/core"
	"verif/sim/gen"
	"verif/sim/model"
)

// send delivers content lines as a stream and returns what Decode makes of it.
func send(r *core.Run, st model.Style, lines []string) *core.Outcome {
	b := model.Stream(r, st, lines)

	if r.Keep {
		r.Note("stream: %s", show(b))
	}

	rd := r.NewReader(b)

	return r.Decode(rd.Wrap(), len(b))
}

// plain says whether Decode reads the subject's plain stream correctly. If it
// does not, no variation of the stream says anything.
func (s *subject) plain(r *core.Run) bool {
	b := model.Stream(r, model.Style{}, model.Lines(r, model.Style{}, s.tree))

	if verdict(whole(r, b)) == s.canon {
		return true
	}

	r.Trivial = true

	r.Probe("plain stream not read")

	return false
}

// c16: letter case.
func c16(r *core.Run) {
	host(r)

	s := newSubject(r, gen.New(r))

	if !s.plain(r) {
		return
	}

	for n := 1 + r.N(3); n > 0; n-- {
		st := model.DrawStyle(r)
		st.Extras = false
		st.Case, st.Shout = true, r.N(2) == 1

		r.Fault("peer:letter-case")

		o := send(r, st, model.Lines(r, st, s.tree))
		sameVerdict(r, "case", "letter case changes the outcome of Decode", s.canon, verdict(o), errText(o))
	}
}

// c17: peers with extensions.
func c17(r *core.Run) {
	host(r)

	s := newSubject(r, gen.New(r))

	if !s.plain(r) {
		return
	}

	for n := 1 + r.N(3); n > 0; n-- {
		st := model.DrawStyle(r)
		st.Extras, st.Case = false, false

		lines, added := model.Skew(r, model.Lines(r, st, s.tree), []int{20, 2, 5, 60}[r.N(4)])

		for k, n := range added {
			r.Faults[k] += n
		}

		o := send(r, st, lines)
		sameVerdict(r, "skew", "extensions of the peer change the outcome of Decode", s.canon, verdict(o), errText(o))
	}
}

// c18: lines lost and repeated between sender and receiver.
func c18(r *core.Run) {
	host(r)

	g := gen.New(r)
	s := newSubject(r, g)

	if !s.plain(r) {
		return
	}

	var other *subject

	for n := 1 + r.N(6); n > 0; n-- {
		t := s.tree.Clone()

		for k := r.N(3); k >= 0; k-- {
			var cs []*model.Comp

			t.Walk(func(c *model.Comp) { cs = append(cs, c) })

			c := cs[r.N(len(cs))]

			switch r.N(8) {
			case 6, 7: // properties that depend on each other come and go
				for _, p := range model.Bound(c.Key()) {
					at := -1

					for j, q := range c.Props {
						if q.Name == p.Name {
							at = j
						}
					}

					switch want := r.N(2) == 1; {
					case want && at < 0:
						r.Fault("link:property-misdirected")

						c.Props = append(c.Props, p)
					case !want && at >= 0:
						r.Fault("link:property-lost")

						c.Props = append(c.Props[:at:at], c.Props[at+1:]...)
					}
				}
			case 0, 1: // a property is lost, preferably a required one
				i := -1

				if q := model.Required(c.Key()); len(q) > 0 && r.N(2) == 0 {
					n := q[r.N(len(q))]

					for j, p := range c.Props {
						if p.Name == n {
							i = j
						}
					}
				} else if len(c.Props) > 0 {
					i = r.N(len(c.Props))
				}

				if i >= 0 {
					r.Fault("link:property-lost")

					c.Props = append(c.Props[:i:i], c.Props[i+1:]...)
				}
			case 2: // a property is repeated
				if len(c.Props) > 0 {
					r.Fault("link:property-repeated")

					c.Props = append(c.Props, c.Props[r.N(len(c.Props))])
				}
			case 3, 4: // a property of another component of the kind arrives here
				if other == nil {
					g.K.Fill = 60
					other = newSubject(r, g)
				}

				var from []*model.Comp

				other.tree.Walk(func(d *model.Comp) {
					if d.Key() == c.Key() && len(d.Props) > 0 {
						from = append(from, d)
					}
				})

				if len(from) > 0 {
					r.Fault("link:property-misdirected")

					d := from[r.N(len(from))]
					c.Props = append(c.Props, d.Props[r.N(len(d.Props))])
				}
			case 5: // a component is lost or repeated
				if len(c.Subs) == 0 {
					break
				}

				if i := r.N(len(c.Subs)); r.N(3) < 2 {
					r.Fault("link:component-lost")

					c.Subs = append(c.Subs[:i:i], c.Subs[i+1:]...)
				} else {
					r.Fault("link:component-repeated")

					c.Subs = append(c.Subs, c.Subs[i].Clone())
				}
			}
		}

		st := model.DrawStyle(r)
		want := t.Canon()

		if err := t.Rules(); err != nil {
			want = "error"

			r.Probe("must be rejected")
			r.Note("%s", err)
		} else {
			r.Probe("must be accepted")
		}

		o := send(r, st, model.Lines(r, st, t))
		sameVerdict(r, "rules", "Decode of a calendar with lost, repeated or misdirected lines", want, verdict(o), errText(o))
	}
}

// c19: values damaged between sender and receiver.
func c19(r *core.Run) {
	host(r)

	s := newSubject(r, gen.New(r))

	if !s.plain(r) {
		return
	}

	st := model.Style{}
	lines := model.Lines(r, st, s.tree)

	for n := 1 + r.N(12); n > 0; n-- {
		if r.Chance(1, 8) {
			damageBreak(r, lines)

			continue
		}

		i, head := r.N(len(lines)), r.N(4) == 3

		for k := 3; k > 0 && (head && !strings.Contains(lines[i], ";") || !head && !model.Structured(lines[i])); k-- { // prefer what can be malformed
			i = r.N(len(lines))
		}

		l := lines[i]

		for k := r.N(2); k >= 0; k-- {
			if head {
				l = damageHead(r, l)
			} else {
				l = damageValue(r, l)
			}
		}

		if l == lines[i] || strings.Contains(l, "\r\n") {
			continue
		}

		if head {
			r.Fault("corrupt:name-or-parameter")
		} else {
			r.Fault("corrupt:value")
		}

		ls := append([]string(nil), lines...)
		ls[i] = l

		var (
			t   *model.Comp
			err error
		)

		if head {
			switch err = model.StrictHead(lines[i], l); err {
			case nil:
				t, err = model.Parse(model.Stream(r, st, ls))
			case model.ErrIgnored:
				r.Probe("turned into an unknown property")

				t, err = model.Parse(model.Stream(r, st, append(append([]string(nil), lines[:i]...), lines[i+1:]...)))
			}
		} else {
			t, err = model.ParseStrict(model.Stream(r, st, ls), i)
		}

		want := ""

		switch {
		case model.Unclear(err):
			r.Probe(model.Cause(err))

			switch model.Cause(err) {
			case "unclear: escape":
				lenient(r, ls, i)
			case "unclear: large number":
				large(r, ls, i)
			}

			continue
		case err != nil:
			want = "error"

			r.Probe("must be rejected")
			r.Note("%s", err)
		case !t.Settled():
			r.Probe("unclear: hour that is skipped or repeated") // a reading of the clock that does not exist

			continue
		case t.Rules() != nil:
			want = "error"

			r.Probe("must be rejected")
		default:
			want = t.Canon()

			r.Probe("must be accepted")
		}

		o := send(r, model.Style{}, ls)
		sameVerdict(r, "value", "Decode of a calendar with a damaged value, line "+clipLine(l), want, verdict(o), errText(o))
	}
}

// lenient sends lines of which one has a text with unknown escapes. Readers may
// refuse it, or take the backslash or leave it, but add nothing of their own.
func lenient(r *core.Run, lines []string, i int) {
	o := send(r, model.Style{}, lines)
	got := verdict(o)
	ls := append([]string(nil), lines...)

	for _, keep := range []bool{true, false} {
		ls[i] = model.Escapes(lines[i], keep)

		t, err := model.ParseStrict(model.Stream(r, model.Style{}, ls), i)

		if err != nil || got == "error" || got == t.Canon() {
			return
		}
	}

	r.Fail("escape", "Decode of a calendar with an unknown escape in a text, line %s: neither an error nor the text with or without the backslash", clipLine(lines[i]))
}

var long = regexp.MustCompile("[0-9]{19,}")

// large sends lines of which one has a number with more digits than readers need to
// take. They may refuse it, but not take it for another number.
func large(r *core.Run, lines []string, i int) {
	const short = "424242424242"

	head, v := model.SplitValue(lines[i])
	at := long.FindAllStringIndex(v, -1)

	if len(at) != 1 {
		return
	}

	n := strings.TrimLeft(v[at[0][0]:at[0][1]], "0")

	if n == "" {
		return
	}

	got := verdict(send(r, model.Style{}, lines))

	if got == "error" {
		return
	}

	ls := append([]string(nil), lines...)
	ls[i] = head + v[:at[0][0]] + short + v[at[0][1]:]

	t, err := model.ParseStrict(model.Stream(r, model.Style{}, ls), i)

	if err == nil && t.Settled() && t.Rules() == nil && strings.ReplaceAll(t.Canon(), short, n) != got {
		r.Fail("number", "Decode of a calendar with a large number, line %s: neither an error nor that number", clipLine(lines[i]))
	}
}

// damageBreak sends the lines with one of the breaks between them damaged.
func damageBreak(r *core.Run, lines []string) {
	i := r.N(len(lines) - 1)
	br := []string{"\n", "\r", "\r\r\n", "\r\n\r\n", "\n\r", "\r\n\n", "\r ", "\n ", "\x00\r\n", ""}[r.N(10)]

	ls := append([]string(nil), lines[:i]...)
	ls = append(append(ls, lines[i]+br+lines[i+1]), lines[i+2:]...)
	want := "error"

	if br == "" { // two lines have become one
		switch t, err := model.ParseStrict(model.Stream(r, model.Style{}, ls), i); {
		case model.Unclear(err):
			r.Probe(model.Cause(err))

			return
		case err == nil && !t.Settled():
			return
		case err == nil && t.Rules() == nil:
			want = t.Canon()
		}
	}

	r.Fault("corrupt:line-break")

	o := send(r, model.Style{}, ls)
	sameVerdict(r, "break", "Decode of a calendar with a damaged line break, lines "+clipLine(lines[i])+" and "+clipLine(lines[i+1]), want, verdict(o), errText(o))
}

// damageHead changes what stands before the value of a content line.
func damageHead(r *core.Run, l string) string {
	h, v := model.SplitValue(l)
	rs := []rune(h)
	i := r.N(len(rs) + 1)

	const alphabet = ";:=,\"^ A0-_\x00\x7fé\t\n\r"

	a := []rune(alphabet)
	c := string(a[r.N(len(a))])

	switch r.N(7) {
	case 6: // a parameter again
		if ps := model.SplitParams(h); len(ps) > 0 {
			p := ps[r.N(len(ps))]
			j := len(h) - len(ps[len(ps)-1]) - 1

			if k := r.N(2); k == 1 {
				j = strings.IndexByte(h, ';')
			}

			return h[:j] + p + h[j:] + v
		}
	case 5: // lose the quotes of one value
		if p := strings.Split(h, "\""); len(p) > 2 {
			j := 1 + 2*r.N(len(p)/2)

			return strings.Join(p[:j], "\"") + p[j] + strings.Join(p[j+1:], "\"") + v
		}
	case 0: // insert
		return string(rs[:i]) + c + string(rs[i:]) + v
	case 1: // replace
		if i < len(rs) {
			return string(rs[:i]) + c + string(rs[i+1:]) + v
		}
	case 2: // lose
		if i < len(rs) {
			return string(rs[:i]) + string(rs[i+1:]) + v
		}
	case 3: // lose a separator or quote
		var at []int

		for j, c := range rs {
			if strings.ContainsRune(";:=,\"", c) {
				at = append(at, j)
			}
		}

		if len(at) > 0 {
			j := at[r.N(len(at))]

			return string(rs[:j]) + string(rs[j+1:]) + v
		}
	case 4: // something more before a separator
		var at []int

		for j, c := range rs {
			if strings.ContainsRune(";:=,\"", c) {
				at = append(at, j)
			}
		}

		if len(at) > 0 {
			j := at[r.N(len(at))]

			return string(rs[:j]) + []string{c, ",x", ",\"x\"", "x", "\"", ";", ";=x", ";X", ";X=\"x", ";X=x\"x\"", ";X=\"x\"x"}[r.N(11)] + string(rs[j:]) + v
		}
	}

	return l
}

// damageValue changes the value of a content line.
func damageValue(r *core.Run, l string) string {
	head, v := model.SplitValue(l)

	if head == "" {
		return l
	}

	const alphabet = "0123456789+-TZPWDHMS/;,=.: %\\\"ABEFLNORUXY\x00\x7fé\r\n"

	ch := func() string {
		a := []rune(alphabet)

		return string(a[r.N(len(a))])
	}
	at := func() int { // between characters
		rs := []rune(v)

		return len(string(rs[:r.N(len(rs)+1)]))
	}

	switch r.N(11) {
	case 9, 10: // something that other formats have there
		i := at()

		switch r.N(5) {
		case 4: // instead of a field
			j := strings.LastIndexAny(v[:i], ";,/=") + 1

			if k := strings.IndexAny(v[i:], ";,/="); k >= 0 {
				i += k
			} else {
				i = len(v)
			}

			v = v[:j] + v[i:]
			i = j
		case 1:
			i = len(v)
		case 2: // after a number
			for i < len(v) && v[i] >= '0' && v[i] <= '9' {
				i++
			}
		case 3:
			i = 0
		}

		v = v[:i] + []string{".5", ",5", ".0", ",000", "e1", "E+2", "0x", "0x1p", "_0", "+0100", "-05:00", "Z", "00", " ", "NaN", "Inf", "-Inf", "++", "--", "P1D", "PT0S", "/P1D", "/", "T", "T000000", "%20", "infinity", "60", "24", "1.", "256", "65536", "4294967296", "18446744073709551616", "99999999999999999999", "00000000000000000000"}[r.N(36)] + v[i:]
	case 0: // replace a character
		if i := at(); i < len(v) {
			_, n := utf8.DecodeRuneInString(v[i:])
			v = v[:i] + ch() + v[i+n:]
		}
	case 1: // insert
		i := at()
		v = v[:i] + ch() + v[i:]
	case 2: // lose
		if i := at(); i < len(v) {
			_, n := utf8.DecodeRuneInString(v[i:])
			v = v[:i] + v[i+n:]
		}
	case 3: // cut
		v = v[:at()]
	case 4: // lose the beginning
		v = v[at():]
	case 5: // another digit
		var ds []int

		for i := range v {
			if v[i] >= '0' && v[i] <= '9' {
				ds = append(ds, i)
			}
		}

		if len(ds) > 0 {
			i := ds[r.N(len(ds))]
			v = v[:i] + string(rune('0'+r.N(10))) + v[i+1:]
		}
	case 6: // repeat a stretch
		i, j := at(), at()

		if i > j {
			i, j = j, i
		}

		if j-i < 40 {
			v = v[:j] + v[i:]
		}
	case 7: // a part that cannot be there
		v += []string{";BYMONTHDAY=32", ";BYMONTHDAY=-32", ";BYMONTHDAY=0", ";BYHOUR=24", ";BYMINUTE=60", ";BYSECOND=61", ";BYMONTH=13", ";BYMONTH=0", ";BYYEARDAY=367", ";BYYEARDAY=-367", ";BYYEARDAY=0", ";BYWEEKNO=54", ";BYWEEKNO=0", ";BYWEEKNO=-54", ";BYSETPOS=0", ";BYSETPOS=367", ";BYSETPOS=-367", ";BYDAY=54MO", ";BYDAY=0MO", ";BYDAY=MO,", ";BYDAY=XX", ";WKST=XX", ";WKST=", ";COUNT=", ";COUNT=-1", ";INTERVAL=x", ";UNTIL=2020", ";UNTIL=20201301", ";UNTIL=20200101T250000", ";BYEASTER=1", ";", ";BYHOUR", ";COUNT=1;UNTIL=20200101", ";UNTIL=20200101;COUNT=1", ";BYDAY=MO;BYDAY=TU", ";BYMONTH=1;BYMONTH=1", ";WKST=MO;WKST=MO", ";BYHOUR=1,2,3,24"}[r.N(38)]
	case 8: // swap the parts around a separator
		if i := strings.IndexAny(v, "/;,T"); i >= 0 {
			v = v[i+1:] + v[i:i+1] + v[:i]
		}
	}

	return head + v
}

func clipLine(s string) string {
	if len(s) > 200 {
		s = strings.ToValidUTF8(s[:200], "") + "..."
	}

	return s
}

// c20: whatever a conforming peer sends.
func c20(r *core.Run) {
	host(r)

	s := newSubject(r, gen.New(r))

	for n := 1 + r.N(3); n > 0; n-- {
		st := model.DrawStyle(r)
		b := model.Stream(r, st, model.Lines(r, st, s.tree))

		if r.Keep {
			r.Note("stream: %s", show(b))
		}

		if r.N(4) == 3 { // more follows on the connection
			b = append(b, "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nEND:VCALENDAR\r\n"[:1+r.N(45)]...)
		}

		rd := r.NewReader(b)
		o := r.Decode(rd.Wrap(), len(b))
		sameVerdict(r, "peer", "Decode does not return what the peer sent", s.canon, verdict(o), errText(o))
	}
}

// c21: nodes that pass on what they received.
func c21(r *core.Run) {
	host(r)

	g := gen.New(r)
	s := newSubject(r, g)

	for n := 1 + r.N(6); n > 0; n-- {
		var b []byte

		switch r.N(6) {
		case 0:
			b = s.stream(r)
		case 1, 2, 3: // a line damaged
			st := model.DrawStyle(r)
			lines := model.Lines(r, st, s.tree)
			i := r.N(len(lines))

			for k := 3; k > 0 && !model.Structured(lines[i]); k-- {
				i = r.N(len(lines))
			}

			if r.N(4) == 3 {
				lines[i] = damageHead(r, lines[i])
			} else {
				lines[i] = damageValue(r, lines[i])
			}

			r.Fault("corrupt:line")

			b = model.Stream(r, st, lines)
		default:
			b = s.stream(r)
			b = damage(r, b, b)
		}

		relay(r, b)
	}
}

// relay sends b over up to four nodes.
func relay(r *core.Run, b []byte) {
	first, canon := "", ""

	for hop := 1 + r.N(3); hop >= 0; hop-- {
		rd := r.NewReader(b)
		o := r.Decode(rd.Wrap(), len(b))

		if first == "" {
			if o.Crashed() || o.Err != nil {
				r.Probe("not accepted")

				return
			}

			r.Probe("accepted")

			canon = canonOf(o.Cal)
		} else {
			if o.Crashed() || o.Err != nil {
				r.Fail("unreadable", "Decode of what a node passed on: %s", o)
			}

			sameVerdict(r, "changed", "passing on a calendar changes it", canon, canonOf(o.Cal), "")
		}

		w := r.NewWriter()
		size := len(b) + footprint(o.Cal)

		if r.N(4) == 3 { // a first attempt that may fail
			w.FailAt(1+r.N(5), r.N(1+len(b)))
			r.Encode(w.Wrap(), o.Cal, size)

			w = r.NewWriter()
		}

		o = r.Encode(w.Wrap(), o.Cal, size)

		if r.Keep {
			r.Note("passed on: %s", show(w.Got))
		}

		if o.Crashed() || o.Err != nil {
			r.Fail("refused", "Encode of a calendar Decode returned: %s", o)
		}

		if first != "" && string(w.Got) != first {
			r.Fail("drift", "passing on a calendar again writes another stream: %s", firstDiff([]byte(first), w.Got))
		}

		first = string(w.Got)
		b = w.Got
	}
}
