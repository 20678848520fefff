// Package gen fills calendars with choices from a run, by reflection over the
// exported types of the package under test.
package gen

import (
	"net/url"
	"reflect"
	"strings"
	"time"

	"verif/sim/core"
	"verif/sim/zones"
	"vimagination.zapto.org/ics"
)

// Gen generates valid calendars.
type Gen struct {
	*core.Run
	K Knobs
}

// Knobs are drawn per run (swarm).
type Knobs struct {
	Fill     int  // percent of optional fields filled
	ListMax  int  // longest list
	CompMax  int  // components of each kind
	TextMode int  // length distribution
	Chars    uint // enabled character classes
	Zones    []string
	TimeMix  uint // enabled kinds of times: 1 utc, 2 local, 4 named zone, 8 bare offset
	Sub      bool // sub-second parts
	NoBinary bool
	Ancient  bool // years far from now
	Bulk     int  // one list or text that is much longer than all others: 1 list, 2 components, 3 text, 4 list in one line, 5 recurrence
	Any      bool // numbers and characters from all over their ranges
}

// New draws the knobs.
func New(r *core.Run) *Gen {
	g := &Gen{Run: r}
	k := &g.K
	k.Fill = []int{12, 0, 4, 30, 60, 100}[r.N(6)]
	k.ListMax = []int{1, 2, 3, 6}[r.N(4)]
	k.CompMax = []int{1, 1, 2, 3}[r.N(4)]
	k.TextMode = r.N(8)
	k.Chars = uint(r.N(256))
	k.TimeMix = uint(1 + r.N(15))
	k.Sub = r.Chance(1, 6)
	k.Ancient = r.Chance(1, 6)

	k.Any = r.N(3) == 2

	if r.Chance(1, 25) {
		k.Bulk = 1 + r.N(5)
		k.TextMode = 0

		if k.Bulk < 4 {
			k.Fill = min(k.Fill, 12)
		} else {
			k.Fill = max(k.Fill, 12)
		}
	}

	if k.Fill == 100 {
		k.ListMax = 2
	}

	names := zones.Names()
	n := 1 + r.N(3)
	alias := 0

	if r.N(2) == 1 {
		alias = r.N(1 << 30)
	}

	for i := 0; i < n; i++ {
		k.Zones = append(k.Zones, zones.Alias(names[r.N(len(names))], alias))
	}

	return g
}

// bulk reports, at most once in a run, whether this is the place for bulk.
func (g *Gen) bulk(kind, odds int) bool {
	if g.K.Bulk != kind || g.N(odds) > 0 {
		return false
	}

	g.K.Bulk = 0

	return true
}

// wide draws a number of up to the given bits, with every length equally likely.
func (g *Gen) wide(bits int) uint64 {
	n := g.N(bits + 1)
	v := uint64(g.N(1 << uint(min(n, 32))))

	if n > 32 {
		v = v<<uint(n-32) | uint64(g.N(1<<uint(n-32)))
	}

	return v
}

func (g *Gen) opt() bool { return g.N(100) >= 100-g.K.Fill }

// Calendar generates a valid calendar with at least one component.
func (g *Gen) Calendar() *ics.Calendar {
	cal := &ics.Calendar{
		Version:   "2.0",
		ProductID: ics.PropProductID("-//sim//" + g.Text(1) + "//EN"),
	}

	if g.Chance(1, 8) {
		cal.Version = ics.PropVersion(g.Text(2))
	}

	kinds := 1 + g.N(31) // non-empty subset of the five kinds

	if g.Chance(1, 32) {
		kinds = 0
	}

	for i := 0; i < 5; i++ {
		n := 0

		if kinds>>uint(i)&1 == 1 {
			n = 1 + g.N(g.K.CompMax)

			if g.bulk(2, 1) {
				n = 10 + g.N(60)
			}
		}

		g.Group(func() { g.components(cal, i, n) })
	}

	return cal
}

func (g *Gen) components(cal *ics.Calendar, kind, n int) {
	for ; n > 0; n-- {
		g.Group(func() {
			switch kind {
			case 0:
				cal.Event = append(cal.Event, g.Event())
			case 1:
				cal.Todo = append(cal.Todo, g.Todo())
			case 2:
				var j ics.Journal

				g.Fill(&j)
				cal.Journal = append(cal.Journal, j)
			case 3:
				var f ics.FreeBusy

				g.Fill(&f)
				cal.FreeBusy = append(cal.FreeBusy, f)
			case 4:
				cal.Timezone = append(cal.Timezone, g.Timezone())
			}
		})
	}
}

// Event generates an event.
func (g *Gen) Event() ics.Event {
	var e ics.Event

	g.Fill(&e)

	if e.DateTimeEnd != nil && e.Duration != nil {
		if g.N(2) == 0 {
			e.Duration = nil
		} else {
			e.DateTimeEnd = nil
		}
	}

	return e
}

// Todo generates a to-do.
func (g *Gen) Todo() ics.Todo {
	var t ics.Todo

	g.Fill(&t)

	if t.Due != nil && t.Duration != nil {
		if g.N(2) == 0 {
			t.Duration = nil
		} else {
			t.Due = nil
		}
	}

	if t.Duration != nil && t.DateTimeStart == nil {
		t.DateTimeStart = new(ics.PropDateTimeStart)
		g.value(reflect.ValueOf(t.DateTimeStart).Elem())
	}

	return t
}

// Timezone generates a time zone.
func (g *Gen) Timezone() ics.Timezone {
	var t ics.Timezone

	g.Fill(&t)

	if len(t.Standard)+len(t.Daylight) == 0 {
		if g.N(2) == 0 {
			t.Standard = make([]ics.Standard, 1)
			g.Fill(&t.Standard[0])
		} else {
			t.Daylight = make([]ics.Daylight, 1)
			g.Fill(&t.Daylight[0])
		}
	}

	return t
}

// Alarm generates an alarm of a random kind.
func (g *Gen) Alarm() ics.Alarm {
	var a ics.AlarmType

	switch g.N(5) {
	case 0:
		a = new(ics.AlarmAudio)
	case 1:
		a = new(ics.AlarmDisplay)
	case 2:
		a = new(ics.AlarmEmail)
	case 3:
		a = new(ics.AlarmURI)
	case 4:
		a = new(ics.AlarmNone)
	}

	v := reflect.ValueOf(a).Elem()
	g.fill(v)

	f := func(n string) reflect.Value { return v.FieldByName(n) }

	if f("Duration").IsValid() && f("Duration").IsNil() != f("Repeat").IsNil() {
		g.ptr(f("Duration"))
		g.ptr(f("Repeat"))
	}

	if f("GeoLocation").IsValid() && f("GeoLocation").Len() > 0 && f("Proximity").IsNil() {
		g.ptr(f("Proximity"))
	}

	return ics.Alarm{AlarmType: a}
}

func (g *Gen) ptr(v reflect.Value) {
	if v.IsNil() {
		v.Set(reflect.New(v.Type().Elem()))
		g.value(v.Elem())
	}
}

// Value fills an addressable value.
func (g *Gen) Value(v reflect.Value) { g.value(v) }

// Fill fills the struct p points to.
func (g *Gen) Fill(p any) { g.fill(reflect.ValueOf(p).Elem()) }

func (g *Gen) fill(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		g.Group(func() { g.field(v.Field(i)) })
	}
}

func (g *Gen) field(v reflect.Value) {
	t := v.Type()

	switch {
	case t.Kind() == reflect.Ptr:
		if g.opt() {
			v.Set(reflect.New(t.Elem()))
			g.value(v.Elem())
		}
	case t.Kind() == reflect.Slice && t.Name() == "":
		if !g.opt() {
			return
		}

		n := 1 + g.N(g.K.ListMax)

		if g.Chance(1, 30) {
			n = 0 // empty, but there
		} else if g.bulk(1, 3) {
			n = 10 + g.N(300)
		}

		v.Set(reflect.MakeSlice(t, n, n))

		for i := 0; i < n; i++ {
			g.Group(func() { g.value(v.Index(i)) })
		}
	default:
		g.value(v)
	}
}

// AltFields are the alternatives of which a property has exactly one.
var AltFields = map[string][]string{
	"PropAttachment":          {"URI", "Binary"},
	"PropDateTimeEnd":         {"DateTime", "Date"},
	"PropDateTimeStart":       {"DateTime", "Date"},
	"PropDue":                 {"DateTime", "Date"},
	"PropExceptionDateTime":   {"DateTime", "Date"},
	"PropRecurrenceDateTimes": {"DateTime", "Date", "Period"},
	"PropRecurrenceID":        {"DateTime", "Date"},
	"PropTrigger":             {"Duration", "DateTime"},
}

// Leaf says what leaf types hold whose Go type does not tell.
var Leaf = map[string]string{
	"Date": "date", "DateTime": "datetime", "PropCompleted": "datetime", "PropCreated": "datetime", "PropDateTimeStamp": "datetime",
	"PropLastModified": "datetime", "PropLastTriggered": "datetime", "PropAcknowledged": "datetime",
	"Duration": "duration", "PropDuration": "duration", "Period": "period", "Recur": "recur", "PropRecurrenceRule": "recur",
	"URI": "uri", "PropURL": "uri", "PropURI": "uri", "PropTimezoneURL": "uri", "PropGeoLocation": "uri",
	"ParamAlternativeRepresentation": "uri", "ParamURI": "uri", "CalendarAddress": "addr",
	"Text": "text", "MText": "mtext", "Binary": "binary", "TFloat": "geo", "PropGeo": "geo",
	"PropTimezoneOffsetFrom": "offset", "PropTimezoneOffsetTo": "offset",
	"ParamFormatType": "fmttype", "ParamLanguage": "lang",
	"PropClass": "enum3", "PropStatus": "enum8", "PropTimeTransparency": "enum2", "PropAlarmStatus": "enum3",
	"ParamCalendarUserType": "enum5", "ParamFreeBusyType": "enum5", "ParamParticipationStatus": "enum8",
	"ParamRelationshipType": "enum4", "ParamParticipationRole": "enum5",
	"PropUID": "text", "ParamMember": "texts", "ParamDelegator": "addrs", "ParamDelagatee": "addrs",
}

func (g *Gen) value(v reflect.Value) {
	t := v.Type()

	switch t.Name() {
	case "Alarm":
		v.Set(reflect.ValueOf(g.Alarm()))

		return
	case "Event", "Todo", "Journal", "FreeBusy", "Standard", "Daylight":
		g.fill(v)

		return
	}

	if alts, ok := AltFields[t.Name()]; ok {
		chosen := alts[g.N(len(alts))]

		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)

			switch {
			case f.Name == chosen:
				v.Field(i).Set(reflect.New(f.Type.Elem()))
				g.Group(func() { g.value(v.Field(i).Elem()) })
			case contains(alts, f.Name):
			default:
				g.Group(func() { g.field(v.Field(i)) })
			}
		}

		return
	}

	set := func(x any) { v.Set(reflect.ValueOf(x).Convert(t)) }

	switch k := Leaf[t.Name()]; k {
	case "date":
		d := g.Date()
		set(ics.Date{Time: d})
	case "datetime":
		set(ics.DateTime{Time: g.Time()})
	case "duration":
		set(g.Duration(true))
	case "period":
		set(g.Period())
	case "recur":
		set(g.Recur())
	case "uri":
		u, err := url.Parse(g.uri())
		if err != nil {
			panic(err)
		}

		set(ics.URI{URL: *u})
	case "addr":
		set(ics.CalendarAddress{URL: *g.addr()})
	case "addrs":
		n := g.N(3)

		if g.bulk(4, 3) {
			n = 10 + g.N(300)
		}

		l := reflect.MakeSlice(t, n, n)

		for i := 0; i < n; i++ {
			l.Index(i).Set(reflect.ValueOf(ics.CalendarAddress{URL: *g.addr()}))
		}

		if n > 0 {
			v.Set(l)
		}
	case "texts":
		n := g.N(4)

		if g.bulk(4, 3) {
			n = 10 + g.N(300)
		}

		for i := 0; i < n; i++ {
			v.Set(reflect.Append(v, reflect.ValueOf(g.Text(0))))
		}
	case "text":
		v.SetString(g.Text(0))
	case "mtext":
		l := ics.MText{}
		n := 1 + g.N(3)

		if g.bulk(4, 2) {
			n = 10 + g.N(300)
		}

		for ; n > 0; n-- {
			l = append(l, ics.Text(g.Text(0)))
		}

		set(l)
	case "binary":
		b := make(ics.Binary, g.size())

		for i := range b {
			if i < 5000 {
				b[i] = byte(g.N(256))
			} else {
				b[i] = b[i%4999]
			}
		}

		set(b)
	case "geo":
		fs := []float64{0, 37.386013, -122.082932, 90, -180, 1e-7, 1e21, -0.5, 123456789.125}
		f := func() float64 {
			if !g.K.Any {
				return fs[g.N(len(fs))]
			}

			f := float64(g.wide(40)) / float64([]int{1, 10, 1000, 1000000, 3, 7, 1 << 20}[g.N(7)])

			if g.N(2) == 1 {
				f = -f
			}

			return f
		}

		set(ics.TFloat{f(), f()})
	case "offset":
		os := []int{0, 3600, -18000, 19800, 45900, -12600, 3601, -59, 86399, -86399, 50400, 59}

		if g.K.Any {
			v.SetInt(int64(g.N(2*86399+1) - 86399))
		} else {
			v.SetInt(int64(os[g.N(len(os))]))
		}
	case "fmttype":
		v.SetString([]string{"text/plain", "image/svg+xml", "application/vnd.ms-excel", "a/b", "x!#$&.+-^_/y!#$&.+-^_", "application/x;y=z"}[g.N(6)])
	case "lang":
		if g.N(4) == 3 {
			v.SetString(g.Text(2))
		} else {
			v.SetString([]string{"en", "de-CH", "zh-Hant-TW"}[g.N(3)])
		}
	case "enum2", "enum3", "enum4", "enum5", "enum8":
		v.SetUint(uint64(g.N(int(k[4] - '0'))))
	default:
		switch t.Kind() {
		case reflect.String:
			v.SetString(g.Text(0))
		case reflect.Int32:
			is := []int64{0, 1, 5, 100, -1, 2147483647, -2147483648}

			if g.K.Any {
				v.SetInt(int64(int32(g.wide(32))))
			} else {
				v.SetInt(is[g.N(len(is))])
			}
		case reflect.Bool:
			v.SetBool(g.N(2) == 1)
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				g.Group(func() { g.field(v.Field(i)) })
			}
		default:
			panic("gen: " + t.String())
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}

	return false
}

// size draws a length by the run's length distribution.
func (g *Gen) size() int {
	if g.bulk(3, 3) {
		return 5000 + g.N(70000)
	}

	switch g.K.TextMode {
	case 0, 1:
		return g.N(8)
	case 2:
		return g.N(60)
	case 3:
		return 55 + g.N(30) // around the 75 octet limit
	case 4:
		if g.N(3) > 0 {
			return g.N(12)
		}

		return g.N(300)
	case 5:
		if g.N(6) > 0 {
			return g.N(12)
		}

		return 480 + g.N(60)
	case 6:
		if g.N(12) > 0 {
			return g.N(12)
		}

		return 4040 + g.N(100)
	}

	return 1 + g.N(3)
}

const plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

var classes = []string{
	" .-_/'()",
	"\\,;:",
	"\"^=",
	"\n\t",
	"\u00e4\u00f6\u00fc\u00df\u00f1\u00a0\u0085",
	"\u20ac\u6f22\u5b57\u304b\u2028\ufeff\ufffd",
	"\U0001f600\U0001f389\U00010348",
	"", // words that look like syntax
}

var words = []string{"BEGIN:VEVENT", "END:VCALENDAR", "\\n", "^n", "^'", "^^", "\\\\", ";VALUE=DATE", "\n ", "TZID=", "\",\"", "^"}

// Text draws a text. short: 0 by distribution, 1 plain only, 2 short.
func (g *Gen) Text(short int) string {
	if short == 1 {
		n := 1 + g.N(8)
		b := make([]byte, n)

		for i := range b {
			b[i] = plain[g.N(26)]
		}

		return string(b)
	}

	n := g.size()

	if short == 2 && n > 20 {
		n = 20
	}

	var sb strings.Builder

	for sb.Len() < n {
		if sb.Len() > 5000 { // no more choices
			sb.WriteString("x" + strings.ToValidUTF8(sb.String()[:n%97], ""))

			continue
		}

		c := g.N(16)

		if c < 8 || g.K.Chars>>uint(c-8)&1 == 0 {
			sb.WriteByte(plain[g.N(len(plain))])

			continue
		}

		if c == 15 {
			sb.WriteString(words[g.N(len(words))])

			continue
		}

		if c > 11 && g.K.Any {
			c := rune(0xa0 + g.wide(20))

			if g.N(8) == 7 {
				c = edges[g.N(len(edges))]
			}

			if c < 0xd800 || c > 0xdfff && c <= 0x10ffff {
				sb.WriteRune(c)
			}

			continue
		}

		rs := []rune(classes[c-8])
		sb.WriteRune(rs[g.N(len(rs))])
	}

	return sb.String()
}

// edges are characters at the ends of ranges, and ones that are easily taken for something else.
var edges = []rune{
	0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff,
	0x80, 0x85, 0x9f, 0xa0, 0xad, 0xff, 0x130, 0x131, 0x17f, 0x212a, 0x200b, 0x200d, 0x200e, 0x202e, 0x2028, 0x2029, 0x3000, 0xff0c, 0xff1a, 0xff1b, 0xe0001,
}

// anyURI draws a URI part by part; "" if it drew one that net/url spells differently.
func (g *Gen) anyURI(schemes ...string) string {
	part := func(max int, pieces string) string {
		var sb strings.Builder

		l := strings.Fields(pieces)

		for n := g.N(max); n > 0; n-- {
			sb.WriteString(l[g.N(len(l))])
		}

		return sb.String()
	}

	const chars = "a b Z 0 9 - . _ ~ ! $ & ' ( ) * + , ; = : @ %20 %C3%A4 %2F %25 %22"

	s := schemes[g.N(len(schemes))] + part(8, chars)

	if strings.Contains(s, "//") {
		s += "/" + part(12, chars+" /")
	}

	if g.N(3) == 2 {
		s += "?" + part(12, chars+" / ?")
	}

	if g.N(3) == 2 {
		s += "#" + part(12, chars+" / ?")
	}

	if u, err := url.Parse(s); err != nil || u.String() != s {
		return ""
	}

	return s
}

func (g *Gen) uri() string {
	if g.K.Any && g.N(2) == 1 {
		if s := g.anyURI("http://h", "x-a+b.c:", "https://u:p@", "CID:", "file:///", "urn:"); s != "" {
			return s
		}
	}

	s := []string{
		"http://example.com/", "https://user@example.com:8080/a/b?c=d&e=f#g", "mailto:someone@example.com", "CID:part3.msg.970415T083000@example.com",
		"ftp://example.com/pub/%20space/%E2%82%AC", "geo:40.443,-79.945;u=10", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "ldap://example.com:6666/o=ABC%20Industries,c=US???(cn=Jim%20Dolittle)",
		"/relative/path,with;chars", "http://[::1]:80/",
	}[g.N(10)]

	if g.K.TextMode >= 3 && g.Chance(1, 3) {
		s += strings.Repeat("x", g.size())
	}

	return s
}

func (g *Gen) addr() *url.URL {
	s := []string{"mailto:jane@example.com", "mailto:a.b+c@sub.example.org", "http://example.com/principals/x", "urn:x:y", "invalid:nomail", "http://User:p@Example.COM:80/Jane"}[g.N(6)]

	if g.K.Any && g.N(2) == 1 {
		if a := g.anyURI("mailto:", "mailto:a@", "http://h/", "tel:", "https://u@H.", "http://U:p@h:80/"); a != "" {
			s = a
		}
	}

	if g.K.TextMode >= 3 && g.Chance(1, 4) {
		s += strings.Repeat("y", g.size())
	}

	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}

	return u
}

// Date draws a date. Its zone does not matter to the format.
func (g *Gen) Date() time.Time {
	y, m := g.year(), 1+g.N(12)
	d := 1 + g.N(daysIn(y, m))
	loc := time.UTC

	switch g.N(4) {
	case 2:
		loc = time.Local
	case 3:
		loc, _ = zones.Load(g.K.Zones[g.N(len(g.K.Zones))])
	}

	h := 12 * g.N(2)

	if g.K.Any {
		h = g.N(24)
	}

	return time.Date(y, time.Month(m), d, h, 0, 0, 0, loc)
}

func daysIn(y, m int) int {
	return time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day()
}

func (g *Gen) year() int {
	if g.K.Ancient && g.K.Any {
		return 2 + g.N(9997)
	}

	if g.K.Ancient {
		return []int{1583, 1800, 1883, 1900, 9998, 2, 999, 2100, 1969}[g.N(9)]
	}

	return 1971 + g.N(60)
}

// Time draws a time of a kind enabled in the run.
func (g *Gen) Time() time.Time {
	k := g.N(4)

	for g.K.TimeMix>>uint(k)&1 == 0 {
		k = (k + 1) % 4
	}

	var loc *time.Location

	switch k {
	case 0:
		loc = time.UTC
	case 1:
		loc = time.Local
	case 2:
		n := g.K.Zones[g.N(len(g.K.Zones))]

		var err error

		if loc, err = zones.Load(n); err != nil {
			panic(err)
		}
	case 3:
		loc = time.FixedZone("", []int{3600, 0, -18000, 20700, 12345}[g.N(5)])
	}

	return g.TimeIn(loc)
}

// TimeIn draws a time in loc whose wall clock reading denotes one instant only.
func (g *Gen) TimeIn(loc *time.Location) time.Time {
	y, m := g.year(), 1+g.N(12)
	t := time.Date(y, time.Month(m), 1+g.N(daysIn(y, m)), g.N(24), g.N(60), g.N(60), 0, loc)

	for i := 0; i < 8 && ambiguous(t); i++ {
		t = t.Add(7 * time.Hour)
	}

	if g.K.Sub {
		t = t.Add(time.Duration(g.N(1000)) * time.Millisecond)
	}

	return t
}

func ambiguous(t time.Time) bool {
	_, cur := t.Zone()
	n := 0

	for d := -26; d <= 26; d += 26 {
		_, o := t.Add(time.Duration(d) * time.Hour).Zone()

		if o == cur {
			continue
		}

		// The same reading under the other offset:
		u := t.Add(time.Duration(cur-o) * time.Second)

		if _, uo := u.Zone(); uo == o {
			n++
		}
	}

	return n > 0
}

// Duration draws a duration.
func (g *Gen) Duration(neg bool) ics.Duration {
	d := ics.Duration{Negative: neg && g.Chance(1, 3)}
	u := func() uint {
		if g.K.Any {
			return uint(g.wide(40))
		}

		return []uint{0, 1, 2, 15, 59, 90, 1000, 4294967295}[g.N(8)]
	}

	if g.Chance(1, 5) {
		d.Weeks = 1 + u()

		return d
	}

	mask := g.N(16)

	if mask&1 != 0 {
		d.Days = u()
	}

	if mask&2 != 0 {
		d.Hours = u()
	}

	if mask&4 != 0 {
		d.Minutes = u()
	}

	if mask&8 != 0 {
		d.Seconds = u()
	}

	return d
}

// Period draws a period.
func (g *Gen) Period() ics.Period {
	s := g.Time().Truncate(time.Second)
	p := ics.Period{Start: ics.DateTime{Time: s}}

	if g.N(2) == 0 {
		p.Duration = g.Duration(false)

		return p
	}

	e := s.Add(time.Duration(1+g.N(1_000_000)) * time.Second)

	for i := 0; i < 8 && ambiguous(e); i++ {
		e = e.Add(7 * time.Hour)
	}

	// A fresh location value of the same zone: what counts is the zone.
	if n := e.Location().String(); n != "" && n != "UTC" && e.Location() != time.Local && g.N(2) == 0 {
		if l, err := zones.Load(n); err == nil {
			e = e.In(l)
		}
	}

	p.End = ics.DateTime{Time: e}

	return p
}

// Recur draws a recurrence rule.
func (g *Gen) Recur() ics.Recur {
	r := ics.Recur{Frequency: ics.Frequency(g.N(7))}

	switch g.N(4) {
	case 1:
		r.Count = uint64(1 + g.N(1000))

		if g.K.Any {
			r.Count = 1 + g.wide(59)
		}
	case 2:
		r.Until, r.UntilTime = g.Time(), true
	case 3:
		r.Until = g.Date()
	}

	if g.Chance(1, 3) {
		r.Interval = uint64(1 + g.N(60))

		if g.K.Any {
			r.Interval = 1 + g.wide(59)
		}
	}

	if g.Chance(1, 3) {
		r.WeekStart = ics.WeekDay(1 + g.N(7))
	}

	long := -1

	if g.bulk(5, 1) {
		long = g.N(9)
	}

	n := func() int {
		if long--; long == -1 {
			return 100 + g.N(300)
		}

		if !g.Chance(1, 4) {
			return 0
		}

		return 1 + g.N([]int{2, 3, 40}[g.N(3)])
	}

	sign := func(max int) int {
		x := 1 + g.N(max)

		if g.N(2) == 1 {
			x = -x
		}

		return x
	}

	for i := n(); i > 0; i-- {
		r.BySecond = append(r.BySecond, uint8(g.N(61)))
	}

	for i := n(); i > 0; i-- {
		r.ByMinute = append(r.ByMinute, uint8(g.N(60)))
	}

	for i := n(); i > 0; i-- {
		r.ByHour = append(r.ByHour, uint8(g.N(24)))
	}

	for i := n(); i > 0; i-- {
		d := ics.DayRecur{Day: ics.WeekDay(1 + g.N(7))}

		if g.N(2) == 1 {
			d.Occurrence = int8(sign(53))
		}

		r.ByDay = append(r.ByDay, d)
	}

	for i := n(); i > 0; i-- {
		r.ByMonthDay = append(r.ByMonthDay, int8(sign(31)))
	}

	for i := n(); i > 0; i-- {
		r.ByYearDay = append(r.ByYearDay, int16(sign(366)))
	}

	for i := n(); i > 0; i-- {
		r.ByWeekNum = append(r.ByWeekNum, int8(sign(53)))
	}

	for i := n(); i > 0; i-- {
		r.ByMonth = append(r.ByMonth, ics.Month(1+g.N(12)))
	}

	for i := n(); i > 0; i-- {
		r.BySetPos = append(r.BySetPos, int16(sign(366)))
	}

	return r
}
