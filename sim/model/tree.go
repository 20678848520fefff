package model

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"vimagination.zapto.org/ics"
)

// Val is a value in canonical form.
type Val struct {
	Kind string
	S    []string
}

// Param is a parameter in canonical form; absent and empty are the same.
type Param struct {
	Name string
	S    []string
}

// Prop is a property.
type Prop struct {
	Name   string
	Params []Param // sorted by name
	Val    Val
}

// Comp is a component.
type Comp struct {
	Name  string
	Props []Prop
	Subs  []*Comp
}

const (
	wallFormat = "20060102T150405"
	dateFormat = "20060102"
)

// zoneOf says how the format denotes the zone of t, and the wall clock written.
func zoneOf(t time.Time) (zone, wall string) {
	switch l := t.Location(); {
	case l == time.UTC:
		return "utc", t.Format(wallFormat)
	case l == time.Local:
		return "local", t.Format(wallFormat)
	case l.String() == "":
		// A bare offset has no name to refer to: the instant is what counts.
		return "utc", t.UTC().Format(wallFormat)
	default:
		return "tz:" + l.String(), t.Format(wallFormat)
	}
}

func durVal(d ics.Duration) string {
	s := ""

	if d.Negative {
		s = "-"
	}

	if d.Weeks != 0 {
		return fmt.Sprintf("%sW%d", s, d.Weeks)
	}

	if d.Days == 0 && d.Hours == 0 && d.Minutes == 0 && d.Seconds == 0 {
		return "0"
	}

	return fmt.Sprintf("%sD%dH%dM%dS%d", s, d.Days, d.Hours, d.Minutes, d.Seconds)
}

func periodVal(p ics.Period) []string {
	z, w := zoneOf(p.Start.Time)

	if p.End.IsZero() {
		return []string{z, w, "dur", durVal(p.Duration)}
	}

	z2, w2 := zoneOf(p.End.Time)

	if z2 != z {
		w2 = z2 + "?" + w2
	}

	return []string{z, w, "end", w2}
}

var (
	freqs = map[ics.Frequency]string{ics.Secondly: "SECONDLY", ics.Minutely: "MINUTELY", ics.Hourly: "HOURLY", ics.Daily: "DAILY", ics.Weekly: "WEEKLY", ics.Monthly: "MONTHLY", ics.Yearly: "YEARLY"}
	days  = map[ics.WeekDay]string{ics.Sunday: "SU", ics.Monday: "MO", ics.Tuesday: "TU", ics.Wednesday: "WE", ics.Thursday: "TH", ics.Friday: "FR", ics.Saturday: "SA"}
)

func ints[T ~uint8 | ~int8 | ~int16](key string, l []T, out []string) []string {
	if len(l) == 0 {
		return out
	}

	s := make([]string, len(l))

	for i, v := range l {
		s[i] = strconv.Itoa(int(v))
	}

	return append(out, key+"="+strings.Join(s, ","))
}

// recurVal: the first element is the zone of UNTIL ("" if none or a date).
func recurVal(r ics.Recur) []string {
	zone := ""
	out := []string{"FREQ=" + freqs[r.Frequency]}

	if r.Count != 0 {
		out = append(out, "COUNT="+strconv.FormatUint(r.Count, 10))
	} else if !r.Until.IsZero() {
		if r.UntilTime {
			z, w := zoneOf(r.Until)
			zone = z
			out = append(out, "UNTIL="+w)
		} else {
			out = append(out, "UNTIL="+r.Until.Format(dateFormat))
		}
	}

	if r.Interval != 0 {
		out = append(out, "INTERVAL="+strconv.FormatUint(r.Interval, 10))
	}

	out = ints("BYSECOND", r.BySecond, out)
	out = ints("BYMINUTE", r.ByMinute, out)
	out = ints("BYHOUR", r.ByHour, out)

	if len(r.ByDay) > 0 {
		var s []string

		for _, d := range r.ByDay {
			o := ""

			if d.Occurrence != 0 {
				o = strconv.Itoa(int(d.Occurrence))
			}

			s = append(s, o+days[d.Day])
		}

		out = append(out, "BYDAY="+strings.Join(s, ","))
	}

	out = ints("BYMONTHDAY", r.ByMonthDay, out)
	out = ints("BYYEARDAY", r.ByYearDay, out)
	out = ints("BYWEEKNO", r.ByWeekNum, out)
	out = ints("BYMONTH", r.ByMonth, out)
	out = ints("BYSETPOS", r.BySetPos, out)

	if r.WeekStart != ics.UnknownDay {
		out = append(out, "WKST="+days[r.WeekStart])
	}

	sort.Strings(out)

	return append([]string{zone}, out...)
}

func conv[T any](v reflect.Value) T {
	return v.Convert(reflect.TypeOf((*T)(nil)).Elem()).Interface().(T)
}

func value(kind string, v reflect.Value) Val {
	switch kind {
	case Text:
		return Val{kind, []string{v.String()}}
	case MText:
		l := conv[ics.MText](v)

		if len(l) == 0 {
			return Val{kind, []string{""}} // an empty list and one empty text look the same
		}

		s := make([]string, len(l))

		for i, t := range l {
			s[i] = string(t)
		}

		return Val{kind, s}
	case DateTime:
		z, w := zoneOf(conv[ics.DateTime](v).Time)

		return Val{kind, []string{z, w}}
	case Date:
		return Val{kind, []string{conv[ics.Date](v).Format(dateFormat)}}
	case Duration:
		return Val{kind, []string{durVal(conv[ics.Duration](v))}}
	case Period:
		return Val{kind, periodVal(conv[ics.Period](v))}
	case Recur:
		return Val{kind, recurVal(conv[ics.Recur](v))}
	case URI:
		u := conv[ics.URI](v)

		return Val{kind, []string{u.URL.String()}}
	case Addr:
		u := conv[ics.CalendarAddress](v)

		return Val{kind, []string{u.URL.String()}}
	case Integer, Offset:
		return Val{kind, []string{strconv.FormatInt(v.Int(), 10)}}
	case Geo:
		t := conv[ics.TFloat](v)

		return Val{kind, []string{float(t[0]), float(t[1])}}
	case Boolean:
		return Val{kind, []string{strings.ToUpper(strconv.FormatBool(v.Bool()))}}
	case Binary:
		return Val{kind, []string{base64.StdEncoding.EncodeToString(v.Bytes())}}
	}

	panic("model: kind " + kind)
}

func float(f float64) string {
	if f == 0 {
		f = 0 // no negative zero
	}

	return strconv.FormatFloat(f, 'g', -1, 64)
}

func param(ps paramSpec, v reflect.Value) []string {
	switch ps.kind {
	case pText, pQuoted:
		if v.Len() == 0 {
			return nil
		}

		return []string{v.String()}
	case pURI:
		u := conv[ics.URI](v)

		if s := u.URL.String(); s != "" {
			return []string{s}
		}

		return nil
	case pAddrs:
		var s []string

		for i := 0; i < v.Len(); i++ {
			u := v.Index(i).FieldByName("URL").Interface().(url.URL)
			s = append(s, u.String())
		}

		return s
	case pTexts:
		var s []string

		for i := 0; i < v.Len(); i++ {
			s = append(s, v.Index(i).String())
		}

		return s
	case pEnum:
		if n, ok := ps.enum[v.Uint()]; ok {
			return []string{n}
		}

		return []string{ps.def}
	case pBool:
		if v.Bool() {
			return []string{"TRUE"}
		}

		return nil
	default:
		return []string{"THISANDFUTURE"}
	}
}

func prop(v reflect.Value) Prop {
	t := v.Type()

	ps, ok := props[t.Name()]
	if !ok {
		panic("model: unknown property type " + t.Name())
	}

	p := Prop{Name: ps.name}

	if ps.kind == Enum {
		n, ok := ps.enum[v.Uint()]
		if !ok {
			n = fmt.Sprintf("?%d", v.Uint())
		}

		p.Val = Val{Enum, []string{n}}

		return p
	}

	structured := false

	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ft := f.Type

			if ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}

			_, isParam := params[ft.Name()]
			_, isAlt := ps.alt[f.Name]
			isVal := f.Anonymous && ft.PkgPath() == t.PkgPath()

			structured = structured || isParam || isAlt || isVal
		}
	}

	if !structured {
		p.Val = value(ps.kind, v)

		return p
	}

	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		fv := v.Field(i)
		ft := f.Type

		if ft.Kind() == reflect.Ptr {
			if fv.IsNil() {
				continue
			}

			ft, fv = ft.Elem(), fv.Elem()
		}

		if pa, ok := params[ft.Name()]; ok {
			if s := param(pa, fv); s != nil {
				p.Params = append(p.Params, Param{pa.name, s})
			}
		} else if k, ok := ps.alt[f.Name]; ok {
			p.Val = value(k, fv)
		} else if f.Anonymous {
			p.Val = value(ps.kind, fv)
		} else {
			panic("model: field " + t.Name() + "." + f.Name)
		}
	}

	sort.Slice(p.Params, func(a, b int) bool { return p.Params[a].Name < p.Params[b].Name })

	return p
}

func comp(v reflect.Value) *Comp {
	t := v.Type()
	c := new(Comp)

	if a, ok := alarms[t.Name()]; ok {
		if ty, ok := v.Interface().(interface{ Type() string }); ok {
			a = ty.Type() // what the caller is told
		}

		c.Name = "VALARM"
		c.Props = append(c.Props, Prop{Name: "ACTION", Val: Val{Enum, []string{a}}})
	} else if c.Name, ok = comps[t.Name()]; !ok {
		panic("model: component type " + t.Name())
	} else if t.Name() == "Alarm" {
		return comp(v.Field(0).Elem().Elem())
	}

	for i := 0; i < t.NumField(); i++ {
		add(c, v.Field(i))
	}

	return c
}

func add(c *Comp, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			add(c, v.Elem())
		}

		return
	case reflect.Slice:
		if _, ok := props[v.Type().Name()]; !ok {
			for i := 0; i < v.Len(); i++ {
				add(c, v.Index(i))
			}

			return
		}
	}

	if _, ok := comps[v.Type().Name()]; ok {
		c.Subs = append(c.Subs, comp(v))
	} else {
		c.Props = append(c.Props, prop(v))
	}
}

// FromCalendar converts a calendar. The reading of floating times depends on
// the local zone in force at the time of the call.
func FromCalendar(cal *ics.Calendar) *Comp { return comp(reflect.ValueOf(cal).Elem()) }

// Canon is a canonical text of the tree: properties grouped by name and
// subcomponents by kind, each in their original order.
func (c *Comp) Canon() string {
	var b strings.Builder

	c.canon(&b, "")

	return b.String()
}

func (c *Comp) canon(b *strings.Builder, in string) {
	b.WriteString(in + c.Name + "\n")

	ps := append([]Prop(nil), c.Props...)
	sort.SliceStable(ps, func(a, d int) bool { return ps[a].Name < ps[d].Name })

	for _, p := range ps {
		b.WriteString(in + " " + p.String() + "\n")
	}

	ss := append([]*Comp(nil), c.Subs...)
	sort.SliceStable(ss, func(a, d int) bool { return ss[a].Name < ss[d].Name })

	for _, s := range ss {
		s.canon(b, in+"  ")
	}
}

func (p Prop) String() string {
	var b strings.Builder

	b.WriteString(p.Name)

	for _, q := range p.Params {
		b.WriteString(" ;" + q.Name)

		for _, s := range q.S {
			b.WriteString("=" + strconv.Quote(s))
		}
	}

	b.WriteString(" " + p.Val.Kind)

	for _, s := range p.Val.S {
		b.WriteString(" " + strconv.Quote(s))
	}

	return b.String()
}

// Size estimates the stream size of the tree.
func (c *Comp) Size() int {
	n := 40

	for _, p := range c.Props {
		n += 24

		for _, q := range p.Params {
			n += 16

			for _, s := range q.S {
				n += 2*len(s) + 3
			}
		}

		for _, s := range p.Val.S {
			n += 2*len(s) + 4
		}
	}

	for _, s := range c.Subs {
		n += s.Size()
	}

	return n
}

// Diff returns the first differing lines of two canonical texts.
func Diff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")

	for i := 0; ; i++ {
		switch {
		case i >= len(la) && i >= len(lb):
			return "(no difference)"
		case i >= len(la):
			return "expected nothing, got " + clip(lb[i])
		case i >= len(lb):
			return "expected " + clip(la[i]) + ", got nothing"
		case la[i] != lb[i]:
			return "expected " + clip(la[i]) + ", got " + clip(lb[i])
		}
	}
}

func clip(s string) string {
	s = strings.TrimSpace(s)

	if len(s) > 300 {
		s = s[:300] + "..."
	}

	return "[" + s + "]"
}
