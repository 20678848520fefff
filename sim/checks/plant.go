package checks

import (
	"math"
	"net/url"
	"reflect"
	"sort"
	"time"

	"verif/sim/core"
	"verif/sim/gen"
	"verif/sim/model"
	"vimagination.zapto.org/ics"
)

// planter collects the places of a calendar at which something invalid can be put.
type planter struct {
	r     *core.Run
	g     *gen.Gen
	sites map[string][]func()
}

func (p *planter) add(kind string, f func()) { p.sites[kind] = append(p.sites[kind], f) }

// plant makes one part of the calendar invalid and says what.
func plant(r *core.Run, g *gen.Gen, cal *ics.Calendar) string {
	p := &planter{r, g, map[string][]func(){}}
	p.visit(reflect.ValueOf(cal).Elem())

	kinds := make([]string, 0, len(p.sites))

	for k := range p.sites {
		kinds = append(kinds, k)
	}

	sort.Strings(kinds)

	k := kinds[r.N(len(kinds))]
	fs := p.sites[k]
	i := r.N(len(fs))

	// at the beginning, somewhere, or at the very end
	if r.N(3) == 2 {
		i = len(fs) - 1
	}

	fs[i]()
	r.Fault("invalid:" + k)
	r.Ev("plant", i, len(fs), k)

	return k
}

func set[T any](v reflect.Value, x T) { v.Set(reflect.ValueOf(x).Convert(v.Type())) }

var controls = "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f"

// spoil puts a character no text may contain into s.
func (p *planter) spoil(s string, utf bool) string {
	rs := []rune(s)
	i := p.r.N(len(rs) + 1)
	bad := string(controls[p.r.N(len(controls))])

	if utf {
		bad = []string{"\xff", "\xc3", "\xed\xa0\x80"}[p.r.N(3)]
	}

	return string(rs[:i]) + bad + string(rs[i:])
}

func (p *planter) str(v reflect.Value, kind string) {
	p.add(kind+":control-character", func() { v.SetString(p.spoil(v.String(), false)) })
	p.add(kind+":not-utf8", func() { v.SetString(p.spoil(v.String(), true)) })
}

func (p *planter) year() int { return []int{10000, 12345, -1, 99999}[p.r.N(4)] }

func (p *planter) badTime(kind string, get func() time.Time, put func(time.Time)) {
	p.add(kind+":zero", func() { put(time.Time{}) })
	p.add(kind+":year", func() {
		t := get()
		put(time.Date(p.year(), 5, 15, 12, 0, 0, 0, t.Location()))
	})
}

func insert[T any](r *core.Run, l []T, x T) []T {
	i := r.N(len(l) + 1)
	out := append([]T(nil), l[:i]...)

	return append(append(out, x), l[i:]...)
}

func (p *planter) recur(v reflect.Value) {
	edit := func(kind string, f func(r *ics.Recur)) {
		p.add("rule:"+kind, func() {
			r := v.Convert(reflect.TypeOf(ics.Recur{})).Interface().(ics.Recur)
			f(&r)
			set(v, r)
		})
	}
	r := p.r

	edit("frequency", func(x *ics.Recur) { x.Frequency = ics.Frequency(7 + r.N(249)) })
	edit("second", func(x *ics.Recur) { x.BySecond = insert(r, x.BySecond, uint8(61+r.N(195))) })
	edit("minute", func(x *ics.Recur) { x.ByMinute = insert(r, x.ByMinute, uint8(60+r.N(196))) })
	edit("hour", func(x *ics.Recur) { x.ByHour = insert(r, x.ByHour, uint8(24+r.N(232))) })
	edit("weekday", func(x *ics.Recur) {
		x.ByDay = insert(r, x.ByDay, ics.DayRecur{Day: []ics.WeekDay{0, 8, 255}[r.N(3)]})
	})
	edit("weekday-number", func(x *ics.Recur) {
		x.ByDay = insert(r, x.ByDay, ics.DayRecur{Day: ics.Monday, Occurrence: []int8{54, -54, 100, 127, -128}[r.N(5)]})
	})
	edit("month-day", func(x *ics.Recur) { x.ByMonthDay = insert(r, x.ByMonthDay, []int8{0, 32, -32, 127, -128}[r.N(5)]) })
	edit("year-day", func(x *ics.Recur) {
		x.ByYearDay = insert(r, x.ByYearDay, []int16{0, 367, -367, 32767, -32768}[r.N(5)])
	})
	edit("week-number", func(x *ics.Recur) { x.ByWeekNum = insert(r, x.ByWeekNum, []int8{0, 54, -54, 127, -128}[r.N(5)]) })
	edit("month", func(x *ics.Recur) { x.ByMonth = insert(r, x.ByMonth, []ics.Month{0, 13, 255}[r.N(3)]) })
	edit("set-position", func(x *ics.Recur) { x.BySetPos = insert(r, x.BySetPos, []int16{0, 367, -367, 32767}[r.N(4)]) })
	edit("week-start", func(x *ics.Recur) { x.WeekStart = ics.WeekDay(8 + r.N(248)) })
	edit("until-year", func(x *ics.Recur) {
		x.Count, x.UntilTime = 0, r.N(2) == 1
		x.Until = time.Date(p.year(), 1, 2, 3, 4, 5, 0, time.UTC)
	})
}

func (p *planter) period(v reflect.Value) {
	edit := func(kind string, f func(x *ics.Period)) {
		p.add("period:"+kind, func() {
			x := v.Convert(reflect.TypeOf(ics.Period{})).Interface().(ics.Period)
			f(&x)
			set(v, x)
		})
	}

	edit("no-start", func(x *ics.Period) { x.Start = ics.DateTime{} })
	edit("negative", func(x *ics.Period) { x.End, x.Duration = ics.DateTime{}, ics.Duration{Negative: true, Hours: 1} })
	edit("end-before-start", func(x *ics.Period) {
		x.End = ics.DateTime{Time: x.Start.Add(-time.Duration(p.r.N(100)) * time.Hour)}
	})
	edit("two-zones", func(x *ics.Period) {
		x.Start.Time = x.Start.In(time.UTC)
		x.End = ics.DateTime{Time: x.Start.Add(100 * time.Hour).In(time.FixedZone("Europe/Berlin", 3600))}
	})
}

func (p *planter) uri(v reflect.Value, quoted bool) {
	put := func(u url.URL) { v.FieldByName("URL").Set(reflect.ValueOf(u)) }
	p.add("uri:line-break", func() {
		put([]url.URL{{Scheme: "x", Opaque: "y\r\nSUMMARY:z"}, {Scheme: "http", Host: "example.com", RawQuery: "a\nb"}, {Scheme: "x", Opaque: "y\r"}}[p.r.N(3)])
	})
	p.add("uri:control-character", func() { put(url.URL{Scheme: "x", Opaque: p.spoil("abc", false)}) })
	p.add("uri:not-utf8", func() { put(url.URL{Scheme: "x", Opaque: p.spoil("abc", true)}) })

	if quoted {
		p.add("uri:quote-in-parameter", func() { put(url.URL{Scheme: "x", Opaque: "a\"b"}) })
	}
}

func (p *planter) ptr(v reflect.Value, name string) {
	f := v.FieldByName(name)

	switch f.Kind() {
	case reflect.Ptr:
		if f.IsNil() {
			f.Set(reflect.New(f.Type().Elem()))
			p.g.Value(f.Elem())
		}
	case reflect.Slice:
		if f.Len() == 0 {
			l := reflect.MakeSlice(f.Type(), 1, 1)
			p.g.Value(l.Index(0))
			f.Set(l)
		}
	}
}

func (p *planter) both(v reflect.Value, kind, with, without string) {
	p.add(kind, func() {
		p.ptr(v, with)

		if f := v.FieldByName(without); kind[0] == '+' {
			p.ptr(v, without)
		} else {
			f.Set(reflect.Zero(f.Type()))
		}
	})
}

func (p *planter) visit(v reflect.Value) {
	t := v.Type()

	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p.visit(v.Elem())
		}

		return
	case reflect.Slice:
		if t.Name() == "" {
			for i := 0; i < v.Len(); i++ {
				p.visit(v.Index(i))
			}

			return
		}
	}

	switch t.Name() {
	case "Alarm":
		p.add("alarm:no-type", func() { v.Set(reflect.Zero(t)) })
		p.visit(v.Field(0).Elem())

		return
	case "Event":
		p.both(v, "+event:end-and-duration", "DateTimeEnd", "Duration")
	case "Todo":
		p.both(v, "+todo:due-and-duration", "Due", "Duration")
		p.add("-todo:duration-without-start", func() {
			p.ptr(v, "Duration")
			v.FieldByName("Due").Set(reflect.Zero(v.FieldByName("Due").Type()))
			v.FieldByName("DateTimeStart").Set(reflect.Zero(v.FieldByName("DateTimeStart").Type()))
		})
	case "Timezone":
		p.add("timezone:neither-standard-nor-daylight", func() {
			for _, n := range []string{"Standard", "Daylight"} {
				f := v.FieldByName(n)

				if p.r.N(2) == 0 {
					f.Set(reflect.Zero(f.Type()))
				} else {
					f.Set(reflect.MakeSlice(f.Type(), 0, 1))
				}
			}
		})
	case "AlarmAudio", "AlarmDisplay", "AlarmEmail", "AlarmURI":
		p.both(v, "-alarm:duration-without-repeat", "Duration", "Repeat")
		p.both(v, "-alarm:repeat-without-duration", "Repeat", "Duration")
	}

	switch t.Name() {
	case "AlarmAudio", "AlarmDisplay", "AlarmEmail", "AlarmURI":
		p.both(v, "-alarm:geo-location-without-proximity", "GeoLocation", "Proximity")
	}

	if alts, ok := gen.AltFields[t.Name()]; ok {
		p.add("choice:none", func() {
			for _, a := range alts {
				v.FieldByName(a).Set(reflect.Zero(v.FieldByName(a).Type()))
			}
		})
		p.add("choice:several", func() {
			for _, a := range alts {
				p.ptr(v, a)
			}
		})
	}

	switch k := gen.Leaf[t.Name()]; k {
	case "date":
		p.badTime("date", func() time.Time { return v.Field(0).Interface().(time.Time) }, func(x time.Time) { set(v, ics.Date{Time: x}) })

		return
	case "datetime":
		p.badTime("time", func() time.Time { return v.Field(0).Interface().(time.Time) }, func(x time.Time) { set(v, ics.DateTime{Time: x}) })
		p.add("time:zone-name", func() {
			x := v.Field(0).Interface().(time.Time)
			set(v, ics.DateTime{Time: x.In(time.FixedZone(p.spoil("Zone", p.r.N(2) == 1), 3600))})
		})

		return
	case "recur":
		p.recur(v)

		return
	case "period":
		p.period(v)

		return
	case "uri", "addr":
		p.uri(v, len(t.Name()) > 5 && t.Name()[:5] == "Param")

		return
	case "addrs":
		for i := 0; i < v.Len(); i++ {
			p.uri(v.Index(i), true)
		}

		return
	case "texts":
		for i := 0; i < v.Len(); i++ {
			p.str(v.Index(i), "parameter-list")
		}

		return
	case "mtext":
		for i := 0; i < v.Len(); i++ {
			p.str(v.Index(i), "text-list")
		}

		return
	case "geo":
		p.add("coordinate", func() {
			x := v.Convert(reflect.TypeOf(ics.TFloat{})).Interface().(ics.TFloat)
			x[p.r.N(2)] = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[p.r.N(3)]
			set(v, x)
		})

		return
	case "offset":
		p.add("offset", func() { v.SetInt([]int64{360000, -360000, 1 << 40, -(1 << 40), 363599}[p.r.N(5)]) })

		return
	case "fmttype":
		p.add("format-type:syntax", func() { v.SetString([]string{"text", "/", "text/"}[p.r.N(3)]) })
		p.str(v, "format-type")

		return
	case "enum2", "enum3", "enum8":
		if !model.EnumOK(t.Name(), 255) {
			p.add("enumeration", func() { v.SetUint(uint64(int(k[4]-'0') + p.r.N(256-int(k[4]-'0')))) })
		}

		return
	case "binary", "duration", "enum4", "enum5":
		return
	}

	switch v.Kind() {
	case reflect.String:
		if len(t.Name()) > 5 && t.Name()[:5] == "Param" {
			p.str(v, "parameter")
		} else {
			p.str(v, "text")
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			p.visit(v.Field(i))
		}
	}
}

// distort changes n random places of the calendar to anything its types allow.
func distort(r *core.Run, cal *ics.Calendar, n int) {
	for ; n > 0; n-- {
		var fs []func()

		anywhere(r, reflect.ValueOf(cal).Elem(), &fs)

		if len(fs) == 0 {
			return
		}

		i := r.N(len(fs))
		fs[i]()
		r.Ev("distort", i, len(fs), "")
		r.Fault("calendar:distorted")
	}
}

var oddStrings = []string{"", "\x00", "\xff", "^", "^^", "\"", "\n", "\r\n", "\\", ",", ";", ":", "a\r\n b", " ", "\U0001f600", "/", "a/b", "\xf0\x9f\x98"}

func anywhere(r *core.Run, v reflect.Value, fs *[]func()) {
	add := func(f func()) { *fs = append(*fs, f) }
	t := v.Type()

	switch v.Kind() {
	case reflect.Interface:
		add(func() { v.Set(reflect.Zero(t)) })

		if t == reflect.TypeOf((*ics.AlarmType)(nil)).Elem() {
			add(func() {
				v.Set(reflect.ValueOf([]ics.AlarmType{(*ics.AlarmAudio)(nil), (*ics.AlarmDisplay)(nil), (*ics.AlarmEmail)(nil), (*ics.AlarmURI)(nil), (*ics.AlarmNone)(nil), new(ics.AlarmAudio), new(ics.AlarmEmail), new(ics.AlarmURI)}[r.N(8)]))
			})
		}

		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr && !v.Elem().IsNil() {
			anywhere(r, v.Elem().Elem(), fs)
		}
	case reflect.Ptr:
		if t == reflect.TypeOf((*time.Location)(nil)) || t == reflect.TypeOf((*url.Userinfo)(nil)) {
			return
		}

		if v.IsNil() {
			add(func() { v.Set(reflect.New(t.Elem())) }) // present, but zero
		} else {
			add(func() { v.Set(reflect.Zero(t)) })
			anywhere(r, v.Elem(), fs)
		}
	case reflect.Slice:
		add(func() { v.Set(reflect.Zero(t)) })
		add(func() { v.Set(reflect.MakeSlice(t, 0, 1)) })
		add(func() { v.Set(reflect.Append(v, reflect.Zero(t.Elem()))) })

		if t.Elem().Kind() != reflect.Uint8 || t.Name() == "" {
			for i := 0; i < v.Len(); i++ {
				anywhere(r, v.Index(i), fs)
			}
		}
	case reflect.String:
		add(func() {
			s := v.String()
			i := r.N(len(s) + 1)
			v.SetString(s[:i] + oddStrings[r.N(len(oddStrings))] + s[i:])
		})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		add(func() {
			v.SetInt([]int64{0, -1, 1, 127, -128, math.MaxInt64, math.MinInt64, math.MinInt32, 100, 360000}[r.N(10)])
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		add(func() { v.SetUint([]uint64{0, 1, 255, 60, 61, math.MaxUint64, 8, 13}[r.N(8)]) })
	case reflect.Float64:
		add(func() {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1)}[r.N(6)])
		})
	case reflect.Bool:
		add(func() { v.SetBool(!v.Bool()) })
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			anywhere(r, v.Index(i), fs)
		}
	case reflect.Struct:
		if t == reflect.TypeOf(time.Time{}) {
			add(func() {
				x := v.Interface().(time.Time)

				switch r.N(8) {
				case 0:
					x = time.Time{}
				case 1:
					x = time.Unix(1<<55, 0).UTC()
				case 2:
					x = time.Unix(-(1 << 55), 0).UTC()
				case 3:
					x = x.In(time.FixedZone(oddStrings[r.N(len(oddStrings))], 3600))
				case 4:
					x = x.In(time.FixedZone("X", 1<<30))
				case 5:
					x = x.AddDate(-3000, 0, 0)
				case 6:
					x = x.In(time.Local)
				case 7:
					x = x.AddDate(9000, 0, 0)
				}

				v.Set(reflect.ValueOf(x))
			})

			return
		}

		if t == reflect.TypeOf(url.URL{}) {
			add(func() {
				s := oddStrings[r.N(len(oddStrings))]
				v.Set(reflect.ValueOf([]url.URL{{}, {Opaque: s}, {Scheme: s, Opaque: "x"}, {Host: s}, {RawQuery: s}, {Path: s}, {Scheme: "http", Host: "h", Path: s, RawPath: s}, {Fragment: s, RawFragment: s}, {User: url.UserPassword(s, s), Host: "x"}, {ForceQuery: true}, {OmitHost: true, Path: "//a"}}[r.N(11)]))
			})

			return
		}

		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" || t.Field(i).Anonymous {
				anywhere(r, v.Field(i), fs)
			}
		}
	}
}

// footprint estimates the size of a calendar value.
func footprint(cal *ics.Calendar) int { return foot(reflect.ValueOf(cal)) }

func foot(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() || v.Type() == reflect.TypeOf((*time.Location)(nil)) {
			return 8
		}

		return 8 + foot(v.Elem())
	case reflect.Slice, reflect.Array:
		n := 24

		if v.Type().Elem().Kind() == reflect.Uint8 {
			return n + v.Len()
		}

		for i := 0; i < v.Len(); i++ {
			n += foot(v.Index(i))
		}

		return n
	case reflect.String:
		return 16 + 3*v.Len()
	case reflect.Struct:
		n := 0

		for i := 0; i < v.NumField(); i++ {
			n += foot(v.Field(i))
		}

		return n
	}

	return 8
}
