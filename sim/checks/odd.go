package checks

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verif/sim/core"
	"verif/sim/gen"
	"verif/sim/model"

	"vimagination.zapto.org/ics"
)

// A job is a call with its result when nothing disturbs it.
type task struct {
	b    []byte        // the stream to decode, or
	cal  *ics.Calendar // the calendar to encode
	size int
	want string
}

func (t *task) String() string {
	if t.cal == nil {
		return "Decode"
	}

	return "Encode"
}

func decoded(o *core.Outcome) string {
	switch {
	case o.Crashed():
		return "crash"
	case o.Err != nil:
		return "error " + o.Err.Error()
	}

	return canonOf(o.Cal)
}

func encoded(o *core.Outcome, b []byte) string {
	if o.Crashed() {
		return "crash"
	}

	return fmt.Sprintf("error %v after writing %q", o.Err, b)
}

// alone performs the call undisturbed.
func (t *task) alone(r *core.Run) string {
	if t.cal == nil {
		return decoded(whole(r, t.b))
	}

	var w bytes.Buffer

	o := r.Encode(&w, t.cal, t.size)

	return encoded(o, w.Bytes())
}

func newTask(r *core.Run, g *gen.Gen) *task {
	t := new(task)
	s := newSubject(r, g)

	if r.N(2) == 0 {
		t.b = s.stream(r)

		if r.Chance(1, 6) {
			t.b = damage(r, t.b, t.b)
		}

		t.size = len(t.b)
	} else {
		t.cal, t.size = s.cal, s.size

		if r.Chance(1, 6) {
			plant(r, g, t.cal)
		}

		t.size += footprint(t.cal)
	}

	t.want = t.alone(r)

	return t
}

// c25: readers and writers that do not return.
func c25(r *core.Run) {
	host(r)

	g := gen.New(r)
	ts := []*task{newTask(r, g), newTask(r, g)}

	for _, t := range ts {
		if t.want == "crash" {
			r.Trivial = true

			return
		}
	}

	for n := 1 + r.N(5); n > 0; n-- {
		t := ts[r.N(2)]
		b := r.NewBomb()
		what := ""

		var o *core.Outcome

		if t.cal == nil {
			rd := r.NewReader(t.b)
			rd.BlowAt(offset(r, t.b, len(t.b)), b)

			in := rd.Wrap()
			o = r.Aside(t.size, func(o *core.Outcome) { o.Cal, o.Err = ics.Decode(in) })
			what = decoded(o)
		} else {
			w := r.NewWriter()
			w.BlowAt(r.N(1+t.size/2), b)

			out := w.Wrap()
			o = r.Aside(t.size, func(o *core.Outcome) { o.Err = ics.Encode(out, t.cal) })
			what = encoded(o, w.Got)
		}

		r.Note("%s with %s: %s", t, b, o)

		switch {
		case !b.Hit && what != t.want:
			r.Fail("changed", "%s behaves differently with a reader or writer that may panic but does not: %s", t, model.Diff(t.want, what))
		case b.Hit && b.Exit && !o.Exited:
			r.Fail("caught", "%s with %s: %s", t, b, o)
		case b.Hit && !b.Exit && (o.Panic == "" || !same(o.Value, b.Value)):
			r.Fail("caught", "%s with %s: %s", t, b, o)
		}

		if r.N(3) == 0 && n > 1 {
			continue
		}

		for _, t := range ts {
			if got := t.alone(r); got != t.want {
				r.Fail("after", "after %s %s behaves differently: %s", b, t, model.Diff(t.want, got))
			}
		}
	}
}

// same reports whether a panic with value got passes on a panic with value want.
func same(got, want any) bool {
	return got == want
}

// c26: calls from inside a reader or writer.
func c26(r *core.Run) {
	host(r)

	g := gen.New(r)
	ts := make([]*task, 1+r.N(3))

	for i := range ts {
		ts[i] = newTask(r, g)

		if ts[i].want == "crash" {
			r.Trivial = true

			return
		}
	}

	left, depth := 2+r.N(6), 0

	var do func(t *task)

	// inside is called while a call is under way.
	inside := func(oneIn int) {
		if left > 0 && depth < 4 && r.N(oneIn) == 1 {
			left--

			r.Fault(fmt.Sprintf("nested:depth-%d", depth))
			r.Point("nested")
			do(ts[r.N(len(ts))])
		}
	}

	do = func(t *task) {
		depth++
		defer func() { depth-- }()

		oneIn := 2 + r.N(8)
		got := ""

		if t.cal == nil {
			rd := r.NewReader(t.b)
			rd.During(func() { inside(oneIn) })
			got = decoded(r.Decode(rd.Wrap(), t.size))
		} else {
			w := r.NewWriter()
			w.During(func() { inside(oneIn * 3) })
			o := r.Encode(w.Wrap(), t.cal, t.size)
			got = encoded(o, w.Got)
		}

		if got != t.want {
			r.Fail("nested", "%s at depth %d, with or from inside other calls, behaves differently: %s", t, depth, model.Diff(t.want, got))
		}
	}

	for n := 1 + r.N(3); n > 0; n-- {
		do(ts[r.N(len(ts))])
	}
}

// makers are the package's constructors of optional values.
var makers = []any{
	ics.NewCommonName, ics.NewDirectoryEntry, ics.NewFormatType, ics.NewLanguage, ics.NewMember, ics.NewRSVP, ics.NewSentBy, ics.NewTimezoneID,
	ics.NewID, ics.NewAgentID, ics.NewPercentComplete, ics.NewPriority, ics.NewRepeat, ics.NewSequence,
	ics.ParamCalendarUserType.New, ics.ParamEncoding.New, ics.ParamFreeBusyType.New, ics.ParamParticipationStatus.New, ics.ParamRelated.New,
	ics.ParamRelationshipType.New, ics.ParamParticipationRole.New, ics.ParamValue.New, ics.PropAction.New, ics.PropCalendarScale.New,
	ics.PropClass.New, ics.PropStatus.New, ics.PropTimeTransparency.New, ics.PropAlarmStatus.New,
}

// c27: what the constructors return.
func c27(r *core.Run) {
	g := gen.New(r)

	type made struct{ ptr, want reflect.Value }

	var (
		all  []made
		seen = map[any]int{}
		few  = 1 + r.N(len(makers))
		t    *task

		crowd bool
	)

	for n := 2 + r.N(40); n > 0; n-- {
		switch k := r.N(8); {
		case k < 5:
			i := r.N(few)
			f := reflect.ValueOf(makers[i])
			v := reflect.New(f.Type().In(0)).Elem()
			vary(r, v)

			times := 1

			if !crowd && r.N(200) == 199 {
				crowd = true
				times = 1 + r.N(4000)

				r.Probe("thousands of values")
			}

			for ; times > 0; times-- {
				p := f.Call([]reflect.Value{v})[0]

				r.Ev("make", i, 0, fmt.Sprint(v))
				r.PointAt("make", uint64(i))

				if p.IsNil() || !reflect.DeepEqual(p.Elem().Interface(), v.Interface()) {
					r.Fail("value", "a constructor of %s was given %v and returned something else", v.Type(), v)
				}

				if seen[p.Interface()]++; seen[p.Interface()] > 1 {
					r.Fail("shared", "a constructor of %s returned the same pointer twice", v.Type())
				}

				all = append(all, made{p, v})
			}
		case k == 5 && len(all) > 0:
			m := &all[r.N(len(all))]
			v := reflect.New(m.want.Type()).Elem()
			vary(r, v)
			m.ptr.Elem().Set(v)
			m.want = v

			r.Ev("change", 0, 0, fmt.Sprint(v))
			r.Fault("caller:changes-value")
		case k == 6:
			if t == nil {
				t = newTask(r, g)
			}

			if got := t.alone(r); got != t.want {
				r.Fail("call", "%s behaves differently after values were made and changed: %s", t, model.Diff(t.want, got))
			}
		case k == 7 && len(all) > 0:
			r.Decode(io.LimitReader(bytes.NewReader([]byte("BEGIN:VCALENDAR\r\n")), 100), 100)
		}

		for _, m := range all {
			if !reflect.DeepEqual(m.ptr.Elem().Interface(), m.want.Interface()) {
				r.Fail("shared", "a value of type %s made earlier changed from %v to %v", m.want.Type(), m.want, m.ptr.Elem())
			}
		}
	}
}

// likely are strings somebody may want to keep one copy of.
var likely = []string{
	"", "a", "b", "en", "en-GB", "en-US", "de", "fr", "text/plain", "text/html", "text/calendar", "image/png", "application/octet-stream",
	"UTC", "Europe/London", "Europe/Berlin", "America/New_York", "mailto:a@example.com", "1", "0", "Local", "default", "unknown", "UNKNOWN",
}

// vary draws a value.
func vary(r *core.Run, v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.N(2) == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.N(4)))

		if r.N(4) == 3 {
			v.SetInt(int64(r.N(1 << 20)))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.N(12)))
	case reflect.Float64:
		v.SetFloat(float64(r.N(4)))
	case reflect.String:
		v.SetString(likely[r.N(len(likely))])

		if r.N(4) == 3 {
			v.SetString(strings.Repeat(v.String()+"x", r.N(60)))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), r.N(3), 3))

		for i := 0; i < v.Len(); i++ {
			vary(r, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				vary(r, v.Field(i))
			}
		}
	}
}
