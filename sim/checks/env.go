// Package checks holds one simulation per property.
package checks

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"verif/sim/core"
	"verif/sim/gen"
	"verif/sim/hook"
	"verif/sim/model"
	"verif/sim/zones"
	"vimagination.zapto.org/ics"
)

// host prepares a simulated host: working zone database, drawn local zone.
func host(r *core.Run) string {
	hook.ZoneFn = zones.Load

	return setLocal(r)
}

func setLocal(r *core.Run) string {
	n := ""

	if r.N(2) == 1 {
		names := zones.Names()
		n = names[r.N(len(names))]
		r.Fault("host:local-zone")
	}

	zones.SetLocal(n)
	r.Ev("host-zone", 0, 0, n)

	return n
}

// subject is a calendar with its reference description.
type subject struct {
	cal   *ics.Calendar
	tree  *model.Comp
	canon string
	size  int
}

func newSubject(r *core.Run, g *gen.Gen) *subject {
	s := &subject{cal: g.Calendar()}
	s.tree = model.FromCalendar(s.cal)
	s.canon = s.tree.Canon()
	s.size = s.tree.Size()
	r.Ev("calendar", s.size, 0, s.canon)

	return s
}

// stream writes the subject with the reference writer.
func (s *subject) stream(r *core.Run) []byte {
	st := model.DrawStyle(r)
	b := model.Stream(r, st, model.Lines(r, st, s.tree))
	r.Ev("stream", len(b), 0, "")

	if r.Keep {
		r.Note("stream: %s", show(b))
	}

	return b
}

func show(b []byte) string {
	s := string(b)

	if len(s) > 3000 {
		s = s[:3000] + "..."
	}

	return fmt.Sprintf("%q", s)
}

// canonOf describes a decoded calendar.
func canonOf(cal *ics.Calendar) string {
	if cal == nil {
		return "(no calendar)"
	}

	return model.FromCalendar(cal).Canon()
}

// verdict is the comparable part of a Decode outcome.
func verdict(o *core.Outcome) string {
	switch {
	case o.Over:
		return "does not finish"
	case o.Panic != "":
		return "panics"
	case o.Err != nil:
		if o.Cal != nil {
			return "error and calendar"
		}

		return "error"
	}

	return canonOf(o.Cal)
}

// whole decodes b from a plain reader without any faults.
func whole(r *core.Run, b []byte) *core.Outcome { return r.Decode(bytes.NewReader(b), len(b)) }

// sameVerdict fails the run if two verdicts differ.
func sameVerdict(r *core.Run, kind, what, want, got, detail string) {
	if want == got {
		return
	}

	d := ""

	if len(want) > 40 && len(got) > 40 {
		d = ": " + model.Diff(want, got)
	} else {
		d = fmt.Sprintf(": expected %s, got %s", brief(want), brief(got))
	}

	r.Fail(kind, "%s%s%s", what, d, detail)
}

func brief(s string) string {
	if len(s) > 60 {
		return "a calendar"
	}

	return strings.TrimSpace(s)
}

func errText(o *core.Outcome) string { return " (" + o.String() + ")" }

// output encodes the subject on a writer without faults.
func (s *subject) output(r *core.Run) ([]byte, *core.Outcome) {
	w := r.NewWriter()
	o := r.Encode(w, s.cal, s.size)

	return w.Got, o
}

// times collects all times of a calendar in a fixed order.
func times(v reflect.Value, out *[]stampOf) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			times(v.Elem(), out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			times(v.Index(i), out)
		}
	case reflect.Struct:
		if t, ok := v.Interface().(ics.Date); ok {
			*out = append(*out, stampOf{date: true, t: t.Time})

			return
		}

		if t, ok := v.Interface().(ics.Recur); ok {
			*out = append(*out, stampOf{date: !t.UntilTime, skip: t.Count != 0 || t.Until.IsZero(), t: t.Until})

			return
		}

		if t, ok := v.Interface().(ics.PropRecurrenceRule); ok {
			times(reflect.ValueOf(ics.Recur(t)), out)

			return
		}

		if t, ok := v.Interface().(time.Time); ok {
			*out = append(*out, stampOf{t: t, skip: t.IsZero()})

			return
		}

		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				times(v.Field(i), out)
			}
		}
	}
}

type stampOf struct {
	date, skip bool
	t          time.Time
}

// key describes the time independently of the model: seconds since the epoch for
// absolute times, the reading for floating times and dates.
func (s stampOf) key() string {
	switch {
	case s.skip:
		return "-"
	case s.date:
		return s.t.Format("2006-01-02")
	case s.t.Location() == time.Local:
		return "floating " + s.t.Format("2006-01-02 15:04:05")
	default:
		return fmt.Sprintf("instant %d", s.t.Unix())
	}
}

func timeKeys(cal *ics.Calendar) []string {
	var l []stampOf

	times(reflect.ValueOf(cal), &l)

	out := make([]string, len(l))

	for i, s := range l {
		out[i] = s.key()
	}

	return out
}

// draw a cut/fault offset in [0, n): uniform, near line ends, or near the end.
func offset(r *core.Run, b []byte, n int) int {
	if n <= 0 {
		return 0
	}

	switch r.N(4) {
	case 1: // next to a line end
		k := r.N(1 + bytes.Count(b[:n], []byte("\r\n")))
		i := 0

		for ; k > 0; k-- {
			j := bytes.Index(b[i:n], []byte("\r\n"))

			if j < 0 {
				break
			}

			i += j + 2
		}

		i += r.N(6) - 3

		if i < 0 {
			i = 0
		}

		if i >= n {
			i = n - 1
		}

		return i
	case 2: // near the end
		m := 60

		if m > n {
			m = n
		}

		return n - 1 - r.N(m)
	}

	return r.N(n)
}

// closing returns the offset at which the text of the closing line is complete.
func closing(b []byte) int { return len(b) - 2 }

func is(err, target error) bool { return err != nil && errors.Is(err, target) }
