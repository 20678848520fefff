package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"strings"
	"syscall"
	"time"

	"verif/sim/core"
	"verif/sim/gen"
	"verif/sim/hook"
	"verif/sim/model"
	"verif/sim/zones"
	"vimagination.zapto.org/ics"
)

func at(n int, b []byte) string { return fmt.Sprintf("byte %d of %d", n, len(b)) }

// c06: write errors.
func c06(r *core.Run) {
	host(r)

	s := newSubject(r, gen.New(r))
	base, o := s.output(r)

	if o.Crashed() || o.Err != nil {
		r.Trivial = true

		r.Probe("calendar refused")

		return
	}

	for n := 1 + r.N(6); n > 0; n-- {
		w := r.NewWriter()
		w.FailAt(core.WErrPart+r.N(3), offset(r, base, len(base)))

		o := r.Encode(w.Wrap(), s.cal, s.size)

		switch {
		case o.Crashed():
			r.Fail("write-error-crash", "Encode with a writer failing at %s: %s", at(w.At, base), o)
		case !w.Tripped && o.Err == nil:
			// Encode wrote less than before, and says that is all.
			r.Fail("write-error-incomplete", "Encode wrote only %d of %d bytes and returned no error", len(w.Got), len(base))
		case o.Err == nil:
			r.Fail("write-error-ignored", "Encode returned no error although the writer failed with %q at %s", w.Err, at(w.At, base))
		case !w.Tripped:
			r.Fail("write-error-early", "Encode returned %q although no write failed", o.Err)
		case !is(o.Err, w.Err):
			r.Fail("write-error-masked", "the writer failed with %q at %s, Encode reports %q", w.Err, at(w.At, base), o.Err)
		case w.After > 0:
			r.Fail("write-after-error", "Encode made %d more writes after the writer had failed at %s", w.After, at(w.At, base))
		case !bytes.HasPrefix(base, w.Got):
			r.Fail("write-error-garbage", "the writer failed at %s; the bytes it accepted are not the beginning of the stream: %s", at(w.At, base), firstDiff(base, w.Got))
		}
	}
}

func firstDiff(want, got []byte) string {
	i := 0

	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}

	cut := func(b []byte) []byte {
		if i >= len(b) {
			return nil
		}

		e := i + 40

		if e > len(b) {
			e = len(b)
		}

		return b[i:e]
	}

	return fmt.Sprintf("at byte %d expected %q, got %q", i, cut(want), cut(got))
}

// c07: complete, well-formed output.
func c07(r *core.Run) {
	host(r)

	s := newSubject(r, gen.New(r))

	if r.N(4) == 3 {
		distort(r, s.cal, 1+r.N(4))
		s.size += footprint(s.cal)
	}

	base, o := s.output(r)

	if o.Crashed() || o.Err != nil {
		r.Trivial = true

		r.Probe("calendar refused")

		return
	}

	if r.Keep {
		r.Note("output: %s", show(base))
	}

	if err := model.Lint(base); err != nil {
		r.Fail("malformed", "Encode succeeded, but its output %s", err)
	}

	for n := 1 + r.N(5); n > 0; n-- {
		w := r.NewWriter()

		if r.N(4) > 0 {
			w.FailAt(core.WShort+r.N(2), offset(r, base, len(base)))
		} else {
			w.FailAt(core.WErrPart+r.N(3), offset(r, base, len(base)))
		}

		o := r.Encode(w.Wrap(), s.cal, s.size)

		switch {
		case o.Over:
			r.Fail("short-write-hang", "Encode with a writer that accepts %d of the bytes of one write: %s", w.At, o)
		case o.Panic != "":
			r.Fail("short-write-crash", "Encode with a writer that accepts only part of a write: %s", o)
		case o.Err != nil:
		case w.Tripped:
			r.Fail("short-write-ignored", "Encode returned no error although the writer did not accept all bytes of the write at %s", at(w.At, base))
		case !bytes.Equal(w.Got, base):
			r.Fail("incomplete", "Encode returned no error, but the output is not the complete stream: %s", firstDiff(base, w.Got))
		}
	}
}

// c08: validation before writing.
func c08(r *core.Run) {
	host(r)

	g := gen.New(r)
	s := newSubject(r, g)

	// Only calendars that are fine before the planting tell anything.
	if _, o := s.output(r); o.Crashed() || o.Err != nil {
		r.Trivial = true

		r.Probe("valid calendar refused")

		return
	}

	what := plant(r, g, s.cal)
	w := r.NewWriter()

	if r.Chance(1, 4) {
		w.FailAt(1+r.N(5), r.N(1+s.size))
	}

	o := r.Encode(w.Wrap(), s.cal, s.size+footprint(s.cal))

	switch {
	case o.Crashed():
		r.Fail("invalid-crash", "Encode of a calendar with an invalid part (%s): %s", what, o)
	case w.Calls > 0:
		r.Fail("invalid-written", "a calendar has an invalid part (%s); Encode made %d writes (%d bytes) and returned %v", what, w.Calls, len(w.Got), o.Err)
	case o.Err == nil:
		r.Fail("invalid-accepted", "Encode returned no error for a calendar with an invalid part (%s)", what)
	}
}

// c09: store and read back.
func c09(r *core.Run) {
	host(r)

	s := newSubject(r, gen.New(r))
	read := func(b []byte) *core.Outcome {
		rd := r.NewReader(b)

		return r.Decode(rd.Wrap(), len(b))
	}

	if r.Keep {
		r.Note("calendar: %s", s.canon)
	}

	for n := r.N(4); n > 0; n-- { // attempts that may fail
		w := r.NewWriter()
		w.FailAt(1+r.N(5), r.N(1+s.size))

		o := r.Encode(w.Wrap(), s.cal, s.size)

		if o.Crashed() {
			r.Fail("encode-crash", "Encode of a valid calendar on a failing store: %s", o)
		}

		if o.Err == nil && w.Tripped && w.Style >= core.WShort {
			r.Trivial = true // bytes silently lost: the business of C07

			continue
		}

		d := read(w.Got)

		switch {
		case d.Crashed():
			r.Probe("torn store not readable")
		case d.Err != nil:
			r.Probe("torn store rejected")
		default:
			r.Probe("torn store readable")
			sameVerdict(r, "torn", "what a failed Encode left in the store decodes to a different calendar", s.canon, canonOf(d.Cal), "")
		}
	}

	w := r.NewWriter()
	o := r.Encode(w.Wrap(), s.cal, s.size)

	if r.Keep {
		r.Note("stored: %s", show(w.Got))
	}

	if o.Crashed() || o.Err != nil {
		r.Fail("refused", "Encode of a valid calendar on a working writer: %s", o)
	}

	t, err := model.Parse(w.Got)
	if err != nil {
		r.Fail("reference", "an independent reader does not understand the stream of a successful Encode: %s", err)
	}

	sameVerdict(r, "content", "the stream of a successful Encode does not hold the calendar's content", s.canon, t.Canon(), "")

	d := read(w.Got)

	if d.Crashed() || d.Err != nil {
		r.Fail("unreadable", "Decode of what Encode wrote: %s", d)
	}

	sameVerdict(r, "readback", "the calendar read back differs from the one stored", s.canon, canonOf(d.Cal), "")

	if a, b := timeKeys(s.cal), timeKeys(d.Cal); !reflect.DeepEqual(a, b) {
		r.Fail("readback-times", "the times read back differ from those stored: %s", listDiff(a, b))
	}

	// What was read back is a valid calendar, too.
	w2 := r.NewWriter()

	if o := r.Encode(w2, d.Cal, s.size); o.Crashed() || o.Err != nil {
		r.Fail("second", "Encode of the calendar read back: %s", o)
	}

	t2, err := model.Parse(w2.Got)
	if err != nil {
		r.Fail("second", "an independent reader does not understand the second stream: %s", err)
	}

	sameVerdict(r, "second", "storing the calendar read back changes it", s.canon, t2.Canon(), "")
}

func listDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"

		if i < len(a) {
			x = a[i]
		}

		if i < len(b) {
			y = b[i]
		}

		if x != y {
			return fmt.Sprintf("expected %s, got %s", x, y)
		}
	}

	return "no difference"
}

type moment struct {
	kind, zone, wall string
	unix             int64
}

func moments(cal *ics.Calendar) []moment {
	var l []stampOf

	times(reflect.ValueOf(cal), &l)

	out := make([]moment, len(l))

	for i, s := range l {
		switch {
		case s.skip:
			out[i] = moment{kind: "none"}
		case s.date:
			out[i] = moment{kind: "date", wall: s.t.Format("2006-01-02")}
		case s.t.Location() == time.Local:
			out[i] = moment{kind: "floating", wall: s.t.Format("2006-01-02T15:04:05")}
		default:
			out[i] = moment{kind: "absolute", zone: s.t.Location().String(), unix: s.t.Unix()}
		}
	}

	return out
}

// c10: hosts with different local zones.
func c10(r *core.Run) {
	z := host(r)
	g := gen.New(r)
	g.K.TimeMix |= 6

	if r.N(3) == 2 {
		z = g.K.Zones[r.N(len(g.K.Zones))]
		zones.SetLocalNamed(z)
		r.Fault("host:named-local-zone")
		r.Ev("host-zone", 1, 0, z)
	}

	s := newSubject(r, g)
	want := moments(s.cal)
	cal := s.cal
	names := zones.Names()

	for hop := 1 + r.N(3); hop > 0; hop-- {
		w := r.NewWriter()
		o := r.Encode(w, cal, s.size)

		if o.Crashed() || o.Err != nil {
			r.Trivial = true

			r.Probe("calendar refused")

			return
		}

		set, z2 := zones.SetLocal, names[r.N(len(names))]

		if r.N(4) == 3 {
			set, z2 = zones.SetLocalNamed, g.K.Zones[r.N(len(g.K.Zones))]
			r.Fault("host:named-local-zone")
		}

		set(z2)

		for _, m := range want {
			if m.kind == "floating" {
				if t, err := time.ParseInLocation("2006-01-02T15:04:05", m.wall, time.Local); err != nil || t.Format("2006-01-02T15:04:05") != m.wall {
					set, z2 = zones.SetLocal, "" // that reading does not exist there
				}
			}
		}

		set(z2)
		r.Fault("host:zone-change")
		r.Ev("host-zone", 0, 0, z2)
		r.PointAt("zones:"+z+":"+z2, 0)

		z = z2
		rd := r.NewReader(w.Got)
		d := r.Decode(rd.Wrap(), len(w.Got))

		if d.Crashed() || d.Err != nil {
			r.Trivial = true

			r.Probe("stream rejected")

			return
		}

		got := moments(d.Cal)

		if len(got) != len(want) {
			r.Trivial = true // something else was lost

			return
		}

		for i, a := range want {
			b := got[i]

			switch {
			case a.kind != b.kind:
				r.Fail("moved", "a time changed its nature on the way to a host with local zone %q: was %s, is %s", z, a, b)
			case a.kind == "absolute" && a.unix != b.unix, a.wall != b.wall:
				r.Fail("moved", "a time moved on the way to a host with local zone %q: was %s, is %s", z, a, b)
			case a.kind == "absolute" && a.zone != "" && a.zone != b.zone:
				r.Fail("rezoned", "a time changed its zone on the way to a host with local zone %q: was %s, is %s", z, a, b)
			}
		}

		cal = d.Cal
	}
}

func (m moment) String() string {
	switch m.kind {
	case "absolute":
		return fmt.Sprintf("%s (%s)", time.Unix(m.unix, 0).UTC().Format("2006-01-02T15:04:05Z"), m.zone)
	case "none":
		return "none"
	}

	return m.kind + " " + m.wall
}

// zoneErr returns an error as the lookup of zone n may report it.
func zoneErr(kind int, n string) error {
	path := "/usr/share/zoneinfo/" + n

	switch kind {
	case 1:
		return errors.New("unknown time zone " + n)
	case 2:
		return &fs.PathError{Op: "open", Path: path, Err: syscall.ENOENT}
	case 3:
		return &fs.PathError{Op: "open", Path: path, Err: syscall.EACCES}
	case 4:
		return syscall.EMFILE
	case 5:
		return errors.New("malformed time zone information")
	case 6:
		return fmt.Errorf("simulated zone server: %w", io.ErrUnexpectedEOF)
	}

	return fmt.Errorf("simulated zone database: open %s: input/output error", n)
}

// c11: zone lookups fail.
func c11(r *core.Run) {
	host(r)

	g := gen.New(r)
	g.K.TimeMix = 4 | uint(r.N(16))
	s := newSubject(r, g)
	b := s.stream(r)

	if !bytes.Contains(b, []byte("TZID=")) && !bytes.Contains(b, []byte("tzid=")) {
		r.Trivial = true
	}

	if r.Chance(1, 3) { // a zone no database knows
		i := bytes.Index(b, []byte(g.K.Zones[0]))

		if i >= 0 {
			b = bytes.Replace(b, []byte(g.K.Zones[0]), []byte([]string{"Nowhere/City", "EST5EDT4", "W. Europe Standard Time", "/example.org/Olson/Europe/Vienna", "Custom", "GMT+0100", "UTC+1", "Pacific Standard Time", "/Europe/London", "Europe/London ", "(UTC+01:00) Amsterdam", "Z"}[r.N(12)]), 1+r.N(2))

			r.Fault("zone:unknown")
		}
	}

	// What comes out with failures must be what comes out without. Sometimes that is
	// only asked afterwards, so that the failing lookup is the first one ever.
	var base *core.Outcome

	late := r.N(2) == 1

	// That a database has everything means zones of any name, too.
	complete := func() *core.Outcome {
		defer func() { hook.ZoneFn = zones.Load }()

		hook.ZoneFn = func(n string) (*time.Location, error) {
			if l, err := zones.Load(n); err == nil {
				return l, nil
			}

			return zones.LoadAs(n, "Asia/Kathmandu")
		}

		return whole(r, b)
	}

	if !late {
		base = complete()
	}

	type result struct {
		canon string
		times []string
	}

	var got []result

	for n := 1 + r.N(5); n > 0; n-- {
		mode, k, name, cnt, kind := r.N(6), 1+r.N(4), g.K.Zones[r.N(len(g.K.Zones))], 0, r.N(7)
		failed := 0

		hook.ZoneFn = func(n string) (*time.Location, error) {
			cnt++
			fail := false

			switch mode {
			case 1:
				fail = true
			case 2:
				fail = n == name
			case 3:
				fail = cnt == k
			case 4:
				fail = cnt > k
			case 5:
				fail = cnt%2 == k%2
			}

			r.Ev("lookup", cnt, b2i(fail), n)

			if fail {
				failed++

				r.Fault("zone:lookup-fails")
				r.Point("lookup")

				return nil, zoneErr(kind, n)
			}

			return zones.Load(n)
		}

		rd := r.NewReader(b)
		o := r.Decode(rd.Wrap(), len(b))
		hook.ZoneFn = zones.Load

		if failed > 0 {
			r.Probe("decoded with failing lookups")
		}

		if o.Crashed() || o.Err != nil {
			continue
		}

		if failed > 0 {
			r.Probe("accepted in spite of failing lookups")
		}

		got = append(got, result{canonOf(o.Cal), timeKeys(o.Cal)})
	}

	if late {
		base = complete()
	}

	if base.Crashed() || base.Err != nil {
		r.Probe("rejected with working lookups")

		// A zone the database does not have, or damage: nothing may come out
		// of it with failing lookups either - unless it was never about zones.
		if len(got) > 0 {
			r.Fail("accepted", "with failing zone lookups Decode returned a calendar it does not return with a working database (%s)", base)
		}

		return
	}

	want, wt := canonOf(base.Cal), timeKeys(base.Cal)

	for _, x := range got {
		sameVerdict(r, "wrong-zone", "with failing zone lookups Decode returned a different calendar", want, x.canon, "")

		if !reflect.DeepEqual(x.times, wt) {
			r.Fail("wrong-time", "with failing zone lookups Decode returned different times: %s", listDiff(wt, x.times))
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}

	return 0
}

// c14: the calendar stays as it is.
func c14(r *core.Run) {
	host(r)

	g := gen.New(r)
	s := newSubject(r, g)

	switch r.N(4) {
	case 1:
		plant(r, g, s.cal)
	case 2:
		distort(r, s.cal, 1+r.N(3))
	}

	roomy(r, reflect.ValueOf(s.cal).Elem())

	size := s.size + footprint(s.cal)

	var sn snapper

	before := sn.snapshot(s.cal)

	for n := 1 + r.N(4); n > 0; n-- {
		w := r.NewWriter()

		if r.N(2) == 1 {
			w.FailAt(1+r.N(5), r.N(1+s.size))
		}

		o := r.Encode(w.Wrap(), s.cal, size)
		after := sn.snapshot(s.cal)

		switch {
		case o.Err == nil && !o.Crashed():
			r.Probe("encoded")
		case w.Calls == 0:
			r.Probe("refused")
		default:
			r.Probe("cut off")
		}

		if before != after {
			r.Fail("modified", "Encode (%s) changed its calendar: %s", o, model.Diff(before, after))
		}
	}
}

// roomy gives slices spare capacity holding something, as slices cut from larger
// ones have.
func roomy(r *core.Run, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && v.Type() != reflect.TypeOf((*time.Location)(nil)) {
			if v.Kind() == reflect.Interface {
				v = v.Elem()

				if v.Kind() != reflect.Ptr || v.IsNil() {
					return
				}
			}

			roomy(r, v.Elem())
		}
	case reflect.Slice:
		n := v.Len()

		if n > 0 && r.N(2) == 1 {
			m := n + 1 + r.N(3)
			l := reflect.MakeSlice(v.Type(), m, m)
			reflect.Copy(l, v)

			for i := n; i < m; i++ {
				l.Index(i).Set(v.Index(i % n))
			}

			v.Set(l.Slice(0, n))
		}

		for i := 0; i < n; i++ {
			roomy(r, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				roomy(r, v.Field(i))
			}
		}
	}
}

// snapper describes everything reachable from calendars: values, pointers, slice
// headers and spare capacity. Addresses are numbered in order of appearance.
type snapper struct {
	b    strings.Builder
	seen map[uintptr]int
}

func (s *snapper) snapshot(cal *ics.Calendar) string {
	if s.seen == nil {
		s.seen = map[uintptr]int{0: 0}
	}

	s.b.Reset()
	s.snap("", reflect.ValueOf(cal))

	return s.b.String()
}

func (s *snapper) id(p uintptr) int {
	n, ok := s.seen[p]

	if !ok {
		n = len(s.seen)
		s.seen[p] = n
	}

	return n
}

func (s *snapper) put(path string, format string, a ...any) {
	s.b.WriteString(path)
	s.b.WriteString(": ")
	fmt.Fprintf(&s.b, format, a...)
	s.b.WriteByte('\n')
}

func (s *snapper) snap(path string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		s.put(path, "@%d", s.id(v.Pointer()))

		if !v.IsNil() && v.Type() != reflect.TypeOf((*time.Location)(nil)) {
			s.snap(path, v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			s.put(path, "nil")
		} else {
			s.put(path, "%s", v.Elem().Type())
			s.snap(path, v.Elem())
		}
	case reflect.Slice:
		s.put(path, "@%d len %d cap %d", s.id(v.Pointer()), v.Len(), v.Cap())

		if v.IsNil() {
			return
		}

		full := v.Slice(0, v.Cap())

		if v.Type().Elem().Kind() == reflect.Uint8 {
			s.put(path, "%x", full.Bytes())

			return
		}

		for i := 0; i < full.Len(); i++ {
			s.snap(fmt.Sprintf("%s[%d]", path, i), full.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.snap(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.snap(path+"."+v.Type().Field(i).Name, v.Field(i))
		}
	case reflect.String:
		s.put(path, "%q", v.String())
	case reflect.Bool:
		s.put(path, "%v", v.Bool())
	case reflect.Float64:
		s.put(path, "%v", v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.put(path, "%d", v.Int())
	default:
		s.put(path, "%d", v.Uint())
	}
}
