package checks

import (
	"bytes"
	"fmt"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"time"

	"verif/sim/core"
	"verif/sim/gen"
	"verif/sim/hook"
	"verif/sim/model"
	"verif/sim/zones"
	"vimagination.zapto.org/ics"
)

// job is one call of a concurrent run. Everything that happens around the call is a
// function of its seed.
type job struct {
	enc    bool
	s      *subject
	b      []byte
	seed   uint64
	fail   int // writer fault style, or 1 for a reader error; 0: none
	at     int
	noWrap bool
}

// call is a job made ready to run.
type call struct {
	child *core.Run
	w     *core.Writer
	fn    func(o *core.Outcome)
}

func (j *job) ready() *call {
	c := &call{child: core.NewRun(core.NewSrc(j.seed))}

	if j.enc {
		c.w = c.child.NewWriter()

		if j.fail > 0 {
			c.w.FailAt(j.fail, j.at)
		}

		w := c.w.Wrap()
		c.fn = func(o *core.Outcome) { o.Err = ics.Encode(w, j.s.cal) }

		return c
	}

	rd := c.child.NewReader(j.b)

	if j.fail > 0 {
		rd.FailAt(j.at)
	}

	in := rd.Wrap()
	c.fn = func(o *core.Outcome) { o.Cal, o.Err = ics.Decode(in) }

	return c
}

func (j *job) size() int {
	if j.enc {
		return j.s.size + footprint(j.s.cal)
	}

	return len(j.b)
}

func (j *job) String() string {
	k := "Decode"

	if j.enc {
		k = "Encode"
	}

	return fmt.Sprintf("%s (%d bytes, fault %d at %d)", k, j.size(), j.fail, j.at)
}

// result describes what the call did.
func (c *call) result(o *core.Outcome) string {
	if o.Crashed() {
		return verdict(o)
	}

	if c.w != nil {
		return fmt.Sprintf("error %v after writing %q", o.Err, c.w.Got)
	}

	if o.Err != nil {
		return "error " + o.Err.Error()
	}

	return canonOf(o.Cal) + "\n" + strings.Join(timeKeys(o.Cal), "\n")
}

// c12: concurrency.
func c12(r *core.Run) {
	host(r)

	g := gen.New(r)
	subs := make([]*subject, 1+r.N(3))
	streams := make([][]byte, len(subs))

	for i := range subs {
		subs[i] = newSubject(r, g)
		streams[i] = subs[i].stream(r)

		if r.Chance(1, 5) {
			streams[i] = damage(r, streams[i], streams[0])
		}

		if r.Chance(1, 6) {
			plant(r, g, subs[i].cal)
		}
	}

	jobs := make([]*job, 2+r.N(5))
	total := 0

	for i := range jobs {
		k := r.N(len(subs))
		j := &job{enc: r.N(2) == 1, s: subs[k], b: streams[k], seed: uint64(r.N(1 << 30))}

		if r.Chance(1, 4) {
			j.fail = 1

			if j.enc {
				j.fail = 1 + r.N(5)
				r.Fault("task:writer-fault")
			} else {
				r.Fault("task:reader-error")
			}

			j.at = r.N(1 + j.size())
		}

		jobs[i] = j
		total += j.size()
		r.Ev("job", i, j.size(), "")
		r.Note("task %d: %s", i, j)
	}

	solo := func() []string {
		out := make([]string, len(jobs))

		for i, j := range jobs {
			c := j.ready()
			o := r.Call(j.size(), c.fn)
			out[i] = c.result(o)

			if o.Crashed() {
				r.Trivial = true
			}
		}

		return out
	}

	// Alone first, or alone afterwards: whatever the calls do only once per
	// process then happens concurrently.
	var want []string

	after := r.N(2) == 1

	if !after {
		want = solo()
	}

	scale := []int{300, 3, 30, 3000, 30000}[r.N(5)]
	plan := make([]core.Switch, r.N([]int{8, 60, 400}[r.N(3)]))

	for i := range plan {
		plan[i] = core.Switch{Next: r.N(len(jobs) - 1), Quantum: 1 + r.N(scale)}
	}

	calls := make([]*call, len(jobs))
	fns := make([]func(o *core.Outcome), len(jobs))

	for i, j := range jobs {
		calls[i] = j.ready()
		fns[i] = calls[i].fn
	}

	core.Races()

	budget := uint64(len(jobs)*core.BudgetBase + core.BudgetPerByte*total)
	sched, outs := core.RunTasks(plan, budget, r.Keep, fns)
	races := core.Races()

	r.Inter = sched.Hash
	r.AddSteps(outs[0].Steps)
	r.Faults["preemption"] += sched.Switches
	r.Ev("tasks", len(jobs), sched.Switches, fmt.Sprint(sched.Hash))

	for _, l := range sched.Log {
		r.Note("%s", l)
	}

	for i, c := range calls {
		r.Ev("task", i, c.child.Events, fmt.Sprint(c.child.Hash()))
		r.Merge(c.child)
	}

	if len(races) > 0 {
		r.Fail("race", "data race between concurrent calls: %s", races[0])
	}

	got := make([]string, len(jobs))

	for i, c := range calls {
		got[i] = c.result(outs[i])
	}

	if after {
		want = solo()
	}

	for i := range jobs {
		if want[i] == "panics" || want[i] == "does not finish" {
			continue
		}

		if outs[i].Crashed() {
			r.Fail("interference-crash", "a call that works alone crashes next to %d others: task %d: %s", len(jobs)-1, i, outs[i])
		}

		if want[i] != got[i] {
			r.Fail("interference", "task %d behaves differently next to %d others: %s", i, len(jobs)-1, model.Diff(want[i], got[i]))
		}
	}

	// No memory in common: change everything in one calendar and look at the others.
	var cals []*ics.Calendar

	for i := range outs {
		if outs[i].Cal != nil && outs[i].Err == nil {
			cals = append(cals, outs[i].Cal)
		}
	}

	if len(cals) < 2 {
		return
	}

	r.Probe("calendars checked for sharing")

	var sn snapper

	k := r.N(len(cals))
	cals[0], cals[k] = cals[k], cals[0]
	before := make([]string, len(cals))

	for i, c := range cals[1:] {
		before[i] = sn.snapshot(c)
	}

	scramble(reflect.ValueOf(cals[0]))

	for i, c := range cals[1:] {
		if now := sn.snapshot(c); now != before[i] {
			r.Fail("sharing", "changing one decoded calendar changes another: %s", model.Diff(before[i], now))
		}
	}

	for i, j := range jobs {
		if !j.enc && want[i] != "panics" && want[i] != "does not finish" {
			c := j.ready()

			if res := c.result(r.Call(j.size(), c.fn)); res != want[i] {
				r.Fail("sharing", "changing a decoded calendar changes what Decode returns later: %s", model.Diff(want[i], res))
			}
		}
	}
}

// scramble changes everything that can be reached from v and changed.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			scramble(v.Elem())
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != reflect.TypeOf((*time.Location)(nil)) && v.Type() != reflect.TypeOf((*url.Userinfo)(nil)) {
			scramble(v.Elem())
		}
	case reflect.Slice:
		full := v.Slice(0, v.Cap())

		for i := 0; i < full.Len(); i++ {
			scramble(full.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			v.Set(reflect.ValueOf(t.Add(3601 * time.Second)))

			return
		}

		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scramble(v.Field(i))
			}
		}
	case reflect.String:
		v.SetString(v.String() + "~")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Float64:
		v.SetFloat(v.Float() + 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 1)
	}
}

var zoneParam = regexp.MustCompile(`(?i)TZID="?[^":;\r\n]+`)

// otherCase returns the stream with a letter of the other case, if there are zones
// mostly in the name of one.
func otherCase(r *core.Run, b []byte) []byte {
	if len(b) == 0 {
		return nil
	}

	at := r.N(len(b))

	if zs := zoneParam.FindAllIndex(b, -1); len(zs) > 0 && r.N(4) > 0 {
		z := zs[r.N(len(zs))]
		at = z[0] + 5 + r.N(z[1]-z[0]-5)
	}

	for ; at < len(b); at++ {
		if c := b[at] | 0x20; c >= 'a' && c <= 'z' {
			t := append([]byte(nil), b...)
			t[at] ^= 0x20

			r.Fault("corrupt:letter-case")

			return t
		}
	}

	return nil
}

// c13: histories.
func c13(r *core.Run) {
	host(r)

	g := gen.New(r)
	s := newSubject(r, g)
	b := s.stream(r)

	if r.Chance(1, 4) {
		b = damage(r, b, b)
	}

	if r.Chance(1, 5) {
		plant(r, g, s.cal)
	}

	var twin []byte

	if r.Chance(1, 3) {
		twin = otherCase(r, b)
	}

	encSize := s.size + footprint(s.cal)
	crashed := false
	one := func(b []byte) (*ics.Calendar, string) {
		o := whole(r, b)

		if crashed = crashed || o.Crashed(); o.Crashed() {
			return nil, verdict(o)
		}

		if o.Err != nil {
			return nil, "error " + o.Err.Error()
		}

		return o.Cal, canonOf(o.Cal) + "\n" + strings.Join(timeKeys(o.Cal), "\n")
	}

	// The call in question: the Decode, or the Encode. The Decode may come after
	// that of a stream that is nearly the same.
	dec := func() (*ics.Calendar, string) {
		if twin == nil {
			return one(b)
		}

		_, first := one(twin)
		cal, second := one(b)

		return cal, first + "\n" + second
	}
	enc := func() string {
		var w bytes.Buffer

		o := r.Encode(&w, s.cal, encSize)

		if crashed = crashed || o.Crashed(); o.Crashed() {
			return verdict(o)
		}

		return fmt.Sprintf("error %v after writing %q", o.Err, w.Bytes())
	}

	prefix := append([]uint64(nil), r.Rec...)
	first, wantDec := dec()
	wantEnc := enc()

	if r.Solo {
		r.SoloOut = []string{wantDec, wantEnc}

		return
	}

	if crashed {
		r.Trivial = true

		r.Probe("call crashes on its own")

		return
	}

	if r.Chance(1, 16) && core.SoloFn != nil {
		out := core.SoloFn(r, "C13", prefix)

		r.Probe("compared with a fresh process")

		if len(out) == 2 && out[0] != wantDec {
			r.Fail("fresh", "Decode behaves differently than in a fresh process: %s", model.Diff(out[0], wantDec))
		}

		if len(out) == 2 && out[1] != wantEnc {
			r.Fail("fresh", "Encode behaves differently than in a fresh process: %s", model.Diff(out[1], wantEnc))
		}
	}

	var sn snapper

	snap0 := ""

	if first != nil {
		snap0 = sn.snapshot(first)
	}

	for n := 1 + r.N(8); n > 0; n-- {
		what := ""

		switch r.N(8) {
		case 0:
			what = "a Decode of the same stream cut off by the reader"
			rd := r.NewReader(b)
			rd.FailAt(offset(r, b, len(b)))
			r.Decode(rd.Wrap(), len(b))
		case 1:
			what = "an Encode of the same calendar with a failing writer"
			w := r.NewWriter()
			w.FailAt(1+r.N(5), r.N(1+s.size))
			r.Encode(w.Wrap(), s.cal, encSize)
		case 2:
			what = "a Decode of another stream"
			o := newSubject(r, g)
			ob := o.stream(r)
			rd := r.NewReader(ob)
			r.Decode(rd.Wrap(), len(ob))
		case 3:
			what = "a Decode of a corrupted stream"
			ob := damage(r, newSubject(r, g).stream(r), b)
			rd := r.NewReader(ob)
			r.Decode(rd.Wrap(), len(ob))
		case 4:
			what = "an Encode of another calendar"
			o := newSubject(r, g)
			w := r.NewWriter()

			if r.N(2) == 1 {
				w.FailAt(1+r.N(5), r.N(1+o.size))
			}

			r.Encode(w.Wrap(), o.cal, o.size)
		case 5:
			what = "an Encode of an invalid calendar"
			o := newSubject(r, g)
			plant(r, g, o.cal)
			w := r.NewWriter()
			r.Encode(w.Wrap(), o.cal, o.size+footprint(o.cal))
		case 6:
			what = "a Decode of the same stream with failing zone lookups"
			cnt, k, kind := 0, r.N(4), r.N(7)
			hook.ZoneFn = func(n string) (*time.Location, error) {
				cnt++

				if k == 0 || cnt == k {
					r.Fault("zone:lookup-fails")

					return nil, zoneErr(kind, n)
				}

				return zones.Load(n)
			}
			rd := r.NewReader(b)
			r.Decode(rd.Wrap(), len(b))
			hook.ZoneFn = zones.Load
		case 7:
			what = "a Decode of the same stream whose calendar the caller changed"
			rd := r.NewReader(b)

			if o := r.Decode(rd.Wrap(), len(b)); o.Cal != nil {
				scramble(reflect.ValueOf(o.Cal))
			}
		}

		r.Note("history: %s", what)

		if r.N(3) == 0 && n > 1 {
			continue
		}

		if _, got := dec(); got != wantDec {
			r.Fail("history-decode", "after %s, Decode behaves differently: %s", what, model.Diff(wantDec, got))
		}

		if got := enc(); got != wantEnc {
			r.Fail("history-encode", "after %s, Encode behaves differently: %s", what, model.Diff(wantEnc, got))
		}

		if first != nil {
			if now := sn.snapshot(first); now != snap0 {
				r.Fail("history-result", "%s changed a calendar returned by an earlier Decode: %s", what, model.Diff(snap0, now))
			}
		}
	}
}
