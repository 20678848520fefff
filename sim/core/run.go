package core

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"verif/sim/hook"
	"vimagination.zapto.org/ics"

	"io"
)

// Violation is a broken property.
type Violation struct {
	Kind   string // groups violations for minimisation
	Detail string
}

// harnessError is a fault of the simulator itself.
type harnessError struct{ msg string }

// Run is one simulated execution.
type Run struct {
	*Src
	Keep   bool // keep readable trace
	Trace  []string
	hash   uint64
	Events int
	Faults map[string]int
	Probes map[string]int
	// Points are the distinct situations reached: a kind of event together with
	// the place in the code under test, or the data, at which it happened.
	Points map[uint64]struct{}
	// Inter identifies the interleaving of a concurrent run.
	Inter uint64
	// Trivial is set when the run did not exercise the property.
	Trivial bool
	// MaxRate is the largest steps per byte of budget seen.
	MaxRate float64
	// MaxAlloc is the largest number of bytes allocated per byte of input seen.
	MaxAlloc float64
	steps    uint64
	nested   uint64     // statements of calls made inside the current call
	left     *Violation // by which the current call was left
	// Solo asks a check to stop after its reference outcome and leave it in SoloOut.
	Solo    bool
	SoloOut []string
}

// SoloFn performs the beginning of a run in a fresh process and returns its
// reference outcome.
var SoloFn func(r *Run, check string, choices []uint64) []string

// AddSteps accounts for statements executed outside Call.
func (r *Run) AddSteps(n uint64) { r.steps += n }

// Merge adds the counters of a task's run.
func (r *Run) Merge(c *Run) {
	for k, v := range c.Faults {
		r.Faults[k] += v
	}

	for k, v := range c.Probes {
		r.Probes[k] += v
	}

	for k := range c.Points {
		r.Points[k] = struct{}{}
	}
}

// NewRun prepares a run.
func NewRun(s *Src) *Run {
	return &Run{Src: s, hash: 14695981039346656037, Faults: map[string]int{}, Probes: map[string]int{}, Points: map[uint64]struct{}{}}
}

// Hash is the hash of the complete event log.
func (r *Run) Hash() uint64 { return r.hash }

// Steps is the number of statements executed in the package under test.
func (r *Run) Steps() uint64 { return r.steps }

func (r *Run) mix(x uint64) {
	r.hash = (r.hash ^ x) * 1099511628211
	r.hash ^= r.hash >> 29
}

// HashString hashes a string.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)

	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}

	return h
}

// Ev records an event.
func (r *Run) Ev(kind string, a, b int, note string) {
	r.Events++
	r.mix(HashString(kind))
	r.mix(uint64(a))
	r.mix(uint64(b))
	r.mix(HashString(note))

	if r.Keep && len(r.Trace) < 4000 {
		r.Trace = append(r.Trace, strings.TrimSpace(fmt.Sprintf("%s %d %d %s", kind, a, b, note)))
	}
}

// Note adds a readable line (kept only in traces).
func (r *Run) Note(format string, a ...any) {
	if r.Keep && len(r.Trace) < 4000 {
		r.Trace = append(r.Trace, fmt.Sprintf(format, a...))
	}
}

// Fault counts an injected fault.
func (r *Run) Fault(kind string) { r.Faults[kind]++ }

// Probe counts a rare situation reached.
func (r *Run) Probe(kind string) { r.Probes[kind]++ }

// Point records that something of this kind happened where the code under test is now.
func (r *Run) Point(kind string) { r.PointAt(kind, uint64(hook.Last)) }

// PointAt records that something of this kind happened at x.
func (r *Run) PointAt(kind string, x uint64) { r.Points[Mix(HashString(kind)^x<<20)] = struct{}{} }

// Fail ends the run with a violation.
func (r *Run) Fail(kind, format string, a ...any) {
	panic(&Violation{kind, fmt.Sprintf(format, a...)})
}

// Harness ends the run with a harness error.
func (r *Run) Harness(format string, a ...any) {
	panic(&harnessError{fmt.Sprintf(format, a...)})
}

// Outcome is what a call into the package under test did.
type Outcome struct {
	Cal    *ics.Calendar
	Err    error
	Panic  string // non-empty if it panicked
	Value  any    // what it panicked with
	Over   bool   // exceeded its statement budget
	Exited bool   // ended its goroutine
	Steps  uint64
}

// Crashed reports whether the call did not return normally.
func (o *Outcome) Crashed() bool { return o.Over || o.Exited || o.Panic != "" }

func (o *Outcome) String() string {
	switch {
	case o.Over:
		return fmt.Sprintf("did not finish within its budget (%d statements)", o.Steps)
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Exited:
		return "ended its goroutine"
	case o.Err != nil:
		return "error: " + o.Err.Error()
	}

	return "ok"
}

type overBudget struct{}

// BudgetBase and BudgetPerByte bound the statements a call may execute. They
// are several orders of magnitude above what a linear implementation uses.
const (
	BudgetBase    = 300_000
	BudgetPerByte = 1000
)

// abort is panicked by simulated readers and writers to leave a call.
type abort struct{ v *Violation }

// leave makes the current call a violation, whatever becomes of the panic.
func (r *Run) leave(v *Violation) {
	r.left = v

	panic(abort{v})
}

// Call runs f under a statement budget for an input of size bytes. Calls may be nested.
func (r *Run) Call(size int, f func(o *Outcome)) (o *Outcome) {
	o = new(Outcome)
	start, nested := hook.Steps, r.nested
	limit, slow := hook.Limit, hook.Slow
	maps := hook.NewCall()
	done := false

	r.nested = 0
	hook.Limit = start + BudgetBase + BudgetPerByte*uint64(size)
	hook.Slow = func(uint32) {
		o.Over = true

		panic(overBudget{})
	}

	defer func() {
		all := hook.Steps - start
		o.Steps = all - r.nested
		r.steps += o.Steps
		r.nested = nested + all
		hook.Slow, hook.Limit = slow, limit

		if limit < 1<<62 {
			hook.Limit += all
		}

		hook.OldCall(maps)

		if rate := float64(o.Steps) / float64(size+500); rate > r.MaxRate && !o.Over {
			r.MaxRate = rate
		}

		e := recover()

		if v := r.left; v != nil {
			r.left = nil

			panic(v)
		}

		switch e := e.(type) {
		case nil:
			o.Exited = !done
		case overBudget:
			o.Over = true
		case *harnessError, *Violation:
			panic(e)
		default:
			o.Panic, o.Value = fmt.Sprint(e), e

			if r.Keep {
				r.Note("panic stack: %s", shortStack())
			}
		}
	}()

	f(o)

	done = true

	return o
}

// Aside is Call in a goroutine of its own.
func (r *Run) Aside(size int, f func(o *Outcome)) *Outcome {
	var (
		o    *Outcome
		e    any
		done = make(chan struct{})
	)

	go func() {
		defer close(done)
		defer func() { e = recover() }()

		r.Call(size, func(out *Outcome) {
			o = out

			f(o)
		})
	}()

	<-done

	if e != nil {
		panic(e)
	}

	return o
}

func shortStack() string {
	var keep []string

	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "zapto.org/ics.") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}

	if len(keep) > 6 {
		keep = keep[:6]
	}

	return strings.Join(keep, " <- ")
}

// Decode calls the real Decode under a budget.
func (r *Run) Decode(rd io.Reader, size int) *Outcome {
	var o *Outcome

	r.Group(func() { o = r.Call(size, func(o *Outcome) { o.Cal, o.Err = ics.Decode(rd) }) })

	if o.Crashed() {
		o.Cal, o.Err = nil, nil
	}

	r.Ev("decode", int(o.Steps), b2i(o.Cal != nil), o.String())

	return o
}

// Encode calls the real Encode under a budget.
func (r *Run) Encode(w io.Writer, cal *ics.Calendar, size int) *Outcome {
	var o *Outcome

	r.Group(func() { o = r.Call(size, func(o *Outcome) { o.Err = ics.Encode(w, cal) }) })

	if o.Crashed() {
		o.Err = nil
	}

	r.Ev("encode", int(o.Steps), 0, o.String())

	return o
}

func b2i(b bool) int {
	if b {
		return 1
	}

	return 0
}

// Check is the body of a property's simulation.
type Check func(r *Run)

// Result is what Exec returns.
type Result struct {
	Run       *Run
	Viol      *Violation
	HarnessER string
}

// Exec performs one run.
func Exec(c Check, s *Src, keep bool) (res Result) {
	r := NewRun(s)
	r.Keep = keep
	res.Run = r

	hook.NewRun()

	if !RaceBuild {
		hook.DrawFn = r.N
	}

	defer func() {
		hook.Limit, hook.Slow, hook.BlockFn, hook.DrawFn = 1<<62, nil, nil, nil

		switch e := recover().(type) {
		case nil:
		case *Violation:
			res.Viol = e
			r.Ev("violation", 0, 0, e.Kind)
		case *harnessError:
			res.HarnessER = e.msg
		default:
			res.HarnessER = fmt.Sprintf("simulator panic: %v\n%s", e, debug.Stack())
		}
	}()

	c(r)

	return res
}

// SortedKeys returns the keys of m in order.
func SortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))

	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}
