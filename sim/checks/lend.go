package checks

import (
	"fmt"
	"io"
	"runtime"

	"verif/sim/core"
	"verif/sim/gen"
)

// c22: readers that stop delivering.
func c22(r *core.Run) {
	host(r)

	b := newSubject(r, gen.New(r)).stream(r)

	if base := whole(r, b); base.Crashed() || base.Err != nil {
		r.Trivial = true

		r.Probe("stream rejected")

		return
	}

	for n := 1 + r.N(4); n > 0; n-- {
		at := offset(r, b, closing(b))
		whole := r.N(6) == 5

		if whole {
			at = closing(b) + r.N(3)
		}

		rd := r.NewReader(b)
		rd.StallAt(at, &core.Violation{Kind: "trapped", Detail: fmt.Sprintf("Decode still asks a reader that delivers nothing any more after byte %d of %d", at, len(b))})

		o := r.Decode(rd.Wrap(), len(b))

		if o.Crashed() {
			r.Fail("trapped", "Decode with a reader that delivers nothing any more after byte %d of %d: %s", at, len(b), o)
		}

		if !whole && (o.Err == nil || o.Cal != nil) {
			r.Fail("stall-accepted", "Decode returned a calendar although its reader stalled at byte %d of %d", at, len(b))
		}
	}
}

// c23: what is lent comes back untouched.
func c23(r *core.Run) {
	host(r)

	g := gen.New(r)
	s := newSubject(r, g)

	var loans []*core.Loan

	back := func(l *core.Loan) {
		l.End()

		loans = append(loans, l)

		for i := 0; i < 20; i++ {
			runtime.Gosched() // nothing runs, unless the code under test has goroutines of its own
		}

		for _, l := range loans {
			if m := l.Misuse(); m != "" {
				r.Fail("misuse", "a reader or writer lent to Decode or Encode saw %s", m)
			}
		}
	}

	for n := 2 + r.N(5); n > 0; n-- {
		if r.N(2) == 0 {
			b := s.stream(r)

			if r.N(3) == 2 {
				b = damage(r, b, b)
			}

			rd := r.NewReader(b)

			if r.Chance(1, 3) && len(b) > 0 {
				rd.FailAt(r.N(len(b)))
			}

			l := &core.LentReader{R: rd}

			if o := r.Decode(l, len(b)); o.Crashed() {
				r.Probe("crashed")
			}

			back(&l.Loan)

			continue
		}

		w := r.NewWriter()
		cal, size := s.cal, s.size

		if r.Chance(1, 4) {
			bad := newSubject(r, g)
			plant(r, g, bad.cal)
			cal, size = bad.cal, bad.size+footprint(bad.cal)
		}

		if r.Chance(1, 3) {
			w.FailAt(1+r.N(5), r.N(size))
		}

		l := &core.LentBuffer{LentWriter: core.LentWriter{W: w}}

		var out io.Writer = l

		if r.N(2) == 1 {
			out = &l.LentWriter
		}

		if o := r.Encode(out, cal, size); o.Crashed() {
			r.Probe("crashed")
		}

		back(&l.Loan)
	}
}
