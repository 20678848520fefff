package checks

import (
	"fmt"

	"verif/sim/core"
	"verif/sim/gen"
	"verif/sim/model"
)

// c01: delivery independence.
func c01(r *core.Run) {
	host(r)

	g := gen.New(r)
	b := newSubject(r, g).stream(r)

	switch r.N(5) {
	case 1, 2:
		b = damage(r, b, newSubject(r, g).stream(r))
	case 3: // more data follows the calendar
		b = append(b, []string{"BEGIN:VCALENDAR\r\nVERSION:", "\r\n", " ", "\x00garbage", "\r\n \r\n", "\r"}[r.N(6)]...)
	case 4: // something precedes it
		r.Fault("corrupt:preamble")

		b = append([]byte(preambles[r.N(len(preambles))]), b...)
	}

	base := whole(r, b)
	want := verdict(base)

	switch {
	case base.Err != nil:
		r.Probe("stream rejected")
	case !base.Crashed():
		r.Probe("stream accepted")
	}

	for n := 1 + r.N(4); n > 0; n-- {
		rd := r.NewReader(b)
		o := r.Decode(rd.Wrap(), len(b))
		sameVerdict(r, "delivery", "the outcome of Decode depends on the delivery of the stream", want, verdict(o), errText(o))
	}
}

// c02: fold transparency.
func c02(r *core.Run) {
	host(r)

	g := gen.New(r)
	s := newSubject(r, g)
	st := model.DrawStyle(r)
	lines := model.Lines(r, st, s.tree)

	if r.Chance(1, 4) { // damage that leaves the lines alone
		for n := 1 + r.N(3); n > 0; n-- {
			i := r.N(len(lines))
			l := []byte(lines[i])
			at := r.N(len(l))

			switch c := []byte{'\\', ';', ':', 0x7f, 0xff, 0xc3, 0xe2, '"', '^', 'Z', '-'}[r.N(11)]; r.N(2) {
			case 0:
				l[at] = c
			case 1:
				l = append(l[:at:at], append([]byte{c}, l[at:]...)...)
			}

			lines[i] = string(l)

			r.Fault("corrupt:in-line")
		}
	}

	st.Fold = 0
	flat := model.Stream(r, st, lines)
	base := whole(r, flat)
	want := verdict(base)

	if base.Err == nil && !base.Crashed() {
		r.Probe("stream accepted")
	}

	for n := 1 + r.N(3); n > 0; n-- {
		var b []byte

		oneIn := []int{20, 1, 4, 75, 300}[r.N(5)]
		some := r.Chance(1, 2)

		for _, l := range lines {
			if some && r.N(4) > 0 {
				b = append(b, l...)
			} else {
				b = model.FoldAt(r, b, l, oneIn)
			}

			b = append(b, "\r\n"...)
		}

		r.Faults["folds"] += (len(b) - len(flat)) / 3

		if r.Keep {
			r.Note("folded stream: %s", show(b))
		}

		rd := r.NewReader(b)
		o := r.Decode(rd.Wrap(), len(b))
		sameVerdict(r, "folding", "folding changes the outcome of Decode", want, verdict(o), errText(o))
	}
}

// c03: truncation.
func c03(r *core.Run) {
	host(r)

	b := newSubject(r, gen.New(r)).stream(r)
	end := closing(b)

	for n := 1 + r.N(6); n > 0; n-- {
		cut := offset(r, b, end)
		r.Fault("truncated")
		r.Ev("cut", cut, len(b), "")

		if r.Keep {
			r.Note("stream ends after %s", show(tail(b[:cut])))
		}

		rd := r.NewReader(b[:cut])
		o := r.Decode(rd.Wrap(), cut)

		switch {
		case o.Crashed():
			r.Fail("truncated-crash", "Decode of a stream cut after %d of %d bytes: %s", cut, len(b), o)
		case o.Err == nil:
			r.Fail("truncated-accepted", "Decode accepted a stream cut after %d of %d bytes", cut, len(b))
		case o.Cal != nil:
			r.Fail("truncated-partial", "Decode returned a calendar together with error %q for a stream cut after %d of %d bytes", o.Err, cut, len(b))
		}
	}
}

func tail(b []byte) []byte {
	if len(b) > 60 {
		b = b[len(b)-60:]
	}

	return b
}

// c04: reader failures.
func c04(r *core.Run) {
	host(r)

	b := newSubject(r, gen.New(r)).stream(r)
	end := closing(b)

	if base := whole(r, b); base.Crashed() || base.Err != nil {
		r.Trivial = true // not a stream Decode accepts: nothing to compare with

		r.Probe("stream rejected")

		return
	}

	for n := 1 + r.N(4); n > 0; n-- {
		rd := r.NewReader(b)
		rd.FailAt(offset(r, b, end))

		o := r.Decode(rd.Wrap(), len(b))

		switch {
		case o.Crashed():
			r.Fail("reader-error-crash", "Decode with a reader failing at byte %d of %d: %s", rd.ErrAt, len(b), o)
		case o.Err == nil:
			r.Fail("reader-error-ignored", "Decode succeeded although the reader failed with %q at byte %d of %d", rd.Err, rd.ErrAt, len(b))
		case !is(o.Err, rd.Err):
			r.Fail("reader-error-masked", "the reader failed with %q at byte %d of %d, Decode reports %q", rd.Err, rd.ErrAt, len(b), o.Err)
		case o.Cal != nil:
			r.Fail("reader-error-partial", "Decode returned a calendar although the reader failed at byte %d of %d", rd.ErrAt, len(b))
		}
	}
}

// c05: termination.
func c05(r *core.Run) {
	host(r)

	if r.N(3) == 2 {
		c05encode(r)

		return
	}

	if r.N(24) == 23 {
		c05decode(r, bomb(r))

		return
	}

	g := gen.New(r)
	b := newSubject(r, g).stream(r)
	other := b

	if r.N(4) == 3 {
		other = newSubject(r, g).stream(r)
	}

	for n := r.N(12); n >= 0; n-- {
		if n == 0 && r.N(4) == 3 {
			c05decode(r, b)
		} else {
			c05decode(r, damage(r, b, other))
		}
	}
}

func c05decode(r *core.Run, b []byte) {
	rd := r.NewReader(b)

	if r.Chance(1, 4) && len(b) > 0 {
		rd.FailAt(r.N(len(b)))
	}

	o := r.Decode(rd.Wrap(), len(b))

	if o.Crashed() {
		r.Fail("decode-crash", "Decode of a %d byte stream: %s", len(b), o)
	}

	if o.Err == nil {
		r.Probe("decoded")

		if o.Cal == nil {
			r.Fail("decode-nothing", "Decode returned neither a calendar nor an error")
		}
	} else {
		r.Probe("rejected")
	}
}

func c05encode(r *core.Run) {
	g := gen.New(r)
	s := newSubject(r, g)

	if r.N(3) > 0 {
		distort(r, s.cal, 1+r.N(6))
	}

	size := footprint(s.cal) + s.size
	w := r.NewWriter()

	if r.Chance(1, 3) {
		w.FailAt(1+r.N(5), r.N(s.size))
	}

	o := r.Encode(w.Wrap(), s.cal, size)

	if o.Crashed() {
		r.Fail("encode-crash", "Encode of a calendar of about %d bytes: %s", size, o)
	}

	if o.Err == nil {
		r.Probe("encoded")
	} else {
		r.Probe("refused or failed")
	}
}

// c15: live connections.
func c15(r *core.Run) {
	host(r)

	b := newSubject(r, gen.New(r)).stream(r)

	if base := whole(r, b); base.Crashed() || base.Err != nil {
		r.Trivial = true

		r.Probe("stream rejected")

		return
	}

	for n := 1 + r.N(3); n > 0; n-- {
		// One byte that cannot continue the closing line arrives after it;
		// sometimes more.
		next := []byte{'B', 'X', '\r', '\n', 0, '1', 0xe2}[r.N(7)]
		live := append(append([]byte(nil), b...), next)

		if r.Chance(1, 3) {
			live = append(live, "EGIN:VCALENDAR\r\n"[:r.N(16)]...)
		}

		rd := r.NewReader(live)
		rd.StayOpen(len(live), &core.Violation{Kind: "waits", Detail: fmt.Sprintf("Decode asked for more input although the complete calendar (%d bytes) and %d further bytes had been delivered", len(b), len(live)-len(b))})
		r.Fault("connection-stays-open")

		o := r.Decode(rd.Wrap(), len(live))

		if o.Crashed() || o.Err != nil {
			r.Fail("live-rejected", "Decode of a complete calendar on a connection that stays open: %s", o)
		}
	}
}
