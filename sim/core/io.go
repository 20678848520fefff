package core

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
)

// ErrSim values are what simulated readers and writers fail with. Each fault
// is a fresh value, so that only passing on this very failure satisfies
// errors.Is.
type SimErr struct{ msg string }

func (e *SimErr) Error() string { return e.msg }

// NewErr draws an error value: fresh ones, and well-known ones which code may be
// tempted to treat specially.
func (r *Run) NewErr(write bool) error {
	n := r.N(16)

	switch {
	case n == 3 && write:
		return fmt.Errorf("simulated device: %w", io.ErrShortWrite)
	case n == 3:
		return fmt.Errorf("simulated connection: %w", io.ErrUnexpectedEOF)
	case n == 4:
		return io.ErrClosedPipe
	case n == 5 && write:
		return io.EOF // a writer may fail with any error, even this one
	case n == 5:
		return io.ErrNoProgress
	case n == 6 && write:
		return syscall.ENOSPC
	case n == 6:
		return io.ErrUnexpectedEOF
	case n == 7:
		return syscall.EINTR
	case n == 8:
		return syscall.EAGAIN
	case n == 9:
		return os.ErrDeadlineExceeded
	case n == 10:
		return context.Canceled
	case n == 11:
		return &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
	case n == 12:
		return &temporary{}
	case n == 13:
		return fs.ErrClosed
	}

	return &SimErr{fmt.Sprintf("simulated i/o failure %d", n)}
}

// temporary says that trying again may help.
type temporary struct{ _ int }

func (*temporary) Error() string { return "simulated timeout" }

func (*temporary) Timeout() bool { return true }

func (*temporary) Temporary() bool { return true }

// Chunking styles.
const (
	chunkWhole = iota
	chunkFixed
	chunkRandom
	chunkEdge // chunks end at or next to CR, LF, the fold space, or inside a character
	chunkMix
	chunkOne
	numChunk
)

// Reader is the simulated reader.
type Reader struct {
	r    *Run
	data []byte
	pos  int

	style, k   int
	emptyOneIn int  // 0: never
	eofWith    bool // EOF together with the last bytes
	scribble   bool // use the rest of the caller's buffer as scratch space

	// Failure.
	ErrAt   int // -1: none
	Err     error
	errWith bool // the error accompanies bytes
	errOnce bool // the reader recovers after reporting it
	errDone bool

	// Live connection: after this many bytes nothing more arrives. -1: off.
	Live    int
	blocked *Violation

	// From this byte on only empty reads. -1: off.
	stall   int
	stalled int
	stuck   *Violation

	// From this byte on reads do not return.
	bombAt int
	bomb   *Bomb

	during func() // called in every Read

	maxEmpty int
	empties  int
	Reads    int
	Ended    bool
	hit      bool
}

// NewReader draws a delivery style for data.
func (r *Run) NewReader(data []byte) *Reader {
	rd := &Reader{r: r, data: data, ErrAt: -1, Live: -1, stall: -1, maxEmpty: 3}
	rd.style = r.N(numChunk)

	switch rd.style {
	case chunkFixed:
		rd.k = 1 + r.N([]int{4, 16, 130, 600, 5000}[r.N(5)])
	case chunkRandom, chunkMix:
		rd.k = 1 + r.N([]int{3, 8, 80, 600, 5000}[r.N(5)])
	}

	rd.eofWith = r.Chance(1, 3)
	rd.scribble = r.Chance(1, 4)

	if r.Chance(1, 4) {
		rd.emptyOneIn = 2 + r.N(12)

		if rd.emptyOneIn == 2 {
			rd.maxEmpty = 3 + r.N(8)
		}
	}

	r.Ev("reader", rd.style, rd.k, "")
	r.Fault([...]string{"deliver:whole", "deliver:fixed-chunks", "deliver:random-chunks", "deliver:edge-chunks", "deliver:mixed-chunks", "deliver:single-bytes"}[rd.style])

	return rd
}

// Wrap draws which extra interfaces the reader offers to its caller.
func (rd *Reader) Wrap() io.Reader {
	switch k := rd.r.N(16); k {
	case 8:
		rd.r.Fault("deliver:writer-to-interface")

		return &writerTo{rd}
	case 9:
		if !rd.plain() {
			break
		}

		f := &file{Reader: rd, base: rd.r.N(40)}
		rd.r.Ev("file", f.base, 0, "")
		rd.r.Fault("deliver:file-interface")

		return f
	case 10:
		rd.r.Fault("deliver:limited-reader")

		return &io.LimitedReader{R: rd, N: 1 << 40}
	case 11, 12, 13:
		if !rd.plain() {
			break
		}

		rd.r.Ev("standard reader", k, len(rd.data), "")
		rd.r.Fault("deliver:standard-reader")

		switch k {
		case 11:
			return bytes.NewReader(rd.data)
		case 12:
			return bytes.NewBuffer(append(make([]byte, 0, len(rd.data)+rd.r.N(100)), rd.data...))
		}

		return strings.NewReader(string(rd.data))
	case 14:
		rd.r.Fault("deliver:byte-reader-interface")

		return &byteReader{rd}
	case 15:
		n := 16 + rd.r.N(100)

		if rd.r.N(3) == 2 {
			n = 4096
		}

		rd.r.Ev("bufio", n, 0, "")
		rd.r.Fault("deliver:through-bufio")

		br := bufio.NewReaderSize(rd, n)

		if rd.plain() && rd.r.N(2) == 1 { // the caller has looked at the stream already
			rd.r.Fault("deliver:partly-buffered")
			br.Peek(1 + rd.r.N(n))
		}

		return br
	}

	return rd
}

// plain reports whether the reader just delivers its data.
func (rd *Reader) plain() bool {
	return rd.ErrAt < 0 && rd.Live < 0 && rd.stall < 0 && rd.bomb == nil && rd.during == nil && rd.Reads == 0
}

type writerTo struct{ *Reader }

// WriteTo makes it an io.WriterTo, which io.Copy prefers.
func (w *writerTo) WriteTo(to io.Writer) (int64, error) {
	var (
		buf  [512]byte
		done int64
	)

	for {
		n, err := w.Reader.Read(buf[:])

		if n > 0 {
			m, err := to.Write(buf[:n])
			done += int64(m)

			if err != nil {
				return done, err
			}
		}

		if err == io.EOF {
			return done, nil
		} else if err != nil {
			return done, err
		}
	}
}

// file is a file that is read from a place in its middle on.
type file struct {
	*Reader
	base, junk int
}

func (f *file) Read(p []byte) (int, error) {
	if f.junk > 0 && len(p) > 0 {
		f.junk--
		p[0] = 'X'

		return 1, nil
	}

	return f.Reader.Read(p)
}

// Seek is the real thing.
func (f *file) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(f.base + f.pos - f.junk)
	case io.SeekEnd:
		off += int64(f.base + len(f.data))
	}

	if off < 0 {
		return 0, fs.ErrInvalid
	}

	f.pos, f.junk = int(off)-f.base, 0

	if f.pos < 0 {
		f.pos, f.junk = 0, -f.pos
	}

	f.r.Ev("seek", f.pos, f.junk, "")

	return off, nil
}

// ReadAt reads what was not delivered yet as well.
func (f *file) ReadAt(p []byte, off int64) (int, error) {
	n := 0

	for ; n < len(p); n++ {
		switch i := int(off) + n - f.base; {
		case i < 0:
			p[n] = 'X'
		case i < len(f.data):
			p[n] = f.data[i]
		default:
			return n, io.EOF
		}
	}

	return n, nil
}

type byteReader struct{ *Reader }

// ReadByte makes it an io.ByteReader, as many real readers are.
func (b *byteReader) ReadByte() (byte, error) {
	var c [1]byte

	for i := 0; i < 200; i++ {
		if n, err := b.Reader.Read(c[:]); n == 1 {
			return c[0], nil
		} else if err != nil {
			return 0, err
		}
	}

	return 0, io.ErrNoProgress
}

// Hit reports whether the planned failure was delivered.
func (rd *Reader) Hit() bool { return rd.hit }

func (rd *Reader) size(max int) int {
	switch rd.style {
	case chunkOne:
		return 1
	case chunkFixed:
		return rd.k
	case chunkRandom:
		return 1 + rd.r.N(rd.k)
	case chunkEdge:
		return rd.edge()
	case chunkMix:
		switch rd.r.N(4) {
		case 1:
			return 1
		case 2:
			return rd.edge()
		case 3:
			return max
		}

		return 1 + rd.r.N(rd.k)
	}

	return max
}

// edge returns a chunk size that ends next to the next (or a later) interesting byte.
func (rd *Reader) edge() int {
	skip := rd.r.N(3)
	i := rd.pos

	for ; i < len(rd.data); i++ {
		if c := rd.data[i]; c == '\r' || c == '\n' || c >= 0x80 || (c == ' ' || c == '\t') && i > 0 && rd.data[i-1] == '\n' {
			if skip == 0 {
				break
			}

			skip--
		}
	}

	return i - rd.pos + rd.r.N(4)
}

func (rd *Reader) Read(p []byte) (int, error) {
	rd.Reads++

	if len(p) == 0 {
		return 0, nil
	}

	if rd.during != nil {
		rd.during()
	}

	if rd.bomb != nil && rd.pos >= rd.bombAt {
		rd.bomb.blow(rd.r, "read")
	}

	if rd.Live >= 0 && rd.pos >= rd.Live {
		rd.r.Ev("read-blocks", rd.pos, len(p), "")
		rd.r.leave(rd.blocked)
	}

	if rd.stall >= 0 && rd.pos >= rd.stall {
		if rd.stalled++; rd.stalled > maxStall {
			rd.r.leave(rd.stuck)
		}

		rd.hit = true
		rd.r.Ev("read", 0, 0, "stalled")

		return 0, nil
	}

	if rd.emptyOneIn > 0 && rd.empties < rd.maxEmpty && rd.r.N(rd.emptyOneIn) == 1 {
		rd.empties++
		rd.r.Fault("read:empty")
		rd.r.Ev("read", 0, 0, "empty")

		return 0, nil
	}

	rd.empties = 0
	end := len(rd.data)

	if rd.Live >= 0 {
		end = rd.Live
	}

	if rd.stall >= 0 {
		end = rd.stall
	}

	if rd.bomb != nil && rd.bombAt < end {
		end = rd.bombAt
	}

	fail := rd.ErrAt >= 0 && !rd.errDone

	if fail {
		end = rd.ErrAt
	}

	avail := end - rd.pos

	if avail <= 0 {
		if fail {
			rd.hit = true
			rd.errDone = rd.errOnce
			rd.r.Ev("read", 0, rd.pos, "fails: "+rd.Err.Error())
			rd.r.Point("read-error")

			return 0, rd.Err
		}

		rd.Ended = true
		rd.r.Ev("read", 0, rd.pos, "EOF")

		return 0, io.EOF
	}

	n := rd.size(len(p))

	if n < 1 {
		n = 1
	}

	if n > avail {
		n = avail
	}

	if n > len(p) {
		n = len(p)
	}

	copy(p, rd.data[rd.pos:rd.pos+n])
	rd.pos += n

	if rd.scribble {
		for i := n; i < len(p) && i < n+64; i++ {
			p[i] = "\r\n BEGIN:X"[i%10]
		}
	}

	if rd.pos == end {
		if fail && rd.errWith {
			rd.hit = true
			rd.errDone = rd.errOnce
			rd.r.Ev("read", n, rd.pos, "with failure: "+rd.Err.Error())
			rd.r.Point("read-error-with-bytes")

			return n, rd.Err
		}

		if !fail && end == len(rd.data) && rd.Live < 0 && rd.stall < 0 && rd.eofWith {
			rd.Ended = true
			rd.r.Ev("read", n, rd.pos, "with EOF")

			return n, io.EOF
		}
	}

	rd.r.Ev("read", n, rd.pos, "")
	rd.r.PointAt("split", rd.context())

	return n, nil
}

// context is the class of the two bytes before and after the current position.
func (rd *Reader) context() uint64 {
	x := uint64(0)

	for i := rd.pos - 2; i < rd.pos+2; i++ {
		k := 0

		if i >= 0 && i < len(rd.data) {
			switch c := rd.data[i]; {
			case c == '\r':
				k = 1
			case c == '\n':
				k = 2
			case c == ' ':
				k = 3
			case c == '\t':
				k = 4
			case c == ':' || c == ';' || c == ',' || c == '=':
				k = 5
			case c == '\\' || c == '^':
				k = 6
			case c == '"':
				k = 7
			case c >= 0xc0:
				k = 8
			case c >= 0x80:
				k = 9
			case c < 32:
				k = 10
			default:
				k = 11
			}
		}

		x = x<<4 | uint64(k)
	}

	return x
}

// FailAt plans a failure after the given number of bytes.
func (rd *Reader) FailAt(at int) {
	r := rd.r
	rd.ErrAt = at
	rd.Err = r.NewErr(false)
	rd.errWith = r.Chance(1, 2)
	rd.errOnce = r.Chance(1, 2)

	k := "read-error"

	if rd.errWith {
		k += ":with-bytes"
	}

	if rd.errOnce {
		k += ":transient"
	}

	r.Fault(k)
	r.Ev("plan-read-error", at, b2i(rd.errOnce), rd.Err.Error())
}

// StayOpen makes the reader a connection on which nothing arrives after n bytes.
func (rd *Reader) StayOpen(n int, v *Violation) {
	rd.Live, rd.blocked = n, v
}

// maxStall is how many empty reads in a row a caller may try.
const maxStall = 10000

// StallAt makes the reader return nothing but empty reads after n bytes. Asking
// for ever is the violation v.
func (rd *Reader) StallAt(n int, v *Violation) {
	rd.stall, rd.stuck = n, v
	rd.r.Fault("read:stall")
	rd.r.Ev("plan-stall", n, 0, "")
}

// During makes the reader call f in every Read.
func (rd *Reader) During(f func()) { rd.during = f }

// During makes the writer call f in every Write.
func (w *Writer) During(f func()) { w.hook = func([]byte) { f() } }

// Bomb is a Read or Write that does not return: it panics or ends its goroutine.
type Bomb struct {
	Value     any
	Exit, Hit bool
}

type odd struct{ a, b int }

// NewBomb draws a way not to return.
func (r *Run) NewBomb() *Bomb {
	switch r.N(9) {
	case 5:
		return &Bomb{Value: fault(func() { _ = []int{}[nowhere] })}
	case 6:
		return &Bomb{Value: fault(func() { _ = *(*int)(nil) })}
	case 7:
		return &Bomb{Value: io.ErrUnexpectedEOF}
	case 8:
		return &Bomb{Value: fmt.Errorf("simulated panic: %w", context.Canceled)}
	case 1:
		return &Bomb{Value: &SimErr{"simulated panic"}}
	case 2:
		return &Bomb{Value: odd{1, r.N(100)}}
	case 3:
		return &Bomb{Value: io.EOF}
	case 4:
		return &Bomb{Exit: true}
	}

	return &Bomb{Value: "simulated panic"}
}

var nowhere int

// fault returns what the runtime panics with in f.
func fault(f func()) (v any) {
	defer func() { v = recover() }()

	f()

	return nil
}

func (b *Bomb) String() string {
	if b.Exit {
		return "a reader or writer that ended its goroutine"
	}

	return fmt.Sprintf("a reader or writer that panicked with %v", b.Value)
}

func (b *Bomb) blow(r *Run, where string) {
	b.Hit = true

	if b.Exit {
		r.Fault(where + ":ends-goroutine")
		r.Ev(where, 0, 0, "ends its goroutine")
		r.Point(where + "-exit")
		runtime.Goexit()
	}

	r.Fault(where + ":panics")
	r.Ev(where, 0, 0, "panics")
	r.Point(where + "-panic")
	panic(b.Value)
}

// BlowAt makes reads after n bytes not return.
func (rd *Reader) BlowAt(n int, b *Bomb) { rd.bombAt, rd.bomb = n, b }

// BlowAt makes the first write past n bytes not return.
func (w *Writer) BlowAt(n int, b *Bomb) {
	w.hook = func(p []byte) {
		if !b.Hit && len(w.Got)+len(p) > n {
			b.blow(w.r, "write")
		}
	}
}

// ErrIs is errors.Is without panicking on odd errors.
func ErrIs(err, target error) bool { return err != nil && errors.Is(err, target) }

// Writer fault styles.
const (
	WNone      = iota
	WErrPart   // error after accepting part of the write
	WErrNone   // error, nothing of this write accepted
	WErrAll    // whole write accepted, but an error reported
	WShort     // part accepted, no error reported
	WShortNone // nothing accepted, no error reported
	numWFault
)

// Writer is the simulated writer or store.
type Writer struct {
	r       *Run
	Got     []byte // accepted bytes
	Calls   int
	Offered int

	Style   int
	At      int // the write that crosses this offset fails
	Err     error
	once    bool // later writes succeed again
	Tripped bool
	After   int // calls after the fault
	hook    func(p []byte)
}

// NewWriter returns a writer without faults.
func (r *Run) NewWriter() *Writer { return &Writer{r: r} }

var wNames = [...]string{"", "write-error:partial", "write-error:nothing-accepted", "write-error:all-accepted", "short-write:silent", "short-write:silent-none"}

// FailAt plans a failure of the write that contains byte offset at.
func (w *Writer) FailAt(style, at int) {
	r := w.r
	w.Style, w.At = style, at

	if style <= WErrAll {
		w.Err = r.NewErr(true)
	}

	w.once = r.Chance(1, 2)
	r.Fault(wNames[style])

	if w.once {
		r.Fault("write-fault:recovers")
	}

	r.Ev("plan-write-fault", style, at, "")
}

func (w *Writer) Write(p []byte) (int, error) {
	w.Calls++
	w.Offered += len(p)

	if w.hook != nil {
		w.hook(p)
	}

	if w.Tripped {
		w.After++

		if !w.once {
			w.r.Ev("write-after-fault", 0, len(p), "")

			if w.Err == nil {
				return 0, nil
			}

			return 0, w.Err
		}
	} else if w.Style != WNone && w.At < len(w.Got)+len(p) {
		w.Tripped = true
		n := w.At - len(w.Got)

		switch w.Style {
		case WErrNone, WShortNone:
			n = 0
		case WErrAll:
			n = len(p)
		}

		w.Got = append(w.Got, p[:n]...)
		w.r.Ev("write", n, len(p), wNames[w.Style])
		w.r.Point(wNames[w.Style])

		return n, w.Err
	}

	w.Got = append(w.Got, p...)
	w.r.Ev("write", len(p), len(p), "")

	return len(p), nil
}

// Wrap draws which extra interfaces the writer offers to its caller.
func (w *Writer) Wrap() io.Writer {
	switch w.r.N(6) {
	case 4:
		w.r.Fault("writer:reader-from-interface")

		return readerFrom{w}
	case 2:
		w.r.Fault("writer:string-writer-interface")

		return stringWriter{w}
	case 3:
		w.r.Fault("writer:byte-writer-interface")

		return byteWriter{stringWriter{w}}
	}

	return w
}

type readerFrom struct{ *Writer }

// ReadFrom makes it an io.ReaderFrom, which io.Copy prefers.
func (w readerFrom) ReadFrom(r io.Reader) (int64, error) {
	var (
		buf  [512]byte
		done int64
	)

	for {
		n, err := r.Read(buf[:])

		if n > 0 {
			m, err := w.Write(buf[:n])
			done += int64(m)

			if err == nil && m < n {
				err = io.ErrShortWrite
			}

			if err != nil {
				return done, err
			}
		}

		if err == io.EOF {
			return done, nil
		} else if err != nil {
			return done, err
		}
	}
}

type stringWriter struct{ *Writer }

func (s stringWriter) WriteString(p string) (int, error) { return s.Write([]byte(p)) }

type byteWriter struct{ stringWriter }

func (s byteWriter) WriteByte(c byte) error {
	n, err := s.Write([]byte{c})

	if err == nil && n != 1 {
		err = io.ErrShortWrite
	}

	return err
}
