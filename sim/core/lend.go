package core

import (
	"io"
	"sync/atomic"
)

// Loan watches what is done with a reader or writer that was lent to a call.
type Loan struct {
	busy, over int32
	misuse     atomic.Value // string
}

func (l *Loan) use(what string) {
	if atomic.LoadInt32(&l.over) != 0 {
		l.wrong(what + " after the call had returned")
	}

	if atomic.AddInt32(&l.busy, 1) != 1 {
		l.wrong(what + " during another use")
	}
}

func (l *Loan) done() { atomic.AddInt32(&l.busy, -1) }

func (l *Loan) wrong(what string) { l.misuse.CompareAndSwap(nil, what) }

// End says that the call has returned.
func (l *Loan) End() { atomic.StoreInt32(&l.over, 1) }

// Misuse is the first thing that must not have been done, or empty.
func (l *Loan) Misuse() string {
	s, _ := l.misuse.Load().(string)

	return s
}

// LentReader can do what files and connections can do.
type LentReader struct {
	Loan
	R io.Reader
}

func (l *LentReader) Read(p []byte) (int, error) {
	l.use("Read")
	defer l.done()

	return l.R.Read(p)
}

// Close must not be called.
func (l *LentReader) Close() error {
	l.wrong("Close")

	return nil
}

// CloseWithError is what pipes have.
func (l *LentReader) CloseWithError(error) error { return l.Close() }

// CloseRead is what connections have.
func (l *LentReader) CloseRead() error { return l.Close() }

// Seek may only be used to ask for the position.
func (l *LentReader) Seek(off int64, whence int) (int64, error) {
	if off != 0 || whence != io.SeekCurrent {
		l.wrong("Seek")
	}

	return 0, nil
}

// LentWriter can do what files and connections can do.
type LentWriter struct {
	Loan
	W io.Writer
}

func (l *LentWriter) Write(p []byte) (int, error) {
	l.use("Write")
	defer l.done()

	return l.W.Write(p)
}

// WriteString is Write.
func (l *LentWriter) WriteString(s string) (int, error) { return l.Write([]byte(s)) }

// Close must not be called.
func (l *LentWriter) Close() error {
	l.wrong("Close")

	return nil
}

// CloseWithError is what pipes have.
func (l *LentWriter) CloseWithError(error) error { return l.Close() }

// CloseWrite is what connections have.
func (l *LentWriter) CloseWrite() error { return l.Close() }

// Seek may only be used to ask for the position.
func (l *LentWriter) Seek(off int64, whence int) (int64, error) {
	if off != 0 || whence != io.SeekCurrent {
		l.wrong("Seek")
	}

	return 0, nil
}

// Truncate must not be called.
func (l *LentWriter) Truncate(int64) error {
	l.wrong("Truncate")

	return nil
}

// LentBuffer can do what buffers can do.
type LentBuffer struct{ LentWriter }

// Truncate must not be called.
func (l *LentBuffer) Truncate(int) { l.wrong("Truncate") }

// Reset must not be called.
func (l *LentBuffer) Reset() { l.wrong("Reset") }
