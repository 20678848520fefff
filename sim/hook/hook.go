// Package hook is what the instrumented copy of the package under test calls.
// It counts executed statements (simulated time), hands control to the
// simulated scheduler, and answers time-zone lookups.
package hook

import (
	"errors"
	"time"
)

// MaxSites bounds the number of yield points.
const MaxSites = 1 << 16

var (
	// Steps is the simulated clock: the number of statements executed.
	Steps uint64
	// Limit is the step at which Slow is called next.
	Limit uint64 = 1 << 62
	// Last is the yield point reached last.
	Last uint32
	// Slow is called when Steps reaches Limit.
	Slow func(site uint32)
	// BlockFn is called when a simulated lock is not available.
	BlockFn func()
	// Cov records which yield points have been reached.
	Cov [MaxSites]uint8
	// ZoneFn answers time-zone lookups.
	ZoneFn func(name string) (*time.Location, error)
)

// Y is called before every statement of the package under test.
//
//go:norace
func Y(site uint32) {
	Cov[site&(MaxSites-1)] = 1
	Steps++
	Last = site

	if Steps >= Limit {
		if f := Slow; f != nil {
			f(site)
		}
	}
}

// Block is called by the simulated locks while they cannot be taken.
//
//go:norace
func Block() {
	if f := BlockFn; f != nil {
		f()

		return
	}

	panic(errDeadlock)
}

var errDeadlock = errors.New("simulated deadlock: the only running task waits for a lock")

// LoadLocation stands for time.LoadLocation.
//
//go:norace
func LoadLocation(name string) (*time.Location, error) {
	if f := ZoneFn; f != nil {
		return f(name)
	}

	return time.LoadLocation(name)
}
