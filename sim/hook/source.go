package hook

import (
	"fmt"
	"iter"
	"sort"
	"time"
)

var (
	// DrawFn makes a choice in [0, n) for what the environment leaves open: the
	// order of maps and the progress of the clock.
	DrawFn func(n int) int
	clock  time.Time
	order  uint64 // of maps in the current call
	drawn  bool
)

// NewRun sets the clock.
//
//go:norace
func NewRun() {
	clock = time.Date(2020, 2, 29, 23, 59, 58, 0, time.UTC)
	drawn = false
}

// MapOrder is the order of maps in a call.
type MapOrder struct {
	order uint64
	drawn bool
}

// NewCall lets maps change their order and returns the previous one.
//
//go:norace
func NewCall() MapOrder {
	o := MapOrder{order, drawn}
	drawn = false

	return o
}

// OldCall returns to a call that was interrupted.
//
//go:norace
func OldCall(o MapOrder) { order, drawn = o.order, o.drawn }

// Now stands for time.Now.
//
//go:norace
func Now() time.Time {
	if f := DrawFn; f != nil {
		clock = clock.Add([]time.Duration{0, time.Nanosecond, time.Second, time.Hour, 400 * 24 * time.Hour, -time.Minute}[f(6)])
	}

	return clock.Local()
}

// Since stands for time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until stands for time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// next is the next number of the order drawn for the current call.
//
//go:norace
func next() uint64 {
	if !drawn {
		drawn, order = true, 0

		if f := DrawFn; f != nil {
			order = uint64(f(1 << 32))
		}
	}

	if order == 0 {
		return 0
	}

	order += 0x9e3779b97f4a7c15
	x := (order ^ order>>30) * 0xbf58476d1ce4e5b9

	return x ^ x>>31 | 1
}

// Pair is an entry of a map, or what has become of it.
type Pair[M ~map[K]V, K comparable, V any] struct {
	m M
	K K
}

// Has reports whether the entry still exists.
func (p Pair[M, K, V]) Has() bool {
	_, ok := p.m[p.K]

	return ok
}

// V is the entry's value.
func (p Pair[M, K, V]) V() V { return p.m[p.K] }

// Pairs stands for ranging over a map. Its order is sorted, or drawn.
func Pairs[M ~map[K]V, K comparable, V any](m M) []Pair[M, K, V] {
	ps := make([]Pair[M, K, V], 0, len(m))
	ks := make([]string, 0, len(m))

	for k := range m {
		ps = append(ps, Pair[M, K, V]{m, k})
		ks = append(ks, fmt.Sprint(k))
	}

	sort.Sort(&both[Pair[M, K, V]]{ks, ps})

	if len(ps) < 2 {
		return ps
	}

	for i := len(ps) - 1; i > 0; i-- {
		if n := next(); n > 0 {
			j := int(n>>1) % (i + 1)
			ps[i], ps[j] = ps[j], ps[i]
		}
	}

	return ps
}

type both[P any] struct {
	ks []string
	ps []P
}

func (b *both[P]) Len() int           { return len(b.ks) }
func (b *both[P]) Less(i, j int) bool { return b.ks[i] < b.ks[j] }
func (b *both[P]) Swap(i, j int) {
	b.ks[i], b.ks[j] = b.ks[j], b.ks[i]
	b.ps[i], b.ps[j] = b.ps[j], b.ps[i]
}

// All stands for maps.All.
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, p := range Pairs(m) {
			if p.Has() && !yield(p.K, p.V()) {
				return
			}
		}
	}
}

// Keys stands for maps.Keys.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range All(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// Values stands for maps.Values.
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range All(m) {
			if !yield(v) {
				return
			}
		}
	}
}
