// Package core is the simulator: the choice source, the simulated reader and
// writer, the run context with its event log, and minimisation.
package core

// Src is the source of every choice of a run. Recording mode draws from a
// seeded generator; replay mode reads a list of choices (and 0 after its end).
// Choice 0 is always the simplest one.
type Src struct {
	state  uint64
	replay []uint64
	isRep  bool
	pos    int
	// missing is how many of the open groups are not in the replayed list.
	missing int
	Rec     []uint64
	// Tee is told every choice as it is made.
	Tee func(v uint64)
}

// NewSrc returns a recording source.
func NewSrc(seed uint64) *Src { return &Src{state: seed} }

// NewReplay returns a source that replays choices.
func NewReplay(choices []uint64) *Src { return &Src{replay: choices, isRep: true} }

// Mix is a splitmix64 step, used to derive seeds.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb

	return x ^ x>>31
}

// N returns a choice in [0, n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}

	var v uint64

	if s.isRep {
		// groups nobody asks for any more
		for s.missing == 0 && s.pos < len(s.replay) && s.replay[s.pos] == Open {
			s.pos++
			s.skip()
		}

		if s.missing == 0 && s.pos < len(s.replay) && s.replay[s.pos] != Close {
			v = s.replay[s.pos] % uint64(n)
			s.pos++
		}
	} else {
		s.state += 0x9e3779b97f4a7c15
		x := s.state
		x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
		x = (x ^ x>>27) * 0x94d049bb133111eb
		v = (x ^ x>>31) % uint64(n)
	}

	s.record(v)

	return int(v)
}

func (s *Src) record(v uint64) {
	s.Rec = append(s.Rec, v)

	if s.Tee != nil {
		s.Tee(v)
	}
}

// Open and Close mark groups in a list of choices. What is drawn inside a group
// does not depend on the choices outside of it, nor the other way round, so
// minimisation can empty or remove a group.
const (
	Open uint64 = 1<<40 + iota
	Close
)

// Group draws f's choices as a group.
func (s *Src) Group(f func()) {
	s.record(Open)

	if s.isRep {
		// a choice that is not asked for any more does not hide a group
		for s.missing == 0 && s.pos < len(s.replay) && s.replay[s.pos] < Open {
			s.pos++
		}

		if s.missing == 0 && s.pos < len(s.replay) && s.replay[s.pos] == Open {
			s.pos++
		} else {
			s.missing++
		}
	}

	f()

	if s.isRep {
		if s.missing > 0 {
			s.missing--
		} else {
			s.skip()
		}
	}

	s.record(Close)
}

// skip goes behind the end of the current group.
func (s *Src) skip() {
	for depth := 1; s.pos < len(s.replay) && depth > 0; s.pos++ {
		switch s.replay[s.pos] {
		case Open:
			depth++
		case Close:
			depth--
		}
	}
}

// Plain counts the choices in a list with groups.
func Plain(l []uint64) int {
	n := 0

	for _, v := range l {
		if v < Open {
			n++
		}
	}

	return n
}

// Chance is true with probability num/den; the simple choice is false.
func (s *Src) Chance(num, den int) bool { return s.N(den) >= den-num }

// Range returns a choice in [lo, hi].
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Perm returns a permutation of n; the simple choice is the identity.
func (s *Src) Perm(n int) []int {
	p := make([]int, n)

	for i := range p {
		p[i] = i
	}

	for i := 0; i < n-1; i++ {
		j := i + s.N(n-i)
		p[i], p[j] = p[j], p[i]
	}

	return p
}
