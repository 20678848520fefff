package core

import (
	"sort"
	"time"
)

// Shrink minimises a choice list while keep still holds for it. keep also
// returns the choices that were made, if it knows. It tries at most budget
// candidates, and none after stop.
func Shrink(choices []uint64, budget int, stop time.Time, keep func([]uint64) ([]uint64, bool)) []uint64 {
	best := Compact(choices)

	try := func(c []uint64) bool {
		if budget <= 0 || time.Now().After(stop) {
			budget = 0

			return false
		}

		budget--

		rec, ok := keep(c)

		if ok {
			best = Compact(c)

			if rec = Compact(rec); len(rec) > 0 && len(rec) <= len(best) {
				best = rec
			}
		}

		return ok
	}

	// A small execution that fails in the same way is a better start.
	rnd := NewSrc(HashString("small"))

	for n := 0; n < budget/4 && n < 400 && len(best) > 300; n++ {
		c := make([]uint64, 300)

		for i := range c {
			if rnd.N([]int{2, 4, 10, 30}[n%4]) == 1 {
				c[i] = uint64(rnd.N(1 << 30))
			}
		}

		if rec, ok := keep(c); ok && rec != nil {
			best = Compact(rec)

			break
		}

		budget--
	}

	for changed := true; changed && budget > 0; {
		changed = shrinkGroups(&best, try)
		changed = shrinkSpans(&best, try) || changed
		changed = lower(&best, try) || changed
	}

	return best
}

// Compact leaves out what is implied: zeros and empty groups at the end of a group.
func Compact(l []uint64) []uint64 {
	var out []uint64

	for _, v := range l {
		if v == Close {
			for len(out) > 0 && out[len(out)-1] == 0 {
				out = out[:len(out)-1]
			}

			out = append(out, v)

			for len(out) > 3 && out[len(out)-2] == Close && out[len(out)-3] == Open {
				out = append(out[:len(out)-3], Close)

				for len(out) > 1 && out[len(out)-2] == 0 {
					out = append(out[:len(out)-2], Close)
				}
			}

			continue
		}

		out = append(out, v)
	}

	for len(out) > 0 {
		if n := len(out); out[n-1] == 0 {
			out = out[:n-1]
		} else if n > 1 && out[n-1] == Close && out[n-2] == Open {
			out = out[:n-2]
		} else {
			break
		}
	}

	return out
}

// groups returns the places of Open and Close of every group, long ones first.
func groups(l []uint64) [][2]int {
	var (
		out  [][2]int
		open []int
	)

	for i, v := range l {
		if v == Open {
			open = append(open, i)
		} else if v == Close && len(open) > 0 {
			out = append(out, [2]int{open[len(open)-1], i})
			open = open[:len(open)-1]
		}
	}

	sort.SliceStable(out, func(a, b int) bool { return out[a][1]-out[a][0] > out[b][1]-out[b][0] })

	return out
}

func without(l []uint64, from, to int) []uint64 {
	return append(append([]uint64(nil), l[:from]...), l[to:]...)
}

func shrinkGroups(best *[]uint64, try func([]uint64) bool) bool {
	any := false

	for k := 0; ; k++ {
		// after a success the places are new, but what was tried before is still in front
		gs := groups(*best)

		if k >= len(gs) {
			return any
		}

		g := gs[k]

		if g[1] > g[0]+1 && try(without(*best, g[0]+1, g[1])) || try(without(*best, g[0], g[1]+1)) {
			any = true
			k--
		}
	}
}

// shrinkSpans zeroes and deletes spans of choices between marks, long ones first.
func shrinkSpans(best *[]uint64, try func([]uint64) bool) bool {
	any := false

	for size := len(*best) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(*best); i += size {
			c := append([]uint64(nil), *best...)
			zero := true

			for j := i; j < i+size; j++ {
				if c[j] < Open {
					zero = zero && c[j] == 0
					c[j] = 0
				}
			}

			if !zero && try(c) {
				any = true
			}
		}

		for i := len(*best) - size; i >= 0; i -= size {
			if i+size > len(*best) {
				continue
			}

			marks := false

			for _, v := range (*best)[i : i+size] {
				marks = marks || v >= Open
			}

			if !marks && try(without(*best, i, i+size)) {
				any = true
			}
		}
	}

	return any
}

func lower(best *[]uint64, try func([]uint64) bool) bool {
	any := false

	for i := 0; i < len(*best); i++ {
		if (*best)[i] >= Open {
			continue
		}

		for lo, hi := uint64(0), (*best)[i]; lo < hi && i < len(*best); {
			mid := lo + (hi-lo)/2
			c := append([]uint64(nil), *best...)
			c[i] = mid

			if try(c) {
				hi = mid
				any = true
			} else {
				lo = mid + 1
			}
		}
	}

	return any
}
