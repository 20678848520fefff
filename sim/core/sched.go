package core

import (
	"fmt"
	"sync"

	"verif/sim/hook"
)

// The scheduler runs tasks in real goroutines, exactly one at a time. Control
// moves at yield points only, as the schedule says. The hand-over is hidden from the
// race detector, so that accesses of different tasks count as concurrent unless the code under
// test orders them itself.

// Switch is one scheduling decision: the running task is stopped after Quantum statements, and
// control moves to the Next-th other task that is still running.
type Switch struct{ Next, Quantum int }

// Sched is a schedule in execution.
type Sched struct {
	plan     []Switch
	pos      int
	tasks    []*task
	cur      int
	hard     uint64
	blocks   int
	blockAt  uint64
	Switches int
	Hash     uint64
	Log      []string
	keep     bool
	siteName func(uint32) string
}

type task struct {
	wake chan struct{}
	done bool
	out  *Outcome
}

// SiteName names yield points in traces.
var SiteName func(uint32) string

// RunTasks executes the functions under the schedule and returns an outcome
// for each. budget bounds the statements executed in total.
func RunTasks(plan []Switch, budget uint64, keep bool, fns []func(o *Outcome)) (*Sched, []*Outcome) {
	s := &Sched{plan: plan, hard: hook.Steps + budget, keep: keep, siteName: SiteName}

	var wg sync.WaitGroup

	outs := make([]*Outcome, len(fns))

	for i := range fns {
		t := &task{wake: make(chan struct{}, 1), out: new(Outcome)}
		s.tasks = append(s.tasks, t)
		outs[i] = t.out
	}

	start := hook.Steps

	for i := range fns {
		wg.Add(1)

		go func(i int) {
			s.wait(s.tasks[i])
			s.body(s.tasks[i], fns[i])
			wg.Done()
			s.finish(i)
		}(i)
	}

	hook.BlockFn = s.block
	hook.Slow = s.slow
	s.arm()
	s.resume(s.tasks[0])
	wg.Wait()

	hook.Limit, hook.Slow, hook.BlockFn = 1<<62, nil, nil

	outs[0].Steps = hook.Steps - start

	return s, outs
}

func (s *Sched) body(t *task, f func(o *Outcome)) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case overBudget:
			t.out.Over = true
		default:
			t.out.Panic = fmt.Sprint(e)
		}
	}()

	f(t.out)
}

//go:norace
func (s *Sched) wait(t *task) {
	raceOff()
	<-t.wake
	raceOn()
}

//go:norace
func (s *Sched) resume(t *task) {
	raceOff()
	t.wake <- struct{}{}
	raceOn()
}

//go:norace
func (s *Sched) arm() {
	if s.pos < len(s.plan) {
		hook.Limit = hook.Steps + uint64(s.plan[s.pos].Quantum)
	} else {
		hook.Limit = s.hard
	}
}

// pick returns the k-th other task still running, or -1.
//
//go:norace
func (s *Sched) pick(k int) int {
	n := 0

	for i := range s.tasks {
		if i != s.cur && !s.tasks[i].done {
			n++
		}
	}

	if n == 0 {
		return -1
	}

	k %= n

	for d := 1; ; d++ {
		if i := (s.cur + d) % len(s.tasks); i != s.cur && !s.tasks[i].done {
			if k == 0 {
				return i
			}

			k--
		}
	}
}

//go:norace
func (s *Sched) slow(site uint32) {
	if hook.Steps >= s.hard {
		panic(overBudget{})
	}

	k := 0

	if s.pos < len(s.plan) {
		k = s.plan[s.pos].Next
		s.pos++
	}

	s.arm()

	next := s.pick(k)

	if next < 0 {
		return
	}

	s.Switches++
	s.Hash = Mix(s.Hash ^ uint64(s.cur)<<40 ^ uint64(next)<<32 ^ uint64(site))

	if s.keep && len(s.Log) < 500 && s.siteName != nil {
		raceOff() // formatting synchronises; keep that out of the picture
		s.Log = append(s.Log, fmt.Sprintf("switch: task %d stopped before %s, task %d continues", s.cur, s.siteName(site), next))
		raceOn()
	}

	s.swap(next)
}

//go:norace
func (s *Sched) swap(next int) {
	me := s.tasks[s.cur]
	s.cur = next
	s.resume(s.tasks[next])
	s.wait(me)
}

// block is called when the running task waits for a lock.
//
//go:norace
func (s *Sched) block() {
	if hook.Steps != s.blockAt {
		s.blockAt, s.blocks = hook.Steps, 0
	}

	s.blocks++

	next := s.pick(0)

	if next < 0 || s.blocks > 4*len(s.tasks) {
		panic("deadlock: every task waits for a lock")
	}

	s.swap(next)
}

//go:norace
func (s *Sched) finish(i int) {
	s.tasks[i].done = true

	if next := s.pick(0); next >= 0 {
		s.cur = next
		s.resume(s.tasks[next])
	}
}
