package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"syscall"
	"time"

	"verif/sim/checks"
	"verif/sim/core"
	"verif/sim/hook"
)

// request is what a child process is asked to do (JSON on its standard input).
type request struct {
	Mode  string // batch, one, shrink, solo
	Check string
	Seed  uint64
	From  int
	To    int
	// Progress is a file that always holds the index of the current run.
	Progress string

	// One run: choices, or the run with index From if Choices is nil.
	Choices []uint64
	Indexed bool
	Keep    bool
	Dump    string // append choices to this file as they are made
	Before  *span  // runs to execute first, in the same process
	Kind    string // shrink: violation kind to keep
	Budget  int
}

type span struct {
	Seed     uint64
	From, To int
}

type violation struct {
	Index   int
	Kind    string
	Detail  string
	Choices []uint64
}

// reply is what a child process answers (JSON on its standard output).
type reply struct {
	Runs, Trivial, Events int
	Steps                 uint64
	MaxRate, MaxAlloc     float64
	Faults, Probes        map[string]int
	Hashes                []uint64 // of non-trivial runs
	Order                 uint64   // hash of all run hashes in order
	Points, Inter         []uint64
	Cov                   []byte
	Viol                  *violation
	Harness               string
	Trace                 []string
	Choices               []uint64
	Hash                  uint64
	Solo                  []string
	Samples               []sample
}

type sample struct {
	Run    int      `json:"run"`
	Events []string `json:"events"`
}

func runSeed(check string, seed uint64, i int) uint64 {
	return core.Mix(core.Mix(seed^core.HashString(check)) + uint64(i)*0x9e3779b97f4a7c15)
}

// maxStack scales the machine down, so that streams of a few hundred kB show
// what streams of a few hundred MB do to a real one.
const maxStack = 16 << 20

func child() {
	var q request

	in, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(in, &q)
	}

	if err != nil {
		fatal("child: %v", err)
	}

	info := checks.All[q.Check]

	if info == nil {
		fatal("child: unknown check %q", q.Check)
	}

	debug.SetMaxStack(maxStack)

	if !core.RaceBuild {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	}

	loadSites()

	core.SoloFn = solo

	var rep reply

	if b := q.Before; b != nil {
		for i := b.From; i < b.To; i++ {
			core.Exec(info.Fn, core.NewSrc(runSeed(q.Check, b.Seed, i)), false)
		}
	}

	switch q.Mode {
	case "batch":
		batch(&q, info, &rep)
	case "one", "solo":
		src := core.NewReplay(q.Choices)

		if q.Indexed {
			src = core.NewSrc(runSeed(q.Check, q.Seed, q.From))
		}

		if q.Dump != "" {
			f, err := os.Create(q.Dump)
			if err != nil {
				fatal("child: %v", err)
			}

			src.Tee = func(v uint64) {
				var b [8]byte

				binary.LittleEndian.PutUint64(b[:], v)
				_, _ = f.Write(b[:])
			}
		}

		res := core.Exec(func(r *core.Run) {
			r.Solo = q.Mode == "solo"
			info.Fn(r)
		}, src, q.Keep)
		rep.Hash, rep.Trace, rep.Choices, rep.Solo = res.Run.Hash(), res.Run.Trace, src.Rec, res.Run.SoloOut
		rep.Harness = res.HarnessER

		if v := res.Viol; v != nil {
			rep.Viol = &violation{q.From, v.Kind, v.Detail, src.Rec}
		}
	case "shrink":
		rep.Choices = core.Shrink(q.Choices, q.Budget, time.Now().Add(shrinkTime), func(c []uint64) ([]uint64, bool) {
			src := core.NewReplay(c)
			res := core.Exec(info.Fn, src, false)

			return src.Rec, res.Viol != nil && res.Viol.Kind == q.Kind
		})
	}

	if err := json.NewEncoder(os.Stdout).Encode(&rep); err != nil {
		fatal("child: %v", err)
	}
}

func batch(q *request, info *checks.Info, rep *reply) {
	var prog *os.File

	if q.Progress != "" {
		f, err := os.OpenFile(q.Progress, os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			fatal("child: %v", err)
		}

		prog = f
	}

	rep.Faults, rep.Probes = map[string]int{}, map[string]int{}
	points, inter := map[uint64]struct{}{}, map[uint64]struct{}{}

	for i := q.From; i < q.To; i++ {
		if prog != nil {
			var b [8]byte

			binary.LittleEndian.PutUint64(b[:], uint64(i))
			_, _ = prog.WriteAt(b[:], 0)
		}

		src := core.NewSrc(runSeed(q.Check, q.Seed, i))
		keep := q.Keep && len(rep.Samples) == 0
		res := core.Exec(info.Fn, src, keep)
		r := res.Run

		if res.HarnessER != "" {
			rep.Harness = fmt.Sprintf("run %d: %s", i, res.HarnessER)

			break
		}

		rep.Runs++
		rep.Events += r.Events
		rep.Steps += r.Steps()
		rep.Order = core.Mix(rep.Order ^ r.Hash())

		if r.MaxRate > rep.MaxRate {
			rep.MaxRate = r.MaxRate
		}

		if r.MaxAlloc > rep.MaxAlloc {
			rep.MaxAlloc = r.MaxAlloc
		}

		for k, v := range r.Faults {
			rep.Faults[k] += v
		}

		for k, v := range r.Probes {
			rep.Probes[k] += v
		}

		for p := range r.Points {
			points[p] = struct{}{}
		}

		if r.Inter != 0 {
			inter[r.Inter] = struct{}{}
		}

		if r.Trivial {
			rep.Trivial++
		} else {
			rep.Hashes = append(rep.Hashes, r.Hash())

			if keep {
				rep.Samples = append(rep.Samples, sample{i, clip(r.Trace)})
			}
		}

		if v := res.Viol; v != nil {
			rep.Viol = &violation{i, v.Kind, v.Detail, src.Rec}

			break
		}
	}

	for p := range points {
		rep.Points = append(rep.Points, p)
	}

	for p := range inter {
		rep.Inter = append(rep.Inter, p)
	}

	rep.Cov = hook.Cov[:len(sites)]
}

func clip(trace []string) []string {
	out := make([]string, 0, 40)

	for _, l := range trace {
		if len(out) == 40 {
			out = append(out, fmt.Sprintf("... %d more", len(trace)-40))

			break
		}

		if len(l) > 160 {
			l = l[:160] + "..."
		}

		out = append(out, l)
	}

	return out
}

// solo performs the beginning of a run in a fresh process.
func solo(r *core.Run, check string, choices []uint64) []string {
	j, err := json.Marshal(&request{Mode: "solo", Check: check, Choices: choices})
	if err != nil {
		r.Harness("%v", err)
	}

	exe, err := os.Executable()
	if err != nil {
		r.Harness("%v", err)
	}

	cmd := exec.Command(exe, "child")
	cmd.Stdin = bytesReader(j)
	out, err := cmd.Output()

	var rep reply

	if err == nil {
		err = json.Unmarshal(out, &rep)
	}

	if err != nil {
		r.Harness("fresh process: %v", err)
	}

	return rep.Solo
}
