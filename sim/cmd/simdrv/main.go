// Command simdrv runs the simulations of one property.
//
//	simdrv drive -check ID -tier T -seed N -dir /verif [-race BINARY] [-replay FILE]
//	simdrv child     (a process that executes runs; JSON in, JSON out)
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/sim/checks"
	"verif/sim/core"
)

type siteInfo struct {
	File string `json:"file"`
	Line int    `json:"line"`
}

var (
	sites  []siteInfo
	coarse bool
)

func bytesReader(b []byte) io.Reader { return bytes.NewReader(b) }

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simdrv: "+format+"\n", a...)
	os.Exit(2)
}

func loadSites() {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}

	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.json"))
	if err != nil {
		fatal("%v", err)
	}

	var s struct {
		Coarse bool
		Sites  []siteInfo
	}

	if err := json.Unmarshal(b, &s); err != nil {
		fatal("%v", err)
	}

	sites, coarse = s.Sites, s.Coarse
	core.SiteName = func(n uint32) string {
		if int(n) < len(sites) {
			return fmt.Sprintf("%s:%d", sites[n].File, sites[n].Line)
		}

		return "?"
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("no mode")
	}

	switch os.Args[1] {
	case "child":
		child()
	case "drive":
		drive()
	default:
		fatal("unknown mode %q", os.Args[1])
	}
}

// replayFile is everything needed to repeat an execution.
type replayFile struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Kind     string   `json:"kind"`
	Detail   string   `json:"detail"`
	Race     bool     `json:"race_build"`
	History  *span    `json:"history,omitempty"`
	Choices  []uint64 `json:"choices"`
	Original int      `json:"choices_before_minimisation"`
	Trace    []string `json:"trace"`
	// Unrepeatable says that repetitions did not show the violation.
	Unrepeatable bool `json:"unrepeatable,omitempty"`
}

type driver struct {
	check, tier, dir string
	seed             uint64
	info             *checks.Info
	bins             [2]string // plain, race
	scratch          string
	start            time.Time
}

const (
	batchTimeout = 240 * time.Second
	oneTimeout   = 60 * time.Second
	shrinkTime   = 40 * time.Second
)

var errDied = errors.New("process died")

// ask runs a child process.
func (d *driver) ask(race bool, q *request, limit time.Duration) (*reply, string, error) {
	q.Check = d.check

	j, err := json.Marshal(q)
	if err != nil {
		return nil, "", err
	}

	bin := d.bins[0]

	if race {
		bin = d.bins[1]
	}

	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()

	log, err := os.MkdirTemp(d.scratch, "p")
	if err != nil {
		return nil, "", err
	}

	defer os.RemoveAll(log)

	var out, errs bytes.Buffer

	cmd := exec.CommandContext(ctx, bin, "child")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(j), &out, &errs
	cmd.WaitDelay = 5 * time.Second
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(log, "race"))
	err = cmd.Run()
	msg := headOf(errs.String())

	if ctx.Err() != nil {
		return nil, msg, ctx.Err()
	}

	if err != nil {
		var ee *exec.ExitError

		if errors.As(err, &ee) && strings.Contains(msg, "simdrv: ") {
			return nil, msg, fmt.Errorf("child: %s", msg)
		}

		if errors.As(err, &ee) {
			return nil, msg, fmt.Errorf("%w: %v", errDied, err)
		}

		return nil, msg, err
	}

	rep := new(reply)

	if err := json.Unmarshal(out.Bytes(), rep); err != nil {
		return nil, msg, err
	}

	return rep, msg, nil
}

func headOf(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")

	if len(ls) > 3 {
		ls = ls[:3]
	}

	return strings.Join(ls, " | ")
}

// total accumulates what the batches report.
type total struct {
	reply
	hashes, points, inter map[uint64]struct{}
	cov                   []byte
	aborted               int
	repeated, mismatches  int
	raceRuns              int
	skipped               int
}

func (t *total) add(r *reply) {
	t.Runs += r.Runs
	t.Trivial += r.Trivial
	t.Events += r.Events
	t.Steps += r.Steps

	if r.MaxRate > t.MaxRate {
		t.MaxRate = r.MaxRate
	}

	if r.MaxAlloc > t.MaxAlloc {
		t.MaxAlloc = r.MaxAlloc
	}

	for k, v := range r.Faults {
		t.Faults[k] += v
	}

	for k, v := range r.Probes {
		t.Probes[k] += v
	}

	for _, h := range r.Hashes {
		t.hashes[h] = struct{}{}
	}

	for _, h := range r.Points {
		t.points[h] = struct{}{}
	}

	for _, h := range r.Inter {
		t.inter[h] = struct{}{}
	}

	for i, c := range r.Cov {
		if i < len(t.cov) {
			t.cov[i] |= c
		}
	}

	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, r.Samples...)
	}
}

type found struct {
	v     *violation
	race  bool
	from  int // first run of the batch
	fatal string
}

func drive() {
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	d := &driver{start: time.Now()}
	race := fs.String("race", "", "race build of this program")
	replay := fs.String("replay", "", "replay file")
	runs := fs.Int("runs", 0, "number of runs (0: as the tier says)")

	fs.StringVar(&d.check, "check", "", "property")
	fs.StringVar(&d.tier, "tier", "quick", "quick or thorough")
	fs.StringVar(&d.dir, "dir", "/verif", "directory for evidence and replay files")
	fs.Uint64Var(&d.seed, "seed", 1, "seed")
	_ = fs.Parse(os.Args[2:])

	d.info = checks.All[d.check]

	if d.info == nil {
		fatal("unknown check %q", d.check)
	}

	if d.tier != "quick" && d.tier != "thorough" {
		fatal("unknown tier %q", d.tier)
	}

	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}

	d.bins = [2]string{exe, *race}

	loadSites()

	d.scratch, err = os.MkdirTemp(filepath.Join(d.dir, ".build"), "run-"+d.check+"-")
	if err != nil {
		fatal("%v", err)
	}

	code := d.main(*replay, *runs)

	_ = os.RemoveAll(d.scratch)

	os.Exit(code)
}

func (d *driver) main(replay string, runs int) int {
	if replay != "" {
		return d.replay(replay)
	}

	if runs == 0 {
		runs = d.info.Quick

		if d.tier == "thorough" {
			runs *= checks.Thorough
		}
	}

	t := &total{hashes: map[uint64]struct{}{}, points: map[uint64]struct{}{}, inter: map[uint64]struct{}{}, cov: make([]byte, len(sites))}
	t.Faults, t.Probes = map[string]int{}, map[string]int{}

	f, err := d.explore(t, false, 0, runs)

	if err == nil && f == nil && d.bins[1] != "" {
		n := t.Runs
		f, err = d.explore(t, true, runs, runs+runs/2)
		t.raceRuns = t.Runs - n
	}

	if err == nil && f == nil {
		d.repeat(t)
	}

	if err != nil {
		fmt.Fprintln(os.Stderr, "simdrv:", err)

		return 2
	}

	if f == nil {
		if err := d.evidence(t, 0); err != nil {
			fmt.Fprintln(os.Stderr, "simdrv:", err)

			return 2
		}

		fmt.Printf("%s held: %d runs, %d distinct and not trivial, %d statements simulated, %.1f s\n", d.check, t.Runs, len(t.hashes), t.Steps, time.Since(d.start).Seconds())

		return 0
	}

	path, err := d.report(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simdrv:", err)

		return 2
	}

	if err := d.evidence(t, 1); err != nil {
		fmt.Fprintln(os.Stderr, "simdrv:", err)

		return 2
	}

	fmt.Printf("VIOLATION property=%s replay=%s\n", d.check, path)

	return 1
}

// deadline is when no more batches are started.
func (d *driver) deadline() time.Time {
	if d.tier == "thorough" {
		return d.start.Add(720 * time.Second)
	}

	return d.start.Add(420 * time.Second)
}

// explore executes the runs [from, to) in batches and returns the violation
// with the lowest index.
func (d *driver) explore(t *total, race bool, from, to int) (*found, error) {
	var (
		mu   sync.Mutex
		wg   sync.WaitGroup
		best *found
		fail error
		next = from
	)

	slots := runtime.NumCPU()

	if slots > 8 {
		slots = 8
	}

	for s := 0; s < slots; s++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			for {
				mu.Lock()

				a := next
				b := min(a+d.info.Batch, to)

				if a >= to || fail != nil || best != nil && best.v.Index < a {
					mu.Unlock()

					return
				}

				if time.Now().After(d.deadline()) {
					t.skipped += to - next
					next = to

					mu.Unlock()

					return
				}

				next = b

				mu.Unlock()

				for a < b {
					rep, f, cont, err := d.batch(race, a, b)

					mu.Lock()

					if rep != nil {
						t.add(rep)
					}

					if err != nil && fail == nil {
						fail = err
					}

					if cont > a {
						t.aborted++
					}

					if f != nil && (best == nil || f.v.Index < best.v.Index) {
						best = f
					}

					mu.Unlock()

					a = cont

					if cont == 0 {
						break
					}
				}
			}
		}()
	}

	wg.Wait()

	if best != nil {
		return best, nil
	}

	return nil, fail
}

// batch executes one batch. If the process dies at a run that may die, the batch
// continues at index cont.
func (d *driver) batch(race bool, a, b int) (rep *reply, f *found, cont int, err error) {
	prog := filepath.Join(d.scratch, fmt.Sprintf("progress-%v-%d", race, a))

	defer os.Remove(prog)

	rep, msg, err := d.ask(race, &request{Mode: "batch", Seed: d.seed, From: a, To: b, Progress: prog, Keep: a == 0}, batchTimeout)

	switch {
	case err == nil && rep.Harness != "":
		return rep, nil, 0, errors.New(rep.Harness)
	case err == nil && rep.Viol != nil:
		return rep, &found{v: rep.Viol, race: race, from: a}, 0, nil
	case err == nil:
		return rep, nil, 0, nil
	case !errors.Is(err, errDied) && !errors.Is(err, context.DeadlineExceeded):
		return nil, nil, 0, err
	}

	// The process died or hung. Repeat its current run alone.
	p, e := os.ReadFile(prog)

	if e != nil || len(p) != 8 {
		return nil, nil, 0, fmt.Errorf("batch %d-%d: %v (%s)", a, b, err, msg)
	}

	i := int(binary.LittleEndian.Uint64(p))
	hung := errors.Is(err, context.DeadlineExceeded)
	one, msg1, err1 := d.ask(race, &request{Mode: "one", Seed: d.seed, From: i, Indexed: true}, oneTimeout)

	switch {
	case err1 == nil && one.Viol != nil:
		return nil, &found{v: one.Viol, race: race, from: a}, 0, nil
	case err1 == nil:
		return nil, nil, 0, fmt.Errorf("run %d: %v (%s), but not when repeated alone", i, err, msg)
	case hung && errors.Is(err1, context.DeadlineExceeded) && d.info.Hang:
		return nil, &found{v: &violation{Index: i, Kind: "hang", Detail: "the call does not return"}, race: race, from: a, fatal: "hang"}, 0, nil
	case !hung && errors.Is(err1, errDied) && d.info.Fatal:
		return nil, &found{v: &violation{Index: i, Kind: "process-death", Detail: "the call kills the process: " + msg1}, race: race, from: a, fatal: msg1}, 0, nil
	case !hung && errors.Is(err1, errDied):
		return nil, nil, i + 1, nil
	}

	return nil, nil, 0, fmt.Errorf("run %d: %v (%s)", i, err1, msg1)
}

// repeat executes some batches again, in new processes, and compares the hash of their
// complete event logs.
func (d *driver) repeat(t *total) {
	for _, a := range []int{0, d.info.Quick / 2 / d.info.Batch * d.info.Batch} {
		var order [2]uint64

		for k := range order {
			rep, _, err := d.ask(false, &request{Mode: "batch", Seed: d.seed, From: a, To: a + d.info.Batch}, batchTimeout)
			if err != nil {
				return
			}

			order[k] = rep.Order

			if k == 1 {
				t.repeated += rep.Runs
			}
		}

		if order[0] != order[1] {
			t.mismatches++

			fmt.Fprintf(os.Stderr, "simdrv: warning: runs %d-%d were not repeated exactly\n", a, a+d.info.Batch)
		}
	}
}

// report minimises a violation, writes its replay file and describes it.
func (d *driver) report(f *found) (string, error) {
	i := f.v.Index
	out := &replayFile{Property: d.check, Seed: d.seed, Run: i, Kind: f.v.Kind, Race: f.race, Choices: f.v.Choices}

	// test executes choices in a new process and says whether they still fail that way.
	test := func(h *span, c []uint64, keep bool) *reply {
		rep, msg, err := d.ask(f.race, &request{Mode: "one", Choices: c, Keep: keep, Before: h}, oneTimeout)

		switch {
		case f.fatal == "hang" && errors.Is(err, context.DeadlineExceeded), f.fatal != "" && f.fatal != "hang" && errors.Is(err, errDied):
			return &reply{Viol: &violation{Index: i, Kind: f.v.Kind, Detail: f.v.Detail}, Trace: []string{msg}}
		case err != nil || rep.Viol == nil || rep.Viol.Kind != f.v.Kind:
			return nil
		}

		return rep
	}

	if f.fatal != "" {
		dump := filepath.Join(d.scratch, "choices")
		_, _, _ = d.ask(f.race, &request{Mode: "one", Seed: d.seed, From: i, Indexed: true, Dump: dump}, oneTimeout)

		b, err := os.ReadFile(dump)
		if err != nil {
			return "", err
		}

		for ; len(b) >= 8; b = b[8:] {
			out.Choices = append(out.Choices, binary.LittleEndian.Uint64(b))
		}
	}

	out.Original = core.Plain(out.Choices)

	var final *reply

	if final = test(nil, out.Choices, true); final != nil {
		d.shrink(f, out, test)
	} else if f.fatal == "" {
		// It needs the runs before it. Find out how many.
		for n := 1; ; n *= 4 {
			from := max(i-n, f.from)
			h := &span{d.seed, from, i}

			if final = test(h, out.Choices, true); final != nil {
				out.History = h
				out.Choices = core.Shrink(out.Choices, 60, time.Now().Add(shrinkTime), func(c []uint64) ([]uint64, bool) { return nil, test(h, c, false) != nil })

				break
			}

			if from == f.from {
				break
			}
		}
	}

	if rep := test(out.History, out.Choices, true); rep != nil {
		final = rep
	}

	for k := 0; k < 20 && final == nil && f.fatal == ""; k++ {
		final = test(nil, out.Choices, true)
	}

	if final == nil && f.fatal != "" {
		return "", fmt.Errorf("run %d failed (%s: %s), but not when repeated", i, f.v.Kind, f.v.Detail)
	}

	if final == nil {
		// The code under test chooses by something outside the simulation.
		out.Unrepeatable = true
		final = &reply{Viol: f.v, Trace: []string{"seen once; the same choices did not lead to it again"}}
	}

	out.Detail, out.Trace = final.Viol.Detail, final.Trace

	dir := filepath.Join(d.dir, "replays")

	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}

	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", d.check, d.seed, i))

	j, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return "", err
	}

	if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
		return "", err
	}

	fmt.Printf("%s broken (%s, run %d, seed %d, %d choices minimised to %d): %s\n", d.check, out.Kind, i, d.seed, out.Original, core.Plain(out.Choices), strings.ToValidUTF8(out.Detail, "?"))

	for k, l := range out.Trace {
		if k == 60 {
			fmt.Printf("  ... %d more\n", len(out.Trace)-k)

			break
		}

		if len(l) > 300 {
			l = l[:300] + "..."
		}

		fmt.Println("  " + strings.ToValidUTF8(l, "?"))
	}

	return path, nil
}

func (d *driver) shrink(f *found, out *replayFile, test func(*span, []uint64, bool) *reply) {
	if f.fatal == "hang" {
		return
	}

	// In one process first; it only counts if it also fails in a new one.
	if f.fatal == "" && !f.race {
		if rep, _, err := d.ask(false, &request{Mode: "shrink", Choices: out.Choices, Kind: f.v.Kind, Budget: 6000}, oneTimeout); err == nil && test(nil, rep.Choices, false) != nil {
			out.Choices = rep.Choices

			return
		}
	}

	out.Choices = core.Shrink(out.Choices, 600, time.Now().Add(shrinkTime), func(c []uint64) ([]uint64, bool) { return nil, test(nil, c, false) != nil })
}

func (d *driver) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simdrv:", err)

		return 2
	}

	var f replayFile

	if err := json.Unmarshal(b, &f); err != nil || f.Property != d.check {
		fmt.Fprintln(os.Stderr, "simdrv: not a replay file of this property:", path, err)

		return 2
	}

	if f.Race && d.bins[1] == "" {
		fmt.Fprintln(os.Stderr, "simdrv: no race build")

		return 2
	}

	rep, msg, err := d.ask(f.Race, &request{Mode: "one", Choices: f.Choices, Keep: true, Before: f.History}, oneTimeout)

	switch {
	case f.Kind == "process-death" && errors.Is(err, errDied), f.Kind == "hang" && errors.Is(err, context.DeadlineExceeded):
		fmt.Println(strings.ToValidUTF8(msg, "?"))
	case err != nil:
		fmt.Fprintln(os.Stderr, "simdrv:", err, msg)

		return 2
	default:
		for _, l := range rep.Trace {
			fmt.Println("  " + strings.ToValidUTF8(l, "?"))
		}

		if rep.Viol == nil {
			fmt.Println("no violation in this execution")

			return 0
		}

		fmt.Printf("%s: %s\n", rep.Viol.Kind, strings.ToValidUTF8(rep.Viol.Detail, "?"))
	}

	fmt.Printf("VIOLATION property=%s replay=%s\n", d.check, path)

	return 1
}

func (d *driver) evidence(t *total, violations int) error {
	wall := time.Since(d.start).Seconds()
	reached, files := 0, map[string][2]int{}

	for i, c := range t.cov {
		x := files[sites[i].File]
		x[1]++

		if c != 0 {
			reached++
			x[0]++
		}

		files[sites[i].File] = x
	}

	var cover []string

	for f, x := range files {
		cover = append(cover, fmt.Sprintf("%s %d/%d", f, x[0], x[1]))
	}

	sort.Strings(cover)

	injected := 0

	for _, v := range t.Faults {
		injected += v
	}

	samples := t.Samples

	if len(samples) == 0 {
		samples = []sample{{-1, []string{"no run of the first batch was non-trivial"}}}
	}

	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": len(t.hashes),
		"rule":                d.info.Rule,
		"samples":             samples,
		"trivial_runs":        t.Trivial,
		"seeds_per_hour":      int(float64(t.Runs) / wall * 3600),
		"simulated_time": map[string]any{
			"statements_executed": t.Steps,
			"events":              t.Events,
			"unit":                "statements of the codec executed; the codec reads no clock",
		},
		"faults_injected":                      t.Faults,
		"faults_injected_total":                injected,
		"probes":                               t.Probes,
		"distinct_situations":                  map[string]any{"count": len(t.points), "measure": d.info.Measure},
		"yield_points":                         map[string]any{"reached": reached, "instrumented": len(t.cov), "by_file": cover},
		"largest_statements_per_byte_of_input": t.MaxRate,
		"budget_statements_per_byte_of_input":  core.BudgetPerByte,
		"determinism": map[string]any{
			"runs_repeated_in_another_process": t.repeated,
			"batches_with_different_event_log": t.mismatches,
		},
		"runs_aborted_by_process_death": t.aborted,
		"runs_skipped_for_time":         t.skipped,
		"components": map[string]any{
			"real":      []string{"package vimagination.zapto.org/ics, built from /repo's working tree with yield points inserted", "vimagination.zapto.org/parser", "Go standard library (bufio, net/url, encoding/base64, time arithmetic)"},
			"simulated": []string{"io.Reader", "io.Writer / store", "time-zone database (time.LoadLocation)", "host local zone (time.Local)", "goroutine scheduler and package sync of the codec", "clock (time.Now, statement count)", "iteration order of maps"},
		},
	}

	if d.check == "C12" {
		cov["distinct_interleavings"] = map[string]any{"count": len(t.inter), "measure": "distinct sequences of (task stopped, yield point, task continued)"}
		cov["runs_under_race_detector"] = t.raceRuns
	}

	if t.MaxAlloc > 0 {
		cov["largest_bytes_allocated_per_byte_of_input"] = t.MaxAlloc
	}

	if coarse {
		cov["note"] = "the codec uses goroutines or channels itself: no yield points inside it"
	}

	ev := map[string]any{
		"property": d.check,
		"tier":     d.tier,
		"seed":     d.seed,
		"level":    "exploration",
		"coverage": cov,
		"assumptions": []string{
			"the simulated reader and writer keep to the contracts of io.Reader and io.Writer, except for silent short writes where the property speaks of them",
			"the reference model (sim/model) reads RFC 5545/6868 correctly; it was written independently of the codec",
			"sampled, not exhaustive: a pass covers the counted runs only",
		},
		"wall_s":     wall,
		"violations": violations,
	}

	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}

	dir := filepath.Join(d.dir, "evidence")

	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}

	tmp := filepath.Join(dir, "."+d.check+".tmp")

	if err := os.WriteFile(tmp, append(j, '\n'), 0o644); err != nil {
		return err
	}

	return os.Rename(tmp, filepath.Join(dir, d.check+".json"))
}
