//go:build race

package core

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

var raceSeen int64

// Races returns the reports of the race detector since the last call that are about
// the code under test.
func Races() []string {
	path := ""

	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(o, "log_path="); ok {
			path = p
		}
	}

	b, err := os.ReadFile(fmt.Sprintf("%s.%d", path, os.Getpid()))
	if err != nil || int64(len(b)) <= raceSeen {
		return nil
	}

	text := string(b[raceSeen:])
	raceSeen = int64(len(b))

	var out []string

	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}

		ours, accesses := true, 0
		lines := strings.Split(rep, "\n")

		for i, l := range lines {
			if !strings.Contains(l, " at 0x") || !strings.Contains(l, "by ") {
				continue
			}

			accesses++

			for _, f := range lines[i+1:] { // first frame outside the runtime
				if f = strings.TrimSpace(f); strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "/") {
					continue
				}

				if strings.HasPrefix(f, "verif/sim/") || strings.HasPrefix(f, "main.") {
					ours = false
				}

				break
			}
		}

		if ours && accesses > 0 {
			out = append(out, describe(lines))
		}
	}

	return out
}

// describe keeps what does not depend on addresses and goroutine numbers.
func describe(lines []string) string {
	var out []string

	for i, l := range lines {
		l = strings.TrimSpace(l)

		if strings.Contains(l, " at 0x") && strings.Contains(l, "by ") {
			out = append(out, l[:strings.Index(l, " at 0x")])

			for n := 1; n < 14 && i+n < len(lines); n++ {
				f := strings.TrimSpace(lines[i+n])

				if f == "" {
					break
				}

				if strings.HasPrefix(f, "vimagination.zapto.org/ics") {
					out = append(out, strings.TrimSuffix(strings.TrimPrefix(f, "vimagination.zapto.org/"), "()"))
				}
			}
		}
	}

	return strings.Join(out, " < ")
}
