//go:build race && go1.21

package vs

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
)

// RaceOn reports whether the binary is built with the race detector.
const RaceOn = true

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int                   { return runtime.RaceErrors() }

// raceRead is how much of the race detector's log was looked at already.
var raceRead int

// raceReport returns the accesses of the first race reported since the last
// call, and the report. Races between accesses that are both made by the
// machinery are left out: it is not instrumented, so the detector sees what
// the runtime does for it (maps, appends) but not what orders that.
func raceReport() (string, string) {
	p := os.Getenv("VH_RACELOG")
	if p == "" {
		return "data race reported by the race detector", ""
	}
	b, err := os.ReadFile(p + "." + strconv.Itoa(os.Getpid()))
	if err != nil {
		return "data race reported by the race detector", ""
	}
	text := string(b)
	if raceRead < len(text) {
		text, raceRead = text[raceRead:], len(text)
	}
	for _, rep := range strings.Split(text, "==================\n") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		if sites, own := raceSites(rep); !own {
			return "data race between " + strings.Join(sites, " and "), rep
		}
	}
	return "", ""
}

// raceSites returns the topmost function outside of the runtime of each of the
// two accesses and if both belong to the machinery, whose functions are not
// instrumented and so do not appear. (A callback of a harness that the code
// under test calls must not use a map: that would look like its caller's.)
func raceSites(rep string) (sites []string, own bool) {
	own = true
	open := false
	for _, line := range strings.Split(rep, "\n") {
		switch {
		case strings.Contains(line, " at 0x") && strings.Contains(line, " by ") && !strings.HasPrefix(line, "   "):
			open = true
		case line == "":
			open = false
		case strings.HasPrefix(line, "Goroutine") || strings.HasPrefix(line, "  Goroutine"):
			open = false
		case open && strings.HasPrefix(line, "  ") && !strings.HasPrefix(line, "      "):
			fn := strings.TrimSpace(line)
			if strings.HasPrefix(fn, "runtime.") || strings.HasPrefix(fn, "internal/") || strings.HasPrefix(fn, "sync/atomic.") {
				continue
			}
			open = false
			if i := strings.Index(fn, "()"); i > 0 {
				fn = fn[:i]
			}
			if !strings.Contains(fn, "/zz_verif/") && !strings.HasPrefix(fn, "main.") {
				own = false
			}
			sites = append(sites, fn)
		}
	}
	return sites, own
}
