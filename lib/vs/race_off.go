//go:build !race && go1.21

package vs

import "unsafe"

// RaceOn reports whether the binary is built with the race detector.
const RaceOn = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int                   { return 0 }
func raceReport() (string, string)      { return "", "" }
