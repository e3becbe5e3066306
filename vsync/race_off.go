//go:build !race

package axvsync

import "unsafe"

func raceDisable()                       {}
func raceEnable()                        {}
func raceAcquire(p unsafe.Pointer)       {}
func raceRelease(p unsafe.Pointer)       {}
func raceReleaseMerge(p unsafe.Pointer)  {}
