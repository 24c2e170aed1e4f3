//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

const Racing = true

func raceOff()        { runtime.RaceDisable() }
func raceOn()         { runtime.RaceEnable() }
func acquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func release(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func RaceErrors() int { return runtime.RaceErrors() }
