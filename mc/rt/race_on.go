//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the happens-before oracle is compiled in.
const RaceEnabled = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func acquire(b *byte) { runtime.RaceAcquire(unsafe.Pointer(b)) }

//go:norace
func release(b *byte) { runtime.RaceRelease(unsafe.Pointer(b)) }

//go:norace
func releaseMerge(b *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(b)) }

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
