package rt

import (
	"reflect"
	"sort"
	"time"
)

// Base is the origin of the virtual clock, not on a round second, millisecond or microsecond.
var Base = time.Date(2020, 1, 1, 0, 0, 0, 123456789, time.UTC)

var clock time.Duration

// ClockPoints makes every clock read of the code under test a scheduling point.
var ClockPoints bool

// MapDesc reverses the order in which the code under test sees map keys.
var MapDesc bool

// Now stands for time.Now.
//
//go:norace
func Now() time.Time {
	if ClockPoints {
		Step()
	}
	return Base.Add(clock)
}

// Since stands for time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until stands for time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep advances the virtual clock.
func Sleep(d time.Duration) {
	if d > 0 {
		Advance(d)
	}
}

// Advance moves the virtual clock.
//
//go:norace
func Advance(d time.Duration) { clock += d }

// SetClock sets the virtual clock.
//
//go:norace
func SetClock(d time.Duration) {
	clock, seqHeld, seqLater = d, 0, nil
	if len(parked) > 0 {
		seqKill(len(parked))
	}
	chans = nil
}

// Clock reads the virtual clock (harness side, not a scheduling point).
//
//go:norace
func Clock() time.Duration { return clock }

// Keys lists the keys of a string-keyed map in a fixed order.
func Keys(m interface{}) []string {
	v := reflect.ValueOf(m)
	if v.Len() == 0 {
		return nil
	}
	ks := make([]string, 0, v.Len())
	it := v.MapRange()
	for it.Next() {
		ks = append(ks, it.Key().String())
	}
	sort.Strings(ks)
	if MapDesc {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}
