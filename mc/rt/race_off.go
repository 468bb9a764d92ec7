//go:build !race

package rt

// RaceEnabled tells whether the happens-before oracle is compiled in.
const RaceEnabled = false

func raceOff()           {}
func raceOn()            {}
func acquire(*byte)      {}
func release(*byte)      {}
func releaseMerge(*byte) {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
