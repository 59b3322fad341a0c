//go:build race

package mon

var progress int64

// Tick tells the watchdog that something happened. An atomic counter would order the goroutines
// for the race detector, so this one is neither atomic nor watched; lost counts do not matter.
//
//go:norace
func Tick() { progress++ }

//go:norace
func ticks() int64 { return progress }
