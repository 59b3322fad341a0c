//go:build !race

package mon

import "sync/atomic"

var progress int64

// Tick tells the watchdog that something happened.
func Tick() { atomic.AddInt64(&progress, 1) }

func ticks() int64 { return atomic.LoadInt64(&progress) }
