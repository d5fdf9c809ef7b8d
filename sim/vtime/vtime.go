// Package vtime is the simulated clock behind time.Now, Since, Until and Sleep.
package vtime

import (
	"time"
	"verifsim/vsim"
)

// Now returns the simulated wall clock, in the local zone like time.Now.
func Now() time.Time { return time.Unix(0, vsim.Wall()) }

// Since is time.Since on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the simulated clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep is time.Sleep on the simulated clock.
func Sleep(d time.Duration) { vsim.Sleep(int64(d)) }
