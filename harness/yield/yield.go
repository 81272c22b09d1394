// Package yield delays goroutines at random points of the library's code.
package yield

import (
	"math/rand/v2"
	"runtime"
	"time"
)

// Rate: one of so many points delays; 0 for none. It is set only while no
// other goroutine uses the library.
var Rate uint32

// Built says that the library has been given points.
var Built string

// Point comes before every statement of the library. It synchronises with
// nothing, so the race detector sees what it would see without it.
func Point() {
	if Rate == 0 {
		return
	}
	r := rand.Uint32()
	if r%Rate != 0 {
		return
	}
	switch r = r / Rate % 64; {
	case r == 0:
		time.Sleep(time.Microsecond)
	case r < 24:
		runtime.Gosched()
	default:
		for i := r * 20; i > 0; i-- {
			sink(i)
		}
	}
}

//go:noinline
func sink(uint32) {}
