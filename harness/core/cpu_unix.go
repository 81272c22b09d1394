//go:build unix

package core

import (
	"strconv"
	"syscall"
	"time"
)

// CPUTime is what this process has used.
func CPUTime() time.Duration { return cpuTime() }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// limitMemory makes a request for absurd amounts of memory fail at once.
func limitMemory() {
	const max = 8 << 30
	lim := syscall.Rlimit{Cur: max, Max: max}
	if strconv.IntSize == 64 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}
