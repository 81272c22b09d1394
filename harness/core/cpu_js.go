package core

import "time"

// CPUTime isn't known.
func CPUTime() time.Duration { return 0 }

func cpuTime() time.Duration { return 0 }

func limitMemory() {}
