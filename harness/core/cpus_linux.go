package core

import (
	"math/bits"
	"os/exec"
	"runtime"
	"syscall"
	"unsafe"
)

// startOn starts cmd on n of the processors this process may run on, so that
// it counts that many. Where that can't be done it is started as usual.
func startOn(n int, cmd *exec.Cmd) error {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var all, few [16]uint64
	size := unsafe.Sizeof(all)
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, size, uintptr(unsafe.Pointer(&all))); e != 0 {
		return cmd.Start()
	}
	few = all
	for left, i := 0, len(few)-1; i >= 0; i-- { // the last n
		for left+bits.OnesCount64(few[i]) > n {
			few[i] &= few[i] - 1
		}
		left += bits.OnesCount64(few[i])
	}
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, size, uintptr(unsafe.Pointer(&few))); e != 0 {
		return cmd.Start()
	}
	defer syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, size, uintptr(unsafe.Pointer(&all)))
	return cmd.Start()
}
