// Package syscall shadows the raw system calls the code under test makes.
package syscall

import (
	"syscall"

	simos "github.com/donnie4w/gofer/verifsim/shadow/os"
	"github.com/donnie4w/gofer/verifsim/shadow/signal"
	"github.com/donnie4w/gofer/verifsim/sim"
)

func call(trap, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
	switch trap {
	case syscall.SYS_MSYNC:
		e := simos.TheFS().Msync(a1, a2, a3&syscall.MS_SYNC != 0)
		if e != 0 {
			return ^uintptr(0), 0, e
		}
		return 0, 0, 0
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		if err := Fsync(int(a1)); err != nil {
			return ^uintptr(0), 0, syscall.EIO
		}
		return 0, 0, 0
	case syscall.SYS_GETPID:
		return uintptr(simos.Getpid()), 0, 0
	}
	panic(sim.Fatal{Msg: "sim: raw system call outside the simulated set"})
}

func Syscall(trap, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
	return call(trap, a1, a2, a3)
}
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	return call(trap, a1, a2, a3)
}
func RawSyscall(trap, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
	return call(trap, a1, a2, a3)
}
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	return call(trap, a1, a2, a3)
}

func Fsync(fd int) error {
	f := simos.FileByFd(uintptr(fd))
	if f == nil {
		return syscall.EBADF
	}
	return f.Sync()
}
func Fdatasync(fd int) error { return Fsync(fd) }
func Getpid() int            { return simos.Getpid() }
func Kill(pid int, sig syscall.Signal) error {
	signal.Deliver(sig)
	return nil
}
