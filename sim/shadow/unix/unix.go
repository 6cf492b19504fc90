// Package unix shadows golang.org/x/sys/unix.
package unix

import (
	"syscall"
	"unsafe"

	simos "github.com/donnie4w/gofer/verifsim/shadow/os"
	ssys "github.com/donnie4w/gofer/verifsim/shadow/syscall"
)

func Getpagesize() int { return simos.PageSize }
func Syscall(trap, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
	return ssys.Syscall(trap, a1, a2, a3)
}
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	return ssys.Syscall6(trap, a1, a2, a3, a4, a5, a6)
}
func Msync(b []byte, flags int) error {
	if len(b) == 0 {
		return nil
	}
	if e := simos.TheFS().Msync(uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), flags&syscall.MS_SYNC != 0); e != 0 {
		return e
	}
	return nil
}
func Fsync(fd int) error     { return ssys.Fsync(fd) }
func Fdatasync(fd int) error { return ssys.Fsync(fd) }
