// Package runtime shadows the scheduler-facing part of runtime.
package runtime

import "github.com/donnie4w/gofer/verifsim/sim"

func Gosched()                  { sim.Yield() }
func Goexit()                   { sim.Goexit() }
func NumGoroutine() int         { return len(sim.Live()) + 1 }
func NumCPU() int               { return 4 }
func GOMAXPROCS(n int) int      { return 4 }
func GC()                       {}
func SetFinalizer(obj, fin any) {}
func LockOSThread()             {}
func UnlockOSThread()           {}
