// Package debug shadows runtime/debug.
package debug

func FreeOSMemory()           {}
func SetGCPercent(p int) int  { return 100 }
func SetMaxThreads(n int) int { return 10000 }
func Stack() []byte           { return []byte("simulated stack") }
func PrintStack()             {}
