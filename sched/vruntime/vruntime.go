// Package runtime stands for the standard package in rewritten sources
package runtime

import (
	"runtime"

	"github.com/dmitryikh/leaves/zzverif/vsched"
)

// GOMAXPROCS gives the emulated number of processors
func GOMAXPROCS(n int) int {
	old := vsched.Procs()
	if n > 0 {
		vsched.SetProcs(n)
	}
	return old
}

// NumCPU gives the emulated number of processors
func NumCPU() int { return vsched.Procs() }

// Gosched is a scheduling point
func Gosched() { vsched.Yield() }

// NumGoroutine as in the standard package
func NumGoroutine() int { return runtime.NumGoroutine() }

// KeepAlive as in the standard package
func KeepAlive(x interface{}) { runtime.KeepAlive(x) }

// GC as in the standard package
func GC() { runtime.GC() }

// Caller as in the standard package
func Caller(n int) (uintptr, string, int, bool) { return runtime.Caller(n + 1) }

// MemStats as in the standard package
type MemStats = runtime.MemStats

// ReadMemStats as in the standard package
func ReadMemStats(m *MemStats) { runtime.ReadMemStats(m) }

// Error as in the standard package
type Error = runtime.Error

const (
	GOOS   = runtime.GOOS
	GOARCH = runtime.GOARCH
)
