// Package runtime forwards the harmless part of runtime.
package runtime

import (
	realrt "runtime"

	"verif/sim/simrt"
)

type (
	Error    = realrt.Error
	MemStats = realrt.MemStats
	Func     = realrt.Func
)

const (
	GOOS     = realrt.GOOS
	GOARCH   = realrt.GOARCH
	Compiler = realrt.Compiler
)

func GOMAXPROCS(int) int { return 8 }
func NumCPU() int        { return 8 }
func Gosched()           { simrt.Point() }
func GC()                {}
func NumGoroutine() int {
	if s := simrt.Active(); s != nil {
		return s.LiveTasks(simrt.Current().Proc)
	}
	return 1
}
func Goexit()                                   { realrt.Goexit() }
func KeepAlive(any)                             {}
func SetFinalizer(any, any)                     {}
func LockOSThread()                             {}
func UnlockOSThread()                           {}
func Version() string                           { return realrt.Version() }
func ReadMemStats(*MemStats)                    {}
func Caller(n int) (uintptr, string, int, bool) { return realrt.Caller(n + 1) }
func FuncForPC(pc uintptr) *Func                { return realrt.FuncForPC(pc) }
func Stack(b []byte, _ bool) int                { return 0 }
