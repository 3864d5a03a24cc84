// Package runtime is package runtime under the simulator.
package runtime

import (
	"runtime"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

func Gosched()                                     { simrt.YS(-40) }
func GC()                                          { simrt.YS(-40) }
func Goexit()                                      { simrt.CheckDead(); runtime.Goexit() }
func NumGoroutine() int                            { return simrt.NumTasks() }
func NumCPU() int                                  { return 8 }
func GOMAXPROCS(n int) int                         { return 8 }
func SetFinalizer(obj, f interface{})              {}
func KeepAlive(x interface{})                      {}
func LockOSThread()                                {}
func UnlockOSThread()                              {}
func Caller(skip int) (uintptr, string, int, bool) { return runtime.Caller(skip + 1) }
func Callers(skip int, pc []uintptr) int {
	if skip <= 0 {
		return runtime.Callers(skip, pc)
	}
	return runtime.Callers(skip+1, pc)
}
