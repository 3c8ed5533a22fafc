// Package vruntime stands in for runtime in a steered native run.
package vruntime

import (
	"runtime"
	"strings"

	"vharness/shim/vsys"
	"vharness/vsched"
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

type (
	MemStats = runtime.MemStats
	Error    = runtime.Error
)

func Gosched()                     { vsched.Yield() }
func GOMAXPROCS(n int) int         { return runtime.GOMAXPROCS(n) }
func NumCPU() int                  { return runtime.NumCPU() }
func NumCgoCall() int64            { return runtime.NumCgoCall() }
func Version() string              { return runtime.Version() }
func GC()                          { runtime.GC() }
func KeepAlive(x any)              { runtime.KeepAlive(x) }
func Goexit()                      { runtime.Goexit() }
func Stack(b []byte, all bool) int { return runtime.Stack(b, all) }
func Callers(skip int, pc []uintptr) int {
	if skip > 0 {
		skip++
	}
	return runtime.Callers(skip, pc)
}
func Caller(skip int) (uintptr, string, int, bool) { return runtime.Caller(skip + 1) }

func NumGoroutine() int {
	if vsys.HasNumGoroutine() {
		return vsys.NumGoroutine()
	}
	return runtime.NumGoroutine()
}

func ReadMemStats(m *MemStats) {
	if vsys.HasMemStats() {
		vsys.MemStats(m)
		return
	}
	runtime.ReadMemStats(m)
}

type Func struct{ f *runtime.Func }

func (f *Func) Name() string {
	if f == nil {
		return ""
	}
	return name(f.f.Name())
}
func (f *Func) Entry() uintptr                    { return f.f.Entry() }
func (f *Func) FileLine(pc uintptr) (string, int) { return f.f.FileLine(pc) }

func name(s string) string {
	if vsched.HasFake && strings.HasPrefix(s, "vharness/c") {
		return vsched.Fake
	}
	return s
}

func FuncForPC(pc uintptr) *Func {
	if f := runtime.FuncForPC(pc); f != nil {
		return &Func{f}
	}
	return nil
}

type Frame struct {
	PC       uintptr
	Func     *Func
	Function string
	File     string
	Line     int
	Entry    uintptr
}

type Frames struct{ f *runtime.Frames }

func CallersFrames(pcs []uintptr) *Frames { return &Frames{runtime.CallersFrames(pcs)} }

func (f *Frames) Next() (Frame, bool) {
	fr, more := f.f.Next()
	r := Frame{PC: fr.PC, Function: name(fr.Function), File: fr.File, Line: fr.Line, Entry: fr.Entry}
	if fr.Func != nil && !(vsched.Inlined && strings.HasPrefix(fr.Function, "vharness/c")) {
		r.Func = &Func{fr.Func}
	}
	return r, more
}
