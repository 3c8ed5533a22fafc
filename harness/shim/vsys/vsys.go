// Package vsys holds the answers of the operating system and the runtime that
// a harness chooses. In symbolic runs the engine calls these functions in
// place of those of os, syscall, runtime and runtime/debug; in native runs the
// shims do.
package vsys

import (
	"io"
	"runtime"
	"runtime/debug"
	"syscall"
)

// Hooks of the harness.
var (
	OnNumGoroutine func() int
	OnMemStats     func(*runtime.MemStats)
	OnGCStats      func(*debug.GCStats)
	OnReadFile     func(name string) ([]byte, error)
	OnOpen         func(name string) (*File, error)
	OnRusage       func(who int, r *syscall.Rusage) error
)

// File is an open file.
type File struct {
	Path   string
	Names  [][]string // what each Readdirnames returns
	DirErr error      // and then
	Data   [][]byte   // what each Read returns
	Err    error      // and then
	Closed int
}

func HasNumGoroutine() bool                   { return OnNumGoroutine != nil }
func HasMemStats() bool                       { return OnMemStats != nil }
func NumGoroutine() int                       { return OnNumGoroutine() }
func MemStats(m *runtime.MemStats)            { OnMemStats(m) }
func GCStats(m *debug.GCStats)                { OnGCStats(m) }
func ReadFile(name string) ([]byte, error)    { return OnReadFile(name) }
func Open(name string) (*File, error)         { return OnOpen(name) }
func Rusage(who int, r *syscall.Rusage) error { return OnRusage(who, r) }
func (f *File) Name() string                  { return f.Path }

func (f *File) Close() error {
	f.Closed++
	return nil
}

// Readdirnames returns the names in the chosen pieces.
func (f *File) Readdirnames(n int) ([]string, error) {
	if n <= 0 {
		var all []string
		for len(f.Names) > 0 {
			all = append(all, f.Names[0]...)
			f.Names = f.Names[1:]
		}
		if f.DirErr == io.EOF {
			return all, nil
		}
		return all, f.DirErr
	}
	if len(f.Names) == 0 {
		return nil, f.DirErr
	}
	r := f.Names[0]
	if len(r) > n {
		f.Names[0] = r[n:]
		return r[:n], nil
	}
	f.Names = f.Names[1:]
	return r, nil
}

// Read returns the data in the chosen pieces.
func (f *File) Read(p []byte) (int, error) {
	if len(f.Data) == 0 {
		return 0, f.Err
	}
	n := copy(p, f.Data[0])
	if n == len(f.Data[0]) {
		f.Data = f.Data[1:]
	} else {
		f.Data[0] = f.Data[0][n:]
	}
	return n, nil
}

// WriteTo is what io.Copy uses.
func (f *File) WriteTo(w io.Writer) (n int64, err error) {
	for len(f.Data) > 0 {
		k, err := w.Write(f.Data[0])
		n += int64(k)
		if err != nil {
			return n, err
		}
		f.Data = f.Data[1:]
	}
	if f.Err == io.EOF {
		return n, nil
	}
	return n, f.Err
}
