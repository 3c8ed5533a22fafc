// Package vrf is the harness interface to the symbolic engine. The engine
// replaces these functions; the bodies here run natively and follow a recorded
// path (see vsched).
package vrf

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"time"

	"vharness/vsched"
)

func Int64(name string) int64   { return int64(vsched.Next("Int64")) }
func Int(name string) int       { return int(vsched.Next("Int")) }
func Uint64(name string) uint64 { return vsched.Next("Uint64") }
func Int32(name string) int32   { return int32(vsched.Next("Int32")) }
func Uint32(name string) uint32 { return uint32(vsched.Next("Uint32")) }
func Int16(name string) int16   { return int16(vsched.Next("Int16")) }
func Int8(name string) int8     { return int8(vsched.Next("Int8")) }
func Byte(name string) byte     { return byte(vsched.Next("Byte")) }
func Bool(name string) bool     { return vsched.Next("Bool") != 0 }
func Float64(name string) float64 {
	return math.Float64frombits(vsched.Next("Float64"))
}
func Float32(name string) float32 {
	return math.Float32frombits(uint32(vsched.Next("Float32")))
}

// IntRange is an integer lo <= x <= hi.
func IntRange(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return lo + int(vsched.Next("IntRange"))
}

// Choose forks into n alternatives.
func Choose(name string, n int) int { return vsched.Choose(n) }

// StringN is any string of n bytes.
func StringN(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vsched.Next("Byte"))
	}
	return string(b)
}

// String is any string of at most max bytes.
func String(name string, max int) string { return StringN(name, vsched.Choose(max+1)) }

// StringOf is any string of n bytes of the alphabet.
func StringOf(name string, n int, alphabet string) string { return StringN(name, n) }

// Assume restricts the claim to paths where b holds.
func Assume(b bool) {
	if !b {
		vsched.Exit("diverged", "assumption does not hold natively")
	}
}

// Assert is decided by the solver on every path.
func Assert(b bool, msg string) {
	if !b {
		vsched.Exit("assert", msg)
	}
}

func Fail(msg string) { vsched.Exit("assert", msg) }

func Reach(label string) {}
func Stop()              { vsched.Exit("ok", "stopped") }

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

func IteInt64(c bool, a, b int64) int64                    { return ite(c, a, b) }
func IteInt(c bool, a, b int) int                          { return ite(c, a, b) }
func IteFloat64(c bool, a, b float64) float64              { return ite(c, a, b) }
func IteFloat32(c bool, a, b float32) float32              { return ite(c, a, b) }
func IteUint64(c bool, a, b uint64) uint64                 { return ite(c, a, b) }
func IteBool(c bool, a, b bool) bool                       { return ite(c, a, b) }
func IteDuration(c bool, a, b time.Duration) time.Duration { return ite(c, a, b) }

// SameF: the same float64 value, NaN equal to NaN, zeros distinguished.
func SameF(a, b float64) bool {
	return a != a && b != b || math.Float64bits(a) == math.Float64bits(b)
}

func EqStr(a, b string) bool { return a == b }

// Bound gives and records a bound for the tier.
func Bound(name string, quick, thorough int) int {
	if vsched.R.Thorough {
		return thorough
	}
	return quick
}

func Thorough() bool { return vsched.R.Thorough }

// Parallel runs the functions concurrently under every schedule within the
// preemption bound and returns when all have ended.
func Parallel(fs ...func()) { vsched.Parallel(fs...) }

// Tick lets time pass: sleepers wake up, tickers and timers fire.
func Tick() {
	for _, f := range TickHooks {
		f()
	}
}

// TickHooks is used by the time shim.
var TickHooks []func()

// TimerCount is used by the time shim.
var TimerCount func() int

// Settle lets the other goroutines run until each has ended or blocks.
func Settle() { vsched.Count() }

func Goroutines() int { return vsched.Goroutines() }
func Sleepers() int   { return vsched.Sleepers() }
func ActiveTimers() int {
	if TimerCount == nil {
		return 0
	}
	return TimerCount()
}

// Observe records a value for comparing native and symbolic runs.
func Observe(name string, v any) {
	s := ""
	switch x := v.(type) {
	case bool:
		s = "b0"
		if x {
			s = "b1"
		}
	case float64:
		s = fmt.Sprintf("f%x", math.Float64bits(x))
		if x != x {
			s = "fNaN"
		}
	case float32:
		s = fmt.Sprintf("f%x", math.Float32bits(x))
		if x != x {
			s = "fNaN"
		}
	case string:
		s = fmt.Sprintf("%q", x)
	case uint64:
		s = fmt.Sprintf("i%d", int64(x))
	case time.Duration:
		s = fmt.Sprintf("i%d", int64(x))
	default:
		s = fmt.Sprintf("i%d", x)
	}
	fmt.Printf("VRF-OBS %s=%s\n", name, s)
}

// SymClock makes every clock reading advance by an arbitrary amount < 2^bits ns.
func SymClock(bits int)            { vsched.SymClk = true }
func FreezeClock(b bool)           { vsched.Frozen = b }
func AdvanceClock(d time.Duration) { vsched.Advance(int64(d)) }
func ClockNow() time.Time          { return vsched.Time(vsched.Quiet()) }

// JumpWall sets the wall clock forth or back; the monotonic one does not notice.
func JumpWall(d time.Duration) { vsched.Jump += int64(d) }
func SymRand(b bool)           { vsched.SetSymRand(b) }

// ConcIndex: explore symbolic indices value by value.
func ConcIndex(b bool) {}

// SymRandBits: the next random numbers are arbitrary numbers of that many bits.
func SymRandBits(bits int) { vsched.SetSymRand(true) }

func SymCrand(b bool)             {}
func FailCrand(b bool)            {}
func MapOrder(b bool)             {}
func Races(b bool)                {}
func Preempt(quick, thorough int) {}
func FakeCaller(name string) {
	vsched.Fake, vsched.HasFake = name, name != ""
}

// Inlined: the compiler has inlined the calls in the harness's own functions,
// so that there is no runtime.Func for them (Frame.Func is nil).
func Inlined(b bool) { vsched.Inlined = b }

// Reinit runs a package's initialisation again; natively the initialisation of
// the process itself used the recorded randomness.
func Reinit(pkg string)    {}
func NoSched(b bool)       {}
func Yield()               { vsched.Before() }
func Symbolic() bool       { return false }
func IsNaN(f float64) bool { return f != f }
func Finite(f float64) bool {
	return f <= math.MaxFloat64 && f >= -math.MaxFloat64
}

// Try calls f and reports the value it panicked with, if it did.
func Try(f func()) (val any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
		}
	}()
	f()
	panicked = false
	return nil, false
}

// Holds reports whether the object that target points to can be reached from
// root (through pointers, slices, maps, interfaces; symbolically also through
// closures and channels).
func Holds(root, target any) bool {
	want := reflect.ValueOf(target).Pointer()
	seen := map[[2]any]bool{}
	var walk func(v reflect.Value) bool
	walk = func(v reflect.Value) bool {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return false
			}
			if v.Pointer() == want {
				return true
			}
			k := [2]any{v.Pointer(), v.Type()}
			if seen[k] {
				return false
			}
			seen[k] = true
			return walk(v.Elem())
		case reflect.Interface:
			return !v.IsNil() && walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if walk(v.Field(i)) {
					return true
				}
			}
		case reflect.Array, reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				if walk(v.Index(i)) {
					return true
				}
			}
		case reflect.Map:
			k := [2]any{v.Pointer(), v.Type()}
			if seen[k] {
				return false
			}
			seen[k] = true
			for it := v.MapRange(); it.Next(); {
				if walk(it.Key()) || walk(it.Value()) {
					return true
				}
			}
		}
		return false
	}
	return walk(reflect.ValueOf(root))
}

// Known reports whether the byte is concrete on this path (natively always).
func Known(b byte) bool { return true }

// Find returns the position after the first occurrence of text in s at or
// after from, or -1. Symbolic bytes match nothing.
func Find(s []byte, text string, from int) int {
	i := bytes.Index(s[from:], []byte(text))
	if i < 0 {
		return -1
	}
	return from + i + len(text)
}
