// Package c25: environment statistics report each observation once and
// truthfully.
package c25

import (
	"errors"
	"io"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"

	"vharness/hx"
	"vharness/shim/vsys"
	"vharness/vrf"
)

var errSys = errors.New("no answer")

type stat struct {
	key, field string
	val        float64
}

func stats(s monkit.StatSource) (r []stat) {
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		r = append(r, stat{key.String(), field, val})
	})
	return r
}

// same checks that got is want, in any order.
func same(got, want []stat, what string) {
	vrf.Assert(len(got) == len(want), what+": all of it and nothing else is reported")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g.key == w.key && g.field == w.field {
				n++
				vrf.Assert(hx.EqF(g.val, w.val), what+": what the system returned is reported")
			}
		}
		vrf.Assert(n == 1, what+": each value is reported once under its name")
	}
}

// gc answers with the garbage collections so far.
type gc struct{ pauses []time.Duration }

func (c *gc) stats(s *debug.GCStats) {
	n := len(c.pauses)
	s.NumGC = int64(n)
	s.Pause = make([]time.Duration, n)
	s.PauseEnd = make([]time.Time, n)
	for i, p := range c.pauses {
		s.Pause[n-1-i] = p
		s.PauseTotal += p
	}
}

func quiet() {
	vrf.FreezeClock(true)
	vsys.OnNumGoroutine = func() int { return 7 }
	vsys.OnMemStats = func(m *runtime.MemStats) {}
	vsys.OnGCStats = func(m *debug.GCStats) {}
	vsys.OnReadFile = func(string) ([]byte, error) { return nil, errSys }
	vsys.OnOpen = func(string) (*vsys.File, error) { return nil, errSys }
	vsys.OnRusage = func(int, *syscall.Rusage) error { return errSys }
}

func gcStats(all []stat) (r []hx.Stat) {
	for _, s := range all {
		if s.key == "runtime_gcstats" {
			r = append(r, hx.Stat{Field: s.field, Val: s.val})
		}
	}
	return r
}

// H_gc: every history of garbage collections and reads.
func H_gc() {
	quiet()
	c := &gc{}
	vsys.OnGCStats = c.stats
	src := environment.Runtime()
	n := vrf.Bound("steps", 6, 8)
	count, total, recent := 0.0, 0.0, time.Duration(0)
	seen := 0
	for i := 0; i < n; i++ {
		if vrf.Choose("step", 2) == 0 {
			c.pauses = append(c.pauses, time.Duration(vrf.IntRange("pause", 0, 1<<16)))
			continue
		}
		ss := gcStats(stats(src))
		got, _ := hx.Get(ss, "count")
		sum, _ := hx.Get(ss, "sum")
		fresh := len(c.pauses) - seen
		if fresh == 0 {
			vrf.Assert(got == count && hx.EqF(sum, total), "a pause that was counted is not counted again")
		} else {
			recent = c.pauses[len(c.pauses)-1]
			vrf.Assert(got > count && got <= count+float64(fresh), "each pause is counted at most once")
			if got == count+1 && count == 0 {
				hx.Want(ss, "sum", recent.Seconds())
			}
		}
		if len(c.pauses) > 0 {
			hx.Want(ss, "recent", recent.Seconds())
		}
		seen, count, total = len(c.pauses), got, sum
	}
}

// H_gc_readers: several goroutines read while garbage is collected.
// vrf:preempt=3,4
func H_gc_readers() {
	vrf.NoSched(true)
	quiet()
	c := &gc{}
	for i := 0; i < vrf.Choose("before", 3); i++ {
		c.pauses = append(c.pauses, time.Duration(100+i))
	}
	vsys.OnGCStats = func(s *debug.GCStats) { vrf.Yield(); c.stats(s) }
	src := environment.Runtime()
	if vrf.Choose("read before", 2) == 1 {
		stats(src)
	}
	vrf.Races(true)
	vrf.NoSched(false)
	read := func() { src.Stats(func(key monkit.SeriesKey, field string, val float64) {}) }
	vrf.Parallel(read, read, func() {
		vrf.Races(false)
		c.pauses = append(c.pauses, time.Duration(1000))
		vrf.Races(true)
	})
	vrf.NoSched(true)
	vrf.Races(false)
	ss := gcStats(stats(src))
	k, _ := hx.Get(ss, "count")
	vrf.Assert(k <= float64(len(c.pauses)), "each pause is counted at most once")
	sum := time.Duration(0)
	for _, p := range c.pauses {
		sum += p
	}
	s, _ := hx.Get(ss, "sum")
	vrf.Assert(s <= sum.Seconds(), "each pause is counted at most once")
	hx.Want(ss, "recent", time.Duration(1000).Seconds())
	hx.Want(ss, "max", time.Duration(1000).Seconds())
}

// H_runtime: goroutines and memory statistics.
func H_runtime() {
	quiet()
	n := vrf.IntRange("goroutines", 1, 1<<20)
	vsys.OnNumGoroutine = func() int { return n }
	var m runtime.MemStats
	v := uint64(vrf.Uint32("value"))
	v >>= 8
	switch vrf.Choose("field", 6) {
	case 0:
		m.Alloc = v
	case 1:
		m.HeapObjects = v
	case 2:
		m.NumGC = uint32(v)
	case 3:
		m.GCCPUFraction = float64(v)
	case 4:
		m.EnableGC = v&1 == 1
	case 5:
		m.Sys, m.Mallocs, m.Frees = v, v+1, v+2
	}
	vsys.OnMemStats = func(x *runtime.MemStats) { *x = m }
	got := stats(environment.Runtime())
	want := []stat{{"goroutines", "count", float64(n)}}
	want = append(want, stats(monkit.StatSourceFromStruct(monkit.NewSeriesKey("runtime_memstats"), m))...)
	want = append(want, stats(monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats")))...)
	same(got, want, "runtime")
}

// H_rusage: resource usage.
func H_rusage() {
	quiet()
	var u syscall.Rusage
	v := int64(vrf.IntRange("value", -1<<20, 1<<20))
	switch vrf.Choose("field", 5) {
	case 0:
		u.Utime.Sec = v
	case 1:
		u.Stime.Usec = v
	case 2:
		u.Maxrss = v
	case 3:
		u.Nivcsw = v
	case 4:
		u.Inblock, u.Oublock = v, -v
	}
	var err error
	if vrf.Choose("fails", 2) == 1 {
		err = errSys
	}
	self := true
	vsys.OnRusage = func(who int, r *syscall.Rusage) error {
		self = who == syscall.RUSAGE_SELF
		*r = u
		return err
	}
	got := stats(environment.Rusage())
	vrf.Assert(self, "rusage: the process's own usage is reported")
	var want []stat
	if err == nil {
		want = stats(monkit.StatSourceFromStruct(monkit.NewSeriesKey("rusage"), u))
	}
	same(got, want, "rusage")
}

// H_fds: the number of file descriptors.
func H_fds() {
	quiet()
	n := vrf.Choose("pieces", 4)
	f := &vsys.File{DirErr: io.EOF}
	want := 0
	for i := 0; i < n; i++ {
		k := []int{1, 2, 100, 1000}[vrf.Choose("names", 4)]
		f.Names = append(f.Names, make([]string, k))
		want += k
	}
	mode := vrf.Choose("mode", 3)
	switch mode {
	case 1:
		f.DirErr = errSys
	}
	path := ""
	vsys.OnOpen = func(name string) (*vsys.File, error) {
		path = name
		if mode == 2 {
			return nil, errSys
		}
		return f, nil
	}
	got := stats(environment.OS())
	vrf.Assert(path == "/proc/self/fd" || path == "/dev/fd", "fds: the process's own descriptors are counted")
	if mode == 0 {
		same(got, []stat{{"fds", "count", float64(want)}}, "fds")
	} else {
		same(got, nil, "fds")
	}
	vrf.Assert(mode == 2 || f.Closed == 1, "fds: no descriptor is left open")
}

// crc is the IEEE checksum, bit by bit.
func crc(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for k := 0; k < 8; k++ {
			c = c>>1 ^ 0xedb88320&-(c&1)
		}
	}
	return ^c
}

// H_process: the process's checksum and age.
func H_process() {
	quiet()
	data := []byte{1, 2, vrf.Byte("binary"), 3}
	split := vrf.Choose("split", 3)
	mode := vrf.Choose("mode", 3)
	opens := 0
	f := &vsys.File{Err: io.EOF, Data: [][]byte{append([]byte(nil), data[:split+1]...), append([]byte(nil), data[split+1:]...)}}
	if mode == 1 {
		f.Err = errSys
	}
	vsys.OnOpen = func(name string) (*vsys.File, error) {
		vrf.Assert(name == "/proc/self/exe", "process: the running binary is read")
		opens++
		if mode == 2 {
			return nil, errSys
		}
		return f, nil
	}
	src := environment.Process()
	age := -1.0
	for i := 0; i < 2; i++ {
		got := stats(src)
		want := []stat{{"process", "control", 1}}
		if mode == 0 {
			want = append(want, stat{"process", "crc", float64(crc(data))})
		}
		for _, g := range got {
			if g.field == "uptime" {
				if i == 0 {
					age = g.val
					vrf.Assert(age >= 0, "process: the age is the time since the start")
				} else {
					vrf.Assert(hx.EqF(g.val, age+3), "process: the age is the time since the start")
				}
				want = append(want, stat{"process", "uptime", g.val})
			}
		}
		vrf.Assert(age >= 0, "process: the age is reported")
		same(got, want, "process")
		vrf.AdvanceClock(3 * time.Second)
	}
	vrf.Assert(mode == 2 || f.Closed == opens, "process: no file is left open")
}

var procFields = []string{"Pid", "", "State", "Ppid", "Pgrp", "Session", "TtyNr", "Tpgid", "Flags", "Minflt", "Cminflt", "Majflt", "Cmajflt",
	"Utime", "Stime", "Cutime", "Cstime", "Priority", "Nice", "NumThreads", "Itrealvalue", "Starttime", "Vsize", "Rss", "Rsslim",
	"Startcode", "Endcode", "Startstack", "Kstkesp", "Kstkeip", "Signal", "Blocked", "Sigignore", "Sigcatch", "Wchan", "Nswap", "Cnswap",
	"ExitSignal", "Processor", "RtPriority", "Policy", "DelayAcctBlkioTicks", "GuestTime", "CguestTime"}

var statmFields = []string{"Size", "Resident", "Share", "Text", "Lib", "Data", "Dt"}

func digit(name string) byte {
	d := vrf.Byte(name)
	vrf.Assume(vrf.And(d >= '0', d <= '9'))
	return d
}

const (
	statTail = " S 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44"
	statm    = "1 2 3 4 5 6 7\n"
)

func statWant(change int, v float64) (r []stat) {
	for i, f := range procFields {
		if f == "" {
			continue
		}
		x := float64(i)
		if i == 2 {
			x = 'S'
		}
		if i == 0 {
			x = 17
		}
		if i == change {
			x = v
		}
		r = append(r, stat{"proc_stat", f, x})
	}
	return r
}

func statmWant(change int, v float64) (r []stat) {
	for i, f := range statmFields {
		x := float64(i + 1)
		if i == change {
			x = v
		}
		r = append(r, stat{"proc_statm", f, x})
	}
	return r
}

func files(stat, statm string, statErr, statmErr error) {
	vsys.OnReadFile = func(name string) ([]byte, error) {
		switch name {
		case "/proc/self/stat":
			return []byte(stat), statErr
		case "/proc/self/statm":
			return []byte(statm), statmErr
		}
		return nil, errSys
	}
}

// numbers of the tail, in order
func statText(comm string, change int, text string) string {
	r := "17 (" + comm + ")"
	for i := 2; i < len(procFields); i++ {
		r += " "
		switch {
		case i == change:
			r += text
		case i == 2:
			r += "S"
		default:
			r += itoa(i)
		}
	}
	return r + " 45 46 47 48 49 50 51\n"
}

func itoa(i int) string {
	if i < 10 {
		return string([]byte{byte('0' + i)})
	}
	return itoa(i/10) + string([]byte{byte('0' + i%10)})
}

// H_proc_values: each field of /proc with any two-digit value.
func H_proc_values() {
	quiet()
	neg := vrf.Choose("negative", 2) == 1
	d1, d2 := digit("digit"), digit("digit")
	text := string([]byte{d1, d2})
	v := float64(int(d1-'0')*10 + int(d2-'0'))
	if neg {
		text, v = "-"+text, -v
	}
	if vrf.Choose("file", 2) == 0 {
		k := 3 + vrf.Choose("field", len(procFields)-3)
		if neg && (k >= 8 && k <= 14 || k > 23 || k == 21 || k == 22) {
			vrf.Stop() // not a negative number
		}
		files(statText("x", k, text), statm, nil, nil)
		same(stats(environment.Proc()), append(statWant(k, v), statmWant(-1, 0)...), "proc")
	} else {
		k := vrf.Choose("field", len(statmFields))
		if neg {
			vrf.Stop()
		}
		s := ""
		for i := range statmFields {
			if i > 0 {
				s += " "
			}
			if i == k {
				s += text
			} else {
				s += itoa(i + 1)
			}
		}
		files(statText("x", -1, ""), s+"\n", nil, nil)
		same(stats(environment.Proc()), append(statWant(-1, 0), statmWant(k, v)...), "proc")
	}
}

// largest tells the largest value field k of the stat file can have, and
// whether it can be negative.
func largest(k int) (text string, v float64, signed bool) {
	switch {
	case k >= 3 && k <= 7 || k == 37 || k == 38: // %d
		return "2147483647", 1<<31 - 1, true
	case k == 8 || k == 39 || k == 40: // %u
		return "4294967295", 1<<32 - 1, false
	case k >= 15 && k <= 20 || k == 23 || k == 43: // %ld
		return "9223372036854775807", 1<<63 - 1, true
	}
	return "18446744073709551615", 1<<64 - 1, false // %lu, %llu
}

// H_proc_large: each field of /proc with the largest and smallest values the
// system can report.
func H_proc_large() {
	quiet()
	k := 3 + vrf.Choose("field", len(procFields)-3)
	text, v, signed := largest(k)
	switch vrf.Choose("value", 3) {
	case 1:
		if !signed {
			vrf.Stop()
		}
		text, v = "-"+text, -v
	case 2:
		text, v = "1234567890", 1234567890
	}
	files(statText("x", k, text), statm, nil, nil)
	same(stats(environment.Proc()), append(statWant(k, v), statmWant(-1, 0)...), "proc")
	m := vrf.Choose("statm field", len(statmFields))
	s := ""
	for i := range statmFields {
		if i > 0 {
			s += " "
		}
		if i == m {
			s += "9223372036854775807"
		} else {
			s += itoa(i + 1)
		}
	}
	files(statText("x", -1, ""), s+"\n", nil, nil)
	same(stats(environment.Proc()), append(statWant(-1, 0), statmWant(m, 1<<63-1)...), "proc")
}

// H_proc_comm: any name of the command.
func H_proc_comm() {
	quiet()
	comm := vrf.String("comm", vrf.Bound("length of the command name", 3, 5))
	for i := 0; i < len(comm); i++ {
		vrf.Assume(vrf.And(comm[i] != 0, comm[i] != '\n', comm[i] < 0x80))
	}
	files(statText(comm, -1, ""), statm, nil, nil)
	same(stats(environment.Proc()), append(statWant(-1, 0), statmWant(-1, 0)...), "proc")
}

// H_proc_errors: what cannot be read is omitted.
func H_proc_errors() {
	quiet()
	var e1, e2 error
	if vrf.Choose("stat", 2) == 1 {
		e1 = errSys
	}
	if vrf.Choose("statm", 2) == 1 {
		e2 = errSys
	}
	files(statText("x", -1, ""), statm, e1, e2)
	var want []stat
	if e1 == nil {
		want = append(want, statWant(-1, 0)...)
	}
	if e2 == nil {
		want = append(want, statmWant(-1, 0)...)
	}
	same(stats(environment.Proc()), want, "proc")
}

// H_proc_any: whatever is read, nothing fails; a file is reported as a whole
// or not at all.
func H_proc_any() {
	quiet()
	junk := vrf.String("content", vrf.Bound("arbitrary bytes", 3, 4))
	for i := 0; i < len(junk); i++ {
		vrf.Assume(junk[i] < 0x80)
	}
	var text string
	full := statText("x", -1, "")
	switch vrf.Choose("place", 3) {
	case 0:
		text = junk
	case 1:
		text = full[:vrf.Choose("cut", 12)] + junk
	case 2:
		text = "17 (x)" + junk
	}
	which := vrf.Choose("file", 2)
	if which == 0 {
		files(text, statm, nil, nil)
	} else {
		files(full, text, nil, nil)
	}
	got := stats(environment.Proc())
	other := len(statmFields)
	mine := len(procFields) - 1
	if which == 1 {
		other, mine = mine, other
	}
	vrf.Assert(len(got) == other || len(got) == other+mine, "a malformed file is omitted")
}

// H_register: the environment is attached to the registry.
func H_register() {
	quiet()
	reg := monkit.NewRegistry()
	r := reg
	if vrf.Choose("default", 2) == 1 {
		r, reg = nil, monkit.Default
	}
	environment.Register(r)
	n := map[string]int{}
	reg.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if key.Measurement == "goroutines" || key.Measurement == "process" && field == "control" {
			n[key.Measurement]++
			vrf.Assert(key.Tags.Get("scope") == "github.com/spacemonkeygo/monkit/v3/environment", "the environment's statistics have their scope")
		}
	})
	vrf.Assert(n["goroutines"] == 1 && n["process"] == 1, "registering reports each source once")
}
