// Package c05: every monitored call is accounted exactly once.
package c05

import (
	"context"
	"errors"
	"io"
	"strconv"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

// model of one function's statistics.
type model struct {
	cur, high   int64
	ok          int64
	errs        map[string]int64
	panics      int64
	okSum, fSum time.Duration
	okN, fN     int64
}

func newModel() *model { return &model{errs: map[string]int64{}} }

func (m *model) start() {
	m.cur++
	if m.cur > m.high {
		m.high = m.cur
	}
}

func (m *model) end(outcome int, d time.Duration) {
	m.cur--
	if outcome == 0 {
		m.ok++
		m.okN++
		m.okSum += d
		return
	}
	m.fN++
	m.fSum += d
	switch outcome {
	case 1:
		m.errs["EOF"]++
	case 2:
		m.errs["System Error"]++
	default:
		m.panics++
	}
}

func (m *model) nerrs() (n int64) {
	for _, c := range m.errs {
		n += c
	}
	return n
}

func (m *model) check(f *monkit.FuncStats) {
	vrf.Assert(f.Current() == m.cur, "Current is the number of calls running")
	vrf.Assert(f.Highwater() == m.high, "Highwater is the most calls that ran at once")
	vrf.Assert(f.Success() == m.ok, "Success")
	vrf.Assert(f.Panics() == m.panics, "Panics")
	es := f.Errors()
	for _, n := range []string{"EOF", "System Error"} {
		vrf.Assert(es[n] == m.errs[n], "the count of errors named "+n)
	}
	for n := range es {
		vrf.Assert(n == "EOF" || n == "System Error", "no other error is counted")
	}
	s, t := f.SuccessTimes(), f.FailureTimes()
	vrf.Assert(s.Count == m.okN, "one success time per success")
	vrf.Assert(t.Count == m.fN, "one failure time per failure")
	vrf.Assert(s.Sum == m.okSum, "success times are the durations of the successes")
	vrf.Assert(t.Sum == m.fSum, "failure times are the durations of the failures")
}

func (m *model) stats(f *monkit.FuncStats) {
	ss := hx.Stats(f)
	var key monkit.SeriesKey
	for _, s := range ss {
		if s.Field == "current" {
			key = s.Key
		}
	}
	one := func(field string, v int64) {
		n := 0
		for _, s := range ss {
			if s.Field == field && s.Key == key {
				n++
				vrf.Assert(s.Val == float64(v), "Stats reports the right "+field)
			}
		}
		vrf.Assert(n == 1, "Stats reports "+field+" once")
	}
	e := m.nerrs()
	one("current", m.cur)
	one("highwater", m.high)
	one("successes", m.ok)
	one("errors", e)
	one("panics", m.panics)
	one("failures", e+m.panics)
	one("total", m.ok+e+m.panics)
	for name, c := range m.errs {
		n := 0
		for _, s := range ss {
			if s.Field == "count" && s.Key.Tags.Get("error_name") == name {
				n++
				vrf.Assert(s.Val == float64(c), "Stats reports the count of each error name")
			}
		}
		vrf.Assert(n == 1, "Stats reports each error name once")
	}
	for _, kind := range []string{"success", "failure"} {
		want, n := m.okN, 0
		if kind == "failure" {
			want = m.fN
		}
		for _, s := range ss {
			if s.Field == "count" && s.Key.Tags.Get("kind") == kind {
				n++
				vrf.Assert(s.Key.Measurement == key.Measurement+"_times", "Stats reports the times under their own measurement")
				vrf.Assert(s.Val == float64(want), "Stats reports the number of "+kind+" times")
			}
		}
		vrf.Assert(n == 1, "Stats reports the "+kind+" times once")
	}
}

var errOther = errors.New("other")

func errOf(outcome int) error {
	switch outcome {
	case 1:
		return io.EOF
	case 2:
		return errOther
	}
	return nil
}

// call runs one call of the given outcome to its end. 3: panic, 4: panic with
// an error already set.
func call(begin func() func(*error), outcome int, during func()) {
	v := &struct{ n int }{outcome}
	var got error
	val, panicked := vrf.Try(func() {
		got = func() (err error) {
			defer begin()(&err)
			during()
			if outcome >= 3 {
				if outcome == 4 {
					err = io.EOF
				}
				panic(v)
			}
			return errOf(outcome)
		}()
	})
	vrf.Assert(panicked == (outcome >= 3), "a panic is raised again after it was counted, and no other")
	if panicked {
		vrf.Assert(val == any(v), "the panic keeps its value")
	} else {
		vrf.Assert(got == errOf(outcome), "the error is not swallowed or altered")
	}
}

func out(o int) int {
	if o == 4 {
		return 3
	}
	return o
}

// via: the ways to monitor a call.
func via(kind int) (*monkit.FuncStats, func() func(*error)) {
	switch kind {
	case 0:
		f := monkit.NewFuncStats(monkit.NewSeriesKey("f"))
		return f, func() func(*error) { return f.Observe() }
	case 1:
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		return &f.FuncStats, func() func(*error) {
			ctx := context.Background()
			return f.Task(&ctx)
		}
	case 2:
		s := monkit.NewRegistry().ScopeNamed("s")
		f := s.FuncNamed("f")
		return &f.FuncStats, func() func(*error) {
			ctx := context.Background()
			return s.TaskNamed("f")(&ctx)
		}
	case 3:
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		return &f.FuncStats, func() func(*error) { return f.ResetTrace(nil) }
	}
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	return &f.FuncStats, func() func(*error) {
		return f.RemoteTrace(nil, 7, monkit.NewTrace(9))
	}
}

// H_sequence: calls of every outcome one after the other, of any duration.
func H_sequence() {
	vrf.FreezeClock(true)
	f, begin := via(vrf.Choose("via", 5))
	m := newModel()
	for i := vrf.Bound("calls in a row", 2, 3); i > 0; i-- {
		o := vrf.Choose("outcome", 5)
		d := time.Duration(vrf.Int32("duration"))
		vrf.Assume(d >= 0)
		m.start()
		call(begin, o, func() {
			vrf.AdvanceClock(d)
			m.check(f)
		})
		m.end(out(o), d)
		m.check(f)
	}
}

// H_report: the report, after calls of every outcome.
func H_report() {
	vrf.FreezeClock(true)
	f, begin := via(vrf.Choose("via", 2))
	m := newModel()
	for i := vrf.Bound("calls before the report", 2, 3); i > 0; i-- {
		o := vrf.Choose("outcome", 4)
		m.start()
		call(begin, o, func() {
			vrf.AdvanceClock(time.Second)
			if i == 1 {
				m.stats(f)
			}
		})
		m.end(out(o), time.Second)
	}
	m.stats(f)
}

// H_nested: overlapping calls ended in any order, resets in between.
func H_nested() {
	vrf.FreezeClock(true)
	f := monkit.NewFuncStats(monkit.NewSeriesKey("f"))
	m := newModel()
	type open struct {
		end   func(*error)
		start time.Time
	}
	var calls []open
	for i := vrf.Bound("starts and ends", 4, 6); i > 0; i-- {
		op := vrf.Choose("op", 4)
		switch {
		case op == 0:
			calls = append(calls, open{f.Observe(), vrf.ClockNow()})
			m.start()
		case op == 3:
			if len(calls) == 0 {
				f.Reset()
				m = newModel()
			}
		case len(calls) > 0:
			k := vrf.Choose("which", len(calls))
			c := calls[k]
			calls = append(append([]open(nil), calls[:k]...), calls[k+1:]...)
			var err error
			if op == 1 {
				err = io.EOF
			}
			if op == 2 && vrf.Choose("nil pointer", 2) == 1 {
				c.end(nil)
			} else {
				c.end(&err)
			}
			if op == 1 {
				m.end(1, vrf.ClockNow().Sub(c.start))
				vrf.Assert(err == io.EOF, "the error is left as it is")
			} else {
				m.end(0, vrf.ClockNow().Sub(c.start))
				vrf.Assert(err == nil, "the error is left as it is")
			}
		}
		vrf.AdvanceClock(time.Second)
		m.check(f)
	}
}

// H_concurrent: calls of every outcome at the same time.
//
// vrf:preempt=2,3
func H_concurrent() {
	vrf.FreezeClock(true)
	f, begin := via(vrf.Choose("via", 2))
	n := vrf.Bound("calls at once", 2, 3)
	reporter := vrf.Choose("reporter", 2) == 1
	if reporter {
		n--
	}
	m := newModel()
	var fs []func()
	for i := 0; i < n; i++ {
		o := vrf.Choose("outcome", 3)
		if o == 2 {
			o = 3
		}
		m.end(out(o), 0)
		fs = append(fs, func() {
			call(begin, o, func() {
				c := f.Current()
				vrf.Assert(c >= 1 && c <= int64(n), "Current counts the calls running")
				vrf.Assert(f.Highwater() >= 1, "Highwater counts this call")
			})
		})
	}
	report := func() {
		c, h := f.Current(), f.Highwater()
		vrf.Assert(c >= 0 && c <= int64(n), "Current is never negative")
		vrf.Assert(h <= int64(n), "Highwater never exceeds what ran at once")
		var tot, sub float64
		for _, s := range hx.Stats(f) {
			switch s.Field {
			case "total":
				tot = s.Val
			case "successes", "failures":
				sub += s.Val
			}
		}
		vrf.Assert(tot == sub, "total = successes + failures in every report")
	}
	if reporter {
		fs = append(fs, report)
	}
	vrf.Parallel(fs...)
	m.cur = 0
	m.high = f.Highwater()
	vrf.Assert(m.high >= 1 && m.high <= int64(n), "Highwater is between 1 and the number of calls")
	m.check(f)
}

// H_highwater: calls that are all running at once raise the highwater to their
// number, whatever the order.
//
// vrf:preempt=3,4
func H_highwater() {
	vrf.FreezeClock(true)
	f := monkit.NewFuncStats(monkit.NewSeriesKey("f"))
	n := vrf.Bound("calls all at once", 2, 3)
	ends := make([]func(*error), n)
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() { ends[i] = f.Observe() })
	}
	vrf.Parallel(fs...)
	vrf.Assert(f.Current() == int64(n), "Current is the number of calls running")
	vrf.Assert(f.Highwater() == int64(n), "Highwater is the most calls that ran at once")
	fs = nil
	for i := 0; i < n; i++ {
		fs = append(fs, func() { ends[i](nil) })
	}
	vrf.Parallel(fs...)
	vrf.Assert(f.Current() == 0, "Current returns to 0")
	vrf.Assert(f.Highwater() == int64(n), "Highwater stays")
	vrf.Assert(f.Success() == int64(n), "every call is counted")
}

// H_parents: the functions that have called a function, after calls from any
// of them, without a caller and from afar.
func H_parents() {
	s := monkit.NewRegistry().ScopeNamed("s")
	f := s.FuncNamed("f")
	callers := []*monkit.Func{nil, s.FuncNamed("p"), s.FuncNamed("q"), f}
	want := map[*monkit.Func]bool{}
	check := func() {
		got := map[*monkit.Func]int{}
		f.Parents(func(x *monkit.Func) { got[x]++ })
		vrf.Assert(len(got) == len(want), "every caller so far is listed and nothing else")
		for x := range want {
			vrf.Assert(got[x] == 1, "every caller so far is listed once")
		}
	}
	check()
	n := vrf.Bound("calls", 4, 5)
	for i := 0; i < n; i++ {
		by := callers[vrf.Choose("caller", len(callers))]
		ctx := context.Background()
		exit := func(*error) {}
		if by != nil {
			exit = by.Task(&ctx)
			if by == f {
				want[nil] = true
			}
		}
		var err error
		switch vrf.Choose("kind", 3) {
		case 0:
			f.Task(&ctx)(&err)
			want[by] = true
		case 1:
			f.ResetTrace(&ctx)(&err)
			want[nil] = true
		case 2:
			f.RemoteTrace(&ctx, 3, monkit.NewTrace(4))(&err)
			want[nil] = true
		}
		exit(nil)
		check()
	}
}

// H_many: many calls at once, from many functions, with many error names.
func H_many() {
	s := monkit.NewRegistry().ScopeNamed("s")
	f := s.FuncNamed("f")
	n := vrf.Bound("many calls", 60, 200)
	first := vrf.Choose("first to end", n)
	var exits []func(*error)
	for i := 0; i < n; i++ {
		ctx := context.Background()
		defer s.FuncNamed("p" + strconv.Itoa(i)).Task(&ctx)(nil)
		exits = append(exits, f.Task(&ctx))
	}
	vrf.Assert(f.Current() == int64(n) && f.Highwater() == int64(n), "every call is running")
	want := map[string]int64{}
	ok := int64(0)
	for i := 0; i < n; i++ {
		j := (first + i) % n
		var err error
		if j%3 == 0 {
			ok++
		} else {
			err = myErr("e" + strconv.Itoa(j/2))
			want["e"+strconv.Itoa(j/2)]++
		}
		exits[j](&err)
		vrf.Assert(f.Current() == int64(n-i-1), "Current is the number of running calls")
	}
	vrf.Assert(f.Highwater() == int64(n) && f.Success() == ok && f.Panics() == 0, "each call is counted once")
	got := f.Errors()
	vrf.Assert(len(got) == len(want), "each error name is counted and nothing else")
	for k, v := range want {
		vrf.Assert(got[k] == v, "each error is counted once under its name")
	}
	vrf.Assert(f.SuccessTimes().Count == ok && f.FailureTimes().Count == int64(n)-ok, "each duration is counted once")
	parents := map[*monkit.Func]int{}
	f.Parents(func(p *monkit.Func) { parents[p]++ })
	vrf.Assert(len(parents) == n, "every caller is listed")
	for _, c := range parents {
		vrf.Assert(c == 1, "every caller is listed once")
	}
}

type myErr string

func (e myErr) Error() string        { return "mine" }
func (e myErr) Name() (string, bool) { return string(e), true }

// H_answers: what was answered before a call does not change with the call, and
// what is done with an answer does not change the next.
func H_answers() {
	vrf.FreezeClock(true)
	f, begin := via(vrf.Choose("via", 2))
	m := newModel()
	for i := vrf.Bound("calls with answers between", 3, 4); i > 0; i-- {
		es, s, t := f.Errors(), f.SuccessTimes(), f.FailureTimes()
		was := *m
		was.errs = map[string]int64{}
		for name, n := range m.errs {
			was.errs[name] = n
		}
		o := vrf.Choose("outcome", 4)
		m.start()
		call(begin, o, func() { vrf.AdvanceClock(time.Second) })
		m.end(out(o), time.Second)
		m.check(f)
		vrf.Assert(len(es) == len(was.errs), "an answer given before does not change")
		for name, n := range es {
			vrf.Assert(n == was.errs[name], "an answer given before does not change")
		}
		vrf.Assert(s.Count == was.okN && t.Count == was.fN && s.Sum == was.okSum && t.Sum == was.fSum, "times given before do not change")
		es["mine"] = 1
		s.Reset()
		t.Insert(time.Second)
		m.check(f)
	}
}
