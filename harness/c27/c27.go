// Package c27: timers and bool values record each observation exactly once.
package c27

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

type model struct {
	count             int64
	sum               time.Duration
	low, high, recent time.Duration
}

func (m *model) add(d time.Duration) {
	if m.count == 0 {
		m.low, m.high = d, d
	}
	m.low = time.Duration(vrf.IteInt64(d < m.low, int64(d), int64(m.low)))
	m.high = time.Duration(vrf.IteInt64(d > m.high, int64(d), int64(m.high)))
	m.count++
	m.sum += d
	m.recent = d
}

func (m *model) check(t *monkit.Timer) {
	v := t.Values()
	vrf.Assert(v.Count == m.count, "a timer has one duration per timer that ran")
	vrf.Assert(v.Sum == m.sum, "a timer has exactly the elapsed times")
	if m.count > 0 {
		vrf.Assert(vrf.And(v.Low == m.low, v.High == m.high, v.Recent == m.recent), "a timer has exactly the elapsed times")
	}
	ss := hx.Stats(t)
	hx.Want(ss, "count", float64(m.count))
	if m.count > 0 {
		hx.Want(ss, "sum", m.sum.Seconds())
		hx.Want(ss, "recent", m.recent.Seconds())
		hx.Want(ss, "min", m.low.Seconds())
		hx.Want(ss, "max", m.high.Seconds())
	}
}

// H_timer: every history of starts, stops and readings of the clock.
func H_timer() {
	vrf.FreezeClock(true)
	var t *monkit.Timer
	if vrf.Choose("made by", 2) == 1 {
		t = monkit.NewRegistry().ScopeNamed("s").Timer("t")
	} else {
		t = monkit.NewTimer(monkit.NewSeriesKey("t"))
	}
	m := &model{}
	type run struct {
		r       *monkit.RunningTimer
		at      time.Duration
		stopped bool
	}
	var runs []*run
	now := time.Duration(0)
	n := vrf.Bound("steps", 6, 7)
	for i := 0; i < n; i++ {
		switch vrf.Choose("step", 4) {
		case 0:
			if len(runs) == 2 {
				vrf.Stop()
			}
			runs = append(runs, &run{r: t.Start(), at: now})
		case 1, 2:
			k := vrf.Choose("which", 2)
			if k >= len(runs) {
				vrf.Stop()
			}
			r := runs[k]
			if vrf.Choose("stop", 2) == 1 {
				d := r.r.Stop()
				vrf.Assert(d == now-r.at, "Stop returns the time since the start")
				if !r.stopped {
					m.add(now - r.at)
				}
				r.stopped = true
			} else {
				vrf.Assert(r.r.Elapsed() == now-r.at, "Elapsed returns the time since the start")
			}
		case 3:
			d := time.Duration(vrf.IntRange("advance", 0, 1<<20))
			vrf.AdvanceClock(d)
			now += d
		}
	}
	m.check(t)
}

// H_timer_wide: one timer over any time.
func H_timer_wide() {
	vrf.FreezeClock(true)
	t := monkit.NewTimer(monkit.NewSeriesKey("t"))
	r := t.Start()
	d := time.Duration(vrf.Int64("elapsed"))
	vrf.Assume(vrf.And(d >= 0, d < 1<<62))
	vrf.AdvanceClock(d)
	got := r.Stop()
	vrf.Assert(got == d, "Stop returns the time since the start")
	v := t.Values()
	vrf.Assert(vrf.And(v.Count == 1, v.Sum == d, v.Low == d, v.High == d, v.Recent == d), "a timer has exactly the elapsed time")
	vrf.AdvanceClock(5)
	vrf.Assert(r.Stop() == d+5, "Stop returns the time since the start")
	v = t.Values()
	vrf.Assert(vrf.And(v.Count == 1, v.Sum == d), "a timer that was stopped records nothing more")
}

// H_timer_concurrent: timers stopped by several goroutines.
// vrf:preempt=3,4
func H_timer_concurrent() {
	vrf.NoSched(true)
	vrf.SymClock(8)
	t := monkit.NewTimer(monkit.NewSeriesKey("t"))
	r := t.Start()
	two := vrf.Choose("timers", 2) == 1
	r2 := r
	if two {
		r2 = t.Start()
	}
	vrf.Races(true)
	vrf.NoSched(false)
	var a, b, c time.Duration
	var mid *monkit.DurationDist
	vrf.Parallel(func() { a = r.Stop() }, func() { b = r2.Stop() }, func() {
		mid = t.Values()
		if vrf.Thorough() {
			c = r.Stop()
		}
	})
	vrf.NoSched(true)
	vrf.Races(false)
	v := t.Values()
	third := vrf.And(vrf.Thorough(), v.Sum == c)
	if two {
		vrf.Assert(v.Count == 2, "each timer is recorded once")
		vrf.Assert(vrf.Or(v.Sum == a+b, vrf.And(vrf.Thorough(), v.Sum == c+b)), "the recorded times are those returned")
	} else {
		vrf.Assert(v.Count == 1, "each timer is recorded once")
		vrf.Assert(vrf.Or(v.Sum == a, v.Sum == b, third), "the recorded time is one of those returned")
	}
	vrf.Assert(mid.Count <= v.Count && mid.Sum <= v.Sum, "a timer is read consistently")
}

// H_bool: every sequence of observations.
func H_bool() {
	var b *monkit.BoolVal
	if vrf.Choose("made by", 2) == 1 {
		b = monkit.NewRegistry().ScopeNamed("s").BoolVal("b")
	} else {
		b = monkit.NewBoolVal(monkit.NewSeriesKey("b"))
	}
	n := vrf.Choose("observations", vrf.Bound("observations", 9, 13))
	trues, falses, recent := int64(0), int64(0), int64(0)
	check := func() {
		ss := hx.Stats(b)
		hx.Want(ss, "true", float64(trues))
		hx.Want(ss, "false", float64(falses))
		hx.Want(ss, "disposition", float64(trues-falses))
		hx.Want(ss, "recent", float64(recent))
		vrf.Assert(len(ss) == 4, "a bool value has four statistics")
	}
	for i := 0; i < n; i++ {
		v := vrf.Bool("value")
		b.Observe(v)
		if v {
			trues++
			recent = 1
		} else {
			falses++
			recent = 0
		}
	}
	check()
	check()
}

// H_bool_concurrent: observations of several goroutines.
// vrf:preempt=3,4
func H_bool_concurrent() {
	vrf.NoSched(true)
	b := monkit.NewBoolVal(monkit.NewSeriesKey("b"))
	var v [3]bool
	for i := range v {
		v[i] = vrf.Choose("value", 2) == 1
	}
	vrf.Races(true)
	vrf.NoSched(false)
	var mid []hx.Stat
	vrf.Parallel(func() { b.Observe(v[0]) }, func() { b.Observe(v[1]); b.Observe(v[2]) }, func() { mid = hx.Stats(b) })
	vrf.NoSched(true)
	vrf.Races(false)
	trues := 0
	for _, x := range v {
		if x {
			trues++
		}
	}
	ss := hx.Stats(b)
	hx.Want(ss, "true", float64(trues))
	hx.Want(ss, "false", float64(3-trues))
	hx.Want(ss, "disposition", float64(2*trues-3))
	r, _ := hx.Get(ss, "recent")
	f := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	vrf.Assert(r == f(v[0]) || r == f(v[2]) || r == f(v[1]), "recent is an observed value")
	t, _ := hx.Get(mid, "true")
	fl, _ := hx.Get(mid, "false")
	d, _ := hx.Get(mid, "disposition")
	vrf.Assert(t <= float64(trues) && fl <= float64(3-trues) && d == t-fl, "a bool value is read consistently")
}
