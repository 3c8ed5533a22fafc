// Package c04: meters never lose or invent events as time passes.
package c04

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

const keep = 24 // ticks retained in the sliding window

type bucket struct {
	n     int64
	start time.Time
}

// model: the retained window, oldest first, and the total before it.
type model struct {
	base int64
	win  [keep]bucket
}

func newModel(total int64) *model {
	m := &model{}
	m.reset(total)
	return m
}

func (m *model) reset(total int64) {
	m.base = total
	for i := range m.win {
		m.win[i] = bucket{0, vrf.ClockNow()}
	}
}

func (m *model) mark(n int64) { m.win[keep-1].n += n }

// tick: a tick in which something was marked moves the window on.
func (m *model) tick() {
	if m.win[keep-1].n == 0 {
		return
	}
	m.base += m.win[0].n
	for i := 0; i+1 < keep; i++ {
		m.win[i] = m.win[i+1]
	}
	m.win[keep-1] = bucket{0, vrf.ClockNow()}
}

func (m *model) window() (n int64) {
	for _, b := range m.win {
		n += b.n
	}
	return n
}

func (m *model) total() int64 { return m.base + m.window() }

func (m *model) rate() float64 {
	d := vrf.ClockNow().Sub(m.win[0].start)
	if d <= 0 {
		return 0
	}
	return float64(m.window()) / d.Seconds()
}

func tick(ms ...*model) {
	vrf.Tick()
	vrf.Settle()
	for _, m := range ms {
		m.tick()
	}
}

func (m *model) check(e *monkit.Meter) {
	vrf.Assert(hx.EqF(e.Total(), float64(m.total())), "Total is the set total plus everything marked")
}

func (m *model) checkRate(e *monkit.Meter) {
	vrf.Assert(hx.EqF(e.Rate(), m.rate()), "Rate is the window's amount per second since the window began")
}

func (m *model) stats(e *monkit.Meter, key monkit.SeriesKey) {
	ss := hx.Stats(e)
	vrf.Assert(len(ss) == 2, "exactly rate and total are reported")
	for _, s := range ss {
		vrf.Assert(s.Key == key, "reported under the meter's key")
	}
	hx.Want(ss, "total", float64(m.total()))
	hx.Want(ss, "rate", m.rate())
}

func advance() {
	vrf.AdvanceClock([]time.Duration{0, 10 * time.Minute, 1500 * time.Millisecond}[vrf.Choose("time passes", vrf.Bound("amounts of time", 2, 3))])
}

// H_total: every sequence of calls, ticks included; arbitrary 64-bit amounts.
func H_total() {
	vrf.FreezeClock(true)
	e := monkit.NewMeter(monkit.NewSeriesKey("m"))
	m := newModel(0)
	for i := vrf.Bound("calls", 4, 6); i > 0; i-- {
		switch vrf.Choose("op", 5) {
		case 0:
			n := vrf.Int("n")
			e.Mark(n)
			m.mark(int64(n))
		case 1:
			n := vrf.Int64("n64")
			e.Mark64(n)
			m.mark(n)
		case 2:
			t := vrf.Int64("total")
			e.SetTotal(t)
			m.base = t
		case 3:
			t := vrf.Int64("new total")
			e.Reset(t)
			m.reset(t)
		case 4:
			vrf.AdvanceClock(10 * time.Minute)
			tick(m)
		}
		m.check(e)
	}
}

// H_rate: the rate, with arbitrary amounts of time passing.
func H_rate() {
	vrf.FreezeClock(true)
	key := monkit.NewSeriesKey("m").WithTag("a", "b")
	e := monkit.NewMeter(key)
	m := newModel(0)
	for i := vrf.Bound("calls, rate", 3, 5); i > 0; i-- {
		switch vrf.Choose("op", 4) {
		case 0:
			n := int(vrf.Int16("n"))
			e.Mark(n)
			m.mark(int64(n))
		case 1:
			e.Reset(5)
			m.reset(5)
		case 2:
			advance()
			tick(m)
		case 3:
			vrf.AdvanceClock(3 * time.Second)
		}
	}
	m.checkRate(e)
	m.stats(e, key)
	m.stats(e, key)
}

// H_long: histories longer than the window.
func H_long() {
	vrf.FreezeClock(true)
	key := monkit.NewSeriesKey("m")
	e := monkit.NewMeter(key)
	vrf.Settle() // the ticker sleeps before time passes
	m := newModel(0)
	// (every fifth tick finds nothing marked, which keeps the window)
	n := []int{23, 28, 29, 31, 60, 27, 30, 75}[vrf.Choose("ticks", vrf.Bound("histories", 5, 8))]
	a, b := vrf.Int64("first"), vrf.Int64("second")
	for i := 0; i < n; i++ {
		switch {
		case i == 0:
			e.Mark64(a)
			m.mark(a)
		case i == 1:
			e.Mark64(b)
			m.mark(b)
		case i%5 != 0:
			e.Mark(i)
			m.mark(int64(i))
		}
		vrf.AdvanceClock(10 * time.Minute)
		tick(m)
	}
	m.check(e)
	m.stats(e, key)
	switch vrf.Choose("then", 3) {
	case 0:
		t := vrf.Int64("total")
		e.SetTotal(t)
		m.base = t
	case 1:
		t := vrf.Int64("new total")
		e.Reset(t)
		m.reset(t)
	}
	e.Mark(1)
	m.mark(1)
	m.check(e)
	vrf.AdvanceClock(time.Minute)
	m.stats(e, key)
}

// H_diff: a DiffMeter reports the difference of two meters.
func H_diff() {
	vrf.FreezeClock(true)
	e1, e2 := monkit.NewMeter(monkit.NewSeriesKey("a")), monkit.NewMeter(monkit.NewSeriesKey("b"))
	key := monkit.NewSeriesKey("d")
	d := monkit.NewDiffMeter(key, e1, e2)
	m1, m2 := newModel(0), newModel(0)
	for i := vrf.Bound("calls, diff", 3, 4); i > 0; i-- {
		switch vrf.Choose("op", 4) {
		case 0:
			n := int(vrf.Int16("n1"))
			e1.Mark(n)
			m1.mark(int64(n))
		case 1:
			n := int(vrf.Int16("n2"))
			e2.Mark(n)
			m2.mark(int64(n))
		case 2:
			e2.SetTotal(7)
			m2.base = 7
		case 3:
			vrf.AdvanceClock(10 * time.Minute)
			tick(m1, m2)
		}
	}
	vrf.AdvanceClock(time.Second)
	ss := hx.Stats(d)
	for _, s := range ss {
		vrf.Assert(s.Key == key, "reported under the diff meter's key")
	}
	hx.Want(ss, "total", float64(m1.total()-m2.total()))
	hx.Want(ss, "rate", m1.rate()-m2.rate())
	m1.check(e1)
	m2.check(e2)
}

// H_scope: meters and diff meters obtained from a scope.
func H_scope() {
	vrf.FreezeClock(true)
	s := monkit.NewRegistry().ScopeNamed("s")
	n1, n2 := vrf.Int("n1"), vrf.Int("n2")
	s.Meter("a").Mark(n1)
	s.Event("a")
	vrf.AdvanceClock(10 * time.Minute)
	tick()
	s.Meter("a").Mark(n2)
	vrf.Assert(hx.EqF(s.Meter("a").Total(), float64(int64(n1)+int64(n2)+1)), "every look-up marks the same meter")
	s.DiffMeter("d", s.Meter("a"), s.Meter("b"))
}

// H_ticking: marks, reads and ticks at the same time.
//
// vrf:preempt=2,3
func H_ticking() {
	vrf.FreezeClock(true)
	e := monkit.NewMeter(monkit.NewSeriesKey("m"))
	vrf.Settle()
	e.Mark(100)
	vrf.Tick()
	fs := []func(){
		func() { e.Mark(1) },
		func() {
			t := e.Total()
			vrf.Assert(t == 100 || t == 101 || t == 110 || t == 111, "a concurrent Total is that of some order of the calls")
		},
	}
	if vrf.Choose("third", 2) == 1 {
		fs = append(fs, func() { e.Mark64(10) })
	}
	vrf.Parallel(fs...)
	vrf.Settle()
	vrf.Tick()
	vrf.Settle()
	want := 101.0
	if len(fs) == 3 {
		want = 111
	}
	vrf.Assert(e.Total() == want, "no mark is lost")
}
