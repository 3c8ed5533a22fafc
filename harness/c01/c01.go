// Package c01: Counter value, high and low follow every call sequence.
package c01

import (
	"math"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

// model is the sequential meaning of a Counter.
type model struct {
	val, high, low int64
	any            bool
}

func (m *model) set(v int64) {
	m.val = v
	m.high = vrf.IteInt64(vrf.Or(!m.any, v > m.high), v, m.high)
	m.low = vrf.IteInt64(vrf.Or(!m.any, v < m.low), v, m.low)
	m.any = true
}

func (m *model) check(c *monkit.Counter) {
	cur, hi, lo := c.Current(), c.High(), c.Low()
	vrf.Assert(cur == m.val, "Current is the result of the calls")
	if m.any {
		vrf.Assert(vrf.And(hi == m.high, lo == m.low), "High and Low are the extremes of the values given since the last Reset")
	}
	vrf.Assert(vrf.And(c.Current() == cur, c.High() == hi, c.Low() == lo), "reading changes nothing")
}

func step(c *monkit.Counter, m *model) {
	switch vrf.Choose("op", 4) {
	case 0:
		v := vrf.Int64("set")
		former := c.Set(v)
		vrf.Assert(former == m.val, "Set returns the former value")
		m.set(v)
	case 1:
		v := vrf.Int64("inc")
		cur := c.Inc(v)
		m.set(m.val + v)
		vrf.Assert(cur == m.val, "Inc returns the new value")
	case 2:
		v := vrf.Int64("dec")
		cur := c.Dec(v)
		m.set(m.val - v)
		vrf.Assert(cur == m.val, "Dec returns the new value")
	case 3:
		v, lo, hi := c.Reset()
		vrf.Assert(v == m.val, "Reset returns the former value")
		if m.any {
			vrf.Assert(vrf.And(lo == m.low, hi == m.high), "Reset returns the former low and high")
		}
		*m = model{}
	}
}

func stats(c *monkit.Counter, m *model, key monkit.SeriesKey) {
	ss := hx.Stats(c)
	vrf.Assert(len(ss) == 3, "exactly high, low and value are reported")
	for _, s := range ss {
		vrf.Assert(s.Key == key, "values are reported under the counter's key")
	}
	if m.any {
		hx.Want(ss, "high", float64(m.high))
		hx.Want(ss, "low", float64(m.low))
	} else {
		hx.Want(ss, "high", math.NaN())
		hx.Want(ss, "low", math.NaN())
	}
	hx.Want(ss, "value", float64(m.val))
	vrf.Observe("value", m.val)
}

// H_sequence: every sequence of calls from construction on.
func H_sequence() {
	key := monkit.NewSeriesKey("c")
	c := monkit.NewCounter(key)
	var m model
	n := vrf.Bound("calls", 3, 4)
	for i := 0; i < n; i++ {
		step(c, &m)
		m.check(c)
	}
	stats(c, &m, key)
}

// H_anystate: one and two calls from every reachable state (three Sets reach
// every combination of value, high and low).
func H_anystate() {
	key := monkit.NewSeriesKey("c").WithTag("a", "b")
	c := monkit.NewCounter(key)
	var m model
	if vrf.Choose("empty", 2) == 1 {
		h, l, v := vrf.Int64("high"), vrf.Int64("low"), vrf.Int64("val")
		vrf.Assume(vrf.And(l <= v, v <= h))
		c.Set(h)
		c.Set(l)
		c.Set(v)
		m = model{v, h, l, true}
	}
	m.check(c)
	for i := vrf.Bound("calls from any state", 1, 2); i > 0; i-- {
		step(c, &m)
		m.check(c)
	}
	stats(c, &m, key)
	stats(c, &m, key)
	m.check(c)
}

// H_scope: a counter obtained from a scope behaves the same and keeps its state
// between look-ups.
func H_scope() {
	r := monkit.NewRegistry()
	s := r.ScopeNamed("pkg")
	var m model
	for i := 0; i < 2; i++ {
		step(s.Counter("c"), &m)
	}
	m.check(s.Counter("c"))
}
