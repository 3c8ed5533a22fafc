// Package c02: distribution aggregates are exact for every observed sequence.
package c02

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

// ---- int64

type imodel struct{ count, sum, low, high, recent int64 }

func (m *imodel) add(v int64) {
	m.low = vrf.IteInt64(vrf.Or(m.count == 0, v < m.low), v, m.low)
	m.high = vrf.IteInt64(vrf.Or(m.count == 0, v > m.high), v, m.high)
	m.recent = v
	m.sum += v
	m.count++
}

// addB is add with branches, which keeps the terms free of choices.
func (m *imodel) addB(v int64) {
	if m.count == 0 || v < m.low {
		m.low = v
	}
	if m.count == 0 || v > m.high {
		m.high = v
	}
	m.recent = v
	m.sum += v
	m.count++
}

func (m *imodel) check(d *monkit.IntDist) {
	vrf.Assert(d.Count == m.count, "Count")
	vrf.Assert(d.Sum == m.sum, "Sum")
	vrf.Assert(d.Low == m.low, "Low")
	vrf.Assert(d.High == m.high, "High")
	vrf.Assert(d.Recent == m.recent, "Recent")
	if m.count == 0 {
		vrf.Assert(d.FullAverage() == 0, "FullAverage of nothing is 0")
	} else {
		vrf.Assert(d.FullAverage() == m.sum/m.count, "FullAverage")
	}
}

func (m *imodel) stats(d *monkit.IntDist, key monkit.SeriesKey) {
	wantStats(hx.Stats(d), key, m.count, float64(m.sum), float64(m.low), float64(m.high), float64(m.recent))
}

func wantStats(ss []hx.Stat, key monkit.SeriesKey, count int64, sum, low, high, recent float64) {
	for _, s := range ss {
		vrf.Assert(s.Key == key, "reported under the distribution's key")
	}
	hx.Want(ss, "count", float64(count))
	if count > 0 {
		hx.Want(ss, "sum", sum)
		hx.Want(ss, "min", low)
		hx.Want(ss, "max", high)
		hx.Want(ss, "recent", recent)
	} else {
		_, n1 := hx.Get(ss, "sum")
		_, n2 := hx.Get(ss, "min")
		_, n3 := hx.Get(ss, "max")
		vrf.Assert(n1+n2+n3 == 0, "nothing but the count is reported while empty")
	}
}

// H_int: sequences of inserts and resets of arbitrary 64-bit values.
func H_int() {
	d := monkit.NewIntDist(monkit.NewSeriesKey("i"))
	var m imodel
	for i := vrf.Bound("int dist inserts and resets", 4, 6); i > 0; i-- {
		if vrf.Choose("op", 2) == 0 {
			v := vrf.Int64("v")
			d.Insert(v)
			m.add(v)
		} else {
			d.Reset()
			m = imodel{}
		}
		m.check(d)
	}
	vrf.Observe("sum", d.Sum)
	vrf.Observe("low", d.Low)
}

// H_int_query: the same with quantile queries in between and the report
// (16-bit values: sorting compares their float32 form).
func H_int_query() {
	key := monkit.NewSeriesKey("i")
	d := monkit.NewIntDist(key)
	var m imodel
	for i := vrf.Bound("int dist calls", 4, 5); i > 0; i-- {
		switch vrf.Choose("op", 3) {
		case 0:
			v := int64(vrf.Int16("v"))
			d.Insert(v)
			m.add(v)
		case 1:
			d.Query(0)
			d.ReservoirAverage()
		case 2:
			d.Reset()
			m = imodel{}
		}
		m.check(d)
	}
	m.stats(d, key)
	vrf.Observe("sum", d.Sum)
}

// H_int_copy: a copy has the same aggregates and is independent.
func H_int_copy() {
	key := monkit.NewSeriesKey("i")
	d := monkit.NewIntDist(key)
	var m imodel
	for i := vrf.Choose("n", 3); i > 0; i-- {
		v := int64(vrf.Int16("v"))
		d.Insert(v)
		m.add(v)
	}
	c := d.Copy()
	mc := m
	mc.check(c)
	for i := 0; i < 2; i++ {
		v := int64(vrf.Int16("w"))
		switch vrf.Choose("op", 4) {
		case 0:
			d.Insert(v)
			m.add(v)
		case 1:
			c.Insert(v)
			mc.add(v)
		case 2:
			d.Reset()
			m = imodel{}
		case 3:
			c.Reset()
			mc = imodel{}
		}
		m.check(d)
		mc.check(c)
	}
	mc.stats(c, key)
}

// H_int_long: exactness beyond the size of the reservoir, with quantile
// queries in between.
func H_int_long() {
	key := monkit.NewSeriesKey("i")
	d := monkit.NewIntDist(key)
	var m imodel
	pre := []int{62, 63, 64, 70, 130, 1030}[vrf.Choose("values before", vrf.Bound("lengths before", 4, 6))]
	for i := 0; i < pre; i++ {
		v := int64(i*37%101 - 50)
		d.Insert(v)
		m.add(v)
	}
	for i := 0; i < 3; i++ {
		if i == 1 && vrf.Choose("query", 2) == 1 {
			d.Query(0)
		}
		v := vrf.Int64("v")
		if i == 0 {
			v = 7
		}
		d.Insert(v)
		m.add(v)
		m.check(d)
	}
}

// ---- time.Duration

type dmodel struct{ count, sum, low, high, recent int64 }

func (m *dmodel) add(v time.Duration) { (*imodel)(m).add(int64(v)) }

func (m *dmodel) check(d *monkit.DurationDist) {
	vrf.Assert(d.Count == m.count, "Count")
	vrf.Assert(d.Sum == time.Duration(m.sum), "Sum")
	vrf.Assert(d.Low == time.Duration(m.low), "Low")
	vrf.Assert(d.High == time.Duration(m.high), "High")
	vrf.Assert(d.Recent == time.Duration(m.recent), "Recent")
	if m.count == 0 {
		vrf.Assert(d.FullAverage() == 0, "FullAverage of nothing is 0")
	} else {
		vrf.Assert(d.FullAverage() == time.Duration(m.sum/m.count), "FullAverage")
	}
}

// H_duration: the same for durations, reported in seconds.
func H_duration() {
	d := monkit.NewDurationDist(monkit.NewSeriesKey("d"))
	var m dmodel
	for i := vrf.Bound("duration dist calls", 4, 5); i > 0; i-- {
		switch vrf.Choose("op", 4) {
		case 0:
			v := time.Duration(vrf.Int64("v"))
			d.Insert(v)
			m.add(v)
		case 1:
			d.ReservoirAverage()
		case 2:
			d.Reset()
			m = dmodel{}
		case 3:
			c := d.Copy()
			d.Insert(5)
			d = c
		}
		m.check(d)
	}
}

func sec(v int64) float64 { return time.Duration(v).Seconds() }

// H_duration_query: with queries and the report; 16-bit values.
func H_duration_query() {
	key := monkit.NewSeriesKey("d")
	d := monkit.NewDurationDist(key)
	var m dmodel
	for i := vrf.Bound("duration dist calls with report", 3, 4); i > 0; i-- {
		switch vrf.Choose("op", 3) {
		case 0:
			v := time.Duration(vrf.Int16("v"))
			d.Insert(v)
			(*imodel)(&m).addB(int64(v))
		case 1:
			d.Query(0)
		case 2:
			d.Reset()
			m = dmodel{}
		}
		m.check(d)
	}
	wantStats(hx.Stats(d), key, m.count, sec(m.sum), sec(m.low), sec(m.high), sec(m.recent))
}

// H_duration_long crosses the size of the reservoir.
func H_duration_long() {
	d := monkit.NewDurationDist(monkit.NewSeriesKey("d"))
	var m dmodel
	pre := []int{63, 64, 66}[vrf.Choose("values before", 3)]
	for i := 0; i < pre; i++ {
		v := time.Duration(i * 37 % 101)
		d.Insert(v)
		m.add(v)
	}
	for i := 0; i < 3; i++ {
		v := time.Duration(vrf.Int32("v"))
		d.Insert(v)
		m.add(v)
		m.check(d)
	}
}

// ---- float64

type fmodel struct {
	count                  int64
	sum, low, high, recent float64
}

func (m *fmodel) add(v float64) {
	m.low = vrf.IteFloat64(vrf.Or(m.count == 0, v < m.low), v, m.low)
	m.high = vrf.IteFloat64(vrf.Or(m.count == 0, v > m.high), v, m.high)
	m.recent = v
	m.sum += v
	m.count++
}

func (m *fmodel) check(d *monkit.FloatDist) {
	vrf.Assert(d.Count == m.count, "Count")
	vrf.Assert(hx.EqF(d.Sum, m.sum), "Sum")
	vrf.Assert(d.Low == m.low, "Low")
	vrf.Assert(d.High == m.high, "High")
	vrf.Assert(d.Recent == m.recent, "Recent")
	if m.count == 0 {
		vrf.Assert(d.FullAverage() == 0, "FullAverage of nothing is 0")
	} else {
		vrf.Assert(hx.EqF(d.FullAverage(), m.sum/float64(m.count)), "FullAverage")
	}
}

func anyFloat() float64 {
	v := vrf.Float64("v")
	vrf.Assume(v == v)
	return v
}

// H_float_wide: inserts and resets of arbitrary float64 values (not NaN).
func H_float_wide() {
	d := monkit.NewFloatDist(monkit.NewSeriesKey("f"))
	var m fmodel
	for i := vrf.Bound("float dist inserts and resets", 3, 4); i > 0; i-- {
		if vrf.Choose("op", 2) == 0 {
			v := anyFloat()
			d.Insert(v)
			m.add(v)
		} else {
			d.Reset()
			m = fmodel{}
		}
		m.check(d)
	}
}

// H_float: with queries, copies and the report, for 16-bit integral values
// (H_float_wide has all float64 values, without queries).
func H_float() {
	key := monkit.NewSeriesKey("f")
	d := monkit.NewFloatDist(key)
	var m fmodel
	for i := vrf.Bound("float dist calls", 3, 4); i > 0; i-- {
		switch vrf.Choose("op", 4) {
		case 0:
			v := float64(vrf.Int16("v"))
			d.Insert(v)
			m.add(v)
		case 1:
			d.Query(0)
		case 2:
			d.Reset()
			m = fmodel{}
		case 3:
			c := d.Copy()
			d.Insert(5)
			d = c
		}
		m.check(d)
	}
	wantStats(hx.Stats(d), key, m.count, m.sum, m.low, m.high, m.recent)
}

// H_float_long crosses the size of the reservoir.
func H_float_long() {
	d := monkit.NewFloatDist(monkit.NewSeriesKey("f"))
	var m fmodel
	pre := []int{63, 64, 66}[vrf.Choose("values before", 3)]
	for i := 0; i < pre; i++ {
		v := float64(i*37%101) / 4
		d.Insert(v)
		m.add(v)
	}
	for i := 0; i < 2; i++ {
		v := anyFloat()
		d.Insert(v)
		m.add(v)
		m.check(d)
	}
}

// H_vals: IntVal, FloatVal and DurationVal observe into such distributions.
func H_vals() {
	key := monkit.NewSeriesKey("v")
	iv, fv, dv := monkit.NewIntVal(key), monkit.NewFloatVal(key), monkit.NewDurationVal(key)
	var im imodel
	var dm dmodel
	var fm fmodel
	n := vrf.Choose("n", 3)
	for i := 0; i < n; i++ {
		a, b, c := int64(vrf.Int16("a")), time.Duration(vrf.Int16("b")), float64(vrf.Int16("c"))
		iv.Observe(a)
		dv.Observe(b)
		fv.Observe(c)
		im.add(a)
		(*imodel)(&dm).addB(int64(b))
		fm.add(c)
	}
	im.stats2(hx.Stats(iv), key)
	wantStats(hx.Stats(fv), key, fm.count, fm.sum, fm.low, fm.high, fm.recent)
	wantStats(hx.Stats(dv), key, dm.count, sec(dm.sum), sec(dm.low), sec(dm.high), sec(dm.recent))
}

func (m *imodel) stats2(ss []hx.Stat, key monkit.SeriesKey) {
	wantStats(ss, key, m.count, float64(m.sum), float64(m.low), float64(m.high), float64(m.recent))
}

// wide are values that float32 does not hold exactly.
var wideFloats = []float64{0.1, -1e-310, 16777217, 1e39, -0.3}
var wideInts = []int64{1<<53 + 1, -(1 << 62) - 3, 16777217, 7}

// H_wide_query: quantile queries, averages and reports leave the aggregates of
// values beyond float32's precision alone.
func H_wide_query() {
	key := monkit.NewSeriesKey("w")
	fd, id, dd := monkit.NewFloatDist(key), monkit.NewIntDist(key), monkit.NewDurationDist(key)
	var fm fmodel
	var im imodel
	var dm dmodel
	kind := vrf.Choose("kind", 3)
	for i := vrf.Bound("wide dist calls", 4, 5); i > 0; i-- {
		switch vrf.Choose("op", 2) {
		case 0:
			n := vrf.Choose("value", len(wideInts))
			switch kind {
			case 0:
				v := wideFloats[n]
				fd.Insert(v)
				fm.add(v)
			case 1:
				v := wideInts[n]
				id.Insert(v)
				im.addB(v)
			case 2:
				v := time.Duration(wideInts[n])
				dd.Insert(v)
				(*imodel)(&dm).addB(int64(v))
			}
		case 1:
			switch kind {
			case 0:
				fd.Query(0.5)
				fd.ReservoirAverage()
				hx.Stats(fd)
			case 1:
				id.Query(0.5)
				id.ReservoirAverage()
				hx.Stats(id)
			case 2:
				dd.Query(0.5)
				dd.ReservoirAverage()
				hx.Stats(dd)
			}
		}
		fm.check(fd)
		im.check(id)
		dm.check(dd)
	}
	switch kind {
	case 0:
		wantStats(hx.Stats(fd), key, fm.count, fm.sum, fm.low, fm.high, fm.recent)
	case 1:
		im.stats(id, key)
	case 2:
		wantStats(hx.Stats(dd), key, dm.count, sec(dm.sum), sec(dm.low), sec(dm.high), sec(dm.recent))
	}
}
