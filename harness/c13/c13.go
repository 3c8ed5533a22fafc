// Package c13: the delta transformer reports the exact change of every total.
package c13

import (
	"github.com/spacemonkeygo/monkit/v3"
	"strconv"

	"vharness/hx"
	"vharness/vrf"
)

type in struct {
	m, tag string // series
	also   string // another tag of the series
	field  string
	v      float64
}

func (x in) key() monkit.SeriesKey {
	k := monkit.NewSeriesKey(x.m)
	if x.tag != "" {
		k = k.WithTag("k", x.tag)
	}
	if x.also != "" {
		k = k.WithTag(x.also, "s")
	}
	return k
}

// feed sends the values through cb, which collects into out.
type sink struct{ out []hx.Stat }

func (s *sink) cb(key monkit.SeriesKey, field string, val float64) {
	s.out = append(s.out, hx.Stat{Key: key, Field: field, Val: val})
}

type model struct {
	seen []in
}

// next is the expected output for x.
func (m *model) next(x in) (out []hx.Stat) {
	out = append(out, hx.Stat{Key: x.key(), Field: x.field, Val: x.v})
	if x.field != "total" {
		return out
	}
	for i := len(m.seen) - 1; i >= 0; i-- {
		o := m.seen[i]
		if o.m == x.m && o.tag == x.tag && o.also == x.also {
			out = append(out, hx.Stat{Key: x.key(), Field: "delta", Val: x.v - o.v})
			break
		}
	}
	m.seen = append(m.seen, x)
	return out
}

func same(got, want []hx.Stat) {
	vrf.Assert(len(got) == len(want), "exactly the values and the deltas are reported")
	for i := range got {
		vrf.Assert(vrf.EqStr(got[i].Field, want[i].Field), "fields are passed on, deltas follow their total")
		vrf.Assert(vrf.EqStr(got[i].Key.String(), want[i].Key.String()), "the series is passed on")
		vrf.Assert(hx.EqF(got[i].Val, want[i].Val), "the value, or the exact change of the total")
	}
}

// H_history: every sequence of reports over three series, any values.
func H_history() {
	n := vrf.Bound("reports", 4, 5)
	dt := monkit.NewDeltaTransformer()
	var s sink
	f := dt.Transform(s.cb)
	var m model
	var want []hx.Stat
	for i := 0; i < n; i++ {
		x := in{v: vrf.Float64("v")}
		switch vrf.Choose("series", 3) {
		case 0:
			x.m = "a"
		case 1:
			x.m = "b"
		case 2:
			x.m, x.tag = "a", "t"
		}
		x.field = []string{"total", "rate", "delta"}[vrf.Choose("field", 3)]
		if vrf.Choose("transform again", 2) == 1 {
			f = dt.Transform(s.cb)
		}
		f(x.key(), x.field, x.v)
		want = append(want, m.next(x)...)
	}
	same(s.out, want)
}

// H_long: one series, a longer history.
func H_long() {
	n := vrf.Bound("reports", 6, 12)
	dt := monkit.NewDeltaTransformer()
	var s sink
	f := dt.Transform(s.cb)
	var m model
	var want []hx.Stat
	for i := 0; i < n; i++ {
		x := in{m: "a", field: "total", v: vrf.Float64("v")}
		f(x.key(), x.field, x.v)
		want = append(want, m.next(x)...)
	}
	same(s.out, want)
}

// H_fields: any field name of up to 6 bytes: only total has deltas.
func H_fields() {
	dt := monkit.NewDeltaTransformer()
	var s sink
	f := dt.Transform(s.cb)
	var m model
	var want []hx.Stat
	field := vrf.String("field", vrf.Bound("length", 6, 7))
	for i := 0; i < 2; i++ {
		x := in{m: "a", field: field, v: vrf.Float64("v")}
		f(x.key(), x.field, x.v)
		want = append(want, m.next(x)...)
	}
	same(s.out, want)
}

// H_series: any two series without backslashes.
func H_series() {
	dt := monkit.NewDeltaTransformer()
	var s sink
	f := dt.Transform(s.cb)
	var m model
	var want []hx.Stat
	l := vrf.Bound("length", 2, 3)
	any := func() in {
		x := in{m: vrf.String("m", l), tag: vrf.String("tag", l), field: "total", v: vrf.Float64("v")}
		for _, t := range []string{x.m, x.tag} {
			for i := 0; i < len(t); i++ {
				vrf.Assume(t[i] != '\\')
			}
		}
		return x
	}
	for i := 0; i < 2; i++ {
		x := any()
		f(x.key(), x.field, x.v)
		want = append(want, m.next(x)...)
	}
	same(s.out, want)
}

// H_tags: series that differ in one tag of several.
func H_tags() {
	dt := monkit.NewDeltaTransformer()
	var s sink
	f := dt.Transform(s.cb)
	var m model
	var want []hx.Stat
	n := vrf.Bound("reports, several tags", 3, 4)
	for i := 0; i < n; i++ {
		x := in{m: "a", field: "total", v: vrf.Float64("v")}
		x.also = []string{"", "scope", "name"}[vrf.Choose("another tag", 3)]
		x.tag = []string{"", "t", "u"}[vrf.Choose("tag", 3)]
		f(x.key(), x.field, x.v)
		want = append(want, m.next(x)...)
	}
	same(s.out, want)
}

// H_independent: two transformers, over one source and chained.
func H_independent() {
	d1, d2 := monkit.NewDeltaTransformer(), monkit.NewDeltaTransformer()
	var v float64
	src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
		cb(monkit.NewSeriesKey("a"), "total", v)
		cb(monkit.NewSeriesKey("b"), "total", v+1)
	})
	var m1, m2 model
	n := vrf.Bound("reports", 4, 5)
	for i := 0; i < n; i++ {
		v = float64(vrf.Int16("v"))
		m, d := &m1, d1
		if vrf.Choose("which", 2) == 1 {
			m, d = &m2, d2
		}
		got := hx.Stats(monkit.TransformStatSource(src, d))
		var want []hx.Stat
		want = append(want, m.next(in{m: "a", field: "total", v: v})...)
		want = append(want, m.next(in{m: "b", field: "total", v: v + 1})...)
		same(got, want)
	}
}

// H_meter: with real meters, the deltas of a registry sum up to the marks.
func H_meter() {
	r := monkit.NewRegistry()
	dt := monkit.NewDeltaTransformer()
	rt := r.WithTransformers(dt)
	meter := r.ScopeNamed("s").Meter("m")
	vrf.FreezeClock(true)
	n := vrf.Bound("reports", 3, 4)
	var last int
	for i := 0; i < n; i++ {
		k := int(vrf.Int16("k"))
		meter.Mark(k)
		ss := hx.Stats(rt)
		d, c := hx.Get(ss, "delta")
		if i == 0 {
			vrf.Assert(c == 0, "no delta before there is a change")
		} else {
			vrf.Assert(c == 1, "one delta per report")
			vrf.Assert(hx.EqF(d, float64(k)), "the delta is what was marked since the last report")
		}
		last += k
	}
	_, c := hx.Get(hx.Stats(r), "delta")
	vrf.Assert(c == 0, "the original registry reports no deltas")
}

// H_concurrent: reports from two goroutines at once: the deltas of a series
// add up and there is no race.
//
// vrf:preempt=2,3
func H_concurrent() {
	dt := monkit.NewDeltaTransformer()
	key := monkit.NewSeriesKey("a")
	var s sink
	dt.Transform(s.cb)(key, "total", 1)
	var a, b sink
	x, y := float64(vrf.Int16("x")), float64(vrf.Int16("y"))
	vrf.Parallel(
		func() { dt.Transform(a.cb)(key, "total", x) },
		func() { dt.Transform(b.cb)(key, "total", y) })
	vrf.Assert(len(a.out) == 2 && len(b.out) == 2, "each total is followed by its delta")
	da, db := a.out[1].Val, b.out[1].Val
	vrf.Assert(vrf.Or(
		vrf.And(hx.EqF(da, x-1), hx.EqF(db, y-x)),
		vrf.And(hx.EqF(db, y-1), hx.EqF(da, x-y))), "the deltas are those of one order of the reports")
}

// H_many: many series at once.
func H_many() {
	n := vrf.Bound("many series", 300, 600)
	dt := monkit.NewDeltaTransformer()
	var s sink
	f := dt.Transform(s.cb)
	var want []hx.Stat
	one := vrf.Choose("one", n)
	a, b := vrf.Float64("first"), vrf.Float64("second")
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			key := monkit.NewSeriesKey("m").WithTag("t", strconv.Itoa(i))
			v := float64(i * (round + 1))
			if i == one {
				v = []float64{a, b}[round]
			}
			f(key, "total", v)
			want = append(want, hx.Stat{Key: key, Field: "total", Val: v})
			if round == 1 {
				d := float64(i)
				if i == one {
					d = b - a
				}
				want = append(want, hx.Stat{Key: key, Field: "delta", Val: d})
			}
		}
	}
	same(s.out, want)
}
