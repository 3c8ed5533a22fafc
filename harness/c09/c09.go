// Package c09: concurrent use of metrics loses no update and has no data race.
// (Data races are looked for by the engine in every harness.)
package c09

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

func get(s monkit.StatSource, field string) float64 {
	v, _ := hx.Get(hx.Stats(s), field)
	return v
}

// pick runs some of the given functions at once: all pairs, or (thorough) all
// triples.
func pick(fs ...func()) {
	n := vrf.Bound("goroutines", 3, 3)
	var run []func()
	from := 0
	for len(run) < n && from < len(fs) {
		k := from + vrf.Choose("which", len(fs)-from)
		run = append(run, fs[k])
		from = k + 1
	}
	vrf.Parallel(run...)
}

// H_counter: values are symbolic; whatever ran is accounted.
//
// vrf:preempt=2,3
func H_counter() {
	c := monkit.NewCounter(monkit.NewSeriesKey("c"))
	a, b := vrf.Int64("a"), vrf.Int64("b")
	var sum int64
	n := 0
	var rets []int64
	inc := func(v int64) func() {
		return func() {
			r := c.Inc(v)
			vrf.NoSched(true)
			sum += v
			n++
			rets = append(rets, r)
			vrf.NoSched(false)
		}
	}
	vrf.Parallel(inc(a), inc(b), func() {
		ss := hx.Stats(c)
		v, _ := hx.Get(ss, "value")
		ok := vrf.Or(hx.EqF(v, 0), hx.EqF(v, float64(a)), hx.EqF(v, float64(b)), hx.EqF(v, float64(a+b)))
		vrf.Assert(ok, "a concurrent read is one of the values the counter has had")
	})
	vrf.Assert(c.Current() == a+b, "no increment is lost")
	x, y := rets[0], rets[1]
	vrf.Assert(vrf.Or(vrf.And(x == a, y == a+b), vrf.And(x == b, y == a+b), vrf.And(y == a, x == a+b), vrf.And(y == b, x == a+b)), "each increment returns a value of some order")
}

// H_counter_set: Set and Reset against Inc.
//
// vrf:preempt=3,4
func H_counter_set() {
	c := monkit.NewCounter(monkit.NewSeriesKey("c"))
	c.Set(5)
	switch vrf.Choose("case", 3) {
	case 0:
		var x, y int64
		vrf.Parallel(func() { x = c.Set(7) }, func() { y = c.Set(9) })
		vrf.Assert((x == 5 && y == 7 && c.Current() == 9) || (x == 9 && y == 5 && c.Current() == 7), "Set returns the value it replaced")
		vrf.Assert(c.High() == 9 && c.Low() == 5, "high and low cover every value")
	case 1:
		var x, v, l, h int64
		vrf.Parallel(func() { x = c.Inc(2) }, func() { v, l, h = c.Reset() })
		first := x == 7 && v == 7 && l == 5 && h == 7 && c.Current() == 0
		second := x == 2 && v == 5 && l == 5 && h == 5 && c.Current() == 2
		vrf.Assert(first || second, "Reset and Inc happen one after the other")
	case 2:
		vrf.Parallel(func() { c.Inc(2) }, func() {
			ss := hx.Stats(c)
			v, _ := hx.Get(ss, "value")
			h, _ := hx.Get(ss, "high")
			l, _ := hx.Get(ss, "low")
			vrf.Assert((v == 5 && h == 5 && l == 5) || (v == 7 && h == 7 && l == 5), "a report is of one moment")
		}, func() {
			h, l := c.High(), c.Low()
			vrf.Assert((h == 5 || h == 7) && l == 5, "reads are of some moment")
		})
	}
}

type val interface {
	monkit.StatSource
	observe(n int)
	quantile()
}

type iv struct{ *monkit.IntVal }

func (v iv) observe(n int) { v.Observe(int64(n)) }
func (v iv) quantile()     { v.Quantile(0.5) }

type fv struct{ *monkit.FloatVal }

func (v fv) observe(n int) { v.Observe(float64(n)) }
func (v fv) quantile()     { v.Quantile(0.5) }

type dv struct{ *monkit.DurationVal }

func (v dv) observe(n int) { v.Observe(time.Duration(n) * time.Second) }
func (v dv) quantile()     { v.Quantile(0.5) }

// H_vals: int, float and duration values.
//
// vrf:preempt=2,3
func H_vals() {
	key := monkit.NewSeriesKey("v")
	v := []val{iv{monkit.NewIntVal(key)}, fv{monkit.NewFloatVal(key)}, dv{monkit.NewDurationVal(key)}}[vrf.Choose("kind", 3)]
	v.observe(1)
	want := 1.0
	cnt := 1.0
	obs := func(n int) func() {
		return func() {
			v.observe(n)
			vrf.NoSched(true)
			want += float64(n)
			cnt++
			vrf.NoSched(false)
		}
	}
	pick(obs(2), obs(4), func() {
		ss := hx.Stats(v)
		c, _ := hx.Get(ss, "count")
		s, _ := hx.Get(ss, "sum")
		mx, _ := hx.Get(ss, "max")
		vrf.Assert((c == 1 && s == 1 && mx == 1) || (c == 2 && s == 3 && mx == 2) || (c == 2 && s == 5 && mx == 4) || (c == 3 && s == 7 && mx == 4), "a report is of one moment")
	}, v.quantile)
	vrf.Assert(get(v, "count") == cnt && get(v, "sum") == want, "no observation is lost or counted twice")
}

// H_bool: bool values.
//
// vrf:preempt=2,3
func H_bool() {
	v := monkit.NewBoolVal(monkit.NewSeriesKey("b"))
	var t, f float64
	obs := func(b bool) func() {
		return func() {
			v.Observe(b)
			vrf.NoSched(true)
			if b {
				t++
			} else {
				f++
			}
			vrf.NoSched(false)
		}
	}
	pick(obs(true), obs(false), obs(true), func() {
		ss := hx.Stats(v)
		a, _ := hx.Get(ss, "true")
		b, _ := hx.Get(ss, "false")
		r, _ := hx.Get(ss, "recent")
		vrf.Assert(a >= 0 && a <= 2 && b >= 0 && b <= 1 && (r == 0 || r == 1), "every number read is one it has had")
	})
	vrf.Assert(get(v, "true") == t && get(v, "false") == f && get(v, "disposition") == t-f, "no observation is lost or counted twice")
	vrf.Assert(vrf.Or(t == 0, f == 0) == false || get(v, "recent") == b2f(t > 0), "recent is one of those observed")
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

type data struct {
	A int
	B float64
}

// H_struct: struct values.
//
// vrf:preempt=2,3
func H_struct() {
	v := monkit.NewStructVal(monkit.NewSeriesKey("s"))
	v.Observe(data{1, 1})
	vrf.Parallel(func() { v.Observe(data{2, 2}) }, func() { v.Observe(&data{3, 3}) }, func() {
		ss := hx.Stats(v)
		a, _ := hx.Get(ss, "A")
		b, _ := hx.Get(ss, "B")
		vrf.Assert(a == b && a >= 1 && a <= 3, "a report is of one observed struct")
	})
	a := get(v, "A")
	vrf.Assert(a == 2 || a == 3, "the struct observed last is reported")
}

// H_timer: timers.
//
// vrf:preempt=2,3
func H_timer() {
	vrf.FreezeClock(true)
	t := monkit.NewTimer(monkit.NewSeriesKey("t"))
	r1, r2 := t.Start(), t.Start()
	vrf.AdvanceClock(time.Second)
	pick(func() { r1.Stop() }, func() { r1.Stop() }, func() { t.Start().Stop() }, func() {
		d := t.Values()
		vrf.Assert(d.Count >= 0 && d.Count <= 2, "a read is of some moment")
	}, func() {
		c, s := get(t, "count"), 0.0
		s = get(t, "sum")
		vrf.Assert(c <= 2 && s <= 1, "a report is of some moment")
	})
	r1.Stop()
	r2.Stop()
	r2.Stop()
	d := t.Values()
	vrf.Assert(d.Sum == 2*time.Second, "each timer is recorded once")
	vrf.Assert(d.Count == 2 || d.Count == 3, "each timer is recorded once")
}

var errX = errors.New("x")

// H_funcstats: function statistics.
//
// vrf:preempt=2,3
func H_funcstats() {
	f := monkit.NewFuncStats(monkit.NewSeriesKey("f"))
	var ok, eof, sys int64
	call := func(err error, n *int64) func() {
		return func() {
			e := err
			f.Observe()(&e)
			vrf.NoSched(true)
			*n++
			vrf.NoSched(false)
		}
	}
	pick(call(nil, &ok), call(io.EOF, &eof), call(io.EOF, &eof), call(errX, &sys), func() {
		es := f.Errors()
		vrf.Assert(es["EOF"] <= 2 && es["System Error"] <= 1, "a read is of some moment")
		f.Success()
		f.Panics()
		f.SuccessTimes()
	}, func() {
		f.FailureTimes()
		vrf.Assert(get(f, "total") <= 2, "a report is of some moment")
	})
	es := f.Errors()
	vrf.Assert(f.Success() == ok && es["EOF"] == eof && es["System Error"] == sys, "no call is lost or counted twice")
	vrf.Assert(f.Current() == 0, "nothing is running")
	vrf.Assert(f.SuccessTimes().Count == ok && f.FailureTimes().Count == eof+sys, "no time is lost or counted twice")
}

// H_parents: the callers of a function.
//
// vrf:preempt=2,3
func H_parents() {
	s := monkit.NewRegistry().ScopeNamed("s")
	f, p, q := s.FuncNamed("f"), s.FuncNamed("p"), s.FuncNamed("q")
	from := func(p *monkit.Func) func() {
		ctx := context.Background()
		p.Task(&ctx)
		return func() { c := ctx; f.Task(&c)(nil) }
	}
	vrf.Parallel(from(p), from(q), func() {
		n := 0
		f.Parents(func(*monkit.Func) { n++ })
		vrf.Assert(n <= 2, "a read is of some moment")
	})
	seen := map[*monkit.Func]int{}
	f.Parents(func(x *monkit.Func) { seen[x]++ })
	vrf.Assert(len(seen) == 2 && seen[p] == 1 && seen[q] == 1, "each caller is kept once")
}

// H_keys: series keys and tag sets shared between goroutines.
//
// vrf:preempt=2,3
func H_keys() {
	key := monkit.NewSeriesKey("m").WithTag("b", "1").WithTag("a", "x y")
	pick(func() {
		vrf.Assert(key.String() == `m,a=x\ y,b=1`, "the text of a shared key")
	}, func() {
		vrf.Assert(key.WithField("f") == `m,a=x\ y,b=1 f`, "the text of a shared key with field")
	}, func() {
		vrf.Assert(key.Tags.String() == `a=x\ y,b=1`, "the text of shared tags")
	}, func() {
		k := key.WithTag("c", "2")
		vrf.Assert(k.Tags.Len() == 3 && k.Tags.Get("b") == "1", "deriving from a shared key")
	}, func() {
		vrf.Assert(key.Tags.Get("a") == "x y" && key.Tags.Len() == 2, "reading shared tags")
	})
	vrf.Assert(key.String() == `m,a=x\ y,b=1`, "the shared key is unchanged")
}

// H_report: a registry is reported by two goroutines while a metric changes.
//
// vrf:preempt=1,2
func H_report() {
	r := monkit.NewRegistry()
	s := r.ScopeNamed("s")
	s.Counter("c").Inc(1)
	s.IntVal("v", monkit.NewSeriesTag("k", "x")).Observe(3)
	collect := func() {
		m := monkit.Collect(r)
		v, ok := m["c,scope=s value"]
		vrf.Assert(ok && (v == 1 || v == 2), "a report contains the metric")
		_, ok = m["v,k=x,scope=s count"]
		vrf.Assert(ok, "a report contains the metric")
	}
	vrf.Parallel(collect, func() { s.Counter("c").Inc(1) }, collect)
	vrf.Assert(s.Counter("c").Current() == 2, "no update is lost")
}

// H_delta: one delta transformer used by two reports at once.
//
// vrf:preempt=2,3
func H_delta() {
	dt := monkit.NewDeltaTransformer()
	key := monkit.NewSeriesKey("m").WithTag("a", "b")
	var deltas []float64
	n := 0
	cb := dt.Transform(func(k monkit.SeriesKey, field string, val float64) {
		vrf.NoSched(true)
		if field == "delta" {
			deltas = append(deltas, val)
		} else {
			n++
		}
		vrf.NoSched(false)
	})
	vrf.Parallel(func() { cb(key, "total", 3) }, func() { cb(key, "total", 5) })
	vrf.Assert(n == 2 && len(deltas) == 1 && (deltas[0] == 2 || deltas[0] == -2), "concurrent totals of one series give one delta")
}

// linearizable reports whether some order of the calls explains the results.
func linearizable[S any](init S, n int, step func(s *S, i int) [4]float64, got [][4]float64, final func(s S) bool) bool {
	used := make([]bool, n)
	var rec func(s S, left int) bool
	rec = func(s S, left int) bool {
		if left == 0 {
			return final(s)
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			t := s
			if step(&t, i) != got[i] {
				continue
			}
			used[i] = true
			if rec(t, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(init, n)
}

type cstate struct {
	val, low, high int64
	nonempty       bool
}

func (s *cstate) set(v int64) {
	if !s.nonempty || v < s.low {
		s.low = v
	}
	if !s.nonempty || v > s.high {
		s.high = v
	}
	s.val, s.nonempty = v, true
}

// H_counter_lin: any three calls on a counter at once behave like some order
// of the three.
//
// vrf:preempt=2,3
func H_counter_lin() {
	c := monkit.NewCounter(monkit.NewSeriesKey("c"))
	c.Set(5)
	init := cstate{5, 5, 5, true}
	n := 3
	var ops [3]int
	from := 0
	for i := range ops {
		from += vrf.Choose("call", 8-from)
		ops[i] = from
	}
	got := make([][4]float64, n)
	var fs []func()
	for i := range ops {
		i := i
		fs = append(fs, func() {
			var r [4]float64
			switch ops[i] {
			case 0:
				r[0] = float64(c.Inc(int64(10 + i)))
			case 1:
				r[0] = float64(c.Dec(int64(20 + i)))
			case 2:
				r[0] = float64(c.Set(int64(40 + i)))
			case 3:
				v, l, h := c.Reset()
				r = [4]float64{float64(v), float64(l), float64(h)}
			case 4:
				r[0] = float64(c.Current())
			case 5:
				r[0] = float64(c.High())
			case 6:
				r[0] = float64(c.Low())
			case 7:
				ss := hx.Stats(c)
				v, _ := hx.Get(ss, "value")
				l, _ := hx.Get(ss, "low")
				h, _ := hx.Get(ss, "high")
				if h != h || l != l {
					l, h = -1e9, -1e9 // empty
				}
				r = [4]float64{v, l, h}
			}
			got[i] = r
		})
	}
	vrf.Parallel(fs...)
	cur, low, high := c.Current(), c.Low(), c.High()
	ok := linearizable(init, n, func(s *cstate, i int) (r [4]float64) {
		switch ops[i] {
		case 0:
			s.set(s.val + int64(10+i))
			r[0] = float64(s.val)
		case 1:
			s.set(s.val - int64(20+i))
			r[0] = float64(s.val)
		case 2:
			r[0] = float64(s.val)
			s.set(int64(40 + i))
		case 3:
			r = [4]float64{float64(s.val), float64(s.low), float64(s.high)}
			*s = cstate{}
		case 4:
			r[0] = float64(s.val)
		case 5:
			r[0] = float64(s.high)
		case 6:
			r[0] = float64(s.low)
		case 7:
			r = [4]float64{float64(s.val), float64(s.low), float64(s.high)}
			if !s.nonempty {
				r[1], r[2] = -1e9, -1e9
			}
		}
		return r
	}, got, func(s cstate) bool { return s.val == cur && s.low == low && s.high == high })
	vrf.Assert(ok, "concurrent calls on a counter behave like some order of them")
}

// H_meter_lin: any three calls on a meter at once, with a tick that moves
// events out of the window, behave like some order of the three.
//
// vrf:preempt=2,3
func H_meter_lin() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	m := monkit.NewMeter(monkit.NewSeriesKey("m"))
	vrf.Settle()
	for i := 0; i < 24; i++ {
		m.Mark(1)
		if i < 23 {
			vrf.Tick()
			vrf.Settle()
		}
	}
	type state struct{ before, window int64 }
	init := state{0, 24}
	var ops [3]int
	from := 0
	for i := range ops {
		from += vrf.Choose("call", 6-from)
		ops[i] = from
	}
	if vrf.Choose("ticking", 2) == 1 {
		vrf.Tick()
		ops[2] = -1 // the tick takes the third place
		init = state{1, 23}
	}
	got := make([][4]float64, 3)
	var fs []func()
	for i := range ops {
		i := i
		if ops[i] < 0 {
			continue
		}
		fs = append(fs, func() {
			var r [4]float64
			switch ops[i] {
			case 0:
				m.Mark(100 + i)
			case 1:
				m.Mark64(int64(1000 + i))
			case 2:
				m.Reset(int64(50 + i))
			case 3:
				r[0] = m.Total()
			case 4:
				r[0], _ = hx.Get(hx.Stats(m), "total")
			case 5:
				m.Rate()
			}
			got[i] = r
		})
	}
	vrf.NoSched(false)
	vrf.Parallel(fs...)
	vrf.NoSched(true)
	vrf.Settle()
	total := m.Total()
	ok := linearizable(init, 3, func(s *state, i int) (r [4]float64) {
		switch ops[i] {
		case 0:
			s.window += int64(100 + i)
		case 1:
			s.window += int64(1000 + i)
		case 2:
			*s = state{int64(50 + i), 0}
		case 3, 4:
			r[0] = float64(s.before + s.window)
		}
		return r
	}, got, func(s state) bool { return float64(s.before+s.window) == total })
	vrf.Assert(ok, "concurrent calls on a meter behave like some order of them")
}
