// Package c28: measured times do not depend on the wall clock.
package c28

import (
	"bytes"
	"context"
	"errors"
	"math"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/environment"
	"github.com/spacemonkeygo/monkit/v3/monotime"
	"github.com/spacemonkeygo/monkit/v3/present"

	"vharness/hx"
	"vharness/shim/vsys"
	"vharness/vrf"
)

// pass lets d pass on the monotonic clock while the wall clock is set by any
// amount, before, between and after.
func pass(name string) time.Duration {
	jump(name + " jump before")
	d := time.Duration(vrf.Uint32(name) >> 2)
	vrf.AdvanceClock(d)
	jump(name + " jump after")
	return d
}

func jump(name string) {
	vrf.JumpWall(time.Duration(vrf.Int64(name) >> 8))
}

func start() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
}

// H_now: readings of the clock are as far apart as the time between them.
func H_now() {
	start()
	jump("first")
	t := monotime.Now()
	n := vrf.Bound("readings", 3, 5)
	for i := 0; i < n; i++ {
		d := pass("passed")
		u := monotime.Now()
		vrf.Assert(u.Sub(t) == d && !u.Before(t), "two readings are as far apart as the time between them")
		vrf.Assert(vrf.Or(d == 0, u.After(t)), "readings are in order")
		vrf.Assert(u.UnixNano()-t.UnixNano() == int64(d), "two readings show as far apart as the time between them")
		t = u
	}
}

// H_span: the duration of spans and of calls.
func H_span() {
	start()
	reg := monkit.NewRegistry()
	jump("first")
	f := reg.ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	exit := f.Task(&ctx)
	s := monkit.SpanFromCtx(ctx)
	var finish time.Time
	tr := s.Trace()
	tr.ObserveSpans(&ends{&finish})
	d := pass("running")
	vrf.Assert(s.Duration() == d, "a span runs as long as it runs")
	cctx := ctx
	cexit := reg.ScopeNamed("s").FuncNamed("g").Task(&cctx)
	c := monkit.SpanFromCtx(cctx)
	vrf.Assert(c.Start().Sub(s.Start()) == d, "a child starts when it starts")
	vrf.Assert(c.Start().UnixNano()-s.Start().UnixNano() == int64(d), "a child shows when it starts")
	e := pass("child")
	cexit(nil)
	d += e
	vrf.Assert(s.Duration() == d, "a span runs as long as it runs")
	vrf.Assert(finish.Sub(c.Start()) == e, "an observer is told when a span finishes")
	fails := vrf.Choose("fails", 2) == 1
	if fails {
		err := errors.New("x")
		exit(&err)
	} else {
		exit(nil)
	}
	vrf.Assert(finish.Sub(s.Start()) == d && finish.UnixNano()-s.Start().UnixNano() == int64(d), "an observer is told when a span finishes")
	times := f.SuccessTimes()
	if fails {
		times = f.FailureTimes()
	}
	vrf.Assert(times.Count == 1 && times.Low == d && times.High == d && times.Recent == d && times.Sum == d, "a call took as long as it took")
	g := reg.ScopeNamed("s").FuncNamed("g").SuccessTimes()
	vrf.Assert(g.Count == 1 && g.Recent == e, "a call took as long as it took")
}

type ends struct{ t *time.Time }

func (ends) Start(*monkit.Span)                                      {}
func (e ends) Finish(s *monkit.Span, err error, p bool, t time.Time) { *e.t = t }

// H_observe: the times of observed calls.
func H_observe() {
	start()
	reg := monkit.NewRegistry()
	jump("first")
	f := reg.ScopeNamed("s").FuncNamed("f")
	done := f.Observe()
	d := pass("running")
	done(nil)
	t := f.SuccessTimes()
	vrf.Assert(t.Count == 1 && t.Recent == d && t.Sum == d, "a call took as long as it took")
}

// H_timer: the times of timers.
func H_timer() {
	start()
	reg := monkit.NewRegistry()
	t := reg.ScopeNamed("s").Timer("t")
	jump("first")
	r := t.Start()
	d := pass("running")
	vrf.Assert(r.Elapsed() == d, "a timer measures the time between start and now")
	d += pass("running")
	vrf.Assert(r.Stop() == d, "a timer measures the time between start and stop")
	v := t.Values()
	vrf.Assert(v.Count == 1 && v.Recent == d && v.Sum == d, "a timer records the time between start and stop")
}

// H_meter: rates are per time passed.
func H_meter() {
	start()
	vrf.NoSched(false)
	jump("first")
	m := monkit.NewMeter(monkit.NewSeriesKey("m"))
	vrf.Settle()
	ticks := vrf.Choose("ticks", vrf.Bound("ticks", 3, 5))
	for i := 0; i <= ticks; i++ {
		m.Mark(60)
		jump("jump")
		vrf.AdvanceClock(time.Second)
		if i < ticks {
			vrf.Tick()
			vrf.Settle()
		}
	}
	jump("last")
	vrf.Assert(m.Rate() == 60, "a rate is per second of time passed")
	vrf.Assert(m.Total() == float64(60*(ticks+1)), "a total is what was marked")
}

// number is what follows label in a report.
func number(report, label string) (n int64, ok bool) {
	i := strings.Index(report, label)
	if i < 0 {
		return 0, false
	}
	digits := strings.TrimLeft(report[i+len(label):], " ")
	for ; len(digits) > 0 && digits[0] >= '0' && digits[0] <= '9'; digits = digits[1:] {
		n = n*10 + int64(digits[0]-'0')
		ok = true
	}
	return n, ok
}

// H_elapsed: reports on running and finished spans.
func H_elapsed() {
	start()
	reg := monkit.NewRegistry()
	ctx := context.Background()
	exit := reg.ScopeNamed("s").FuncNamed("f").Task(&ctx)
	s := monkit.SpanFromCtx(ctx)
	jump("first")
	vrf.AdvanceClock(1234 * time.Second)
	jump("second")
	var b bytes.Buffer
	vrf.Assert(present.SpansText(reg, &b) == nil && strings.Contains(b.String(), "20m34s"), "a report shows how long a span runs")
	b.Reset()
	vrf.Assert(present.SpansDot(reg, &b) == nil && strings.Contains(b.String(), "20m34s"), "a report shows how long a span runs")
	b.Reset()
	vrf.Assert(present.SpansJSON(reg, &b) == nil && strings.Contains(b.String(), `"elapsed":1234000000000`), "a report shows how long a span runs")
	exit(nil)
	b.Reset()
	fs := []*collect.FinishedSpan{{Span: s, Finish: monotime.Now()}}
	vrf.Assert(present.SpansToSVG(&b, fs) == nil && strings.Contains(b.String(), "20m34s"), "a drawing shows how long a span ran")
	b.Reset()
	vrf.Assert(present.SpansToJSON(&b, fs) == nil, "the report is written")
	from, ok1 := number(b.String(), `"start":`)
	to, ok2 := number(b.String(), `"finish":`)
	vrf.Assert(ok1 && ok2 && to-from == 1234e9, "a report gives start and finish as far apart as the span ran")
}

// H_uptime: the uptime of the process.
func H_uptime() {
	start()
	vsys.OnOpen = func(string) (*vsys.File, error) { return nil, errors.New("none") }
	src := environment.Process()
	read := func() float64 {
		v := math.NaN()
		src.Stats(func(key monkit.SeriesKey, field string, val float64) {
			if key.Measurement == "process" && field == "uptime" {
				v = val
			}
		})
		return v
	}
	jump("first")
	a := read()
	jump("second")
	vrf.AdvanceClock(100 * time.Second)
	jump("third")
	vrf.Assert(hx.EqF(read(), a+100), "the uptime grows with the time passed")
}
