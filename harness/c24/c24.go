// Package c24: user callbacks may call back into the library or panic.
package c24

import (
	"context"
	"errors"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"

	"vharness/vrf"
)

type cbT = func(key monkit.SeriesKey, field string, val float64)

func nop(key monkit.SeriesKey, field string, val float64) {}

var boom = errors.New("boom")

type inner struct{ V int64 }

type world struct {
	reg  *monkit.Registry
	tr   *monkit.Registry // reg with a transformer
	sc   *monkit.Scope
	f    *monkit.Func
	fs   *monkit.FuncStats
	c    *monkit.Counter
	m    *monkit.Meter
	iv   *monkit.IntVal
	fv   *monkit.FloatVal
	bv   *monkit.BoolVal
	dv   *monkit.DurationVal
	sv   *monkit.StructVal
	tm   *monkit.Timer
	run  *monkit.RunningTimer
	dt   *monkit.DeltaTransformer
	ctx  context.Context // of a live span with a live child
	span *monkit.Span
	kid  *monkit.Span

	mode  int // what a callback does: 0 re-enters, 1 panics, 2 re-enters and then panics
	at    int // at which call
	calls int
	depth int
	used  int
	// which use of the library a callback makes (-1: all)
	which int
}

// hook is what every callback does.
func (w *world) hook() {
	if w.depth > 0 {
		return
	}
	w.calls++
	if w.calls-1 != w.at {
		return
	}
	w.depth++
	if w.mode != 1 {
		w.use()
	}
	w.depth--
	if w.mode != 0 {
		panic(boom)
	}
}

func (w *world) cb(key monkit.SeriesKey, field string, val float64) { w.hook() }

func newWorld() *world {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	w := &world{}
	w.reg = monkit.NewRegistry()
	w.sc = w.reg.ScopeNamed("s")
	w.f = w.sc.FuncNamed("f")
	w.fs = monkit.NewFuncStats(monkit.NewSeriesKey("fs"))
	w.c = w.sc.Counter("c")
	w.m = w.sc.Meter("m")
	w.iv = w.sc.IntVal("iv")
	w.fv = w.sc.FloatVal("fv")
	w.bv = w.sc.BoolVal("bv")
	w.dv = w.sc.DurationVal("dv")
	w.sv = w.sc.StructVal("sv")
	w.tm = w.sc.Timer("tm")
	w.run = w.tm.Start()
	w.dt = monkit.NewDeltaTransformer()
	w.tr = w.reg.WithTransformers(w.dt)
	w.ctx = context.Background()
	w.f.Task(&w.ctx)
	w.span = monkit.SpanFromCtx(w.ctx)
	c := w.ctx
	w.sc.FuncNamed("kid").Task(&c)
	w.kid = monkit.SpanFromCtx(c)
	w.mode = vrf.Choose("mode", 3)
	return w
}

// use uses everything there is.
func (w *world) use() {
	w.used++
	w.c.Inc(1)
	w.c.Dec(1)
	w.c.Set(1)
	w.c.High()
	w.c.Low()
	w.c.Current()
	w.c.Reset()
	w.c.Stats(nop)
	w.m.Mark(1)
	w.m.Mark64(1)
	w.m.SetTotal(1)
	w.m.Rate()
	w.m.Total()
	w.m.Reset(1)
	w.m.Stats(nop)
	w.iv.Observe(1)
	w.iv.Quantile(.5)
	w.iv.Stats(nop)
	w.fv.Observe(1)
	w.fv.Quantile(.5)
	w.fv.Stats(nop)
	w.bv.Observe(true)
	w.bv.Stats(nop)
	w.dv.Observe(1)
	w.dv.Quantile(.5)
	w.dv.Stats(nop)
	w.sv.Observe(inner{1})
	w.sv.Stats(nop)
	w.run.Elapsed()
	w.run.Stop()
	w.tm.Start().Stop()
	w.tm.Values()
	w.tm.Stats(nop)

	ctx := w.ctx
	exit := w.f.Task(&ctx, 1)
	s := monkit.SpanFromCtx(ctx)
	s.Annotate("a", "b")
	s.Annotations()
	s.Args()
	s.Children(func(*monkit.Span) {})
	s.Orphaned()
	s.Trace().Set("k", 1)
	s.Trace().Get("k")
	s.Trace().GetAll()
	cancel := s.Trace().ObserveSpans(quiet{})
	exit(nil)
	err := errors.New("e")
	exit = w.f.Task(&ctx)
	exit(&err)
	cancel()
	fresh := context.Background()
	w.f.Task(&fresh)(nil)
	fresh = context.Background()
	w.f.RemoteTrace(&fresh, 1, monkit.NewTrace(2))(nil)
	w.f.ResetTrace(&fresh)(nil)
	w.span.Annotate("x", "y")
	w.span.Children(func(*monkit.Span) {})
	w.kid.Annotate("x", "y")
	w.f.Success()
	w.f.Panics()
	w.f.Errors()
	w.f.Parents(func(*monkit.Func) {})
	w.f.SuccessTimes()
	w.f.FailureTimes()
	w.f.Current()
	w.f.Stats(nop)
	w.fs.Observe()(&err)
	w.fs.Stats(nop)
	w.fs.Reset()

	w.sc.Counter("c2")
	w.sc.FuncNamed("f2").Task(&fresh)(nil)
	w.sc.Gauge("g2", func() float64 { return 1 })
	w.sc.Chain(w.c)
	w.sc.Funcs(func(*monkit.Func) {})
	w.sc.Stats(nop)
	w.reg.ScopeNamed("s2").Event("e")
	w.reg.Scopes(func(*monkit.Scope) {})
	w.reg.Funcs(func(*monkit.Func) {})
	w.reg.RootSpans(func(*monkit.Span) {})
	w.reg.AllSpans(func(*monkit.Span) {})
	stop := w.reg.ObserveTraces(func(*monkit.Trace) {})
	stop()
	w.reg.Stats(nop)
	w.tr.Stats(nop)
	monkit.AddErrorNameHandler(func(error) (string, bool) { return "", false })
}

// quiet observes and does nothing.
type quiet struct{}

func (quiet) Start(*monkit.Span)                          {}
func (quiet) Finish(*monkit.Span, error, bool, time.Time) {}

// outcome runs op, which calls back, and checks what becomes of a panic, then
// that everything can still be used.
func (w *world) outcome(op func()) {
	val, panicked := vrf.Try(op)
	acted := w.calls > w.at
	if !acted {
		vrf.Stop() // there was no such call
	}
	if w.mode == 0 {
		vrf.Assert(!panicked, "a callback may use the library")
	} else if panicked {
		vrf.Assert(val == any(boom), "a callback's panic is passed on")
	}
	vrf.Reach("callback ran")
	w.depth = 1
	w.use()
	w.depth = 0
	w.c.Reset()
	vrf.Assert(w.c.Inc(2) == 2, "everything can be used after the callback")
}

// H_stats_callbacks: the callback of every source of statistics.
func H_stats_callbacks() {
	w := newWorld()
	w.at = vrf.Choose("at", vrf.Bound("calls of the callback", 16, 60))
	w.iv.Observe(1)
	w.fv.Observe(1)
	w.dv.Observe(1)
	w.sv.Observe(inner{3})
	w.sc.Gauge("g", func() float64 { return 1 })
	w.sc.Chain(monkit.StatSourceFunc(func(cb cbT) { cb(monkit.NewSeriesKey("ch"), "x", 1) }))
	srcs := []monkit.StatSource{
		w.c, w.m, w.iv, w.fv, w.bv, w.dv, w.sv, w.tm, w.f, w.fs, w.sc, w.reg, w.tr,
		monkit.NewDiffMeter(monkit.NewSeriesKey("d"), w.m, w.m),
		monkit.TransformStatSource(monkit.StatSourceFunc(func(cb cbT) {
			cb(monkit.NewSeriesKey("t"), "total", 1)
			cb(monkit.NewSeriesKey("t"), "total", 2)
		}), w.dt),
		monkit.StatSourceFromStruct(monkit.NewSeriesKey("st"), inner{2}),
	}
	src := srcs[vrf.Choose("source", len(srcs))]
	w.outcome(func() { src.Stats(w.cb) })
}

// H_sources: gauges, chained sources, transformers and sources inside structs.
func H_sources() {
	w := newWorld()
	w.at = vrf.Choose("at", 2)
	k := vrf.Choose("kind", 4)
	reg := w.reg
	switch k {
	case 0:
		w.sc.Gauge("g", func() float64 { w.hook(); return 1 })
	case 1:
		w.sc.Chain(monkit.StatSourceFunc(func(cb cbT) { w.hook() }))
	case 2:
		reg = w.reg.WithTransformers(monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
			w.hook()
			return func(key monkit.SeriesKey, field string, val float64) {
				w.hook()
				cb(key, field, val)
			}
		}))
	case 3:
		w.sv.Observe(struct{ S monkit.StatSource }{monkit.StatSourceFunc(func(cb cbT) { w.hook() })})
	}
	w.outcome(func() { reg.Stats(nop); reg.Stats(nop) })
}

type namedErr struct{ w *world }

func (e *namedErr) Error() string { return "named" }
func (e *namedErr) Name() (string, bool) {
	e.w.hook()
	return "named", true
}

// H_error_names: error name handlers and errors that name themselves.
func H_error_names() {
	w := newWorld()
	w.at = 0
	var err error = &namedErr{w}
	if vrf.Choose("handler", 2) == 1 {
		err = errors.New("e")
		monkit.AddErrorNameHandler(func(e error) (string, bool) { w.hook(); return "h", true })
	}
	switch vrf.Choose("where", 2) {
	case 0:
		ctx := w.ctx
		exit := w.f.Task(&ctx)
		w.outcome(func() { exit(&err) })
	case 1:
		w.outcome(func() { w.fs.Observe()(&err) })
	}
}

// observer calls back on every span.
type observer struct{ w *world }

func (o observer) Start(*monkit.Span)                          { o.w.hook() }
func (o observer) Finish(*monkit.Span, error, bool, time.Time) { o.w.hook() }

type ctxObserver struct{ w *world }

func (o ctxObserver) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.w.hook()
	return ctx
}
func (o ctxObserver) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.w.hook()
}

// H_observers: observers of spans and of traces.
func H_observers() {
	w := newWorld()
	w.at = vrf.Choose("at", 2)
	ctx := w.ctx
	switch vrf.Choose("kind", 4) {
	case 0:
		w.span.Trace().ObserveSpans(observer{w})
	case 1:
		w.span.Trace().ObserveSpansCtx(ctxObserver{w})
	case 2:
		w.reg.ObserveTraces(func(t *monkit.Trace) { w.hook() })
		ctx = context.Background()
	case 3:
		collect.ObserveAllTraces(w.reg, observer{w})
		if vrf.Choose("new", 2) == 1 {
			ctx = context.Background()
		}
	}
	w.outcome(func() {
		c := ctx
		w.f.Task(&c)(nil)
		c = ctx
		w.f.Task(&c)(nil)
	})
}

// H_visitors: visitors of spans, functions and scopes.
func H_visitors() {
	w := newWorld()
	w.at = vrf.Choose("at", 2)
	w.reg.ScopeNamed("s3")
	span := func(*monkit.Span) { w.hook() }
	fn := func(*monkit.Func) { w.hook() }
	var op func()
	switch vrf.Choose("kind", 7) {
	case 0:
		op = func() { w.reg.RootSpans(span) }
	case 1:
		op = func() { w.reg.AllSpans(span) }
	case 2:
		op = func() { w.reg.Scopes(func(*monkit.Scope) { w.hook() }) }
	case 3:
		op = func() { w.reg.Funcs(fn) }
	case 4:
		op = func() { w.sc.Funcs(fn) }
	case 5:
		c := w.ctx
		w.sc.FuncNamed("kid2").Task(&c)
		op = func() { w.span.Children(span) }
	case 6:
		w.kid.Func().Task(&w.ctx)
		op = func() { w.kid.Func().Parents(fn) }
	}
	w.outcome(op)
}

// writer calls back on every write.
type writer struct{ w *world }

func (o writer) Write(p []byte) (int, error) {
	o.w.hook()
	return len(p), nil
}

// H_reports: writers of reports.
func H_reports() {
	w := newWorld()
	w.at = vrf.Choose("at", vrf.Bound("writes", 10, 40))
	f := []func(r *monkit.Registry, w *world) error{
		func(r *monkit.Registry, w *world) error { return present.StatsText(r, writer{w}) },
		func(r *monkit.Registry, w *world) error { return present.StatsJSON(r, writer{w}) },
		func(r *monkit.Registry, w *world) error { return present.FuncsText(r, writer{w}) },
		func(r *monkit.Registry, w *world) error { return present.FuncsJSON(r, writer{w}) },
		func(r *monkit.Registry, w *world) error { return present.FuncsDot(r, writer{w}) },
		func(r *monkit.Registry, w *world) error { return present.SpansText(r, writer{w}) },
		func(r *monkit.Registry, w *world) error { return present.SpansJSON(r, writer{w}) },
		func(r *monkit.Registry, w *world) error { return present.SpansDot(r, writer{w}) },
	}[vrf.Choose("report", 8)]
	w.outcome(func() { f(w.reg, w) })
}

// H_matchers: matchers of span collectors.
func H_matchers() {
	w := newWorld()
	w.at = vrf.Choose("at", 2)
	c := collect.NewSpanCollector(func(s *monkit.Span) bool { w.hook(); return false })
	w.span.Trace().ObserveSpans(c)
	w.outcome(func() {
		ctx := w.ctx
		w.f.Task(&ctx)(nil)
		ctx = w.ctx
		w.f.Task(&ctx)(nil)
	})
	c.Stop()
	c.Spans()
}
