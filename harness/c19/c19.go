// Package c19: span collection returns exactly the watched subtree.
package c19

import (
	"context"
	"errors"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"

	"vharness/vrf"
)

// node is the model of a span.
type node struct {
	s        *monkit.Span
	ctx      context.Context
	exit     func(*error)
	parent   *node // local parent in the same trace
	finished bool
	recorded bool // finished while collecting
	err      error
	panicked bool
	start    int64
	finish   int64
}

// world is the model of what runs.
type world struct {
	reg     *monkit.Registry
	nodes   []*node
	clock   int64
	trigger *node
	ended   bool // the trigger has finished
	err     error
}

func newWorld() *world {
	vrf.FreezeClock(true)
	return &world{reg: monkit.NewRegistry(), err: errors.New("failed")}
}

func (w *world) tick() {
	w.clock++
	vrf.AdvanceClock(1)
}

func (w *world) open() (rv []*node) {
	for _, n := range w.nodes {
		if !n.finished {
			rv = append(rv, n)
		}
	}
	return rv
}

// start starts a span: parent nil for a new trace.
func (w *world) start(parent *node, name string) *node {
	w.tick()
	n := &node{parent: parent, start: w.clock}
	n.ctx = context.Background()
	if parent != nil {
		n.ctx = parent.ctx
	}
	n.exit = w.reg.ScopeNamed("s").FuncNamed(name).Task(&n.ctx)
	n.s = monkit.SpanFromCtx(n.ctx)
	w.nodes = append(w.nodes, n)
	return n
}

func (w *world) finish(n *node, how int) {
	w.tick()
	n.finished, n.finish = true, w.clock
	if w.trigger != nil && !w.ended && n.s.Trace() == w.trigger.s.Trace() {
		n.recorded = true
		if n == w.trigger {
			w.ended = true
		}
	}
	switch how {
	case 0:
		n.exit(nil)
	case 1:
		n.err = w.err
		n.exit(&n.err)
	case 2, 3:
		n.panicked = true
		var e *error
		if how == 3 {
			n.err = w.err
			e = &n.err
		}
		vrf.Try(func() {
			defer n.exit(e)
			panic("p")
		})
	}
}

// included: n is the trigger or a descendant over recorded spans.
func (w *world) included(n *node) bool {
	for ; n != nil && n.recorded; n = n.parent {
		if n == w.trigger {
			return true
		}
	}
	return false
}

// check compares what was collected with the model.
// again checks what is collected, twice: what the caller does with the spans it
// got (sorting them, say) is its own business.
func (w *world) again(c *collect.SpanCollector) {
	spans := c.Spans()
	w.check(spans)
	for i := range spans {
		spans[i] = nil
	}
	w.check(c.Spans())
}

func (w *world) check(spans []*collect.FinishedSpan) {
	for _, n := range w.nodes {
		c := 0
		for _, fs := range spans {
			if fs.Span == n.s {
				c++
				vrf.Assert(fs.Err == n.err, "a collected span has its error")
				vrf.Assert(fs.Panicked == n.panicked, "a collected span has its panic flag")
				vrf.Assert(fs.Finish.Sub(fs.Span.Start()) == time.Duration(n.finish-n.start), "a collected span has its finish time")
			}
		}
		want := 0
		if w.ended && w.included(n) {
			want = 1
		}
		vrf.Assert(c == want, "exactly the watched subtree is collected, each span once")
	}
	for _, fs := range spans {
		known := false
		for _, n := range w.nodes {
			known = known || fs.Span == n.s
		}
		vrf.Assert(known, "nothing else is collected")
	}
}

func isDone(c *collect.SpanCollector) bool {
	select {
	case <-c.Done():
		return true
	default:
		return false
	}
}

// H_collector: every history of spans around a collector that observes all
// traces, triggered by a match or by force.
func H_collector() {
	w := newWorld()
	c := collect.NewSpanCollector(func(s *monkit.Span) bool { return s.Func().ShortName() == "m" })
	var cancel func()
	stopped := false
	n := vrf.Bound("steps", 5, 6)
	for i := 0; i < n; i++ {
		switch vrf.Choose("step", 5) {
		case 0: // a new trace or a child of an open span
			open := w.open()
			if len(w.nodes) >= 4 {
				vrf.Stop()
			}
			k := vrf.Choose("parent", len(open)+1)
			var parent *node
			if k > 0 {
				parent = open[k-1]
			}
			name := []string{"f", "m"}[vrf.Choose("name", 2)]
			x := w.start(parent, name)
			if cancel != nil && name == "m" && w.trigger == nil && !stopped {
				w.trigger = x
			}
		case 1:
			open := w.open()
			if len(open) == 0 {
				vrf.Stop()
			}
			w.finish(open[vrf.Choose("which", len(open))], vrf.Choose("how", 4))
		case 2:
			if cancel != nil {
				vrf.Stop()
			}
			cancel = collect.ObserveAllTraces(w.reg, c)
		case 3:
			open := w.open()
			if cancel == nil || len(open) == 0 || w.trigger != nil || stopped {
				vrf.Stop()
			}
			w.trigger = open[vrf.Choose("which", len(open))]
			c.ForceStart(w.trigger.s)
		case 4:
			if stopped || w.ended {
				vrf.Stop()
			}
			stopped = true
			c.Stop()
			w.trigger = nil
		}
		vrf.Assert(isDone(c) == (stopped || w.ended), "Done is closed exactly when the trigger finished or Stop was called")
		w.again(c)
	}
}

// H_collect_spans: every history of spans in the work given to CollectSpans.
func H_collect_spans() {
	w := newWorld()
	outer := w.start(nil, "f")
	if vrf.Choose("before", 2) == 1 {
		w.finish(w.start(outer, "g"), 0)
	}
	var early *node
	if vrf.Choose("early", 2) == 1 {
		early = w.start(outer, "g")
	}
	calls := 0
	panics := false
	var spans []*collect.FinishedSpan
	got, _ := vrf.Try(func() {
		spans = collect.CollectSpans(outer.ctx, func(ctx context.Context) {
			calls++
			s := monkit.SpanFromCtx(ctx)
			vrf.Assert(s != nil && s != outer.s && s.Trace() == outer.s.Trace(), "the work runs in a span of its own on the trace")
			t := &node{s: s, ctx: ctx, parent: outer, start: w.clock}
			w.nodes = append(w.nodes, t)
			w.trigger = t
			n := vrf.Bound("steps in the work", 4, 5)
			for i := 0; i < n; i++ {
				switch vrf.Choose("step", 5) {
				case 0:
					i = n
				case 1:
					if len(w.nodes) >= 6 {
						vrf.Stop()
					}
					var in []*node
					for _, o := range w.open() {
						if o != outer && o != early {
							in = append(in, o)
						}
					}
					if early != nil {
						in = append(in, early)
					}
					w.start(in[vrf.Choose("parent", len(in))], "g")
				case 2:
					var in []*node
					for _, o := range w.open() {
						if o != outer && o != t {
							in = append(in, o)
						}
					}
					if len(in) == 0 {
						vrf.Stop()
					}
					w.finish(in[vrf.Choose("which", len(in))], vrf.Choose("how", 4))
				case 3:
					w.start(nil, "other")
				case 4:
					panics = true
					t.finished, t.recorded, t.panicked = true, true, true
					panic("work")
				}
			}
			w.tick()
			t.finished, t.recorded, t.finish = true, true, w.clock
			w.ended = true
		})
	})
	vrf.Assert(calls == 1, "the work is done once")
	if panics {
		vrf.Assert(got == any("work"), "a panic of the work propagates")
	} else {
		w.check(spans)
		for _, fs := range spans {
			vrf.Assert(!vrf.Holds(outer.s.Trace(), fs), "nothing keeps being observed once CollectSpans returned")
		}
	}
	// the number of observers does not grow: a later collection sees the same
	n := len(w.nodes)
	w.trigger, w.ended = nil, false
	x := w.start(outer, "later")
	w.finish(x, 0)
	if !panics {
		for _, fs := range spans {
			for _, o := range w.nodes[n:] {
				vrf.Assert(fs.Span != o.s, "later spans are not collected")
			}
		}
	}
}

// H_collect_outside: without a span the work is still done.
func H_collect_outside() {
	calls := 0
	ctx := context.WithValue(context.Background(), "k", "v")
	spans := collect.CollectSpans(ctx, func(c context.Context) {
		calls++
		vrf.Assert(c.Value("k") == "v", "the work has the context")
	})
	vrf.Assert(calls == 1 && len(spans) == 0, "without a span the work is done and nothing collected")
}

// H_stop_once: stops and the end of the trigger at once.
// vrf:preempt=2,3
func H_stop_once() {
	vrf.NoSched(true)
	w := newWorld()
	c := collect.NewSpanCollector(nil)
	n := w.start(nil, "f")
	defer n.s.Trace().ObserveSpans(c)()
	c.ForceStart(n.s)
	child := w.start(n, "g")
	stop := func() { c.Stop() }
	vrf.NoSched(false)
	finish := func() {
		n.exit(nil)
	}
	switch vrf.Choose("goroutines", 3) {
	case 0:
		vrf.Parallel(finish, stop)
	case 1:
		vrf.Parallel(stop, stop)
	case 2:
		vrf.Parallel(finish, func() { child.exit(nil) })
		spans := c.Spans()
		vrf.Assert(len(spans) == 1 || len(spans) == 2, "the trigger is collected, and its child if it finished no later")
		vrf.Assert(spans[0].Span == n.s, "the trigger is collected")
		for _, s := range spans[1:] {
			vrf.Assert(s.Span == child.s, "the child is collected at most once")
		}
	}
	vrf.Assert(isDone(c), "Done is closed in the end")
}

// H_watch: a watch, the spans it waits for and a cancellation at once.
// vrf:preempt=3,4
func H_watch() {
	vrf.NoSched(true)
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	ctx, cancel := context.WithCancel(context.Background())
	over := false
	var matched *monkit.Span
	matcher := func(s *monkit.Span) bool {
		vrf.Assert(!over, "the matcher is not called once the watch returned and the spans are done")
		ok := s.Func().ShortName() == "m"
		if ok && matched == nil {
			matched = s
		}
		return ok
	}
	var spans []*collect.FinishedSpan
	var err error
	var root, child *monkit.Span
	live := vrf.Choose("live", 2) == 1
	pre := context.Background()
	var preExit func(*error)
	if live {
		preExit = sc.FuncNamed("pre").Task(&pre)
	}
	failed := errors.New("failed")
	vrf.NoSched(false)
	vrf.Parallel(func() {
		spans, err = collect.WatchForSpans(ctx, reg, matcher)
	}, func() {
		c := pre
		e := sc.FuncNamed("m").Task(&c)
		root = monkit.SpanFromCtx(c)
		e2 := sc.FuncNamed("f").Task(&c)
		child = monkit.SpanFromCtx(c)
		e2(&failed)
		e(nil)
		cancel()
	})
	over = true
	vrf.NoSched(true)
	if err != nil {
		vrf.Assert(err == context.Canceled && spans == nil, "cancelling the context ends a watch with the context's error")
	} else {
		vrf.Assert(matched == root, "a watch ends without error only for a match")
		vrf.Assert(len(spans) == 2, "exactly the watched subtree is collected")
		vrf.Assert(spans[0].Span == root && spans[1].Span == child || spans[1].Span == root && spans[0].Span == child, "exactly the watched subtree is collected, each span once")
		for _, s := range spans {
			vrf.Assert((s.Err == failed) == (s.Span == child) && !s.Panicked, "a collected span has its error")
		}
	}
	// nothing is observed any more
	if live {
		c := pre
		e := sc.FuncNamed("m").Task(&c)
		e(nil)
		preExit(nil)
	}
	c := context.Background()
	e := sc.FuncNamed("m").Task(&c)
	for _, fs := range spans {
		vrf.Assert(!vrf.Holds(fs.Span.Trace(), fs), "nothing keeps being observed once the watch returned")
	}
	e(nil)
	vrf.Assert(vrf.Goroutines() == 0, "no goroutine is left")
}

// H_watch_waiting: a watch that is already waiting always ends with the first
// matching span, exactly when that span finishes.
func H_watch_waiting() {
	w := newWorld()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	over := false
	var spans []*collect.FinishedSpan
	var err error
	var pre *node
	if vrf.Choose("live", 2) == 1 {
		pre = w.start(nil, "pre")
	}
	go func() {
		spans, err = collect.WatchForSpans(ctx, w.reg, func(s *monkit.Span) bool { return s.Func().ShortName() == "m" })
		over = true
	}()
	vrf.Settle()
	vrf.Assert(!over, "a watch waits for its span")
	n := vrf.Bound("steps of a watch", 4, 5)
	for i := 0; i < n; i++ {
		switch vrf.Choose("step", 3) {
		case 0:
			open := w.open()
			if len(w.nodes) >= 5 {
				vrf.Stop()
			}
			var parent *node
			if k := vrf.Choose("parent", len(open)+1); k > 0 {
				parent = open[k-1]
			}
			x := w.start(parent, []string{"f", "m"}[vrf.Choose("name", 2)])
			if x.s.Func().ShortName() == "m" && w.trigger == nil {
				w.trigger = x
			}
		case 1:
			open := w.open()
			if len(open) == 0 {
				vrf.Stop()
			}
			w.finish(open[vrf.Choose("which", len(open))], vrf.Choose("how", 2))
		case 2:
			vrf.Settle()
			vrf.Assert(over == w.ended, "a watch ends when its span has finished")
			cancel()
			i = n
		}
		vrf.Settle()
		if over {
			break
		}
	}
	vrf.Settle()
	if w.ended {
		vrf.Assert(over && err == nil, "a watch ends when its span has finished")
		w.check(spans)
	} else if over {
		vrf.Assert(err == context.Canceled && spans == nil, "cancelling the context ends a watch with the context's error")
	}
	_ = pre
}

// counter is an observer that counts.
type counter struct{ starts, finishes int }

func (c *counter) Start(s *monkit.Span) {
	vrf.NoSched(true)
	c.starts++
	vrf.NoSched(false)
}
func (c *counter) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	vrf.NoSched(true)
	c.finishes++
	vrf.NoSched(false)
}

// H_observe_all: observing and cancelling while traces start: each span of a
// trace is seen at most once, and after the cancellation none is.
// vrf:preempt=2,3
func H_observe_all() {
	vrf.NoSched(true)
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	c := &counter{}
	ctx := context.Background()
	var exit func(*error)
	begin := func() {
		exit = sc.FuncNamed("f").Task(&ctx)
	}
	var cancel func()
	observe := func() { cancel = collect.ObserveAllTraces(reg, c) }
	switch vrf.Choose("at once", 2) {
	case 0: // observe while a trace starts
		vrf.NoSched(false)
		vrf.Parallel(observe, begin)
		vrf.NoSched(true)
		c.starts = 0
		x := ctx
		sc.FuncNamed("g").Task(&x)(nil)
		// a trace between its announcement and its first span may be missed
		vrf.Assert(c.starts <= 1 && c.finishes == c.starts, "a trace is observed at most once")
		cancel()
	case 1: // cancel while a trace starts
		observe()
		vrf.NoSched(false)
		vrf.Parallel(func() { cancel() }, begin)
		vrf.NoSched(true)
		vrf.Assert(c.starts <= 1, "a span is seen at most once")
	}
	*c = counter{}
	x := ctx
	sc.FuncNamed("g").Task(&x)(nil)
	y := context.Background()
	sc.FuncNamed("h").Task(&y)(nil)
	exit(nil)
	vrf.Assert(c.starts == 0 && c.finishes == 0, "nothing is observed after the cancellation")
	vrf.Assert(!vrf.Holds(monkit.SpanFromCtx(ctx).Trace(), c), "the observer is gone after the cancellation")
}

// H_find: FindSpan returns with the first match or the end of the context.
func H_find() {
	w := newWorld()
	ctx, cancel := context.WithCancel(context.Background())
	over, calls := false, 0
	go func() {
		collect.FindSpan(ctx, w.reg, func(s *monkit.Span) bool {
			calls++
			return s.Func().ShortName() == "m"
		})
		over = true
	}()
	vrf.Settle()
	vrf.Assert(!over, "FindSpan waits")
	w.finish(w.start(nil, "f"), 0)
	vrf.Settle()
	vrf.Assert(!over && calls == 1, "FindSpan waits for a match")
	if vrf.Choose("how", 2) == 0 {
		w.start(nil, "m")
	} else {
		cancel()
	}
	vrf.Settle()
	vrf.Assert(over, "FindSpan ends with a match or the context")
	c := calls
	w.finish(w.start(nil, "m"), 0)
	vrf.Assert(calls == c, "nothing keeps being observed")
	cancel()
	collect.FindSpan(context.Background(), w.reg, nil)
}

// H_sort: sorting by start time.
func H_sort() {
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	n := vrf.Bound("spans to sort", 3, 4)
	var spans []*collect.FinishedSpan
	for i := 0; i < n; i++ {
		ctx := context.Background()
		d := vrf.Int64("gap")
		vrf.Assume(vrf.And(d >= 0, d < 1<<20))
		vrf.AdvanceClock(time.Duration(d))
		reg.ScopeNamed("s").FuncNamed("f").Task(&ctx)
		spans = append(spans, &collect.FinishedSpan{Span: monkit.SpanFromCtx(ctx)})
	}
	for i := n - 1; i > 0; i-- {
		j := vrf.Choose("order", i+1)
		spans[i], spans[j] = spans[j], spans[i]
	}
	in := append([]*collect.FinishedSpan(nil), spans...)
	collect.StartTimeSorter(spans).Sort()
	for _, fs := range in {
		c := 0
		for _, o := range spans {
			if o == fs {
				c++
			}
		}
		vrf.Assert(c == 1, "sorting keeps each span once")
	}
	for i := 1; i < n; i++ {
		vrf.Assert(!spans[i].Span.Start().Before(spans[i-1].Span.Start()), "sorted spans are in order of their start")
	}
}

// H_many: a watched subtree of many spans in wide, deep and mixed trees.
func H_many() {
	w := newWorld()
	shape := vrf.Choose("shape", 3)
	n := vrf.Bound("many spans", 70, 140)
	w.start(nil, "root")
	c := collect.NewSpanCollector(nil)
	defer collect.ObserveAllTraces(w.reg, c)()
	for i := 1; i < n; i++ {
		w.start(w.nodes[[]int{0, i - 1, (i - 1) / 3}[shape]], "f")
	}
	w.trigger = w.nodes[vrf.Choose("watched", n)]
	c.ForceStart(w.trigger.s)
	for i := n - 1; i >= 0; i-- {
		w.finish(w.nodes[i], i%4)
	}
	vrf.Assert(isDone(c), "Done is closed when the watched span finished")
	w.again(c)
}
