// Package c08: observers see every span exactly once, until cancelled.
package c08

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

var errBoom = errors.New("boom")

type obs struct {
	mu       sync.Mutex
	starts   map[*monkit.Span]int
	finishes map[*monkit.Span]int
	errs     map[*monkit.Span]error
	panics   map[*monkit.Span]bool
	name     string
	cancel   func()
	on       bool
	sawBy    []string // observers whose context value was visible in the last Start
}

func newObs(name string) *obs {
	return &obs{starts: map[*monkit.Span]int{}, finishes: map[*monkit.Span]int{}, errs: map[*monkit.Span]error{}, panics: map[*monkit.Span]bool{}, name: name}
}

func (o *obs) Start(s *monkit.Span) {
	o.mu.Lock()
	o.starts[s]++
	o.mu.Unlock()
}

func (o *obs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.mu.Lock()
	o.finishes[s]++
	o.errs[s] = err
	o.panics[s] = panicked
	o.mu.Unlock()
}

type ck string

// ctxObs marks the context it hands on.
type ctxObs struct {
	*obs
	peers []string
	fin   context.Context
}

func (o *ctxObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.obs.Start(s)
	o.sawBy = nil
	for _, p := range o.peers {
		if ctx.Value(ck(p)) != nil {
			o.sawBy = append(o.sawBy, p)
		}
	}
	return context.WithValue(ctx, ck(o.name), true)
}

func (o *ctxObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.obs.Finish(s, err, panicked, finish)
	o.fin = ctx
}

type live struct {
	s    *monkit.Span
	exit func(*error)
}

// H_history: every history of registering, cancelling, starting and finishing.
func H_history() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	defer f.Task(&root)(nil)
	tr := monkit.SpanFromCtx(root).Trace()
	other := context.Background()
	defer f.Task(&other)(nil)

	var os []*obs
	var run []live
	wantS, wantF := map[*obs]map[*monkit.Span]int{}, map[*obs]map[*monkit.Span]int{}
	var spans []*monkit.Span
	n := vrf.Bound("events", 6, 7)
	for i := 0; i < n; i++ {
		switch vrf.Choose("event", 4) {
		case 0:
			o := newObs("o")
			o.cancel = tr.ObserveSpans(o)
			o.on = true
			os = append(os, o)
			wantS[o], wantF[o] = map[*monkit.Span]int{}, map[*monkit.Span]int{}
		case 1:
			if len(os) == 0 {
				vrf.Stop()
			}
			o := os[vrf.Choose("which observer", len(os))]
			o.cancel()
			o.on = false
		case 2:
			ctx := root
			e := f.Task(&ctx)
			s := monkit.SpanFromCtx(ctx)
			run = append(run, live{s, e})
			spans = append(spans, s)
			for _, o := range os {
				if o.on {
					wantS[o][s]++
				}
			}
		case 3:
			if len(run) == 0 {
				vrf.Stop()
			}
			k := vrf.Choose("which span", len(run))
			l := run[k]
			run = append(append([]live(nil), run[:k]...), run[k+1:]...)
			var err error
			kind := vrf.Choose("outcome", 2)
			if kind == 1 {
				err = io.EOF
			}
			l.exit(&err)
			for _, o := range os {
				if o.on {
					wantF[o][l.s]++
					vrf.Assert(o.errs[l.s] == err && !o.panics[l.s], "the observer is told the span's error")
				}
			}
		}
		// spans of another trace are nobody's business
		ctx := other
		f.Task(&ctx)(nil)
		for _, o := range os {
			for _, s := range spans {
				vrf.Assert(o.starts[s] == wantS[o][s], "an observer is told of each span's start exactly once while registered")
				vrf.Assert(o.finishes[s] == wantF[o][s], "an observer is told of each span's finish exactly once while registered")
			}
			for s := range o.starts {
				vrf.Assert(s.Trace() == tr, "an observer is told only of its trace's spans")
			}
			for s := range o.finishes {
				vrf.Assert(s.Trace() == tr, "an observer is told only of its trace's spans")
			}
		}
	}
}

// H_panic: a panicking span is reported with the panic flag.
func H_panic() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	defer f.Task(&root)(nil)
	o := newObs("o")
	defer monkit.SpanFromCtx(root).Trace().ObserveSpans(o)()
	var s *monkit.Span
	withErr := vrf.Choose("error set", 2) == 1
	_, panicked := vrf.Try(func() {
		var err error
		ctx := root
		defer f.Task(&ctx)(&err)
		s = monkit.SpanFromCtx(ctx)
		if withErr {
			err = errBoom
		}
		panic("x")
	})
	vrf.Assert(panicked, "the panic propagates")
	vrf.Assert(o.starts[s] == 1 && o.finishes[s] == 1, "the observer is told of the span once")
	vrf.Assert(o.panics[s], "the observer is told that it panicked")
	vrf.Assert((o.errs[s] == errBoom) == withErr, "the observer is told its error")
}

// H_contexts: contexts are threaded from observer to observer to the task.
func H_contexts() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	defer f.Task(&root)(nil)
	tr := monkit.SpanFromCtx(root).Trace()
	names := []string{"a", "b", "c"}[:1+vrf.Choose("observers", vrf.Bound("observers", 3, 3))]
	var os []*ctxObs
	for _, n := range names {
		o := &ctxObs{obs: newObs(n), peers: names}
		o.cancel = tr.ObserveSpansCtx(o)
		o.on = true
		os = append(os, o)
	}
	if k := vrf.Choose("cancelled", len(os)+1); k < len(os) {
		os[k].cancel()
		os[k].on = false
	}
	ctx := root
	exit := f.Task(&ctx)
	s := monkit.SpanFromCtx(ctx)
	vrf.Assert(s != nil && s != monkit.SpanFromCtx(root), "the task's context still carries its span")
	seen := map[int]bool{}
	on := 0
	for _, o := range os {
		vrf.Assert((ctx.Value(ck(o.name)) != nil) == o.on, "each observer's context reaches the task")
		if o.on {
			on++
			vrf.Assert(!seen[len(o.sawBy)], "observers are called one after the other")
			seen[len(o.sawBy)] = true
		}
	}
	for i := 0; i < on; i++ {
		vrf.Assert(seen[i], "each observer gets the context of the one before it")
	}
	exit(nil)
	for _, o := range os {
		if o.on {
			vrf.Assert(o.fin != nil && o.fin.Value(ck(o.name)) != nil, "Finish gets the task's context")
			vrf.Assert(o.finishes[s] == 1 && o.starts[s] == 1, "each observer is told once")
		}
	}
}

func task(f *monkit.Func, ctx context.Context) *monkit.Span {
	exit := f.Task(&ctx)
	s := monkit.SpanFromCtx(ctx)
	exit(nil)
	return s
}

// H_concurrent: registering, cancelling, starting and finishing at once.
//
// vrf:preempt=3,4
func H_concurrent() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	defer f.Task(&root)(nil)
	tr := monkit.SpanFromCtx(root).Trace()
	a, b, c := newObs("a"), newObs("b"), newObs("c")
	a.cancel = tr.ObserveSpans(a)
	b.cancel = tr.ObserveSpans(b)
	c.cancel = tr.ObserveSpans(c)
	a.on, b.on, c.on = true, true, true
	all := []*obs{a, b, c}
	var s *monkit.Span
	var fs []func()
	switch vrf.Choose("case", vrf.Bound("cases", 6, 7)) {
	case 0: // neighbours are cancelled at once
		fs = []func(){a.cancel, b.cancel}
		a.on, b.on = false, false
	case 1:
		fs = []func(){b.cancel, c.cancel}
		b.on, c.on = false, false
	case 2: // the head is cancelled while another registers
		d := newObs("d")
		all = append(all, d)
		fs = []func(){c.cancel, func() { d.cancel = tr.ObserveSpans(d) }}
		c.on, d.on = false, true
	case 3: // two register at once
		d, e := newObs("d"), newObs("e")
		all = append(all, d, e)
		fs = []func(){func() { d.cancel = tr.ObserveSpans(d) }, func() { e.cancel = tr.ObserveSpans(e) }}
		d.on, e.on = true, true
	case 4: // one is cancelled while a span runs
		fs = []func(){b.cancel, func() { s = task(f, root) }}
		b.on = false
	case 5: // one registers while a span runs
		d := newObs("d")
		all = append(all, d)
		fs = []func(){func() { d.cancel = tr.ObserveSpans(d) }, func() { s = task(f, root) }}
		d.on = true
	case 6: // two are cancelled while another registers
		d := newObs("d")
		all = append(all, d)
		fs = []func(){b.cancel, c.cancel, func() { d.cancel = tr.ObserveSpans(d) }}
		b.on, c.on, d.on = false, false, true
	}
	vrf.Parallel(fs...)
	if s != nil {
		for _, o := range all {
			vrf.Assert(o.starts[s] <= 1 && o.finishes[s] <= 1, "an observer is told at most once of a concurrent span")
		}
		for _, o := range []*obs{a, c} {
			vrf.Assert(o.starts[s] == 1 && o.finishes[s] == 1, "registering or cancelling one observer does not affect another")
		}
	}
	s2 := task(f, root)
	for _, o := range all {
		want := 0
		if o.on {
			want = 1
		}
		vrf.Assert(o.starts[s2] == want && o.finishes[s2] == want, "afterwards exactly the registered observers are told, once")
	}
	for _, o := range all {
		o.cancel()
	}
	s3 := task(f, root)
	for _, o := range all {
		vrf.Assert(o.starts[s3]+o.finishes[s3] == 0, "a cancelled observer is told nothing new")
	}
}

// H_traces: trace observers on a registry.
func H_traces() {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	type watch struct {
		seen   map[*monkit.Trace]int
		want   map[*monkit.Trace]int
		on     bool
		cancel func()
	}
	var ws []*watch
	for i := vrf.Bound("trace events", 4, 5); i > 0; i-- {
		switch vrf.Choose("event", 3) {
		case 0:
			w := &watch{seen: map[*monkit.Trace]int{}, want: map[*monkit.Trace]int{}, on: true}
			w.cancel = r.ObserveTraces(func(t *monkit.Trace) { w.seen[t]++ })
			ws = append(ws, w)
		case 1:
			if len(ws) == 0 {
				vrf.Stop()
			}
			w := ws[vrf.Choose("which", len(ws))]
			w.cancel()
			w.on = false
		case 2:
			ctx := context.Background()
			var t *monkit.Trace
			var exit func(*error)
			switch vrf.Choose("how", 4) {
			case 0:
				exit = f.Task(&ctx)
			case 1:
				exit = f.ResetTrace(&ctx)
			case 2:
				exit = f.RemoteTrace(&ctx, 3, monkit.NewTrace(8))
			case 3: // a fresh trace with a remote parent
				exit = f.RemoteTrace(&ctx, 3, nil)
			}
			t = monkit.SpanFromCtx(ctx).Trace()
			f.Task(&ctx)(nil) // a child starts no trace
			exit(nil)
			for _, w := range ws {
				if w.on {
					w.want[t]++
				}
			}
		}
		for _, w := range ws {
			vrf.Assert(len(w.seen) == len(w.want), "a trace observer is called for every trace started while registered, and no other")
			for t, n := range w.seen {
				vrf.Assert(n == 1 && w.want[t] == 1, "a trace observer is called exactly once per trace")
			}
		}
	}
}

// H_traces_concurrent: registering and cancelling trace observers at once with
// traces starting.
//
// vrf:preempt=2,3
func H_traces_concurrent() {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	var mu sync.Mutex
	var a, b, c int
	count := func(p *int) func(*monkit.Trace) {
		return func(*monkit.Trace) { mu.Lock(); *p++; mu.Unlock() }
	}
	ca := r.ObserveTraces(count(&a))
	cb := r.ObserveTraces(count(&b))
	start := func() { ctx := context.Background(); f.Task(&ctx)(nil) }
	var cc func()
	wantA, wantB, wantC := 1, 1, 0
	switch vrf.Choose("case", 3) {
	case 0:
		vrf.Parallel(cb, start)
		vrf.Assert(a == 1 && b <= 1, "cancelling one trace observer does not affect another")
		wantB = 0
	case 1:
		vrf.Parallel(cb, func() { cc = r.ObserveTraces(count(&c)) })
		wantB, wantC = 0, 1
	case 2:
		vrf.Parallel(func() { cc = r.ObserveTraces(count(&c)) }, start)
		vrf.Assert(a == 1 && b == 1 && c <= 1, "registering a trace observer does not affect another")
		wantC = 1
	}
	a, b, c = 0, 0, 0
	start()
	vrf.Assert(a == wantA && b == wantB && c == wantC, "afterwards exactly the registered trace observers are called, once")
	ca()
	if cc != nil {
		cc()
	}
	a, b, c = 0, 0, 0
	start()
	vrf.Assert(a == 0 && c == 0, "a cancelled trace observer is not called")
}

// H_many: many observers of one trace, any two of them cancelled.
func H_many() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	defer f.Task(&root)(nil)
	tr := monkit.SpanFromCtx(root).Trace()
	n := vrf.Bound("many observers", 24, 70)
	var os []*obs
	for i := 0; i < n; i++ {
		o := newObs("o")
		o.cancel = tr.ObserveSpans(o)
		o.on = true
		os = append(os, o)
	}
	look := func() {
		s := task(f, root)
		for _, o := range os {
			want := 0
			if o.on {
				want = 1
			}
			vrf.Assert(o.starts[s] == want && o.finishes[s] == want, "each observer is told once, until cancelled")
		}
	}
	look()
	for i := 0; i < 2; i++ {
		o := os[vrf.Choose("cancelled", n)]
		o.cancel()
		o.on = false
		look()
	}
	for i := range os {
		o := os[(i*5+1)%n]
		o.cancel()
		o.on = false
		look()
	}
}

// plain is an observer of a type that cannot be compared.
type plain struct {
	log   []int
	seen  *int
	ended *int
}

func (p plain) Start(s *monkit.Span) { *p.seen++ }

func (p plain) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) { *p.ended++ }

// H_same: one observer registered several times counts as several observers,
// and each cancel function ends its own registration only, however often it is
// called.
func H_same() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	defer f.Task(&root)(nil)
	tr := monkit.SpanFromCtx(root).Trace()
	same := newObs("o")
	var seen, ended int
	comparable := vrf.Choose("comparable", 2) == 1
	var o monkit.SpanObserver = plain{seen: &seen, ended: &ended}
	if comparable {
		o = same
	}
	count := func() (int, int) {
		s := task(f, root)
		if comparable {
			return same.starts[s], same.finishes[s]
		}
		a, b := seen, ended
		seen, ended = 0, 0
		return a, b
	}
	n := vrf.Bound("registrations of one observer", 3, 4)
	on := make([]bool, n)
	var cancels []func()
	for i := 0; i < n; i++ {
		cancels = append(cancels, tr.ObserveSpans(o))
		on[i] = true
	}
	look := func() {
		want := 0
		for _, b := range on {
			if b {
				want++
			}
		}
		a, b := count()
		vrf.Assert(a == want && b == want, "an observer is told once for each registration that is not cancelled")
	}
	look()
	for i := 0; i < n; i++ {
		k := vrf.Choose("cancelled", n)
		cancels[k]()
		on[k] = false
		look()
	}
}
