// Package c06: the live span tree shows exactly the spans still running.
package c06

import (
	"context"
	"io"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

type span struct {
	s      *monkit.Span
	ctx    context.Context
	exit   func(*error)
	parent *span
	done   bool
}

type world struct {
	r   *monkit.Registry
	f   *monkit.Func
	g   *monkit.Func
	all []*span
}

func newWorld() *world {
	r := monkit.NewRegistry()
	s := r.ScopeNamed("s")
	return &world{r: r, f: s.FuncNamed("f"), g: r.ScopeNamed("t").FuncNamed("g")}
}

// start begins a span of either function under parent (nil: none).
func (w *world) start(parent *span) *span {
	f := w.f
	if len(w.all)%2 == 1 {
		f = w.g
	}
	return w.add(begin(f, parent))
}

func begin(f *monkit.Func, parent *span) *span {
	ctx := context.Background()
	if parent != nil {
		ctx = parent.ctx
	}
	exit := f.Task(&ctx)
	return &span{s: monkit.SpanFromCtx(ctx), ctx: ctx, exit: exit, parent: parent}
}

func (w *world) add(n *span) *span {
	w.all = append(w.all, n)
	return n
}

func (n *span) finish() {
	n.exit(nil)
	n.done = true
}

// end finishes the span normally, with an error or with a panic.
func (n *span) end(how int) {
	switch how {
	case 0:
		n.exit(nil)
	case 1:
		e := io.EOF
		n.exit(&e)
	case 2:
		_, p := vrf.Try(func() {
			defer n.exit(nil)
			panic("x")
		})
		vrf.Assert(p, "the panic propagates")
	}
	n.done = true
}

// check compares the whole tree with what is running.
func (w *world) check() {
	count := map[*monkit.Span]int{}
	w.r.AllSpans(func(s *monkit.Span) { count[s]++ })
	roots := map[*monkit.Span]int{}
	w.r.RootSpans(func(s *monkit.Span) { roots[s]++ })
	live, liveRoots := 0, 0
	for _, n := range w.all {
		if n.done {
			vrf.Assert(count[n.s] == 0, "no finished span is visited")
			vrf.Assert(roots[n.s] == 0, "no finished span is a root span")
			continue
		}
		live++
		vrf.Assert(count[n.s] == 1, "every running span is visited exactly once")
		if n.parent == nil || n.parent.done {
			liveRoots++
			vrf.Assert(roots[n.s] == 1, "a span without a running parent is a root span")
		} else {
			vrf.Assert(roots[n.s] == 0, "a span with a running parent is no root span")
		}
		vrf.Assert(n.s.Orphaned() == (n.parent != nil && n.parent.done), "Orphaned says whether the parent has finished")
		kids := map[*monkit.Span]int{}
		n.s.Children(func(s *monkit.Span) { kids[s]++ })
		nk := 0
		for _, c := range w.all {
			if !c.done && c.parent == n {
				nk++
				vrf.Assert(kids[c.s] == 1, "a running child appears among its parent's children")
			}
		}
		vrf.Assert(len(kids) == nk, "only running children appear among a span's children")
	}
	vrf.Assert(len(count) == live, "nothing else is visited")
	vrf.Assert(len(roots) == liveRoots, "nothing else is a root span")
	traces := map[*monkit.Trace]int64{}
	for _, n := range w.all {
		traces[n.s.Trace()] += 0
		if !n.done {
			traces[n.s.Trace()]++
		}
	}
	for t, k := range traces {
		vrf.Assert(t.Spans() == k, "a trace's span count is the number of its unfinished spans")
	}
}

// H_history: every history of starts and finishes, in every nesting and order.
func H_history() {
	w := newWorld()
	n := vrf.Bound("starts and finishes", 6, 8)
	for i := 0; i < n; i++ {
		k := vrf.Choose("start", 2)
		if k == 0 {
			p := vrf.Choose("parent", len(w.all)+1)
			if p == len(w.all) {
				w.start(nil)
			} else {
				w.start(w.all[p])
			}
		} else {
			var run []*span
			for _, s := range w.all {
				if !s.done {
					run = append(run, s)
				}
			}
			if len(run) == 0 {
				vrf.Stop()
			}
			run[vrf.Choose("finish", len(run))].finish()
		}
		w.check()
	}
	for _, s := range w.all {
		if !s.done {
			s.finish()
		}
	}
	w.check()
}

// H_ends: starts and finishes in every order, with every kind of end.
func H_ends() {
	w := newWorld()
	n := vrf.Bound("starts and finishes, with kinds", 5, 6)
	for i := 0; i < n; i++ {
		if k := vrf.Choose("what", len(w.all)+2); k < len(w.all) {
			if w.all[k].done {
				vrf.Stop()
			}
			w.all[k].end(vrf.Choose("end", 3))
		} else if k == len(w.all) {
			w.start(nil)
		} else {
			if len(w.all) == 0 {
				vrf.Stop()
			}
			w.start(w.all[len(w.all)-1])
		}
		w.check()
	}
}

// H_panics: spans that end in a panic or with an error leave the tree as well.
func H_panics() {
	w := newWorld()
	p := w.start(nil)
	ctx := p.ctx
	var c *span
	_, panicked := vrf.Try(func() {
		defer w.f.Task(&ctx)(nil)
		c = &span{s: monkit.SpanFromCtx(ctx), ctx: ctx, parent: p}
		w.add(c)
		w.start(c)
		w.check()
		panic("x")
	})
	vrf.Assert(panicked, "the panic propagates")
	c.done = true
	w.check()
	e := io.EOF
	w.all[2].exit(&e)
	w.all[2].done = true
	w.check()
	p.finish()
	w.check()
}

// H_kinds: remote and reset traces are root spans even under a running span.
func H_kinds() {
	w := newWorld()
	p := w.start(nil)
	ctx := p.ctx
	var exit func(*error)
	if vrf.Choose("kind", 2) == 0 {
		exit = w.f.ResetTrace(&ctx)
	} else {
		exit = w.f.RemoteTrace(&ctx, vrf.Int64("parent id"), monkit.NewTrace(4))
	}
	w.add(&span{s: monkit.SpanFromCtx(ctx), ctx: ctx, exit: exit})
	w.check()
	w.start(w.all[1])
	w.check()
	k := vrf.Choose("first", 3)
	w.all[k].finish()
	w.check()
	w.all[(k+1)%3].finish()
	w.check()
	w.all[(k+2)%3].finish()
	w.check()
}

// H_parent_child: a parent finishes while its child starts or finishes.
//
// vrf:preempt=3,5
func H_parent_child() {
	w := newWorld()
	p := w.start(nil)
	var c, d *span
	var fs []func()
	fs = append(fs, p.finish)
	switch vrf.Choose("case", 4) {
	case 0: // the child finishes
		c = w.start(p)
		fs = append(fs, c.finish)
	case 1: // a child starts
		fs = append(fs, func() { c = begin(w.f, p) })
	case 2: // a child starts and finishes
		fs = append(fs, func() { c = begin(w.f, p); c.finish() })
	case 3: // one child runs, another finishes
		c, d = w.start(p), w.start(p)
		fs = append(fs, d.finish)
	}
	vrf.Parallel(fs...)
	if len(w.all) == 1 {
		w.add(c)
	}
	w.check()
	if !c.done {
		c.finish()
	}
	w.check()
}

// H_family: three generations or siblings at once, with a reader walking.
//
// vrf:preempt=3,4
func H_family() {
	w := newWorld()
	p := w.start(nil)
	c := w.start(p)
	var g *span
	var fs []func()
	switch vrf.Choose("case", vrf.Bound("families", 3, 4)) {
	case 0: // grandchild starts while child and parent finish
		fs = []func(){p.finish, c.finish, func() { g = begin(w.f, c) }}
	case 1: // siblings start while the parent finishes
		fs = []func(){p.finish, func() { g = begin(w.f, p) }}
		fs = append(fs, c.finish)
	case 2: // walking at the same time
		fs = []func(){p.finish, func() {
			n := 0
			w.r.AllSpans(func(s *monkit.Span) { n++ })
			vrf.Assert(n <= 4, "walking visits no more than there is")
		}}
	case 3:
		fs = []func(){p.finish, c.finish, func() {
			c.s.Children(func(*monkit.Span) {})
			c.s.Orphaned()
			w.r.RootSpans(func(*monkit.Span) {})
		}}
	}
	vrf.Parallel(fs...)
	if g != nil {
		w.add(g)
	}
	w.check()
	for _, n := range w.all {
		if !n.done {
			n.finish()
		}
	}
	w.check()
}

// H_many: many spans at once, in wide, deep and mixed trees.
func H_many() {
	w := newWorld()
	n := vrf.Bound("spans at once", 40, 140)
	shape := vrf.Choose("shape", 3)
	var kids []*span
	for i := 0; i < n; i++ {
		p := -1
		if i > 0 {
			p = []int{0, i - 1, (i - 1) / 3}[shape]
		}
		if p < 0 {
			w.start(nil)
			continue
		}
		kids = append(kids, w.start(w.all[p]))
	}
	w.check()
	first := kids[vrf.Choose("first to finish", len(kids))]
	first.finish()
	w.check()
	w.all[0].finish()
	w.check()
	for i := range kids {
		if k := kids[(i*7+3)%len(kids)]; !k.done {
			k.finish()
			if i%8 == 0 {
				w.check()
			}
		}
	}
	w.check()
}

// H_default: the package's view of running spans is the default registry's.
func H_default() {
	f := monkit.ScopeNamed("d").FuncNamed("f")
	n := vrf.Choose("roots", 3)
	var spans []*monkit.Span
	for i := 0; i < n; i++ {
		ctx := context.Background()
		defer f.Task(&ctx)(nil)
		spans = append(spans, monkit.SpanFromCtx(ctx))
		child := ctx
		defer f.Task(&child)(nil)
	}
	var got []*monkit.Span
	monkit.RootSpans(func(s *monkit.Span) { got = append(got, s) })
	vrf.Assert(len(got) == n, "each running root is visited once")
	for _, s := range spans {
		found := 0
		for _, g := range got {
			if g == s {
				found++
			}
		}
		vrf.Assert(found == 1, "each running root is visited once")
	}
}
