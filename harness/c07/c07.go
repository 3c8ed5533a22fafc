// Package c07: spans inherit trace, parent and context values correctly.
package c07

import (
	"context"
	"strconv"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

type key string

// H_chain: every sequence of the ways to derive a context.
func H_chain() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	deadline := time.Unix(1000000000, 0)
	base, cancel := context.WithDeadline(context.WithValue(context.Background(), key("base"), 1), deadline.Add(1000000*time.Hour))
	defer cancel()
	want, _ := base.Deadline()
	ctx := base
	var cur *monkit.Span // the span the context carries
	n := vrf.Bound("derivations", 4, 6)
	vals := 0
	seen := map[*monkit.Trace]bool{}
	for i := 0; i < n; i++ {
		f := sc.FuncNamed("f")
		before := ctx
		switch vrf.Choose("op", 7) {
		case 0, 1: // Task, on a Func or by name
			if vrf.Choose("named", 2) == 0 {
				defer f.Task(&ctx)(nil)
			} else {
				f = sc.FuncNamed("g")
				defer sc.TaskNamed("g")(&ctx)(nil)
			}
			s := monkit.SpanFromCtx(ctx)
			vrf.Assert(s != nil && s != cur, "the context handed on carries the new span")
			vrf.Assert(s.Func() == f, "the span is of the task's function")
			pid, ok := s.ParentId()
			if cur != nil {
				vrf.Assert(s.Trace() == cur.Trace(), "a task in a span uses that span's trace")
				vrf.Assert(ok && pid == cur.Id(), "a task in a span reports it as its parent")
			} else {
				vrf.Assert(!seen[s.Trace()], "a task without a span starts a fresh trace")
				vrf.Assert(!ok, "a task without a span has no parent")
			}
			cur = s
		case 2:
			defer f.ResetTrace(&ctx)(nil)
			s := monkit.SpanFromCtx(ctx)
			vrf.Assert(s != nil && s != cur, "the context handed on carries the new span")
			vrf.Assert(!seen[s.Trace()], "ResetTrace starts a fresh trace")
			_, ok := s.ParentId()
			vrf.Assert(!ok, "ResetTrace has no parent")
			cur = s
		case 3:
			t := monkit.NewTrace(vrf.Int64("trace id"))
			if cur != nil && vrf.Choose("given trace", 2) == 1 {
				t = cur.Trace() // explicitly the trace it is already on
			}
			id := vrf.Int64("parent id")
			defer f.RemoteTrace(&ctx, id, t)(nil)
			s := monkit.SpanFromCtx(ctx)
			vrf.Assert(s != nil && s != cur, "the context handed on carries the new span")
			vrf.Assert(s.Trace() == t, "RemoteTrace uses the given trace")
			pid, ok := s.ParentId()
			vrf.Assert(vrf.And(ok, pid == id), "RemoteTrace reports the given parent id")
			root := 0
			r.RootSpans(func(x *monkit.Span) {
				if x == s {
					root++
				}
			})
			vrf.Assert(root == 1, "a span with a remote parent has no local one")
			cur = s
		case 4:
			vals++
			ctx = context.WithValue(ctx, key("k"), vals)
		case 5:
			ctx = monkit.ResetContextSpan(ctx)
			cur = nil
		case 6:
			var c func()
			ctx, c = context.WithCancel(ctx)
			defer c()
		}
		if cur != nil {
			seen[cur.Trace()] = true
		}
		vrf.Assert(monkit.SpanFromCtx(ctx) == cur, "the context carries the current span and no other")
		vrf.Assert(ctx.Value(key("base")) == any(1), "other values stay visible")
		if vals > 0 {
			vrf.Assert(ctx.Value(key("k")) == any(vals), "the latest value stays visible")
		} else {
			vrf.Assert(ctx.Value(key("k")) == nil, "no value appears from nowhere")
		}
		d, ok := ctx.Deadline()
		vrf.Assert(ok && d.Equal(want), "the deadline stays visible")
		vrf.Assert(ctx.Err() == nil, "the context is not cancelled")
		_ = before
	}
	cancel()
	vrf.Assert(ctx.Err() == context.Canceled, "cancellation stays visible")
	select {
	case <-ctx.Done():
	default:
		vrf.Fail("Done of the derived context is closed on cancellation")
	}
}

// H_nil: nil context pointers and nil contexts.
func H_nil() {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	start := func(ctx *context.Context) func(*error) {
		switch vrf.Choose("how", 4) {
		case 0:
			return f.Task(ctx)
		case 1:
			return f.ResetTrace(ctx)
		case 2:
			return f.RemoteTrace(ctx, 5, monkit.NewTrace(6))
		}
		return r.ScopeNamed("s").TaskNamed("f")(ctx)
	}
	var traces []*monkit.Trace
	for i := 0; i < 2; i++ {
		var exit func(*error)
		if vrf.Choose("nil", 2) == 0 {
			exit = start(nil)
		} else {
			var ctx context.Context
			exit = start(&ctx)
			vrf.Assert(ctx != nil, "a nil context is replaced")
			vrf.Assert(monkit.SpanFromCtx(ctx) != nil, "the context handed on carries the new span")
		}
		n := 0
		r.RootSpans(func(s *monkit.Span) {
			n++
			if id, ok := s.ParentId(); ok {
				vrf.Assert(id == 5, "a task without a context has no parent")
			}
			traces = append(traces, s.Trace())
		})
		vrf.Assert(n == 1, "the span runs as a root span")
		exit(nil)
	}
	vrf.Assert(traces[0] != traces[1], "tasks without a context do not share a trace")
}

// H_concurrent_children: siblings started at once from one context each inherit
// from it and keep their own contexts.
//
// vrf:preempt=2,3
func H_concurrent_children() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	defer f.Task(&ctx)(nil)
	p := monkit.SpanFromCtx(ctx)
	var ss [2]*monkit.Span
	child := func(i int) func() {
		return func() {
			c := ctx
			defer f.Task(&c)(nil)
			s := monkit.SpanFromCtx(c)
			pid, ok := s.ParentId()
			vrf.Assert(ok && pid == p.Id(), "each sibling has the same parent")
			vrf.Assert(s.Trace() == p.Trace(), "each sibling has the parent's trace")
			s.Annotate("n", "v")
			vrf.Assert(len(s.Annotations()) == 1, "annotations are the span's own")
			ss[i] = s
		}
	}
	vrf.Parallel(child(0), child(1))
	vrf.Assert(ss[0] != ss[1] && ss[0].Id() != ss[1].Id(), "siblings are different spans")
	vrf.Assert(monkit.SpanFromCtx(ctx) == p, "the parent's context keeps the parent")
}

// quote quotes printable ASCII the way Go does.
func quote(s string) string {
	r := "\""
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			r += "\\"
		}
		r += s[i : i+1]
	}
	return r + "\""
}

// H_args: Args and Annotations give back what was supplied.
func H_args() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	str := vrf.StringOf("arg", vrf.Choose("length", 3), "ab\"\\,")
	bs := []byte{vrf.Byte("byte"), 7}
	const hex = "0123456789abcdef"
	tm := time.Unix(1, 5).UTC()
	n := vrf.IntRange("int", 0, 9)
	defer f.Task(&ctx, str, bs, n, nil, []interface{}{str, bs, 2, tm}, tm)(nil)
	s := monkit.SpanFromCtx(ctx)
	a := s.Args()
	vrf.Assert(len(a) == 6, "every argument is given back")
	vrf.Assert(vrf.EqStr(a[0], quote(str)), "a string argument is given back quoted")
	vrf.Assert(vrf.EqStr(a[1], "[]uint8(0x"+hex[bs[0]>>4:bs[0]>>4+1]+hex[bs[0]&15:bs[0]&15+1]+"07)"), "bytes are given back in hex")
	vrf.Assert(vrf.EqStr(a[2], hex[n:n+1]), "a number is given back")
	vrf.Assert(a[3] == "<nil>", "nil is given back")
	vrf.Assert(a[5] == "time.Time(1970-01-01T00:00:01.000000005Z)", "a time is given back")
	vrf.Assert(vrf.EqStr(a[4], "{"+a[0]+", "+a[1]+", 2, "+a[5]+"}"), "a list is given back with its elements in the same forms")
}

// H_annotations: in order, and a returned list does not change afterwards.
func H_annotations() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	defer f.Task(&ctx)(nil)
	s := monkit.SpanFromCtx(ctx)
	n := vrf.Choose("annotations", vrf.Bound("annotations", 5, 9))
	var names, vals []string
	var earlier []monkit.Annotation
	at := vrf.Choose("early look", 3)
	for i := 0; i < n; i++ {
		if i == at {
			earlier = s.Annotations()
		}
		k, v := vrf.StringN("name", 1), vrf.StringN("value", 1)
		s.Annotate(k, v)
		names, vals = append(names, k), append(vals, v)
	}
	got := s.Annotations()
	vrf.Assert(len(got) == n, "every annotation is given back")
	for i, a := range got {
		vrf.Assert(vrf.And(vrf.EqStr(a.Name, names[i]), vrf.EqStr(a.Value, vals[i])), "annotations are given back in order")
	}
	if n > 0 {
		got[0].Name = "changed"
		vrf.Assert(vrf.EqStr(s.Annotations()[0].Name, names[0]), "the returned list is a copy")
	}
	if at < n {
		vrf.Assert(len(earlier) == at, "an earlier list does not grow")
		for i, a := range earlier {
			vrf.Assert(vrf.EqStr(a.Name, names[i]), "an earlier list does not change")
		}
	}
}

// H_values: trace values.
func H_values() {
	t := monkit.NewTrace(vrf.Int64("id"))
	ks := []interface{}{key("a"), "a", 1}
	want := map[interface{}]interface{}{}
	for i := 0; i < vrf.Bound("sets", 3, 4); i++ {
		k := ks[vrf.Choose("key", 3)]
		t.Set(k, i)
		want[k] = i
		for _, x := range ks {
			vrf.Assert(t.Get(x) == want[x], "Get gives back what was set last")
		}
		all := t.GetAll()
		vrf.Assert(len(all) == len(want), "GetAll gives back everything set")
		for x, v := range all {
			vrf.Assert(want[x] == v, "GetAll gives back what was set last")
		}
		all["other"] = 1
	}
	vrf.Assert(t.Get("other") == nil, "GetAll returns a copy")
}

// H_many: a long chain of spans, with many values, annotations and arguments.
func H_many() {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	n := vrf.Bound("spans in a chain", 150, 300)
	from := vrf.Choose("look from", n)
	type key int
	ctx := context.Background()
	var spans []*monkit.Span
	var at context.Context
	for i := 0; i < n; i++ {
		args := make([]interface{}, i)
		for j := range args {
			args[j] = j
		}
		defer f.Task(&ctx, args...)(nil)
		spans = append(spans, monkit.SpanFromCtx(ctx))
		ctx = context.WithValue(ctx, key(i), i)
		if i == from {
			at = ctx
		}
	}
	s := monkit.SpanFromCtx(at)
	vrf.Assert(s == spans[from] && s.Trace() == spans[0].Trace(), "the context carries its own span, all on one trace")
	id, ok := s.ParentId()
	vrf.Assert(ok == (from > 0) && (!ok || id == spans[from-1].Id()), "the parent is the span before")
	for i := 0; i < n; i++ {
		v := at.Value(key(i))
		vrf.Assert((v != nil) == (i <= from) && (v == nil || v.(int) == i), "the context carries every value set on the way and no other")
	}
	a := s.Args()
	vrf.Assert(len(a) == from, "every argument is given back")
	for i := range a {
		vrf.Assert(a[i] == strconv.Itoa(i), "every argument is given back in order")
	}
	for i := 0; i < n; i++ {
		s.Annotate(strconv.Itoa(i), "v")
	}
	an := s.Annotations()
	vrf.Assert(len(an) == n, "every annotation is given back")
	for i := range an {
		vrf.Assert(an[i].Name == strconv.Itoa(i), "annotations are given back in order")
	}
}
