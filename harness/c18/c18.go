// Package c18: the HTTP middleware propagates traces and records the status.
package c18

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"

	"github.com/spacemonkeygo/monkit/v3"
	mh "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"

	"vharness/hx"
	"vharness/vrf"
)

// rec is a response writer that records what it is asked to do.
type rec struct {
	h     http.Header
	codes []int
	data  []string
	n     int
	err   error
}

func (r *rec) Header() http.Header  { return r.h }
func (r *rec) WriteHeader(code int) { r.codes = append(r.codes, code); r.data = append(r.data, "H") }
func (r *rec) Write(p []byte) (int, error) {
	r.data = append(r.data, "W"+string(p))
	return r.n, r.err
}

type flushRec struct {
	*rec
}

func (r flushRec) Flush() { r.data = append(r.data, "F") }

type handler func(w http.ResponseWriter, r *http.Request)

func (h handler) ServeHTTP(w http.ResponseWriter, r *http.Request) { h(w, r) }

func ref(v int64) *int64 { return &v }

// request makes a request with the given trace headers.
func request(i mh.TraceInfo) *http.Request {
	r := &http.Request{Method: "GET", Header: http.Header{}, RequestURI: "/x?y=1", URL: &url.URL{Path: "/x"}}
	i.SetHeader(r.Header)
	return r
}

func annotations(s *monkit.Span) map[string]string {
	rv := map[string]string{}
	for _, a := range s.Annotations() {
		_, dup := rv[a.Name]
		vrf.Assert(!dup, "an annotation is set once")
		rv[a.Name] = a.Value
	}
	return rv
}

// H_server_trace: the span of the handler for any ids and flags.
func H_server_trace() {
	reg := monkit.NewRegistry()
	scope := reg.ScopeNamed("srv")
	var i mh.TraceInfo
	t, p := vrf.Int64("trace"), vrf.Int64("parent")
	vrf.Assume(vrf.And(t >= 0x10, t < 0x100, p >= -1, p < 8))
	ids := vrf.Choose("ids", 2) == 1
	if ids {
		i.TraceId, i.ParentId = ref(t), ref(p)
	}
	i.Sampled = vrf.Choose("sampled", 2) == 1
	cb := 0
	if vrf.Choose("callback", 2) == 1 {
		reg.ObserveTraces(func(t *monkit.Trace) {
			t.Set(present.SampledCBKey, func(*monkit.Trace) { cb++ })
		})
	}
	type key int
	r := request(i).WithContext(context.WithValue(context.Background(), key(1), "v"))
	w := &rec{h: http.Header{}}
	var seen []*monkit.Span
	h := mh.TraceHandler(handler(func(w http.ResponseWriter, r *http.Request) {
		s := monkit.SpanFromCtx(r.Context())
		vrf.Assert(s != nil, "the handler runs in a span")
		vrf.Assert(r.Context().Value(key(1)) == "v", "the handler keeps the values of the request's context")
		seen = append(seen, s)
		if ids {
			vrf.Assert(s.Trace().Id() == t, "the span is on the trace of the request")
			pid, ok := s.ParentId()
			vrf.Assert(vrf.And(ok, pid == p), "the parent is that of the request")
		}
		sampled, _ := s.Trace().Get(present.SampledKey).(bool)
		vrf.Assert(sampled == i.Sampled, "the trace is sampled as the request asks")
		vrf.Assert(annotations(s)["http.uri"] == "/x?y=1", "the span has the request's URI")
		live := 0
		reg.AllSpans(func(o *monkit.Span) {
			if o == s {
				live++
			}
		})
		vrf.Assert(live == 1, "the span is live while the handler runs")
		vrf.Assert(s.Func().Scope() == scope, "the span is in the scope given")
	}), scope)
	for n := 0; n < 2; n++ {
		h.ServeHTTP(w, r)
		vrf.Assert(len(seen) == n+1, "the handler is called once per request")
	}
	vrf.Assert(len(w.codes) == 0 && len(w.data) == 0, "the response passes through unaltered")
	vrf.Assert(seen[0] != seen[1], "each request has its span")
	if !ids {
		vrf.Assert(seen[0].Trace() != seen[1].Trace(), "each request without ids has a fresh trace")
		vrf.Assert(seen[0].Trace().Id() != seen[1].Trace().Id(), "each request without ids has a fresh trace id")
	}
	reg.AllSpans(func(o *monkit.Span) { vrf.Fail("no span is left") })
	st := hx.Stats(seen[0].Func())
	hx.Want(st, "successes", 2)
	for _, s := range seen {
		a := annotations(s)
		vrf.Assert(a["http.responsecode"] == "200" && a["http.uri"] == "/x?y=1" && len(a) == 2, "the span has the URI and the status")
	}
	own := 0
	if i.Sampled && !ids {
		own = 2
		vrf.Assert(w.h.Get("trace-id") == fmt.Sprintf("%x", seen[1].Trace().Id()), "the response to a request for sampling names the trace")
		vrf.Assert(w.h.Get("child-id") == fmt.Sprintf("%x", seen[1].Id()), "the response to a request for sampling names the span")
	}
	vrf.Assert(len(w.h) == own, "no other header is set")
	_ = cb
}

// H_server_response: anything the handler writes reaches the writer, and the
// status code is the last one set.
func H_server_response() {
	reg := monkit.NewRegistry()
	scope := reg.ScopeNamed("srv")
	base := &rec{h: http.Header{"A": []string{"b"}}, n: vrf.Int("written")}
	if vrf.Choose("write error", 2) == 1 {
		base.err = errors.New("write")
	}
	flusher := vrf.Choose("flusher", 2) == 1
	var w http.ResponseWriter = base
	if flusher {
		w = flushRec{base}
	}
	steps := vrf.Bound("calls by the handler", 3, 4)
	var s *monkit.Span
	var want []string
	var codes []int
	last := 200
	boom := errors.New("boom")
	panics := false
	h := mh.TraceHandler(handler(func(w http.ResponseWriter, r *http.Request) {
		s = monkit.SpanFromCtx(r.Context())
		f, isF := w.(http.Flusher)
		vrf.Assert(isF == flusher, "the writer is a Flusher exactly when the original is")
		for i := 0; i < steps; i++ {
			switch vrf.Choose("call", 6) {
			case 0:
				return
			case 1:
				last = vrf.Int("code")
				vrf.Assume(vrf.And(last >= 100, last <= 999))
				codes = append(codes, last)
				want = append(want, "H")
				w.WriteHeader(last)
			case 2:
				want = append(want, "Wab")
				n, err := w.Write([]byte("ab"))
				vrf.Assert(n == base.n && err == base.err, "Write returns what the original returns")
			case 3:
				if !isF {
					vrf.Stop()
				}
				want = append(want, "F")
				f.Flush()
			case 4:
				if len(w.Header()) == 2 {
					vrf.Stop()
				}
				w.Header().Set("C", "d")
			case 5:
				panics = true
				panic(boom)
			}
		}
	}), scope)
	got, _ := vrf.Try(func() { h.ServeHTTP(w, request(mh.TraceInfo{})) })
	if panics {
		vrf.Assert(got == any(boom), "the panic propagates")
	} else {
		vrf.Assert(got == nil, "there is no panic")
	}
	vrf.Assert(len(base.data) == len(want) && len(base.codes) == len(codes), "every call reaches the writer")
	for i := range want {
		vrf.Assert(base.data[i] == want[i], "the calls reach the writer in order")
	}
	for i := range codes {
		vrf.Assert(base.codes[i] == codes[i], "the status codes reach the writer")
	}
	vrf.Assert(base.h.Get("A") == "b", "the headers are those of the original")
	reg.AllSpans(func(o *monkit.Span) { vrf.Fail("the span has ended") })
	st := hx.Stats(s.Func())
	np := 0.0
	if panics {
		np = 1
	}
	hx.Want(st, "panics", np)
	hx.Want(st, "current", 0)
	if !panics {
		vrf.Assert(vrf.EqStr(annotations(s)["http.responsecode"], fmt.Sprint(last)), "the status is the last one set")
	}
}

// H_server_baggage: allowed baggage becomes annotations.
func H_server_baggage() {
	reg := monkit.NewRegistry()
	k, v := vrf.StringN("key", 1), vrf.String("value", 2)
	for _, x := range []string{k, v} {
		for i := 0; i < len(x); i++ {
			vrf.Assume(vrf.And(x[i] != ',', x[i] != '='))
		}
	}
	var s *monkit.Span
	h := mh.TraceHandler(handler(func(w http.ResponseWriter, r *http.Request) {
		s = monkit.SpanFromCtx(r.Context())
	}), reg.ScopeNamed("srv"), "k", "z")
	r := request(mh.TraceInfo{TraceId: ref(3), ParentId: ref(4), Baggage: map[string]string{k: v}})
	h.ServeHTTP(&rec{h: http.Header{}}, r)
	a := annotations(s)
	n := 2
	if k == "k" || k == "z" {
		n = 3
		vrf.Assert(vrf.EqStr(a[k], v), "allowed baggage becomes an annotation")
	}
	vrf.Assert(len(a) == n, "nothing else becomes an annotation")
}

type client func(*http.Request) (*http.Response, error)

func (c client) Do(r *http.Request) (*http.Response, error) { return c(r) }

// H_client: any outcome of the client, in a sampled trace or not.
func H_client() {
	reg := monkit.NewRegistry()
	scope := reg.ScopeNamed("cl")
	t := vrf.Int64("trace")
	vrf.Assume(vrf.And(t >= 0x10, t < 0x100))
	ctx := context.Background()
	kind := vrf.Choose("parent", 6)
	sampled := false
	var parent *monkit.Span
	switch kind {
	case 0: // no span
	case 1:
		reg.ObserveTraces(func(t *monkit.Trace) { t.Set(present.SampledKey, true) })
		sampled = true
	case 2, 3, 4, 5:
		trace := monkit.NewTrace(t)
		switch kind {
		case 4: // explicitly not sampled
			trace.Set(present.SampledKey, false)
		case 5: // not a flag at all
			trace.Set(present.SampledKey, "true")
		}
		sampled = kind == 3
		if sampled {
			trace.Set(present.SampledKey, true)
		}
		done := reg.ScopeNamed("up").FuncNamed("up").RemoteTrace(&ctx, 7, trace)
		defer done(nil)
		parent = monkit.SpanFromCtx(ctx)
	}
	own := 1
	req := &http.Request{Method: "PUT", Header: http.Header{"X": []string{"y"}}, URL: &url.URL{Scheme: "http", Host: "h", Path: "/p"}}
	if vrf.Choose("headers", 2) == 1 { // a request made without headers
		req.Header, own = nil, 0
	}
	var resp *http.Response
	var err error
	code := vrf.Int("code")
	vrf.Assume(vrf.And(code >= 100, code <= 999))
	boom := errors.New("boom")
	out := vrf.Choose("outcome", 4)
	switch out {
	case 0:
		resp = &http.Response{StatusCode: code}
	case 1:
		err = errors.New("refused")
	case 2:
		resp, err = &http.Response{StatusCode: code}, errors.New("odd")
	}
	calls := 0
	var s *monkit.Span
	cl := client(func(r *http.Request) (*http.Response, error) {
		calls++
		vrf.Assert(r == req, "the request is the one given")
		vrf.Assert(own == 0 || r.Header.Get("X") == "y", "the headers of the request are kept")
		n := 0
		reg.AllSpans(func(o *monkit.Span) {
			if o.Func().Scope() == scope {
				n++
				s = o
			}
		})
		vrf.Assert(n == 1, "the request runs in one span")
		if parent != nil {
			pid, ok := s.ParentId()
			vrf.Assert(ok && pid == parent.Id() && s.Trace() == parent.Trace(), "the span is a child of the span of the context")
		}
		i := mh.TraceInfoFromHeader(r.Header)
		vrf.Assert(i.Sampled == sampled, "the headers ask for sampling exactly in a sampled trace")
		if sampled {
			vrf.Assert(i.TraceId != nil && i.ParentId != nil, "the headers have ids")
			vrf.Assert(*i.TraceId == s.Trace().Id(), "the headers name the trace")
			ok := *i.ParentId == s.Id()
			if parent != nil {
				ok = vrf.Or(ok, *i.ParentId == parent.Id())
			}
			vrf.Assert(ok, "the headers name the span or its parent")
			vrf.Assert(len(r.Header) == own+1, "no other header is set")
		} else {
			vrf.Assert(len(r.Header) == own, "no header is set outside a sampled trace")
		}
		if out == 3 {
			panic(boom)
		}
		return resp, err
	})
	var gr *http.Response
	var ge error
	pan, _ := vrf.Try(func() { gr, ge = mh.TraceRequest(ctx, scope, cl, req) })
	vrf.Assert(calls == 1, "the request is made once")
	if out == 3 {
		vrf.Assert(pan == any(boom), "the panic propagates")
	} else {
		vrf.Assert(pan == nil && gr == resp && ge == err, "the response and error are those of the client")
	}
	reg.AllSpans(func(o *monkit.Span) { vrf.Assert(o == parent, "the span has ended") })
	st := hx.Stats(s.Func())
	ok := 0.0
	if out == 0 {
		ok = 1
		vrf.Assert(resp.StatusCode == code, "the response is unaltered")
		a := annotations(s)
		vrf.Assert(a["http.uri"] == "http://h/p", "the span has the URI")
		vrf.Assert(vrf.EqStr(a["http.responsecode"], fmt.Sprint(code)), "the span has the status")
	}
	bad := 0.0
	if out == 1 || out == 2 {
		bad = 1
	}
	hx.Want(st, "successes", ok)
	hx.Want(st, "errors", bad)
}

// H_parallel: the requests of two goroutines do not mix.
// vrf:preempt=2,3
func H_parallel() {
	reg := monkit.NewRegistry()
	scope := reg.ScopeNamed("srv")
	var spans [2]*monkit.Span
	h := mh.TraceHandler(handler(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == "A" {
			spans[0] = monkit.SpanFromCtx(r.Context())
			w.WriteHeader(404)
		} else {
			spans[1] = monkit.SpanFromCtx(r.Context())
			w.Write([]byte("x"))
		}
	}), scope)
	var ws [2]*rec
	for i := range ws {
		ws[i] = &rec{h: http.Header{}}
	}
	one := func(m string, i int) func() {
		r := request(mh.TraceInfo{TraceId: ref(int64(5 + i)), ParentId: ref(int64(8 + i))})
		r.Method = m
		return func() { h.ServeHTTP(ws[i], r) }
	}
	vrf.Parallel(one("A", 0), one("B", 1))
	for i, code := range []string{"404", "200"} {
		s := spans[i]
		vrf.Assert(s.Trace().Id() == int64(5+i), "each request is on its trace")
		vrf.Assert(annotations(s)["http.responsecode"] == code, "each request has its status")
		vrf.Assert(len(ws[i].data) == 1, "each response has its data")
	}
	reg.AllSpans(func(o *monkit.Span) { vrf.Fail("no span is left") })
}
