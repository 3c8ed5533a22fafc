// Package c23: a waiting trace query stays alive, stops on a write error and
// ends clean.
package c23

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"

	"vharness/vrf"
)

var (
	errWrite = errors.New("write failed")
	errPanic = errors.New("write panicked")
)

// out is the response. Its fields are not protected: the library must not
// write from two goroutines at once.
type out struct {
	buf   []byte
	calls int
	fail  int // what the next writes do: 0 succeed, 1 fail, 2 panic with an error, 3 panic, 4 one fails
	fails int
	busy  bool
	over  bool
}

func (o *out) Write(p []byte) (int, error) {
	o.calls++
	vrf.Assert(!o.over, "no write happens once the query has returned")
	vrf.Assert(!o.busy, "one write happens at a time")
	o.busy = true
	vrf.Yield()
	o.busy = false
	vrf.Assert(!o.over, "no write goes on once the query has returned")
	fail := o.fail
	if fail > 1 && string(p) != "\n" {
		fail = 0 // only keep-alives are guarded against panics
	}
	if fail > 0 {
		o.fails++
	}
	switch fail {
	case 4:
		o.fail = 0
		return 0, errWrite
	case 1:
		return 0, errWrite
	case 2:
		panic(errPanic)
	case 3:
		panic("write panicked")
	}
	o.buf = append(o.buf, p...)
	return len(p), nil
}

// writeErr checks the error a failed write leads to.
func writeErr(err error, kind int) {
	switch kind {
	case 1, 4:
		vrf.Assert(err == errWrite, "the error of a failed keep-alive is returned")
	case 2:
		vrf.Assert(err == errPanic, "the error a keep-alive panicked with is returned")
	case 3:
		vrf.Assert(err != nil, "a panic in a keep-alive is returned as an error")
	}
}

// newlines checks that b has n newlines and then, if full, the report.
func newlines(b []byte, n int, full, svg bool) {
	vrf.Assert(len(b) >= n, "each keep-alive writes a newline")
	for i := 0; i < n; i++ {
		vrf.Assert(b[i] == '\n', "a waiting query writes only newlines")
	}
	b = b[n:]
	if !full {
		vrf.Assert(len(b) == 0, "a waiting query writes only keep-alives")
		return
	}
	if svg {
		vrf.Assert(len(b) > 5 && b[0] == '<' && vrf.Find(b, "<svg ", 0) > 0 && vrf.Find(b, "</svg>", 0) > 0, "the result is the drawing of the trace")
		vrf.Assert(n == 0 || string(b[:5]) != "<?xml", "the drawing is well-formed after keep-alives: an XML declaration can only be at the very start")
	} else {
		vrf.Assert(len(b) > 2 && b[0] == '[', "the result is the list of spans")
		for len(b) > 0 && b[len(b)-1] == '\n' {
			b = b[:len(b)-1]
		}
		vrf.Assert(b[len(b)-1] == ']', "the result is the list of spans")
	}
	vrf.Assert(vrf.Find(b, "wanted", 0) >= 0, "the result has the span found")
	vrf.Assert(vrf.Find(b, "other", 0) < 0, "the result has no span outside the one found")
}

type world struct {
	reg     *monkit.Registry
	sc      *monkit.Scope
	o       *out
	svg     bool
	matches int
	err     error
	// done tells that the query has returned.
	done bool
}

func (w *world) match(s *monkit.Span) bool {
	if s.Func().ShortName() != "wanted" {
		return false
	}
	vrf.Assert(!w.o.over, "nothing is observed once the query has returned")
	w.matches++
	return true
}

func (w *world) query() {
	q := present.TraceQueryJSON
	if w.svg {
		q = present.TraceQuerySVG
	}
	var wr io.Writer = w.o
	w.err = q(w.reg, wr, w.match)
	w.done = true
	w.o.over = true
}

func (w *world) query2(rw io.Writer) {
	q := present.TraceQueryJSON
	if w.svg {
		q = present.TraceQuerySVG
	}
	w.err = q(w.reg, rw, w.match)
}

func newWorld() *world {
	reg := monkit.NewRegistry()
	return &world{reg: reg, sc: reg.ScopeNamed("s"), o: &out{}, svg: vrf.Choose("format", 2) == 1}
}

// clean checks that a query that has returned left nothing behind.
func (w *world) clean() {
	vrf.Settle()
	calls := w.o.calls
	vrf.Tick()
	vrf.Settle()
	ctx := context.Background()
	e := w.sc.FuncNamed("wanted").Task(&ctx)
	e2 := w.sc.FuncNamed("wanted").Task(&ctx)
	e2(nil)
	e(nil)
	vrf.Tick()
	vrf.Settle()
	vrf.Assert(w.o.calls == calls, "no write happens once the query has returned")
	vrf.Assert(vrf.ActiveTimers() == 0, "no timer keeps running once the query has returned")
	vrf.Assert(vrf.Goroutines() == 0, "no goroutine is left once the query has returned")
}

// H_history: every sequence of keep-alives, failures and spans.
func H_history() {
	vrf.NoSched(true)
	w := newWorld()
	pre := context.Background()
	var preExit func(*error)
	live := vrf.Choose("live", 2) == 1
	if live {
		preExit = w.sc.FuncNamed("other").Task(&pre)
	}
	go w.query()
	vrf.Settle()
	n := vrf.Bound("steps", 5, 7)
	pings := 0
	var matched, child func(*error)
	ctx := pre
	for i := 0; i < n && !w.done; i++ {
		vrf.Assert(w.err == nil, "a query waits")
		switch vrf.Choose("step", 5) {
		case 0: // a keep-alive
			vrf.Tick()
			pings++
		case 1: // one that fails
			kind := vrf.Choose("failure", 4) + 1
			w.o.fail = kind
			vrf.Tick()
			vrf.Settle()
			vrf.Assert(w.done, "a failed keep-alive ends the wait")
			writeErr(w.err, kind)
			newlines(w.o.buf, pings, false, w.svg)
			w.clean()
			return
		case 2: // the span appears, or a child of it
			if child != nil {
				vrf.Stop()
			}
			if matched == nil {
				matched = w.sc.FuncNamed("wanted").Task(&ctx)
			} else {
				child = w.sc.FuncNamed("child").Task(&ctx)
			}
		case 3: // spans that are not wanted
			c := context.Background()
			e := w.sc.FuncNamed("other").Task(&c)
			e(nil)
		case 4: // the span ends
			if matched == nil {
				vrf.Stop()
			}
			if child != nil {
				child(nil)
			}
			matched(nil)
			vrf.Settle()
			vrf.Assert(w.done && w.err == nil, "the query ends with its span")
			newlines(w.o.buf, pings, true, w.svg)
			if live {
				c := pre
				e := w.sc.FuncNamed("wanted").Task(&c)
				e(nil)
				preExit(nil)
			}
			w.clean()
			return
		}
		vrf.Settle()
		vrf.Assert(!w.done, "a query waits for its span")
		newlines(w.o.buf, pings, false, w.svg)
	}
}

// H_schedules: keep-alives, a failure and the span at once.
// vrf:preempt=2,3
func H_schedules() {
	vrf.NoSched(true)
	vrf.Races(true)
	w := newWorld()
	w.svg = false
	kind := vrf.Choose("failure", 5)
	go w.query()
	vrf.Settle()
	ticks := vrf.Bound("keep-alives", 1, 2)
	vrf.NoSched(false)
	vrf.Parallel(func() {
		for i := 0; i < ticks; i++ {
			vrf.NoSched(true)
			if i == ticks-1 {
				w.o.setFail(kind)
			}
			vrf.NoSched(false)
			vrf.Tick()
			vrf.Yield()
		}
	}, func() {
		c := context.Background()
		e := w.sc.FuncNamed("wanted").Task(&c)
		e(nil)
	})
	vrf.NoSched(true)
	vrf.Settle()
	vrf.Races(false)
	vrf.Assert(w.done, "the query ends with its span or a failure")
	if w.err != nil {
		vrf.Assert(w.o.fails > 0, "a query fails only when a write fails")
		writeErr(w.err, kind)
	} else {
		vrf.Assert(w.o.fails == 0, "the error of a failed write is returned")
		k := 0
		for k < len(w.o.buf) && w.o.buf[k] == '\n' {
			k++
		}
		vrf.Assert(k <= ticks, "each keep-alive writes one newline")
		newlines(w.o.buf, k, true, w.svg)
	}
	w.clean()
}

// setFail is told apart from the library's own accesses.
func (o *out) setFail(kind int) {
	vrf.Races(false)
	o.fail = kind
	vrf.Races(true)
}

// resp is a response that keeps what is written until it is flushed.
type resp struct {
	*out
	header http.Header
	sent   int
}

func (r *resp) Header() http.Header { return r.header }
func (r *resp) WriteHeader(int)     {}

// flusher is a response that can be flushed.
type flusher struct{ *resp }

func (f flusher) Flush() {
	vrf.Assert(!f.over, "nothing is flushed once the query has returned")
	f.sent = len(f.buf)
}

// H_request: queries through the request router and over HTTP. What is written
// to keep the connection alive leaves at once, or its failure is noticed.
func H_request() {
	vrf.NoSched(true)
	w := newWorld()
	w.svg = false
	r := &resp{out: w.o, header: http.Header{}}
	format := vrf.Choose("kind", 4)
	q := url.Values{"regex": []string{"wanted"}, "preselect": []string{"false"}}
	second := []string{"json", "svg", "remote", "remote"}[format]
	prefix := ""
	if format == 3 {
		q.Set("viz", "v")
		prefix = "<!DOCTYPE html>\n"
	}
	w.svg = format == 1
	canFlush := vrf.Choose("flush", 2) == 1
	route := vrf.Choose("route", 3)
	overHTTP := route == 1
	if route == 2 && format > 1 {
		vrf.Stop()
	}
	go func() {
		var rw http.ResponseWriter = r
		if canFlush {
			rw = flusher{r}
		}
		if route == 2 {
			w.query2(rw)
		} else if overHTTP {
			present.HTTP(w.reg).ServeHTTP(rw, &http.Request{Method: "GET", URL: &url.URL{Path: "/trace/" + second, RawQuery: q.Encode()}})
		} else {
			f, _, err := present.FromRequest(w.reg, "trace/"+second, q)
			vrf.Assert(err == nil, "the request is understood")
			w.err = f(rw)
		}
		w.done = true
		w.o.over = true
	}()
	vrf.Settle()
	alive := func(n int) {
		b := w.o.buf
		if canFlush {
			b = b[:r.sent]
		}
		if n == 0 && len(b) == 0 {
			return
		}
		vrf.Assert(len(b) == len(prefix)+n && string(b[:len(prefix)]) == prefix, "each keep-alive leaves at once")
		for _, c := range b[len(prefix):] {
			vrf.Assert(c == '\n', "a waiting query writes only newlines")
		}
	}
	n := vrf.Choose("keep-alives", vrf.Bound("keep-alives of a request", 2, 3)+1)
	for i := 0; i < n; i++ {
		vrf.Tick()
		vrf.Settle()
		vrf.Assert(!w.done, "a query waits for its span")
		alive(i + 1)
	}
	if vrf.Choose("fails", 2) == 1 {
		kind := vrf.Choose("failure", 4) + 1
		w.o.fail = kind
		if n == 0 && prefix != "" && kind > 1 {
			vrf.Stop() // the first write is no keep-alive
		}
		vrf.Tick()
		vrf.Settle()
		vrf.Assert(w.done, "a failed keep-alive ends the wait")
		if !overHTTP {
			writeErr(w.err, kind)
		}
		w.clean()
		return
	}
	ctx := context.Background()
	e := w.sc.FuncNamed("wanted").Task(&ctx)
	e(nil)
	vrf.Settle()
	vrf.Assert(w.done && w.err == nil, "the query ends with its span")
	if format < 2 {
		newlines(w.o.buf, n, true, w.svg)
	} else {
		b := w.o.buf
		vrf.Assert(len(b) > len(prefix)+n && string(b[:len(prefix)]) == prefix, "the result follows the keep-alives")
		for _, c := range b[len(prefix) : len(prefix)+n] {
			vrf.Assert(c == '\n', "a waiting query writes only newlines")
		}
	}
	w.clean()
}
