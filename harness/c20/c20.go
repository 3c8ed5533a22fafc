// Package c20: every request path gets the documented report or a client
// error.
package c20

import (
	"bytes"
	"context"
	"errors"
	"html"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"

	"vharness/vrf"
)

// registry has something for each report.
func registry() (*monkit.Registry, *monkit.Span) {
	vrf.FreezeClock(true)
	vrf.NoSched(true)
	reg := monkit.NewRegistry()
	ctx := context.Background()
	sc := reg.ScopeNamed("sc")
	sc.FuncNamed("fn").Task(&ctx)
	sc.Counter("cnt").Inc(3)
	return reg, monkit.SpanFromCtx(ctx)
}

type report func(*monkit.Registry, io.Writer) error

const (
	text = "text/plain; charset=utf-8"
	jsn  = "application/json; charset=utf-8"
	svg  = "image/svg+xml; charset=utf-8"
)

type doc struct {
	first, second string
	f             report
	ct            string
}

// documented lists the reports that need no query.
func documented() []doc {
	return []doc{
		{"ps", "", present.SpansText, text},
		{"ps", "text", present.SpansText, text},
		{"ps", "dot", present.SpansDot, text},
		{"ps", "json", present.SpansJSON, jsn},
		{"funcs", "", present.FuncsText, text},
		{"funcs", "text", present.FuncsText, text},
		{"funcs", "dot", present.FuncsDot, text},
		{"funcs", "json", present.FuncsJSON, jsn},
		{"stats", "", present.StatsText, text},
		{"stats", "text", present.StatsText, text},
		{"stats", "old", present.StatsText, text},
		{"stats", "json", present.StatsJSON, jsn},
	}
}

// status is the status code the HTTP handler gives for an error.
type rec struct {
	h    http.Header
	code int
	n    int
	b    bytes.Buffer
}

func (r *rec) Header() http.Header { return r.h }
func (r *rec) WriteHeader(c int)   { r.code = c; r.n++ }
func (r *rec) Write(p []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	return r.b.Write(p)
}

func serve(reg *monkit.Registry, path, query string) *rec {
	r := &rec{h: http.Header{}}
	present.HTTP(reg).ServeHTTP(r, &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: query}})
	return r
}

// want checks the answer to a path that needs no query.
func want(reg *monkit.Registry, path, first, second string, known string) {
	f, ct, err := present.FromRequest(reg, path, url.Values{})
	if first == "" {
		vrf.Assert(err == nil && ct == "text/html", "the root is the index")
		var b bytes.Buffer
		vrf.Assert(f(&b) == nil && strings.Contains(b.String(), "/trace/svg") && strings.Contains(b.String(), "</html>"), "the index lists the reports")
		return
	}
	for _, d := range documented() {
		if first == d.first && second == d.second {
			vrf.Assert(err == nil && f != nil, "a documented path gives a report")
			vrf.Assert(ct == d.ct, "the content type is that of the report")
			var got, wnt bytes.Buffer
			vrf.Assert(f(&got) == nil && d.f(reg, &wnt) == nil, "the report is written")
			vrf.Assert(wnt.Len() > 0 && got.String() == wnt.String(), "the path gives the documented report")
			r := serve(reg, path, "")
			vrf.Assert(r.code == 200 && r.h.Get("Content-Type") == d.ct && r.b.String() == wnt.String(), "the handler serves the report")
			return
		}
	}
	vrf.Assert(err != nil && f == nil, "any other path is an error")
	r := serve(reg, path, "")
	if first == "trace" {
		vrf.Assert(r.code == 400, "a trace request without regex and trace_id is a bad request")
	} else {
		vrf.Assert(r.code == 404, "an unknown path is not found")
	}
	vrf.Assert(r.n == 1, "the status is set once")
}

func noSlash(s string) string {
	for i := 0; i < len(s); i++ {
		vrf.Assume(s[i] != '/')
	}
	return s
}

// H_any_path: any path.
func H_any_path() {
	reg, _ := registry()
	path := vrf.String("path", vrf.Bound("path length", 6, 8))
	var el [2]string
	k, in := -1, false
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			in = false
			continue
		}
		if !in {
			in = true
			k++
		}
		if k < 2 {
			el[k] += path[i : i+1]
		}
	}
	want(reg, path, el[0], el[1], "")
}

// H_words: any two elements with slashes around them.
func H_words() {
	reg, _ := registry()
	var first string
	switch vrf.Choose("first", 5) {
	case 0:
		first = "ps"
	case 1:
		first = "funcs"
	case 2:
		first = "stats"
	case 3:
		first = "trace"
	case 4:
		first = noSlash(vrf.String("first", 6))
		vrf.Assume(first != "")
	}
	second := noSlash(vrf.String("second", 5))
	path := []string{"", "/", "//", "///"}[vrf.Choose("lead", 4)] + first
	if second != "" {
		path += []string{"/", "//", "///"}[vrf.Choose("gap", 3)] + second
	}
	switch vrf.Choose("tail", 4) {
	case 1:
		path += "/"
	case 2:
		path += "//"
	case 3:
		if second == "" {
			vrf.Stop()
		}
		path += "/" + vrf.String("tail", 2)
	}
	want(reg, path, first, second, "")
}

// out is a buffer that two goroutines may use.
type out struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *out) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(p)
}

func (o *out) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

// H_trace_bad: trace requests with any trace_id and preselect value.
func H_trace_bad() {
	reg, _ := registry()
	kind := vrf.Choose("kind", 5)
	second := []string{"svg", "json", "remote", "", "other", "/svg/x"}[vrf.Choose("second", 6)]
	q := url.Values{}
	ok := true
	raw := ""
	switch kind {
	case 0: // any trace_id
		id := vrf.String("trace_id", vrf.Bound("length of any trace_id", 2, 3))
		q.Set("trace_id", id)
		ok = hexDigits(id)
	case 1: // a regex and any preselect
		q.Set("regex", "fn")
		p := vrf.String("preselect", vrf.Bound("symbolic bytes of preselect", 1, 2))
		p = []string{"", "tru", "Fals", "TRU"}[vrf.Choose("prefix", 4)] + p
		q.Set("preselect", p)
		ok = isBool(p)
	case 3: // a trace_id of letters and digits, through the handler
		raw = "trace_id=" + alnum("trace_id", vrf.Bound("length of an alphanumeric trace_id", 3, 3))
		ok = hexDigits(raw[len("trace_id="):])
		q.Set("trace_id", raw[len("trace_id="):])
	case 4: // a preselect of letters and digits, through the handler
		p := alnum("preselect", vrf.Bound("symbolic bytes of preselect", 1, 2))
		p = []string{"", "fals", "Tru", "FALS"}[vrf.Choose("prefix", 4)] + p
		raw = "regex=fn&preselect=" + p
		q.Set("regex", "fn")
		q.Set("preselect", p)
		ok = isBool(p)
	case 2: // regexes
		res := []string{"fn", "^sc\\.fn$", "(", "[", "a**", "nothing matches", "", "\\"}
		oks := []bool{true, true, false, false, false, false, false, false}
		i := vrf.Choose("regex", len(res))
		q.Set("regex", res[i])
		ok = oks[i]
		if vrf.Choose("lazy", 2) == 1 {
			q.Set("preselect", "false")
			ok = ok || i == 5
		}
		if vrf.Choose("with id", 2) == 1 {
			q.Set("trace_id", "1f")
			ok = ok || i == 6
		}
	}
	f, ct, err := present.FromRequest(reg, "/trace/"+second, q)
	code := 0
	if kind == 2 {
		raw = q.Encode()
	}
	if err != nil && kind >= 2 { // a good one would wait
		code = serve(reg, "/trace/"+second, raw).code
	}
	bad, none := code == 400 || kind < 2, code == 404 || kind < 2
	switch second {
	case "", "other":
		if ok {
			vrf.Assert(err != nil && f == nil && none, "an unknown trace path is not found")
		} else {
			vrf.Assert(err != nil && f == nil && (bad || none), "an unknown or bad trace request is an error")
		}
	default:
		if ok {
			vrf.Assert(err == nil && f != nil, "a good trace request gives a report")
			w := jsn
			if second == "svg" || second == "/svg/x" {
				w = svg
			}
			vrf.Assert(ct == w, "the content type is that of the report")
		} else {
			vrf.Assert(err != nil && f == nil && bad, "a bad trace request is a bad request")
		}
	}
}

func hexDigits(id string) bool {
	ok := id != ""
	for i := 0; i < len(id); i++ {
		c := id[i]
		ok = vrf.And(ok, vrf.Or(vrf.And(c >= '0', c <= '9'), vrf.And(c >= 'a', c <= 'f'), vrf.And(c >= 'A', c <= 'F')))
	}
	return ok
}

func isBool(p string) bool {
	ok := false
	for _, b := range []string{"", "1", "t", "T", "true", "TRUE", "True", "0", "f", "F", "false", "FALSE", "False"} {
		ok = vrf.Or(ok, vrf.EqStr(p, b))
	}
	return ok
}

func alnum(name string, n int) string {
	s := vrf.String(name, n)
	for i := 0; i < len(s); i++ {
		c := s[i]
		vrf.Assume(vrf.Or(vrf.And(c >= '0', c <= '9'), vrf.And(c >= 'a', c <= 'z'), vrf.And(c >= 'A', c <= 'Z')))
	}
	return s
}

// H_trace_id: the trace whose id is written in hex is the one shown, for any
// id; a span of another trace is not.
func H_trace_id() {
	reg, _ := registry()
	id := vrf.Int64("id")
	var q string
	switch vrf.Choose("form", vrf.Bound("forms of ids", 3, 4)) {
	case 0: // two digits
		vrf.Assume(vrf.And(id >= 0x10, id < 0x100))
		q = string([]byte{hex(id >> 4), hex(id & 15)})
	case 1: // sixteen digits, the sign bit set
		vrf.Assume(id>>8 == -0x80000000000000)
		q = "80000000000000" + string([]byte{hex(id >> 4 & 15), hex(id & 15)})
	case 2: // upper case and leading zeros
		vrf.Assume(id>>4 == 0xAB)
		q = "00AB" + string([]byte{hex(id & 15)})
	case 3: // all ones
		vrf.Assume(id == -1)
		q = "FFFFFFFFFFFFFFFF"
	}
	second := []string{"json", "svg", "remote"}[vrf.Choose("report", 3)]
	f, _, err := present.FromRequest(reg, "/trace/"+second, url.Values{"trace_id": []string{q}})
	vrf.Assert(err == nil, "a trace_id is read as 64-bit hex")
	var b out
	over := false
	go func() {
		err = f(&b)
		over = true
	}()
	vrf.Settle()
	other := vrf.Int64("other id")
	vrf.Assume(other != id)
	run := func(id int64, name string) {
		ctx := context.Background()
		reg.ScopeNamed("sc").FuncNamed(name).RemoteTrace(&ctx, 1, monkit.NewTrace(id))(nil)
		vrf.Settle()
	}
	run(other, "wrong")
	vrf.Assert(!over, "a span of another trace does not end the query")
	run(id, "right")
	vrf.Assert(over && err == nil, "a span of the trace ends the query")
	if second != "remote" {
		vrf.Assert(strings.Contains(b.String(), "right") && !strings.Contains(b.String(), "wrong"), "the trace shown is the one asked for")
	}
}

func hex(v int64) byte { return byte(vrf.IteInt64(v < 10, v+'0', v-10+'a')) }

// H_regex: the first span whose function matches is shown.
func H_regex() {
	reg, _ := registry()
	sc := reg.ScopeNamed("sc")
	sc.FuncNamed("wrong")
	q := url.Values{"regex": []string{"r.ght$"}}
	pre := vrf.Choose("preselect", 3)
	switch pre {
	case 0:
		sc.FuncNamed("right")
	case 1:
		q.Set("preselect", "0")
	case 2:
		q.Set("preselect", "0")
		q.Set("trace_id", "a")
	}
	switch vrf.Choose("before", 3) {
	case 1: // the same request, of another registry
		other := monkit.NewRegistry()
		other.ScopeNamed("sc").FuncNamed("right")
		_, _, err := present.FromRequest(other, "trace/json", q)
		vrf.Assert(err == nil, "a matching regex gives a report")
	case 2: // the same request, when there was another function
		sc.FuncNamed("or.right")
		_, _, err := present.FromRequest(reg, "trace/json", q)
		vrf.Assert(err == nil, "a matching regex gives a report")
		sc.FuncNamed("right")
	}
	f, _, err := present.FromRequest(reg, "trace/json", q)
	vrf.Assert(err == nil, "a matching regex gives a report")
	var b out
	over := false
	go func() {
		err = f(&b)
		over = true
	}()
	vrf.Settle()
	run := func(name string, id int64) {
		ctx := context.Background()
		sc.FuncNamed(name).RemoteTrace(&ctx, 1, monkit.NewTrace(id))(nil)
		vrf.Settle()
	}
	run("wrong", 10)
	run("rightmost", 10)
	if pre == 2 {
		run("right", 11)
	}
	vrf.Assert(!over, "a span that does not match does not end the query")
	run("right", 10)
	vrf.Assert(over && err == nil, "a span that matches ends the query")
	vrf.Assert(strings.Contains(b.String(), `"right"`) && !strings.Contains(b.String(), "wrong"), "the trace shown is the one asked for")
}

// H_viz: the remote report redirects to the viewer given.
func H_viz() {
	reg, _ := registry()
	viz := []string{"", "host", "http://h/p?a=b", "https://h", "\"><script>", "http://h/?q=%22"}[vrf.Choose("viz", 6)]
	f, ct, err := present.FromRequest(reg, "trace/remote", url.Values{"regex": []string{"fn"}, "viz": []string{viz}})
	vrf.Assert(err == nil, "remote gives a report")
	if viz == "" {
		vrf.Assert(ct == jsn, "without viewer the report is JSON")
	} else {
		vrf.Assert(ct == "text/html; charset=utf-8", "with a viewer the report is HTML")
	}
	var b out
	over := false
	go func() {
		err = f(&b)
		over = true
	}()
	vrf.Settle()
	ctx := context.Background()
	tr := monkit.NewTrace(77)
	told := 0
	callback := vrf.Choose("callback", 2) == 1
	if callback {
		tr.Set(present.SampledCBKey, func(t *monkit.Trace) {
			vrf.Assert(t == tr && t.Get(present.SampledKey) == true, "the callback is told of the sampled trace")
			told++
		})
	}
	reg.ScopeNamed("sc").FuncNamed("fn").RemoteTrace(&ctx, 1, tr)(nil)
	vrf.Settle()
	vrf.Assert(over && err == nil, "a span ends the query")
	vrf.Assert(tr.Get(present.SampledKey) == true, "the trace found is sampled")
	vrf.Assert(!callback || told == 1, "the callback is told once")
	if viz == "" {
		vrf.Assert(strings.TrimSpace(b.String()) == `{"trace_id":77}`, "the report has the trace id")
		return
	}
	text := b.String()
	i := strings.Index(text, ";url=")
	vrf.Assert(i > 0, "the report redirects")
	i += len(";url=")
	j := strings.IndexByte(text[i:], '"')
	vrf.Assert(j > 0 && !strings.ContainsAny(text[i:i+j], "<>"), "the address stands in its attribute")
	vrf.Assert(!strings.Contains(text, "<script"), "the address adds nothing to the page")
	u, err := url.Parse(html.UnescapeString(text[i : i+j]))
	vrf.Assert(err == nil && u.Query().Get("argv") == "77", "the address has the trace id")
	switch viz {
	case "host":
		vrf.Assert(u.Scheme == "http" && u.Host == "host", "the address is that of the viewer")
	case "http://h/p?a=b":
		vrf.Assert(u.Scheme == "http" && u.Host == "h" && u.Path == "/p" && u.Query().Get("a") == "b", "the address is that of the viewer")
	case "https://h":
		vrf.Assert(u.Scheme == "https" && u.Host == "h", "the address is that of the viewer")
	}
}

type failing struct{ err error }

func (f failing) Write(p []byte) (int, error) { return 0, f.err }

// H_write_error: the error of the writer is returned.
func H_write_error() {
	reg, _ := registry()
	fail := failing{errors.New("disk full")}
	for _, d := range append(documented(), doc{first: ""}) {
		f, _, err := present.FromRequest(reg, d.first+"/"+d.second, nil)
		vrf.Assert(err == nil, "a documented path gives a report")
		vrf.Assert(f(fail) == fail.err, "the error of the writer is returned")
	}
}

// H_index: every address the index links to is answered, given a query where
// one is needed.
func H_index() {
	reg, _ := registry()
	f, _, err := present.FromRequest(reg, []string{"", "/", "//"}[vrf.Choose("path", 3)], url.Values{})
	var b bytes.Buffer
	vrf.Assert(err == nil && f(&b) == nil, "the root is the index")
	page := b.String()
	var links []string
	for {
		i := strings.Index(page, `href="`)
		if i < 0 {
			break
		}
		page = page[i+len(`href="`):]
		i = strings.Index(page, `"`)
		vrf.Assert(i >= 0, "a link has an end")
		links = append(links, page[:i])
	}
	vrf.Assert(len(links) >= 8, "the index links to the reports")
	link := links[vrf.Choose("link", len(links))]
	f, ct, err := present.FromRequest(reg, "/"+link, url.Values{"regex": []string{"."}, "preselect": []string{"false"}})
	vrf.Assert(err == nil && f != nil && ct != "text/html", "a report the index links to exists")
}
