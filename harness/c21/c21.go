// Package c21: reports are complete and well-formed for every content.
package c21

import (
	"bytes"
	"context"
	"errors"
	"io"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"

	"vharness/vrf"
)

// ---- a JSON reader

type reader struct {
	b []byte
	i int
}

func (r *reader) bad() { vrf.Fail("the report is valid JSON") }

func (r *reader) space() {
	for r.i < len(r.b) && vrf.Or(r.b[r.i] == ' ', r.b[r.i] == '\n', r.b[r.i] == '\t', r.b[r.i] == '\r') {
		r.i++
	}
}

func (r *reader) next() byte {
	r.space()
	if r.i >= len(r.b) {
		r.bad()
	}
	return r.b[r.i]
}

func (r *reader) expect(c byte) {
	if r.next() != c {
		r.bad()
	}
	r.i++
}

func (r *reader) str() {
	r.expect('"')
	for {
		if r.i >= len(r.b) {
			r.bad()
		}
		c := r.b[r.i]
		r.i++
		vrf.Assert(c >= 0x20, "a JSON string has no control characters")
		if c == '"' {
			return
		}
		if c == '\\' {
			if r.i >= len(r.b) {
				r.bad()
			}
			e := r.b[r.i]
			r.i++
			vrf.Assert(vrf.Or(e == '"', e == '\\', e == '/', e == 'b', e == 'f', e == 'n', e == 'r', e == 't', e == 'u'), "a JSON string has no other escapes")
			if e == 'u' {
				for k := 0; k < 4; k++ {
					if r.i >= len(r.b) {
						r.bad()
					}
					h := r.b[r.i]
					r.i++
					vrf.Assert(vrf.Or(vrf.And(h >= '0', h <= '9'), vrf.And(h >= 'a', h <= 'f'), vrf.And(h >= 'A', h <= 'F')), "a JSON escape has hex digits")
				}
			}
		}
	}
}

func isNum(c byte) bool {
	return vrf.Or(vrf.And(c >= '0', c <= '9'), c == '-', c == '+', c == '.', c == 'e', c == 'E')
}

func (r *reader) word(w string) {
	for i := 0; i < len(w); i++ {
		if r.i >= len(r.b) || r.b[r.i] != w[i] {
			r.bad()
		}
		r.i++
	}
}

// value skips a value and returns the number of its elements.
func (r *reader) value() (n int) {
	switch c := r.next(); {
	case c == '"':
		r.str()
	case c == '{':
		r.i++
		for r.next() != '}' {
			if n > 0 {
				r.expect(',')
				r.space()
			}
			r.str()
			r.expect(':')
			r.value()
			n++
		}
		r.i++
	case c == '[':
		r.i++
		for r.next() != ']' {
			if n > 0 {
				r.expect(',')
			}
			r.value()
			n++
		}
		r.i++
	case c == 't':
		r.word("true")
	case c == 'f':
		r.word("false")
	case c == 'n':
		r.word("null")
	default:
		k := 0
		for r.i < len(r.b) && isNum(r.b[r.i]) {
			r.i++
			k++
		}
		if k == 0 {
			r.bad()
		}
	}
	return n
}

// list checks that b is one JSON list and returns the number of elements.
func list(b []byte) int {
	r := &reader{b: b}
	if r.next() != '[' {
		r.bad()
	}
	n := r.value()
	r.space()
	vrf.Assert(r.i == len(b), "the report is one JSON list")
	return n
}

// jv is a JSON value of a report without symbolic content.
type jv struct {
	raw  string // numbers, booleans, null
	str  string
	isS  bool
	obj  map[string]*jv
	list []*jv
}

func (r *reader) tree() *jv {
	switch c := r.next(); {
	case c == '"':
		from := r.i
		r.str()
		s, err := strconv.Unquote(string(r.b[from:r.i]))
		if err != nil {
			r.bad()
		}
		return &jv{str: s, isS: true}
	case c == '{':
		v := &jv{obj: map[string]*jv{}}
		r.i++
		for r.next() != '}' {
			if len(v.obj) > 0 {
				r.expect(',')
			}
			k := r.tree()
			r.expect(':')
			vrf.Assert(v.obj[k.str] == nil, "a JSON object has each key once")
			v.obj[k.str] = r.tree()
		}
		r.i++
		return v
	case c == '[':
		v := &jv{}
		r.i++
		for r.next() != ']' {
			if len(v.list) > 0 {
				r.expect(',')
			}
			v.list = append(v.list, r.tree())
		}
		r.i++
		return v
	}
	from := r.i
	r.value()
	return &jv{raw: string(r.b[from:r.i])}
}

func tree(b []byte) []*jv {
	list(b)
	return (&reader{b: b}).tree().list
}

// at follows keys.
func (v *jv) at(keys ...string) *jv {
	for _, k := range keys {
		n := v.obj[k]
		vrf.Assert(n != nil, "the element has "+k)
		v = n
	}
	return v
}

func (v *jv) num(n int64, keys ...string) {
	vrf.Assert(v.at(keys...).raw == id(n), "the element has the right "+keys[len(keys)-1])
}

func (v *jv) text(s string, keys ...string) {
	x := v.at(keys...)
	vrf.Assert(x.isS && x.str == s, "the element has the right "+keys[len(keys)-1])
}

func (v *jv) flag(b bool, keys ...string) {
	vrf.Assert(v.at(keys...).raw == strconv.FormatBool(b), "the element has the right "+keys[len(keys)-1])
}

func byID(l []*jv, i int64) (r *jv) {
	n := 0
	for _, v := range l {
		if v.at("id").raw == id(i) {
			r = v
			n++
		}
	}
	vrf.Assert(n == 1, "each element is in the report once")
	return r
}

// ---- a reader of dot graphs

// label decodes the label of a node.
func label(b []byte, node string) string {
	at := vrf.Find(b, " "+node+` [label="`, 0)
	vrf.Assert(at > 0, "the graph has the node")
	var r []byte
	for i := at; b[i] != '"'; i++ {
		switch {
		case lit(b, i, `\l`):
			r = append(r, '\n')
			i++
		case lit(b, i, "&#"):
			j := digits(b, i+2)
			n, err := strconv.Atoi(string(b[i+2 : j]))
			if err != nil || !lit(b, j, ";") {
				vrf.Fail("a label has no markup")
			}
			r = append(r, byte(n))
			i = j
		default:
			r = append(r, b[i])
		}
	}
	return string(r)
}

func digits(b []byte, i int) int {
	for i < len(b) && vrf.Known(b[i]) && b[i] >= '0' && b[i] <= '9' {
		i++
	}
	return i
}

func lit(b []byte, i int, s string) bool {
	if i+len(s) > len(b) {
		return false
	}
	for k := 0; k < len(s); k++ {
		if b[i+k] != s[k] {
			return false
		}
	}
	return true
}

// dot checks that b is a graph of nodes and edges and returns them.
func dot(b []byte) (nodes, edges []string) {
	bad := func() { vrf.Fail("the report is a dot graph") }
	head := "digraph G {\n node [shape=box];\n"
	if !lit(b, 0, head) {
		bad()
	}
	i := len(head)
	for !lit(b, i, "}\n") {
		// " f12 [label=\"...\"];" or " f12 -> f13;"
		if !lit(b, i, " f") && !lit(b, i, " r") {
			bad()
		}
		j := i + 2
		if lit(b, j, "-") {
			j++
		}
		j = digits(b, j)
		name := string(b[i+1 : j])
		switch {
		case lit(b, j, " -> f"):
			k := j + 5
			if lit(b, k, "-") {
				k++
			}
			k = digits(b, k)
			edges = append(edges, name+" -> "+string(b[j+4:k]))
			if !lit(b, k, ";\n") {
				bad()
			}
			i = k + 2
		case lit(b, j, ` [label="`):
			nodes = append(nodes, name)
			k := j + len(` [label="`)
			for {
				if k >= len(b) {
					bad()
				}
				c := b[k]
				if c == '"' {
					break
				}
				if c == '\\' {
					if k+1 >= len(b) || b[k+1] != 'l' {
						vrf.Fail("a label has no escapes but line ends")
					}
					k++
				}
				vrf.Assert(vrf.And(c != '<', c != '>', c != '\n', c >= 0x20), "a label has no markup")
				if c == '&' {
					// "&#12;"; a number of symbolic digits ends at a known ';'
					ok := lit(b, k, "&#")
					j := k + 2
					for j < len(b) && j < k+5 && !(vrf.Known(b[j]) && b[j] == ';') {
						ok = vrf.And(ok, b[j] >= '0', b[j] <= '9')
						j++
					}
					vrf.Assert(vrf.And(ok, j > k+2, lit(b, j, ";")), "a label has no markup")
					k = j
				}
				k++
			}
			if !lit(b, k, "\"];\n") {
				vrf.Fail("no text ends a label")
			}
			i = k + 4
		default:
			bad()
		}
	}
	vrf.Assert(i+2 == len(b), "the report is one dot graph")
	return nodes, edges
}

func count(xs []string, x string) (n int) {
	for _, y := range xs {
		if x == y {
			n++
		}
	}
	return n
}

func occurs(b []byte, s string) (n int) {
	for i := vrf.Find(b, s, 0); i >= 0; i = vrf.Find(b, s, i) {
		n++
	}
	return n
}

func id(v int64) string { return strconv.FormatInt(v, 10) }

type src struct {
	keys []monkit.SeriesKey
	f    []string
	v    []float64
}

func (s *src) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	for i := range s.v {
		cb(s.keys[i], s.f[i], s.v[i])
	}
}

func values() float64 {
	return []float64{0, 1.5, -3, 1e300, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324, math.Copysign(0, -1)}[vrf.Choose("value", 10)]
}

// H_stats_values: any special values.
func H_stats_values() {
	vrf.NoSched(true)
	reg := monkit.NewRegistry()
	s := &src{}
	n := vrf.Choose("stats", vrf.Bound("stats", 3, 4))
	for i := 0; i < n; i++ {
		s.keys = append(s.keys, monkit.NewSeriesKey("m").WithTag("k", "v"))
		s.f = append(s.f, "f"+id(int64(i)))
		s.v = append(s.v, values())
	}
	reg.ScopeNamed("s").Chain(s)
	var b bytes.Buffer
	vrf.Assert(present.StatsJSON(reg, &b) == nil, "the report is written")
	vrf.Assert(list(b.Bytes()) == n, "the report has one element per statistic")
	var t bytes.Buffer
	vrf.Assert(present.StatsText(reg, &t) == nil, "the report is written")
	vrf.Assert(occurs(t.Bytes(), "\n") == n, "the report has one line per statistic")
	for i := 0; i < n; i++ {
		f := s.f[i]
		vrf.Assert(occurs(b.Bytes(), `"`+f+`"`) == 1, "each statistic is reported once")
		vrf.Assert(occurs(t.Bytes(), " "+f+"=") == 1, "each statistic is reported once")
		if !math.IsNaN(s.v[i]) && !math.IsInf(s.v[i], 0) {
			vrf.Assert(occurs(t.Bytes(), " "+f+"="+strconv.FormatFloat(s.v[i], 'f', 6, 64)+"\n") == 1, "each statistic has its value")
		}
	}
}

// H_stats_names: any names.
func H_stats_names() {
	vrf.NoSched(true)
	reg := monkit.NewRegistry()
	k := vrf.Bound("name length", 2, 3)
	m, f, tv := "m", "f", "v"
	switch vrf.Choose("which", 3) {
	case 0:
		m = vrf.String("measurement", k)
	case 1:
		f = vrf.String("field", k)
	case 2:
		tv = vrf.String("tag value", k)
	}
	s := &src{[]monkit.SeriesKey{monkit.NewSeriesKey(m).WithTag("k", tv), monkit.NewSeriesKey("z")}, []string{f, "g"}, []float64{1, 2}}
	reg.ScopeNamed("s").Chain(s)
	var b bytes.Buffer
	vrf.Assert(present.StatsJSON(reg, &b) == nil, "the report is written")
	vrf.Assert(list(b.Bytes()) == 2, "the report has one element per statistic")
}

// H_span_names: any function name, argument and annotation of a live span.
func H_span_names() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	k := vrf.Bound("name length", 2, 3)
	fn, sc, an, av := "fn", "sc", "an", "av"
	var arg interface{} = "arg"
	switch vrf.Choose("which", 5) {
	case 0:
		fn = vrf.String("function", k)
	case 1:
		sc = vrf.String("scope", k)
	case 2:
		an = vrf.String("annotation", k)
	case 3:
		av = vrf.String("value", k)
	case 4:
		arg = vrf.String("argument", 1)
	}
	ctx := context.Background()
	reg.ScopeNamed(sc).FuncNamed(fn).Task(&ctx, arg, 5)
	s := monkit.SpanFromCtx(ctx)
	s.Annotate(an, av)
	s.Annotate("more", "x")
	c := ctx
	reg.ScopeNamed("sc").FuncNamed("child").Task(&c)
	var b bytes.Buffer
	vrf.Assert(present.SpansDot(reg, &b) == nil, "the report is written")
	nodes, edges := dot(b.Bytes())
	vrf.Assert(len(nodes) == 2 && len(edges) == 1, "the graph has a node per span and an edge per child")
	b.Reset()
	vrf.Assert(present.SpansJSON(reg, &b) == nil, "the report is written")
	vrf.Assert(list(b.Bytes()) == 2, "the report has one element per span")
	if vrf.Choose("finish", 2) == 1 {
		b.Reset()
		fs := []*collect.FinishedSpan{{Span: s, Err: errors.New(av), Finish: s.Start()}}
		vrf.Assert(present.SpansToJSON(&b, fs) == nil, "the report is written")
		vrf.Assert(list(b.Bytes()) == 1, "the report has one element per span")
	}
}

type named string

func (n named) Error() string        { return "e" }
func (n named) Name() (string, bool) { return string(n), true }

// H_func_names: any function and error name.
func H_func_names() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	k := vrf.Bound("name length", 2, 3)
	fn, sc, en := "fn", "sc", "en"
	switch vrf.Choose("which", 3) {
	case 0:
		fn = vrf.String("function", k)
	case 1:
		sc = vrf.String("scope", k)
	case 2:
		en = vrf.String("error", k)
	}
	ctx := context.Background()
	f := reg.ScopeNamed(sc).FuncNamed(fn)
	done := f.Task(&ctx)
	reg.ScopeNamed("sc").FuncNamed("child").Task(&ctx)(nil)
	var err error = named(en)
	done(&err)
	n := 0
	reg.Funcs(func(*monkit.Func) { n++ })
	var b bytes.Buffer
	vrf.Assert(present.FuncsDot(reg, &b) == nil, "the report is written")
	nodes, edges := dot(b.Bytes())
	vrf.Assert(len(nodes) == n+1 && len(edges) == 2, "the graph has a node per function and an edge per parent")
	vrf.Assert(count(nodes, "f"+id(f.Id())) == 1 && count(edges, "r"+id(f.Id())+" -> f"+id(f.Id())) == 1, "the graph has each function")
	b.Reset()
	vrf.Assert(present.FuncsJSON(reg, &b) == nil, "the report is written")
	vrf.Assert(list(b.Bytes()) == n, "the report has one element per function")
}

// H_spans_once: after any history of spans each live one is reported once.
func H_spans_once() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	type live struct {
		ctx    context.Context
		exit   func(*error)
		s      *monkit.Span
		parent *live
		done   bool
	}
	var all []*live
	open := func() (r []*live) {
		for _, l := range all {
			if !l.done {
				r = append(r, l)
			}
		}
		return r
	}
	n := vrf.Bound("steps", 5, 6)
	for i := 0; i < n; i++ {
		o := open()
		switch vrf.Choose("step", 3) {
		case 0:
			l := &live{ctx: context.Background()}
			if k := vrf.Choose("parent", len(o)+1); k > 0 {
				l.parent = o[k-1]
				l.ctx = l.parent.ctx
			}
			l.exit = reg.ScopeNamed("s").FuncNamed("f").Task(&l.ctx)
			l.s = monkit.SpanFromCtx(l.ctx)
			all = append(all, l)
		case 1:
			if len(o) == 0 {
				vrf.Stop()
			}
			l := o[vrf.Choose("which", len(o))]
			l.done = true
			l.exit(nil)
		case 2:
			i = n
		}
	}
	var text, graph, js bytes.Buffer
	vrf.Assert(present.SpansText(reg, &text) == nil, "the report is written")
	vrf.Assert(present.SpansDot(reg, &graph) == nil, "the report is written")
	vrf.Assert(present.SpansJSON(reg, &js) == nil, "the report is written")
	nodes, edges := dot(graph.Bytes())
	o := open()
	vrf.Assert(list(js.Bytes()) == len(o) && len(nodes) == len(o), "the reports have the live spans")
	ne := 0
	for _, l := range all {
		want := 1
		if l.done {
			want = 0
		}
		i := id(l.s.Id())
		vrf.Assert(occurs(text.Bytes(), "["+i+","+id(l.s.Trace().Id())+"] s.f()") == want, "each live span is in the text once")
		vrf.Assert(count(nodes, "f"+i) == want, "each live span is in the graph once")
		vrf.Assert(occurs(js.Bytes(), `{"id":`+i+`,`) == want, "each live span is in the JSON once")
		if !l.done && l.parent != nil && !l.parent.done {
			ne++
			vrf.Assert(count(edges, "f"+id(l.parent.s.Id())+" -> f"+i) == 1, "each child is below its parent")
		}
	}
	vrf.Assert(len(edges) == ne, "the graph has no other edges")
	if len(o) == 0 {
		vrf.Assert(text.Len() == 0, "without spans there is no text")
	}
}

// H_funcs_once: each function is reported once with its numbers.
func H_funcs_once() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	var fs []*monkit.Func
	n := vrf.Bound("functions", 3, 3)
	for i := 0; i < n; i++ {
		f := reg.ScopeNamed([]string{"a", "b"}[vrf.Choose("scope", 2)]).FuncNamed("f" + id(int64(i)))
		fs = append(fs, f)
		ctx := context.Background()
		if i > 0 && vrf.Choose("child", 2) == 1 {
			defer fs[0].Task(&ctx)(nil)
		}
		err := errors.New("e")
		switch vrf.Choose("how", 4) {
		case 0:
			f.Task(&ctx)(nil)
		case 1:
			f.Task(&ctx)(&err)
		case 2:
			f.Task(&ctx)
		}
	}
	var text, graph, js bytes.Buffer
	vrf.Assert(present.FuncsText(reg, &text) == nil, "the report is written")
	vrf.Assert(present.FuncsDot(reg, &graph) == nil, "the report is written")
	vrf.Assert(present.FuncsJSON(reg, &js) == nil, "the report is written")
	nodes, edges := dot(graph.Bytes())
	vrf.Assert(list(js.Bytes()) == n, "the report has one element per function")
	np := 0
	for _, f := range fs {
		i := id(f.Id())
		ne := int64(0)
		for _, c := range f.Errors() {
			ne += c
		}
		nums := "current: " + id(f.Current()) + ", highwater: " + id(f.Highwater()) + ", success: " + id(f.Success()) + ", errors: " + id(ne) + ", panics: " + id(f.Panics()) + "\n"
		at := vrf.Find(text.Bytes(), "["+i+"] "+f.FullName()+"\n", 0)
		vrf.Assert(at >= 0 && occurs(text.Bytes(), "["+i+"] ") == 1, "each function is in the text once")
		end := vrf.Find(text.Bytes(), "current: ", at)
		vrf.Assert(lit(text.Bytes(), end-len("current: "), nums), "each function has its numbers in the text")
		vrf.Assert(count(nodes, "f"+i) == 1, "each function is in the graph once")
		at = vrf.Find(js.Bytes(), `{"id":`+i+`,"parent_ids":`, 0)
		vrf.Assert(at >= 0 && occurs(js.Bytes(), `{"id":`+i+`,`) == 1, "each function is in the JSON once")
		c := vrf.Find(js.Bytes(), `"name":"`+f.ShortName()+`","current":`+id(f.Current())+`,"highwater":`+id(f.Highwater())+`,"success":`+id(f.Success())+`,"panics":`+id(f.Panics())+`,"entry":`, at)
		vrf.Assert(c > 0, "each function has its numbers in the JSON")
		f.Parents(func(p *monkit.Func) {
			np++
			if p == nil {
				vrf.Assert(count(nodes, "r"+i) == 1 && count(edges, "r"+i+" -> f"+i) == 1, "an entry is in the graph")
			} else {
				vrf.Assert(count(edges, "f"+id(p.Id())+" -> f"+i) == 1, "each parent is in the graph")
			}
		})
	}
	vrf.Assert(len(edges) == np, "the graph has no other edges")
}

// has: text has part on the line that starts at or after from.
func has(text, part string) {
	vrf.Assert(occurs([]byte(text), part) >= 1, "the report has "+part)
}

// H_span_content: what is reported about each span.
func H_span_content() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	ctx := context.Background()
	var exit func(*error)
	remote := vrf.Choose("remote", 2) == 1
	if remote {
		exit = reg.ScopeNamed("sc").FuncNamed("fn").RemoteTrace(&ctx, 77, monkit.NewTrace(99))
	} else {
		exit = reg.ScopeNamed("sc").FuncNamed("fn").Task(&ctx, "x,y", 5)
	}
	p := monkit.SpanFromCtx(ctx)
	vrf.AdvanceClock(3)
	cctx := ctx
	cexit := reg.ScopeNamed("cs").FuncNamed("cf").Task(&cctx)
	c := monkit.SpanFromCtx(cctx)
	p.Annotate("an", "av")
	p.Annotate("bn", "bv\"\\")
	orphan := vrf.Choose("orphan", 2) == 1
	err := []error{nil, errors.New("oops")}[vrf.Choose("error", 2)]
	var pfin time.Time
	if orphan {
		vrf.AdvanceClock(4)
		pfin = vrf.ClockNow()
		exit(&err)
	}
	vrf.AdvanceClock(5)
	var text, graph, js bytes.Buffer
	vrf.Assert(present.SpansText(reg, &text) == nil && present.SpansDot(reg, &graph) == nil && present.SpansJSON(reg, &js) == nil, "the report is written")
	type one struct {
		s    *monkit.Span
		orph bool
	}
	list := []one{{p, false}, {c, false}}
	if orphan {
		list = []one{{c, true}}
	}
	l := tree(js.Bytes())
	vrf.Assert(len(l) == len(list), "the report has one element per span")
	check := func(e *jv, s *monkit.Span, orph bool) {
		if pid, ok := s.ParentId(); ok {
			e.num(pid, "parent_id")
		} else {
			vrf.Assert(e.obj["parent_id"] == nil, "a span without a parent has none in the report")
		}
		e.text(s.Func().Scope().Name(), "func", "package")
		e.text(s.Func().ShortName(), "func", "name")
		e.num(s.Trace().Id(), "trace", "id")
		e.num(s.Start().UnixNano(), "start")
		e.flag(orph, "orphaned")
		args := e.at("args").list
		vrf.Assert(len(args) == len(s.Args()), "the element has all arguments")
		for i, a := range s.Args() {
			u, err := strconv.Unquote(args[i].str)
			vrf.Assert(args[i].str == a || err == nil && u == a, "the element has the right arguments")
		}
		ans := e.at("annotations").list
		vrf.Assert(len(ans) == len(s.Annotations()), "the element has all annotations")
		for i, a := range s.Annotations() {
			vrf.Assert(len(ans[i].list) == 2 && ans[i].list[0].str == a.Name && ans[i].list[1].str == a.Value, "the element has the right annotations")
		}
	}
	for _, o := range list {
		s := o.s
		el := vrf.ClockNow().Sub(s.Start())
		e := byID(l, s.Id())
		check(e, s, o.orph)
		e.num(int64(el), "elapsed")
		call := s.Func().FullName() + "(" + strings.Join(s.Args(), ", ") + ")"
		orph := ""
		if o.orph {
			orph = ", orphaned"
		}
		has(text.String(), "["+id(s.Id())+","+id(s.Trace().Id())+"] "+call+" (elapsed: "+el.String()+orph+")\n")
		lb := label(graph.Bytes(), "f"+id(s.Id()))
		has(lb, call)
		has(lb, "elapsed: "+el.String())
		vrf.Assert((occurs([]byte(lb), "orphaned") > 0) == o.orph, "a span is marked as orphaned exactly when it is")
		for _, a := range s.Annotations() {
			has(text.String(), a.Name+": "+a.Value+"\n")
			has(lb, a.Name+": "+a.Value)
		}
	}
	cexit(nil)
	cfin := vrf.ClockNow()
	if !orphan {
		vrf.AdvanceClock(6)
		pfin = vrf.ClockNow()
		exit(&err)
	}
	js.Reset()
	panicked := vrf.Choose("panicked", 2) == 1
	vrf.Assert(present.SpansToJSON(&js, []*collect.FinishedSpan{{Span: p, Err: err, Finish: pfin}, {Span: c, Panicked: panicked, Finish: cfin}}) == nil, "the report is written")
	l = tree(js.Bytes())
	vrf.Assert(len(l) == 2, "the report has one element per span")
	for _, s := range []*monkit.Span{p, c} {
		e := byID(l, s.Id())
		check(e, s, s == c && orphan)
		if s == p {
			e.num(pfin.UnixNano(), "finish")
			e.flag(false, "panicked")
			if err != nil {
				e.text("oops", "err")
			} else {
				e.text("", "err")
			}
		} else {
			e.num(cfin.UnixNano(), "finish")
			e.flag(panicked, "panicked")
			e.text("", "err")
		}
	}
}

func distText(d *monkit.DurationDist) (rv []string) {
	for _, q := range monkit.ObservedQuantiles {
		rv = append(rv, strconv.FormatFloat(q, 'f', 2, 64)+": "+d.Query(q).String()+"\n")
	}
	return append(rv, "avg: "+d.FullAverage().String()+"\n", "ravg: "+d.ReservoirAverage().String()+"\n", "recent: "+d.Recent.String()+"\n", "sum: "+d.Sum.String()+"\n")
}

func (v *jv) dist(d *monkit.DurationDist, key string) {
	v.num(int64(d.FullAverage()), key, "average")
	v.num(int64(d.FullAverage()), key, "full_average")
	v.num(int64(d.ReservoirAverage()), key, "reservoir_average")
	v.num(int64(d.High), key, "max")
	v.num(int64(d.Low), key, "min")
	v.num(int64(d.Recent), key, "recent")
	vrf.Assert(len(v.at(key, "quantiles").obj) == len(monkit.ObservedQuantiles), "the element has all quantiles")
	for _, q := range monkit.ObservedQuantiles {
		v.num(int64(d.Query(q)), key, "quantiles", strconv.FormatFloat(q, 'f', 2, 64))
	}
}

// H_func_content: what is reported about each function.
func H_func_content() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	f, g := reg.ScopeNamed("sc").FuncNamed("fn"), reg.ScopeNamed("cs").FuncNamed("gn")
	call := func(h *monkit.Func, ctx context.Context, d time.Duration, err error) {
		exit := h.Task(&ctx)
		vrf.AdvanceClock(d)
		exit(&err)
	}
	bg := context.Background()
	call(g, bg, 1, nil)
	ctx := bg
	gexit := g.Task(&ctx)
	if vrf.Choose("entry", 2) == 1 {
		call(f, bg, 3, nil)
	}
	call(f, ctx, 10, []error{nil, errors.New("x"), named("mine")}[vrf.Choose("first", 3)])
	call(f, ctx, 25, []error{nil, errors.New("x"), named("mine")}[vrf.Choose("second", 3)])
	call(f, ctx, 4, []error{nil, named("mine")}[vrf.Choose("third", 2)])
	if vrf.Choose("panic", 2) == 1 {
		vrf.Try(func() {
			c := ctx
			defer f.Task(&c)(nil)
			vrf.AdvanceClock(8)
			panic("p")
		})
	}
	if vrf.Choose("running", 2) == 1 {
		gexit(nil)
	}
	var text, graph, js bytes.Buffer
	vrf.Assert(present.FuncsText(reg, &text) == nil && present.FuncsDot(reg, &graph) == nil && present.FuncsJSON(reg, &js) == nil, "the report is written")
	l := tree(js.Bytes())
	vrf.Assert(len(l) == 2, "the report has one element per function")
	for i, h := range []*monkit.Func{f, g} {
		o := []*monkit.Func{g, f}[i]
		at := vrf.Find(text.Bytes(), "["+id(h.Id())+"] "+h.FullName()+"\n", 0)
		vrf.Assert(at > 0, "the report has the function")
		part := text.Bytes()[at:]
		if e := vrf.Find(part, "["+id(o.Id())+"] ", 0); e > 0 {
			part = part[:e]
		}
		lb := label(graph.Bytes(), "f"+id(h.Id()))
		e := byID(l, h.Id())
		e.text(h.Scope().Name(), "package")
		e.text(h.ShortName(), "name")
		e.num(h.Current(), "current")
		e.num(h.Highwater(), "highwater")
		e.num(h.Success(), "success")
		e.num(h.Panics(), "panics")
		e.dist(h.SuccessTimes(), "success_times")
		e.dist(h.FailureTimes(), "failure_times")
		var ps []string
		entry := false
		h.Parents(func(p *monkit.Func) {
			if p == nil {
				entry = true
				ps = append(ps, "entry")
			} else {
				ps = append(ps, id(p.Id()))
			}
		})
		e.flag(entry, "entry")
		np := len(ps)
		if entry {
			np--
		}
		vrf.Assert(len(e.at("parent_ids").list) == np, "the element has all parents")
		line := ""
		if a := vrf.Find(part, "parents: ", 0); a > 0 {
			line = string(part[a : vrf.Find(part, "\n", a)-1])
		}
		sum := 0
		for _, p := range ps {
			vrf.Assert(occurs([]byte(", "+line+", "), ", "+p+", ") == 1, "the report has each parent once")
			sum += len(p) + 2
			if p != "entry" {
				vrf.Assert(e.at("parent_ids").list[0].raw == p, "the element has the right parents")
			}
		}
		vrf.Assert(len(line)+2 == sum || len(ps) == 0 && line == "", "the report has no other parent")
		ne := int64(0)
		for name, n := range h.Errors() {
			ne += n
			e.num(n, "errors", name)
			has(string(part), "  error "+name+": "+id(n)+"\n")
			has(lb, "error "+name+": "+id(n))
		}
		vrf.Assert(len(h.Errors()) == 0 || len(e.at("errors").obj) == len(h.Errors()), "the element has all errors")
		nums := "current: " + id(h.Current()) + ", highwater: " + id(h.Highwater()) + ", success: " + id(h.Success()) + ", errors: " + id(ne) + ", panics: " + id(h.Panics())
		has(string(part), nums+"\n")
		has(lb, nums)
		has(lb, h.FullName())
		st, ft := vrf.Find(part, "success times:\n", 0), vrf.Find(part, "failure times:\n", 0)
		vrf.Assert(st > 0 && ft > st, "the report has the times")
		for _, t := range distText(h.SuccessTimes()) {
			has(string(part[st:ft]), " "+t)
		}
		for _, t := range distText(h.FailureTimes()) {
			has(string(part[ft:]), " "+t)
		}
		ls, lf := vrf.Find([]byte(lb), "success times:\n", 0), vrf.Find([]byte(lb), "failure times:\n", 0)
		vrf.Assert((ls > 0) == (h.Success() > 0) && (lf > 0) == (ne+h.Panics() > 0), "the graph has the times of what happened")
		if ls > 0 {
			x := lb[ls:]
			if lf > ls {
				x = lb[ls:lf]
			}
			for _, t := range distText(h.SuccessTimes()) {
				has(x, " "+t)
			}
		}
		if lf > 0 {
			for _, t := range distText(h.FailureTimes()) {
				has(lb[lf:], " "+t)
			}
		}
	}
}

// H_stats_content: what is reported about each statistic.
func H_stats_content() {
	vrf.NoSched(true)
	reg := monkit.NewRegistry()
	key := monkit.NewSeriesKey("m")
	tags := map[string]string{"scope": "sc"}
	for i := vrf.Choose("tags", 3); i > 0; i-- {
		k := []string{"a", "b"}[i-1]
		key = key.WithTag(k, "v"+k)
		tags[k] = "v" + k
	}
	v := []float64{0, -2.5, 7}[vrf.Choose("value", 3)]
	reg.ScopeNamed("sc").Chain(&src{[]monkit.SeriesKey{key, monkit.NewSeriesKey("z")}, []string{"f", "g"}, []float64{v, math.NaN()}})
	var text, old, js bytes.Buffer
	vrf.Assert(present.StatsText(reg, &text) == nil && present.StatsOld(reg, &old) == nil && present.StatsJSON(reg, &js) == nil, "the report is written")
	vrf.Assert(bytes.Equal(text.Bytes(), old.Bytes()), "StatsOld is StatsText")
	has(text.String(), key.WithTag("scope", "sc").WithField("f")+"="+strconv.FormatFloat(v, 'f', 6, 64)+"\n")
	l := tree(js.Bytes())
	vrf.Assert(len(l) == 2, "the report has one element per statistic")
	e := l[0].list
	vrf.Assert(len(e) == 4 && e[0].str == "m" && e[2].str == "f" && len(e[1].obj) == len(tags), "the element has the name, tags, field and value")
	for k, v := range tags {
		e[1].text(v, k)
	}
	vrf.Assert(e[3].raw == strconv.FormatFloat(v, 'f', -1, 64), "the element has the value")
	vrf.Assert(len(l[1].list) == 4 && l[1].list[0].str == "z" && l[1].list[3].raw == "null", "a value that is no number is null")
}

// failAt fails once n writes succeeded: for good or once.
type failAt struct {
	n     int
	after int
	err   error
}

func (f *failAt) Write(p []byte) (int, error) {
	if f.n == 0 {
		f.after++
		return 0, f.err
	}
	f.n--
	return len(p), nil
}

// H_write_error: a failing writer makes the report stop and return the error.
func H_write_error() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	var ctx, c2 context.Context = context.Background(), context.Background()
	exit := sc.FuncNamed("f").Task(&ctx, "arg")
	monkit.SpanFromCtx(ctx).Annotate("a", "b")
	monkit.SpanFromCtx(ctx).Annotate("c", "d")
	cc := ctx
	sc.FuncNamed("g").Task(&cc)
	cc = ctx
	sc.FuncNamed("g").Task(&cc)
	sc.FuncNamed("f").Task(&c2)
	err := errors.New("x")
	cc = c2
	sc.FuncNamed("g").Task(&cc)(&err)
	cc = c2
	sc.FuncNamed("g").Task(&cc)(nil)
	sc.Counter("c").Inc(1)
	_ = exit
	spans := []*collect.FinishedSpan{{Span: monkit.SpanFromCtx(ctx)}, {Span: monkit.SpanFromCtx(c2)}}
	reports := []func(r *monkit.Registry, w io.Writer) error{
		present.SpansText, present.SpansDot, present.SpansJSON,
		present.FuncsText, present.FuncsDot, present.FuncsJSON,
		present.StatsText, present.StatsOld, present.StatsJSON,
		func(r *monkit.Registry, w io.Writer) error { return present.SpansToJSON(w, spans) },
	}
	e := errors.New("disk full")
	f := &failAt{n: vrf.Choose("writes", 25), err: e}
	got := reports[vrf.Choose("report", len(reports))](reg, f)
	if f.after > 0 {
		vrf.Assert(got == e, "the error of the writer is returned")
		vrf.Assert(f.after == 1, "nothing is written after an error")
	} else {
		vrf.Assert(got == nil, "there is no error without one")
	}
}

// H_many: reports on many spans, functions and stats.
func H_many() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	n := vrf.Bound("many", 24, 60)
	shape := vrf.Choose("shape", 3)
	ended := vrf.Choose("ended", n)
	type live struct {
		ctx    context.Context
		exit   func(*error)
		s      *monkit.Span
		parent int
	}
	var all []*live
	for i := 0; i < n; i++ {
		l := &live{ctx: context.Background(), parent: -1}
		if i > 0 {
			l.parent = []int{0, i - 1, (i - 1) / 3}[shape]
			l.ctx = all[l.parent].ctx
		}
		l.exit = reg.ScopeNamed("s").FuncNamed("f" + id(int64(i))).Task(&l.ctx)
		l.s = monkit.SpanFromCtx(l.ctx)
		all = append(all, l)
	}
	all[ended].exit(nil)
	var text, graph, js bytes.Buffer
	vrf.Assert(present.SpansText(reg, &text) == nil, "the report is written")
	vrf.Assert(present.SpansDot(reg, &graph) == nil, "the report is written")
	vrf.Assert(present.SpansJSON(reg, &js) == nil, "the report is written")
	nodes, edges := dot(graph.Bytes())
	vrf.Assert(list(js.Bytes()) == n-1 && len(nodes) == n-1, "the reports have the live spans")
	ne := 0
	for i, l := range all {
		want := 1
		if i == ended {
			want = 0
		}
		vrf.Assert(occurs(text.Bytes(), "["+id(l.s.Id())+","+id(l.s.Trace().Id())+"] s.f"+id(int64(i))+"()") == want, "each live span is in the text once")
		vrf.Assert(count(nodes, "f"+id(l.s.Id())) == want, "each live span is in the graph once")
		vrf.Assert(occurs(js.Bytes(), `{"id":`+id(l.s.Id())+`,`) == want, "each live span is in the JSON once")
		if want == 1 && l.parent >= 0 && l.parent != ended {
			ne++
			vrf.Assert(count(edges, "f"+id(all[l.parent].s.Id())+" -> f"+id(l.s.Id())) == 1, "each child is below its parent")
		}
	}
	vrf.Assert(len(edges) == ne, "the graph has no other edges")
	graph.Reset()
	js.Reset()
	vrf.Assert(present.FuncsDot(reg, &graph) == nil, "the report is written")
	vrf.Assert(present.FuncsJSON(reg, &js) == nil, "the report is written")
	nodes, edges = dot(graph.Bytes())
	vrf.Assert(list(js.Bytes()) == n && len(nodes) == n+1 && len(edges) == n, "the reports have each function, and an edge per parent")
	for _, l := range all {
		vrf.Assert(count(nodes, "f"+id(l.s.Func().Id())) == 1, "each function is in the graph once")
	}
	js.Reset()
	text.Reset()
	ns := 0
	reg.Stats(func(monkit.SeriesKey, string, float64) { ns++ })
	vrf.Assert(present.StatsJSON(reg, &js) == nil, "the report is written")
	vrf.Assert(present.StatsText(reg, &text) == nil, "the report is written")
	vrf.Assert(list(js.Bytes()) == ns && bytes.Count(text.Bytes(), []byte("\n")) == ns, "the reports have each value once")
}
