// Package c22: drawing a trace is total and keeps every bar inside the graph.
package c22

import (
	"bytes"
	"context"
	"errors"
	"strconv"
	"time"
	"unicode/utf8"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"

	"vharness/vrf"
)

// bar is one rectangle of the drawing.
type bar struct{ x, y, w, h int64 }

func find(s []byte, text string, from int) int { return vrf.Find(s, text, from) }

// num reads the number in s up to the next quote.
func num(s []byte, i int) (v int64, end int) {
	if i < 0 {
		vrf.Fail("a bar has its attributes")
	}
	neg := false
	n := 0
	for ; i < len(s); i++ {
		if vrf.Known(s[i]) && s[i] == '"' {
			vrf.Assert(n > 0, "a bar has numbers")
			if neg {
				v = -v
			}
			return v, i + 1
		}
		if n == 0 && vrf.Known(s[i]) && s[i] == '-' {
			neg = true
			continue
		}
		vrf.Assert(vrf.And(s[i] >= '0', s[i] <= '9'), "a bar has numbers")
		v = v*10 + int64(s[i]-'0')
		n++
	}
	vrf.Fail("a bar has its attributes")
	return 0, 0
}

// bars finds the bar of each span: exactly one.
func bars(out []byte, spans []*collect.FinishedSpan, xs bool) (r []bar, height int64) {
	i := find(out, `viewBox="0 0 1200 `, 0)
	height, _ = num(out, i)
	for _, fs := range spans {
		id := strconv.FormatInt(fs.Span.Id(), 10)
		at := find(out, `<rect id="rect-`+id+`" `, 0)
		vrf.Assert(at >= 0, "each span is drawn")
		vrf.Assert(find(out, `<rect id="rect-`+id+`" `, at) < 0, "each span is drawn once")
		var b bar
		end := find(out, "/>", at)
		tag := out[at:end]
		if xs {
			b.x, _ = num(tag, find(tag, `x="`, 0))
			b.w, _ = num(tag, find(tag, `width="`, 0))
		}
		b.y, _ = num(tag, find(tag, `y="`, 0))
		b.h, _ = num(tag, find(tag, `height="`, 0))
		r = append(r, b)
	}
	n := 0
	for at := find(out, `<rect id="rect-`, 0); at >= 0; at = find(out, `<rect id="rect-`, at) {
		n++
	}
	vrf.Assert(n == len(spans), "nothing else is drawn")
	return r, height
}

const total = 1000

type world struct {
	reg   *monkit.Registry
	base  time.Time
	now   int64
	spans []*collect.FinishedSpan
	ctxs  []context.Context
	s, f  []int64 // start and finish
}

func newWorld() *world {
	vrf.FreezeClock(true)
	vrf.NoSched(true)
	return &world{reg: monkit.NewRegistry()}
}

// add starts a span gap after the last and with duration dur.
func (w *world) add(parent int, gap, dur int64) {
	vrf.AdvanceClock(time.Duration(gap))
	w.now += gap
	ctx := context.Background()
	f := w.reg.ScopeNamed("s").FuncNamed("f")
	switch {
	case parent >= 0:
		ctx = w.ctxs[parent]
		f.Task(&ctx)
	case parent == -1:
		f.Task(&ctx)
	case parent == -2: // a parent that is not in the list
		f.RemoteTrace(&ctx, 12345, monkit.NewTrace(1))
	case parent == -3: // a remote trace without parent
		f.RemoteTrace(&ctx, 0, monkit.NewTrace(1))
	}
	s := monkit.SpanFromCtx(ctx)
	w.ctxs = append(w.ctxs, ctx)
	w.s = append(w.s, w.now)
	w.f = append(w.f, w.now+dur)
	w.spans = append(w.spans, &collect.FinishedSpan{Span: s, Finish: s.Start().Add(time.Duration(dur))})
}

func small(name string, bits uint) int64 {
	b := int64(vrf.Byte(name))
	vrf.Assume(b < 1<<bits)
	return b
}

// check draws the spans and checks each bar; the first span is [0, total].
func (w *world) check(xs bool) {
	spans := append([]*collect.FinishedSpan(nil), w.spans...)
	var b bytes.Buffer
	vrf.Assert(present.SpansToSVG(&b, spans) == nil, "the trace is drawn")
	r, height := bars(b.Bytes(), w.spans, xs)
	for i, x := range r {
		if xs {
			vrf.Assert(vrf.And(x.x >= 0, x.w >= 1, x.x+x.w <= 1201), "each bar is inside the graph")
			d := x.x*total - w.s[i]*1200
			vrf.Assert(vrf.And(d <= total, d >= -total), "a bar starts where its span starts")
			d = (x.x+x.w)*total - w.f[i]*1200
			vrf.Assert(vrf.And(d <= 2*total, d >= -total), "a bar ends where its span finishes")
		}
		vrf.Assert(x.y >= 0 && x.h > 0 && x.y+x.h <= height, "each bar is inside the graph")
		for j := range r[:i] {
			if r[j].y+r[j].h > x.y && x.y+x.h > r[j].y {
				vrf.Assert(vrf.Or(w.f[i] <= w.s[j], w.f[j] <= w.s[i]), "spans that overlap in time do not share a row")
			}
		}
	}
}

// H_bars: the extent of bars.
func H_bars() {
	w := newWorld()
	w.add(-1, 0, total)
	n := vrf.Bound("bars", 1, 2)
	for i := 0; i < n; i++ {
		// one of the two is symbolic
		some := []int64{0, 1, 83, 255}
		if vrf.Choose("symbolic", 2) == 0 {
			w.add(0, some[vrf.Choose("gap", 4)], small("dur", 8))
		} else {
			w.add(0, small("gap", 8), some[vrf.Choose("dur", 4)])
		}
	}
	w.check(true)
}

// H_edges: bars at the very start and end.
func H_edges() {
	w := newWorld()
	w.add(-1, 0, total)
	gap := small("gap", 3)
	dur := small("dur", 3)
	w.add(-1, 993+gap, dur)
	vrf.Assume(gap+dur <= 7)
	w.check(true)
}

// H_rows: the rows of any small forest.
func H_rows() {
	w := newWorld()
	n := vrf.Bound("spans besides the frame", 3, 4)
	w.add(-1, 0, total)
	for i := 1; i <= n; i++ {
		p := vrf.Choose("parent", i+3) - 3 // -3, -2, -1: roots; 0: the frame
		w.add(p, 1, small("dur", 3))
	}
	w.check(false)
}

// H_rows_order: in any order of the list and of maps.
func H_rows_order() {
	vrf.MapOrder(true)
	w := newWorld()
	w.add(-1, 0, total)
	for i := 1; i <= 2; i++ {
		p := vrf.Choose("parent", i+3) - 3
		w.add(p, int64(vrf.Choose("gap", 2)), small("dur", 2))
	}
	for i := 2; i > 0; i-- {
		j := vrf.Choose("order", i+1)
		w.spans[i], w.spans[j] = w.spans[j], w.spans[i]
		w.s[i], w.s[j] = w.s[j], w.s[i]
		w.f[i], w.f[j] = w.f[j], w.f[i]
	}
	w.check(false)
}

// H_rows_deep: deeper trees in which children outlive their parents.
func H_rows_deep() {
	shapes := [][]int{
		{0, 1, 2, 0, 4, 4},    // c1 d1 g1, c2 with two children
		{-2, 1, 2, -2, 4, 5},  // a missing parent
		{0, 1, 0, 3, 0, 5},    // three children with a child each
		{0, 1, 2, 3, 0, 5, 5}, // one level more
	}
	w := newWorld()
	w.add(-1, 0, total)
	for _, p := range shapes[vrf.Choose("shape", vrf.Bound("shapes", 2, 4))] {
		w.add(p, 1, small("dur", 3))
	}
	w.check(false)
}

// H_total: any number of spans at any times: no panic, each drawn once.
func H_total() {
	w := newWorld()
	n := vrf.Choose("spans", 3)
	for i := 0; i < n; i++ {
		var gap, dur int64
		var errs error
		switch k := vrf.Choose("size", 4); k {
		case 1:
			gap, dur = int64(vrf.Choose("gap", 2)), small("dur", 2)
		case 2: // a hundred years
			dur = 3155760000000000000
		case 3: // finished before it started
			dur = -5
			errs = errors.New("odd")
		}
		w.add(-1, gap, dur)
		w.spans[i].Err = errs
		w.spans[i].Panicked = vrf.Bool("panicked")
	}
	var b bytes.Buffer
	spans := append([]*collect.FinishedSpan(nil), w.spans...)
	vrf.Assert(present.SpansToSVG(&b, spans) == nil, "the trace is drawn")
	r, _ := bars(b.Bytes(), w.spans, true)
	for i, x := range r {
		if w.f[i] < w.s[i] {
			continue
		}
		vrf.Assert(vrf.And(x.x >= 0, x.w >= 1, x.x+x.w <= 1201), "each bar is inside the graph")
	}
	vrf.Assert(find(b.Bytes(), "</svg>", 0) >= 0, "the drawing is complete")
}

type failAt struct {
	n     int
	after int
	err   error
}

func (f *failAt) Write(p []byte) (int, error) {
	if f.n == 0 {
		f.after++
		return 0, f.err
	}
	f.n--
	return len(p), nil
}

// H_write_error: the error of the writer is returned.
func H_write_error() {
	w := newWorld()
	w.add(-1, 0, total)
	w.add(0, 10, 10)
	e := errors.New("disk full")
	f := &failAt{n: vrf.Choose("writes", 64), err: e}
	err := present.SpansToSVG(f, w.spans)
	if f.after > 0 {
		vrf.Assert(err == e, "the error of the writer is returned")
		vrf.Assert(f.after == 1, "nothing is written after an error")
	} else {
		vrf.Assert(err == nil, "there is no error without one")
	}
}

// attr is an attribute of an element, its value decoded.
type attr struct {
	key string
	val []byte
}

// elem is an element of the drawing.
type elem struct {
	name  string
	attrs []attr
	text  []byte // own text, decoded
}

func (e *elem) get(key string) []byte {
	for _, a := range e.attrs {
		if a.key == key {
			return a.val
		}
	}
	vrf.Fail("the drawing has attribute " + key)
	return nil
}

func bad() { vrf.Fail("the drawing is well-formed XML") }

func isName(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == ':' || c == '_'
}

// chars decodes character data up to the (raw) byte end.
func chars(b []byte, i int, end byte) ([]byte, int) {
	var r []byte
	for ; i < len(b) && b[i] != end; i++ {
		c := b[i]
		switch {
		case c == '<', c < 0x20 && c != '\n' && c != '\t' && c != '\r':
			bad()
		case c == '&':
			j := i + 1
			for j < len(b) && b[j] != ';' {
				j++
			}
			if j >= len(b) {
				bad()
			}
			switch ent := string(b[i+1 : j]); {
			case ent == "lt":
				r = append(r, '<')
			case ent == "gt":
				r = append(r, '>')
			case ent == "amp":
				r = append(r, '&')
			case ent == "quot":
				r = append(r, '"')
			case ent == "apos":
				r = append(r, '\'')
			case len(ent) > 1 && ent[0] == '#':
				num, base := ent[1:], 10
				if num[0] == 'x' {
					num, base = num[1:], 16
				}
				v, err := strconv.ParseUint(num, base, 32)
				if err != nil {
					bad()
				}
				r = utf8.AppendRune(r, rune(v))
			default:
				bad()
			}
			i = j
		default:
			r = append(r, c)
		}
	}
	if i >= len(b) && end != '<' {
		bad()
	}
	if !utf8.Valid(r) {
		bad()
	}
	return r, i
}

// parse reads a document into its elements, in order.
func parse(b []byte) (r []*elem) {
	var open []*elem
	i := 0
	for i < len(b) {
		if b[i] != '<' {
			var t []byte
			t, i = chars(b, i, '<')
			if len(open) > 0 {
				e := open[len(open)-1]
				e.text = append(e.text, t...)
			}
			continue
		}
		if j := find(b[i:], "<![CDATA[", 0); j == 9 {
			k := find(b, "]]>", i+j)
			if k < 0 {
				bad()
			}
			i = k
			continue
		}
		i++
		if i < len(b) && (b[i] == '!' || b[i] == '?') {
			if len(r) > 0 {
				bad()
			}
			for i < len(b) && b[i] != '>' {
				i++
			}
			i++
			continue
		}
		end := i < len(b) && b[i] == '/'
		if end {
			i++
		}
		s := i
		for i < len(b) && isName(b[i]) {
			i++
		}
		name := string(b[s:i])
		if name == "" {
			bad()
		}
		if end {
			if i >= len(b) || b[i] != '>' || len(open) == 0 || open[len(open)-1].name != name {
				bad()
			}
			open = open[:len(open)-1]
			i++
			continue
		}
		e := &elem{name: name}
		r = append(r, e)
		for {
			for i < len(b) && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t') {
				i++
			}
			if i < len(b) && b[i] == '>' {
				open = append(open, e)
				i++
				break
			}
			if i+1 < len(b) && b[i] == '/' && b[i+1] == '>' {
				i += 2
				break
			}
			s := i
			for i < len(b) && isName(b[i]) {
				i++
			}
			key := string(b[s:i])
			if key == "" || i+1 >= len(b) || b[i] != '=' || b[i+1] != '"' && b[i+1] != '\'' {
				bad()
			}
			a := attr{key: key}
			a.val, i = chars(b, i+2, b[i+1])
			i++
			for _, o := range e.attrs {
				if o.key == key {
					bad()
				}
			}
			e.attrs = append(e.attrs, a)
		}
	}
	if len(open) > 0 || len(r) == 0 {
		bad()
	}
	return r
}

// script separates the code of a handler from its string literals.
func script(b []byte) (code string, lits [][]byte) {
	ends := func() { vrf.Fail("no text ends the string of a script it stands in") }
	var out []byte
	for i := 0; i < len(b); i++ {
		q := b[i]
		out = append(out, q)
		if q != '\'' && q != '"' {
			continue
		}
		var l []byte
		for i++; ; i++ {
			if i >= len(b) || b[i] == '\n' || b[i] == '\r' {
				ends()
			}
			c := b[i]
			if c == q {
				break
			}
			if c != '\\' {
				l = append(l, c)
				continue
			}
			i++
			n := 0
			switch c = b[i]; c {
			case 'n':
				c = '\n'
			case 'r':
				c = '\r'
			case 't':
				c = '\t'
			case 'x':
				n = 2
			case 'u':
				n = 4
			}
			if n == 0 {
				l = append(l, c)
				continue
			}
			if i+n >= len(b) {
				ends()
			}
			v, err := strconv.ParseUint(string(b[i+1:i+1+n]), 16, 32)
			if err != nil {
				ends()
			}
			l = utf8.AppendRune(l, rune(v))
			i += n
		}
		lits = append(lits, l)
	}
	return string(out), lits
}

// structure is what the drawing is made of apart from texts and numbers.
func structure(es []*elem) (r string) {
	for _, e := range es {
		r += "<" + e.name
		for _, a := range e.attrs {
			r += " " + a.key
			if len(a.key) > 2 && a.key[:2] == "on" {
				code, _ := script(a.val)
				r += "=" + code
			}
		}
		r += ">"
	}
	return r
}

func draw(spans ...*collect.FinishedSpan) []byte {
	var b bytes.Buffer
	vrf.Assert(present.SpansToSVG(&b, spans) == nil, "the trace is drawn")
	return b.Bytes()
}

func byID(es []*elem, id string) (r *elem) {
	for _, e := range es {
		for _, a := range e.attrs {
			if a.key == "id" && string(a.val) == id {
				if r != nil {
					vrf.Fail("ids are unique")
				}
				r = e
			}
		}
	}
	if r == nil {
		vrf.Fail("the drawing has " + id)
	}
	return r
}

// contains is strings.Contains in one formula.
func contains(s, part string) bool {
	r := len(part) == 0
	for i := 0; i+len(part) <= len(s); i++ {
		at := true
		for j := 0; j < len(part); j++ {
			at = vrf.And(at, s[i+j] == part[j])
		}
		r = vrf.Or(r, at)
	}
	return r
}

// H_text: any name and argument stands in the drawing as text and nothing else.
func H_text() {
	vrf.NoSched(true)
	vrf.FreezeClock(true)
	reg := monkit.NewRegistry()
	k := vrf.Bound("name length", 2, 3)
	ctx := context.Background()
	reg.ScopeNamed("s").FuncNamed("f").Task(&ctx, "a", 1)
	plain := monkit.SpanFromCtx(ctx)
	sc, fn := "sc", "fn"
	var args []interface{}
	switch vrf.Choose("which", 3) {
	case 0:
		sc = vrf.String("scope", k)
	case 1:
		fn = vrf.String("function", k)
	case 2:
		args = append(args, vrf.String("argument", 1), "it's")
	}
	ctx = context.Background()
	reg.ScopeNamed(sc).FuncNamed(fn).Task(&ctx, args...)
	s := monkit.SpanFromCtx(ctx)
	want := structure(parse(draw(&collect.FinishedSpan{Span: plain, Finish: plain.Start().Add(5)})))
	es := parse(draw(&collect.FinishedSpan{Span: s, Finish: s.Start().Add(5)}))
	vrf.Assert(structure(es) == want, "no name or argument adds to the drawing or its scripts")
	// as it stands where every character is one XML and scripts can hold
	full := s.Func().FullName()
	for i := 0; i < len(full); i++ {
		if full[i] < ' ' || full[i] > '~' {
			return
		}
	}
	id := strconv.FormatInt(s.Id(), 10)
	text := string(byID(es, "text-"+id).text)
	shown := func(text string) {
		vrf.Assert(contains(text, full), "the name is shown")
		for _, a := range s.Args() {
			vrf.Assert(contains(text, a), "each argument is shown")
		}
		vrf.Assert(contains(text, "5ns"), "the duration is shown")
	}
	shown(text)
	_, lits := script(byID(es, "id-"+id).get("onmouseover"))
	tip := ""
	for _, l := range lits {
		tip += string(l) + " "
	}
	shown(tip)
}

type wrapper struct{ error }

func (w wrapper) WrappedErr() error { return w.error }

// H_content: colour, duration and parent line of each span.
func H_content() {
	w := newWorld()
	w.add(-1, 0, total)
	n := vrf.Bound("spans", 2, 3)
	class := []int{0}
	for i := 0; i < n; i++ {
		w.add(vrf.Choose("parent", i+2)-1, 100, 30+int64(i)*7)
		fs := w.spans[i+1]
		k := vrf.Choose("outcome", 7)
		switch k {
		case 1:
			fs.Err = errors.New("x")
		case 2:
			fs.Err, k = wrapper{errors.New("x")}, 1
		case 3:
			fs.Err, k = context.Canceled, 2
		case 4:
			fs.Err, k = wrapper{wrapper{context.Canceled}}, 2
		case 5:
			fs.Panicked, k = true, 3
		case 6:
			fs.Panicked, fs.Err, k = true, context.Canceled, 3
		}
		class = append(class, k)
	}
	es := parse(draw(append([]*collect.FinishedSpan(nil), w.spans...)...))
	type box struct{ x, y, h int64 }
	var boxes []box
	var fill []string
	val := func(b []byte) int64 {
		v, err := strconv.ParseInt(string(b), 10, 64)
		vrf.Assert(err == nil, "a bar has numbers")
		return v
	}
	for _, fs := range w.spans {
		r := byID(es, "rect-"+strconv.FormatInt(fs.Span.Id(), 10))
		boxes = append(boxes, box{val(r.get("x")), val(r.get("y")), val(r.get("height"))})
		fill = append(fill, string(r.get("fill")))
	}
	for i, fs := range w.spans {
		for j := range w.spans[:i] {
			vrf.Assert((fill[i] == fill[j]) == (class[i] == class[j]), "the colour tells the outcome")
		}
		id := strconv.FormatInt(fs.Span.Id(), 10)
		vrf.Assert(find(byID(es, "text-"+id).text, fs.Finish.Sub(fs.Span.Start()).String(), 0) >= 0, "the duration is shown")
		_, lits := script(byID(es, "id-"+id).get("onmouseover"))
		tip := ""
		for _, l := range lits {
			tip += string(l) + " "
		}
		vrf.Assert(find([]byte(tip), ":"+fs.Finish.Sub(fs.Span.Start()).String(), 0) >= 0, "the duration is shown")
		vrf.Assert(find([]byte(tip), ":"+time.Duration(w.s[i]).String(), 0) >= 0, "the start is shown")
		// the line is the only one that starts at this bar
		lines := 0
		for k, e := range es {
			if e.name != "line" {
				continue
			}
			// its group is the last one before it that has an id
			g := k
			for g >= 0 {
				if len(es[g].attrs) > 0 && es[g].attrs[0].key == "id" && es[g].name == "g" {
					break
				}
				g--
			}
			if g < 0 || string(es[g].get("id")) != "id-"+id {
				continue
			}
			lines++
			on := func(b box, x, y string) bool {
				v := val(e.get(y))
				return val(e.get(x)) == b.x && v >= b.y && v <= b.y+b.h
			}
			vrf.Assert(on(boxes[i], "x1", "y1"), "a line starts at its bar")
			if p, ok := fs.Span.ParentId(); ok {
				for j, ps := range w.spans {
					if ps.Span.Id() == p {
						vrf.Assert(on(boxes[j], "x2", "y2"), "a line leads to the parent's bar")
					}
				}
			}
		}
		vrf.Assert(lines == 1, "a line leads to the parent")
	}
}

// H_many: drawings of many spans in wide, deep and mixed trees, in any
// rotation of the list.
func H_many() {
	w := newWorld()
	n := vrf.Bound("many spans", 24, 48)
	shape := vrf.Choose("shape", 4)
	w.add(-1, 0, total)
	for i := 1; i < n; i++ {
		p := []int{0, i - 1, (i - 1) / 3, -3}[shape]
		w.add(p, int64(i%3), int64(total/(i+1)))
	}
	k := vrf.Choose("first in the list", n)
	w.spans = append(w.spans[k:len(w.spans):len(w.spans)], w.spans[:k]...)
	w.s = append(w.s[k:len(w.s):len(w.s)], w.s[:k]...)
	w.f = append(w.f[k:len(w.f):len(w.f)], w.f[:k]...)
	w.check(true)
}
