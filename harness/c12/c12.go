// Package c12: a registry's stats contain every source exactly once, scoped.
package c12

import (
	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

// src is a chained source that reports symbolic values under its own name.
type src struct {
	name  string
	vals  []float64
	calls int
}

func newSrc(name string, n int) *src {
	s := &src{name: name}
	for i := 0; i < n; i++ {
		s.vals = append(s.vals, vrf.Float64("v"))
	}
	return s
}

func (s *src) key() monkit.SeriesKey {
	return monkit.NewSeriesKey(s.name).WithTag("own", "tag")
}

var fields = []string{"a", "b", "total"}

func (s *src) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	s.calls++
	for i, v := range s.vals {
		cb(s.key(), fields[i], v)
	}
}

type want struct {
	scope, name, field string
	val                float64
}

// check: exactly the wanted values are reported, each once, scoped.
func check(got []hx.Stat, ws []want, ownTag bool) {
	vrf.Assert(len(got) == len(ws), "exactly the values of all sources are reported")
	for _, w := range ws {
		n := 0
		for _, g := range got {
			if g.Key.Measurement == w.name && g.Field == w.field && g.Key.Tags.Get("scope") == w.scope {
				n++
				vrf.Assert(vrf.SameF(g.Val, w.val), "a value is passed on unchanged")
				if ownTag {
					vrf.Assert(g.Key.Tags.Get("own") == "tag" && g.Key.Tags.Len() == 2, "the tags are those of the source and the scope")
				} else {
					vrf.Assert(g.Key.Tags.Len() == 1, "the only tag is the scope")
				}
			}
		}
		vrf.Assert(n == 1, "each value is reported exactly once, in its scope")
	}
}

// H_chains: any number of sources chained to any of three scopes.
func H_chains() {
	vrf.MapOrder(true)
	r := monkit.NewRegistry()
	names := []string{"b", "a", "c"}
	n := vrf.Bound("sources", 3, 4)
	var all []*src
	var ws []want
	for i := 0; i < n; i++ {
		sc := names[vrf.Choose("scope", len(names))]
		s := newSrc(string(rune('p'+i)), vrf.Choose("values", 3))
		r.ScopeNamed(sc).Chain(s)
		all = append(all, s)
		for k, v := range s.vals {
			ws = append(ws, want{sc, s.name, fields[k], v})
		}
	}
	got := hx.Stats(r)
	check(got, ws, true)
	for _, s := range all {
		vrf.Assert(s.calls == 1, "each source is called exactly once")
	}
	for i := 1; i < len(got); i++ {
		vrf.Assert(got[i-1].Key.Tags.Get("scope") <= got[i].Key.Tags.Get("scope"), "scopes are visited in name order")
	}
	again := hx.Stats(r)
	check(again, ws, true)
}

// H_twice: a source chained twice accumulates.
func H_twice() {
	r := monkit.NewRegistry()
	s := newSrc("p", 1)
	sc := r.ScopeNamed("s")
	n := vrf.Choose("times", 4)
	for i := 0; i < n; i++ {
		sc.Chain(s)
	}
	vrf.Assert(len(hx.Stats(sc)) == n && s.calls == n, "chained sources accumulate")
}

// H_gauges: gauges and chains registered in any order; re-registering a gauge
// replaces the earlier one of that name.
func H_gauges() {
	vrf.MapOrder(true)
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	n := vrf.Bound("registrations", 4, 5)
	vals := map[string]float64{}
	calls := map[string]int{}
	names := []string{"x", "y"}
	chains := 0
	var cv float64
	for i := 0; i < n; i++ {
		switch k := vrf.Choose("which", 3); k {
		case 0, 1:
			name := names[k]
			v := vrf.Float64("gauge")
			id := i
			sc.Gauge(name, func() float64 {
				if vals[name+"!"] != float64(id) {
					vrf.Fail("a replaced gauge is not called any more")
				}
				calls[name]++
				return v
			})
			vals[name] = v
			vals[name+"!"] = float64(id)
		case 2:
			cv = 0.5
			chains++
			sc.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
				cb(monkit.NewSeriesKey("chain"), "value", cv)
			}))
		}
	}
	var ws []want
	for _, name := range names {
		if v, ok := vals[name]; ok {
			ws = append(ws, want{"s", name, "value", v})
		}
	}
	var got []hx.Stat
	nc := 0
	for _, s := range hx.Stats(r) {
		if s.Key.Measurement == "chain" {
			nc++
			continue
		}
		got = append(got, s)
	}
	check(got, ws, false)
	vrf.Assert(nc == chains, "chained sources accumulate")
	for _, w := range ws {
		vrf.Assert(calls[w.name] == 1, "each gauge is called exactly once")
	}
}

// H_metrics: every subset of the metric kinds in a scope is reported, each once,
// with what it reports by itself.
func H_metrics() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("scope")
	tag := monkit.NewSeriesTag("k", "v")
	vrf.FreezeClock(true)
	vrf.NoSched(true) // the ticker of the meters plays no part
	var ms []monkit.StatSource
	n := vrf.Bound("kinds", 3, 4)
	from := 0
	for i := 0; i < n; i++ {
		if from > 10 {
			break
		}
		k := from + vrf.Choose("kind", 11-from)
		from = k + 1
		switch k {
		case 0:
			c := sc.Counter("counter", tag)
			c.Inc(vrf.Int64("n"))
			ms = append(ms, c)
		case 1:
			c := sc.Meter("meter", tag)
			c.Mark(7)
			ms = append(ms, c)
		case 2:
			c := sc.IntVal("int", tag)
			c.Observe(3)
			ms = append(ms, c)
		case 3:
			c := sc.FloatVal("float", tag)
			c.Observe(3)
			ms = append(ms, c)
		case 4:
			c := sc.BoolVal("bool", tag)
			c.Observe(vrf.Bool("b"))
			ms = append(ms, c)
		case 5:
			c := sc.StructVal("struct", tag)
			c.Observe(struct{ A int }{3})
			ms = append(ms, c)
		case 6:
			c := sc.DurationVal("dur", tag)
			c.Observe(3)
			ms = append(ms, c)
		case 7:
			c := sc.Timer("timer", tag)
			c.Start().Stop()
			ms = append(ms, c)
		case 8:
			m1, m2 := monkit.NewMeter(monkit.NewSeriesKey("a")), monkit.NewMeter(monkit.NewSeriesKey("b"))
			m1.Mark(5)
			m2.Mark(2)
			sc.DiffMeter("diff", m1, m2, tag)
			ms = append(ms, monkit.NewDiffMeter(monkit.NewSeriesKey("diff").WithTags(tag), m1, m2))
		case 9:
			c := sc.FuncNamed("f", tag)
			ms = append(ms, c)
		case 10:
			sc.Event("event", tag)
			ms = append(ms, sc.Meter("event", tag))
		}
	}
	var all []hx.Stat
	for _, m := range ms {
		all = append(all, hx.Stats(m)...)
	}
	for _, got := range [][]hx.Stat{hx.Stats(r), hx.Stats(sc)} {
		vrf.Assert(len(got) == len(all), "exactly the values of all metrics are reported")
		for _, w := range all {
			key := w.Key.WithTag("scope", "scope").WithField(w.Field)
			n := 0
			for _, g := range got {
				if g.Key.WithField(g.Field) == key {
					n++
					vrf.Assert(hx.EqF(g.Val, w.Val), "a value is passed on unchanged")
				}
			}
			vrf.Assert(n == 1, "each value is reported exactly once with its tags and the scope")
		}
	}
}

// H_scope_tag: the scope tag is the scope's name, any bytes.
func H_scope_tag() {
	r := monkit.NewRegistry()
	name := vrf.String("scope", vrf.Bound("name length", 3, 4))
	v := vrf.Float64("v")
	key := monkit.NewSeriesKey("g")
	tags := 1
	switch vrf.Choose("kind", 4) {
	case 0:
		r.ScopeNamed(name).Gauge("g", func() float64 { return v })
	case 1: // one that has a scope tag of its own
		key = key.WithTag("scope", vrf.String("own scope", 2))
	case 2:
		key = key.WithTags(monkit.NewSeriesTag("scope", "x"), monkit.NewSeriesTag("other", "y"))
		tags = 2
	case 3: // reported under the tag of another scope
		key = key.WithTag("scopes", "x")
		tags = 2
	}
	if key.Tags.Len() > 0 {
		r.ScopeNamed(name).Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(key, "value", v) }))
	}
	got := hx.Stats(r)
	vrf.Assert(len(got) == 1 && got[0].Key.Tags.Len() == tags, "no tag is lost and only the scope's is added")
	vrf.Assert(len(got) == 1, "the gauge is reported once")
	vrf.Assert(vrf.EqStr(got[0].Key.Tags.Get("scope"), name), "the scope tag is the scope's name")
	vrf.Assert(vrf.SameF(got[0].Val, v), "a value is passed on unchanged")
	vrf.Assert(got[0].Key.Measurement == "g" && got[0].Field == "value", "a gauge is reported under its name")
}

// H_order: scopes of any names are visited in order, each once.
func H_order() {
	vrf.MapOrder(true)
	r := monkit.NewRegistry()
	n := vrf.Bound("scopes", 3, 4)
	made := map[*monkit.Scope]int{}
	k := 0
	for i := 0; i < n; i++ {
		s := r.ScopeNamed(vrf.String("name", 1))
		if _, ok := made[s]; !ok {
			made[s] = 0
			k++
		}
	}
	var list []*monkit.Scope
	r.Scopes(func(s *monkit.Scope) {
		list = append(list, s)
		made[s]++
	})
	vrf.Assert(len(list) == k && len(made) == k, "exactly the scopes asked for are visited")
	for i, s := range list {
		vrf.Assert(made[s] == 1, "each scope is visited once")
		if i > 0 {
			vrf.Assert(list[i-1].Name() < s.Name(), "scopes are visited in name order")
		}
	}
}

// H_funcs: every function is visited exactly once, other metrics never.
func H_funcs() {
	vrf.MapOrder(true)
	r := monkit.NewRegistry()
	n := vrf.Bound("requests", 3, 4)
	seen := map[*monkit.Func]int{}
	for i := 0; i < n; i++ {
		sc := r.ScopeNamed([]string{"s", "t"}[vrf.Choose("scope", 2)])
		switch vrf.Choose("kind", 4) {
		case 0:
			seen[sc.FuncNamed("f")] = 0
		case 1:
			seen[sc.FuncNamed("f", monkit.NewSeriesTag("k", "v"))] = 0
		case 2:
			seen[sc.FuncNamed("g")] = 0
		case 3:
			sc.Counter("f")
		}
	}
	k := len(seen)
	r.Funcs(func(f *monkit.Func) { seen[f]++ })
	vrf.Assert(len(seen) == k, "only functions asked for are visited")
	for _, c := range seen {
		vrf.Assert(c == 1, "every function is visited exactly once")
	}
}

// tr is a transformer that records its name, or drops or doubles values.
func tr(name string, log *[]string) monkit.CallbackTransformer {
	return monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
		return func(key monkit.SeriesKey, field string, val float64) {
			*log = append(*log, name)
			cb(key.WithTag(name, name), field, val)
		}
	})
}

// H_transformers: a tree of registries with transformers.
func H_transformers() {
	base := monkit.NewRegistry()
	v := vrf.Float64("v")
	base.ScopeNamed("s").Gauge("g", func() float64 { return v })
	var log []string
	type node struct {
		r     *monkit.Registry
		names []string
	}
	nodes := []node{{base, nil}}
	n := vrf.Bound("registries", 4, 5)
	for i := 0; i < n; i++ {
		from := nodes[vrf.Choose("from", len(nodes))]
		var ts []monkit.CallbackTransformer
		names := append([]string(nil), from.names...)
		for j := 0; j < 1+vrf.Choose("transformers", 2); j++ {
			name := string(rune('a'+i)) + string(rune('0'+j))
			ts = append(ts, tr(name, &log))
			names = append(names, name)
		}
		nr := from.r.WithTransformers(ts...)
		for j := range ts {
			ts[j] = tr("changed", &log)
		}
		nodes = append(nodes, node{nr, names})
	}
	for _, x := range nodes {
		log = nil
		got := hx.Stats(x.r)
		vrf.Assert(len(got) == 1 && vrf.SameF(got[0].Val, v), "the value is reported")
		vrf.Assert(len(log) == len(x.names), "exactly the registry's transformers apply")
		for i, nm := range x.names {
			vrf.Assert(log[len(log)-1-i] == nm, "the last added transformer comes first")
			vrf.Assert(got[0].Key.Tags.Get(nm) == nm, "a transformer's changes are kept")
		}
		vrf.Assert(got[0].Key.Tags.Len() == len(x.names)+1, "only the registry's transformers apply")
	}
}

// H_transform_source: TransformStatSource.
func H_transform_source() {
	var log []string
	s := newSrc("p", 2)
	n := vrf.Choose("transformers", 4)
	var ts []monkit.CallbackTransformer
	for i := 0; i < n; i++ {
		ts = append(ts, tr(string(rune('a'+i)), &log))
	}
	t := monkit.TransformStatSource(s, ts...)
	for round := 0; round < 2; round++ {
		log = nil
		got := hx.Stats(t)
		vrf.Assert(len(got) == 2 && s.calls == round+1, "the source is called once")
		for i, g := range got {
			vrf.Assert(g.Field == fields[i] && vrf.SameF(g.Val, s.vals[i]), "values are passed on in order")
			vrf.Assert(g.Key.Tags.Len() == n+1, "each transformer applies once")
		}
		vrf.Assert(len(log) == 2*n, "each transformer applies once to each value")
		for i := range log {
			vrf.Assert(log[i] == string(rune('a'+n-1-i%n)), "the last transformer comes first")
		}
	}
}

// H_collect: Collect returns exactly the reported values by their text.
func H_collect() {
	r := monkit.NewRegistry()
	n := vrf.Bound("sources", 2, 3)
	var ws []want
	for i := 0; i < n; i++ {
		sc := []string{"s", "t"}[vrf.Choose("scope", 2)]
		s := newSrc(string(rune('p'+i)), 1+vrf.Choose("values", 2))
		r.ScopeNamed(sc).Chain(s)
		for k, v := range s.vals {
			ws = append(ws, want{sc, s.name, fields[k], v})
		}
	}
	m := monkit.Collect(r)
	vrf.Assert(len(m) == len(ws), "exactly the reported values are collected")
	for _, w := range ws {
		v, ok := m[w.name+",own=tag,scope="+w.scope+" "+w.field]
		vrf.Assert(ok, "a value is keyed by its text form")
		vrf.Assert(vrf.SameF(v, w.val), "a value is collected unchanged")
	}
}

// H_collect_fields: fields and measurements of any bytes.
func H_collect_fields() {
	f1, f2 := vrf.String("f1", 2), vrf.String("f2", 2)
	for _, s := range []string{f1, f2} {
		for i := 0; i < len(s); i++ {
			vrf.Assume(s[i] != '\\')
		}
	}
	v1, v2 := vrf.Float64("v1"), vrf.Float64("v2")
	key := monkit.NewSeriesKey("m")
	m := monkit.Collect(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
		cb(key, f1, v1)
		cb(key, f2, v2)
	}))
	if f1 == f2 {
		vrf.Assert(len(m) == 1 && vrf.SameF(m[key.WithField(f1)], v2), "the last value of a text form stays")
	} else {
		vrf.Assert(len(m) == 2, "different fields are kept apart")
		vrf.Assert(vrf.And(vrf.SameF(m[key.WithField(f1)], v1), vrf.SameF(m[key.WithField(f2)], v2)), "each has its value")
	}
}

// H_concurrent: sources registered while reporting: those there before are
// reported exactly once, others at most once.
//
// vrf:preempt=2,3
func H_concurrent() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	old := newSrc("old", 1)
	sc.Chain(old)
	sc.Gauge("g", func() float64 { return 1 })
	nw := newSrc("new", 1)
	var got []hx.Stat
	which := vrf.Choose("which", 4)
	vrf.Parallel(func() {
		got = hx.Stats(r)
	}, func() {
		switch which {
		case 0:
			sc.Chain(nw)
		case 1:
			r.ScopeNamed("t").Chain(nw)
		case 2:
			sc.Counter("new")
		case 3:
			sc.Gauge("g", func() float64 { return 2 })
		}
	})
	count := map[string]int{}
	for _, g := range got {
		count[g.Key.Measurement+" "+g.Field]++
	}
	vrf.Assert(count["old a"] == 1, "a source there before is reported exactly once")
	vrf.Assert(count["g value"] == 1, "a gauge there before is reported exactly once")
	for _, c := range count {
		vrf.Assert(c <= 1, "nothing is reported twice")
	}
	after := hx.Stats(r)
	n := 0
	for _, g := range after {
		if g.Key.Measurement == "new" && (g.Field == "a" || g.Field == "value") {
			n++
		}
	}
	vrf.Assert(which == 3 || n == 1, "a source registered meanwhile is reported from then on")
}

// H_many: many scopes, metrics, chained sources and transformers.
func H_many() {
	r := monkit.NewRegistry()
	n := vrf.Bound("many", 50, 50)
	big := vrf.Choose("large scope", n)
	var all []*src
	var ws []want
	counters := map[string]int{}
	for i := 0; i < n; i++ {
		name := "s" + string(rune('A'+i))
		sc := r.ScopeNamed(name)
		k := 1
		if i == big {
			k = n
		}
		for j := 0; j < k; j++ {
			s := newSrc("p"+string(rune('A'+i))+string(rune('A'+j)), 1)
			sc.Chain(s)
			all = append(all, s)
			ws = append(ws, want{name, s.name, fields[0], s.vals[0]})
			sc.Counter("c" + string(rune('A'+j))).Inc(1)
		}
		counters[name] = k
	}
	passed := 0
	tr := r
	for i := 0; i < n; i++ {
		tr = tr.WithTransformers(monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
			return func(key monkit.SeriesKey, field string, val float64) {
				passed++
				cb(key, field, val)
			}
		}))
	}
	var got []hx.Stat
	seen := map[string]int{}
	total := 0
	tr.Stats(func(key monkit.SeriesKey, field string, val float64) {
		total++
		if key.Measurement[0] == 'c' && field == "value" {
			seen[key.Tags.Get("scope")]++
			vrf.Assert(val == 1, "each metric is reported with its value")
		} else if key.Measurement[0] != 'c' {
			got = append(got, hx.Stat{Key: key, Field: field, Val: val})
		}
	})
	check(got, ws, true)
	for _, s := range all {
		vrf.Assert(s.calls == 1, "each source is called exactly once")
	}
	for name, k := range counters {
		vrf.Assert(seen[name] == k, "each metric is reported once")
	}
	vrf.Assert(passed == total*n, "each value passes every transformer once")
	scopes := 0
	r.Scopes(func(*monkit.Scope) { scopes++ })
	vrf.Assert(scopes == n, "every scope is visited once")
}

// H_default: the package's statistics are those of the default registry.
func H_default() {
	s := monkit.ScopeNamed("d")
	v := vrf.Int64("value")
	s.Counter("c").Inc(v)
	s.FuncNamed("f")
	type row struct {
		key, field string
		val        float64
	}
	var got, want []row
	monkit.Stats(func(key monkit.SeriesKey, field string, val float64) {
		got = append(got, row{key.String(), field, val})
	})
	monkit.Default.Stats(func(key monkit.SeriesKey, field string, val float64) {
		want = append(want, row{key.String(), field, val})
	})
	vrf.Assert(len(got) == len(want), "every statistic is reported once")
	rows := map[string]int{}
	for _, r := range want {
		rows[r.key+" "+r.field]++
	}
	for _, r := range got {
		rows[r.key+" "+r.field]--
		if r.key == "c,scope=d" && r.field == "value" {
			rows["found"]++
			vrf.Assert(vrf.SameF(r.val, float64(v)), "the value is reported")
		}
	}
	vrf.Assert(rows["found"] == 1, "the counter is reported once, with its scope")
	delete(rows, "found")
	for _, n := range rows {
		vrf.Assert(n == 0, "exactly the default registry's statistics are reported")
	}
}

// H_alike: values whose keys have the same measurement or the same tags are told
// apart.
func H_alike() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	tags := []string{"a", "b"}
	want := map[string]float64{}
	n := vrf.Bound("alike series", 3, 4)
	var keys []monkit.SeriesKey
	for i := 0; i < n; i++ {
		m := []string{"m", "n"}[vrf.Choose("measurement", 2)]
		k := monkit.NewSeriesKey(m)
		t := ""
		switch vrf.Choose("tags", 3) {
		case 0:
			t = string(rune('0' + i))
			k = k.WithTag(tags[0], t)
			t = ",a=" + t
		case 1:
			t = string(rune('0' + i))
			k = k.WithTag(tags[1], t)
			t = ",b=" + t
		}
		keys = append(keys, k)
		want[m+t+",scope=s v"] += float64(int(1) << i)
	}
	if vrf.Choose("sources", 2) == 0 {
		sc.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			for i, k := range keys {
				cb(k, "v", float64(int(1)<<i))
			}
		}))
	} else {
		for i, k := range keys {
			sc.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
				cb(k, "v", float64(int(1)<<i))
			}))
		}
	}
	for i := 0; i < 2; i++ {
		got := map[string]float64{}
		calls := 0
		r.Stats(func(key monkit.SeriesKey, field string, val float64) {
			calls++
			got[key.WithField(field)] += val
		})
		vrf.Assert(calls == n, "each value is reported once")
		vrf.Assert(len(got) == len(want), "each value is reported under its own key")
		for k, v := range want {
			vrf.Assert(got[k] == v, "each value is reported under its own key")
		}
	}
}
