// Package c10: same name and tags give the same metric, always and only.
package c10

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

// kinds of metrics, each asked for by name and tags. Index 0 are functions.
var kinds = []func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any{
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.FuncNamed(name, tags...) },
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.Counter(name, tags...) },
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.Meter(name, tags...) },
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.IntVal(name, tags...) },
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.FloatVal(name, tags...) },
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.BoolVal(name, tags...) },
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.StructVal(name, tags...) },
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.DurationVal(name, tags...) },
	func(s *monkit.Scope, name string, tags ...monkit.SeriesTag) any { return s.Timer(name, tags...) },
}

func scope() *monkit.Scope { return monkit.NewRegistry().ScopeNamed("s") }

type ask struct {
	name string
	tags []monkit.SeriesTag
}

func anyAsk(maxName, maxTags, maxTag int) (a ask) {
	a.name = vrf.String("name", maxName)
	n := vrf.Choose("tags", maxTags+1)
	for i := 0; i < n; i++ {
		a.tags = append(a.tags, monkit.NewSeriesTag(vrf.String("key", maxTag), vrf.String("val", maxTag)))
	}
	return a
}

func same(a, b ask) bool {
	if len(a.tags) != len(b.tags) {
		return false
	}
	eq := vrf.EqStr(a.name, b.name)
	for i := range a.tags {
		eq = vrf.And(eq, vrf.EqStr(a.tags[i].Key, b.tags[i].Key), vrf.EqStr(a.tags[i].Val, b.tags[i].Val))
	}
	return eq
}

// H_identity: two arbitrary names and tag lists name one metric exactly when
// they are equal; asking again for the first one gives the first one.
func H_identity() {
	s := scope()
	k := vrf.Choose("functions", 2)
	m := vrf.Bound("name length", 2, 3)
	a, b := anyAsk(m, 1, 1), anyAsk(m, 1, 1)
	x := kinds[k](s, a.name, a.tags...)
	y := kinds[k](s, b.name, b.tags...)
	vrf.Assert((x == y) == same(a, b), "the metric is the same exactly when name and tags are")
	vrf.Assert(kinds[k](s, a.name, a.tags...) == x, "asking again gives the same metric")
	vrf.Assert(kinds[k](s, b.name, b.tags...) == y, "asking again gives the same metric")
}

// H_two_tags: lists of two tags.
func H_two_tags() {
	s := scope()
	tag := func() monkit.SeriesTag {
		return monkit.NewSeriesTag(vrf.String("key", 1), vrf.String("val", 1))
	}
	a := ask{"n", []monkit.SeriesTag{tag(), tag()}}
	b := ask{"n", nil}
	if vrf.Choose("tags of the other", 2) == 0 {
		b.tags = []monkit.SeriesTag{tag(), tag()}
	} else {
		m := vrf.Bound("length of the only tag", 3, 5)
		b.tags = []monkit.SeriesTag{monkit.NewSeriesTag(vrf.String("key", m), vrf.String("val", m))}
	}
	x := s.Counter(a.name, a.tags...)
	y := s.Counter(b.name, b.tags...)
	vrf.Assert((x == y) == same(a, b), "the metric is the same exactly when name and tags are")
}

// H_each_kind: every kind, every way the second request may differ.
func H_each_kind() {
	s := scope()
	k := vrf.Choose("kind", len(kinds))
	n1, n2 := vrf.StringN("n1", 2), vrf.StringN("n2", 2)
	k1, k2 := vrf.StringN("k1", 1), vrf.StringN("k2", 1)
	v1, v2 := vrf.StringN("v1", 1), vrf.StringN("v2", 1)
	x := kinds[k](s, n1, monkit.NewSeriesTag(k1, v1))
	y := kinds[k](s, n2, monkit.NewSeriesTag(k2, v2))
	vrf.Assert((x == y) == vrf.And(vrf.EqStr(n1, n2), vrf.EqStr(k1, k2), vrf.EqStr(v1, v2)), "the metric is the same exactly when name and tags are")
	z := kinds[k](s, n1)
	vrf.Assert(z != x && z != y, "without the tag it is another metric")
	vrf.Assert(kinds[k](s, n1) == z, "asking again gives the same metric")
}

// H_kinds: a name used for one kind cannot be had as another; functions are
// apart from everything else.
func H_kinds() {
	s := scope()
	i, j := vrf.Choose("kind", len(kinds)), vrf.Choose("kind", len(kinds))
	n1, n2 := vrf.StringN("n1", 1), vrf.StringN("n2", 1)
	var tags []monkit.SeriesTag
	if vrf.Choose("tagged", 2) == 1 {
		tags = []monkit.SeriesTag{monkit.NewSeriesTag("k", "v")}
	}
	x := kinds[i](s, n1, tags...)
	var y any
	_, panicked := vrf.Try(func() { y = kinds[j](s, n2, tags...) })
	eq := vrf.EqStr(n1, n2)
	switch {
	case i == j:
		vrf.Assert(!panicked, "asking for the same kind never panics")
		vrf.Assert((x == y) == eq, "the metric is the same exactly when the name is")
	case i == 0 || j == 0:
		vrf.Assert(!panicked, "functions are kept apart from other metrics")
	default:
		vrf.Assert(panicked == eq, "a name used for another kind panics, another one does not")
	}
	vrf.Assert(kinds[i](s, n1, tags...) == x, "asking again gives the same metric")
}

// H_func_prefix: no name of a metric is that of a function.
func H_func_prefix() {
	s := scope()
	f := s.FuncNamed(vrf.String("func", 2))
	n := vrf.Bound("name length", 7, 8)
	name := vrf.String("name", n)
	_, panicked := vrf.Try(func() {
		if vrf.Choose("gauge", 2) == 0 {
			s.Counter(name)
		} else {
			s.Gauge(name, func() float64 { return 1 })
		}
	})
	vrf.Assert(!panicked, "functions are kept apart from other metrics")
	vrf.Assert(s.FuncNamed(f.ShortName()) == f, "asking again gives the same function")
}

// H_gauge: gauges and diff meters share the names of the other metrics; a
// gauge replaces an earlier one of that name only.
func H_gauge() {
	s := scope()
	n1, n2 := vrf.String("n1", 2), vrf.String("n2", 2)
	k := vrf.Choose("first", 4)
	var tags []monkit.SeriesTag
	switch k {
	case 0:
		s.Gauge(n1, func() float64 { return 1 })
	case 1:
		s.Counter(n1)
	case 2:
		s.DiffMeter(n1, s.Meter("a long name"), s.Meter("another long name"))
	case 3:
		tags = []monkit.SeriesTag{monkit.NewSeriesTag("", "")}
		s.Counter(n1, tags...)
	}
	eq := vrf.EqStr(n1, n2)
	calls := 0
	_, panicked := vrf.Try(func() { s.Gauge(n2, func() float64 { calls++; return 2 }) })
	if k == 0 || k == 3 {
		vrf.Assert(!panicked, "a gauge may replace one of the same name")
	} else {
		vrf.Assert(panicked == eq, "a name used for another kind panics, another one does not")
	}
	var old, now int
	for _, st := range hx.Stats(s) {
		if st.Field == "value" && st.Key.Tags.Len() == 1 {
			if st.Val == 1 {
				old++
			}
			if st.Val == 2 {
				now++
			}
		}
	}
	if !panicked {
		vrf.Assert(now == 1 && calls == 1, "the gauge is reported once")
	}
	if k == 0 {
		vrf.Assert((old == 0) == eq, "the gauge replaces the one of that name only")
	}
}

// H_diffmeter: a diff meter's name cannot be had as another kind.
func H_diffmeter() {
	s := scope()
	a, b := monkit.NewMeter(monkit.NewSeriesKey("a")), monkit.NewMeter(monkit.NewSeriesKey("b"))
	n1, n2 := vrf.StringN("n1", 1), vrf.StringN("n2", 1)
	eq := vrf.EqStr(n1, n2)
	s.DiffMeter(n1, a, b)
	k := 1 + vrf.Choose("kind", len(kinds)-1)
	_, panicked := vrf.Try(func() { kinds[k](s, n2) })
	vrf.Assert(panicked == eq, "a name used for another kind panics, another one does not")
	_, panicked = vrf.Try(func() { s.DiffMeter(n1, a, b) })
	vrf.Assert(!panicked, "asking for the same diff meter again is fine")
	s = scope()
	kinds[k](s, n1)
	_, panicked = vrf.Try(func() { s.DiffMeter(n2, a, b) })
	vrf.Assert(panicked == eq, "a name used for another kind panics, another one does not")
}

// H_diffmeter_own: no metric's name can be had as a diff meter, not even that
// of one of the meters it is the difference of.
func H_diffmeter_own() {
	s := scope()
	n1, n2, n := vrf.StringN("m1", 1), vrf.StringN("m2", 1), vrf.StringN("diff", 1)
	a, b := s.Meter(n1), s.Meter(n2)
	if vrf.Choose("other order", 2) == 1 {
		a, b = b, a
	}
	taken := vrf.Or(vrf.EqStr(n, n1), vrf.EqStr(n, n2))
	_, panicked := vrf.Try(func() { s.DiffMeter(n, a, b) })
	vrf.Assert(panicked == taken, "a name used for another kind panics, another one does not")
	vrf.Assert(s.Meter(n1) == a || s.Meter(n1) == b, "asking again gives the same metric")
}

// H_formatted: the variants with a format and Event use the same names.
func H_formatted() {
	s := scope()
	switch vrf.Choose("which", 4) {
	case 0:
		vrf.Assert(s.IntValf("a%d", 1) == s.IntVal("a1"), "IntValf is IntVal of the formatted name")
	case 1:
		vrf.Assert(s.FloatValf("a%d", 1) == s.FloatVal("a1"), "FloatValf is FloatVal of the formatted name")
	case 2:
		vrf.Assert(s.BoolValf("a%d", 1) == s.BoolVal("a1"), "BoolValf is BoolVal of the formatted name")
	case 3:
		tag := monkit.NewSeriesTag("k", "v")
		s.Event("a")
		s.Event("a", tag)
		s.Event("a", tag)
		vrf.Assert(s.Meter("a").Total() == 1 && s.Meter("a", tag).Total() == 2, "Event marks the meter of that name and tags")
	}
}

// H_first_use: several goroutines ask for the first time at once.
//
// vrf:preempt=2,3
func H_first_use() {
	s := scope()
	k := vrf.Choose("kind", len(kinds))
	other := "m"
	if vrf.Choose("other name", 2) == 1 {
		other = "o"
	}
	var x, y, z any
	vrf.Parallel(
		func() { x = kinds[k](s, "m") },
		func() { y = kinds[k](s, "m") },
		func() { z = kinds[k](s, other) })
	vrf.Assert(x == y, "all get the same metric")
	vrf.Assert((z == x) == (other == "m"), "another name gives another metric")
	vrf.Assert(kinds[k](s, "m") == x && kinds[k](s, other) == z, "and so does everyone later")
}

// H_first_event: first uses at once lose nothing.
//
// vrf:preempt=2,3
func H_first_event() {
	s := scope()
	vrf.Parallel(
		func() { s.Event("e") },
		func() { s.Event("e") },
		func() { s.Counter("c").Inc(1) },
		func() { s.Counter("c").Inc(1) })
	vrf.Assert(s.Meter("e").Total() == 2, "no event is lost")
	vrf.Assert(s.Counter("c").Current() == 2, "no increment is lost")
}

// H_first_kinds: two kinds at once under one name: exactly one wins.
//
// vrf:preempt=2,3
func H_first_kinds() {
	s := scope()
	var p, q bool
	vrf.Parallel(
		func() { _, p = vrf.Try(func() { s.Counter("m") }) },
		func() {
			_, q = vrf.Try(func() {
				if vrf.Choose("gauge", 2) == 0 {
					s.Timer("m")
				} else {
					s.Gauge("m", func() float64 { return 1 })
				}
			})
		})
	vrf.Assert(p != q, "exactly one of two kinds gets the name")
}

// H_scopes: one scope per name.
func H_scopes() {
	r := monkit.NewRegistry()
	n := vrf.Bound("name length", 3, 4)
	a, b := vrf.String("a", n), vrf.String("b", n)
	x := r.ScopeNamed(a)
	y := r.ScopeNamed(b)
	vrf.Assert((x == y) == vrf.EqStr(a, b), "the scope is the same exactly when the name is")
	vrf.Assert(vrf.And(vrf.EqStr(x.Name(), a), vrf.EqStr(y.Name(), b)), "a scope has the name asked for")
	vrf.Assert(r.ScopeNamed(a) == x && r.WithTransformers().ScopeNamed(b) == y, "asking again gives the same scope")
	vrf.Assert(monkit.NewRegistry().ScopeNamed(a) != x, "another registry has other scopes")
	m := x.Counter("m")
	vrf.Assert((y.Counter("m") == m) == vrf.EqStr(a, b), "each scope has its own metrics")
}

// H_scopes_first: several goroutines ask for a scope at once.
//
// vrf:preempt=3,4
func H_scopes_first() {
	r := monkit.NewRegistry()
	var x, y, z *monkit.Scope
	vrf.Parallel(
		func() { x = r.ScopeNamed("s") },
		func() { y = r.WithTransformers().ScopeNamed("s") },
		func() { z = r.ScopeNamed("t") })
	vrf.Assert(x == y && x == r.ScopeNamed("s") && z != x && z == r.ScopeNamed("t"), "one scope per name")
}

// H_tasks: a task of a name is the function of that name and tags.
func H_tasks() {
	s := scope()
	n1, n2 := vrf.StringN("n1", 1), vrf.StringN("n2", 1)
	v1, v2 := vrf.StringN("v1", 1), vrf.StringN("v2", 1)
	t1, t2 := monkit.NewSeriesTag("k", v1), monkit.NewSeriesTag("k", v2)
	ctx := context.Background()
	s.TaskNamed(n1, t1)(&ctx)(nil)
	f := s.FuncNamed(n2, t2)
	eq := vrf.And(vrf.EqStr(n1, n2), vrf.EqStr(v1, v2))
	vrf.Assert((f.Success() == 1) == eq, "the task counts for the function of its name and tags only")
	vrf.Assert(s.FuncNamed(n1, t1).Success() == 1, "the task counts for the function of its name and tags")
}

// H_many: many metrics of every kind and many tags.
func H_many() {
	vrf.NoSched(true)
	s := scope()
	n := vrf.Bound("many names", 40, 90)
	k := vrf.Choose("kind", len(kinds))
	one := vrf.Choose("one", n)
	name := func(i int) string { return "m" + string(rune('0'+i/10)) + string(rune('0'+i%10)) }
	tags := func(i int) (r []monkit.SeriesTag) {
		for j := 0; j < i; j++ {
			r = append(r, monkit.NewSeriesTag(name(j), "v"))
		}
		return r
	}
	seen := map[any]bool{}
	var at any
	for i := 0; i < n; i++ {
		x := kinds[k](s, name(i))
		y := kinds[k](s, "t", tags(i)...)
		vrf.Assert(!seen[x] && !seen[y] && x != y, "different names or tags give different metrics")
		seen[x], seen[y] = true, true
		if i == one {
			at = y
		}
	}
	for i := 0; i < n; i++ {
		vrf.Assert(seen[kinds[k](s, name(i))], "asking again gives the same metric")
	}
	vrf.Assert(kinds[k](s, "t", tags(one)...) == at, "asking again gives the same metric")
}

// H_default: the package's functions are those of the default registry.
func H_default() {
	name := []string{"a", "b"}[vrf.Choose("name", 2)]
	s := monkit.ScopeNamed(name)
	vrf.Assert(s == monkit.Default.ScopeNamed(name) && s == monkit.ScopeNamed(name), "the same name gives the same scope")
	vrf.Assert(s.Name() == name, "the scope has its name")
	vrf.Assert(s != monkit.NewRegistry().ScopeNamed(name), "another registry has other scopes")
	f := s.FuncNamed("f")
	var scopes, want []*monkit.Scope
	monkit.Scopes(func(s *monkit.Scope) { scopes = append(scopes, s) })
	monkit.Default.Scopes(func(s *monkit.Scope) { want = append(want, s) })
	vrf.Assert(len(scopes) == len(want), "every scope is visited")
	found := 0
	for i := range scopes {
		vrf.Assert(scopes[i] == want[i], "every scope is visited")
		if scopes[i] == s {
			found++
		}
	}
	vrf.Assert(found == 1, "every scope is visited once")
	found = 0
	monkit.Funcs(func(g *monkit.Func) {
		if g == f {
			found++
		}
	})
	vrf.Assert(found == 1, "every function is visited once")
}
