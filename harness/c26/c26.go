// Package c26: functions and packages are named after the code that calls.
package c26

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

// split names the package and the function of a fully qualified name.
func split(name string) (pkg, fn string) {
	slash := -1
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			slash = i
		}
	}
	dot := len(name)
	for i := len(name) - 1; i > slash; i-- {
		if name[i] == '.' {
			dot = i
		}
	}
	pkg = name[:dot]
	if slash < 0 {
		pkg = "/" + pkg
	}
	if dot+1 >= len(name) {
		return pkg, "unknown"
	}
	return pkg, name[dot+1:]
}

func get() *monkit.Scope { return monkit.Package() }

// H_names: every function name.
func H_names() {
	name := vrf.String("name", vrf.Bound("length of a name", 6, 9))
	if len(name) == 0 {
		vrf.Stop() // there is no such function
	}
	vrf.FakeCaller(name)
	vrf.Inlined(vrf.Choose("inlined", 2) == 1)
	var sc *monkit.Scope
	reg := monkit.Default
	if vrf.Choose("registry", 2) == 1 {
		reg = monkit.NewRegistry()
		sc = reg.Package()
	} else {
		sc = monkit.Package()
	}
	pkg, fn := split(name)
	vrf.Assert(vrf.EqStr(sc.Name(), pkg), "a scope is named after the package path")
	vrf.Assert(reg.ScopeNamed(sc.Name()) == sc, "the scope is the registry's")
	var f *monkit.Func
	switch vrf.Choose("kind", 2) {
	case 0:
		f = sc.Func()
	case 1:
		t := sc.Task()
		t(nil)(nil)
		f = t.Func()
	}
	vrf.Assert(vrf.EqStr(f.ShortName(), fn), "a function is named by what follows its package")
	vrf.Assert(vrf.EqStr(f.FullName(), pkg+"."+fn), "the full name has both")
	vrf.Assert(f.Scope() == sc && sc.FuncNamed(fn) == f, "the function is the scope's of that name")
}

//go:noinline
func viaFunc(sc *monkit.Scope) *monkit.Func { return sc.Func() }

//go:noinline
func viaTask(sc *monkit.Scope) *monkit.Func {
	t := sc.Task()
	ctx := context.Background()
	t(&ctx)(nil)
	return t.Func()
}

//go:noinline
func viaDefer(sc *monkit.Scope) (f *monkit.Func) {
	ctx := context.Background()
	defer sc.Task()(&ctx)(nil)
	return monkit.SpanFromCtx(ctx).Func()
}

//go:noinline
func viaLate(t monkit.Task) *monkit.Func {
	ctx := context.Background()
	defer t(&ctx)(nil)
	return monkit.SpanFromCtx(ctx).Func()
}

type recv struct{}

//go:noinline
func (recv) value(sc *monkit.Scope) *monkit.Func { return sc.Func() }

//go:noinline
func (*recv) pointer(sc *monkit.Scope) *monkit.Func { return sc.Func() }

// H_caller: it is the calling function that gives the name, not one further
// up or down.
func H_caller() {
	vrf.Inlined(vrf.Choose("inlined", 2) == 1)
	reg := monkit.NewRegistry()
	sc := reg.Package()
	vrf.Assert(get().Name() == "vharness/c26", "a scope is named after the calling package")
	vrf.Assert(sc.Name() == "vharness/c26", "a scope is named after the calling package")
	vrf.Assert(monkit.Package().Name() == "vharness/c26", "a scope is named after the calling package")
	// and again: names are not remembered for others
	for i := 0; i < 2; i++ {
		caller(sc)
	}
}

type other struct{}

//go:noinline
func (other) value(sc *monkit.Scope) *monkit.Func { return sc.Func() }

// caller calls from a function and looks at the name.
func caller(sc *monkit.Scope) {
	var f *monkit.Func
	want := ""
	switch vrf.Choose("kind", 7) {
	case 0:
		f, want = viaFunc(sc), "viaFunc"
	case 1:
		f, want = viaTask(sc), "viaTask"
	case 2:
		f, want = viaDefer(sc), "viaDefer"
	case 3:
		f, want = viaLate(sc.Task()), "viaLate"
	case 4:
		f, want = recv{}.value(sc), "recv.value"
	case 5:
		f, want = (&recv{}).pointer(sc), "(*recv).pointer"
	case 6:
		f, want = other{}.value(sc), "other.value"
	}
	vrf.Assert(f.ShortName() == want, "a function is named after the caller")
	vrf.Assert(f.FullName() == "vharness/c26."+want, "the full name has the package of the caller")
}

// H_tags: the tags of a task belong to its function.
func H_tags() {
	v := vrf.String("value", 2)
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	tags := []monkit.SeriesTag{monkit.NewSeriesTag("k", v)}
	if n := vrf.Choose("more", 3); n > 0 {
		tags = append(tags, monkit.NewSeriesTag("a", "1"), monkit.NewSeriesTag("b", "2"))[:n+1]
	}
	t := sc.Task(tags...)
	t(nil)(nil)
	f := t.Func()
	vrf.Assert(f.ShortName() == "H_tags", "a function is named after the caller")
	vrf.Assert(sc.FuncNamed("H_tags", tags...) == f, "a task's function has its tags")
	vrf.Assert(sc.FuncNamed("H_tags") != f && sc.FuncNamed("H_tags", tags[1:]...) != f, "another function has other tags")
	ft := sc.Task(tags...)
	vrf.FakeCaller("p.other")
	ft(nil)(nil)
	vrf.Assert(ft.Func() == sc.FuncNamed("other", tags...) && ft.Func() != f, "a function is named after the caller")
	n := sc.TaskNamed("n", tags...)
	n(nil)(nil)
	vrf.Assert(n.Func() == sc.FuncNamed("n", tags...) && n.Func().ShortName() == "n", "a named task's function has its name and tags")
}

// H_keeps: a task keeps the function of its first use.
func H_keeps() {
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	t := sc.Task()
	vrf.FakeCaller("p.one")
	n := vrf.Choose("uses", vrf.Bound("uses", 3, 4)) + 1
	var f *monkit.Func
	for i := 0; i < n; i++ {
		ctx := context.Background()
		exit := t(&ctx)
		if i == 0 {
			f = monkit.SpanFromCtx(ctx).Func()
			vrf.Assert(f.ShortName() == "one", "a task is named at its first use")
		}
		vrf.Assert(monkit.SpanFromCtx(ctx).Func() == f, "a task keeps its function")
		exit(nil)
		vrf.Assert(t.Func() == f && f.Success() == int64(i+1), "a task keeps reporting to its function")
		vrf.FakeCaller([]string{"p.two", "q.one", "q."}[vrf.Choose("later", 3)])
	}
}

// H_first_use: several goroutines use a task first.
// vrf:preempt=3,4
func H_first_use() {
	vrf.NoSched(true)
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	vrf.FakeCaller("p.f")
	t := sc.Task()
	used := vrf.Choose("used", 2) == 1
	want := int64(2)
	if used {
		t(nil)(nil)
		want++
	}
	var f [3]*monkit.Func
	vrf.Races(true)
	vrf.NoSched(false)
	use := func(i int) func() {
		return func() {
			ctx := context.Background()
			exit := t(&ctx)
			f[i] = monkit.SpanFromCtx(ctx).Func()
			exit(nil)
		}
	}
	vrf.Parallel(use(0), use(1), func() {
		_, panicked := vrf.Try(func() { f[2] = t.Func() })
		vrf.Assert(!panicked || !used, "a task that was used has a function")
	})
	vrf.NoSched(true)
	vrf.Races(false)
	vrf.Assert(f[0] == f[1] && t.Func() == f[0], "a task resolves its function once")
	vrf.Assert(f[2] == nil || f[2] == f[0], "a task resolves its function once")
	vrf.Assert(f[0].ShortName() == "f" && sc.FuncNamed("f") == f[0], "the function is the scope's of that name")
	vrf.Assert(f[0].Success() == want && f[0].Current() == 0, "every use is reported to it")
	n := 0
	sc.Funcs(func(*monkit.Func) { n++ })
	vrf.Assert(n == 1, "a task makes one function")
}
