// Package c16: ids are non-negative and do not repeat.
package c16

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

const repo = "github.com/spacemonkeygo/monkit/v3"

func distinct(ids []int64) {
	for i, x := range ids {
		vrf.Assert(x >= 0, "an id is non-negative")
		for _, y := range ids[:i] {
			vrf.Assert(x != y, "an id does not repeat")
		}
	}
}

// H_sequence: any seed, ids one after another.
func H_sequence() {
	vrf.SymCrand(true)
	vrf.Reinit(repo)
	n := vrf.Bound("ids", 24, 64)
	var ids []int64
	for i := 0; i < n; i++ {
		ids = append(ids, monkit.NewId())
	}
	distinct(ids)
}

// H_period: any seed, a longer run: no id comes back.
func H_period() {
	vrf.SymCrand(true)
	vrf.Reinit(repo)
	n := vrf.Bound("ids in a run", 260, 1030)
	first := monkit.NewId()
	for i := 1; i < n; i++ {
		id := monkit.NewId()
		vrf.Assert(id >= 0, "an id is non-negative")
		vrf.Assert(id != first, "an id does not repeat")
	}
}

// H_fallback: without the system's randomness.
func H_fallback() {
	vrf.FailCrand(true)
	vrf.SymRand(true)
	vrf.Reinit(repo)
	n := vrf.Bound("ids", 8, 16)
	var ids []int64
	for i := 0; i < n; i++ {
		ids = append(ids, monkit.NewId())
	}
	distinct(ids)
}

// H_objects: the ids of functions, spans and traces.
func H_objects() {
	vrf.SymCrand(true)
	vrf.Reinit(repo)
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	f, g := sc.FuncNamed("f"), sc.FuncNamed("g")
	ids := []int64{f.Id(), g.Id()}
	ctx := context.Background()
	n := vrf.Bound("spans", 3, 5)
	for i := 0; i < n; i++ {
		switch vrf.Choose("kind", 3) {
		case 0:
			defer f.Task(&ctx)(nil)
		case 1:
			defer g.ResetTrace(&ctx)(nil)
		case 2:
			ctx = context.Background()
			defer sc.TaskNamed("h")(&ctx)(nil)
		}
		s := monkit.SpanFromCtx(ctx)
		tid := s.Trace().Id()
		known := false
		for _, x := range ids {
			known = known || x == tid
		}
		if !known {
			ids = append(ids, tid)
		}
		ids = append(ids, s.Id())
	}
	distinct(ids)
}

// H_parallel: ids handed out at the same time, any seed.
//
// vrf:preempt=3,4
func H_parallel() {
	vrf.SymCrand(true)
	vrf.Reinit(repo)
	ids := make([]int64, 5)
	vrf.Parallel(
		func() { ids[0], ids[1] = monkit.NewId(), monkit.NewId() },
		func() { ids[2], ids[3] = monkit.NewId(), monkit.NewId() },
		func() { ids[4] = monkit.NewId() })
	distinct(ids)
}
