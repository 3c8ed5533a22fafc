// Package hx has helpers shared by the harnesses.
package hx

import (
	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

// Stat is one reported value.
type Stat struct {
	Key   monkit.SeriesKey
	Field string
	Val   float64
}

// Stats collects what a source reports, in order.
func Stats(s monkit.StatSource) (r []Stat) {
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		r = append(r, Stat{key, field, val})
	})
	return r
}

// Get finds the only value reported for a field.
func Get(ss []Stat, field string) (v float64, n int) {
	for _, s := range ss {
		if s.Field == field {
			v = s.Val
			n++
		}
	}
	return v, n
}

// Want asserts that field is reported exactly once with value v.
func Want(ss []Stat, field string, v float64) {
	g, n := Get(ss, field)
	vrf.Assert(n == 1, "field "+field+" is reported exactly once")
	vrf.Assert(EqF(g, v), "field "+field+" has the right value")
}

// EqF: equal as numbers, NaN equal to NaN.
func EqF(a, b float64) bool { return vrf.Or(vrf.SameF(a, b), a == b, vrf.And(a != a, b != b)) }
