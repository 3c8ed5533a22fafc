// Package c03: quantiles come from the sample, ordered and within its range.
package c03

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

// sorted sorts a few values; the order is already decided on every path on
// which the sample was sorted.
func sorted(in []int64) []int64 {
	v := append([]int64(nil), in...)
	for i := 1; i < len(v); i++ {
		for j := i; j > 0 && v[j] < v[j-1]; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
	return v
}

// dist is what the three kinds of distribution have in common, in whole units.
type dist interface {
	insert(v int64)
	query(q float64) float64
	ravg() float64
	reset()
	copy() dist
	integral() bool
}

type id struct{ *monkit.IntDist }

func (d id) insert(v int64)          { d.Insert(v) }
func (d id) query(q float64) float64 { return float64(d.Query(q)) }
func (d id) ravg() float64           { return float64(d.ReservoirAverage()) }
func (d id) reset()                  { d.Reset() }
func (d id) copy() dist              { return id{d.Copy()} }
func (d id) integral() bool          { return true }

type dd struct{ *monkit.DurationDist }

func (d dd) insert(v int64)          { d.Insert(time.Duration(v)) }
func (d dd) query(q float64) float64 { return float64(d.Query(q)) }
func (d dd) ravg() float64           { return float64(d.ReservoirAverage()) }
func (d dd) reset()                  { d.Reset() }
func (d dd) copy() dist              { return dd{d.Copy()} }
func (d dd) integral() bool          { return true }

type fd struct{ *monkit.FloatDist }

func (d fd) insert(v int64)          { d.Insert(float64(v)) }
func (d fd) query(q float64) float64 { return d.Query(q) }
func (d fd) ravg() float64           { return d.ReservoirAverage() }
func (d fd) reset()                  { d.Reset() }
func (d fd) copy() dist              { return fd{d.Copy()} }
func (d fd) integral() bool          { return false }

func newDist(kind int) dist {
	key := monkit.NewSeriesKey("d")
	switch kind {
	case 0:
		return id{monkit.NewIntDist(key)}
	case 1:
		return dd{monkit.NewDurationDist(key)}
	}
	return fd{monkit.NewFloatDist(key)}
}

func trunc(d dist, f float64) float64 {
	if d.integral() {
		return float64(int64(f))
	}
	return f
}

// near: equal, or off by what rounding may do to the interpolation.
func near(d dist, got, want float64) bool {
	tol := 0.001
	if d.integral() {
		tol = 1.001
	}
	return vrf.Or(vrf.SameF(got, want), got == want, vrf.And(got-want < tol, want-got < tol))
}

// checkAt: Query(q) interpolates at rank q*(n-1) of the sorted sample.
func checkAt(d dist, s []int64, q float64) {
	got := d.query(q)
	n := len(s)
	if n == 0 {
		vrf.Assert(got == 0, "Query of an empty distribution is 0")
		return
	}
	rank := q * float64(n-1)
	i := int(rank)
	f := rank - float64(i)
	if i >= n-1 {
		i, f = n-1, 0
	}
	if f == 0 {
		vrf.Assert(got == float64(s[i]), "Query at a whole rank is that value of the sample")
		return
	}
	a, b := float64(s[i]), float64(s[i+1])
	vrf.Assert(near(d, got, trunc(d, a+f*(b-a))), "Query interpolates linearly between the neighbours of its rank")
	if f == 0.5 || f == 0.25 || f == 0.75 {
		vrf.Assert(vrf.And(got >= a, got <= b), "Query lies between the neighbours of its rank")
	}
}

func checkMean(d dist, s []int64) {
	got := d.ravg()
	if len(s) == 0 {
		vrf.Assert(got == 0, "ReservoirAverage of nothing is 0")
		return
	}
	var sum int64
	for _, v := range s {
		sum += v
	}
	n := int64(len(s))
	if d.integral() {
		want := sum / n
		g := int64(got)
		vrf.Assert(vrf.Or(g == want, g == want+1, g == want-1), "ReservoirAverage is the mean of the sample")
	} else {
		vrf.Assert(near(d, got, float64(float32(sum)/float32(n))), "ReservoirAverage is the mean of the sample")
	}
}

func small(kind, max int) {
	d := newDist(kind)
	n := vrf.Choose("n", max+1)
	var s []int64
	for i := 0; i < n; i++ {
		v := int64(vrf.Int16("v"))
		d.insert(v)
		s = append(s, v)
	}
	s = sorted(s)
	checkAt(d, s, []float64{0, 1, 0.5, 0.1, 0.9, 0.99, 0.25, 1.0 / 3, 0.75}[vrf.Choose("q", 9)])
	checkMean(d, s)
}

// H_int, H_duration, H_float: every sample of up to four 16-bit values, on a
// grid of quantiles.
func H_int()      { small(0, vrf.Bound("sample size, int", 4, 4)) }
func H_duration() { small(1, vrf.Bound("sample size, duration", 3, 4)) }
func H_float()    { small(2, vrf.Bound("sample size, float", 3, 4)) }

// H_sequence: inserts, queries, resets and copies in every order; the sample is
// always what was observed since the last Reset.
func H_sequence() {
	d := newDist(vrf.Choose("kind", 3))
	var s []int64
	for i := vrf.Bound("calls", 4, 5); i > 0; i-- {
		switch vrf.Choose("op", 4) {
		case 0:
			v := int64(vrf.Int16("v"))
			d.insert(v)
			s = append(s, v)
		case 1:
			checkAt(d, sorted(s), 0)
			checkAt(d, sorted(s), 1)
			if len(s) < 3 {
				checkMean(d, s)
			}
		case 2:
			d.reset()
			s = nil
		case 3:
			c := d.copy()
			d.insert(-40000)
			d.query(0)
			d = c
		}
	}
	ss := sorted(s)
	checkAt(d, ss, 0)
	checkAt(d, ss, 1)
	if len(ss) < 4 {
		checkAt(d, ss, 0.5)
	}
}

// H_quantile: every float64 quantile in [0,1] on samples of every size up to 64.
func H_quantile() {
	kind := vrf.Choose("kind", 3)
	sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 10, 13, 33, 34, 63, 64, 8, 9, 11, 12, 14, 16, 17, 18, 20, 22, 24, 31, 32, 35, 40, 47, 48, 57, 62, 21}
	n := sizes[vrf.Choose("size", vrf.Bound("sample sizes", 12, len(sizes)))]
	d := newDist(kind)
	for i := 0; i < n; i++ {
		d.insert(int64(i))
	}
	q := vrf.Float64("q")
	vrf.Assume(vrf.And(q >= 0, q <= 1))
	got := d.query(q)
	if n == 0 {
		vrf.Assert(got == 0, "Query of an empty distribution is 0")
		return
	}
	if n > 3 {
		return // deciding that it did not panic for any q is what is in reach here
	}
	top := float64(n - 1)
	vrf.Assert(vrf.And(got >= 0, got <= top), "Query lies within the sample's range")
}

// sample reads back the whole sorted sample of 64 through quantile queries.
func sample(d dist) []int64 {
	r := make([]int64, 64)
	for i := range r {
		v := d.query(float64(i) / 63)
		if d.integral() {
			// truncation may take the interpolation just below a value that
			// is a multiple of 16
			r[i] = int64(v+8) / 16 * 16
		} else {
			r[i] = int64(v+8) / 16 * 16
		}
	}
	return r
}

// H_evict: beyond 64 values each new one replaces one of the sample or is not
// kept, for every state of the random generator.
func H_evict() {
	old := monkit.Window
	pre := 127 // the insert examined is number pre+1
	switch vrf.Choose("history", vrf.Bound("histories", 3, 6)) {
	case 0:
		monkit.Window, pre = 64, 64
	case 1:
		monkit.Window, pre = 128, 200
	case 2:
	case 3:
		monkit.Window, pre = 0, 255
	case 4:
		pre = 1100
	case 5:
		monkit.Window, pre = 64, 200
	}
	always := monkit.Window == 64
	d := newDist(vrf.Choose("kind", 3))
	for i := 0; i < pre; i++ {
		d.insert(int64(i*37%64) * 16)
	}
	before := sample(d)
	// a copy draws a fresh seed, here an arbitrary one
	vrf.SymRandBits(vrf.Bound("bits of the seed", 10, 16))
	d = d.copy()
	vrf.SymRand(false)
	vrf.ConcIndex(true)
	const fresh = 16 * 1000
	d.insert(fresh)
	after := sample(d)
	monkit.Window = old
	removed, added := diff(before, after)
	if len(removed) == 0 && len(added) == 0 {
		vrf.Assert(!always, "an observation is kept when the window is no larger than the sample")
		vrf.Reach("not kept")
		return
	}
	vrf.Assert(len(removed) == 1 && len(added) == 1 && added[0] == fresh, "a new observation replaces one of the sample or is not kept")
}

// diff: the values of a missing from b and of b missing from a (both sorted).
func diff(a, b []int64) (onlyA, onlyB []int64) {
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			onlyA = append(onlyA, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			onlyB = append(onlyB, b[j])
			j++
		default:
			i++
			j++
		}
	}
	return
}

// H_replaceable: every slot of the sample can be replaced, and the sample is
// exactly the first 64 values until then.
func H_fill() {
	d := newDist(vrf.Choose("kind", 3))
	n := []int{1, 2, 32, 63, 64}[vrf.Choose("n", 5)]
	var s []int64
	for i := 0; i < n; i++ {
		v := int64((i*29+5)%64) * 16
		d.insert(v)
		s = append(s, v)
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && s[j-1] > s[j]; j-- {
			s[j-1], s[j] = s[j], s[j-1]
		}
	}
	q := []float64{0, 1, 0.1, 0.5, 0.9, 0.99}
	for _, x := range q {
		checkAt(d, s, x)
	}
	prev := d.query(0)
	for i := 1; i <= 50; i++ {
		v := d.query(float64(i) / 50)
		vrf.Assert(v >= prev, "Query is non-decreasing in q")
		prev = v
	}
}

// H_rounds: rounds of observations, all quantiles asked after each, with resets
// and copies between; each answer is about the current sample.
func H_rounds() {
	d := newDist(vrf.Choose("kind", 3))
	var s []int64
	x := 7
	for r := vrf.Bound("rounds", 3, 4); r > 0; r-- {
		for n := []int{0, 1, 2, 3, 17}[vrf.Choose("observations", 5)]; n > 0; n-- {
			x = (x*29 + 5) % 64
			d.insert(int64(x) * 16)
			s = append(s, int64(x)*16)
		}
		ss := sorted(s)
		for _, q := range []float64{0.5, 0, 1, 0.99, 0.1, 0.5, 0.5} {
			checkAt(d, ss, q)
		}
		checkMean(d, s)
		switch vrf.Choose("then", 3) {
		case 0:
			d.reset()
			s = nil
		case 1:
			c := d.copy()
			c.reset()
			d, s = c, nil
		}
		ss = sorted(s)
		checkAt(d, ss, 0.5)
		checkMean(d, s)
	}
}
