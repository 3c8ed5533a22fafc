// Package c14: struct stats report every numeric and bool field, never panic.
package c14

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/hx"
	"vharness/vrf"
)

var key = monkit.NewSeriesKey("k").WithTag("t", "v")

type want struct {
	field string
	val   float64
}

func check(src monkit.StatSource, ws []want) {
	got := hx.Stats(src)
	vrf.Assert(len(got) == len(ws), "exactly the numeric and bool fields are reported")
	for _, w := range ws {
		n := 0
		for _, g := range got {
			if g.Field == w.field {
				n++
				vrf.Assert(hx.EqF(g.Val, w.val), "field "+w.field+" has its numeric value")
				vrf.Assert(g.Key.String() == "k,t=v", "values are reported under the key")
			}
		}
		vrf.Assert(n == 1, "field "+w.field+" is reported once")
	}
}

// both: directly and through StructVal, by value and by pointers.
func both[T any](x T, ws []want) {
	how := vrf.Choose("how", 4)
	var d any
	switch how {
	case 0, 1:
		d = x
	case 2:
		d = &x
	case 3:
		p := &x
		d = &p
	}
	if how == 0 {
		check(monkit.StatSourceFromStruct(key, d), ws)
		return
	}
	v := monkit.NewStructVal(key)
	v.Observe(d)
	check(v, ws)
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

type ints struct {
	A int
	B int8
	C int16
	D int32
	E int64
	F uint
	G uint8
	H uint16
	I uint32
	J uint64
	K uintptr
}

// H_ints: every integer kind, every value.
func H_ints() {
	x := ints{A: vrf.Int("a"), B: vrf.Int8("b"), C: vrf.Int16("c"), D: vrf.Int32("d"), E: vrf.Int64("e"),
		F: uint(vrf.Uint64("f")), G: vrf.Byte("g"), H: uint16(vrf.Int16("h")), I: vrf.Uint32("i"), J: vrf.Uint64("j"), K: uintptr(vrf.Uint64("k"))}
	both(x, []want{{"A", float64(x.A)}, {"B", float64(x.B)}, {"C", float64(x.C)}, {"D", float64(x.D)}, {"E", float64(x.E)},
		{"F", float64(x.F)}, {"G", float64(x.G)}, {"H", float64(x.H)}, {"I", float64(x.I)}, {"J", float64(x.J)}, {"K", float64(x.K)}})
}

type myBool bool
type myFloat float64
type myInt int16

type others struct {
	A float64
	B float32
	C bool
	D myBool
	E myFloat
	F myInt
	G time.Duration
	H string
	I []int
	J map[string]int
	K chan int
	L func()
	M any
	N error
	O [2]int
	P complex128
	Q []byte
}

// H_others: floats, bools, named types; what is not a number is skipped.
func H_others() {
	x := others{A: vrf.Float64("a"), B: vrf.Float32("b"), C: vrf.Bool("c"), D: myBool(vrf.Bool("d")), E: myFloat(vrf.Float64("e")),
		F: myInt(vrf.Int16("f")), G: time.Duration(vrf.Int64("g")), H: "7"}
	if vrf.Choose("filled", 2) == 1 {
		x.I, x.J, x.K, x.L, x.M, x.N, x.Q = []int{1}, map[string]int{"a": 1}, make(chan int), func() {}, 3, nil, []byte("7")
	}
	both(x, []want{{"A", x.A}, {"B", float64(x.B)}, {"C", b2f(x.C)}, {"D", b2f(bool(x.D))}, {"E", float64(x.E)},
		{"F", float64(x.F)}, {"G", float64(x.G)}})
}

type unexp struct {
	a int
	b bool
	C int
	d *int
	e inner
	f *float64
}

type inner struct {
	X int
	Y bool
}

// H_unexported: unexported numbers are reported, unexported structs are not
// entered.
func H_unexported() {
	n := vrf.Int("d")
	x := unexp{a: vrf.Int("a"), b: vrf.Bool("b"), C: vrf.Int("c")}
	ws := []want{{"a", float64(x.a)}, {"b", b2f(x.b)}, {"C", float64(x.C)}}
	if vrf.Choose("d", 2) == 1 {
		x.d = &n
		ws = append(ws, want{"d", float64(n)})
	}
	both(x, ws)
}

type ptrs struct {
	A *int
	B *bool
	C **float64
	D *string
	E *inner
	F **inner
}

// H_pointers: every combination of nil pointers at every level.
func H_pointers() {
	var x ptrs
	var ws []want
	if vrf.Choose("A", 2) == 1 {
		a := vrf.Int("a")
		x.A = &a
		ws = append(ws, want{"A", float64(a)})
	}
	if vrf.Choose("B", 2) == 1 {
		b := vrf.Bool("b")
		x.B = &b
		ws = append(ws, want{"B", b2f(b)})
	}
	switch vrf.Choose("C", 3) {
	case 1:
		var p *float64
		x.C = &p
	case 2:
		c := vrf.Float64("c")
		p := &c
		x.C = &p
		ws = append(ws, want{"C", c})
	}
	if vrf.Choose("D", 2) == 1 {
		s := "1"
		x.D = &s
	}
	if vrf.Choose("E", 2) == 1 {
		x.E = &inner{vrf.Int("ex"), vrf.Bool("ey")}
		ws = append(ws, want{"E.X", float64(x.E.X)}, want{"E.Y", b2f(x.E.Y)})
	}
	switch vrf.Choose("F", 3) {
	case 1:
		var p *inner
		x.F = &p
	case 2:
		p := &inner{vrf.Int("fx"), vrf.Bool("fy")}
		x.F = &p
		ws = append(ws, want{"F.X", float64(p.X)}, want{"F.Y", b2f(p.Y)})
	}
	both(x, ws)
}

type deep struct {
	A level1
	inner
	B struct {
		C *level1
		D int `monkit:"ignore"`
	}
}

type level1 struct {
	N    int
	L    level2
	Skip level2 `monkit:"ignore"`
}

type level2 struct {
	V float64
	W *bool
}

// H_nested: nested and embedded structs have dotted names.
func H_nested() {
	var x deep
	x.A = level1{vrf.Int("n"), level2{V: vrf.Float64("v")}, level2{V: 5}}
	x.inner = inner{3, true}
	x.B.D = 7
	ws := []want{{"A.N", float64(x.A.N)}, {"A.L.V", x.A.L.V}}
	if vrf.Choose("W", 2) == 1 {
		w := vrf.Bool("w")
		x.A.L.W = &w
		ws = append(ws, want{"A.L.W", b2f(w)})
	}
	if vrf.Choose("C", 2) == 1 {
		x.B.C = &level1{N: vrf.Int("cn"), L: level2{V: vrf.Float64("cv")}}
		ws = append(ws, want{"B.C.N", float64(x.B.C.N)}, want{"B.C.L.V", x.B.C.L.V})
	}
	both(x, ws)
}

type tagged struct {
	A int     `monkit:"ignore"`
	B int     `monkit:"x,ignore"`
	C int     `monkit:"ignore,y" json:"c"`
	D int     `monkit:"ignored"`
	E int     `json:"ignore"`
	F *int    `monkit:"ignore"`
	G inner   `monkit:"ignore"`
	H bool    `monkit:""`
	I *inner  `monkit:"other"`
	J float64 `monkit:"Ignore"`
	K int     `monkit:"a,b,ignore"`
	L int     `monkit:",ignore,,b"`
	M inner   `json:"m" monkit:"a,b,c,ignore" xml:"x"`
	N *inner  `monkit:"a,ignore"`
	O bool    `monkit:"a,b"`
}

// H_tags: fields tagged ignore, and only those, are skipped.
func H_tags() {
	x := tagged{D: vrf.Int("d"), E: vrf.Int("e"), H: vrf.Bool("h"), J: vrf.Float64("j"), K: 1, L: 2, O: vrf.Bool("o")}
	ws := []want{{"D", float64(x.D)}, {"E", float64(x.E)}, {"H", b2f(x.H)}, {"J", x.J}, {"O", b2f(x.O)}}
	if vrf.Choose("filled", 2) == 1 {
		n := 1
		x.F = &n
		x.N = &inner{1, true}
		x.I = &inner{vrf.Int("ix"), vrf.Bool("iy")}
		ws = append(ws, want{"I.X", float64(x.I.X)}, want{"I.Y", b2f(x.I.Y)})
	}
	both(x, ws)
}

type list struct {
	V    int
	Next *list
}

// H_list: a type that refers to itself, any depth up to the bound.
func H_list() {
	n := vrf.Choose("depth", vrf.Bound("depth", 4, 7))
	var x list
	x.V = vrf.Int("v")
	ws := []want{{"V", float64(x.V)}}
	p := &x
	prefix := ""
	for i := 0; i < n; i++ {
		p.Next = &list{V: vrf.Int("v")}
		p = p.Next
		prefix += "Next."
		ws = append(ws, want{prefix + "V", float64(p.V)})
	}
	both(x, ws)
}

type empty struct{}

// H_degenerate: nothing to report, and no panic.
func H_degenerate() {
	var np *inner
	var npp **inner
	one := 1
	var e error
	cases := []any{nil, np, npp, &np, empty{}, &empty{}, 3, &one, "s", []int{1}, map[string]int{}, func() {}, e, true}
	d := cases[vrf.Choose("what", len(cases))]
	if vrf.Choose("val", 2) == 0 {
		check(monkit.StatSourceFromStruct(key, d), nil)
		return
	}
	v := monkit.NewStructVal(key)
	check(v, nil)
	v.Observe(d)
	check(v, nil)
}

// H_recent: the struct observed last is reported, whatever its type; through a
// pointer, as it is when reporting.
func H_recent() {
	v := monkit.NewStructVal(key)
	n := vrf.Bound("observations", 3, 5)
	p := &inner{1, true}
	var ws []want
	live := false
	for i := 0; i < n; i++ {
		switch vrf.Choose("what", 5) {
		case 0:
			x := vrf.Int("x")
			v.Observe(inner{x, false})
			ws, live = []want{{"X", float64(x)}, {"Y", 0}}, false
		case 1:
			x := vrf.Float64("v")
			v.Observe(&level2{V: x})
			ws, live = []want{{"V", x}}, false
		case 2:
			v.Observe(p)
			live = true
		case 3:
			v.Observe(nil)
			ws, live = nil, false
		case 4:
			p.X = vrf.Int("px")
		}
		if live {
			ws = []want{{"X", float64(p.X)}, {"Y", b2f(p.Y)}}
		}
		check(v, ws)
	}
}

type late struct {
	P *int
	Q *inner
	N inner
	R *struct{ V *float64 }
}

// H_later: what the struct holds when reporting counts, not what it held when
// the source was made.
func H_later() {
	a, b := vrf.Int("a"), vrf.Int("b")
	f := vrf.Float64("f")
	x := &late{}
	var src monkit.StatSource
	if vrf.Choose("how", 2) == 0 {
		src = monkit.StatSourceFromStruct(key, x)
	} else {
		v := monkit.NewStructVal(key)
		v.Observe(x)
		src = v
	}
	n := vrf.Bound("changes of a struct", 3, 4)
	for i := 0; i < n; i++ {
		switch vrf.Choose("change", 7) {
		case 0:
			x.P = &a
		case 1:
			x.P = &b
		case 2:
			x.Q = &inner{b, true}
		case 3:
			x.N.X = a
		case 4:
			x.R = &struct{ V *float64 }{}
		case 5:
			if x.R == nil {
				vrf.Stop()
			}
			x.R.V = &f
		case 6:
			x.P, x.Q, x.R = nil, nil, nil
		}
		ws := []want{{"N.X", float64(x.N.X)}, {"N.Y", 0}}
		if x.P != nil {
			ws = append(ws, want{"P", float64(*x.P)})
		}
		if x.Q != nil {
			ws = append(ws, want{"Q.X", float64(x.Q.X)}, want{"Q.Y", 1})
		}
		if x.R != nil && x.R.V != nil {
			ws = append(ws, want{"R.V", f})
		}
		check(src, ws)
	}
}
