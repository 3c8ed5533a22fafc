package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of:
//
//	*Term            bool, integer, float
//	string, *SymStr  strings
//	Ptr, *SPtr       pointers (SPtr: element pointer with symbolic index)
//	Slice            slices
//	*MapObj, *ChanObj, *Closure
//	Iface            interface values
//	Agg              struct and array values (flattened leaves)
//	Tuple            multi-value results
//	Poison           result of something not encodable (usable only when unused)
//	*Native          engine-private payload
type Value interface{}

type SymStr struct{ b []*Term }

type Ptr struct {
	obj *Obj
	off int
}

type SPtr struct {
	obj    *Obj
	base   int
	n      int // number of elements
	idx    *Term
	stride int
}

type Slice struct {
	obj      *Obj
	off      int
	len, cap int
	stride   int
}

type Iface struct {
	t types.Type // canonical; nil for nil interface
	v Value
}

type Closure struct {
	fn     *ssa.Function
	binds  []Value
	native func(g *G, args []Value) Value
	name   string
}

type Agg []Value
type Tuple []Value
type Poison struct{ why string }

// Native is an opaque engine value.
type Native struct {
	kind string
	v    interface{}
}

type Complex struct{ re, im *Term }

// Obj is a memory object: a flat vector of leaf cells.
type Obj struct {
	id    int64
	cells []Value
	typ   types.Type
	base  bool
	saved int64 // path epoch in which cells were saved
	// race detection
	shEpoch int64
	shadow  map[int]*shadowCell
	what    string
	native  interface{} // engine data attached to the object (mutexes etc.)
	natEp   int64
}

type mapEntry struct {
	k, v    Value
	h       string
	deleted bool
}

type MapObj struct {
	id      int64
	typ     *types.Map
	ents    []*mapEntry
	idx     map[string]*mapEntry
	nsym    int
	n       int
	base    bool
	saved   int64
	shEpoch int64
	sh      *shadowCell
}

type ChanObj struct {
	id     int64
	cap    int
	buf    []Value
	bufVC  []VC
	closed bool
	clVC   VC
	recvq  []*waiter
	sendq  []*waiter
	lastRV VC // clock of receives (for buffered capacity edges)
	base   bool
	saved  int64
	timer  *timerObj
	elem   types.Type
}

// ---- canonical types

type typeCanon struct {
	m   typeutil.Map
	raw map[types.Type]types.Type
}

func (c *typeCanon) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if r, ok := c.raw[t]; ok {
		return r
	}
	u := types.Unalias(t)
	if v := c.m.At(u); v != nil {
		r := v.(types.Type)
		c.raw[t] = r
		return r
	}
	c.m.Set(u, u)
	c.raw[t] = u
	return u
}

// ---- layout

type layout struct {
	n      int
	fields []int // struct field offsets
	elem   int   // array element size
	leaf   bool
	zero   []Value
}

func (w *Worker) layoutOf(t types.Type) *layout {
	if l, ok := w.layouts[t]; ok {
		return l
	}
	l := &layout{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, l.n)
			fl := w.layoutOf(u.Field(i).Type())
			l.n += fl.n
			l.zero = append(l.zero, fl.zero...)
		}
	case *types.Array:
		el := w.layoutOf(u.Elem())
		l.elem = el.n
		l.n = el.n * int(u.Len())
		if l.n > 1<<22 {
			panic(w.unsupported("huge array type %v", t))
		}
		for i := 0; i < int(u.Len()); i++ {
			l.zero = append(l.zero, el.zero...)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			fl := w.layoutOf(u.At(i).Type())
			l.fields = append(l.fields, l.n)
			l.n += fl.n
			l.zero = append(l.zero, fl.zero...)
		}
	default:
		l.n = 1
		l.leaf = true
		l.zero = []Value{w.zeroLeaf(t)}
	}
	w.layouts[t] = l
	return l
}

func (w *Worker) zeroLeaf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		case u.Info()&types.IsBoolean != 0:
			return w.tc.F
		case u.Info()&types.IsInteger != 0:
			return w.tc.Const(0, intWidth(u))
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				return w.tc.F32(0)
			}
			return w.tc.F64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return Complex{w.tc.F64(0), w.tc.F64(0)}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{stride: -1}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	}
	panic(w.unsupported("zero of %v", t))
}

func (w *Worker) zero(t types.Type) Value {
	l := w.layoutOf(t)
	if l.leaf {
		return l.zero[0]
	}
	return Agg(append([]Value(nil), l.zero...))
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// ---- memory access

var objCounter int64

func (w *Worker) newObj(t types.Type, n int, what string) *Obj {
	w.objID++
	o := &Obj{id: w.objID, typ: t, base: w.baseMode, what: what}
	l := w.layoutOf(t)
	if n == 1 {
		o.cells = append([]Value(nil), l.zero...)
	} else {
		o.cells = make([]Value, 0, l.n*n)
		for i := 0; i < n; i++ {
			o.cells = append(o.cells, l.zero...)
		}
	}
	return o
}

// newCells makes an object from explicit cells.
func (w *Worker) newCells(t types.Type, cells []Value, what string) *Obj {
	w.objID++
	return &Obj{id: w.objID, typ: t, base: w.baseMode, cells: cells, what: what}
}

func (w *Worker) touch(o *Obj) {
	if o.base && !w.baseMode && o.saved != w.epoch {
		o.saved = w.epoch
		old := append([]Value(nil), o.cells...)
		w.undo = append(w.undo, func() { o.cells = old })
	}
}

func (w *Worker) touchMap(m *MapObj) {
	if m.base && !w.baseMode && m.saved != w.epoch {
		m.saved = w.epoch
		ents := make([]*mapEntry, len(m.ents))
		for i, e := range m.ents {
			c := *e
			ents[i] = &c
		}
		n, ns := m.n, m.nsym
		w.undo = append(w.undo, func() {
			m.ents, m.n, m.nsym = ents, n, ns
			m.idx = map[string]*mapEntry{}
			for _, e := range ents {
				if e.h != "" && !e.deleted {
					m.idx[e.h] = e
				}
			}
		})
	}
}

func (w *Worker) touchChan(c *ChanObj) {
	if c.base && !w.baseMode && c.saved != w.epoch {
		c.saved = w.epoch
		old := *c
		old.buf = append([]Value(nil), c.buf...)
		w.undo = append(w.undo, func() { *c = old })
	}
}

// load reads a value of type t at pointer p.
func (g *G) load(p Value, t types.Type, pos ssa.Instruction) Value {
	w := g.w
	switch p := p.(type) {
	case Ptr:
		if p.obj == nil {
			g.panicNil()
		}
		l := w.layoutOf(t)
		g.access(p.obj, p.off, l.n, false, pos)
		if p.off+l.n > len(p.obj.cells) {
			panic(w.unsupported("load beyond object (%s, type %v)", p.obj.what, t))
		}
		if l.leaf {
			return p.obj.cells[p.off]
		}
		return Agg(append([]Value(nil), p.obj.cells[p.off:p.off+l.n]...))
	case *SPtr:
		l := w.layoutOf(t)
		if !l.leaf {
			return g.load(g.concPtr(p), t, pos)
		}
		for i := 0; i < p.n; i++ {
			g.access(p.obj, p.base+i*p.stride, 1, false, pos)
		}
		return g.iteCells(p)
	case Poison:
		panic(w.unsupported("load through poison: %s", p.why))
	}
	panic(w.unsupported("load via %T", p))
}

func (g *G) iteCells(p *SPtr) Value {
	w := g.w
	var r *Term
	for i := p.n - 1; i >= 0; i-- {
		c, ok := p.obj.cells[p.base+i*p.stride].(*Term)
		if !ok {
			return g.load(g.concPtr(p), p.obj.typ, nil)
		}
		if r == nil {
			r = c
		} else {
			r = w.tc.Ite(w.tc.Eq(p.idx, w.tc.Const(uint64(i), int(p.idx.sort.w))), c, r)
		}
	}
	return r
}

func (g *G) concPtr(p *SPtr) Ptr {
	i := int(g.concretize(p.idx))
	return Ptr{p.obj, p.base + i*p.stride}
}

func (g *G) store(p Value, v Value, t types.Type, pos ssa.Instruction) {
	w := g.w
	switch p := p.(type) {
	case Ptr:
		if p.obj == nil {
			g.panicNil()
		}
		l := w.layoutOf(t)
		g.access(p.obj, p.off, l.n, true, pos)
		w.touch(p.obj)
		if p.off+l.n > len(p.obj.cells) {
			panic(w.unsupported("store beyond object"))
		}
		if l.leaf {
			p.obj.cells[p.off] = v
			return
		}
		if po, ok := v.(Poison); ok {
			for i := 0; i < l.n; i++ {
				p.obj.cells[p.off+i] = po
			}
			return
		}
		copy(p.obj.cells[p.off:p.off+l.n], v.(Agg))
		return
	case *SPtr:
		l := w.layoutOf(t)
		nv, ok := v.(*Term)
		if !l.leaf || !ok || p.n > 64 {
			g.store(g.concPtr(p), v, t, pos)
			return
		}
		w.touch(p.obj)
		for i := 0; i < p.n; i++ {
			off := p.base + i*p.stride
			g.access(p.obj, off, 1, true, pos)
			old, ok := p.obj.cells[off].(*Term)
			if !ok {
				panic(w.unsupported("symbolic store over %T", p.obj.cells[off]))
			}
			p.obj.cells[off] = w.tc.Ite(w.tc.Eq(p.idx, w.tc.Const(uint64(i), int(p.idx.sort.w))), nv, old)
		}
		return
	case Poison:
		panic(w.unsupported("store through poison: %s", p.why))
	}
	panic(w.unsupported("store via %T", p))
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func (w *Worker) strByte(v Value, i int) *Term {
	switch s := v.(type) {
	case string:
		return w.tc.Const(uint64(s[i]), 8)
	case *SymStr:
		return s.b[i]
	}
	panic(w.unsupported("strByte of %T", v))
}

func (w *Worker) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		r := make([]*Term, len(s))
		for i := range r {
			r[i] = w.tc.Const(uint64(s[i]), 8)
		}
		return r
	case *SymStr:
		return s.b
	case Poison:
		panic(w.unsupported("string is poison: %s", s.why))
	}
	panic(w.unsupported("strBytes of %T", v))
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OConst {
			return &SymStr{append([]*Term(nil), b...)}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.v))
	}
	return sb.String()
}

func (w *Worker) strConcat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	r := append([]*Term(nil), w.strBytes(a)...)
	return mkStr(append(r, w.strBytes(b)...))
}

func (w *Worker) strSlice(a Value, lo, hi int) Value {
	switch s := a.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic(w.unsupported("slice of %T", a))
}

func (w *Worker) strEq(a, b Value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return w.tc.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return w.tc.F
	}
	r := w.tc.T
	for i := strLen(a) - 1; i >= 0; i-- {
		r = w.tc.And(w.tc.Eq(w.strByte(a, i), w.strByte(b, i)), r)
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (w *Worker) strLess(a, b Value) *Term {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return w.tc.Bool(x < y)
	}
	n := strLen(a)
	r := w.tc.Bool(strLen(a) < strLen(b))
	if strLen(b) < n {
		n = strLen(b)
	}
	for i := n - 1; i >= 0; i-- {
		p, q := w.strByte(a, i), w.strByte(b, i)
		r = w.tc.Or(w.tc.Bin(OUlt, p, q), w.tc.And(w.tc.Eq(p, q), r))
	}
	return r
}

// goString requires a concrete string, concretising symbolic bytes.
func (g *G) goString(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(g.concretize(t))
		}
		return string(b)
	case Poison:
		panic(g.w.unsupported("string is poison: %s", s.why))
	}
	panic(g.w.unsupported("goString of %T", v))
}

// ---- slices of bytes

func (g *G) bytesOf(v Value) []*Term {
	s := v.(Slice)
	r := make([]*Term, s.len)
	for i := range r {
		g.access(s.obj, s.off+i, 1, false, nil)
		t, ok := s.obj.cells[s.off+i].(*Term)
		if !ok {
			panic(g.w.unsupported("byte cell is %T", s.obj.cells[s.off+i]))
		}
		r[i] = t
	}
	return r
}

func (g *G) mkBytes(b []*Term) Slice {
	cells := make([]Value, len(b))
	for i, t := range b {
		cells[i] = t
	}
	o := g.w.newCells(types.Typ[types.Uint8], cells, "bytes")
	return Slice{obj: o, len: len(b), cap: len(b), stride: 1}
}

// ---- equality

// eq builds the term a == b for values of static type t.
func (g *G) eq(a, b Value, t types.Type) *Term {
	w := g.w
	if p, ok := a.(Poison); ok {
		panic(w.unsupported("compare poison: %s", p.why))
	}
	if p, ok := b.(Poison); ok {
		panic(w.unsupported("compare poison: %s", p.why))
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort.k == 2 {
			return w.tc.FBin(OFEq, x, y)
		}
		return w.tc.Eq(x, y)
	case string, *SymStr:
		return w.strEq(a, b)
	case Ptr:
		if y, ok := b.(*SPtr); ok {
			return g.eq(a, g.concPtr(y), t)
		}
		y, ok := b.(Ptr)
		if !ok {
			return w.tc.F
		}
		return w.tc.Bool(x == y)
	case *SPtr:
		return g.eq(g.concPtr(x), b, t)
	case *MapObj:
		y, _ := b.(*MapObj)
		return w.tc.Bool(x == y)
	case *ChanObj:
		y, _ := b.(*ChanObj)
		return w.tc.Bool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return w.tc.Bool(x == y)
	case Slice:
		y := b.(Slice)
		if x.obj == nil || y.obj == nil {
			return w.tc.Bool(x.obj == nil && y.obj == nil)
		}
		panic(w.unsupported("slice compare"))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(w.unsupported("iface compare with %T", b))
		}
		if x.t == nil || y.t == nil {
			return w.tc.Bool(x.t == nil && y.t == nil)
		}
		if x.t != y.t {
			return w.tc.F
		}
		if !types.Comparable(x.t) {
			g.panicRuntime("runtime error: comparing uncomparable type " + typeString(x.t))
		}
		return g.eq(x.v, y.v, x.t)
	case Agg:
		y := b.(Agg)
		leaves := w.leafTypes(t)
		r := w.tc.T
		for i := range x {
			var lt types.Type
			if leaves != nil {
				lt = leaves[i]
			}
			r = w.tc.And(r, g.eq(x[i], y[i], lt))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Native:
		y, _ := b.(*Native)
		if y != nil && x.kind == "rtype" && y.kind == "rtype" {
			return w.tc.Bool(x.v == y.v)
		}
		return w.tc.Bool(x == y)
	case Complex:
		y := b.(Complex)
		return w.tc.And(w.tc.FBin(OFEq, x.re, y.re), w.tc.FBin(OFEq, x.im, y.im))
	case nil:
		return w.tc.Bool(b == nil)
	}
	panic(w.unsupported("eq of %T", a))
}

func (w *Worker) leafTypes(t types.Type) []types.Type { return nil }

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- maps

// keyHash returns a canonical string for fully concrete keys.
func keyHash(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OConst {
			if x.sort.k == 2 {
				f := fpv(x.v, int(x.sort.w))
				if f != f {
					return "", false
				}
				if f == 0 {
					return "f0", true
				}
			}
			return fmt.Sprintf("i%d:%x", x.sort.k, x.v), true
		}
		return "", false
	case string:
		return "s" + x, true
	case *SymStr:
		return "", false
	case Ptr:
		if x.obj == nil {
			return "p0", true
		}
		return fmt.Sprintf("p%d+%d", x.obj.id, x.off), true
	case Iface:
		if x.t == nil {
			return "n", true
		}
		h, ok := keyHash(x.v)
		if !ok {
			return "", false
		}
		return "I" + fmt.Sprintf("%p", x.t) + "|" + h, true
	case Agg:
		var sb strings.Builder
		sb.WriteString("{")
		for _, c := range x {
			h, ok := keyHash(c)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(h), h)
		}
		return sb.String(), true
	case *ChanObj:
		if x == nil {
			return "c0", true
		}
		return fmt.Sprintf("c%d", x.id), true
	case *Native:
		if x.kind == "rtype" {
			return fmt.Sprintf("T%p", x.v), true
		}
		return fmt.Sprintf("N%p", x), true
	}
	return "", false
}

func (w *Worker) newMap(t *types.Map) *MapObj {
	w.objID++
	return &MapObj{id: w.objID, typ: t, idx: map[string]*mapEntry{}, base: w.baseMode}
}

func (g *G) mapFind(m *MapObj, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	g.checkHashable(k)
	h, conc := keyHash(k)
	if conc {
		if e, ok := m.idx[h]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted || (conc && e.h != "") {
			continue
		}
		c := g.eq(e.k, k, m.typ.Key())
		if c.isFalse() {
			continue
		}
		if g.branch(c) {
			return e
		}
	}
	return nil
}

func (g *G) checkHashable(k Value) {
	if x, ok := k.(Iface); ok && x.t != nil {
		if !types.Comparable(x.t) {
			g.panicRuntime("runtime error: hash of unhashable type " + typeString(x.t))
		}
		g.checkHashable(x.v)
	}
}

func (g *G) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		g.panicRuntime("assignment to entry in nil map")
	}
	e := g.mapFind(m, k)
	g.w.touchMap(m)
	if e != nil {
		// entries may have been replaced by touchMap copies only on undo; e is live
		e.v = v
		return
	}
	h, conc := keyHash(k)
	e = &mapEntry{k: k, v: v}
	if conc {
		e.h = h
		m.idx[h] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (g *G) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	e := g.mapFind(m, k)
	if e == nil {
		return
	}
	g.w.touchMap(m)
	e.deleted = true
	m.n--
	if e.h != "" {
		delete(m.idx, e.h)
	} else {
		m.nsym--
	}
	// compact
	if len(m.ents) > 8 && m.n*2 < len(m.ents) {
		var ne []*mapEntry
		for _, x := range m.ents {
			if !x.deleted {
				ne = append(ne, x)
			}
		}
		m.ents = ne
	}
}
