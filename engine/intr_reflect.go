package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// rval is the payload of a modelled reflect.Value.
type rval struct {
	t    types.Type
	v    Value // value when not addressable
	addr Ptr
	has  bool // addressable
	ro   bool
}

func (g *G) rtIface(pkg string, t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	n := &Native{"rtype", g.w.canon.canon(t)}
	if pkg == "reflect" {
		return Iface{g.w.canon.canon(types.NewPointer(g.w.e.namedType("reflect", "rtype"))), n}
	}
	return Iface{g.w.canon.canon(g.w.e.namedType("internal/reflectlite", "rtype")), n}
}

func (g *G) mkRval(r rval) Value {
	return Agg{&Native{"rval", &r}, Ptr{}, g.w.tc.Const(1, 64)}
}

func (g *G) invalidRval() Value { return Agg{Ptr{}, Ptr{}, g.w.tc.Const(0, 64)} }

func asRval(g *G, v Value) *rval {
	a, ok := v.(Agg)
	if !ok {
		panic(g.w.unsupported("reflect.Value is %T", v))
	}
	n, ok := a[0].(*Native)
	if !ok {
		return nil
	}
	return n.v.(*rval)
}

func needRval(g *G, v Value, m string) *rval {
	r := asRval(g, v)
	if r == nil {
		t := g.w.e.namedType("reflect", "ValueError")
		o := g.w.newObj(t, 1, "")
		o.cells[0] = "reflect.Value." + m
		panic(&GoPanic{val: Iface{g.w.canon.canon(types.NewPointer(t)), Ptr{o, 0}}, where: g.where()})
	}
	return r
}

func asRtype(g *G, v Value) types.Type {
	switch x := v.(type) {
	case *Native:
		return x.v.(types.Type)
	case Iface:
		return asRtype(g, x.v)
	}
	panic(g.w.unsupported("reflect.Type is %T", v))
}

func (r *rval) get(g *G) Value {
	if r.has {
		return g.load(r.addr, r.t, nil)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// goTypeString renders a type the way reflect.Type.String does.
func goTypeString(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
	case *types.Slice:
		return "[]" + goTypeString(u.Elem())
	case *types.Pointer:
		return "*" + goTypeString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), goTypeString(u.Elem()))
	case *types.Map:
		return "map[" + goTypeString(u.Key()) + "]" + goTypeString(u.Elem())
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
	}
	return typeString(t)
}

func (g *G) convertible(from, to types.Type) bool {
	return types.ConvertibleTo(from, to)
}

func regReflect() {
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		pk := pk
		short := "reflect"
		if pk != "reflect" {
			short = "internal/reflectlite"
		}
		rv := func(n string, f func(g *G, r *rval, a []Value) Value) {
			reg("("+short+".Value)."+n, func(g *G, fi *FuncInfo, a []Value) Value {
				return f(g, needRval(g, a[0], n), a[1:])
			})
		}
		rt := func(n string, f func(g *G, t types.Type, a []Value) Value) {
			h := func(g *G, fi *FuncInfo, a []Value) Value { return f(g, asRtype(g, a[0]), a[1:]) }
			reg("(*"+short+".rtype)."+n, h)
			reg("("+short+".rtype)."+n, h)
		}
		reg(pk+".TypeOf", func(g *G, fi *FuncInfo, a []Value) Value {
			i := a[0].(Iface)
			return g.rtIface(pk, i.t)
		})
		reg(pk+".ValueOf", func(g *G, fi *FuncInfo, a []Value) Value {
			i, ok := a[0].(Iface)
			if !ok {
				panic(g.w.unsupported("ValueOf %T", a[0]))
			}
			if i.t == nil {
				return g.invalidRval()
			}
			return g.mkRval(rval{t: i.t, v: i.v})
		})
		// Value.IsValid and Kind accept the zero Value
		reg("("+short+".Value).IsValid", func(g *G, fi *FuncInfo, a []Value) Value { return g.w.tc.Bool(asRval(g, a[0]) != nil) })
		reg("("+short+".Value).Kind", func(g *G, fi *FuncInfo, a []Value) Value {
			r := asRval(g, a[0])
			if r == nil {
				return g.i64(0)
			}
			return g.i64(int64(kindOf(r.t)))
		})
		reg("("+short+".flag).kind", func(g *G, fi *FuncInfo, a []Value) Value { panic(g.w.unsupported("reflect flag")) })
		rv("Type", func(g *G, r *rval, a []Value) Value { return g.rtIface(pk, r.t) })
		rv("Len", func(g *G, r *rval, a []Value) Value {
			switch x := r.get(g).(type) {
			case Slice:
				return g.i64(int64(x.len))
			case string, *SymStr:
				return g.i64(int64(strLen(x)))
			case *MapObj:
				if x == nil {
					return g.i64(0)
				}
				return g.i64(int64(x.n))
			case Agg:
				return g.i64(r.t.Underlying().(*types.Array).Len())
			case *ChanObj:
				return g.i64(int64(len(x.buf)))
			}
			panic(g.w.unsupported("reflect Len"))
		})
		rv("IsNil", func(g *G, r *rval, a []Value) Value {
			switch x := r.get(g).(type) {
			case Ptr:
				return g.w.tc.Bool(x.obj == nil)
			case Slice:
				return g.w.tc.Bool(x.obj == nil)
			case *MapObj:
				return g.w.tc.Bool(x == nil)
			case *ChanObj:
				return g.w.tc.Bool(x == nil)
			case *Closure:
				return g.w.tc.Bool(x == nil)
			case Iface:
				return g.w.tc.Bool(x.t == nil)
			}
			g.panicStr("reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value")
			return nil
		})
		rv("Elem", func(g *G, r *rval, a []Value) Value {
			switch x := r.get(g).(type) {
			case Ptr:
				if x.obj == nil {
					return g.invalidRval()
				}
				return g.mkRval(rval{t: elemType(r.t), addr: x, has: true, ro: r.ro})
			case Iface:
				if x.t == nil {
					return g.invalidRval()
				}
				return g.mkRval(rval{t: x.t, v: x.v, ro: r.ro})
			}
			g.panicStr("reflect: call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value")
			return nil
		})
		rv("NumField", func(g *G, r *rval, a []Value) Value {
			return g.i64(int64(r.t.Underlying().(*types.Struct).NumFields()))
		})
		rv("Field", func(g *G, r *rval, a []Value) Value {
			i := int(g.conc(a[0]))
			st, ok := r.t.Underlying().(*types.Struct)
			if !ok || i < 0 || i >= st.NumFields() {
				g.panicStr("reflect: Field index out of range")
			}
			l := g.w.layoutOf(r.t)
			ft := st.Field(i).Type()
			fl := g.w.layoutOf(ft)
			ro := r.ro || !st.Field(i).Exported()
			if r.has {
				return g.mkRval(rval{t: ft, addr: Ptr{r.addr.obj, r.addr.off + l.fields[i]}, has: true, ro: ro})
			}
			ag := r.v.(Agg)
			if fl.leaf {
				return g.mkRval(rval{t: ft, v: ag[l.fields[i]], ro: ro})
			}
			return g.mkRval(rval{t: ft, v: Agg(append([]Value(nil), ag[l.fields[i]:l.fields[i]+fl.n]...)), ro: ro})
		})
		rv("Index", func(g *G, r *rval, a []Value) Value {
			i := int(int64(g.conc(a[0])))
			et := elemType(r.t)
			switch x := r.get(g).(type) {
			case Slice:
				if i < 0 || i >= x.len {
					g.panicStr("reflect: slice index out of range")
				}
				n := g.w.layoutOf(et).n
				return g.mkRval(rval{t: et, addr: Ptr{x.obj, x.off + i*n}, has: true, ro: r.ro})
			case Agg:
				l := g.w.layoutOf(et)
				if r.has {
					return g.mkRval(rval{t: et, addr: Ptr{r.addr.obj, r.addr.off + i*l.n}, has: true, ro: r.ro})
				}
				if l.leaf {
					return g.mkRval(rval{t: et, v: x[i], ro: r.ro})
				}
				return g.mkRval(rval{t: et, v: Agg(append([]Value(nil), x[i*l.n:(i+1)*l.n]...)), ro: r.ro})
			case string, *SymStr:
				return g.mkRval(rval{t: types.Typ[types.Uint8], v: g.w.strByte(x, i), ro: r.ro})
			}
			panic(g.w.unsupported("reflect Index"))
		})
		scal := func(n string, to types.Type) {
			rv(n, func(g *G, r *rval, a []Value) Value {
				v := r.get(g)
				t, ok := v.(*Term)
				if !ok {
					g.panicStr("reflect: call of reflect.Value." + n + " on " + kindOf(r.t).String() + " Value")
				}
				if n == "Bool" {
					return t
				}
				return g.convert(t, r.t, to)
			})
		}
		scal("Bool", types.Typ[types.Bool])
		scal("Int", types.Typ[types.Int64])
		scal("Uint", types.Typ[types.Uint64])
		scal("Float", types.Typ[types.Float64])
		reg("("+short+".Value).String", func(g *G, fi *FuncInfo, a []Value) Value {
			r := asRval(g, a[0])
			if r == nil {
				return "<invalid Value>"
			}
			v := r.get(g)
			switch v.(type) {
			case string, *SymStr:
				return v
			}
			return "<" + goTypeString(r.t) + " Value>"
		})
		rv("CanInterface", func(g *G, r *rval, a []Value) Value { return g.w.tc.Bool(!r.ro) })
		rv("CanAddr", func(g *G, r *rval, a []Value) Value { return g.w.tc.Bool(r.has) })
		rv("CanSet", func(g *G, r *rval, a []Value) Value { return g.w.tc.Bool(r.has && !r.ro) })
		rv("Addr", func(g *G, r *rval, a []Value) Value {
			return g.mkRval(rval{t: types.NewPointer(r.t), v: r.addr, ro: r.ro})
		})
		iface := func(g *G, r *rval, a []Value) Value {
			v := r.get(g)
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{g.w.canon.canon(r.t), v}
		}
		rv("Interface", func(g *G, r *rval, a []Value) Value {
			if r.ro {
				g.panicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}
			return iface(g, r, a)
		})
		reg(pk+".valueInterface", func(g *G, fi *FuncInfo, a []Value) Value { return iface(g, asRval(g, a[0]), nil) })
		rv("Set", func(g *G, r *rval, a []Value) Value {
			x := needRval(g, a[0], "Set")
			v := x.get(g)
			if _, isI := r.t.Underlying().(*types.Interface); isI {
				if _, ok := v.(Iface); !ok {
					v = Iface{g.w.canon.canon(x.t), v}
				}
			}
			if !r.has {
				g.panicStr("reflect: reflect.Value.Set using unaddressable value")
			}
			g.store(r.addr, v, r.t, nil)
			return nil
		})
		rv("Convert", func(g *G, r *rval, a []Value) Value {
			to := asRtype(g, a[0])
			if !g.convertible(r.t, to) {
				g.panicStr("reflect.Value.Convert: value of type " + goTypeString(r.t) + " cannot be converted to type " + goTypeString(to))
			}
			return g.mkRval(rval{t: to, v: g.convert(r.get(g), r.t, to), ro: r.ro})
		})
		rv("CanConvert", func(g *G, r *rval, a []Value) Value { return g.w.tc.Bool(g.convertible(r.t, asRtype(g, a[0]))) })
		can := func(n string, ok func(k reflect.Kind) bool) {
			rv(n, func(g *G, r *rval, a []Value) Value { return g.w.tc.Bool(ok(kindOf(r.t))) })
		}
		can("CanInt", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 })
		can("CanUint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr })
		can("CanFloat", func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 })
		rv("Bytes", func(g *G, r *rval, a []Value) Value { return r.get(g) })
		rv("IsZero", func(g *G, r *rval, a []Value) Value { return g.eq(r.get(g), g.w.zero(r.t), r.t) })
		ptr := func(g *G, r *rval, a []Value) Value {
			return g.convert(r.get(g), types.Typ[types.UnsafePointer], types.Typ[types.Uintptr])
		}
		rv("Pointer", ptr)
		rv("UnsafePointer", func(g *G, r *rval, a []Value) Value { return r.get(g) })
		rv("MapKeys", func(g *G, r *rval, a []Value) Value {
			m := r.get(g).(*MapObj)
			vt := g.w.e.namedType("reflect", "Value")
			var cells []Value
			n := 0
			if m != nil {
				for _, e := range m.ents {
					if !e.deleted {
						cells = append(cells, g.mkRval(rval{t: m.typ.Key(), v: e.k, ro: r.ro}).(Agg)...)
						n++
					}
				}
			}
			return Slice{obj: g.w.newCells(vt, cells, "keys"), len: n, cap: n, stride: 3}
		})
		rv("MapIndex", func(g *G, r *rval, a []Value) Value {
			m := r.get(g).(*MapObj)
			e := g.mapFind(m, asRval(g, a[0]).get(g))
			if e == nil {
				return g.invalidRval()
			}
			return g.mkRval(rval{t: m.typ.Elem(), v: e.v, ro: r.ro})
		})
		rv("MapRange", func(g *G, r *rval, a []Value) Value {
			m := r.get(g).(*MapObj)
			o := g.w.newObj(g.w.e.namedType("reflect", "MapIter"), 1, "MapIter")
			it := &rmapIter{m: m, i: -1, ro: r.ro}
			if m != nil {
				it.ents = append(it.ents, m.ents...)
			}
			o.native = it
			return Ptr{o, 0}
		})
		mi := func(v Value) *rmapIter { return v.(Ptr).obj.native.(*rmapIter) }
		reg("(*reflect.MapIter).Next", func(g *G, fi *FuncInfo, a []Value) Value {
			it := mi(a[0])
			for it.i++; it.i < len(it.ents) && it.ents[it.i].deleted; it.i++ {
			}
			return g.w.tc.Bool(it.i < len(it.ents))
		})
		reg("(*reflect.MapIter).Key", func(g *G, fi *FuncInfo, a []Value) Value {
			it := mi(a[0])
			return g.mkRval(rval{t: it.m.typ.Key(), v: it.ents[it.i].k, ro: it.ro})
		})
		reg("(*reflect.MapIter).Value", func(g *G, fi *FuncInfo, a []Value) Value {
			it := mi(a[0])
			return g.mkRval(rval{t: it.m.typ.Elem(), v: it.ents[it.i].v, ro: it.ro})
		})
		rv("NumMethod", func(g *G, r *rval, a []Value) Value {
			return g.i64(int64(g.w.e.prog.MethodSets.MethodSet(r.t).Len()))
		})
		// types
		rt("Kind", func(g *G, t types.Type, a []Value) Value { return g.i64(int64(kindOf(t))) })
		rt("String", func(g *G, t types.Type, a []Value) Value { return goTypeString(t) })
		rt("Name", func(g *G, t types.Type, a []Value) Value {
			switch u := types.Unalias(t).(type) {
			case *types.Named:
				return u.Obj().Name()
			case *types.Basic:
				return u.Name()
			}
			return ""
		})
		rt("PkgPath", func(g *G, t types.Type, a []Value) Value {
			if u, ok := types.Unalias(t).(*types.Named); ok && u.Obj().Pkg() != nil {
				return u.Obj().Pkg().Path()
			}
			return ""
		})
		rt("Elem", func(g *G, t types.Type, a []Value) Value { return g.rtIface(pk, elemType(t)) })
		rt("Key", func(g *G, t types.Type, a []Value) Value { return g.rtIface(pk, t.Underlying().(*types.Map).Key()) })
		rt("Len", func(g *G, t types.Type, a []Value) Value { return g.i64(t.Underlying().(*types.Array).Len()) })
		rt("NumField", func(g *G, t types.Type, a []Value) Value {
			return g.i64(int64(t.Underlying().(*types.Struct).NumFields()))
		})
		rt("NumMethod", func(g *G, t types.Type, a []Value) Value {
			return g.i64(int64(g.w.e.prog.MethodSets.MethodSet(t).Len()))
		})
		rt("Comparable", func(g *G, t types.Type, a []Value) Value { return g.w.tc.Bool(types.Comparable(t)) })
		rt("ConvertibleTo", func(g *G, t types.Type, a []Value) Value { return g.w.tc.Bool(g.convertible(t, asRtype(g, a[0]))) })
		rt("AssignableTo", func(g *G, t types.Type, a []Value) Value { return g.w.tc.Bool(types.AssignableTo(t, asRtype(g, a[0]))) })
		rt("Implements", func(g *G, t types.Type, a []Value) Value {
			it, ok := asRtype(g, a[0]).Underlying().(*types.Interface)
			return g.w.tc.Bool(ok && types.Implements(t, it))
		})
		rt("Size", func(g *G, t types.Type, a []Value) Value { return g.i64(types.SizesFor("gc", "amd64").Sizeof(t)) })
		rt("Field", func(g *G, t types.Type, a []Value) Value {
			st := t.Underlying().(*types.Struct)
			i := int(g.conc(a[0]))
			if i < 0 || i >= st.NumFields() {
				g.panicStr("reflect: Field index out of bounds")
			}
			sft := g.w.e.namedType("reflect", "StructField")
			return g.structField(sft, st, i)
		})
		rt("FieldByName", func(g *G, t types.Type, a []Value) Value {
			st := t.Underlying().(*types.Struct)
			n := g.goString(a[0])
			sft := g.w.e.namedType("reflect", "StructField")
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return Tuple{g.structField(sft, st, i), g.w.tc.T}
				}
			}
			return Tuple{g.w.zero(sft), g.w.tc.F}
		})
		reg(pk+".Swapper", func(g *G, fi *FuncInfo, a []Value) Value {
			i := a[0].(Iface)
			s := i.v.(Slice)
			n := g.w.layoutOf(elemType(i.t)).n
			return &Closure{name: "swapper", native: func(g *G, a []Value) Value {
				x, y := int(g.conc(a[0])), int(g.conc(a[1]))
				if x < 0 || y < 0 || x >= s.len || y >= s.len {
					g.panicStr("reflect: slice index out of range")
				}
				g.access(s.obj, s.off+x*n, n, true, nil)
				g.access(s.obj, s.off+y*n, n, true, nil)
				g.w.touch(s.obj)
				for k := 0; k < n; k++ {
					c := s.obj.cells
					c[s.off+x*n+k], c[s.off+y*n+k] = c[s.off+y*n+k], c[s.off+x*n+k]
				}
				return nil
			}}
		})
	}
	reg("reflect.Zero", func(g *G, fi *FuncInfo, a []Value) Value {
		t := asRtype(g, a[0])
		return g.mkRval(rval{t: t, v: g.w.zero(t)})
	})
	reg("reflect.New", func(g *G, fi *FuncInfo, a []Value) Value {
		t := asRtype(g, a[0])
		return g.mkRval(rval{t: types.NewPointer(t), v: Ptr{g.w.newObj(t, 1, "reflect.New"), 0}})
	})
	reg("reflect.Indirect", func(g *G, fi *FuncInfo, a []Value) Value {
		r := asRval(g, a[0])
		if r == nil || kindOf(r.t) != reflect.Pointer {
			return a[0]
		}
		p := r.get(g).(Ptr)
		if p.obj == nil {
			return g.invalidRval()
		}
		return g.mkRval(rval{t: elemType(r.t), addr: p, has: true, ro: r.ro})
	})
	reg("reflect.PointerTo", func(g *G, fi *FuncInfo, a []Value) Value {
		return g.rtIface("reflect", types.NewPointer(asRtype(g, a[0])))
	})
	reg("reflect.TypeFor", func(g *G, fi *FuncInfo, a []Value) Value { return g.rtIface("reflect", fi.fn.TypeArgs()[0]) })
	reg("internal/reflectlite.TypeFor", func(g *G, fi *FuncInfo, a []Value) Value {
		return g.rtIface("internal/reflectlite", fi.fn.TypeArgs()[0])
	})
}

type rmapIter struct {
	m    *MapObj
	ents []*mapEntry
	i    int
	ro   bool
}

func (g *G) structField(sft types.Type, st *types.Struct, i int) Value {
	z := g.w.zero(sft).(Agg)
	l := g.w.layoutOf(sft)
	s := sft.Underlying().(*types.Struct)
	for k := 0; k < s.NumFields(); k++ {
		switch s.Field(k).Name() {
		case "Name":
			z[l.fields[k]] = st.Field(i).Name()
		case "PkgPath":
			if !st.Field(i).Exported() && st.Field(i).Pkg() != nil {
				z[l.fields[k]] = st.Field(i).Pkg().Path()
			}
		case "Type":
			z[l.fields[k]] = g.rtIface("reflect", st.Field(i).Type())
		case "Tag":
			z[l.fields[k]] = st.Tag(i)
		case "Anonymous":
			z[l.fields[k]] = g.w.tc.Bool(st.Field(i).Embedded())
		}
	}
	return z
}
