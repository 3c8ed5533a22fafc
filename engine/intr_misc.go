package main

import (
	"fmt"
	"go/types"
	htmltemplate "html/template"
	"math"
	"regexp"
	"strings"
	texttemplate "text/template"
	"text/template/parse"
)

func (g *G) errorValue(msg Value) Value {
	e := g.callFn(g.w.e.funcByName("errors", "New"), []Value{msg}, nil, nil)
	return e
}

func regMisc() {
	R := func(n string, f func(g *G, a []Value) Value) {
		reg(n, func(g *G, fi *FuncInfo, a []Value) Value { return f(g, a) })
	}
	// the Go-syntax text of values with internals stands for itself
	reg("fmt.Sprintf", func(g *G, fi *FuncInfo, a []Value) Value {
		f, ok := a[0].(string)
		sl, ok2 := a[1].(Slice)
		if ok && ok2 && strings.Contains(f, "%#v") && sl.obj != nil {
			cells := make([]Value, sl.len)
			for i := range cells {
				c := sl.obj.cells[sl.off+i*sl.stride]
				if x, ok := c.(Iface); ok && x.t != nil {
					switch x.t.Underlying().(type) {
					case *types.Basic:
					default:
						c = Iface{types.Typ[types.String], "<" + x.t.String() + ">"}
					}
				}
				cells[i] = c
			}
			o := g.w.newCells(types.NewInterfaceType(nil, nil), cells, "args")
			a = []Value{f, Slice{obj: o, len: len(cells), cap: len(cells), stride: 1}}
		}
		return g.interp(fi, a)
	})
	// randomness
	crnd := func(g *G, s Slice) {
		for i := 0; i < s.len; i++ {
			var v *Term
			if g.w.symCrand && !g.w.baseMode {
				v = g.w.newInput(fmt.Sprintf("crand%d", g.w.fresh), "crand", BV(8))
				g.w.fresh++
			} else {
				v = g.w.tc.Const(uint64(0x11+13*i)&0xff, 8)
			}
			g.store(Ptr{s.obj, s.off + i}, v, types.Typ[types.Uint8], nil)
		}
	}
	R("crypto/rand.Read", func(g *G, a []Value) Value {
		s := a[0].(Slice)
		if g.w.crandFail && !g.w.baseMode {
			return Tuple{g.i64(0), g.errorValue("no randomness")}
		}
		crnd(g, s)
		return Tuple{g.i64(int64(s.len)), Iface{}}
	})
	rnd63 := func(g *G) *Term {
		tc := g.w.tc
		if g.w.symRand && !g.w.baseMode {
			v := g.w.newInput(fmt.Sprintf("rand%d", g.w.fresh), "rand", BV(g.w.symRandBits()))
			g.w.fresh++
			return tc.ZExt(v, 64)
		}
		if g.w.baseMode {
			g.w.baseRand = g.w.baseRand*6364136223846793005 + 1442695040888963407
			return tc.Const(g.w.baseRand>>1, 64)
		}
		g.w.detRand = g.w.detRand*6364136223846793005 + 1442695040888963407
		return tc.Const(g.w.detRand>>1, 64)
	}
	R("math/rand.Int63", func(g *G, a []Value) Value { return rnd63(g) })
	R("math/rand.Int", func(g *G, a []Value) Value { return rnd63(g) })
	R("math/rand.Uint64", func(g *G, a []Value) Value { return g.w.tc.Bin(OShl, rnd63(g), g.i64(1)) })
	R("math/rand.Uint32", func(g *G, a []Value) Value { return g.w.tc.Extract(rnd63(g), 62, 31) })
	R("math/rand.Int31", func(g *G, a []Value) Value { return g.w.tc.ZExt(g.w.tc.Extract(rnd63(g), 62, 32), 32) })
	intn := func(g *G, a []Value) Value {
		return g.w.tc.Bin(OURem, rnd63(g), g.w.tc.Resize(asTerm(g, a[0]), 64, true))
	}
	R("math/rand.Intn", intn)
	R("math/rand.Int63n", intn)
	R("math/rand.Float64", func(g *G, a []Value) Value { return g.w.tc.F64(float64(g.conc(rnd63(g))>>10) / (1 << 53)) })
	// rand.New(rand.NewSource(seed)): an arbitrary stream
	R("math/rand.NewSource", func(g *G, a []Value) Value {
		return Iface{g.w.canon.canon(types.NewPointer(g.w.e.namedType("math/rand", "rngSource"))), Ptr{g.w.newObj(types.Typ[types.Int64], 1, "rngSource"), 0}}
	})
	R("(*math/rand.rngSource).Int63", func(g *G, a []Value) Value { return rnd63(g) })
	R("(*math/rand.rngSource).Uint64", func(g *G, a []Value) Value { return g.w.tc.Bin(OShl, rnd63(g), g.i64(1)) })
	R("(*math/rand.rngSource).Seed", func(g *G, a []Value) Value { return nil })

	// os
	R("os.Getpid", func(g *G, a []Value) Value { return g.i64(4242) })
	R("os.Getppid", func(g *G, a []Value) Value { return g.i64(4241) })
	R("os.Getenv", func(g *G, a []Value) Value { return "" })
	R("syscall.Getenv", func(g *G, a []Value) Value { return Tuple{"", g.w.tc.F} })
	R("os.runtime_args", func(g *G, a []Value) Value { return Slice{stride: 1} })
	R("syscall.runtime_envs", func(g *G, a []Value) Value { return Slice{stride: 1} })
	R("os.Exit", func(g *G, a []Value) Value { panic(pathEnd{}) })
	R("internal/testlog.Open", func(g *G, a []Value) Value { return nil })
	R("internal/testlog.Getenv", func(g *G, a []Value) Value { return nil })

	// regexp on concrete expressions and inputs
	R("regexp.Compile", func(g *G, a []Value) Value {
		re, err := regexp.Compile(g.goString(a[0]))
		if err != nil {
			return Tuple{Ptr{}, g.errorValue(err.Error())}
		}
		o := g.w.newObj(g.w.e.namedType("regexp", "Regexp"), 1, "regexp")
		o.native = re
		return Tuple{Ptr{o, 0}, Iface{}}
	})
	R("regexp.MustCompile", func(g *G, a []Value) Value {
		re, err := regexp.Compile(g.goString(a[0]))
		if err != nil {
			g.panicStr("regexp: Compile: " + err.Error())
		}
		o := g.w.newObj(g.w.e.namedType("regexp", "Regexp"), 1, "regexp")
		o.native = re
		return Ptr{o, 0}
	})
	rx := func(g *G, v Value) *regexp.Regexp {
		p := asPtr(g, v)
		if p.obj == nil {
			g.panicNil()
		}
		return p.obj.native.(*regexp.Regexp)
	}
	R("(*regexp.Regexp).MatchString", func(g *G, a []Value) Value { return g.w.tc.Bool(rx(g, a[0]).MatchString(g.goString(a[1]))) })
	R("(*regexp.Regexp).String", func(g *G, a []Value) Value { return rx(g, a[0]).String() })

	// encoding/json
	R("encoding/json.Marshal", func(g *G, a []Value) Value {
		var out []*Term
		if e := g.jsonEnc(a[0], &out, true); e != nil {
			return Tuple{Slice{stride: 1}, e}
		}
		return Tuple{g.mkBytes(out), Iface{}}
	})
	R("encoding/json.NewEncoder", func(g *G, a []Value) Value {
		o := g.w.newObj(g.w.e.namedType("encoding/json", "Encoder"), 1, "json.Encoder")
		o.native = a[0]
		return Ptr{o, 0}
	})
	R("(*encoding/json.Encoder).Encode", func(g *G, a []Value) Value {
		var out []*Term
		if e := g.jsonEnc(a[1], &out, true); e != nil {
			return e
		}
		out = append(out, g.w.tc.Const('\n', 8))
		wr := asPtr(g, a[0]).obj.native.(Iface)
		r := g.callMethod(wr, "Write", g.mkBytes(out)).(Tuple)
		return r[1]
	})

	// templates: literal text and {{.Field}} actions
	for _, pk := range []string{"text/template", "html/template"} {
		pk := pk
		R(pk+".New", func(g *G, a []Value) Value {
			o := g.w.newObj(g.w.e.namedType(pk, "Template"), 1, "template")
			o.native = &tmpl{name: g.goString(a[0])}
			return Ptr{o, 0}
		})
		R("(*"+pk+".Template).Parse", func(g *G, a []Value) Value {
			p := asPtr(g, a[0])
			t := p.obj.native.(*tmpl)
			m, err := parse.Parse(t.name, g.goString(a[1]), "", "", map[string]interface{}{})
			if err != nil {
				return Tuple{Ptr{}, g.errorValue(err.Error())}
			}
			o := g.w.newObj(g.w.e.namedType(pk, "Template"), 1, "template")
			o.native = &tmpl{name: t.name, tree: m[t.name], pkg: pk, src: g.goString(a[1])}
			return Tuple{Ptr{o, 0}, Iface{}}
		})
		R(pk+".Must", func(g *G, a []Value) Value {
			if e, ok := a[1].(Iface); ok && e.t != nil {
				panic(&GoPanic{val: e, where: g.where()})
			}
			return a[0]
		})
		R("(*"+pk+".Template).Execute", func(g *G, a []Value) Value {
			return g.execTmpl(asPtr(g, a[0]).obj.native.(*tmpl), a[1].(Iface), a[2].(Iface))
		})
	}
	R("net/http.init", func(g *G, a []Value) Value { return nil })
	R("unique.Make", func(g *G, a []Value) Value { panic(g.w.unsupported("unique.Make")) })
	// hash/crc32 table based: only the final checksum matters
	R("hash/crc32.ieeeInit", func(g *G, a []Value) Value { panic(g.w.unsupported("crc32 init")) })
	R("hash/crc32.NewIEEE", func(g *G, a []Value) Value {
		o := g.w.newObj(types.Typ[types.Uint32], 1, "crc32")
		return Iface{g.w.canon.canon(types.NewPointer(g.w.e.namedType("hash/crc32", "digest"))), Ptr{o, 0}}
	})
	R("(*hash/crc32.digest).Write", func(g *G, a []Value) Value {
		p := asPtr(g, a[0])
		b := g.bytesOf(a[1])
		tc := g.w.tc
		crc := tc.BNot(p.obj.cells[0].(*Term))
		for _, x := range b {
			crc = tc.Bin(OBXor, crc, tc.ZExt(x, 32))
			for k := 0; k < 8; k++ {
				lsb := tc.Eq(tc.Extract(crc, 0, 0), tc.Const(1, 1))
				sh := tc.Bin(OLShr, crc, tc.Const(1, 32))
				crc = tc.Ite(lsb, tc.Bin(OBXor, sh, tc.Const(0xedb88320, 32)), sh)
			}
		}
		p.obj.cells[0] = tc.BNot(crc)
		return Tuple{g.i64(int64(len(b))), Iface{}}
	})
	R("(*hash/crc32.digest).Sum32", func(g *G, a []Value) Value { return asPtr(g, a[0]).obj.cells[0] })
}

type tmpl struct {
	name string
	tree *parse.Tree
	pkg  string
	src  string
}

// native executes a template over a string with the real package, one case per
// value of the string.
func (t *tmpl) native(data string) (string, error) {
	var b strings.Builder
	if t.pkg == "html/template" {
		n, err := htmltemplate.New(t.name).Parse(t.src)
		if err == nil {
			err = n.Execute(&b, data)
		}
		return b.String(), err
	}
	n, err := texttemplate.New(t.name).Parse(t.src)
	if err == nil {
		err = n.Execute(&b, data)
	}
	return b.String(), err
}

func (g *G) writeTo(w Iface, v Value) Value {
	r := g.callMethod(w, "Write", g.mkBytes(g.w.strBytes(v))).(Tuple)
	return r[1]
}

// fmtSprint formats one value with the real fmt package.
func (g *G) fmtSprint(v Iface) Value {
	cells := []Value{v}
	o := g.w.newCells(types.NewInterfaceType(nil, nil), cells, "args")
	return g.callFn(g.w.e.funcByName("fmt", "Sprint"), []Value{Slice{obj: o, len: 1, cap: 1, stride: 1}}, nil, nil)
}

func (g *G) execTmpl(t *tmpl, w Iface, data Iface) Value {
	if data.t != nil && types.Identical(data.t, types.Typ[types.String]) {
		out, err := t.native(g.goString(data.v))
		if err != nil {
			return g.errorValue(err.Error())
		}
		return g.writeTo(w, out)
	}
	for _, n := range t.tree.Root.Nodes {
		var out Value
		switch n := n.(type) {
		case *parse.TextNode:
			out = string(n.Text)
		case *parse.ActionNode:
			f, ok := n.Pipe.Cmds[0].Args[0].(*parse.FieldNode)
			if !ok || len(n.Pipe.Cmds) != 1 || len(f.Ident) != 1 || len(n.Pipe.Decl) != 0 {
				panic(g.w.unsupported("template action %s", n))
			}
			v, ok := g.fieldByName(data, f.Ident[0])
			if !ok {
				panic(g.w.unsupported("template field %s", f.Ident[0]))
			}
			out = g.fmtSprint(v)
		default:
			panic(g.w.unsupported("template node %T", n))
		}
		if e, ok := g.writeTo(w, out).(Iface); ok && e.t != nil {
			return e
		}
	}
	return Iface{}
}

func (g *G) fieldByName(data Iface, name string) (Iface, bool) {
	v, t := data.v, data.t
	if p, ok := v.(Ptr); ok {
		t = elemType(t)
		v = g.load(p, t, nil)
	}
	if m, ok := v.(*MapObj); ok {
		e := g.mapFind(m, name)
		if e == nil {
			return Iface{}, false
		}
		if i, ok := e.v.(Iface); ok {
			return i, true
		}
		return Iface{g.w.canon.canon(m.typ.Elem()), e.v}, true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return Iface{}, false
	}
	l := g.w.layoutOf(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			fl := g.w.layoutOf(st.Field(i).Type())
			a := v.(Agg)
			var fv Value
			if fl.leaf {
				fv = a[l.fields[i]]
			} else {
				fv = Agg(a[l.fields[i] : l.fields[i]+fl.n])
			}
			if x, ok := fv.(Iface); ok {
				return x, true
			}
			return Iface{g.w.canon.canon(st.Field(i).Type()), fv}, true
		}
	}
	return Iface{}, false
}

// ---- JSON

func (g *G) jsonStr(v Value, out *[]*Term) {
	tc := g.w.tc
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			*out = append(*out, tc.Const(uint64(s[i]), 8))
		}
	}
	lit(`"`)
	if s, ok := v.(string); ok {
		for _, r := range s {
			switch {
			case r == '"' || r == '\\':
				lit(`\` + string(r))
			case r == '\n':
				lit(`\n`)
			case r == '\r':
				lit(`\r`)
			case r == '\t':
				lit(`\t`)
			case r == '\b':
				lit(`\b`)
			case r == '\f':
				lit(`\f`)
			case r < 0x20 || r == '<' || r == '>' || r == '&' || r == 0x2028 || r == 0x2029:
				lit(fmt.Sprintf(`\u%04x`, r))
			case r == 0xfffd:
				lit(`\ufffd`)
			default:
				lit(string(r))
			}
		}
		lit(`"`)
		return
	}
	bs := g.w.strBytes(v)
	between := func(i int, lo, hi byte) bool {
		return i < len(bs) && g.branch(tc.And(tc.Bin(OUle, tc.Const(uint64(lo), 8), bs[i]), tc.Bin(OUle, bs[i], tc.Const(uint64(hi), 8))))
	}
	cont := func(i int) bool { return between(i, 0x80, 0xbf) }
	// rune length of the valid encoding at i, or 0
	utf8len := func(i int) int {
		switch {
		case between(i, 0xc2, 0xdf):
			if cont(i + 1) {
				return 2
			}
		case between(i, 0xe0, 0xef):
			ok := false
			switch {
			case between(i, 0xe0, 0xe0):
				ok = between(i+1, 0xa0, 0xbf)
			case between(i, 0xed, 0xed):
				ok = between(i+1, 0x80, 0x9f)
			default:
				ok = cont(i + 1)
			}
			if ok && cont(i+2) {
				return 3
			}
		case between(i, 0xf0, 0xf4):
			ok := false
			switch {
			case between(i, 0xf0, 0xf0):
				ok = between(i+1, 0x90, 0xbf)
			case between(i, 0xf4, 0xf4):
				ok = between(i+1, 0x80, 0x8f)
			default:
				ok = cont(i + 1)
			}
			if ok && cont(i+2) && cont(i+3) {
				return 4
			}
		}
		return 0
	}
	skip := 0
	for i, b := range bs {
		if skip > 0 {
			skip--
			continue
		}
		if b.isConst() && b.v < 0x80 {
			var tmp []*Term
			g.jsonStr(string(rune(b.v)), &tmp)
			*out = append(*out, tmp[1:len(tmp)-1]...)
			continue
		}
		is := func(c byte) *Term { return tc.Eq(b, tc.Const(uint64(c), 8)) }
		special := tc.Or(tc.Bin(OUlt, b, tc.Const(0x20, 8)), tc.Or(tc.Bin(OUle, tc.Const(0x80, 8), b), tc.Or(is('"'), tc.Or(is('\\'), tc.Or(is('<'), tc.Or(is('>'), is('&')))))))
		if !g.branch(special) {
			*out = append(*out, b)
			continue
		}
		if g.branch(tc.Bin(OUle, tc.Const(0x80, 8), b)) {
			switch n := utf8len(i); {
			case n == 0:
				lit(`\ufffd`)
			case n == 3 && between(i, 0xe2, 0xe2) && between(i+1, 0x80, 0x80) && between(i+2, 0xa8, 0xa9):
				lit(fmt.Sprintf(`\u%04x`, 0x2000|g.concretize(bs[i+2])&0x3f))
				skip = 2
			default:
				*out = append(*out, bs[i:i+n]...)
				skip = n - 1
			}
			continue
		}
		if g.branch(tc.Or(is('"'), is('\\'))) {
			*out = append(*out, tc.Const('\\', 8), b)
			continue
		}
		var tmp []*Term
		g.jsonStr(string(rune(g.concretize(b))), &tmp)
		*out = append(*out, tmp[1:len(tmp)-1]...)
	}
	lit(`"`)
}

func jsonTag(tag string) (name string, omit, skip bool) {
	v := ""
	for _, f := range strings.Fields(tag) {
		if strings.HasPrefix(f, `json:"`) {
			v = strings.TrimSuffix(f[6:], `"`)
		}
	}
	if v == "-" {
		return "", false, true
	}
	parts := strings.Split(v, ",")
	for _, p := range parts[1:] {
		if p == "omitempty" {
			omit = true
		}
	}
	return parts[0], omit, false
}

// jsonEnc models json.Marshal; a non-nil result is the error.
func (g *G) jsonEnc(v Value, out *[]*Term, top bool) Value {
	i, ok := v.(Iface)
	if !ok {
		panic(g.w.unsupported("json of %T", v))
	}
	lit := func(s string) {
		for k := 0; k < len(s); k++ {
			*out = append(*out, g.w.tc.Const(uint64(s[k]), 8))
		}
	}
	if i.t == nil {
		lit("null")
		return nil
	}
	if p, isP := i.v.(Ptr); isP && p.obj == nil {
		lit("null")
		return nil
	}
	if g.hasMethod(i.t, "MarshalJSON") {
		r := g.callMethod(i, "MarshalJSON").(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		*out = append(*out, g.bytesOf(r[0])...)
		return nil
	}
	if g.hasMethod(i.t, "MarshalText") {
		panic(g.w.unsupported("json TextMarshaler %v", i.t))
	}
	sub := func(t types.Type, v Value) Value {
		if x, ok := v.(Iface); ok {
			return g.jsonEnc(x, out, false)
		}
		return g.jsonEnc(Iface{g.w.canon.canon(t), v}, out, false)
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			g.jsonStr(i.v, out)
		case u.Info()&types.IsBoolean != 0:
			if g.branch(asTerm(g, i.v)) {
				lit("true")
			} else {
				lit("false")
			}
		case u.Info()&types.IsInteger != 0:
			var s Value
			if u.Info()&types.IsUnsigned != 0 {
				s = g.callFn(g.w.e.funcByName("strconv", "FormatUint"), []Value{g.w.tc.Resize(asTerm(g, i.v), 64, false), g.i64(10)}, nil, nil)
			} else {
				s = g.callFn(g.w.e.funcByName("strconv", "FormatInt"), []Value{g.w.tc.Resize(asTerm(g, i.v), 64, true), g.i64(10)}, nil, nil)
			}
			*out = append(*out, g.w.strBytes(s)...)
		case u.Info()&types.IsFloat != 0:
			t := asTerm(g, i.v)
			f64 := g.w.tc.FtoF(t, 64)
			bad := g.w.tc.Or(g.w.tc.FNaN(f64), g.w.tc.Or(g.w.tc.FBin(OFEq, f64, g.w.tc.F64(math.Inf(1))), g.w.tc.FBin(OFEq, f64, g.w.tc.F64(math.Inf(-1)))))
			if g.branch(bad) {
				return g.errorValue("json: unsupported value: NaN or Inf")
			}
			if t.isConst() {
				f := fpv(t.v, int(t.sort.w))
				lit(jsonFloat(f, int(t.sort.w)))
			} else {
				// the digits do not matter to any property: a number literal
				lit("0.5")
			}
		default:
			panic(g.w.unsupported("json of %v", i.t))
		}
	case *types.Pointer:
		p := i.v.(Ptr)
		return sub(u.Elem(), g.load(p, u.Elem(), nil))
	case *types.Struct:
		l := g.w.layoutOf(i.t)
		a := i.v.(Agg)
		lit("{")
		first := true
		for k := 0; k < u.NumFields(); k++ {
			f := u.Field(k)
			if !f.Exported() {
				continue
			}
			if f.Embedded() {
				panic(g.w.unsupported("json embedded field"))
			}
			name, omit, skip := jsonTag(u.Tag(k))
			if skip {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			fl := g.w.layoutOf(f.Type())
			var fv Value
			if fl.leaf {
				fv = a[l.fields[k]]
			} else {
				fv = Agg(a[l.fields[k] : l.fields[k]+fl.n])
			}
			if omit && g.jsonEmpty(fv) {
				continue
			}
			if !first {
				lit(",")
			}
			first = false
			g.jsonStr(name, out)
			lit(":")
			if e := sub(f.Type(), fv); e != nil {
				return e
			}
		}
		lit("}")
	case *types.Slice:
		s := i.v.(Slice)
		if s.obj == nil {
			lit("null")
			return nil
		}
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			panic(g.w.unsupported("json []byte"))
		}
		n := g.w.layoutOf(u.Elem()).n
		lit("[")
		for k := 0; k < s.len; k++ {
			if k > 0 {
				lit(",")
			}
			if e := sub(u.Elem(), g.load(Ptr{s.obj, s.off + k*n}, u.Elem(), nil)); e != nil {
				return e
			}
		}
		lit("]")
	case *types.Array:
		a, _ := i.v.(Agg)
		fl := g.w.layoutOf(u.Elem())
		lit("[")
		for k := 0; k < int(u.Len()); k++ {
			if k > 0 {
				lit(",")
			}
			var ev Value
			if fl.leaf {
				ev = a[k]
			} else {
				ev = Agg(a[k*fl.n : (k+1)*fl.n])
			}
			if e := sub(u.Elem(), ev); e != nil {
				return e
			}
		}
		lit("]")
	case *types.Map:
		m := i.v.(*MapObj)
		if m == nil {
			lit("null")
			return nil
		}
		var ents []*mapEntry
		for _, e := range m.ents {
			if !e.deleted {
				ents = append(ents, e)
			}
		}
		// sorted by key
		for x := 1; x < len(ents); x++ {
			for y := x; y > 0; y-- {
				if !g.branch(g.w.strLess(ents[y].k, ents[y-1].k)) {
					break
				}
				ents[y], ents[y-1] = ents[y-1], ents[y]
			}
		}
		lit("{")
		for k, e := range ents {
			if k > 0 {
				lit(",")
			}
			g.jsonStr(e.k, out)
			lit(":")
			if er := sub(u.Elem(), e.v); er != nil {
				return er
			}
		}
		lit("}")
	case *types.Interface:
		lit("null")
	default:
		return g.errorValue("json: unsupported type: " + goTypeString(i.t))
	}
	return nil
}

func jsonFloat(f float64, bits int) string {
	abs := math.Abs(f)
	format := byte('f')
	if abs != 0 && (bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21)) {
		format = 'e'
	}
	s := fmtFloat(f, format, bits)
	if format == 'e' {
		n := len(s)
		if n >= 4 && s[n-4] == 'e' && (s[n-3] == '-' || s[n-3] == '+') && s[n-2] == '0' {
			s = s[:n-2] + s[n-1:]
		}
	}
	return s
}

func (g *G) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.obj == nil
	case Iface:
		return x.t == nil
	case Slice:
		return x.len == 0
	case *MapObj:
		return x == nil || x.n == 0
	case string, *SymStr:
		return strLen(x) == 0
	case *Term:
		if x.sort.k == 2 {
			return g.branch(g.w.tc.FBin(OFEq, x, g.w.tc.constOf(x.sort, 0)))
		}
		if x.sort.k == 0 {
			return !g.branch(x)
		}
		return g.branch(g.w.tc.Eq(x, g.w.tc.constOf(x.sort, 0)))
	}
	return false
}

// symRandBits is the width of the symbolic part of a random number.
func (w *Worker) symRandBits() int {
	if w.randBits > 0 {
		return w.randBits
	}
	return 63
}
