package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
)

func fmtFloat(f float64, format byte, bits int) string {
	return strconv.FormatFloat(f, format, -1, bits)
}

// envFill overwrites the scalar cells of an environment structure.
func (g *G) envFill(p Ptr, pkg, name string) {
	t := g.w.e.namedType(pkg, name)
	n := g.w.layoutOf(t).n
	g.w.touch(p.obj)
	for i := 0; i < n; i++ {
		g.access(p.obj, p.off+i, 1, true, nil)
		if c, ok := p.obj.cells[p.off+i].(*Term); ok && c.sort.k == 1 {
			g.w.envN++
			p.obj.cells[p.off+i] = g.w.tc.Const(uint64(g.w.envN*7), int(c.sort.w))
		}
	}
}

func regVrf() {
	R := func(n string, f func(g *G, a []Value) Value) {
		reg("vrf."+n, func(g *G, fi *FuncInfo, a []Value) Value { return f(g, a) })
	}
	scalar := func(n string, wd int) {
		R(n, func(g *G, a []Value) Value { return g.w.newInput(g.goString(a[0]), n, BV(wd)) })
	}
	scalar("Int64", 64)
	scalar("Int", 64)
	scalar("Uint64", 64)
	scalar("Int32", 32)
	scalar("Uint32", 32)
	scalar("Int16", 16)
	scalar("Int8", 8)
	scalar("Byte", 8)
	R("Bool", func(g *G, a []Value) Value {
		v := g.w.newInput(g.goString(a[0]), "Bool", BV(1))
		return g.w.tc.Eq(v, g.w.tc.Const(1, 1))
	})
	R("Float64", func(g *G, a []Value) Value {
		return g.w.tc.BitsF(g.w.newInput(g.goString(a[0]), "Float64", BV(64)))
	})
	R("Float32", func(g *G, a []Value) Value {
		return g.w.tc.BitsF(g.w.newInput(g.goString(a[0]), "Float32", BV(32)))
	})
	// bounded integers are narrow variables, which keeps the queries small
	R("IntRange", func(g *G, a []Value) Value {
		lo, hi := int64(g.conc(a[1])), int64(g.conc(a[2]))
		tc := g.w.tc
		if lo == hi {
			return g.i64(lo)
		}
		span := uint64(hi - lo)
		wd := 1
		for wd < 64 && (span>>uint(wd)) != 0 {
			wd++
		}
		v := g.w.newInput(g.goString(a[0]), "IntRange", BV(wd))
		if span != mask(wd) {
			g.assume(tc.Bin(OUle, v, tc.Const(span, wd)))
		}
		if wd == 64 {
			return tc.Bin(OAdd, v, g.i64(lo))
		}
		return tc.Bin(OAdd, tc.ZExt(v, 64), g.i64(lo))
	})
	R("Choose", func(g *G, a []Value) Value {
		return g.i64(int64(g.choose("choose", int(g.conc(a[1])))))
	})
	str := func(g *G, name string, n int) []*Term {
		b := make([]*Term, n)
		for i := range b {
			b[i] = g.w.newInput(fmt.Sprintf("%s[%d]", name, i), "Byte", BV(8))
		}
		return b
	}
	R("StringN", func(g *G, a []Value) Value { return mkStr(str(g, g.goString(a[0]), int(g.conc(a[1])))) })
	R("String", func(g *G, a []Value) Value {
		n := g.choose("choose", int(g.conc(a[1]))+1)
		return mkStr(str(g, g.goString(a[0]), n))
	})
	// StringOf: fixed length, bytes drawn from an alphabet
	R("StringOf", func(g *G, a []Value) Value {
		b := str(g, g.goString(a[0]), int(g.conc(a[1])))
		al := g.goString(a[2])
		tc := g.w.tc
		for _, x := range b {
			c := tc.F
			for i := 0; i < len(al); i++ {
				c = tc.Or(c, tc.Eq(x, tc.Const(uint64(al[i]), 8)))
			}
			g.assume(c)
		}
		return mkStr(b)
	})
	R("Assume", func(g *G, a []Value) Value { g.assume(asTerm(g, a[0])); return nil })
	R("Assert", func(g *G, a []Value) Value {
		g.w.sawAssert = true
		g.assert(asTerm(g, a[0]), g.goString(a[1]))
		return nil
	})
	R("Fail", func(g *G, a []Value) Value {
		g.w.sawAssert = true
		g.assert(g.w.tc.F, g.goString(a[0]))
		return nil
	})
	R("Reach", func(g *G, a []Value) Value { g.w.reach[g.goString(a[0])] = true; return nil })
	R("Stop", func(g *G, a []Value) Value { panic(pathEnd{}) })
	sl := func(g *G, v Value) []*Term {
		s := v.(Slice)
		var r []*Term
		for i := 0; i < s.len; i++ {
			r = append(r, asTerm(g, s.obj.cells[s.off+i]))
		}
		return r
	}
	R("And", func(g *G, a []Value) Value {
		r := g.w.tc.T
		for _, t := range sl(g, a[0]) {
			r = g.w.tc.And(r, t)
		}
		return r
	})
	R("Or", func(g *G, a []Value) Value {
		r := g.w.tc.F
		for _, t := range sl(g, a[0]) {
			r = g.w.tc.Or(r, t)
		}
		return r
	})
	R("Implies", func(g *G, a []Value) Value { return g.w.tc.Or(g.w.tc.Not(asTerm(g, a[0])), asTerm(g, a[1])) })
	R("Iff", func(g *G, a []Value) Value { return g.w.tc.Eq(asTerm(g, a[0]), asTerm(g, a[1])) })
	ite := func(g *G, a []Value) Value { return g.w.tc.Ite(asTerm(g, a[0]), asTerm(g, a[1]), asTerm(g, a[2])) }
	for _, n := range []string{"IteInt64", "IteInt", "IteFloat64", "IteFloat32", "IteUint64", "IteBool", "IteDuration"} {
		R(n, ite)
	}
	// EqF: same float64 (bitwise up to NaN payload); also +0 vs -0 differ
	R("SameF", func(g *G, a []Value) Value { return g.w.tc.Eq(asTerm(g, a[0]), asTerm(g, a[1])) })
	R("EqStr", func(g *G, a []Value) Value { return g.w.strEq(a[0], a[1]) })
	R("Bound", func(g *G, a []Value) Value {
		n := g.goString(a[0])
		v := g.conc(a[1])
		if g.w.e.thorough {
			v = g.conc(a[2])
		}
		g.w.e.mu.Lock()
		g.w.e.bounds[n] = int64(v)
		g.w.e.mu.Unlock()
		return g.i64(int64(v))
	})
	R("Thorough", func(g *G, a []Value) Value { return g.w.tc.Bool(g.w.e.thorough) })
	R("Parallel", func(g *G, a []Value) Value {
		s := a[0].(Slice)
		w := g.w
		var kids []*G
		w.noSched++
		for i := 0; i < s.len; i++ {
			c := s.obj.cells[s.off+i].(*Closure)
			n := len(w.gs)
			g.spawn(deferred{clo: c, in: g.top.cur})
			kids = append(kids, w.gs[n])
		}
		w.noSched--
		g.nvis++
		g.block("Parallel", func() bool {
			for _, k := range kids {
				if !k.done {
					return false
				}
			}
			return true
		})
		for _, k := range kids {
			g.vc.join(k.vc)
		}
		return nil
	})
	R("Tick", func(g *G, a []Value) Value { g.tick(); return nil })
	// Settle lets every other goroutine run until it blocks or ends.
	R("Settle", func(g *G, a []Value) Value {
		w := g.w
		settled := func() bool {
			for _, o := range w.gs {
				if o != g && !o.settling && o.runnable() {
					return false
				}
			}
			return true
		}
		g.nvis++
		if !settled() {
			g.settling = true
			g.block("Settle", settled)
			g.settling = false
		}
		return nil
	})
	R("Find", func(g *G, a []Value) Value {
		b := g.bytesOf(a[0])
		text := g.goString(a[1])
		for i := int(g.conc(a[2])); i+len(text) <= len(b); i++ {
			ok := true
			for j := 0; j < len(text) && ok; j++ {
				t := b[i+j]
				ok = t.isConst() && byte(t.v) == text[j]
			}
			if ok {
				return g.i64(int64(i + len(text)))
			}
		}
		return g.i64(-1)
	})
	R("Known", func(g *G, a []Value) Value { return g.w.tc.Bool(a[0].(*Term).isConst()) })
	R("Holds", func(g *G, a []Value) Value {
		tp, ok := a[1].(Iface).v.(Ptr)
		if !ok {
			panic(g.w.unsupported("Holds of something that is not a pointer"))
		}
		return g.w.tc.Bool(reaches(a[0], tp.obj))
	})
	// Blocked reports whether some other goroutine is blocked (not merely asleep).
	R("Goroutines", func(g *G, a []Value) Value {
		n := 0
		for _, o := range g.w.gs {
			if !o.done && o != g {
				n++
			}
		}
		return g.i64(int64(n))
	})
	R("Sleepers", func(g *G, a []Value) Value {
		n := 0
		for _, o := range g.w.gs {
			if !o.done && o.sleep {
				n++
			}
		}
		return g.i64(int64(n))
	})
	R("ActiveTimers", func(g *G, a []Value) Value {
		n := 0
		for _, t := range g.w.timers {
			if t.active {
				n++
			}
		}
		return g.i64(int64(n))
	})
	R("Observe", func(g *G, a []Value) Value {
		v := a[1].(Iface)
		g.w.observe = append(g.w.observe, obsRec{g.goString(a[0]), v.v})
		return nil
	})
	R("SymClock", func(g *G, a []Value) Value {
		g.w.clock.sym = true
		g.w.clock.bits = int(g.conc(a[0]))
		if g.w.clock.now == nil {
			g.w.clock.now = g.i64(clockBase)
		}
		return nil
	})
	R("FreezeClock", func(g *G, a []Value) Value { g.w.clock.frozen = g.branch(asTerm(g, a[0])); return nil })
	R("AdvanceClock", func(g *G, a []Value) Value {
		g.w.clock.now = g.w.tc.Bin(OAdd, g.readClockQuiet(), asTerm(g, a[0]))
		return nil
	})
	R("JumpWall", func(g *G, a []Value) Value {
		c := &g.w.clock
		d := asTerm(g, a[0])
		if n := len(c.jumps); n > 0 {
			d = g.w.tc.Bin(OAdd, c.jumps[n-1], d)
		}
		c.jumps = append(c.jumps, d)
		return nil
	})
	// ClockNow is the last reading handed out.
	R("ClockNow", func(g *G, a []Value) Value { return g.mkTime(g.readClockQuiet()) })
	R("ConcIndex", func(g *G, a []Value) Value { g.w.concIdx = g.branch(asTerm(g, a[0])); return nil })
	R("SymRandBits", func(g *G, a []Value) Value {
		g.w.randBits = int(g.conc(asTerm(g, a[0])))
		g.w.symRand = true
		return nil
	})
	R("SymRand", func(g *G, a []Value) Value { g.w.symRand = g.branch(asTerm(g, a[0])); return nil })
	R("SymCrand", func(g *G, a []Value) Value { g.w.symCrand = g.branch(asTerm(g, a[0])); return nil })
	R("FailCrand", func(g *G, a []Value) Value { g.w.crandFail = g.branch(asTerm(g, a[0])); return nil })
	R("MapOrder", func(g *G, a []Value) Value { g.w.mapOrder = g.branch(asTerm(g, a[0])); return nil })
	R("Races", func(g *G, a []Value) Value { g.w.races = g.branch(asTerm(g, a[0])); return nil })
	R("Preempt", func(g *G, a []Value) Value {
		v := int(g.conc(a[0]))
		if g.w.e.thorough {
			v = int(g.conc(a[1]))
		}
		g.w.preemptBound = v
		g.w.e.mu.Lock()
		g.w.e.bounds["preemptions"] = int64(v)
		g.w.e.mu.Unlock()
		return nil
	})
	R("FakeCaller", func(g *G, a []Value) Value {
		g.w.fakeCaller = a[0]
		if s, ok := a[0].(string); ok && s == "" {
			g.w.fakeCaller = nil
		}
		return nil
	})
	R("Inlined", func(g *G, a []Value) Value { g.w.inlined = g.branch(asTerm(g, a[0])); return nil })
	// Reinit runs a package's variable initialisers and init functions again.
	R("Reinit", func(g *G, a []Value) Value {
		path := g.goString(a[0])
		p := g.w.e.prog.ImportedPackage(path)
		if p == nil {
			panic(g.w.unsupported("Reinit of %s", path))
		}
		fi := g.w.info(p.Func("init"))
		g.w.compile(fi)
		fr := &frame{g: g, fi: fi, regs: make([]Value, fi.nslots), caller: g.top}
		saved := g.top
		g.top = fr
		g.execInit(fr)
		g.top = saved
		return nil
	})
	R("NoSched", func(g *G, a []Value) Value {
		if g.branch(asTerm(g, a[0])) {
			g.w.noSched++
		} else if g.w.noSched > 0 {
			g.w.noSched--
		}
		return nil
	})
	R("Yield", func(g *G, a []Value) Value { return nil }) // the scheduling point is maybeSched's
	R("Symbolic", func(g *G, a []Value) Value { return g.w.tc.T })
	R("IsNaN", func(g *G, a []Value) Value { return g.w.tc.FNaN(asTerm(g, a[0])) })
	// Finite: neither NaN nor infinite
	R("Finite", func(g *G, a []Value) Value {
		x := asTerm(g, a[0])
		tc := g.w.tc
		return tc.And(tc.FBin(OFLe, x, tc.F64(math.MaxFloat64)), tc.FBin(OFLe, tc.F64(-math.MaxFloat64), x))
	})
	R("Try", func(g *G, a []Value) Value {
		// calls f; reports whether it panicked and with what
		c := a[0].(*Closure)
		var rec *GoPanic
		depth, top := g.depth, g.top
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*GoPanic)
					if !ok {
						panic(r)
					}
					rec = gp
				}
			}()
			g.callClosure(c, nil)
		}()
		g.depth, g.top = depth, top
		if rec == nil {
			return Tuple{Iface{}, g.w.tc.F}
		}
		return Tuple{rec.val, g.w.tc.T}
	})
	_ = types.Typ
}

// reaches reports whether the object target can be reached from v.
func reaches(v Value, target *Obj) bool {
	seen := map[interface{}]bool{}
	var walk func(v Value) bool
	obj := func(o *Obj) bool {
		if o == nil || seen[o] {
			return false
		}
		if o == target {
			return true
		}
		seen[o] = true
		for _, c := range o.cells {
			if walk(c) {
				return true
			}
		}
		return false
	}
	list := func(vs []Value) bool {
		for _, c := range vs {
			if walk(c) {
				return true
			}
		}
		return false
	}
	walk = func(v Value) bool {
		switch x := v.(type) {
		case Ptr:
			return obj(x.obj)
		case *SPtr:
			return obj(x.obj)
		case Slice:
			return obj(x.obj)
		case Iface:
			return x.t != nil && walk(x.v)
		case Agg:
			return list(x)
		case Tuple:
			return list(x)
		case *Closure:
			if x == nil || seen[x] {
				return false
			}
			seen[x] = true
			return list(x.binds)
		case *MapObj:
			if x == nil || seen[x] {
				return false
			}
			seen[x] = true
			for _, e := range x.ents {
				if !e.deleted && (walk(e.k) || walk(e.v)) {
					return true
				}
			}
		case *ChanObj:
			if x == nil || seen[x] {
				return false
			}
			seen[x] = true
			return list(x.buf)
		}
		return false
	}
	return walk(v)
}
