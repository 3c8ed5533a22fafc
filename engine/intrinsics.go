package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An intrinsic replaces a function by an engine model.
type intrinsic func(g *G, fi *FuncInfo, args []Value) Value

var intrTable = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrTable[name] = f }

func (w *Worker) lookupIntrinsic(fi *FuncInfo) intrinsic {
	if strings.HasPrefix(fi.name, w.e.vrfPkg+".") {
		if f, ok := intrTable["vrf."+fi.name[len(w.e.vrfPkg)+1:]]; ok {
			return f
		}
		return nil
	}
	if f, ok := intrTable[fi.name]; ok {
		if !strings.HasPrefix(fi.name, "internal/bytealg.") {
			w.e.noteStub(fi.name)
		}
		return f
	}
	return nil
}

func (e *Engine) noteStub(n string) {
	e.mu.Lock()
	e.stubSeen[n] = true
	e.mu.Unlock()
}

func asTerm(g *G, v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(g.w.unsupported("expected scalar, got %T %s", v, poisonWhy(v)))
	}
	return t
}

func asPtr(g *G, v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case *SPtr:
		return g.concPtr(p)
	}
	panic(g.w.unsupported("expected pointer, got %T %s", v, poisonWhy(v)))
}

func (g *G) i64(n int64) *Term { return g.w.tc.Const(uint64(n), 64) }

func nop(g *G, fi *FuncInfo, args []Value) Value { return nil }

func init() {
	regSync()
	regAtomic()
	regRuntime()
	regMath()
	regBytealg()
	regStrconv()
	regTime()
	regReflect()
	regMisc()
	regVrf()
}

// ---- sync

func regSync() {
	for _, pk := range []string{"sync", "internal/sync"} {
		reg("(*"+pk+".Mutex).Lock", func(g *G, fi *FuncInfo, a []Value) Value { g.lock(asPtr(g, a[0])); return nil })
		reg("(*"+pk+".Mutex).TryLock", func(g *G, fi *FuncInfo, a []Value) Value { return g.w.tc.Bool(g.tryLock(asPtr(g, a[0]))) })
		reg("(*"+pk+".Mutex).Unlock", func(g *G, fi *FuncInfo, a []Value) Value {
			g.unlock(asPtr(g, a[0]), "sync: unlock of unlocked mutex")
			return nil
		})
	}
	reg("(*sync.RWMutex).Lock", func(g *G, fi *FuncInfo, a []Value) Value { g.lock(asPtr(g, a[0])); return nil })
	reg("(*sync.RWMutex).TryLock", func(g *G, fi *FuncInfo, a []Value) Value { return g.w.tc.Bool(g.tryLock(asPtr(g, a[0]))) })
	reg("(*sync.RWMutex).Unlock", func(g *G, fi *FuncInfo, a []Value) Value {
		g.unlock(asPtr(g, a[0]), "sync: Unlock of unlocked RWMutex")
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(g *G, fi *FuncInfo, a []Value) Value { g.rlock(asPtr(g, a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(g *G, fi *FuncInfo, a []Value) Value { g.runlock(asPtr(g, a[0])); return nil })
	reg("(*sync.RWMutex).TryRLock", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		m := g.w.mutex(p)
		if m.locked || m.wwait > 0 {
			return g.w.tc.F
		}
		g.rlock(p)
		return g.w.tc.T
	})
	// WaitGroup: the counter lives in the lock table
	wgAdd := func(g *G, p Ptr, d int) {
		m := g.w.mutex(p)
		m.readers += d
		g.w.progress++
		if m.readers < 0 {
			g.panicStr("sync: negative WaitGroup counter")
		}
		if d < 0 {
			g.release(&m.vc)
		}
	}
	reg("(*sync.WaitGroup).Add", func(g *G, fi *FuncInfo, a []Value) Value {
		wgAdd(g, asPtr(g, a[0]), int(int64(g.conc(a[1]))))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(g *G, fi *FuncInfo, a []Value) Value {
		wgAdd(g, asPtr(g, a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(g *G, fi *FuncInfo, a []Value) Value {
		m := g.w.mutex(asPtr(g, a[0]))
		g.block("WaitGroup.Wait", func() bool { return m.readers == 0 })
		g.acquire(&m.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		wgAdd(g, p, 1)
		f := a[1].(*Closure)
		g.spawn(deferred{clo: &Closure{name: "WaitGroup.Go", native: func(g2 *G, _ []Value) Value {
			g2.callClosure(f, nil)
			wgAdd(g2, p, -1)
			return nil
		}}, in: g.top.cur})
		return nil
	})
	// Pool
	reg("(*sync.Pool).Get", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		if s := g.w.pools[p]; s != nil && len(*s) > 0 {
			v := (*s)[len(*s)-1]
			*s = (*s)[:len(*s)-1]
			g.acquire(g.w.syncVC(p))
			return v
		}
		// the New field is the last one
		l := len(p.obj.cells)
		_ = l
		pt := g.w.layoutOf(g.w.e.namedType("sync", "Pool"))
		c, _ := p.obj.cells[p.off+pt.n-1].(*Closure)
		if c == nil {
			return Iface{}
		}
		return g.callClosure(c, nil)
	})
	reg("(*sync.Pool).Put", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		if g.w.baseMode {
			return nil
		}
		s := g.w.pools[p]
		if s == nil {
			s = &[]Value{}
			g.w.pools[p] = s
		}
		*s = append(*s, a[1])
		g.release(g.w.syncVC(p))
		return nil
	})
	// Map
	anyT := types.NewInterfaceType(nil, nil)
	mapOf := func(g *G, p Ptr) *MapObj {
		if m := g.w.syncMaps[p]; m != nil {
			return m
		}
		if m := g.w.baseSyncMaps[p]; m != nil {
			return m
		}
		m := g.w.newMap(types.NewMap(anyT, anyT))
		if g.w.baseMode {
			g.w.baseSyncMaps[p] = m
		} else {
			g.w.syncMaps[p] = m
		}
		return m
	}
	both := func(g *G, p Ptr) {
		v := g.w.syncVC(p)
		g.acquire(v)
		g.release(v)
		g.w.progress++
	}
	reg("(*sync.Map).Load", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		g.acquire(g.w.syncVC(p))
		if e := g.mapFind(mapOf(g, p), a[1]); e != nil {
			return Tuple{e.v, g.w.tc.T}
		}
		return Tuple{Iface{}, g.w.tc.F}
	})
	reg("(*sync.Map).Store", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		both(g, p)
		g.mapSet(mapOf(g, p), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		both(g, p)
		m := mapOf(g, p)
		if e := g.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, g.w.tc.T}
		}
		g.mapSet(m, a[1], a[2])
		return Tuple{a[2], g.w.tc.F}
	})
	reg("(*sync.Map).LoadAndDelete", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		both(g, p)
		m := mapOf(g, p)
		if e := g.mapFind(m, a[1]); e != nil {
			v := e.v
			g.mapDelete(m, a[1])
			return Tuple{v, g.w.tc.T}
		}
		return Tuple{Iface{}, g.w.tc.F}
	})
	reg("(*sync.Map).Delete", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		both(g, p)
		g.mapDelete(mapOf(g, p), a[1])
		return nil
	})
	reg("(*sync.Map).Swap", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		both(g, p)
		m := mapOf(g, p)
		r := Tuple{Iface{}, g.w.tc.F}
		if e := g.mapFind(m, a[1]); e != nil {
			r = Tuple{e.v, g.w.tc.T}
		}
		g.mapSet(m, a[1], a[2])
		return r
	})
	reg("(*sync.Map).CompareAndSwap", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		both(g, p)
		m := mapOf(g, p)
		if e := g.mapFind(m, a[1]); e != nil && g.branch(g.eq(e.v, a[2], anyT)) {
			g.mapSet(m, a[1], a[3])
			return g.w.tc.T
		}
		return g.w.tc.F
	})
	reg("(*sync.Map).CompareAndDelete", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		both(g, p)
		m := mapOf(g, p)
		if e := g.mapFind(m, a[1]); e != nil && g.branch(g.eq(e.v, a[2], anyT)) {
			g.mapDelete(m, a[1])
			return g.w.tc.T
		}
		return g.w.tc.F
	})
	reg("(*sync.Map).Clear", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		both(g, p)
		m := mapOf(g, p)
		for _, e := range append([]*mapEntry(nil), m.ents...) {
			if !e.deleted {
				g.mapDelete(m, e.k)
			}
		}
		return nil
	})
	reg("(*sync.Map).Range", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		g.acquire(g.w.syncVC(p))
		m := mapOf(g, p)
		f := a[1].(*Closure)
		for _, e := range append([]*mapEntry(nil), m.ents...) {
			if e.deleted {
				continue
			}
			r := g.callClosure(f, []Value{e.k, e.v})
			if !g.branch(asTerm(g, r)) {
				break
			}
		}
		return nil
	})
	// Cond: source uses runtime notify lists
	reg("(*sync.Cond).Wait", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		ct := g.w.layoutOf(g.w.e.namedType("sync", "Cond"))
		l := p.obj.cells[p.off+ct.fields[1]].(Iface)
		cs := g.w.condState(p)
		me := cs.next
		cs.next++
		g.callMethod(l, "Unlock")
		g.block("Cond.Wait", func() bool { return cs.served > me })
		g.acquire(g.w.syncVC(p))
		g.callMethod(l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		cs := g.w.condState(p)
		g.release(g.w.syncVC(p))
		if cs.served < cs.next {
			cs.served++
		}
		g.w.progress++
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		cs := g.w.condState(p)
		g.release(g.w.syncVC(p))
		cs.served = cs.next
		g.w.progress++
		return nil
	})
	for _, n := range []string{"sync.runtime_registerPoolCleanup", "sync.throw", "sync.fatal", "(*sync.copyChecker).check",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"internal/msan.Read", "internal/asan.Read", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "(*internal/godebug.Setting).IncNonDefault",
		"internal/godebug.registerMetric", "internal/runtime/sys.Prefetch"} {
		reg(n, nop)
	}
	reg("internal/godebug.New", func(g *G, fi *FuncInfo, a []Value) Value { return Ptr{} })
	reg("(*internal/godebug.Setting).Value", func(g *G, fi *FuncInfo, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).Name", func(g *G, fi *FuncInfo, a []Value) Value { return "" })
}

type condSt struct{ next, served int }

func (w *Worker) condState(p Ptr) *condSt {
	k := fmt.Sprintf("cond%p+%d", p.obj, p.off)
	c, _ := w.natSt[k].(*condSt)
	if c == nil {
		c = &condSt{}
		w.natSt[k] = c
	}
	return c
}

func (g *G) panicStr(s string) {
	panic(&GoPanic{val: Iface{g.w.canon.canon(types.Typ[types.String]), s}, where: g.where()})
}

// ---- sync/atomic

func regAtomic() {
	kinds := []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"}
	chk := func(g *G, v Value) Ptr {
		p := asPtr(g, v)
		if p.obj == nil {
			g.panicNil()
		}
		return p
	}
	load := func(g *G, p Ptr) Value {
		g.accessAtomic(p, false)
		g.acquire(g.w.syncVC(p))
		return p.obj.cells[p.off]
	}
	store := func(g *G, p Ptr, v Value) {
		g.accessAtomic(p, true)
		g.w.touch(p.obj)
		p.obj.cells[p.off] = v
		g.acquire(g.w.syncVC(p))
		g.release(g.w.syncVC(p))
		g.w.progress++
	}
	for _, k := range kinds {
		k := k
		names := func(op string) []string {
			r := []string{"sync/atomic." + op + k}
			m := map[string]string{"Int32": "int32", "Int64": "int64", "Uint32": "", "Uint64": "64", "Uintptr": "uintptr", "Pointer": "p"}
			_ = m
			return r
		}
		rg := func(op string, f intrinsic) {
			for _, n := range names(op) {
				reg(n, f)
			}
		}
		rg("Load", func(g *G, fi *FuncInfo, a []Value) Value { return load(g, chk(g, a[0])) })
		rg("Store", func(g *G, fi *FuncInfo, a []Value) Value { store(g, chk(g, a[0]), a[1]); return nil })
		rg("Swap", func(g *G, fi *FuncInfo, a []Value) Value {
			p := chk(g, a[0])
			old := load(g, p)
			store(g, p, a[1])
			return old
		})
		rg("CompareAndSwap", func(g *G, fi *FuncInfo, a []Value) Value {
			p := chk(g, a[0])
			cur := load(g, p)
			if !g.branch(g.eq(cur, a[1], nil)) {
				return g.w.tc.F
			}
			store(g, p, a[2])
			return g.w.tc.T
		})
		arith := func(op Op, ret bool) intrinsic {
			return func(g *G, fi *FuncInfo, a []Value) Value {
				p := chk(g, a[0])
				cur := asTerm(g, load(g, p))
				nv := g.w.tc.Bin(op, cur, asTerm(g, a[1]))
				store(g, p, nv)
				if ret {
					return nv
				}
				return cur
			}
		}
		rg("Add", arith(OAdd, true))
		rg("And", arith(OBAnd, false))
		rg("Or", arith(OBOr, false))
	}
	// atomic.Value
	vtype := func(g *G, v Value) Iface { return v.(Iface) }
	reg("(*sync/atomic.Value).Load", func(g *G, fi *FuncInfo, a []Value) Value { return load(g, chk(g, a[0])) })
	vchk := func(g *G, p Ptr, nv Iface, what string) {
		if nv.t == nil {
			g.panicStr("sync/atomic: " + what + " of nil value into Value")
		}
		if old := vtype(g, p.obj.cells[p.off]); old.t != nil && old.t != nv.t {
			g.panicStr("sync/atomic: " + what + " of inconsistently typed value into Value")
		}
	}
	reg("(*sync/atomic.Value).Store", func(g *G, fi *FuncInfo, a []Value) Value {
		p := chk(g, a[0])
		vchk(g, p, vtype(g, a[1]), "store")
		store(g, p, a[1])
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(g *G, fi *FuncInfo, a []Value) Value {
		p := chk(g, a[0])
		vchk(g, p, vtype(g, a[1]), "swap")
		old := load(g, p)
		store(g, p, a[1])
		return old
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(g *G, fi *FuncInfo, a []Value) Value {
		p := chk(g, a[0])
		vchk(g, p, vtype(g, a[2]), "compare and swap")
		cur := load(g, p)
		if !g.branch(g.eq(cur, a[1], nil)) {
			return g.w.tc.F
		}
		store(g, p, a[2])
		return g.w.tc.T
	})
}

// ---- runtime

// runtimeName converts an SSA function to the name runtime would report.
func runtimeName(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		// anonymous function: Outer$1 -> Outer.func1
		n := fn.Name()
		if i := strings.LastIndexByte(n, '$'); i >= 0 {
			if p.Parent() != nil {
				return runtimeName(p) + "." + n[i+1:]
			}
			return runtimeName(p) + ".func" + n[i+1:]
		}
		return runtimeName(p) + "." + n
	}
	pk := fnPkgPath(fn)
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := false
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = true
		}
		n := "?"
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n = nt.Obj().Name()
		}
		if star {
			return pk + ".(*" + n + ")." + fn.Name()
		}
		return pk + "." + n + "." + fn.Name()
	}
	return pk + "." + fn.Name()
}

// callerName gives the name of the skip-th real frame (0: the function that
// called the runtime function).
func (g *G) callerName(skip int) (Value, bool) {
	f := g.top
	for f != nil {
		if !f.fi.synth {
			if skip == 0 {
				if g.w.fakeCaller != nil && f.fi.visible && !f.fi.repo {
					return g.w.fakeCaller, true
				}
				return runtimeName(f.fi.fn), true
			}
			skip--
		}
		f = f.caller
	}
	return nil, false
}

func regRuntime() {
	reg("runtime.Gosched", func(g *G, fi *FuncInfo, a []Value) Value { g.yield(); return nil })
	reg("runtime.NumGoroutine", func(g *G, fi *FuncInfo, a []Value) Value {
		if g.hasSys("HasNumGoroutine") {
			return g.sys("NumGoroutine", a)
		}
		n := 0
		for _, o := range g.w.gs {
			if !o.done {
				n++
			}
		}
		return g.i64(int64(n))
	})
	reg("runtime.GOMAXPROCS", func(g *G, fi *FuncInfo, a []Value) Value { return g.i64(8) })
	reg("runtime.NumCPU", func(g *G, fi *FuncInfo, a []Value) Value { return g.i64(8) })
	reg("runtime.NumCgoCall", func(g *G, fi *FuncInfo, a []Value) Value { return g.i64(0) })
	pcOf := func(g *G, name Value) *Term {
		if g.w.baseMode {
			g.w.basePcs = append(g.w.basePcs, name)
			return g.w.tc.Const(uint64(0x100000+len(g.w.basePcs)), 64)
		}
		g.w.pcs = append(g.w.pcs, name)
		return g.w.tc.Const(uint64(0x400000+len(g.w.pcs)), 64)
	}
	nameOf := func(g *G, pc uint64) (Value, bool) {
		if pc > 0x400000 && int(pc-0x400000) <= len(g.w.pcs) {
			return g.w.pcs[pc-0x400001], true
		}
		if pc > 0x100000 && int(pc-0x100000) <= len(g.w.basePcs) {
			return g.w.basePcs[pc-0x100001], true
		}
		return nil, false
	}
	reg("runtime.Callers", func(g *G, fi *FuncInfo, a []Value) Value {
		skip := int(int64(g.conc(a[0])))
		s := a[1].(Slice)
		n := 0
		for n < s.len {
			k := skip + n - 1 // 0 is Callers itself
			var name Value = "runtime.Callers"
			ok := true
			if k >= 0 {
				name, ok = g.callerName(k)
			}
			if !ok {
				break
			}
			g.store(Ptr{s.obj, s.off + n}, pcOf(g, name), types.Typ[types.Uintptr], nil)
			n++
		}
		return g.i64(int64(n))
	})
	reg("runtime.Caller", func(g *G, fi *FuncInfo, a []Value) Value {
		name, ok := g.callerName(int(int64(g.conc(a[0]))))
		if !ok {
			return Tuple{g.w.tc.Const(0, 64), "", g.i64(0), g.w.tc.F}
		}
		return Tuple{pcOf(g, name), "file.go", g.i64(1), g.w.tc.T}
	})
	fnObj := func(g *G, name Value) Ptr {
		o := g.w.newObj(g.w.e.namedType("runtime", "Func"), 1, "runtime.Func")
		o.native = name
		return Ptr{o, 0}
	}
	reg("runtime.FuncForPC", func(g *G, fi *FuncInfo, a []Value) Value {
		if n, ok := nameOf(g, g.conc(a[0])); ok {
			return fnObj(g, n)
		}
		return Ptr{}
	})
	reg("(*runtime.Func).Name", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		if p.obj == nil {
			return ""
		}
		return p.obj.native.(Value)
	})
	reg("runtime.CallersFrames", func(g *G, fi *FuncInfo, a []Value) Value {
		s := a[0].(Slice)
		o := g.w.newObj(g.w.e.namedType("runtime", "Frames"), 1, "runtime.Frames")
		var l []Value
		for i := 0; i < s.len; i++ {
			l = append(l, s.obj.cells[s.off+i])
		}
		o.native = &l
		return Ptr{o, 0}
	})
	reg("(*runtime.Frames).Next", func(g *G, fi *FuncInfo, a []Value) Value {
		p := asPtr(g, a[0])
		l := p.obj.native.(*[]Value)
		ft := g.w.e.namedType("runtime", "Frame")
		z := g.w.zero(ft).(Agg)
		if len(*l) == 0 {
			return Tuple{z, g.w.tc.F}
		}
		pc := (*l)[0]
		*l = (*l)[1:]
		if n, ok := nameOf(g, g.conc(pc)); ok {
			lay := g.w.layoutOf(ft)
			st := ft.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "PC":
					z[lay.fields[i]] = pc
				case "Func":
					// a fully inlined function has none
					if !g.w.inlined {
						z[lay.fields[i]] = fnObj(g, n)
					}
				case "Function":
					z[lay.fields[i]] = n
				case "File":
					z[lay.fields[i]] = "file.go"
				case "Line":
					z[lay.fields[i]] = g.i64(1)
				}
			}
		}
		return Tuple{z, g.w.tc.Bool(len(*l) > 0)}
	})
	for name, fn := range map[string]string{"os.ReadFile": "ReadFile", "os.Open": "Open", "syscall.Getrusage": "Rusage", "runtime/debug.ReadGCStats": "GCStats"} {
		fn := fn
		reg(name, func(g *G, fi *FuncInfo, a []Value) Value { return g.sys(fn, a) })
	}
	for _, m := range []string{"Close", "Readdirnames", "Read", "WriteTo", "Name"} {
		m := m
		reg("(*os.File)."+m, func(g *G, fi *FuncInfo, a []Value) Value {
			p := asPtr(g, a[0])
			if p.obj == nil {
				panic(Unsupported{"method of a nil *os.File"})
			}
			t := types.NewPointer(g.w.e.namedType(vsysPkg, "File"))
			return g.callFn(g.w.e.lookupMethod(t, nil, m), a, nil, nil)
		})
	}
	reg("runtime.ReadMemStats", func(g *G, fi *FuncInfo, a []Value) Value {
		if g.hasSys("HasMemStats") {
			return g.sys("MemStats", a)
		}
		g.envFill(asPtr(g, a[0]), "runtime", "MemStats")
		return nil
	})
	reg("(runtime.errorString).Error", func(g *G, fi *FuncInfo, a []Value) Value { return g.w.strConcat("runtime error: ", a[0]) })
	reg("(runtime.plainError).Error", func(g *G, fi *FuncInfo, a []Value) Value { return a[0] })
	reg("runtime/debug.Stack", func(g *G, fi *FuncInfo, a []Value) Value { return g.mkBytes(g.w.strBytes("stack")) })
	reg("internal/abi.NoEscape", func(g *G, fi *FuncInfo, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(g *G, fi *FuncInfo, a []Value) Value { return a[0] })
	reg("strings.noescape", func(g *G, fi *FuncInfo, a []Value) Value { return a[0] })
	reg("runtime/internal/sys.GetCallerPC", func(g *G, fi *FuncInfo, a []Value) Value { return g.i64(0) })
}

// ---- math

func regMath() {
	for _, n := range []string{"internal/strconv.float64bits", "internal/strconv.float32bits"} {
		reg(n, func(g *G, fi *FuncInfo, a []Value) Value { return g.floatBits(asTerm(g, a[0])) })
	}
	reg("math.Float64bits", func(g *G, fi *FuncInfo, a []Value) Value { return g.floatBits(asTerm(g, a[0])) })
	reg("math.Float32bits", func(g *G, fi *FuncInfo, a []Value) Value { return g.floatBits(asTerm(g, a[0])) })
	reg("math.Float64frombits", func(g *G, fi *FuncInfo, a []Value) Value { return g.w.tc.BitsF(asTerm(g, a[0])) })
	reg("math.Float32frombits", func(g *G, fi *FuncInfo, a []Value) Value { return g.w.tc.BitsF(asTerm(g, a[0])) })
	reg("math.IsNaN", func(g *G, fi *FuncInfo, a []Value) Value { return g.w.tc.FNaN(asTerm(g, a[0])) })
	reg("math.NaN", func(g *G, fi *FuncInfo, a []Value) Value { return g.w.tc.F64(math.NaN()) })
	reg("math.Inf", func(g *G, fi *FuncInfo, a []Value) Value {
		return g.w.tc.F64(math.Inf(int(int64(g.conc(a[0])))))
	})
	reg("math.IsInf", func(g *G, fi *FuncInfo, a []Value) Value {
		x := asTerm(g, a[0])
		s := int64(g.conc(a[1]))
		r := g.w.tc.F
		if s >= 0 {
			r = g.w.tc.Or(r, g.w.tc.FBin(OFEq, x, g.w.tc.F64(math.Inf(1))))
		}
		if s <= 0 {
			r = g.w.tc.Or(r, g.w.tc.FBin(OFEq, x, g.w.tc.F64(math.Inf(-1))))
		}
		return r
	})
	one := func(n string, f func(float64) float64) {
		reg("math."+n, func(g *G, fi *FuncInfo, a []Value) Value {
			t := asTerm(g, a[0])
			if !t.isConst() {
				panic(g.w.unsupported("math.%s of symbolic value", n))
			}
			return g.w.tc.F64(f(fpv(t.v, 64)))
		})
	}
	one("Floor", math.Floor)
	one("Ceil", math.Ceil)
	one("Trunc", math.Trunc)
	one("Sqrt", math.Sqrt)
	one("Log", math.Log)
	one("Log2", math.Log2)
	one("Log10", math.Log10)
	one("Exp", math.Exp)
	reg("math.Abs", func(g *G, fi *FuncInfo, a []Value) Value {
		x := asTerm(g, a[0])
		tc := g.w.tc
		return tc.Ite(tc.FBin(OFLt, x, tc.F64(0)), tc.FNeg(x), x)
	})
	// math/bits on concrete values; symbolic ones use the source
	conc1 := func(name string, f func(uint64) int, wd int) {
		base := "math/bits." + name
		reg(base, func(g *G, fi *FuncInfo, a []Value) Value {
			t := asTerm(g, a[0])
			if t.isConst() {
				return g.i64(int64(f(t.v)))
			}
			return g.bitLenSym(name, t)
		})
		_ = wd
	}
	conc1("Len64", bits.Len64, 64)
	conc1("Len", bits.Len64, 64)
	conc1("Len32", func(x uint64) int { return bits.Len32(uint32(x)) }, 32)
	conc1("TrailingZeros64", bits.TrailingZeros64, 64)
	conc1("TrailingZeros", bits.TrailingZeros64, 64)
	conc1("TrailingZeros32", func(x uint64) int { return bits.TrailingZeros32(uint32(x)) }, 32)
	conc1("LeadingZeros64", bits.LeadingZeros64, 64)
	reg("math/bits.Mul64", func(g *G, fi *FuncInfo, a []Value) Value {
		x, y := asTerm(g, a[0]), asTerm(g, a[1])
		if x.isConst() && y.isConst() {
			h, l := bits.Mul64(x.v, y.v)
			return Tuple{g.w.tc.Const(h, 64), g.w.tc.Const(l, 64)}
		}
		return g.interp(fi, a)
	})
}

// interp runs the function's own body although it has an intrinsic.
func (g *G) interp(fi *FuncInfo, args []Value) Value {
	k := fi.intr
	fi.intr = nil
	defer func() { fi.intr = k }()
	return g.callFn(fi.fn, args, nil, nil)
}

func (g *G) bitLenSym(name string, t *Term) Value {
	tc := g.w.tc
	wd := int(t.sort.w)
	switch name {
	case "Len64", "Len", "Len32":
		r := g.i64(0)
		for i := 0; i < wd; i++ {
			r = tc.Ite(tc.Eq(tc.Extract(t, i, i), tc.Const(1, 1)), g.i64(int64(i+1)), r)
		}
		return r
	case "TrailingZeros64", "TrailingZeros", "TrailingZeros32":
		r := g.i64(int64(wd))
		for i := wd - 1; i >= 0; i-- {
			r = tc.Ite(tc.Eq(tc.Extract(t, i, i), tc.Const(1, 1)), g.i64(int64(i)), r)
		}
		return r
	}
	panic(g.w.unsupported("bits.%s of symbolic", name))
}

// floatBits: bits of a float; symbolic floats are given a fresh bit vector
// constrained to represent them.
func (g *G) floatBits(t *Term) *Term {
	tc := g.w.tc
	wd := int(t.sort.w)
	if t.isConst() {
		return tc.Const(t.v, wd)
	}
	if t.op == OBitsF {
		return t.a
	}
	g.w.fresh++
	v := tc.Var(fmt.Sprintf("fbits!%d", g.w.fresh), BV(wd))
	g.assume(tc.Eq(tc.BitsF(v), t))
	return v
}

// ---- bytes and strings primitives

func regBytealg() {
	idxByte := func(g *G, b []*Term, c *Term) Value {
		for i, x := range b {
			if g.branch(g.w.tc.Eq(x, c)) {
				return g.i64(int64(i))
			}
		}
		return g.i64(-1)
	}
	bs := func(g *G, v Value) []*Term {
		if s, ok := v.(Slice); ok {
			if s.obj == nil {
				return nil
			}
			return g.bytesOf(s)
		}
		return g.w.strBytes(v)
	}
	reg("internal/bytealg.IndexByte", func(g *G, fi *FuncInfo, a []Value) Value { return idxByte(g, bs(g, a[0]), asTerm(g, a[1])) })
	reg("internal/bytealg.IndexByteString", func(g *G, fi *FuncInfo, a []Value) Value { return idxByte(g, bs(g, a[0]), asTerm(g, a[1])) })
	lastIdx := func(g *G, fi *FuncInfo, a []Value) Value {
		b := bs(g, a[0])
		c := asTerm(g, a[1])
		for i := len(b) - 1; i >= 0; i-- {
			if g.branch(g.w.tc.Eq(b[i], c)) {
				return g.i64(int64(i))
			}
		}
		return g.i64(-1)
	}
	reg("internal/bytealg.LastIndexByte", lastIdx)
	reg("internal/bytealg.LastIndexByteString", lastIdx)
	count := func(g *G, fi *FuncInfo, a []Value) Value {
		n := 0
		c := asTerm(g, a[1])
		for _, x := range bs(g, a[0]) {
			if g.branch(g.w.tc.Eq(x, c)) {
				n++
			}
		}
		return g.i64(int64(n))
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	eqAt := func(g *G, b, sub []*Term, i int) *Term {
		r := g.w.tc.T
		for j := len(sub) - 1; j >= 0; j-- {
			r = g.w.tc.And(g.w.tc.Eq(b[i+j], sub[j]), r)
		}
		return r
	}
	index := func(g *G, fi *FuncInfo, a []Value) Value {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return g.i64(int64(strings.Index(x, y)))
			}
		}
		b, sub := bs(g, a[0]), bs(g, a[1])
		for i := 0; i+len(sub) <= len(b); i++ {
			if g.branch(eqAt(g, b, sub, i)) {
				return g.i64(int64(i))
			}
		}
		return g.i64(-1)
	}
	for _, n := range []string{"internal/stringslite.Index", "strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		reg(n, index)
	}
	lastIndex := func(g *G, fi *FuncInfo, a []Value) Value {
		b, sub := bs(g, a[0]), bs(g, a[1])
		for i := len(b) - len(sub); i >= 0; i-- {
			if g.branch(eqAt(g, b, sub, i)) {
				return g.i64(int64(i))
			}
		}
		return g.i64(-1)
	}
	reg("strings.LastIndex", lastIndex)
	reg("bytes.LastIndex", lastIndex)
	equal := func(g *G, fi *FuncInfo, a []Value) Value {
		x, y := bs(g, a[0]), bs(g, a[1])
		if len(x) != len(y) {
			return g.w.tc.F
		}
		return eqAt(g, x, y, 0)
	}
	reg("internal/bytealg.Equal", equal)
	reg("bytes.Equal", equal)
	reg("internal/bytealg.MakeNoZero", func(g *G, fi *FuncInfo, a []Value) Value {
		n := int(g.conc(a[0]))
		o := g.w.newObj(types.Typ[types.Uint8], n, "bytes")
		if n == 0 {
			o.cells = nil
		}
		return Slice{obj: o, len: n, cap: n, stride: 1}
	})
	cmp := func(g *G, fi *FuncInfo, a []Value) Value {
		var x, y Value = a[0], a[1]
		if s, ok := x.(Slice); ok {
			_ = s
			x, y = mkStr(bs(g, x)), mkStr(bs(g, y))
		}
		tc := g.w.tc
		return tc.Ite(g.w.strEq(x, y), g.i64(0), tc.Ite(g.w.strLess(x, y), g.i64(-1), g.i64(1)))
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	reg("bytes.Compare", cmp)
	reg("cmp.Compare", func(g *G, fi *FuncInfo, a []Value) Value {
		switch a[0].(type) {
		case string, *SymStr:
			return cmp(g, fi, a)
		}
		return g.interp(fi, a)
	})
	reg("strings.Clone", func(g *G, fi *FuncInfo, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(g *G, fi *FuncInfo, a []Value) Value { return a[0] })
}

// ---- strconv: numbers in base 10 and 16 without forking per digit

func regStrconv() {
	// numbers that are known are formatted by the real strconv
	appendFloat := func(g *G, fi *FuncInfo, a []Value) Value {
		k := len(a) - 4
		f, ok := a[k].(*Term)
		if !ok || f.op != OConst {
			return g.interp(fi, a)
		}
		s := strconv.FormatFloat(math.Float64frombits(f.v), byte(g.conc(a[k+1])), int(g.conc(a[k+2])), int(g.conc(a[k+3])))
		if k == 0 {
			return s
		}
		var dst []*Term
		if s, ok := a[0].(Slice); ok && s.obj != nil {
			dst = g.bytesOf(s)
		}
		out := append([]*Term(nil), dst...)
		for i := 0; i < len(s); i++ {
			out = append(out, g.w.tc.Const(uint64(s[i]), 8))
		}
		return g.mkBytes(out)
	}
	reg("strconv.AppendFloat", appendFloat)
	reg("strconv.FormatFloat", appendFloat)
	parse := func(signed bool) intrinsic {
		return func(g *G, fi *FuncInfo, a []Value) Value {
			s, ok := a[0].(*SymStr)
			base := int64(g.conc(a[1]))
			size := int64(g.conc(a[2]))
			if !ok || (base != 10 && base != 16) || (size != 64 && size != 0) || len(s.b) == 0 || len(s.b) > 20 {
				return g.interp(fi, a)
			}
			if signed {
				return g.interp(fi, a) // calls ParseUint after handling the sign
			}
			tc := g.w.tc
			valid := tc.T
			maxDigits := 16
			if base == 10 {
				maxDigits = 19
			}
			if len(s.b) > maxDigits {
				// leading zeros only keep it in range: use the source
				return g.interp(fi, a)
			}
			v := tc.Const(0, 64)
			for _, b := range s.b {
				dig := tc.And(tc.Bin(OUle, tc.Const('0', 8), b), tc.Bin(OUle, b, tc.Const('9', 8)))
				d := tc.Bin(OSub, b, tc.Const('0', 8))
				okb := dig
				if base == 16 {
					lc := tc.And(tc.Bin(OUle, tc.Const('a', 8), b), tc.Bin(OUle, b, tc.Const('f', 8)))
					uc := tc.And(tc.Bin(OUle, tc.Const('A', 8), b), tc.Bin(OUle, b, tc.Const('F', 8)))
					d = tc.Ite(dig, d, tc.Ite(lc, tc.Bin(OSub, b, tc.Const('a'-10, 8)), tc.Bin(OSub, b, tc.Const('A'-10, 8))))
					okb = tc.Or(dig, tc.Or(lc, uc))
					v = tc.Bin(OBOr, tc.Bin(OShl, v, tc.Const(4, 64)), tc.ZExt(d, 64))
				} else {
					v = tc.Bin(OAdd, tc.Bin(OMul, v, tc.Const(10, 64)), tc.ZExt(d, 64))
				}
				valid = tc.And(valid, okb)
			}
			if g.branch(valid) {
				return Tuple{v, Iface{}}
			}
			fn := g.w.e.funcByName("strconv", "syntaxError")
			e := g.callFn(fn, []Value{"ParseUint", a[0]}, nil, nil)
			t := g.w.e.namedType("strconv", "NumError")
			return Tuple{tc.Const(0, 64), Iface{g.w.canon.canon(types.NewPointer(t)), e}}
		}
	}
	reg("strconv.ParseUint", parse(false))
}

// ---- the system's answers are chosen by the harness (vharness/shim/vsys)

const vsysPkg = "vharness/shim/vsys"

func (g *G) hasSys(what string) bool {
	if g.w.e.prog.ImportedPackage(vsysPkg) == nil {
		return false
	}
	return g.branch(asTerm(g, g.sys(what, nil)))
}

func (g *G) sys(fn string, a []Value) Value {
	return g.callFn(g.w.e.funcByName(vsysPkg, fn), a, nil, nil)
}
