package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow sentinels

type pathAbort struct{}

// Unsupported marks something outside the encodable fragment.
type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }

// Violation ends a path: the property is broken on it.
type Violation struct {
	kind string // assert, panic, deadlock, race
	msg  string
	pos  string
}

type assumeFail struct{}
type pathEnd struct{}
type budgetStop struct{ what string }

type GoPanic struct {
	val   Iface
	where string
	goex  bool
}

func (w *Worker) unsupported(f string, a ...interface{}) Unsupported {
	return Unsupported{fmt.Sprintf(f, a...)}
}

// ---- compiled functions

type operand struct {
	slot int
	val  Value
	glob *ssa.Global
}

type cInstr struct {
	in  ssa.Instruction
	dst int
	ops []operand
	t   types.Type // element/result type cache
	x   interface{}
}

type FuncInfo struct {
	fn       *ssa.Function
	name     string
	pkg      string
	nslots   int
	params   []int
	free     []int
	blocks   [][]cInstr
	pure     []uint8
	intr     intrinsic
	hasDefer bool
	visible  bool // repo or harness code: its sync operations are scheduling points
	repo     bool
	syncPkg  bool
	synth    bool
	compiled bool
	counted  bool
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Origin() != nil && f.Origin() != f {
			return fnPkgPath(f.Origin())
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func (w *Worker) info(fn *ssa.Function) *FuncInfo {
	if fi, ok := w.finfo[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, name: fn.String(), pkg: fnPkgPath(fn)}
	if o := fn.Origin(); o != nil && o != fn {
		fi.name = o.String()
	}
	fi.synth = fn.Synthetic != "" && fn.Pkg == nil
	if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound") {
		fi.synth = true
	}
	fi.repo = w.e.isRepo(fi.pkg)
	fi.visible = fi.repo || w.e.isHarness(fi.pkg)
	fi.syncPkg = fi.pkg == "sync" || fi.pkg == "sync/atomic"
	fi.intr = w.lookupIntrinsic(fi)
	w.finfo[fn] = fi
	return fi
}

func (w *Worker) compile(fi *FuncInfo) {
	if fi.compiled {
		return
	}
	fi.compiled = true
	fn := fi.fn
	slots := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		n := fi.nslots
		slots[v] = n
		fi.nslots++
		return n
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, add(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	fi.blocks = make([][]cInstr, len(fn.Blocks))
	var buf []*ssa.Value
	for i, b := range fn.Blocks {
		list := make([]cInstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cInstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			buf = in.Operands(buf[:0])
			for _, op := range buf {
				ci.ops = append(ci.ops, w.mkOperand(*op, slots))
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				ci.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.UnOp:
				ci.t = x.Type()
			case *ssa.Store:
				ci.t = x.Val.Type()
			case *ssa.FieldAddr:
				st := x.X.Type().Underlying().(*types.Pointer).Elem()
				ci.x = w.layoutOf(st).fields[x.Field]
			case *ssa.Field:
				l := w.layoutOf(x.X.Type())
				fl := w.layoutOf(x.Type())
				ci.x = [3]int{l.fields[x.Field], fl.n, b2i(fl.leaf)}
			}
			list = append(list, ci)
		}
		fi.blocks[i] = list
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (w *Worker) mkOperand(v ssa.Value, slots map[ssa.Value]int) operand {
	switch x := v.(type) {
	case nil:
		return operand{slot: -2}
	case *ssa.Const:
		return operand{slot: -1, val: w.constVal(x)}
	case *ssa.Global:
		return operand{slot: -3, glob: x}
	case *ssa.Function:
		return operand{slot: -1, val: w.fnClosure(x)}
	case *ssa.Builtin:
		return operand{slot: -1, val: x}
	}
	s, ok := slots[v]
	if !ok {
		return operand{slot: -2}
	}
	return operand{slot: s}
}

func (w *Worker) fnClosure(fn *ssa.Function) *Closure {
	if c, ok := w.fnClos[fn]; ok {
		return c
	}
	c := &Closure{fn: fn}
	w.fnClos[fn] = c
	return c
}

func (w *Worker) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(w.unsupported("const of type param %v", tp))
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(w.unsupported("const of type %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.tc.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(c.Value)
			return string(rune(n))
		}
		return constant.StringVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		if b.Info()&types.IsUnsigned != 0 {
			return w.tc.Const(c.Uint64(), intWidth(b))
		}
		return w.tc.Const(uint64(c.Int64()), intWidth(b))
	case b.Info()&types.IsFloat != 0:
		if b.Kind() == types.Float32 {
			f, _ := constant.Float32Val(c.Value)
			return w.tc.F32(f)
		}
		return w.tc.F64(c.Float64())
	case b.Info()&types.IsComplex != 0:
		z := c.Complex128()
		return Complex{w.tc.F64(real(z)), w.tc.F64(imag(z))}
	}
	panic(w.unsupported("const %v", c))
}

// ---- frames

type deferred struct {
	clo  *Closure
	args []Value
	call *ssa.CallCommon
	bi   *ssa.Builtin
	in   ssa.Instruction
}

type frame struct {
	g         *G
	fi        *FuncInfo
	regs      []Value
	caller    *frame
	defers    []deferred
	panicking *GoPanic
	deferOf   *frame // set when this frame was called directly by deferOf's defer run
	cur       ssa.Instruction
	prev      int
}

func (fr *frame) get(o *operand) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.slot == -3 {
		return fr.g.w.globalPtr(fr.g, o.glob)
	}
	return o.val
}

func (g *G) globalObj(gl *ssa.Global) *Obj { return g.w.globalPtr(g, gl).obj }

func (w *Worker) globalPtr(g *G, gl *ssa.Global) Ptr {
	o, ok := w.globals[gl]
	if !ok {
		bm := w.baseMode
		w.baseMode = true
		o = w.newObj(gl.Type().Underlying().(*types.Pointer).Elem(), 1, gl.String())
		w.baseMode = bm
		w.globals[gl] = o
	}
	if gl.Pkg != nil && w.pkgState[gl.Pkg] == 0 {
		w.initPkg(g, gl.Pkg)
	}
	return Ptr{o, 0}
}

// initPkg runs a package's initialiser in base mode (concretely, once per worker).
func (w *Worker) initPkg(g *G, p *ssa.Package) {
	if w.pkgState[p] != 0 {
		return
	}
	w.pkgState[p] = 1
	if w.skipInit(p.Pkg.Path()) {
		w.pkgState[p] = 2
		return
	}
	init := p.Func("init")
	if init == nil {
		w.pkgState[p] = 2
		return
	}
	bm := w.baseMode
	w.baseMode = true
	saved := g.top
	defer func() {
		w.baseMode = bm
		g.top = saved
		w.pkgState[p] = 2
	}()
	fi := w.info(init)
	w.compile(fi)
	fr := &frame{g: g, fi: fi, regs: make([]Value, fi.nslots), caller: g.top}
	g.top = fr
	g.execInit(fr)
}

func (w *Worker) skipInit(path string) bool {
	switch path {
	case "runtime", "internal/cpu", "internal/bytealg", "internal/godebug", "internal/godebugs", "internal/runtime/atomic",
		"internal/runtime/maps", "internal/runtime/sys", "runtime/internal/sys", "internal/poll", "os/signal", "crypto/internal/fips140/check", "vdso":
		return true
	}
	return false
}

// execInit executes an init function tolerating instructions that cannot be
// encoded: their results become Poison.
func (g *G) execInit(fr *frame) {
	b := 0
	fr.prev = -1
	for {
		blk := fr.fi.blocks[b]
		next := -1
		for i := range blk {
			ci := &blk[i]
			fr.cur = ci.in
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = in.Block().Succs[0].Index
				continue
			case *ssa.Return:
				return
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				t, ok := c.(*Term)
				// the init guard and any concrete condition
				take := 1
				if ok && t.isTrue() {
					take = 0
				}
				if u, isu := in.Cond.(*ssa.UnOp); isu {
					if gl, isg := u.X.(*ssa.Global); isg && strings.HasPrefix(gl.Name(), "init$guard") {
						take = 1
					}
				}
				next = in.Block().Succs[take].Index
				continue
			case *ssa.Call:
				if f := in.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Synthetic == "package initializer" {
					continue
				}
			}
			g.tolerant(fr, ci)
		}
		if next < 0 {
			return
		}
		fr.prev = b
		b = next
	}
}

func (g *G) tolerant(fr *frame, ci *cInstr) {
	defer func() {
		if r := recover(); r != nil {
			why := ""
			switch r := r.(type) {
			case Unsupported:
				why = r.msg
			case *GoPanic:
				why = "panic during init: " + g.panicString(r)
			case budgetStop:
				why = "init too long"
			case Violation:
				why = "blocked during init"
			default:
				panic(r)
			}
			g.top = fr
			if g.w.e.debug {
				fmt.Printf("init %s: poison at %v: %s\n", fr.fi.pkg, ci.in, why)
			}
			if ci.dst >= 0 {
				fr.regs[ci.dst] = Poison{why}
			}
		}
	}()
	for i := range ci.ops {
		if p, ok := fr.get(&ci.ops[i]).(Poison); ok && ci.dst >= 0 {
			fr.regs[ci.dst] = p
			return
		}
	}
	g.step(fr, ci)
}

// ---- calls

func (g *G) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		g.panicNil()
	}
	if c.native != nil {
		return c.native(g, args)
	}
	return g.callFn(c.fn, args, c.binds, nil)
}

func (g *G) callFn(fn *ssa.Function, args []Value, binds []Value, deferOf *frame) Value {
	w := g.w
	fi := w.info(fn)
	if g.depth > 4000 {
		panic(budgetStop{"call depth"})
	}
	if fi.intr != nil {
		if fi.syncPkg || fi.intrVisible() {
			g.maybeSched(fi)
		}
		return fi.intr(g, fi, args)
	}
	if fi.syncPkg {
		g.maybeSched(fi)
	}
	if fn.Blocks == nil {
		panic(w.unsupported("no body: %s", fi.name))
	}
	w.compile(fi)
	if !fi.counted && !w.baseMode {
		fi.counted = true
		w.e.noteFunc(fi)
	}
	fr := &frame{g: g, fi: fi, regs: make([]Value, fi.nslots), caller: g.top, deferOf: deferOf}
	for i, s := range fi.params {
		if i < len(args) {
			fr.regs[s] = args[i]
		}
	}
	for i, s := range fi.free {
		fr.regs[s] = binds[i]
	}
	if deferOf == nil && g.top != nil && g.top.fi.synth && g.top.deferOf != nil {
		fr.deferOf = g.top.deferOf
	}
	g.top = fr
	g.depth++
	var ret Value
	if fi.hasDefer {
		ret = g.runWithDefers(fr)
	} else {
		ret = g.exec(fr, 0)
	}
	g.depth--
	g.top = fr.caller
	return ret
}

func (fi *FuncInfo) intrVisible() bool {
	switch fi.name {
	case "runtime.Gosched", "time.Sleep":
		return false
	}
	return strings.HasSuffix(fi.name, "/vrf.Yield")
}

// maybeSched inserts a scheduling point before a sync operation made directly
// by repo or harness code.
func (g *G) maybeSched(callee *FuncInfo) {
	w := g.w
	if w.baseMode {
		return
	}
	f := g.top
	for f != nil && f.fi.synth {
		f = f.caller
	}
	if f == nil || !f.fi.visible {
		return
	}
	switch callee.fn.Name() {
	case "Unlock", "RUnlock":
		if callee.pkg == "sync" {
			return
		}
	}
	g.schedPoint(callee.name)
}

func (g *G) runWithDefers(fr *frame) (ret Value) {
	depth := g.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*GoPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = gp
			}
		}()
		ret = g.exec(fr, 0)
	}()
	if fr.panicking == nil {
		return ret
	}
	g.top = fr
	g.depth = depth
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*GoPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = gp
				}
			}()
			g.callDeferred(fr, d)
		}()
		g.top = fr
		g.depth = depth
	}
	if fr.panicking != nil {
		g.top = fr.caller
		panic(fr.panicking)
	}
	if fr.fi.fn.Recover != nil {
		return g.exec(fr, fr.fi.fn.Recover.Index)
	}
	res := fr.fi.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return g.w.zero(res.At(0).Type())
	}
	t := Tuple{}
	for i := 0; i < res.Len(); i++ {
		t = append(t, g.w.zero(res.At(i).Type()))
	}
	return t
}

func (g *G) callDeferred(fr *frame, d deferred) {
	fr.cur = d.in
	if d.bi != nil {
		g.builtin(fr, d.bi, d.call, d.args)
		return
	}
	if d.clo == nil {
		g.panicNil()
	}
	if d.clo.native != nil {
		d.clo.native(g, d.args)
		return
	}
	g.callFn(d.clo.fn, d.args, d.clo.binds, fr)
}

func (g *G) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		g.callDeferred(fr, d)
	}
}

// ---- execution

func (g *G) exec(fr *frame, b int) Value {
	w := g.w
	fr.prev = -1
	phisDone := false
	for {
		blk := fr.fi.blocks[b]
		i := 0
		// phis
		if phisDone {
			for i < len(blk) {
				if _, ok := blk[i].in.(*ssa.Phi); !ok {
					break
				}
				i++
			}
			phisDone = false
		} else if len(blk) > 0 {
			if _, ok := blk[0].in.(*ssa.Phi); ok {
				var tmp [8]Value
				vals := tmp[:0]
				edge := -1
				for k, p := range blk[0].in.Block().Preds {
					if p.Index == fr.prev {
						edge = k
						break
					}
				}
				for i < len(blk) {
					if _, ok := blk[i].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.get(&blk[i].ops[edge]))
					i++
				}
				for k, v := range vals {
					fr.regs[blk[k].dst] = v
				}
			}
		}
		next := -1
		merged := false
		for ; i < len(blk); i++ {
			ci := &blk[i]
			fr.cur = ci.in
			w.steps++
			if w.steps > w.maxSteps {
				panic(budgetStop{"steps"})
			}
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = in.Block().Succs[0].Index
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				t, ok := c.(*Term)
				if !ok {
					panic(w.unsupported("if on %T (%v)", c, poisonWhy(c)))
				}
				if t.op == OConst {
					if t.v != 0 {
						next = in.Block().Succs[0].Index
					} else {
						next = in.Block().Succs[1].Index
					}
					break
				}
				next, phisDone = g.mergeIf(fr, in.Block(), t)
				merged = true
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return fr.get(&ci.ops[0])
				}
				t := make(Tuple, len(ci.ops))
				for k := range ci.ops {
					t[k] = fr.get(&ci.ops[k])
				}
				return t
			case *ssa.RunDefers:
				g.runDefers(fr)
			default:
				g.step(fr, ci)
			}
		}
		if next < 0 {
			return nil
		}
		if !merged {
			fr.prev = b
		}
		b = next
	}
}

func poisonWhy(v Value) string {
	if p, ok := v.(Poison); ok {
		return p.why
	}
	return ""
}

func (g *G) step(fr *frame, ci *cInstr) {
	w := g.w
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		o := w.newObj(ci.t, 1, "")
		fr.regs[ci.dst] = Ptr{o, 0}
	case *ssa.Call:
		fr.regs[ci.dst] = g.doCall(fr, ci, &in.Call)
	case *ssa.BinOp:
		fr.regs[ci.dst] = g.binop(in.Op, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.X.Type(), in.Y.Type())
	case *ssa.UnOp:
		fr.regs[ci.dst] = g.unop(fr, ci, in)
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = g.convert(fr.get(&ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = g.convert(fr.get(&ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.MakeInterface:
		v := fr.get(&ci.ops[0])
		if p, ok := v.(Poison); ok {
			fr.regs[ci.dst] = p
			return
		}
		fr.regs[ci.dst] = Iface{w.canon.canon(in.X.Type()), v}
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for k := range in.Bindings {
			c.binds = append(c.binds, fr.get(&ci.ops[k+1]))
		}
		fr.regs[ci.dst] = c
	case *ssa.MakeMap:
		fr.regs[ci.dst] = w.newMap(in.Type().Underlying().(*types.Map))
	case *ssa.MakeChan:
		n := int(int64(g.conc(fr.get(&ci.ops[0]))))
		w.objID++
		fr.regs[ci.dst] = &ChanObj{id: w.objID, cap: n, base: w.baseMode, elem: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeSlice:
		n := int(int64(g.conc(fr.get(&ci.ops[0]))))
		c := int(int64(g.conc(fr.get(&ci.ops[1]))))
		if n < 0 || n > 1<<24 {
			g.panicRuntime("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			g.panicRuntime("makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		o := w.newObj(et, c, "slice")
		fr.regs[ci.dst] = Slice{obj: o, len: n, cap: c, stride: w.layoutOf(et).n}
	case *ssa.Slice:
		fr.regs[ci.dst] = g.slice(fr, ci, in)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			g.panicRuntime("cannot convert slice to array or pointer to array: length too short")
		}
		fr.regs[ci.dst] = Ptr{s.obj, s.off}
	case *ssa.FieldAddr:
		p := fr.get(&ci.ops[0])
		switch p := p.(type) {
		case Ptr:
			if p.obj == nil {
				g.panicNil()
			}
			fr.regs[ci.dst] = Ptr{p.obj, p.off + ci.x.(int)}
		case *SPtr:
			c := g.concPtr(p)
			fr.regs[ci.dst] = Ptr{c.obj, c.off + ci.x.(int)}
		case Poison:
			panic(w.unsupported("fieldaddr of poison: %s", p.why))
		default:
			panic(w.unsupported("fieldaddr of %T", p))
		}
	case *ssa.Field:
		v := fr.get(&ci.ops[0])
		a, ok := v.(Agg)
		if !ok {
			panic(w.unsupported("field of %T %s", v, poisonWhy(v)))
		}
		x := ci.x.([3]int)
		if x[2] == 1 {
			fr.regs[ci.dst] = a[x[0]]
		} else {
			fr.regs[ci.dst] = Agg(append([]Value(nil), a[x[0]:x[0]+x[1]]...))
		}
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = g.indexAddr(fr, ci, in)
	case *ssa.Index:
		fr.regs[ci.dst] = g.index(fr, ci, in)
	case *ssa.Lookup:
		fr.regs[ci.dst] = g.lookup(fr, ci, in)
	case *ssa.MapUpdate:
		m, ok := fr.get(&ci.ops[0]).(*MapObj)
		if !ok {
			panic(w.unsupported("map update of %T %s", fr.get(&ci.ops[0]), poisonWhy(fr.get(&ci.ops[0]))))
		}
		g.accessMap(m, true, in)
		g.mapSet(m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case *ssa.Range:
		fr.regs[ci.dst] = g.rangeIter(fr, fr.get(&ci.ops[0]), in)
	case *ssa.Next:
		fr.regs[ci.dst] = g.next(fr, fr.get(&ci.ops[0]), in)
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = g.typeAssert(fr.get(&ci.ops[0]), in)
	case *ssa.Extract:
		t := fr.get(&ci.ops[0])
		switch t := t.(type) {
		case Tuple:
			fr.regs[ci.dst] = t[in.Index]
		case Poison:
			fr.regs[ci.dst] = t
		default:
			panic(w.unsupported("extract from %T", t))
		}
	case *ssa.Store:
		g.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), ci.t, in)
	case *ssa.Send:
		c, _ := fr.get(&ci.ops[0]).(*ChanObj)
		if fr.fi.visible {
			g.schedPoint("send")
		}
		g.send(c, fr.get(&ci.ops[1]))
	case *ssa.Select:
		if fr.fi.visible {
			g.schedPoint("select")
		}
		fr.regs[ci.dst] = g.doSelect(fr, ci, in)
	case *ssa.Go:
		d := g.prepCall(fr, ci, &in.Call, in)
		if w.baseMode {
			panic(w.unsupported("go statement in init"))
		}
		g.spawn(d)
	case *ssa.Defer:
		if in.DeferStack != nil {
			panic(w.unsupported("defer in range-over-func"))
		}
		fr.defers = append(fr.defers, g.prepCall(fr, ci, &in.Call, in))
	case *ssa.Panic:
		v := fr.get(&ci.ops[0]).(Iface)
		if v.t == nil {
			g.panicRuntime("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(&GoPanic{val: v, where: g.where()})
	default:
		panic(w.unsupported("instruction %T", in))
	}
}

// prepCall evaluates a go/defer call's target and arguments.
func (g *G) prepCall(fr *frame, ci *cInstr, call *ssa.CallCommon, in ssa.Instruction) deferred {
	d := deferred{call: call, in: in}
	nargs := len(call.Args)
	args := make([]Value, 0, nargs+1)
	if call.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		fn, rv := g.resolve(recv, call.Method)
		args = append(args, rv)
		d.clo = fn
	} else {
		f := fr.get(&ci.ops[0])
		switch f := f.(type) {
		case *ssa.Builtin:
			d.bi = f
		case *Closure:
			d.clo = f
		default:
			panic(g.w.unsupported("call of %T %s", f, poisonWhy(f)))
		}
	}
	for k := 0; k < nargs; k++ {
		args = append(args, fr.get(&ci.ops[k+1]))
	}
	d.args = args
	return d
}

func (g *G) doCall(fr *frame, ci *cInstr, call *ssa.CallCommon) Value {
	d := g.prepCall(fr, ci, call, ci.in)
	if d.bi != nil {
		return g.builtin(fr, d.bi, call, d.args)
	}
	return g.callClosure(d.clo, d.args)
}

type methKey struct {
	t types.Type
	m string
}

// resolve finds the method for an interface value.
func (g *G) resolve(recv Value, m *types.Func) (*Closure, Value) {
	w := g.w
	it, ok := recv.(Iface)
	if !ok {
		panic(w.unsupported("invoke on %T %s", recv, poisonWhy(recv)))
	}
	if it.t == nil {
		g.panicNil()
	}
	return g.method(it, m.Pkg(), m.Name()), it.v
}

func (g *G) method(it Iface, pkg *types.Package, name string) *Closure {
	w := g.w
	key := methKey{it.t, name}
	if !token.IsExported(name) && pkg != nil {
		key.m = pkg.Path() + "." + name
	}
	if c, ok := w.meths[key]; ok {
		return c
	}
	fn := w.e.lookupMethod(it.t, pkg, name)
	if fn == nil {
		panic(w.unsupported("no method %s on %v", name, it.t))
	}
	c := w.fnClosure(fn)
	w.meths[key] = c
	return c
}

// callMethod invokes a method by name on an interface value, if it has one.
func (g *G) callMethod(it Iface, name string, args ...Value) Value {
	c := g.method(it, nil, name)
	return g.callClosure(c, append([]Value{it.v}, args...))
}

func (g *G) hasMethod(t types.Type, name string) bool {
	ms := g.w.e.prog.MethodSets.MethodSet(t)
	return ms.Lookup(nil, name) != nil
}

// ---- panics

func (g *G) where() string {
	for f := g.top; f != nil; f = f.caller {
		if f.cur != nil && f.fi.visible {
			if p := f.cur.Pos(); p.IsValid() {
				return g.w.e.pos(p)
			}
			return f.fi.name
		}
	}
	return ""
}

func (g *G) stackString() string {
	var sb strings.Builder
	n := 0
	for f := g.top; f != nil && n < 30; f = f.caller {
		p := ""
		if f.cur != nil && f.cur.Pos().IsValid() {
			p = g.w.e.pos(f.cur.Pos())
		}
		fmt.Fprintf(&sb, "    %s  %s\n", f.fi.name, p)
		n++
	}
	return sb.String()
}

func (g *G) panicNil() {
	g.panicRuntime("invalid memory address or nil pointer dereference")
}

func (g *G) panicRuntime(msg string) {
	t := g.w.e.runtimeErrType("errorString")
	if msg == "assignment to entry in nil map" {
		t = g.w.e.runtimeErrType("plainError")
	}
	msg = strings.TrimPrefix(msg, "runtime error: ")
	panic(&GoPanic{val: Iface{g.w.canon.canon(t), msg}, where: g.where()})
}

func (g *G) panicString(p *GoPanic) string {
	s := ""
	switch v := p.val.v.(type) {
	case string:
		s = v
	case *SymStr:
		s = fmt.Sprintf("<string of %d bytes>", len(v.b))
	case *Term:
		s = v.String()
	default:
		s = fmt.Sprintf("%T", v)
	}
	t := ""
	if p.val.t != nil {
		t = typeString(p.val.t)
	}
	return fmt.Sprintf("%s(%s) at %s", t, s, p.where)
}

// ---- operators

func (g *G) conc(v Value) uint64 {
	t, ok := v.(*Term)
	if !ok {
		panic(g.w.unsupported("expected scalar, got %T %s", v, poisonWhy(v)))
	}
	x := g.concretize(t)
	if t.sort.k == 1 {
		return uint64(sext(x, int(t.sort.w)))
	}
	return x
}

func (g *G) binop(op token.Token, a, b Value, xt, yt types.Type) Value {
	w := g.w
	tc := w.tc
	switch op {
	case token.EQL:
		return g.eqOp(a, b, xt, yt)
	case token.NEQ:
		return tc.Not(g.eqOp(a, b, xt, yt))
	}
	switch x := a.(type) {
	case string, *SymStr:
		switch op {
		case token.ADD:
			return w.strConcat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return tc.Not(w.strLess(b, a))
		case token.GEQ:
			return tc.Not(w.strLess(a, b))
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(w.unsupported("binop with %T %s", b, poisonWhy(b)))
		}
		if x.sort.k == 2 {
			switch op {
			case token.ADD:
				return tc.FBin(OFAdd, x, y)
			case token.SUB:
				return tc.FBin(OFSub, x, y)
			case token.MUL:
				return tc.FBin(OFMul, x, y)
			case token.QUO:
				return tc.FBin(OFDiv, x, y)
			case token.LSS:
				return tc.FBin(OFLt, x, y)
			case token.LEQ:
				return tc.FBin(OFLe, x, y)
			case token.GTR:
				return tc.FBin(OFLt, y, x)
			case token.GEQ:
				return tc.FBin(OFLe, y, x)
			}
			break
		}
		if x.sort.k == 0 {
			switch op {
			case token.AND, token.LAND:
				return tc.And(x, y)
			case token.OR, token.LOR:
				return tc.Or(x, y)
			}
			break
		}
		signed := isSigned(xt)
		wd := int(x.sort.w)
		switch op {
		case token.ADD:
			return tc.Bin(OAdd, x, y)
		case token.SUB:
			return tc.Bin(OSub, x, y)
		case token.MUL:
			return tc.Bin(OMul, x, y)
		case token.QUO, token.REM:
			if g.branch(tc.Eq(y, tc.Const(0, wd))) {
				g.panicRuntime("integer divide by zero")
			}
			if op == token.QUO {
				if signed {
					return tc.Bin(OSDiv, x, y)
				}
				return tc.Bin(OUDiv, x, y)
			}
			if signed {
				return tc.Bin(OSRem, x, y)
			}
			return tc.Bin(OURem, x, y)
		case token.AND:
			return tc.Bin(OBAnd, x, y)
		case token.OR:
			return tc.Bin(OBOr, x, y)
		case token.XOR:
			return tc.Bin(OBXor, x, y)
		case token.AND_NOT:
			return tc.Bin(OBAnd, x, tc.BNot(y))
		case token.SHL, token.SHR:
			yw := int(y.sort.w)
			if isSigned(yt) {
				if g.branch(tc.Bin(OSlt, y, tc.Const(0, yw))) {
					g.panicRuntime("negative shift amount")
				}
			}
			// saturate the shift count at the width of x
			var sh *Term
			if yw > wd {
				big := tc.Bin(OUle, tc.Const(uint64(wd), yw), y)
				sh = tc.Ite(big, tc.Const(uint64(wd), wd), tc.Extract(y, wd-1, 0))
			} else {
				sh = tc.ZExt(y, wd)
			}
			if op == token.SHL {
				return tc.Bin(OShl, x, sh)
			}
			if signed {
				return tc.Bin(OAShr, x, sh)
			}
			return tc.Bin(OLShr, x, sh)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			o := OUlt
			if op == token.LEQ || op == token.GEQ {
				o = OUle
			}
			if signed {
				if o == OUlt {
					o = OSlt
				} else {
					o = OSle
				}
			}
			return tc.Bin(o, x, y)
		}
	case Complex:
		panic(w.unsupported("complex arithmetic"))
	}
	panic(w.unsupported("binop %v on %T %s", op, a, poisonWhy(a)))
}

func (g *G) eqOp(a, b Value, xt, yt types.Type) *Term {
	// interface compared with concrete
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		if _, ok := b.(Iface); !ok {
			b = Iface{g.w.canon.canon(yt), b}
		}
	} else if yi && !xi {
		if _, ok := a.(Iface); !ok {
			a = Iface{g.w.canon.canon(xt), a}
		}
	}
	return g.eq(a, b, xt)
}

func (g *G) unop(fr *frame, ci *cInstr, in *ssa.UnOp) Value {
	w := g.w
	x := fr.get(&ci.ops[0])
	switch in.Op {
	case token.MUL:
		return g.load(x, ci.t, in)
	case token.NOT:
		t, ok := x.(*Term)
		if !ok {
			panic(w.unsupported("not %T %s", x, poisonWhy(x)))
		}
		return w.tc.Not(t)
	case token.SUB:
		t, ok := x.(*Term)
		if !ok {
			panic(w.unsupported("neg %T %s", x, poisonWhy(x)))
		}
		if t.sort.k == 2 {
			return w.tc.FNeg(t)
		}
		return w.tc.Neg(t)
	case token.XOR:
		return w.tc.BNot(x.(*Term))
	case token.ARROW:
		c, _ := x.(*ChanObj)
		if fr.fi.visible {
			g.schedPoint("recv")
		}
		v, ok := g.recv(c, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, w.tc.Bool(ok)}
		}
		return v
	}
	panic(w.unsupported("unop %v", in.Op))
}

func (g *G) convert(v Value, from, to types.Type) Value {
	w := g.w
	tc := w.tc
	if p, ok := v.(Poison); ok {
		return p
	}
	uf, ut := from.Underlying(), to.Underlying()
	if types.Identical(uf, ut) {
		return v
	}
	switch t := ut.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			if term, ok := v.(*Term); ok {
				if term.isConst() && term.v == 0 {
					return Ptr{}
				}
				panic(w.unsupported("uintptr to pointer"))
			}
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case string, *SymStr:
				return v
			case *Term: // rune
				if x.isConst() {
					r := sext(x.v, int(x.sort.w))
					if r < 0 || r > 0x10ffff {
						r = 0xfffd
					}
					return string(rune(r))
				}
				fn := w.e.funcByName("unicode/utf8", "AppendRune")
				r := tc.Resize(x, 32, isSigned(from))
				s := g.callFn(fn, []Value{Slice{stride: 1}, r}, nil, nil).(Slice)
				return mkStr(g.bytesOf(s))
			case Slice:
				et := uf.(*types.Slice).Elem()
				if basicOf(et).Kind() == types.Uint8 || basicOf(et).Kind() == types.Byte {
					if x.obj == nil {
						return ""
					}
					return mkStr(g.bytesOf(x))
				}
				// []rune
				var out Value = ""
				for i := 0; i < x.len; i++ {
					out = w.strConcat(out, g.convert(x.obj.cells[x.off+i], types.Typ[types.Int32], types.Typ[types.String]))
				}
				return out
			}
			panic(w.unsupported("convert %T to string", v))
		}
		switch x := v.(type) {
		case *Term:
			fb := basicOf(from)
			switch {
			case x.sort.k == 1 && t.Info()&types.IsInteger != 0:
				return tc.Resize(x, intWidth(t), fb == nil || fb.Info()&types.IsUnsigned == 0)
			case x.sort.k == 1 && t.Info()&types.IsFloat != 0:
				fw := 64
				if t.Kind() == types.Float32 {
					fw = 32
				}
				return tc.ItoF(x, fw, fb.Info()&types.IsUnsigned == 0)
			case x.sort.k == 2 && t.Info()&types.IsFloat != 0:
				fw := 64
				if t.Kind() == types.Float32 {
					fw = 32
				}
				return tc.FtoF(x, fw)
			case x.sort.k == 2 && t.Info()&types.IsInteger != 0:
				iw := intWidth(t)
				if t.Info()&types.IsUnsigned != 0 && iw == 64 {
					if x.isConst() {
						f := fpv(x.v, int(x.sort.w))
						return tc.Const(uint64(f), 64)
					}
					return tc.FtoSI(x, 64) // in-range values below 2^63
				}
				if iw < 32 {
					return tc.Extract(tc.FtoSI(x, 32), iw-1, 0)
				}
				if iw == 32 && t.Info()&types.IsUnsigned != 0 {
					return tc.Extract(tc.FtoSI(x, 64), 31, 0)
				}
				return tc.FtoSI(x, iw)
			case x.sort.k == 0:
				return x
			}
		case Ptr:
			if t.Kind() == types.Uintptr {
				if x.obj == nil {
					return tc.Const(0, 64)
				}
				return tc.Const(uint64(0xc000000000)+uint64(x.obj.id)<<12+uint64(x.off)*8, 64)
			}
		case Complex:
			return x
		}
	case *types.Slice:
		switch v.(type) {
		case string, *SymStr:
			et := basicOf(t.Elem())
			if et.Kind() == types.Uint8 {
				return g.mkBytes(w.strBytes(v))
			}
			// []rune
			var cells []Value
			it := &strIter{s: v}
			for {
				_, r, ok := g.strNext(it)
				if !ok {
					break
				}
				cells = append(cells, r)
			}
			o := w.newCells(t.Elem(), cells, "runes")
			return Slice{obj: o, len: len(cells), cap: len(cells), stride: 1}
		}
	case *types.Pointer:
		return v // from unsafe.Pointer
	case *types.Array:
		if s, ok := v.(Slice); ok {
			n := int(t.Len())
			if s.len < n {
				g.panicRuntime("cannot convert slice to array: length too short")
			}
			st := w.layoutOf(t.Elem()).n
			if n == 0 {
				return Agg{}
			}
			return Agg(append([]Value(nil), s.obj.cells[s.off:s.off+n*st]...))
		}
	}
	return g.convFallback(v, from, to)
}

func (g *G) convFallback(v Value, from, to types.Type) Value {
	switch to.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Map, *types.Chan, *types.Signature, *types.Slice, *types.Interface:
		return v
	}
	panic(g.w.unsupported("convert %v to %v (%T)", from, to, v))
}

// boundIdx checks 0 <= i < n and returns the term resized to 64 bits.
func (g *G) boundIdx(iv Value, it types.Type, n int) *Term {
	w := g.w
	i, ok := iv.(*Term)
	if !ok {
		panic(w.unsupported("index is %T %s", iv, poisonWhy(iv)))
	}
	i = w.tc.Resize(i, 64, isSigned(it))
	ok2 := w.tc.Bin(OUlt, i, w.tc.Const(uint64(n), 64))
	if !g.branch(ok2) {
		if i.isConst() {
			g.panicRuntime(fmt.Sprintf("index out of range [%d] with length %d", int64(i.v), n))
		}
		g.panicRuntime(fmt.Sprintf("index out of range with length %d", n))
	}
	return i
}

func (g *G) indexAddr(fr *frame, ci *cInstr, in *ssa.IndexAddr) Value {
	w := g.w
	x := fr.get(&ci.ops[0])
	idx := fr.get(&ci.ops[1])
	var obj *Obj
	var base, n, stride int
	switch x := x.(type) {
	case Slice:
		obj, base, n = x.obj, x.off, x.len
		stride = w.layoutOf(in.Type().Underlying().(*types.Pointer).Elem()).n
	case Ptr:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if x.obj == nil {
			g.panicNil()
		}
		obj, base, n = x.obj, x.off, int(at.Len())
		stride = w.layoutOf(at.Elem()).n
	case *SPtr:
		c := g.concPtr(x)
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		obj, base, n = c.obj, c.off, int(at.Len())
		stride = w.layoutOf(at.Elem()).n
	default:
		panic(w.unsupported("indexaddr of %T %s", x, poisonWhy(x)))
	}
	i := g.boundIdx(idx, in.Index.Type(), n)
	if i.isConst() {
		return Ptr{obj, base + int(i.v)*stride}
	}
	if stride != 1 || n > 300 || w.concIdx {
		k := int(g.concretize(i))
		return Ptr{obj, base + k*stride}
	}
	return &SPtr{obj: obj, base: base, n: n, idx: i, stride: stride}
}

func (g *G) index(fr *frame, ci *cInstr, in *ssa.Index) Value {
	w := g.w
	x := fr.get(&ci.ops[0])
	idx := fr.get(&ci.ops[1])
	switch x := x.(type) {
	case string, *SymStr:
		return g.strIndex(x, idx, in.Index.Type())
	case Agg:
		at := in.X.Type().Underlying().(*types.Array)
		el := w.layoutOf(at.Elem())
		i := g.boundIdx(idx, in.Index.Type(), int(at.Len()))
		if !i.isConst() && el.leaf {
			if _, ok := x[0].(*Term); ok {
				var r *Term
				for k := len(x) - 1; k >= 0; k-- {
					c := x[k].(*Term)
					if r == nil {
						r = c
					} else {
						r = w.tc.Ite(w.tc.Eq(i, w.tc.Const(uint64(k), 64)), c, r)
					}
				}
				return r
			}
		}
		k := int(g.concretize(i))
		if el.leaf {
			return x[k]
		}
		return Agg(append([]Value(nil), x[k*el.n:(k+1)*el.n]...))
	}
	panic(w.unsupported("index of %T %s", x, poisonWhy(x)))
}

func (g *G) strIndex(x Value, idx Value, it types.Type) Value {
	w := g.w
	n := strLen(x)
	i := g.boundIdx(idx, it, n)
	if i.isConst() {
		return w.strByte(x, int(i.v))
	}
	var r *Term
	for k := n - 1; k >= 0; k-- {
		c := w.strByte(x, k)
		if r == nil {
			r = c
		} else {
			r = w.tc.Ite(w.tc.Eq(i, w.tc.Const(uint64(k), 64)), c, r)
		}
	}
	return r
}

func (g *G) lookup(fr *frame, ci *cInstr, in *ssa.Lookup) Value {
	w := g.w
	x := fr.get(&ci.ops[0])
	k := fr.get(&ci.ops[1])
	switch m := x.(type) {
	case string, *SymStr:
		return g.strIndex(m, k, in.Index.Type())
	case *MapObj:
		g.accessMap(m, false, in)
		var v Value
		e := g.mapFind(m, k)
		if e != nil {
			v = e.v
		} else {
			v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, w.tc.Bool(e != nil)}
		}
		return v
	}
	panic(w.unsupported("lookup in %T %s", x, poisonWhy(x)))
}

func (g *G) slice(fr *frame, ci *cInstr, in *ssa.Slice) Value {
	w := g.w
	x := fr.get(&ci.ops[0])
	bound := func(k int) (int, bool) {
		if ci.ops[k].slot == -2 {
			return 0, false
		}
		return int(int64(g.conc(fr.get(&ci.ops[k])))), true
	}
	lo, _ := bound(1)
	hi, hasHi := bound(2)
	mx, hasMax := bound(3)
	fail := func() {
		g.panicRuntime("slice bounds out of range")
	}
	switch s := x.(type) {
	case string, *SymStr:
		n := strLen(s)
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			fail()
		}
		return w.strSlice(s, lo, hi)
	case Slice:
		if !hasHi {
			hi = s.len
		}
		if !hasMax {
			mx = s.cap
		}
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			fail()
		}
		st := s.stride
		if s.obj == nil {
			return Slice{stride: st}
		}
		return Slice{obj: s.obj, off: s.off + lo*st, len: hi - lo, cap: mx - lo, stride: st}
	case *SPtr:
		panic(w.unsupported("slice of sptr"))
	case Ptr:
		if s.obj == nil {
			g.panicNil()
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		st := w.layoutOf(at.Elem()).n
		if !hasHi {
			hi = n
		}
		if !hasMax {
			mx = n
		}
		if lo < 0 || hi < lo || mx < hi || mx > n {
			fail()
		}
		return Slice{obj: s.obj, off: s.off + lo*st, len: hi - lo, cap: mx - lo, stride: st}
	}
	panic(w.unsupported("slice of %T %s", x, poisonWhy(x)))
}

// ---- iteration

type strIter struct {
	s Value
	i int
}

type mapIter struct {
	m    *MapObj
	ents []*mapEntry
	i    int
}

func (g *G) rangeIter(fr *frame, x Value, in *ssa.Range) Value {
	switch x := x.(type) {
	case string, *SymStr:
		return &strIter{s: x}
	case *MapObj:
		it := &mapIter{m: x}
		if x != nil {
			g.accessMap(x, false, in)
			it.ents = append([]*mapEntry(nil), x.ents...)
			if g.w.mapOrder && fr.fi.repo && x.n > 1 {
				// arbitrary iteration order
				var live []*mapEntry
				for _, e := range it.ents {
					if !e.deleted {
						live = append(live, e)
					}
				}
				if len(live) > 1 {
					if len(live) > 3 {
						// rotations and reversal only
						k := g.choose("maporder", len(live)+1)
						if k == len(live) {
							for a, b := 0, len(live)-1; a < b; a, b = a+1, b-1 {
								live[a], live[b] = live[b], live[a]
							}
						} else {
							live = append(append([]*mapEntry(nil), live[k:]...), live[:k]...)
						}
					} else {
						for a := 0; a < len(live)-1; a++ {
							k := g.choose("maporder", len(live)-a)
							live[a], live[a+k] = live[a+k], live[a]
						}
					}
					it.ents = live
				}
			}
		}
		return it
	}
	panic(g.w.unsupported("range over %T %s", x, poisonWhy(x)))
}

func (g *G) next(fr *frame, x Value, in *ssa.Next) Value {
	w := g.w
	switch it := x.(type) {
	case *strIter:
		i, r, ok := g.strNext(it)
		if !ok {
			return Tuple{w.tc.F, w.tc.Const(0, 64), w.tc.Const(0, 32)}
		}
		return Tuple{w.tc.T, w.tc.Const(uint64(i), 64), r}
	case *mapIter:
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if e.deleted {
				continue
			}
			g.accessMap(it.m, false, in)
			return Tuple{w.tc.T, e.k, e.v}
		}
		t := in.Type().(*types.Tuple)
		z := Tuple{w.tc.F}
		for k := 1; k <= 2; k++ {
			tt := t.At(k).Type()
			if b, ok := tt.(*types.Basic); ok && b.Kind() == types.Invalid {
				z = append(z, nil)
			} else {
				z = append(z, w.zero(tt))
			}
		}
		return z
	}
	panic(w.unsupported("next on %T", x))
}

func (g *G) strNext(it *strIter) (int, *Term, bool) {
	w := g.w
	n := strLen(it.s)
	if it.i >= n {
		return 0, nil, false
	}
	i := it.i
	b := w.strByte(it.s, i)
	if g.branch(w.tc.Bin(OUlt, b, w.tc.Const(0x80, 8))) {
		it.i++
		return i, w.tc.ZExt(b, 32), true
	}
	fn := w.e.funcByName("unicode/utf8", "DecodeRuneInString")
	r := g.callFn(fn, []Value{w.strSlice(it.s, i, n)}, nil, nil).(Tuple)
	it.i += int(g.concretize(r[1].(*Term)))
	return i, r[0].(*Term), true
}

// ---- type assertions

func (g *G) implements(dyn types.Type, it *types.Interface) bool {
	key := implKey{dyn, it}
	if v, ok := g.w.impl[key]; ok {
		return v
	}
	v := types.Implements(dyn, it)
	g.w.impl[key] = v
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (g *G) typeAssert(x Value, in *ssa.TypeAssert) Value {
	w := g.w
	v, ok := x.(Iface)
	if !ok {
		panic(w.unsupported("type assert on %T %s", x, poisonWhy(x)))
	}
	at := in.AssertedType
	var match bool
	var res Value
	if it, isI := at.Underlying().(*types.Interface); isI {
		match = v.t != nil && g.implements(v.t, it)
		res = v
	} else {
		match = v.t != nil && v.t == w.canon.canon(at)
		res = v.v
	}
	if in.CommaOk {
		if !match {
			return Tuple{w.zero(at), w.tc.F}
		}
		return Tuple{res, w.tc.T}
	}
	if !match {
		dyn := "nil"
		if v.t != nil {
			dyn = typeString(v.t)
		}
		g.panicRuntime("interface conversion: interface is " + dyn + ", not " + typeString(at))
	}
	return res
}

// ---- builtins

func (g *G) builtin(fr *frame, bi *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	w := g.w
	tc := w.tc
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			panic(w.unsupported("builtin on poison: %s", p.why))
		}
	}
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return tc.Const(uint64(strLen(x)), 64)
		case Slice:
			return tc.Const(uint64(x.len), 64)
		case *MapObj:
			if x == nil {
				return tc.Const(0, 64)
			}
			g.accessMap(x, false, fr.cur)
			return tc.Const(uint64(x.n), 64)
		case *ChanObj:
			if x == nil {
				return tc.Const(0, 64)
			}
			return tc.Const(uint64(len(x.buf)), 64)
		case Ptr:
			return tc.Const(uint64(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		case Agg:
			return tc.Const(uint64(call.Args[0].Type().Underlying().(*types.Array).Len()), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return tc.Const(uint64(x.cap), 64)
		case *ChanObj:
			if x == nil {
				return tc.Const(0, 64)
			}
			return tc.Const(uint64(x.cap), 64)
		case Ptr:
			return tc.Const(uint64(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		}
	case "append":
		return g.appendOp(args[0].(Slice), args[1], call.Args[0].Type())
	case "copy":
		dst := args[0].(Slice)
		switch src := args[1].(type) {
		case string, *SymStr:
			n := strLen(src)
			if dst.len < n {
				n = dst.len
			}
			if n > 0 {
				w.touch(dst.obj)
				for i := 0; i < n; i++ {
					g.access(dst.obj, dst.off+i, 1, true, fr.cur)
					dst.obj.cells[dst.off+i] = w.strByte(src, i)
				}
			}
			return tc.Const(uint64(n), 64)
		case Slice:
			n := src.len
			if dst.len < n {
				n = dst.len
			}
			if n > 0 {
				st := w.layoutOf(call.Args[0].Type().Underlying().(*types.Slice).Elem()).n
				g.access(src.obj, src.off, n*st, false, fr.cur)
				g.access(dst.obj, dst.off, n*st, true, fr.cur)
				w.touch(dst.obj)
				copy(dst.obj.cells[dst.off:dst.off+n*st], src.obj.cells[src.off:src.off+n*st])
			}
			return tc.Const(uint64(n), 64)
		}
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			g.accessMap(m, true, fr.cur)
		}
		g.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				g.accessMap(x, true, fr.cur)
				w.touchMap(x)
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents, x.n, x.nsym, x.idx = nil, 0, 0, map[string]*mapEntry{}
			}
		case Slice:
			if x.len > 0 {
				et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
				l := w.layoutOf(et)
				w.touch(x.obj)
				for i := 0; i < x.len; i++ {
					g.access(x.obj, x.off+i*l.n, l.n, true, fr.cur)
					copy(x.obj.cells[x.off+i*l.n:], l.zero)
				}
			}
		}
		return nil
	case "close":
		c, _ := args[0].(*ChanObj)
		if fr.fi.visible {
			g.schedPoint("close")
		}
		g.closeChan(c)
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(&GoPanic{val: v, where: g.where()})
	case "recover":
		return g.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = g.minmax(bi.Name() == "min", r, a, call.Args[0].Type())
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			g.panicRuntime("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := int(g.conc(args[1]))
		if n == 0 {
			return ""
		}
		b := make([]*Term, n)
		for i := range b {
			g.access(p.obj, p.off+i, 1, false, fr.cur)
			b[i] = p.obj.cells[p.off+i].(*Term)
		}
		return mkStr(b)
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.obj, s.off}
	case "StringData":
		if strLen(args[0]) == 0 {
			return Ptr{}
		}
		s := g.mkBytes(w.strBytes(args[0]))
		return Ptr{s.obj, 0}
	case "Slice":
		p := args[0].(Ptr)
		n := int(g.conc(args[1]))
		et := call.Args[0].Type().Underlying().(*types.Pointer).Elem()
		if p.obj == nil {
			return Slice{stride: w.layoutOf(et).n}
		}
		return Slice{obj: p.obj, off: p.off, len: n, cap: n, stride: w.layoutOf(et).n}
	case "Add":
		panic(w.unsupported("unsafe.Add"))
	case "real":
		return args[0].(Complex).re
	case "imag":
		return args[0].(Complex).im
	case "complex":
		return Complex{args[0].(*Term), args[1].(*Term)}
	}
	panic(w.unsupported("builtin %s on %T", bi.Name(), args[0]))
}

func (g *G) minmax(isMin bool, a, b Value, t types.Type) Value {
	w := g.w
	less := g.binop(token.LSS, b, a, t, t).(*Term)
	if !isMin {
		less = g.binop(token.LSS, a, b, t, t).(*Term)
	}
	x, ok := a.(*Term)
	if ok {
		y := b.(*Term)
		if x.sort.k == 2 && !(x.isConst() && y.isConst()) {
			nan := w.tc.Or(w.tc.FNaN(x), w.tc.FNaN(y))
			return w.tc.Ite(nan, w.tc.F64(math.NaN()), w.tc.Ite(less, y, x))
		}
		return w.tc.Ite(less, y, x)
	}
	if g.branch(less) {
		return b
	}
	return a
}

func growCap(oldCap, need int) int {
	c := oldCap * 2
	if oldCap >= 256 {
		c = oldCap + (oldCap+768)/4
	}
	if c < need {
		c = need
	}
	if c < 4 {
		c = need
		if c < 1 {
			c = 1
		}
	}
	return c
}

func (g *G) appendOp(s Slice, more Value, st types.Type) Value {
	w := g.w
	et := st.Underlying().(*types.Slice).Elem()
	l := w.layoutOf(et)
	var add []Value
	n := 0
	switch m := more.(type) {
	case string, *SymStr:
		for _, t := range w.strBytes(m) {
			add = append(add, t)
		}
		n = len(add)
	case Slice:
		n = m.len
		if n > 0 {
			g.access(m.obj, m.off, n*l.n, false, g.top.cur)
			add = append([]Value(nil), m.obj.cells[m.off:m.off+n*l.n]...)
		}
	default:
		panic(w.unsupported("append %T", more))
	}
	if n == 0 {
		return s
	}
	if s.obj != nil && s.len+n <= s.cap {
		o := s.off + s.len*l.n
		g.access(s.obj, o, n*l.n, true, g.top.cur)
		w.touch(s.obj)
		copy(s.obj.cells[o:o+n*l.n], add)
		return Slice{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap, stride: l.n}
	}
	c := growCap(s.cap, s.len+n)
	cells := make([]Value, 0, c*l.n)
	if s.obj != nil {
		g.access(s.obj, s.off, s.len*l.n, false, g.top.cur)
		cells = append(cells, s.obj.cells[s.off:s.off+s.len*l.n]...)
	}
	cells = append(cells, add...)
	for i := s.len + n; i < c; i++ {
		cells = append(cells, l.zero...)
	}
	o := w.newCells(et, cells, "append")
	return Slice{obj: o, len: s.len + n, cap: c, stride: l.n}
}

func (g *G) doRecover(fr *frame) Value {
	p := fr.deferOf
	if p == nil || p.panicking == nil {
		return Iface{}
	}
	v := p.panicking.val
	p.panicking = nil
	return v
}
