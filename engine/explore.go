package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Item is one unexplored path prefix.
type Item struct {
	prefix []int64
	model  Model
}

// Cex is a candidate counterexample.
type Cex struct {
	Harness string
	Viol    Violation
	Stack   string
	Inputs  []Input
	Choices []ChoiceRec
	Sched   int // number of scheduling choices
	Observe []string
	Run     ReplayRun
}

// Input is a symbolic input with its value in a model.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type ChoiceRec struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Pick int    `json:"pick"`
}

type Engine struct {
	prog         *ssa.Program
	fset         *token.FileSet
	repoDir      string
	repoMod      string
	harnessMod   string
	preemptBound int
	debug        bool
	thorough     bool
	solverBin    string
	solverTO     int
	maxSteps     int64
	maxPaths     int64
	deadline     time.Time
	workers      int

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Item
	idle     int
	stop     bool
	nWorkers int

	funcs    map[string]bool
	nPaths   int64
	stats    RunStats
	cexs     []Cex
	cexKeys  map[string]int
	samples  []PathSample
	reached  map[string]int64
	unsup    map[string]int64
	rtErr    map[string]types.Type
	vrfPkg   string
	stubSeen map[string]bool
	stopCex  bool
	byName   map[string]*ssa.Function
	lmMu     sync.Mutex
	bounds   map[string]int64
	stubs    map[string]bool
	sampleEv int64
}

type PathSample struct {
	Inputs  []Input
	Choices []ChoiceRec
	Observe []string
	Run     ReplayRun `json:"-"`
}

// ReplayRun is everything needed to follow one path natively.
type ReplayRun struct {
	Harness  string      `json:"harness"`
	Kind     string      `json:"kind"` // of the expected violation; "" for a sample
	Msg      string      `json:"msg,omitempty"`
	Pos      string      `json:"pos,omitempty"`
	Thorough bool        `json:"thorough"`
	Inputs   []Input     `json:"inputs"`
	Choose   []int       `json:"choose"`
	MapOrd   []int       `json:"maporder"`
	Switches []SwitchRec `json:"switches"`
	Selects  []int       `json:"selects"`

	CrandFail bool `json:"crandfail,omitempty"`
}

func (w *Worker) replayRun(h string) ReplayRun {
	r := ReplayRun{Harness: h, Thorough: w.e.thorough, CrandFail: w.crandFail, Inputs: w.evalInputs(), Switches: append([]SwitchRec{}, w.swrec...), Selects: append([]int{}, w.selrec...), Choose: []int{}, MapOrd: []int{}}
	for _, c := range w.choices {
		switch c.Kind {
		case "choose":
			r.Choose = append(r.Choose, c.Pick)
		case "map":
			r.MapOrd = append(r.MapOrd, c.Pick)
		}
	}
	return r
}

type RunStats struct {
	Paths, Pruned, Steps, Asserts, AssertSyntactic, AssertUnsat, AssertSat, AssertUnknown int64
	Budget, Unknown, Switches, VisOps                                                     int64
	Branches, Forks, Tables                                                               int64
	Solver                                                                                SolverStats
	MaxPC                                                                                 int
}

func (e *Engine) isRepo(p string) bool {
	return p == e.repoMod || strings.HasPrefix(p, e.repoMod+"/")
}
func (e *Engine) isHarness(p string) bool {
	return p == e.harnessMod || strings.HasPrefix(p, e.harnessMod+"/")
}

func (e *Engine) pos(p token.Pos) string {
	q := e.fset.Position(p)
	f := q.Filename
	if strings.HasPrefix(f, e.repoDir+"/") {
		f = "repo:" + f[len(e.repoDir)+1:]
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) inRepoPos(s string) bool { return strings.HasPrefix(s, "repo:") }

func (e *Engine) noteFunc(fi *FuncInfo) {
	e.mu.Lock()
	e.funcs[fi.name] = true
	e.mu.Unlock()
}

func (e *Engine) runtimeErrType(n string) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if t, ok := e.rtErr[n]; ok {
		return t
	}
	p := e.prog.ImportedPackage("runtime")
	t := p.Pkg.Scope().Lookup(n).Type()
	e.rtErr[n] = t
	return t
}

func (e *Engine) funcByName(pkg, name string) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := pkg + "." + name
	if f, ok := e.byName[k]; ok {
		return f
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(Unsupported{"package not loaded: " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(Unsupported{"no function " + k})
	}
	e.byName[k] = f
	return f
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(Unsupported{"package not loaded: " + pkg})
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.lmMu.Lock()
	defer e.lmMu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// ---- Worker

type Worker struct {
	e        *Engine
	id       int
	tc       *TermCtx
	sol      *Solver
	layouts  map[types.Type]*layout
	canon    typeCanon
	finfo    map[*ssa.Function]*FuncInfo
	fnClos   map[*ssa.Function]*Closure
	globals  map[*ssa.Global]*Obj
	pkgState map[*ssa.Package]int
	meths    map[methKey]*Closure
	impl     map[implKey]bool
	baseMode bool
	epoch    int64
	undo     []func()
	objID    int64

	// per path
	gs       []*G
	cur      *G
	wg       sync.WaitGroup
	endCh    chan interface{}
	prefix   []int64
	dec      []int64
	pc       []*Term
	model    Model
	inputs   []inputVar
	inNames  map[string]int
	choices  []ChoiceRec
	observe  []obsRec
	preempt  int
	noSched  int
	visOps   int64
	switches int64
	steps    int64
	maxSteps int64
	spin     int
	locVC    map[Ptr]*VC
	locks    map[Ptr]*mutexState
	races    bool
	mapOrder bool
	clock    clockState
	timers   []*timerObj
	natSt    map[string]interface{}
	asserted int64
	st       RunStats
	syncMaps map[Ptr]*MapObj
	pools    map[Ptr]*[]Value
	reach    map[string]bool
	fresh    int
	stubRand bool
	symRand  bool
	randBits int
	concIdx  bool // symbolic indices fork over their values
	symCrand bool
	opt      map[string]int64

	progress     int64
	ticks        int64
	preemptBound int
	fakeCaller   Value
	inlined      bool // runtime.Frame.Func is nil
	pcs          []Value
	basePcs      []Value
	baseSyncMaps map[Ptr]*MapObj
	crandFail    bool
	baseRand     uint64
	detRand      uint64
	envN         int
	sawAssert    bool
	swrec        []SwitchRec
	selrec       []int
}

type inputVar struct {
	name, kind string
	t          *Term
}

type obsRec struct {
	name string
	v    Value
}

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{e: e, id: id, tc: NewTermCtx(), layouts: map[types.Type]*layout{}, finfo: map[*ssa.Function]*FuncInfo{},
		fnClos: map[*ssa.Function]*Closure{}, globals: map[*ssa.Global]*Obj{}, pkgState: map[*ssa.Package]int{}, meths: map[methKey]*Closure{},
		impl: map[implKey]bool{}, baseSyncMaps: map[Ptr]*MapObj{}}
	w.canon.raw = map[types.Type]types.Type{}
	w.sol = NewSolver(w.tc, e.solverBin, e.solverTO)
	w.resetPath()
	w.maxSteps = 50_000_000
	return w
}

func (w *Worker) resetPath() {
	w.epoch++
	w.gs = nil
	w.prefix, w.dec, w.pc, w.model = nil, nil, nil, Model{}
	w.inputs = nil
	w.inNames = map[string]int{}
	w.choices = nil
	w.observe = nil
	w.preempt, w.noSched, w.steps, w.spin, w.visOps, w.switches = 0, 0, 0, 0, 0, 0
	w.locVC = map[Ptr]*VC{}
	w.locks = map[Ptr]*mutexState{}
	w.races = true
	w.mapOrder = false
	w.clock = clockState{}
	w.timers = nil
	w.natSt = map[string]interface{}{}
	w.syncMaps = map[Ptr]*MapObj{}
	w.pools = map[Ptr]*[]Value{}
	w.reach = map[string]bool{}
	w.fresh = 0
	w.asserted = 0
	w.symRand, w.symCrand, w.stubRand = false, false, false
	w.randBits = 0
	w.concIdx = false
	w.opt = map[string]int64{}
	w.progress, w.ticks, w.envN = 0, 0, 0
	w.preemptBound = w.e.preemptBound
	w.fakeCaller, w.pcs, w.crandFail = nil, nil, false
	w.detRand = 12345
	w.sawAssert = false
	w.swrec, w.selrec = nil, nil
}

// initPackages initialises repo and harness packages eagerly.
func (w *Worker) initPackages(pkgs []*ssa.Package) error {
	w.baseMode = true
	end := w.runMain(func(g *G) {
		for _, p := range pkgs {
			w.initPkg(g, p)
		}
	})
	w.baseMode = false
	if end != nil {
		return fmt.Errorf("package initialisation: %v", end)
	}
	return nil
}

// ---- decisions

func (w *Worker) nextDecision() (int64, bool) {
	if len(w.dec) < len(w.prefix) {
		return w.prefix[len(w.dec)], true
	}
	return 0, false
}

func (w *Worker) pushAlt(d int64, m Model) {
	p := make([]int64, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = d
	w.e.push(Item{p, m})
	w.st.Forks++
}

// branch decides a condition, forking when both sides are feasible.
func (g *G) branch(c *Term) bool {
	w := g.w
	if c.op == OConst {
		return c.v != 0
	}
	if w.baseMode {
		panic(w.unsupported("symbolic branch in init"))
	}
	if d, ok := w.nextDecision(); ok {
		w.dec = append(w.dec, d)
		if d < 2 {
			if d == 1 {
				w.pc = append(w.pc, c)
			} else {
				w.pc = append(w.pc, w.tc.Not(c))
			}
		}
		return d&1 == 1
	}
	w.st.Branches++
	w.e.checkStop()
	v := w.tc.Eval(c, w.model) != 0
	mine, other := c, w.tc.Not(c)
	if !v {
		mine, other = other, mine
	}
	res, m := w.feasible(other)
	d := int64(b2i(v))
	switch res {
	case Sat:
		w.pushAlt(1-d, m)
		w.pc = append(w.pc, mine)
	case Unsat:
		d |= 2
	case Unknown:
		w.st.Unknown++
		w.pc = append(w.pc, mine)
	}
	w.dec = append(w.dec, d)
	return v
}

// choose is an explicit nondeterministic choice among n alternatives.
func (g *G) choose(kind string, n int) int {
	w := g.w
	if n <= 1 {
		return 0
	}
	if w.baseMode {
		return 0
	}
	// the choice is a symbolic variable bounded by n
	v := w.tc.Var(fmt.Sprintf("%s!%d", kind, len(w.choices)), BV(8))
	var k int
	if d, ok := w.nextDecision(); ok {
		k = int(d)
	} else {
		w.e.checkStop()
		for i := n - 1; i >= 1; i-- {
			m := w.model.with(v.name, uint64(i))
			w.pushAlt(int64(i), m)
		}
		k = 0
		w.model = w.model.with(v.name, 0)
	}
	w.dec = append(w.dec, int64(k))
	w.pc = append(w.pc, w.tc.Eq(v, w.tc.Const(uint64(k), 8)))
	w.choices = append(w.choices, ChoiceRec{kind, n, k})
	return k
}

// concretize forks over the feasible values of t.
func (g *G) concretize(t *Term) uint64 {
	w := g.w
	if t.op == OConst {
		return t.v
	}
	if t.sort.k == 0 {
		return uint64(b2i(g.branch(t)))
	}
	for i := 0; i < 300; i++ {
		var v uint64
		if d, ok := w.nextDecision(); ok {
			v = uint64(d)
		} else {
			v = w.tc.Eval(t, w.model)
		}
		w.dec = append(w.dec, int64(v))
		if g.branch(w.tc.Eq(t, w.tc.constOf(t.sort, v))) {
			return v
		}
	}
	panic(budgetStop{"concretization of a term with more than 300 values"})
}

func (g *G) assume(c *Term) {
	w := g.w
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(assumeFail{})
	}
	if len(w.dec) < len(w.prefix) {
		// still replaying: feasibility known
		w.dec = append(w.dec, w.prefix[len(w.dec)])
		w.pc = append(w.pc, c)
		return
	}
	w.pc = append(w.pc, c)
	w.dec = append(w.dec, 1)
	if w.tc.Eval(c, w.model) != 0 {
		return
	}
	res, m := w.sol.Check(w.pc, nil)
	switch res {
	case Sat:
		w.model = m
	case Unsat:
		panic(assumeFail{})
	default:
		w.st.Unknown++
		panic(assumeFail{})
	}
}

// assert decides an assertion on the current path.
func (g *G) assert(c *Term, msg string) {
	w := g.w
	w.asserted++
	if len(w.dec) < len(w.prefix) {
		// decided before on the path this one was forked from
		if c.op != OConst {
			w.dec = append(w.dec, w.prefix[len(w.dec)])
			w.pc = append(w.pc, c)
			return
		}
	}
	w.st.Asserts++
	if c.isTrue() {
		w.st.AssertSyntactic++
		return
	}
	if c.isFalse() {
		w.st.AssertSat++
		panic(Violation{kind: "assert", msg: msg, pos: g.where()})
	}
	res, m := w.sol.Check(w.pc, w.tc.Not(c))
	switch res {
	case Unsat:
		w.st.AssertUnsat++
	case Sat:
		w.st.AssertSat++
		w.model = m
		panic(Violation{kind: "assert", msg: msg, pos: g.where()})
	default:
		w.st.AssertUnknown++
		w.e.noteUnsup("solver gave no answer for assertion: " + msg)
	}
	w.dec = append(w.dec, 1)
	w.pc = append(w.pc, c)
}

func (m Model) with(n string, v uint64) Model {
	r := make(Model, len(m)+1)
	for k, x := range m {
		r[k] = x
	}
	r[n] = v
	return r
}

// ---- queue

func (e *Engine) push(it Item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop() (Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return Item{}, false
		}
		if n := len(e.queue); n > 0 {
			it := e.queue[n-1]
			e.queue = e.queue[:n-1]
			return it, true
		}
		e.idle++
		if e.idle == e.nWorkers {
			e.stop = true
			e.cond.Broadcast()
			return Item{}, false
		}
		e.cond.Wait()
		e.idle--
	}
}

func (e *Engine) checkStop() {
	if time.Now().After(e.deadline) {
		panic(budgetStop{"time"})
	}
}

func (e *Engine) noteUnsup(s string) {
	e.mu.Lock()
	e.unsup[s]++
	e.mu.Unlock()
}

// explore runs one harness exhaustively within the bounds.
func (e *Engine) explore(ws []*Worker, h *ssa.Function) {
	e.queue = []Item{{nil, Model{}}}
	e.idle = 0
	e.stop = false
	e.nWorkers = len(ws)
	e.cond = sync.NewCond(&e.mu)
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				it, ok := e.pop()
				if !ok {
					return
				}
				w.runItem(h, it)
				e.mu.Lock()
				e.nPaths++
				if e.nPaths >= e.maxPaths && !e.stop {
					e.unsup["path budget exhausted"]++
					e.stop = true
					e.cond.Broadcast()
				}
				if time.Now().After(e.deadline) && !e.stop {
					e.unsup["time budget exhausted"]++
					e.stop = true
					e.cond.Broadcast()
				}
				e.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
}

func (w *Worker) runItem(h *ssa.Function, it Item) {
	e := w.e
	w.resetPath()
	w.prefix = it.prefix
	w.model = it.model
	w.maxSteps = e.maxSteps
	t0 := time.Now()
	_ = t0
	var stack string
	end := w.runMain(func(g *G) {
		g.callFn(h, nil, nil, nil)
	})
	if v, ok := end.(Violation); ok {
		if w.cur != nil {
			stack = w.cur.stackString()
		}
		_ = v
	}
	w.st.Steps += w.steps
	w.st.Switches += w.switches
	w.st.VisOps += w.visOps
	if len(w.pc) > w.st.MaxPC {
		w.st.MaxPC = len(w.pc)
	}
	switch r := end.(type) {
	case nil, pathEnd:
		w.st.Paths++
		w.sample(h.Name())
	case Violation:
		w.st.Paths++
		w.report(h, r, stack)
	case assumeFail:
		w.st.Pruned++
	case Unsupported:
		e.noteUnsup(r.msg)
		if e.debug {
			fmt.Println("unsupported:", r.msg)
			fmt.Println(w.cur.stackString())
		}
	case budgetStop:
		w.st.Budget++
		e.noteUnsup("budget: " + r.what)
		if e.debug && r.what != "time" {
			fmt.Println("budget:", r.what)
			fmt.Println(w.cur.stackString())
		}
	default:
		e.noteUnsup(fmt.Sprintf("engine error: %v", r))
		if e.debug {
			fmt.Println("engine error:", r)
			fmt.Println(w.cur.stackString())
		}
	}
	e.mu.Lock()
	for k := range w.reach {
		e.reached[k]++
	}
	e.mu.Unlock()
	for i := len(w.undo) - 1; i >= 0; i-- {
		w.undo[i]()
	}
	w.undo = w.undo[:0]
}

// evalInputs gives the values of the symbolic inputs in the current model.
func (w *Worker) evalInputs() []Input {
	var r []Input
	for _, iv := range w.inputs {
		r = append(r, Input{iv.name, iv.kind, w.tc.Eval(iv.t, w.model)})
	}
	return r
}

func (w *Worker) evalObserve() []string {
	var r []string
	for _, o := range w.observe {
		r = append(r, o.name+"="+w.showModel(o.v))
	}
	return r
}

// showModel renders a value under the model, matching vrf.Observe's native output.
func (w *Worker) showModel(v Value) string {
	switch x := v.(type) {
	case *Term:
		u := w.tc.Eval(x, w.model)
		switch x.sort.k {
		case 0:
			return fmt.Sprintf("b%d", u)
		case 1:
			return fmt.Sprintf("i%d", sext(u, int(x.sort.w)))
		}
		if f := fpv(u, int(x.sort.w)); f != f {
			return "fNaN"
		}
		return fmt.Sprintf("f%x", u)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(w.tc.Eval(t, w.model))
		}
		return fmt.Sprintf("%q", string(b))
	}
	return fmt.Sprintf("%T", v)
}

func (w *Worker) sample(h string) {
	e := w.e
	e.mu.Lock()
	n := e.sampleEv
	e.sampleEv++
	take := len(e.samples) < maxSamples && (n < 10 || n%37 == 0)
	e.mu.Unlock()
	if !take {
		return
	}
	s := PathSample{w.evalInputs(), append([]ChoiceRec(nil), w.choices...), w.evalObserve(), w.replayRun(h)}
	e.mu.Lock()
	e.samples = append(e.samples, s)
	e.mu.Unlock()
}

func (w *Worker) report(h *ssa.Function, v Violation, stack string) {
	e := w.e
	c := Cex{Harness: h.Name(), Viol: v, Stack: stack, Inputs: w.evalInputs(), Choices: append([]ChoiceRec(nil), w.choices...), Observe: w.evalObserve()}
	c.Run = w.replayRun(h.Name())
	c.Run.Kind, c.Run.Msg, c.Run.Pos = v.kind, v.msg, v.pos
	for _, ch := range w.choices {
		if ch.Kind == "sched" || ch.Kind == "select" {
			c.Sched++
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	key := v.kind + "|" + v.pos
	if v.kind == "race" {
		key = v.msg
	}
	e.cexKeys[key]++
	if e.cexKeys[key] <= 3 && len(e.cexs) < 40 {
		e.cexs = append(e.cexs, c)
	}
	if e.cexKeys[key] > 200 {
		e.stop = true
		e.cond.Broadcast()
	}
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// maxSamples is the number of paths per harness that are replayed natively.
var maxSamples = func() int {
	if s := os.Getenv("VRF_SAMPLES"); s != "" {
		n, _ := strconv.Atoi(s)
		return n
	}
	return 40
}()
