package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// VC is a vector clock indexed by goroutine id.
type VC []int32

func (a VC) get(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a *VC) set(i int, v int32) {
	for len(*a) <= i {
		*a = append(*a, 0)
	}
	(*a)[i] = v
}

func (a *VC) join(b VC) {
	for i, v := range b {
		if v > a.get(i) {
			a.set(i, v)
		}
	}
}

func (a VC) clone() VC { return append(VC(nil), a...) }

// G is an interpreted goroutine.
type G struct {
	w      *Worker
	id     int
	top    *frame
	depth  int
	resume chan bool
	done   bool
	cond   func() bool // nil: ready
	what   string      // what it blocks on
	vc     VC
	daemon bool
	sleep  bool
	name   string

	settling bool
	yielded  bool
	yieldAt  int64
	nvis     int
}

type shadowCell struct {
	wg    int
	wc    int32
	wpos  string
	watom bool
	hasW  bool
	reads map[int]rdInfo
}

type rdInfo struct {
	c    int32
	pos  string
	atom bool
}

func (g *G) posOf(in ssa.Instruction) string {
	if in != nil && in.Pos().IsValid() && g.top != nil && g.top.fi.visible {
		return g.w.e.pos(in.Pos())
	}
	return g.where()
}

// access records a plain memory access for race detection.
func (g *G) access(o *Obj, off, n int, write bool, in ssa.Instruction) {
	w := g.w
	if len(w.gs) < 2 || w.baseMode || !w.races {
		return
	}
	if o == nil {
		return
	}
	if o.shEpoch != w.epoch {
		o.shEpoch = w.epoch
		o.shadow = map[int]*shadowCell{}
	}
	for i := off; i < off+n; i++ {
		s := o.shadow[i]
		if s == nil {
			s = &shadowCell{}
			o.shadow[i] = s
		}
		g.shadowAccess(s, write, false, in, o.what)
	}
}

func (g *G) accessAtomic(p Ptr, write bool) {
	w := g.w
	if len(w.gs) < 2 || w.baseMode || !w.races || p.obj == nil {
		return
	}
	o := p.obj
	if o.shEpoch != w.epoch {
		o.shEpoch = w.epoch
		o.shadow = map[int]*shadowCell{}
	}
	s := o.shadow[p.off]
	if s == nil {
		s = &shadowCell{}
		o.shadow[p.off] = s
	}
	g.shadowAccess(s, write, true, nil, o.what)
}

func (g *G) accessMap(m *MapObj, write bool, in ssa.Instruction) {
	w := g.w
	if m == nil || len(w.gs) < 2 || w.baseMode || !w.races {
		return
	}
	if m.shEpoch != w.epoch {
		m.shEpoch = w.epoch
		m.sh = &shadowCell{}
	}
	g.shadowAccess(m.sh, write, false, in, "map")
}

func (g *G) shadowAccess(s *shadowCell, write, atom bool, in ssa.Instruction, what string) {
	if s.hasW && s.wg != g.id && s.wc > g.vc.get(s.wg) && !(atom && s.watom) {
		g.race(s.wpos, in, what)
	}
	me := g.vc.get(g.id)
	if write {
		for r, ri := range s.reads {
			if r != g.id && ri.c > g.vc.get(r) && !(atom && ri.atom) {
				g.race(ri.pos, in, what)
			}
		}
		s.hasW, s.wg, s.wc, s.watom = true, g.id, me, atom
		s.wpos = g.posOf(in)
		s.reads = nil
		return
	}
	if s.reads == nil {
		s.reads = map[int]rdInfo{}
	}
	if ri, ok := s.reads[g.id]; !ok || ri.c != me {
		s.reads[g.id] = rdInfo{me, g.posOf(in), atom}
	}
}

func (g *G) race(other string, in ssa.Instruction, what string) {
	here := g.posOf(in)
	if !g.w.e.inRepoPos(here) && !g.w.e.inRepoPos(other) {
		return
	}
	panic(Violation{kind: "race", msg: fmt.Sprintf("data race between %s and %s", other, here), pos: here})
}

// syncVC is the clock attached to a synchronisation location.
func (w *Worker) syncVC(p Ptr) *VC {
	v := w.locVC[p]
	if v == nil {
		v = &VC{}
		w.locVC[p] = v
	}
	return v
}

func (g *G) acquire(v *VC) { g.vc.join(*v) }
func (g *G) release(v *VC) {
	v.join(g.vc)
	g.vc.set(g.id, g.vc.get(g.id)+1)
}

// ---- scheduling

func (g *G) runnable() bool {
	if g.done {
		return false
	}
	return g.cond == nil || g.cond()
}

func (w *Worker) others(g *G) []*G {
	var r, stalled []*G
	for _, o := range w.gs {
		if o != g && o.runnable() {
			// a goroutine that gave up the processor while waiting for a
			// state change is not rescheduled before one happens
			if o.yielded && o.yieldAt == w.progress {
				stalled = append(stalled, o)
				continue
			}
			r = append(r, o)
		}
	}
	if len(r) == 0 {
		return stalled
	}
	return r
}

// schedPoint lets another goroutine run here (bounded number of preemptions).
func (g *G) schedPoint(what string) {
	w := g.w
	g.nvis++
	if len(w.gs) < 2 || w.baseMode || w.noSched > 0 {
		return
	}
	w.visOps++
	w.spin = 0
	if w.preempt >= w.preemptBound {
		return
	}
	os := w.others(g)
	if len(os) == 0 {
		return
	}
	k := g.choose("sched", len(os)+1)
	if k == 0 {
		return
	}
	w.preempt++
	g.switchTo(os[k-1], "p")
}

// yield (runtime.Gosched): another goroutine must run, if there is one.
func (g *G) yield() {
	w := g.w
	if w.baseMode {
		return
	}
	g.nvis++
	w.spin++
	if w.spin > 60 {
		panic(Violation{kind: "deadlock", msg: "goroutines spin forever (live-lock): " + w.blockedDesc()})
	}
	os := w.others(g)
	if len(os) == 0 {
		return
	}
	k := 0
	if len(os) > 1 {
		k = g.choose("sched", len(os))
	}
	g.yielded, g.yieldAt = true, w.progress
	g.switchTo(os[k], "y")
	g.yielded = false
}

// block waits until cond holds.
func (g *G) block(what string, cond func() bool) {
	w := g.w
	for !cond() {
		if w.baseMode {
			panic(w.unsupported("blocking in init: %s", what))
		}
		g.cond = cond
		g.what = what
		os := w.others(g)
		if len(os) == 0 {
			w.deadlock(g)
		}
		k := 0
		if len(os) > 1 {
			k = g.choose("sched", len(os))
		}
		g.switchTo(os[k], "b")
		g.cond = nil
	}
	w.spin = 0
}

func (w *Worker) blockedDesc() string {
	s := ""
	for _, o := range w.gs {
		if !o.done {
			st := o.what
			if o.cond == nil {
				st = "running"
			}
			s += fmt.Sprintf("[g%d %s at %s] ", o.id, st, o.where())
		}
	}
	return s
}

func (w *Worker) deadlock(g *G) {
	panic(Violation{kind: "deadlock", msg: "all goroutines are blocked: " + w.blockedDesc(), pos: g.where()})
}

// SwitchRec records one transfer of control, for native replay: goroutine From
// gives up the processor at its N-th visible operation (p: before it, b:
// blocked in it, y: yields, x: ended) and To runs next.
type SwitchRec struct {
	From int    `json:"f"`
	N    int    `json:"n"`
	Kind string `json:"k"`
	To   int    `json:"t"`
}

func (g *G) switchTo(o *G, kind string) {
	w := g.w
	w.switches++
	w.swrec = append(w.swrec, SwitchRec{g.id, g.nvis, kind, o.id})
	w.cur = o
	o.resume <- true
	g.park()
}

func (g *G) park() {
	ok := <-g.resume
	if !ok {
		panic(pathAbort{})
	}
	g.w.cur = g
}

func (g *G) spawn(d deferred) {
	w := g.w
	if len(w.gs) > 40 {
		panic(budgetStop{"goroutines"})
	}
	ng := &G{w: w, id: len(w.gs), resume: make(chan bool)}
	g.vc.set(g.id, g.vc.get(g.id)+1)
	ng.vc = g.vc.clone()
	ng.vc.set(ng.id, 1)
	g.vc.set(g.id, g.vc.get(g.id)+1)
	w.gs = append(w.gs, ng)
	w.wg.Add(1)
	ng.top = &frame{g: ng, fi: g.top.fi, cur: d.in}
	vis := g.top.fi.visible
	go func() {
		defer w.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				ng.done = true
				w.finish(ng, r)
			}
		}()
		ng.park()
		if d.bi != nil {
			ng.builtin(ng.top, d.bi, d.call, d.args)
		} else {
			ng.callClosure(d.clo, d.args)
		}
		ng.done = true
		ng.exitSwitch()
	}()
	if vis {
		g.schedPoint("go")
	}
}

// exitSwitch hands control on after ng finished.
func (g *G) exitSwitch() {
	w := g.w
	os := w.others(g)
	if len(os) == 0 {
		w.deadlock(g)
	}
	k := 0
	if len(os) > 1 {
		k = g.choose("sched", len(os))
	}
	w.cur = os[k]
	w.swrec = append(w.swrec, SwitchRec{g.id, g.nvis, "x", os[k].id})
	os[k].resume <- true
}

// finish reports the end of the path.
func (w *Worker) finish(g *G, r interface{}) {
	if _, ok := r.(pathAbort); ok {
		return
	}
	if gp, ok := r.(*GoPanic); ok {
		r = Violation{kind: "panic", msg: "unrecovered panic: " + g.panicString(gp), pos: gp.where}
	}
	w.endCh <- r
}

// runMain runs f as the main goroutine of a path and returns how it ended
// (nil: normally).
func (w *Worker) runMain(f func(g *G)) interface{} {
	g := &G{w: w, id: 0, resume: make(chan bool)}
	g.vc.set(0, 1)
	w.gs = []*G{g}
	w.cur = g
	w.endCh = make(chan interface{}, 64)
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				g.done = true
				w.finish(g, r)
			}
		}()
		f(g)
		g.done = true
		w.endCh <- nil
	}()
	end := <-w.endCh
	for _, o := range w.gs {
		if !o.done || true {
			select {
			case o.resume <- false:
			default:
				if !o.done {
					// it may be about to park
					go func(o *G) {
						defer func() { recover() }()
						o.resume <- false
					}(o)
				}
			}
		}
	}
	w.wg.Wait()
	return end
}

// ---- locks

type mutexState struct {
	locked  bool
	owner   int
	readers int
	wwait   int
	vc      VC // writers' clock
	rvc     VC // readers' release clock
}

func (w *Worker) mutex(p Ptr) *mutexState {
	m := w.locks[p]
	if m == nil {
		m = &mutexState{}
		w.locks[p] = m
	}
	return m
}

func (g *G) lock(p Ptr) {
	if p.obj == nil {
		g.panicNil()
	}
	m := g.w.mutex(p)
	if m.locked || m.readers > 0 {
		m.wwait++
		g.block("Lock", func() bool { return !m.locked && m.readers == 0 })
		m.wwait--
	}
	m.locked = true
	m.owner = g.id
	g.acquire(&m.vc)
	g.acquire(&m.rvc)
}

func (g *G) tryLock(p Ptr) bool {
	m := g.w.mutex(p)
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	g.acquire(&m.vc)
	g.acquire(&m.rvc)
	return true
}

func (g *G) unlock(p Ptr, what string) {
	if p.obj == nil {
		g.panicNil()
	}
	m := g.w.mutex(p)
	if !m.locked {
		panic(Violation{kind: "panic", msg: "fatal error: " + what, pos: g.where()})
	}
	g.release(&m.vc)
	m.locked = false
	g.w.progress++
}

func (g *G) rlock(p Ptr) {
	if p.obj == nil {
		g.panicNil()
	}
	m := g.w.mutex(p)
	if m.locked || m.wwait > 0 {
		g.block("RLock", func() bool { return !m.locked && m.wwait == 0 })
	}
	m.readers++
	g.acquire(&m.vc)
}

func (g *G) runlock(p Ptr) {
	m := g.w.mutex(p)
	if m.readers == 0 {
		panic(Violation{kind: "panic", msg: "fatal error: sync: RUnlock of unlocked RWMutex", pos: g.where()})
	}
	g.release(&m.rvc)
	m.readers--
	g.w.progress++
}

// ---- channels

type waiter struct {
	g     *G
	c     *ChanObj
	send  bool
	val   Value
	vc    VC
	fired *bool
	who   *int
	idx   int
	ok    bool
	res   *waiter
	shVC  *VC
}

func (c *ChanObj) deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !*x.fired {
			return x
		}
	}
	return nil
}

func peek(q []*waiter) *waiter {
	for _, x := range q {
		if !*x.fired {
			return x
		}
	}
	return nil
}

func (g *G) canSend(c *ChanObj) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || peek(c.recvq) != nil)
}

func (g *G) canRecv(c *ChanObj) bool {
	return c != nil && (len(c.buf) > 0 || c.closed || peek(c.sendq) != nil)
}

// trySend performs a send that canSend said is possible.
func (g *G) trySend(c *ChanObj, v Value) {
	g.w.progress++
	g.w.touchChan(c)
	if c.closed {
		t := g.w.e.runtimeErrType("plainError")
		panic(&GoPanic{val: Iface{g.w.canon.canon(t), "send on closed channel"}, where: g.where()})
	}
	if r := c.deq(&c.recvq); r != nil {
		*r.fired = true
		*r.who = r.idx
		r.res.val = v
		r.res.ok = true
		// rendezvous edges both ways
		r.g.vc.join(g.vc)
		g.vc.join(r.vc)
		g.vc.set(g.id, g.vc.get(g.id)+1)
		return
	}
	g.vc.join(c.lastRV)
	c.buf = append(c.buf, v)
	c.bufVC = append(c.bufVC, g.vc.clone())
	g.vc.set(g.id, g.vc.get(g.id)+1)
}

func (g *G) tryRecv(c *ChanObj, et types.Type) (Value, bool) {
	g.w.progress++
	g.w.touchChan(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if len(c.bufVC) > 0 {
			g.vc.join(c.bufVC[0])
			c.bufVC = c.bufVC[1:]
		}
		c.lastRV.join(g.vc)
		g.vc.set(g.id, g.vc.get(g.id)+1)
		if s := c.deq(&c.sendq); s != nil {
			*s.fired = true
			*s.who = s.idx
			c.buf = append(c.buf, s.val)
			c.bufVC = append(c.bufVC, s.vc)
		}
		return v, true
	}
	if s := c.deq(&c.sendq); s != nil {
		*s.fired = true
		*s.who = s.idx
		g.vc.join(s.vc)
		s.g.vc.join(g.vc)
		g.vc.set(g.id, g.vc.get(g.id)+1)
		return s.val, true
	}
	if c.closed {
		g.vc.join(c.clVC)
		return g.w.zero(et), false
	}
	panic("tryRecv not ready")
}

func (g *G) send(c *ChanObj, v Value) {
	if c == nil {
		g.block("send on nil channel", func() bool { return false })
	}
	if g.canSend(c) {
		g.trySend(c, v)
		return
	}
	fired, who := false, -1
	wt := &waiter{g: g, c: c, send: true, val: v, vc: g.vc.clone(), fired: &fired, who: &who}
	g.vc.set(g.id, g.vc.get(g.id)+1)
	g.w.touchChan(c)
	c.sendq = append(c.sendq, wt)
	g.block("send", func() bool { return fired || c.closed })
	if !fired {
		fired = true
		g.trySend(c, v)
	}
}

func (g *G) recv(c *ChanObj, et types.Type) (Value, bool) {
	if c == nil {
		g.block("receive from nil channel", func() bool { return false })
	}
	if g.canRecv(c) {
		return g.tryRecv(c, et)
	}
	fired, who := false, -1
	wt := &waiter{g: g, c: c, vc: g.vc.clone(), fired: &fired, who: &who}
	wt.res = wt
	g.vc.set(g.id, g.vc.get(g.id)+1)
	g.w.touchChan(c)
	c.recvq = append(c.recvq, wt)
	g.block("receive", func() bool { return fired || g.canRecv(c) })
	if !fired {
		fired = true
		return g.tryRecv(c, et)
	}
	return wt.val, wt.ok
}

func (g *G) closeChan(c *ChanObj) {
	if c == nil {
		g.panicPlain("close of nil channel")
	}
	if c.closed {
		g.panicPlain("close of closed channel")
	}
	g.w.progress++
	g.w.touchChan(c)
	c.closed = true
	c.clVC = g.vc.clone()
	g.vc.set(g.id, g.vc.get(g.id)+1)
}

func (g *G) panicPlain(msg string) {
	t := g.w.e.runtimeErrType("plainError")
	panic(&GoPanic{val: Iface{g.w.canon.canon(t), msg}, where: g.where()})
}

func (g *G) doSelect(fr *frame, ci *cInstr, in *ssa.Select) Value {
	w := g.w
	n := len(in.States)
	chans := make([]*ChanObj, n)
	vals := make([]Value, n)
	for i, st := range in.States {
		chans[i], _ = fr.get(&ci.ops[2*i]).(*ChanObj)
		if st.Send != nil {
			vals[i] = fr.get(&ci.ops[2*i+1])
		}
	}
	ready := func() []int {
		var r []int
		for i, st := range in.States {
			if st.Dir == types.SendOnly && g.canSend(chans[i]) || st.Dir == types.RecvOnly && g.canRecv(chans[i]) {
				r = append(r, i)
			}
		}
		return r
	}
	et := func(i int) types.Type { return in.States[i].Chan.Type().Underlying().(*types.Chan).Elem() }
	result := func(idx int, v Value, ok bool) Value {
		t := Tuple{w.tc.Const(uint64(int64(idx)), 64), w.tc.Bool(ok)}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, w.zero(et(i)))
				}
			}
		}
		return t
	}
	do := func(i int) Value {
		if in.States[i].Dir == types.SendOnly {
			g.trySend(chans[i], vals[i])
			return result(i, nil, false)
		}
		v, ok := g.tryRecv(chans[i], et(i))
		return result(i, v, ok)
	}
	selIdx := -1
	if fr.fi.visible {
		selIdx = len(w.selrec)
		w.selrec = append(w.selrec, -2)
	}
	done := func(i int) {
		if selIdx >= 0 {
			w.selrec[selIdx] = i
		}
	}
	r := ready()
	if len(r) > 0 {
		k := 0
		if len(r) > 1 {
			k = g.choose("select", len(r))
		}
		done(r[k])
		return do(r[k])
	}
	if !in.Blocking {
		done(-1)
	}
	if !in.Blocking {
		return result(-1, nil, false)
	}
	fired, who := false, -1
	res := &waiter{}
	for i, st := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		wt := &waiter{g: g, c: c, val: vals[i], vc: g.vc.clone(), fired: &fired, who: &who, idx: i, res: res}
		w.touchChan(c)
		if st.Dir == types.SendOnly {
			wt.send = true
			c.sendq = append(c.sendq, wt)
		} else {
			c.recvq = append(c.recvq, wt)
		}
	}
	g.vc.set(g.id, g.vc.get(g.id)+1)
	g.block("select", func() bool { return fired || len(readyExcl(g, in, chans)) > 0 })
	if fired {
		done(who)
		return result(who, res.val, res.ok)
	}
	fired = true
	r = readyExcl(g, in, chans)
	k := 0
	if len(r) > 1 {
		k = g.choose("select", len(r))
	}
	done(r[k])
	return do(r[k])
}

func readyExcl(g *G, in *ssa.Select, chans []*ChanObj) []int {
	var r []int
	for i, st := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			if c.closed || len(c.buf) < c.cap || peekOther(c.recvq, g) != nil {
				r = append(r, i)
			}
		} else if len(c.buf) > 0 || c.closed || peekOther(c.sendq, g) != nil {
			r = append(r, i)
		}
	}
	return r
}

func peekOther(q []*waiter, g *G) *waiter {
	for _, x := range q {
		if !*x.fired && x.g != g {
			return x
		}
	}
	return nil
}

type timerObj struct {
	ch     *ChanObj
	active bool
	ticker bool
	fn     *Closure
	seq    int
}
