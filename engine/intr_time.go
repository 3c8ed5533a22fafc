package main

import (
	"fmt"
	"go/types"
	"time"
)

// Time model: a time.Time is {wall, ext, loc}. One with a monotonic reading has
// wall = 1<<63 + k and ext the reading; its wall clock reading is ext plus the
// k-th offset of the wall clock. One without has wall = 1<<62 and ext the
// nanoseconds since the Unix epoch; the zero Time keeps wall = ext = 0.

const timeFlag = uint64(1) << 63
const wallFlag = uint64(1) << 62
const clockBase = int64(1_000_000_000_000_000_000)

type clockState struct {
	now    *Term // last reading
	sym    bool  // advance by symbolic amounts
	bits   int
	max    int64
	frozen bool
	n      int
	baseN  int64
	jumps  []*Term // offsets of the wall clock after each jump
}

// mkTime is a time read off the clock.
func (g *G) mkTime(ns *Term) Agg {
	k := uint64(0)
	if !g.w.baseMode {
		k = uint64(len(g.w.clock.jumps))
	}
	return Agg{g.w.tc.Const(timeFlag+k, 64), ns, Ptr{}}
}

// mkWall is a time without a monotonic reading.
func (g *G) mkWall(ns *Term) Agg {
	return Agg{g.w.tc.Const(wallFlag, 64), ns, Ptr{}}
}

func hasMono(v Value) bool { return v.(Agg)[0].(*Term).v&timeFlag != 0 }

// wallNs is the wall clock reading of a time.
func wallNs(g *G, v Value) (*Term, bool) {
	ns, z := timeNs(g, v)
	if k := v.(Agg)[0].(*Term).v; k&timeFlag != 0 && k != timeFlag {
		ns = g.w.tc.Bin(OAdd, ns, g.w.clock.jumps[k&^timeFlag-1])
	}
	return ns, z
}

// twoTimes gives the readings by which two times compare.
func twoTimes(g *G, x, y Value) (a *Term, za bool, b *Term, zb bool) {
	a, za = timeNs(g, x)
	b, zb = timeNs(g, y)
	if !za && !zb && !(hasMono(x) && hasMono(y)) {
		a, _ = wallNs(g, x)
		b, _ = wallNs(g, y)
	}
	return
}

// readClock models time.Now.
func (g *G) readClock() *Term {
	w := g.w
	tc := w.tc
	if w.baseMode {
		return tc.Const(uint64(clockBase), 64)
	}
	c := &w.clock
	if c.now == nil {
		c.now = tc.Const(uint64(clockBase), 64)
	}
	switch {
	case c.frozen:
	case c.sym:
		d := w.newInput(fmt.Sprintf("clock%d", c.n), "clock", BV(c.bits))
		c.n++
		c.now = tc.Bin(OAdd, c.now, tc.ZExt(d, 64))
	default:
		c.n++
		c.now = tc.Bin(OAdd, c.now, tc.Const(1000, 64))
	}
	return c.now
}

func (w *Worker) newInput(name, kind string, s Sort) *Term {
	if n := w.inNames[name]; n > 0 {
		w.inNames[name]++
		name = fmt.Sprintf("%s#%d", name, n)
	} else {
		w.inNames[name] = 1
	}
	t := w.tc.Var(name, s)
	w.inputs = append(w.inputs, inputVar{name, kind, t})
	return t
}

func timeNs(g *G, v Value) (ns *Term, zero bool) {
	a, ok := v.(Agg)
	if !ok {
		panic(g.w.unsupported("time is %T %s", v, poisonWhy(v)))
	}
	wall, ok := a[0].(*Term)
	if !ok {
		panic(g.w.unsupported("time.wall is %T", a[0]))
	}
	ext := a[1].(*Term)
	if !wall.isConst() {
		panic(g.w.unsupported("symbolic time.wall"))
	}
	if wall.v == 0 {
		if ext.isConst() && ext.v == 0 {
			return ext, true
		}
		panic(g.w.unsupported("time value not made by the modelled functions"))
	}
	if wall.v != wallFlag && wall.v&timeFlag == 0 {
		panic(g.w.unsupported("time value not made by the modelled functions"))
	}
	return ext, false
}

func (g *G) subTime(x, y Value) *Term {
	tc := g.w.tc
	a, za, b, zb := twoTimes(g, x, y)
	const maxD, minD = int64(1<<63 - 1), int64(-1 << 63)
	switch {
	case za && zb:
		return g.i64(0)
	case za:
		return g.i64(minD)
	case zb:
		return g.i64(maxD)
	}
	d := tc.Bin(OSub, a, b)
	if tc.sbits(a) <= 63 && tc.sbits(b) <= 63 {
		return d
	}
	neg := func(t *Term) *Term { return tc.Bin(OSlt, t, g.i64(0)) }
	ovf := tc.And(tc.Not(tc.Eq(neg(a), neg(b))), tc.Not(tc.Eq(neg(d), neg(a))))
	return tc.Ite(ovf, tc.Ite(neg(a), g.i64(minD), g.i64(maxD)), d)
}

func (g *G) ltTime(x, y Value) *Term {
	tc := g.w.tc
	a, za, b, zb := twoTimes(g, x, y)
	switch {
	case za && zb:
		return tc.F
	case za:
		return tc.T
	case zb:
		return tc.F
	}
	return tc.Bin(OSlt, a, b)
}

func (g *G) nativeTime(v Value) time.Time {
	ns, z := wallNs(g, v)
	if z {
		return time.Time{}
	}
	return time.Unix(0, int64(g.conc(ns))).UTC()
}

func regTime() {
	R := func(n string, f func(g *G, a []Value) Value) {
		reg(n, func(g *G, fi *FuncInfo, a []Value) Value { return f(g, a) })
	}
	R("time.Now", func(g *G, a []Value) Value { return g.mkTime(g.readClock()) })
	R("time.now", func(g *G, a []Value) Value { return g.mkTime(g.readClock()) })
	R("time.runtimeNano", func(g *G, a []Value) Value { return g.i64(clockBase) })
	R("time.runtimeNow", func(g *G, a []Value) Value { return Tuple{g.i64(1), g.w.tc.Const(1, 32), g.i64(clockBase)} })
	R("time.Since", func(g *G, a []Value) Value { return g.subTime(g.mkTime(g.readClock()), a[0]) })
	R("time.Until", func(g *G, a []Value) Value { return g.subTime(a[0], g.mkTime(g.readClock())) })
	R("time.Unix", func(g *G, a []Value) Value {
		tc := g.w.tc
		return g.mkWall(tc.Bin(OAdd, tc.Bin(OMul, asTerm(g, a[0]), g.i64(1e9)), asTerm(g, a[1])))
	})
	R("time.UnixMilli", func(g *G, a []Value) Value {
		return g.mkWall(g.w.tc.Bin(OMul, asTerm(g, a[0]), g.i64(1e6)))
	})
	R("time.Date", func(g *G, a []Value) Value {
		t := time.Date(int(g.conc(a[0])), time.Month(g.conc(a[1])), int(g.conc(a[2])), int(g.conc(a[3])), int(g.conc(a[4])), int(g.conc(a[5])), int(g.conc(a[6])), time.UTC)
		return g.mkWall(g.i64(t.UnixNano()))
	})
	R("(time.Time).Sub", func(g *G, a []Value) Value { return g.subTime(a[0], a[1]) })
	R("(time.Time).Add", func(g *G, a []Value) Value {
		ns, z := timeNs(g, a[0])
		if z {
			panic(g.w.unsupported("Add on the zero time"))
		}
		return Agg{a[0].(Agg)[0], g.w.tc.Bin(OAdd, ns, asTerm(g, a[1])), Ptr{}}
	})
	R("(time.Time).After", func(g *G, a []Value) Value { return g.ltTime(a[1], a[0]) })
	R("(time.Time).Before", func(g *G, a []Value) Value { return g.ltTime(a[0], a[1]) })
	R("(time.Time).Equal", func(g *G, a []Value) Value {
		x, zx, y, zy := twoTimes(g, a[0], a[1])
		if zx != zy {
			return g.w.tc.F
		}
		return g.w.tc.Eq(x, y)
	})
	R("(time.Time).Compare", func(g *G, a []Value) Value {
		tc := g.w.tc
		return tc.Ite(g.ltTime(a[0], a[1]), g.i64(-1), tc.Ite(g.ltTime(a[1], a[0]), g.i64(1), g.i64(0)))
	})
	R("(time.Time).IsZero", func(g *G, a []Value) Value { _, z := timeNs(g, a[0]); return g.w.tc.Bool(z) })
	R("(time.Time).UnixNano", func(g *G, a []Value) Value {
		ns, z := wallNs(g, a[0])
		if z {
			return g.i64(time.Time{}.UnixNano())
		}
		return ns
	})
	R("(time.Time).Unix", func(g *G, a []Value) Value {
		ns, z := wallNs(g, a[0])
		if z {
			return g.i64(time.Time{}.Unix())
		}
		return g.w.tc.Bin(OSDiv, ns, g.i64(1e9)) // non-negative times
	})
	R("(time.Time).UnixMilli", func(g *G, a []Value) Value {
		ns, _ := wallNs(g, a[0])
		return g.w.tc.Bin(OSDiv, ns, g.i64(1e6))
	})
	for _, n := range []string{"UTC", "Local", "Round", "Truncate", "In"} {
		R("(time.Time)."+n, func(g *G, a []Value) Value {
			if ns, z := wallNs(g, a[0]); !z {
				return g.mkWall(ns)
			}
			return a[0]
		})
	}
	R("(time.Time).Format", func(g *G, a []Value) Value { return g.nativeTime(a[0]).Format(g.goString(a[1])) })
	R("(time.Time).String", func(g *G, a []Value) Value { return g.nativeTime(a[0]).String() })
	R("(time.Time).AppendFormat", func(g *G, a []Value) Value {
		s := g.nativeTime(a[0]).Format(g.goString(a[2]))
		return g.appendOp(a[1].(Slice), s, types.NewSlice(types.Typ[types.Uint8]))
	})
	R("(time.Time).MarshalJSON", func(g *G, a []Value) Value {
		b, _ := g.nativeTime(a[0]).MarshalJSON()
		return Tuple{g.mkBytes(g.w.strBytes(string(b))), Iface{}}
	})
	R("time.Sleep", func(g *G, a []Value) Value { g.sleepUntilTick("time.Sleep"); return nil })
	chanTime := func(g *G) *ChanObj {
		g.w.objID++
		return &ChanObj{id: g.w.objID, cap: 1, base: g.w.baseMode, elem: g.w.e.namedType("time", "Time")}
	}
	mk := func(g *G, typ string, ticker bool, fn *Closure) Value {
		t := g.w.e.namedType("time", typ)
		o := g.w.newObj(t, 1, "time."+typ)
		tm := &timerObj{active: true, ticker: ticker, fn: fn}
		if fn == nil {
			tm.ch = chanTime(g)
			o.cells[g.w.layoutOf(t).fields[0]] = tm.ch
		}
		o.native = tm
		if g.w.baseMode {
			panic(g.w.unsupported("timer in init"))
		}
		g.w.timers = append(g.w.timers, tm)
		return Ptr{o, 0}
	}
	R("time.NewTicker", func(g *G, a []Value) Value {
		if g.branch(g.w.tc.Bin(OSle, asTerm(g, a[0]), g.i64(0))) {
			g.panicStr("non-positive interval for NewTicker")
		}
		return mk(g, "Ticker", true, nil)
	})
	R("time.Tick", func(g *G, a []Value) Value {
		p := mk(g, "Ticker", true, nil).(Ptr)
		return p.obj.native.(*timerObj).ch
	})
	R("time.NewTimer", func(g *G, a []Value) Value { return mk(g, "Timer", false, nil) })
	R("time.After", func(g *G, a []Value) Value {
		p := mk(g, "Timer", false, nil).(Ptr)
		return p.obj.native.(*timerObj).ch
	})
	R("time.AfterFunc", func(g *G, a []Value) Value { return mk(g, "Timer", false, a[1].(*Closure)) })
	stop := func(g *G, a []Value) Value {
		p := asPtr(g, a[0])
		if p.obj == nil {
			g.panicNil()
		}
		tm := p.obj.native.(*timerObj)
		was := tm.active
		tm.active = false
		if tm.ch != nil {
			g.w.touchChan(tm.ch)
			tm.ch.buf, tm.ch.bufVC = nil, nil
		}
		return g.w.tc.Bool(was)
	}
	R("(*time.Ticker).Stop", func(g *G, a []Value) Value { stop(g, a); return nil })
	R("(*time.Timer).Stop", stop)
	R("(*time.Ticker).Reset", func(g *G, a []Value) Value {
		stop(g, a)
		asPtr(g, a[0]).obj.native.(*timerObj).active = true
		return nil
	})
	R("(*time.Timer).Reset", func(g *G, a []Value) Value {
		r := stop(g, a)
		asPtr(g, a[0]).obj.native.(*timerObj).active = true
		return r
	})
}

// sleepUntilTick blocks until the harness lets time pass (vrf.Tick).
func (g *G) sleepUntilTick(what string) {
	w := g.w
	me := w.ticks
	g.nvis++
	g.sleep = true
	g.block(what, func() bool { return w.ticks > me })
	g.sleep = false
}

// tick lets time pass: sleepers wake, tickers and timers fire.
func (g *G) tick() {
	w := g.w
	w.ticks++
	w.progress++
	for _, tm := range w.timers {
		if !tm.active {
			continue
		}
		if !tm.ticker {
			tm.active = false
		}
		if tm.fn != nil {
			fn := tm.fn
			g.spawn(deferred{clo: fn, in: g.top.cur})
			continue
		}
		if len(tm.ch.buf) < tm.ch.cap {
			g.trySend(tm.ch, g.mkTime(g.readClockQuiet()))
		}
	}
}

func (g *G) readClockQuiet() *Term {
	if g.w.clock.now == nil {
		return g.i64(clockBase)
	}
	return g.w.clock.now
}
