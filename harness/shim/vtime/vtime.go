// Package vtime stands in for time in a steered native run.
package vtime

import (
	"time"

	"vharness/vrf"
	"vharness/vsched"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Unix(s, ns int64) Time                    { return time.Unix(s, ns).UTC() }
func UnixMilli(ms int64) Time                  { return time.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time                  { return time.UnixMicro(us).UTC() }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Parse(layout, v string) (Time, error)     { return time.Parse(layout, v) }
func Now() Time                                { return vsched.Time(vsched.Now()) }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Sleep(d Duration)                         { vsched.Sleep() }

type timer struct {
	c      chan Time
	active bool
	ticker bool
	f      func()
}

var timers []*timer

func init() {
	vrf.TickHooks = append(vrf.TickHooks, fire)
	vrf.TimerCount = count
}

//go:norace
func count() int {
	k := 0
	for _, t := range timers {
		if t.active {
			k++
		}
	}
	return k
}

//go:norace
func fire() {
	for _, t := range timers {
		if !t.active {
			continue
		}
		if !t.ticker {
			t.active = false
		}
		if t.f != nil {
			vsched.Go(t.f)
			continue
		}
		select {
		case t.c <- vsched.Time(vsched.Quiet()):
		default:
		}
	}
}

//go:norace
func mk(ticker bool, f func()) *timer {
	t := &timer{c: make(chan Time, 1), active: true, ticker: ticker, f: f}
	timers = append(timers, t)
	return t
}

//go:norace
func (t *timer) stop() bool {
	was := t.active
	t.active = false
	select {
	case <-t.c:
	default:
	}
	return was
}

//go:norace
func (t *timer) reset() bool {
	was := t.stop()
	t.active = true
	return was
}

type Ticker struct {
	C <-chan Time
	t *timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := mk(true, nil)
	return &Ticker{C: t.c, t: t}
}
func (t *Ticker) Stop()            { t.t.stop() }
func (t *Ticker) Reset(d Duration) { t.t.reset() }
func Tick(d Duration) <-chan Time  { return mk(true, nil).c }

type Timer struct {
	C <-chan Time
	t *timer
}

func NewTimer(d Duration) *Timer {
	t := mk(false, nil)
	return &Timer{C: t.c, t: t}
}
func AfterFunc(d Duration, f func()) *Timer { return &Timer{t: mk(false, f)} }
func After(d Duration) <-chan Time          { return mk(false, nil).c }
func (t *Timer) Stop() bool                 { return t.t.stop() }
func (t *Timer) Reset(d Duration) bool      { return t.t.reset() }
