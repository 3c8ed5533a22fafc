// Package vsched makes a native run follow a recorded path: it feeds the
// recorded inputs and, in a rewritten copy of the sources, steers goroutines
// along the recorded schedule by passing a token at visible operations. The
// token is passed through plain memory in functions the race detector does not
// instrument, so that it adds no happens-before edges of its own.
package vsched

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"
	"unsafe"
)

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type Switch struct {
	From int    `json:"f"`
	N    int    `json:"n"`
	Kind string `json:"k"`
	To   int    `json:"t"`
}

type Run struct {
	Harness  string   `json:"harness"`
	Kind     string   `json:"kind"`
	Thorough bool     `json:"thorough"`
	Inputs   []Input  `json:"inputs"`
	Choose   []int    `json:"choose"`
	Switches []Switch `json:"switches"`
	Selects  []int    `json:"selects"`

	CrandFail bool `json:"crandfail"`
}

const ClockBase = int64(1_000_000_000_000_000_000)

var (
	R       Run
	loaded  bool
	Started bool // the harness is running (package initialisation is over)

	turn    int
	idx     int
	n       [64]int
	done    [64]bool
	asleep  [64]bool
	ng      int = 1
	free    bool
	freeN   int // goroutines released so far in free mode
	blkOrd  [64]int
	nblk    int
	ops     int
	inPos   int
	choPos  int
	selPos  int
	clkNow  int64 = ClockBase
	SymClk  bool
	Frozen  bool
	SymRnd  bool
	Fake    string
	HasFake bool
	Inlined bool
	FailCr  bool
	baseRnd uint64
	detRnd  uint64 = 12345
)

func init() {
	f := os.Getenv("VRF_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		Exit("error", err.Error())
	}
	if err := json.Unmarshal(b, &R); err != nil {
		Exit("error", err.Error())
	}
	loaded = true
	for _, in := range R.Inputs {
		if in.Kind == "rand" {
			SymRnd = true
		}
	}
}

// Exit ends the process with a result line.
//
//go:norace
func Exit(res, msg string) {
	fmt.Printf("\nVRF-RESULT %s %s\n", res, msg)
	os.Stdout.Sync()
	switch res {
	case "ok":
		os.Exit(0)
	case "error", "diverged":
		os.Exit(3)
	}
	os.Exit(10)
}

// Start begins the harness proper.
//
//go:norace
func Start() {
	Started = true
	go watchdog()
}

//go:norace
func watchdog() {
	last, same := -1, 0
	t0 := time.Now()
	for {
		time.Sleep(20 * time.Millisecond)
		if ops == last {
			same++
		} else {
			same = 0
		}
		last = ops
		if idx >= len(R.Switches) && same > 15 && !free {
			free = true
			same = 0
		} else if free && freeN < nblk {
			freeN++
			same = 0
		} else if free && same > 50 {
			Exit("deadlock", "no goroutine makes progress")
		}
		if time.Since(t0) > 20*time.Second {
			Exit("timeout", "the run does not end")
		}
		if !free && same > 250 {
			Exit("diverged", "stuck while following the schedule")
		}
	}
}

//go:norace
func await(me int) {
	blkOrd[nblk%64] = me
	nblk++
	for i := 0; turn != me; i++ {
		if free {
			for k := 0; k < freeN; k++ {
				if blkOrd[k%64] == me {
					return
				}
			}
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

//go:norace
func take(me int, kind string) (int, bool) {
	if idx < len(R.Switches) {
		s := R.Switches[idx]
		if s.From == me && s.N == n[me] && s.Kind == kind {
			return s.To, true
		}
	}
	return 0, false
}

//go:norace
func hand(to int) {
	idx++
	turn = to
}

// Op is called before a visible operation; pre reports that the operation
// blocks on the recorded path.
//
//go:norace
func Op() (me int, blocks bool) {
	me = turn
	if !Started || free {
		return me, false
	}
	ops++
	n[me]++
	if to, ok := take(me, "p"); ok {
		hand(to)
		await(me)
	}
	if idx < len(R.Switches) {
		s := R.Switches[idx]
		if s.From != me || s.N < n[me] {
			Exit("diverged", fmt.Sprintf("goroutine %d at operation %d, recorded %+v", me, n[me], s))
		}
	}
	_, blocks = take(me, "b")
	return me, blocks
}

// Before handles operations that become possible once scheduled again (locks).
//
//go:norace
func Before() {
	me, b := Op()
	if b {
		to, _ := take(me, "b")
		hand(to)
		await(me)
	}
}

// Enter/Leave surround operations that must really block (channels).
//
//go:norace
func Enter() (me int, b bool) {
	me, b = Op()
	if b {
		to, _ := take(me, "b")
		hand(to)
	}
	return me, b
}

//go:norace
func Leave(me int, b bool) {
	if b {
		await(me)
	}
}

// Count is a visible operation that is no scheduling point but may block.
//
//go:norace
func Count() {
	if !Started || free {
		return
	}
	me := turn
	ops++
	n[me]++
	if to, ok := take(me, "b"); ok {
		hand(to)
		await(me)
	}
}

//go:norace
func Yield() {
	if !Started || free {
		runtime.Gosched()
		return
	}
	me := turn
	ops++
	n[me]++
	if to, ok := take(me, "y"); ok {
		hand(to)
		await(me)
	} else {
		runtime.Gosched()
	}
}

//go:norace
func Sleep() {
	if !Started {
		return
	}
	me := turn
	ops++
	n[me]++
	asleep[me] = true
	if to, ok := take(me, "b"); ok {
		hand(to)
		await(me)
		if !free {
			asleep[me] = false
			return
		}
	}
	select {}
}

//go:norace
func exit(me int) {
	done[me] = true
	ops++
	if free {
		return
	}
	if idx < len(R.Switches) {
		s := R.Switches[idx]
		if s.From == me && s.Kind == "x" {
			hand(s.To)
			return
		}
		Exit("diverged", fmt.Sprintf("goroutine %d ended, recorded %+v", me, s))
	}
}

//go:norace
func newG() int {
	k := ng
	ng++
	return k
}

// Go starts a goroutine.
//
//go:norace
func Go(f func()) { start(f); Op2() }

// Op2 is Op followed by blocking if recorded (after a go statement).
//
//go:norace
func Op2() { Before() }

//go:norace
func start(f func()) {
	if !Started {
		go f()
		return
	}
	k := newG()
	go run(k, f)
}

//go:norace
func run(k int, f func()) {
	await(k)
	f()
	exit(k)
}

// Parallel runs the functions concurrently and waits for them.
func Parallel(fs ...func()) {
	var wg chan struct{} = make(chan struct{}, len(fs))
	for _, f := range fs {
		f := f
		start(func() { f(); wg <- struct{}{} })
		Before()
	}
	Count()
	for range fs {
		<-wg
	}
}

//go:norace
func Goroutines() int {
	c := 0
	for i := 0; i < ng; i++ {
		if i != turn && !done[i] {
			c++
		}
	}
	return c
}

//go:norace
func Sleepers() int {
	c := 0
	for i := 0; i < ng; i++ {
		if asleep[i] && !done[i] {
			c++
		}
	}
	return c
}

// Next returns the next recorded input.
//
//go:norace
func Next(kind string) uint64 {
	if !loaded {
		return 0
	}
	if inPos >= len(R.Inputs) {
		// the recorded path ended before this input was created
		if R.Kind == "" {
			Exit("diverged", "more inputs requested than recorded ("+kind+")")
		}
		return 0
	}
	in := R.Inputs[inPos]
	if in.Kind != kind {
		Exit("diverged", "input of kind "+kind+" requested, recorded "+in.Kind+" "+in.Name)
	}
	inPos++
	return in.Val
}

//go:norace
func HasNext(kind string) bool { return inPos < len(R.Inputs) && R.Inputs[inPos].Kind == kind }

//go:norace
func Choose(k int) int {
	if k <= 1 {
		return 0
	}
	if choPos >= len(R.Choose) {
		return 0
	}
	c := R.Choose[choPos]
	choPos++
	return c
}

//go:norace
func Now() int64 {
	if !Started {
		return ClockBase
	}
	switch {
	case Frozen:
	case SymClk:
		clkNow += int64(Next("clock"))
	default:
		clkNow += 1000
	}
	return clkNow
}

// Jump is how far the wall clock has been set.
var Jump int64

// Time is the time at a reading of the clock: a wall clock reading and a
// monotonic one, laid out as package time does.
//
//go:norace
func Time(mono int64) time.Time {
	t := time.Unix(0, mono+Jump).UTC()
	sec := t.Unix() + (1970-1885)*365*86400 + 20*86400
	if sec < 0 || sec >= 1<<33 {
		return t
	}
	p := (*struct {
		wall uint64
		ext  int64
		loc  *time.Location
	})(unsafe.Pointer(&t))
	p.wall = 1<<63 | uint64(sec)<<30 | uint64(t.Nanosecond())
	p.ext = mono - ClockBase + 1
	return t
}

//go:norace
func Quiet() int64 { return clkNow }

//go:norace
func Advance(d int64) { clkNow += d }

//go:norace
func Rand63() uint64 {
	if SymRnd && Started && symRandOn {
		return Next("rand")
	}
	if !Started && CrandFails() && HasNext("rand") {
		return Next("rand")
	}
	if !Started {
		baseRnd = baseRnd*6364136223846793005 + 1442695040888963407
		return baseRnd >> 1
	}
	detRnd = detRnd*6364136223846793005 + 1442695040888963407
	return detRnd >> 1
}

var symRandOn bool

//go:norace
func SetSymRand(b bool) { symRandOn = b }

// CrandFails: the system has no randomness in this run.
func CrandFails() bool { return R.CrandFail }

// Crand fills b with the recorded randomness, or the engine's fixed bytes.
//
//go:norace
func Crand(b []byte) {
	for i := range b {
		if HasNext("crand") {
			b[i] = byte(Next("crand"))
		} else {
			b[i] = byte(0x11 + 13*i)
		}
	}
}

// ---- channels

func Send[T any](c chan<- T, v T) {
	me, b := Enter()
	c <- v
	Leave(me, b)
}

func Recv[T any](c <-chan T) T {
	me, b := Enter()
	v := <-c
	Leave(me, b)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	me, b := Enter()
	v, ok := <-c
	Leave(me, b)
	return v, ok
}

func Close[T any](c chan<- T) {
	Before()
	close(c)
}

var (
	selB   [64]bool
	selRes [64]int
)

//go:norace
func SelBegin() int {
	me, b := Op()
	r := -2
	if Started && selPos < len(R.Selects) {
		r = R.Selects[selPos]
		selPos++
	}
	selB[me], selRes[me] = b, r
	// the token is handed over when the cases have been evaluated
	return me
}

// SelCase is evaluated for case i of k: it disables the cases not taken on the
// recorded path and hands the token over after the last one.
//
//go:norace
func SelCase(i, k int) (off bool) {
	me := turn
	r := selRes[me]
	if i == k-1 && selB[me] {
		to, ok := take(me, "b")
		if ok {
			hand(to)
		}
	}
	if free || !Started || r == -2 {
		return false
	}
	return r != i
}

func SelRecv[T any](i, k int, c <-chan T) <-chan T {
	if SelCase(i, k) {
		return nil
	}
	return c
}

func SelSend[T any](i, k int, c chan<- T) chan<- T {
	if SelCase(i, k) {
		return nil
	}
	return c
}

// SelEnd is the first statement of the case taken by goroutine me.
//
//go:norace
func SelEnd(me int) {
	if selB[me] {
		selB[me] = false
		await(me)
	}
}

//go:norace
func Me() int { return turn }
