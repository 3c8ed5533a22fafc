// Package c15: errors are counted under the documented name.
package c15

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

type named struct {
	name string
	ok   bool
}

func (n named) Error() string        { return "named" }
func (n named) Name() (string, bool) { return n.name, n.ok }

type pnamed struct{ named }

// plain is not comparable.
type plain struct{ x []int }

func (plain) Error() string { return "plain" }

type neterr struct{}

func (neterr) Error() string   { return "net" }
func (neterr) Timeout() bool   { return true }
func (neterr) Temporary() bool { return false }

// neterr2 is a network error by pointer only.
type neterr2 struct{ t, u bool }

func (e *neterr2) Error() string   { return "net2" }
func (e *neterr2) Timeout() bool   { return e.t }
func (e *neterr2) Temporary() bool { return e.u }

type namednet struct {
	neterr
	named
}

func (namednet) Error() string { return "namednet" }

type pick struct {
	err  error
	want string
}

func anyError() pick {
	e := []pick{
		{io.EOF, "EOF"},
		{io.ErrUnexpectedEOF, "Unexpected EOF Error"},
		{io.ErrClosedPipe, "Closed Pipe Error"},
		{io.ErrNoProgress, "No Progress Error"},
		{io.ErrShortBuffer, "Short Buffer Error"},
		{io.ErrShortWrite, "Short Write Error"},
		{context.Canceled, "Canceled"},
		{context.DeadlineExceeded, "Timeout"},
		{syscall.Errno(5), "Errno"},
		{&os.SyscallError{Syscall: "x", Err: syscall.Errno(5)}, "System Error"},
		{net.UnknownNetworkError("x"), "Unknown Network Error"},
		{&net.AddrError{}, "Addr Error"},
		{net.InvalidAddrError("x"), "Invalid Addr Error"},
		{&net.OpError{}, "Net Op Error"},
		{&net.ParseError{}, "Net Parse Error"},
		{&net.DNSError{}, "DNS Error"},
		{&net.DNSConfigError{}, "DNS Config Error"},
		{neterr{}, "Network Error"},
		{&neterr{}, "Network Error"},
		{&net.OpError{Op: "read", Net: "tcp", Err: neterr{}}, "Net Op Error"},
		{&net.OpError{Err: io.EOF}, "Net Op Error"},
		{&net.OpError{Err: &net.DNSError{IsTimeout: true}}, "Net Op Error"},
		{&net.OpError{Err: &os.SyscallError{Syscall: "connect", Err: syscall.ECONNREFUSED}}, "Net Op Error"},
		{&net.DNSError{Err: "x", IsTimeout: true, IsNotFound: true}, "DNS Error"},
		{&net.DNSConfigError{Err: io.EOF}, "DNS Config Error"},
		{&net.AddrError{Err: "x", Addr: "y"}, "Addr Error"},
		{&net.ParseError{Type: "x", Text: "y"}, "Net Parse Error"},
		{&neterr2{}, "Network Error"},
		{syscall.ETIMEDOUT, "Errno"},
		{syscall.EPIPE, "Errno"},
		{syscall.Errno(0), "Errno"},
		{&os.PathError{Op: "open", Path: "x", Err: syscall.ENOENT}, "System Error"},
		{fmt.Errorf("wrapped: %w", context.Canceled), "System Error"},
		{fmt.Errorf("wrapped: %w", context.DeadlineExceeded), "System Error"},
		{fmt.Errorf("wrapped: %w", named{"mine", true}), "System Error"},
		{errors.Join(io.EOF, io.EOF), "System Error"},
		{net.ErrClosed, "Network Error"},
		{os.ErrNotExist, "System Error"},
		{io.ErrNoProgress, "No Progress Error"},
		{errors.New("EOF"), "System Error"},
		{plain{[]int{1}}, "System Error"},
		{&plain{}, "System Error"},
		{fmt.Errorf("wrapped: %w", io.EOF), "System Error"},
		{named{"mine", true}, "mine"},
		{&named{"mine", true}, "mine"},
		{&pnamed{named{"mine", true}}, "mine"},
		{named{"mine", false}, "System Error"},
		{named{"", true}, ""},
		{namednet{named: named{"mine", true}}, "mine"},
		{namednet{named: named{"mine", false}}, "Network Error"},
	}
	return e[vrf.Choose("error", len(e))]
}

func record(err error) map[string]int64 {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	e := err
	f.Task(&ctx)(&e)
	return f.Errors()
}

func one(m map[string]int64, name string) {
	vrf.Assert(len(m) == 1 && m[name] == 1, "the error is counted once, under its documented name")
}

// H_documented: without handlers.
func H_documented() {
	p := anyError()
	one(record(p.err), p.want)
	fs := monkit.NewFuncStats(monkit.NewSeriesKey("k"))
	e := p.err
	fs.Observe()(&e)
	one(fs.Errors(), p.want)
}

// moody is an error that names itself anew each time.
type moody struct {
	name string
	ok   bool
}

func (m *moody) Error() string        { return "moody" }
func (m *moody) Name() (string, bool) { return m.name, m.ok }

// H_pairs: one error after another, of the same type or not; each is named by
// itself, as it is when it is counted.
func H_pairs() {
	fs := monkit.NewFuncStats(monkit.NewSeriesKey("k"))
	m := &moody{}
	want := map[string]int64{}
	for i := 0; i < 2; i++ {
		var p pick
		switch vrf.Choose("kind", 3) {
		case 0:
			p = anyError()
		case 1:
			m.name, m.ok = fmt.Sprintf("m%d", i), vrf.Choose("named", 2) == 1
			p = pick{m, "System Error"}
			if m.ok {
				p.want = m.name
			}
		case 2:
			// the same error value again
			m.ok = true
			p = pick{m, m.name}
		}
		fs.Observe()(&p.err)
		want[p.want]++
		got := fs.Errors()
		vrf.Assert(len(got) == len(want), "each error is counted under its documented name")
		for k, n := range want {
			vrf.Assert(got[k] == n, "each error is counted under its documented name, once")
		}
	}
}

// H_names: any name of its own.
func H_names() {
	n := vrf.String("name", 3)
	ok := vrf.Bool("ok")
	m := record(named{n, ok})
	vrf.Assert(len(m) == 1, "the error is counted under one name")
	for k, c := range m {
		vrf.Assert(c == 1, "the error is counted once")
		vrf.Assert(vrf.Or(vrf.And(ok, vrf.EqStr(k, n)), vrf.And(!ok, k == "System Error")), "the name is the error's own if it has one")
	}
}

// H_handlers: any number of handlers, each accepting, declining with or
// without a name, or by the kind of error, added before or after errors.
func H_handlers() {
	n := vrf.Bound("handlers", 3, 4)
	var log []int
	type hd struct {
		kind int
	}
	var hs []hd
	checkErr := func(p pick) {
		log = nil
		want := p.want
		var wlog []int
		for i := len(hs) - 1; i >= 0; i-- {
			wlog = append(wlog, i)
			h := hs[i]
			if h.kind == 0 || h.kind == 2 && p.err == io.EOF {
				want = fmt.Sprintf("h%d", i)
				break
			}
			if h.kind == 3 {
				want = ""
				break
			}
		}
		one(record(p.err), want)
		vrf.Assert(len(log) == len(wlog), "handlers are consulted only until one accepts")
		for i := range log {
			vrf.Assert(log[i] == wlog[i], "handlers are consulted newest first")
		}
	}
	errs := []pick{{io.EOF, "EOF"}, {errors.New("x"), "System Error"}, {named{"mine", true}, "mine"}}
	p := errs[vrf.Choose("error", len(errs))]
	for i := 0; i < n; i++ {
		checkErr(p)
		i := i
		k := vrf.Choose("handler", 4)
		hs = append(hs, hd{k})
		monkit.AddErrorNameHandler(func(err error) (string, bool) {
			log = append(log, i)
			vrf.Assert(err == p.err, "handlers get the error itself")
			switch k {
			case 0:
				return fmt.Sprintf("h%d", i), true
			case 1:
				return "declined", false
			case 2:
				return fmt.Sprintf("h%d", i), err == io.EOF
			}
			return "", true
		})
	}
	checkErr(p)
}

// H_concurrent: handlers added at once, and while errors are recorded.
//
// vrf:preempt=2,3
func H_concurrent() {
	seen := map[int]bool{}
	add := func(i int, name string) func() {
		return func() {
			monkit.AddErrorNameHandler(func(err error) (string, bool) {
				vrf.NoSched(true)
				seen[i] = true
				vrf.NoSched(false)
				return name, name != ""
			})
		}
	}
	var m map[string]int64
	fs := []func(){add(0, ""), add(1, "")}
	if vrf.Choose("record", 2) == 1 {
		fs = []func(){add(0, ""), add(1, ""), func() { m = record(io.EOF) }}
	}
	vrf.Parallel(fs...)
	if m != nil {
		one(m, "EOF")
	}
	seen = map[int]bool{}
	one(record(io.EOF), "EOF")
	vrf.Assert(seen[0] && seen[1], "no handler is lost")
}
