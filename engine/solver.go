package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int64
	Time                            time.Duration
	Errors                          int64
}

// Solver drives one incremental SMT process.
type Solver struct {
	bin        string
	tc         *TermCtx
	cmd        *exec.Cmd
	in         *bufio.Writer
	inRaw      io.WriteCloser
	out        *bufio.Reader
	declVar    map[*Term]bool
	defd       map[*Term]string
	vars       []*Term
	stack      []*Term // asserted constraints, one push level each
	stats      SolverStats
	timeout    int // ms
	since      int
	fp         bool
	oneshot    bool
	curTimeout int
	log        io.Writer
}

func NewSolver(tc *TermCtx, bin string, timeoutMs int) *Solver {
	return &Solver{tc: tc, bin: bin, timeout: timeoutMs}
}

func (s *Solver) start() {
	if s.cmd != nil {
		return
	}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.declVar = map[*Term]bool{}
	s.defd = map[*Term]string{}
	s.vars = nil
	s.stack = nil
	s.since = 0
	defer func() {
		s.curTimeout = s.timeout
		if s.oneshot && !s.fp {
			s.send("(set-logic QF_BV)\n")
		}
	}()
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :memory_max_size 3000)\n", s.timeout))
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inRaw.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) send(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtConst(t)
	case OVar:
		if !s.declVar[t] {
			s.declVar[t] = true
			s.vars = append(s.vars, t)
			s.send(fmt.Sprintf("(declare-fun |%s| () %s)\n", t.name, t.sort))
		}
		return "|" + t.name + "|"
	}
	if n, ok := s.defd[t]; ok {
		return n
	}
	body := smtNode(t, s.ref)
	n := "n" + strconv.Itoa(int(t.id))
	s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", n, t.sort, body))
	s.defd[t] = n
	return n
}

// sync makes the solver's assertion stack equal pc.
func (s *Solver) sync(pc []*Term) {
	if s.since > 4000 {
		s.Close()
	}
	s.start()
	i := 0
	for i < len(s.stack) && i < len(pc) && s.stack[i] == pc[i] {
		i++
	}
	if d := len(s.stack) - i; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		r := s.ref(pc[i])
		s.send("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides pc ∧ extra. On Sat a model is returned.
func (s *Solver) Check(pc []*Term, extra *Term) (SatRes, Model) {
	t0 := time.Now()
	s.stats.Queries++
	heavy := extra != nil && (extra.heavy || extra.fp)
	for _, t := range pc {
		heavy = heavy || t.heavy || t.fp
	}
	var res SatRes
	var m Model
	res, m = s.incremental(pc, extra, heavy)
	if res == Unknown {
		// arithmetic is solved much faster from scratch
		res, m = s.oneShot(pc, extra)
		if res == Unknown {
			if d := os.Getenv("VRF_DUMP"); d != "" {
				s.dump(d, pc, extra)
			}
		}
	}
	switch res {
	case Sat:
		s.stats.SatN++
	case Unsat:
		s.stats.UnsatN++
	default:
		s.stats.UnknownN++
	}
	s.stats.Time += time.Since(t0)
	if d := os.Getenv("VRF_SLOW"); d != "" && time.Since(t0) > time.Second {
		s.dump(d, pc, extra)
		fmt.Fprintln(os.Stderr, "slow query", time.Since(t0), res)
	}
	return res, m
}

func (s *Solver) incremental(pc []*Term, extra *Term, heavy bool) (res SatRes, m Model) {
	s.since++
	s.sync(pc)
	if extra != nil {
		r := s.ref(extra)
		s.send("(push 1)\n(assert " + r + ")\n")
	}
	ms := s.timeout
	if heavy {
		ms = 300
	}
	if ms != s.curTimeout {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", ms))
		s.curTimeout = ms
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	switch line {
	case "sat":
		res = Sat
		m = s.model()
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") || line == "" {
			s.stats.Errors++
		}
		s.Close()
		return Unknown, nil
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) oneShot(pc []*Term, extra *Term) (res SatRes, m Model) {
	o := &Solver{tc: s.tc, bin: s.bin, timeout: s.timeout}
	o.fp = extra != nil && extra.fp
	for _, t := range pc {
		o.fp = o.fp || t.fp
	}
	o.oneshot = true
	o.start()
	for _, t := range pc {
		o.send("(assert " + o.ref(t) + ")\n")
	}
	if extra != nil {
		o.send("(assert " + o.ref(extra) + ")\n")
	}
	o.send("(check-sat)\n")
	o.in.Flush()
	switch o.readLine() {
	case "sat":
		res = Sat
		m = o.model()
	case "unsat":
		res = Unsat
	default:
		res = Unknown
	}
	o.Close()
	return res, m
}

func (s *Solver) dump(dir string, pc []*Term, extra *Term) {
	f, err := os.CreateTemp(dir, "q*.smt2")
	if err != nil {
		return
	}
	defer f.Close()
	o := &Solver{tc: s.tc, declVar: map[*Term]bool{}, defd: map[*Term]string{}, in: bufio.NewWriter(f)}
	for _, t := range pc {
		o.send("(assert " + o.ref(t) + ")\n")
	}
	if extra != nil {
		o.send("(assert " + o.ref(extra) + ")\n")
	}
	o.send("(check-sat)\n")
	o.in.Flush()
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) model() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString(" |" + v.name + "|")
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read balanced s-expression
	depth := 0
	started := false
	var buf strings.Builder
	inBar := false
	for !started || depth > 0 {
		b, err := s.out.ReadByte()
		if err != nil {
			return m
		}
		buf.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
	}
	sx, _ := parseSexp(buf.String(), 0)
	if len(sx.list) > 0 && sx.list[0].atom == "error" {
		return m
	}
	for _, pr := range sx.list {
		if len(pr.list) != 2 {
			continue
		}
		name := strings.Trim(pr.list[0].atom, "|")
		m[name] = sexpVal(pr.list[1])
	}
	return m
}

type sexp struct {
	atom string
	list []sexp
}

func parseSexp(s string, i int) (sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return sexp{}, i
	}
	if s[i] == '(' {
		i++
		var l []sexp
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return sexp{list: l}, i
			}
			if s[i] == ')' {
				return sexp{list: l}, i + 1
			}
			var e sexp
			e, i = parseSexp(s, i)
			l = append(l, e)
		}
	}
	if s[i] == '|' {
		j := strings.IndexByte(s[i+1:], '|')
		return sexp{atom: s[i : i+j+2]}, i + j + 2
	}
	j := i
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	return sexp{atom: s[i:j]}, j
}

func sexpVal(x sexp) uint64 {
	if x.list == nil {
		a := x.atom
		switch {
		case a == "true":
			return 1
		case a == "false":
			return 0
		case strings.HasPrefix(a, "#x"):
			v, _ := strconv.ParseUint(a[2:], 16, 64)
			return v
		case strings.HasPrefix(a, "#b"):
			v, _ := strconv.ParseUint(a[2:], 2, 64)
			return v
		}
		v, _ := strconv.ParseUint(a, 10, 64)
		return v
	}
	l := x.list
	if len(l) == 4 && l[0].atom == "fp" {
		s, e, f := sexpVal(l[1]), sexpVal(l[2]), sexpVal(l[3])
		ew, fw := sexpWidth(l[2]), sexpWidth(l[3])
		return s<<uint(ew+fw) | e<<uint(fw) | f
	}
	if len(l) == 4 && l[0].atom == "_" { // (_ +zero 11 53)
		eb, _ := strconv.Atoi(l[2].atom)
		sb, _ := strconv.Atoi(l[3].atom)
		fw := sb - 1
		emax := (uint64(1)<<uint(eb) - 1) << uint(fw)
		switch l[1].atom {
		case "+zero":
			return 0
		case "-zero":
			return 1 << uint(eb+fw)
		case "+oo":
			return emax
		case "-oo":
			return emax | 1<<uint(eb+fw)
		case "NaN":
			if eb == 8 {
				return 0x7FC00000
			}
			return 0x7FF8000000000001
		}
	}
	if len(l) == 3 && l[0].atom == "_" && strings.HasPrefix(l[1].atom, "bv") {
		v, _ := strconv.ParseUint(l[1].atom[2:], 10, 64)
		return v
	}
	return 0
}

func sexpWidth(x sexp) int {
	if strings.HasPrefix(x.atom, "#b") {
		return len(x.atom) - 2
	}
	if strings.HasPrefix(x.atom, "#x") {
		return 4 * (len(x.atom) - 2)
	}
	return 0
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.Time += o.Time
	s.Errors += o.Errors
}
