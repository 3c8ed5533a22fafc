package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const repoMod = "github.com/spacemonkeygo/monkit/v3"

// HarnessResult is what one harness explored.
type HarnessResult struct {
	Name     string           `json:"harness"`
	Doc      string           `json:"doc,omitempty"`
	Stats    RunStats         `json:"stats"`
	Bounds   map[string]int64 `json:"bounds"`
	Reached  map[string]int64 `json:"reached,omitempty"`
	Reduced  map[string]int64 `json:"reduced,omitempty"`
	Complete bool             `json:"complete"`
	Wall     float64          `json:"wall_s"`
	Cexs     []Cex            `json:"-"`
	Samples  []PathSample     `json:"-"`
	NCex     int              `json:"counterexamples"`
}

func main() {
	var (
		prop     = flag.String("property", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		dir      = flag.String("dir", "/verif/harness", "harness module")
		pkg      = flag.String("pkg", "", "harness package pattern")
		only     = flag.String("only", "", "run only harnesses with this substring")
		out      = flag.String("evidence", "", "evidence file")
		debugF   = flag.Bool("debug", false, "debug output")
		nw       = flag.Int("workers", 0, "workers")
		budget   = flag.Int("budget", 0, "seconds for all harnesses together")
		preempt  = flag.Int("preempt", -1, "preemption bound")
		solverB  = flag.String("solver", "z3-new", "solver binary")
		findings = flag.String("findings", "/verif/known-findings.txt", "known findings")
		noReplay = flag.Bool("noreplay", false, "skip native replay")
		keep     = flag.String("replaydir", "/verif/replays", "where replay files go")
		timing   = flag.Bool("timing", false, "print timing")
	)
	flag.Parse()
	debug.SetGCPercent(400)
	t0 := time.Now()
	thorough := *tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	l, err := load(*dir, strings.Split(*pkg, ","), repoMod, nil)
	if err != nil {
		fmt.Println("ERROR: cannot load harness and repository:", err)
		os.Exit(2)
	}
	if *timing {
		fmt.Println("load", time.Since(t0))
	}
	hs := l.harnesses()
	if *only != "" {
		var f []harness
		for _, h := range hs {
			if strings.Contains(h.name, *only) {
				f = append(f, h)
			}
		}
		hs = f
	}
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness")
		os.Exit(2)
	}
	n := *nw
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	e := &Engine{prog: l.prog, fset: l.prog.Fset, repoDir: "/repo", repoMod: repoMod, harnessMod: "vharness", vrfPkg: "vharness/vrf",
		debug: *debugF, thorough: thorough, solverBin: *solverB, solverTO: 5000, workers: n,
		byName: nil, rtErr: nil}
	e.reset()
	e.preemptBound = 2
	if thorough {
		e.preemptBound = 3
		e.solverTO = 30000
	}
	if *preempt >= 0 {
		e.preemptBound = *preempt
	}
	total := *budget
	if total == 0 {
		total = 200
		if thorough {
			total = 700
		}
	}
	ws := make([]*Worker, n)
	var wg sync.WaitGroup
	errs := make([]error, n)
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ws[i] = e.newWorker(i)
			errs[i] = ws[i].initPackages(l.repo)
		}(i)
	}
	wg.Wait()
	for _, er := range errs {
		if er != nil {
			fmt.Println("ERROR:", er)
			os.Exit(2)
		}
	}
	if *timing {
		fmt.Println("init", time.Since(t0))
	}
	end := time.Now().Add(time.Duration(total) * time.Second)
	var results []*HarnessResult
	for i, h := range hs {
		left := time.Until(end)
		share := left
		if n := len(hs) - i; n > 2 {
			share = left * 2 / time.Duration(n)
		}
		if b := h.opts["budget"]; b != "" {
			bn, _ := strconv.Atoi(b)
			share = time.Duration(bn) * time.Second
		}
		results = append(results, e.runHarness(ws, h, share))
		r := results[len(results)-1]
		if *timing || *debugF {
			b, _ := json.Marshal(r)
			fmt.Println(string(b))
		}
	}
	var sol SolverStats
	for _, w := range ws {
		sol.add(w.sol.stats)
		w.sol.Close()
	}
	rp := &replayer{e: e, dir: *dir, keep: *keep, prop: *prop, pkg: *pkg, l: l}
	defer rp.cleanup()
	code := e.judge(rp, results, *prop, *tier, seed, *out, *findings, *noReplay, sol, t0)
	rp.cleanup()
	os.Exit(code)
}

func (e *Engine) reset() {
	e.funcs = map[string]bool{}
	if e.byName == nil {
		e.byName = map[string]*ssaFunction{}
		e.stubSeen = map[string]bool{}
		e.rtErr = map[string]typesType{}
	}
	e.stats = RunStats{}
	e.cexs = nil
	e.cexKeys = map[string]int{}
	e.samples = nil
	e.sampleEv = 0
	e.nPaths = 0
	e.reached = map[string]int64{}
	e.unsup = map[string]int64{}
	e.bounds = map[string]int64{}
	e.maxSteps = 20_000_000
	e.maxPaths = 4_000_000
}

func (e *Engine) runHarness(ws []*Worker, h harness, share time.Duration) *HarnessResult {
	fs := e.funcs
	e.reset()
	if fs != nil {
		e.funcs = fs
	}
	t0 := time.Now()
	e.deadline = t0.Add(share)
	pb := e.preemptBound
	if v := h.opts["preempt"]; v != "" {
		parts := strings.Split(v, ",")
		k := 0
		if e.thorough && len(parts) > 1 {
			k = 1
		}
		e.preemptBound, _ = strconv.Atoi(parts[k])
	}
	if v := h.opts["steps"]; v != "" {
		e.maxSteps, _ = strconv.ParseInt(v, 10, 64)
	}
	for _, w := range ws {
		w.st = RunStats{}
	}
	e.explore(ws, h.fn)
	r := &HarnessResult{Name: h.name, Doc: strings.TrimSpace(h.doc), Bounds: e.bounds, Reached: e.reached, Reduced: e.unsup, Cexs: e.cexs, Samples: e.samples}
	for _, w := range ws {
		r.Stats.add(&w.st)
	}
	e.bounds["preemptions"] = int64(e.preemptBound)
	e.preemptBound = pb
	r.Wall = time.Since(t0).Seconds()
	r.Complete = len(e.unsup) == 0 && r.Stats.Unknown == 0
	r.NCex = len(e.cexs)
	return r
}

func (a *RunStats) add(b *RunStats) {
	a.Paths += b.Paths
	a.Pruned += b.Pruned
	a.Steps += b.Steps
	a.Asserts += b.Asserts
	a.AssertSyntactic += b.AssertSyntactic
	a.AssertUnsat += b.AssertUnsat
	a.AssertSat += b.AssertSat
	a.AssertUnknown += b.AssertUnknown
	a.Budget += b.Budget
	a.Unknown += b.Unknown
	a.Switches += b.Switches
	a.VisOps += b.VisOps
	a.Branches += b.Branches
	a.Forks += b.Forks
	a.Tables += b.Tables
	if b.MaxPC > a.MaxPC {
		a.MaxPC = b.MaxPC
	}
}

// knownFindings reads "KNOWN property=<id> key=<substring> <text>" lines.
type known struct{ prop, key, text string }

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []known
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "known: ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(ln, "known: ")
		for {
			sp := strings.SplitN(rest, " ", 2)
			if strings.HasPrefix(sp[0], "property=") {
				k.prop = sp[0][9:]
			} else if strings.HasPrefix(sp[0], "key=") {
				k.key = sp[0][4:]
			} else {
				break
			}
			if len(sp) < 2 {
				rest = ""
				break
			}
			rest = sp[1]
		}
		k.text = rest
		r = append(r, k)
	}
	return r
}

func (e *Engine) judge(rp *replayer, rs []*HarnessResult, prop, tier string, seed int, out, findings string, noReplay bool, sol SolverStats, t0 time.Time) int {
	var all []Cex
	var samples []PathSample
	var nSamples int
	asserts, paths := int64(0), int64(0)
	for _, r := range rs {
		all = append(all, r.Cexs...)
		nSamples += len(r.Samples)
		samples = append(samples, r.Samples...)
		asserts += r.Stats.Asserts + r.Stats.AssertSat
		paths += r.Stats.Paths
	}
	kn := readKnown(findings)
	confirmed := 0
	var notes []string
	code := 0
	seenKnown := map[string]bool{}
	reported := map[string]bool{}
	tried := map[string]int{}
	for i, c := range all {
		key := c.Harness + "|" + c.Viol.kind + "|" + c.Viol.pos + "|" + c.Viol.msg
		if reported[key] || tried[key] >= 2 {
			continue
		}
		tried[key]++
		fmt.Printf("counterexample %d: %s: %s: %s (%s)\n", i, c.Harness, c.Viol.kind, c.Viol.msg, c.Viol.pos)
		for _, in := range c.Inputs {
			fmt.Printf("    %s (%s) = %d\n", in.Name, in.Kind, int64(in.Val))
		}
		if len(c.Choices) > 0 {
			fmt.Printf("    choices %v\n", c.Choices)
		}
		if e.debug {
			fmt.Print(c.Stack)
		}
		isKnown := false
		for _, k := range kn {
			if k.prop == prop && strings.Contains(strings.ReplaceAll(key, " ", "_"), k.key) {
				isKnown = true
				if !seenKnown[k.key] {
					seenKnown[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
		}
		if isKnown {
			continue
		}
		if noReplay {
			fmt.Println("    (not replayed)")
			continue
		}
		res, path := rp.replay(c)
		if res == replayConfirmed {
			confirmed++
			code = 1
			reported[key] = true
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			notes = append(notes, fmt.Sprintf("counterexample of %s (%s: %s) did not reproduce natively: %s", c.Harness, c.Viol.kind, c.Viol.msg, rp.why))
			fmt.Println("    NOT REPRODUCED:", rp.why)
		}
		if confirmed >= 5 {
			break
		}
	}
	validated, disagreements := 0, 0
	if !noReplay && code == 0 {
		for _, r := range rs {
			v, d, note := rp.validate(r)
			validated += v
			disagreements += d
			if note != "" {
				notes = append(notes, note)
				fmt.Println(note)
			}
		}
	}
	vac := false
	for _, r := range rs {
		if r.Stats.Asserts+r.Stats.AssertSat == 0 && r.NCex == 0 {
			msg := fmt.Sprintf("harness %s decided no assertion on any path (paths=%d, reduced=%v)", r.Name, r.Stats.Paths, r.Reduced)
			notes = append(notes, msg)
			fmt.Println("WARNING:", msg)
			vac = true
		}
	}
	_ = vac
	for _, r := range rs {
		fmt.Printf("%s: paths=%d pruned=%d asserts=%d (syntactic %d, unsat %d, unknown %d) forks=%d switches=%d complete=%v %.1fs %v\n", r.Name, r.Stats.Paths, r.Stats.Pruned,
			r.Stats.Asserts, r.Stats.AssertSyntactic, r.Stats.AssertUnsat, r.Stats.AssertUnknown, r.Stats.Forks, r.Stats.Switches, r.Complete, r.Wall, r.Reduced)
	}
	if out != "" {
		e.writeEvidence(out, rs, prop, tier, seed, sol, t0, confirmed, validated, disagreements, notes, samples, paths, asserts)
	}
	return code
}

func (e *Engine) writeEvidence(out string, rs []*HarnessResult, prop, tier string, seed int, sol SolverStats, t0 time.Time, confirmed, validated, disagreements int, notes []string, samples []PathSample, paths, asserts int64) {
	var repoFns, otherFns []string
	for f := range e.funcs {
		if strings.Contains(f, repoMod) {
			repoFns = append(repoFns, strings.ReplaceAll(f, repoMod, "monkit"))
		} else if !strings.Contains(f, "vharness") {
			otherFns = append(otherFns, f)
		}
	}
	sort.Strings(repoFns)
	sort.Strings(otherFns)
	var stubs []string
	for s := range e.stubSeen {
		stubs = append(stubs, s)
	}
	sort.Strings(stubs)
	var smp []interface{}
	for i, s := range samples {
		if i < 3 {
			smp = append(smp, s)
		}
	}
	if smp == nil {
		smp = []interface{}{}
	}
	var switches, transitions int64
	for _, r := range rs {
		switches += r.Stats.Switches
		transitions += r.Stats.Branches + r.Stats.VisOps
	}
	exhaustive := true
	for _, r := range rs {
		exhaustive = exhaustive && r.Complete
	}
	cov := map[string]interface{}{
		"explanation":       "Symbolic execution of the SSA form of /repo's current source: every path within the bounds is one set of solver constraints; an assertion passes on a path when its negation is unsatisfiable together with the path condition.",
		"functions_encoded": repoFns, "stdlib_functions_interpreted": len(otherFns), "stubs": stubs,
		"harnesses": rs, "assertions_decided": asserts, "schedule_switches": switches,
		"queries": sol.Queries, "queries_sat": sol.SatN, "queries_unsat": sol.UnsatN, "queries_unknown": sol.UnknownN, "solver_time_s": sol.Time.Seconds(),
		"solver":                        e.solverBin,
		"states_meaning":                "states counts completed symbolic paths; transitions counts symbolic branches decided and scheduling points passed",
		"states":                        paths,
		"transitions":                   transitions,
		"samples":                       smp,
		"traces_validated_against_impl": validated, "validation_disagreements": disagreements,
		"exhaustive": exhaustive,
		"notes":      notes,
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": confirmed,
		"assumptions": []string{"the symbolic interpreter (go/ssa semantics, memory, scheduler, stub models listed under stubs) is faithful; sampled path models are replayed natively to check it",
			"sequentially consistent interleavings at synchronisation operations, at most the stated number of preemptions; data races are reported separately by happens-before tracking",
			"z3 answers are right"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(out), 0o755)
	if err := os.WriteFile(out, append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR: cannot write evidence:", err)
	}
}
