package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type ssaFunction = ssa.Function
type typesType = types.Type

type replayRes int

const (
	replayFailed replayRes = iota
	replayConfirmed
)

// replayer follows recorded paths natively: it compiles a copy of the harness
// and of /repo's current source in which go statements, channel operations and
// the packages sync, sync/atomic, time, math/rand, crypto/rand and runtime go
// through a scheduler that follows the recorded schedule (vharness/vsched) but
// use the real primitives.
type replayer struct {
	e    *Engine
	dir  string
	keep string
	prop string
	pkg  string
	why  string
	l    *loaded

	scratch string
	bins    map[bool]string
	binErr  map[bool]error
	n       int
}

func (r *replayer) cleanup() {
	if r.scratch != "" {
		os.RemoveAll(r.scratch)
		r.scratch = ""
	}
}

// sysImports are replaced in the package that reads the system's answers.
var sysImports = map[string]string{
	"os": "vharness/shim/vos", "syscall": "vharness/shim/vsyscall", "runtime/debug": "vharness/shim/vdebug",
}

var shimImports = map[string]string{
	"sync": "vharness/shim/vsync", "sync/atomic": "vharness/shim/vatomic", "time": "vharness/shim/vtime",
	"math/rand": "vharness/shim/vrand", "crypto/rand": "vharness/shim/vcrand", "runtime": "vharness/shim/vruntime",
}

type edit struct {
	off, end int
	text     string
	seq      int
}

func (r *replayer) prepare() error {
	if r.scratch != "" {
		return nil
	}
	d, err := os.MkdirTemp("", "vrfreplay")
	if err != nil {
		return err
	}
	r.scratch = d
	r.bins = map[bool]string{}
	r.binErr = map[bool]error{}
	seen := map[string]bool{}
	var ferr error
	packages.Visit(r.l.pkgs, nil, func(p *packages.Package) {
		isRepo := r.e.isRepo(p.PkgPath)
		isH := r.e.isHarness(p.PkgPath)
		if (!isRepo && !isH) || seen[p.PkgPath] || ferr != nil {
			return
		}
		seen[p.PkgPath] = true
		plain := p.PkgPath == "vharness/vrf" || p.PkgPath == "vharness/vsched" || strings.HasPrefix(p.PkgPath, "vharness/shim")
		for i, f := range p.CompiledGoFiles {
			if !strings.HasSuffix(f, ".go") || i >= len(p.Syntax) {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				ferr = err
				return
			}
			var sub string
			if isRepo {
				sub = filepath.Join(d, "repo", strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, r.e.repoMod), "/"))
			} else {
				sub = filepath.Join(d, "harness", strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, r.e.harnessMod), "/"))
			}
			os.MkdirAll(sub, 0o755)
			if !plain {
				src = rewrite(r.e.fset, p, p.Syntax[i], src)
			}
			if err := os.WriteFile(filepath.Join(sub, filepath.Base(f)), src, 0o644); err != nil {
				ferr = err
				return
			}
		}
	})
	if ferr != nil {
		return ferr
	}
	// the shims and the scheduler are copied verbatim
	for _, s := range []string{"vsched", "shim/vsync", "shim/vatomic", "shim/vtime", "shim/vrand", "shim/vcrand", "shim/vruntime", "shim/vsys", "shim/vos", "shim/vdebug", "shim/vsyscall"} {
		ents, err := os.ReadDir(filepath.Join(r.dir, s))
		if err != nil {
			return err
		}
		os.MkdirAll(filepath.Join(d, "harness", s), 0o755)
		for _, e := range ents {
			b, err := os.ReadFile(filepath.Join(r.dir, s, e.Name()))
			if err != nil {
				return err
			}
			os.WriteFile(filepath.Join(d, "harness", s, e.Name()), b, 0o644)
		}
	}
	gm, err := os.ReadFile(filepath.Join(r.e.repoDir, "go.mod"))
	if err != nil {
		return err
	}
	os.WriteFile(filepath.Join(d, "repo", "go.mod"), gm, 0o644)
	hm, err := os.ReadFile(filepath.Join(r.dir, "go.mod"))
	if err != nil {
		return err
	}
	hm = bytes.ReplaceAll(hm, []byte("=> /repo"), []byte("=> ../repo"))
	os.WriteFile(filepath.Join(d, "harness", "go.mod"), hm, 0o644)
	// driver
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"vharness/vsched\"\n\t_ \"vharness/shim/vtime\"\n")
	for i, p := range r.l.pkgs {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p.PkgPath)
	}
	b.WriteString(")\n\nfunc main() {\n\tvar h func()\n\tswitch os.Getenv(\"VRF_HARNESS\") {\n")
	for i, p := range r.l.pkgs {
		for _, h := range r.l.harnesses() {
			if h.fn.Pkg.Pkg.Path() == p.PkgPath {
				fmt.Fprintf(&b, "\tcase %q:\n\t\th = p%d.%s\n", h.name, i, h.name)
			}
		}
	}
	b.WriteString("\t}\n\tvsched.Start()\n\th()\n\tvsched.Exit(\"ok\", \"\")\n}\n")
	os.MkdirAll(filepath.Join(d, "harness", "vmain"), 0o755)
	return os.WriteFile(filepath.Join(d, "harness", "vmain", "main.go"), []byte(b.String()), 0o644)
}

func (r *replayer) build(race bool) (string, error) {
	if err := r.prepare(); err != nil {
		return "", err
	}
	if b, ok := r.bins[race]; ok {
		return b, r.binErr[race]
	}
	out := filepath.Join(r.scratch, fmt.Sprintf("replay-%v", race))
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./vmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(r.scratch, "harness")
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	} else {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
	}
	o, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("native build: %v: %s", err, firstLines(string(o), 12))
	}
	r.bins[race], r.binErr[race] = out, err
	return out, err
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// rewrite instruments one file.
func rewrite(fset *token.FileSet, p *packages.Package, f *ast.File, src []byte) []byte {
	var eds []edit
	off := func(q token.Pos) int { return fset.Position(q).Offset }
	add := func(a, b token.Pos, text string) { eds = append(eds, edit{off(a), off(b), text, len(eds)}) }
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		s, ok := shimImports[path]
		if !ok && strings.HasSuffix(p.PkgPath, "/environment") {
			s, ok = sysImports[path]
		}
		if ok {
			name := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			add(im.Pos(), im.End(), name+" "+fmt.Sprintf("%q", s))
		}
	}
	add(f.Name.End(), f.Name.End(), "; import vsched_ \"vharness/vsched\"")
	skip := map[ast.Node]bool{}
	nsel := 0
	labeled := map[ast.Stmt]*ast.LabeledStmt{}
	inner := func(e ast.Expr) ast.Expr {
		for {
			pe, ok := e.(*ast.ParenExpr)
			if !ok {
				return e
			}
			e = pe.X
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.LabeledStmt:
			labeled[x.Stmt] = x
		case *ast.GoStmt:
			c := x.Call
			if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
				add(x.Pos(), fl.Pos(), "vsched_.Go(")
				add(fl.End(), c.End(), ")")
				return true
			}
			// { f, a := fun, args; Go(func() { f(a) }) }
			names := []string{"vgoF"}
			for i := range c.Args {
				names = append(names, fmt.Sprintf("vgoA%d", i))
			}
			add(x.Pos(), c.Fun.Pos(), "{ "+strings.Join(names, ", ")+" := ")
			call := "vgoF(" + strings.Join(names[1:], ", ")
			if c.Ellipsis.IsValid() {
				call += "..."
			}
			sep := ""
			if len(c.Args) > 0 {
				sep = ", "
				add(c.Fun.End(), c.Args[0].Pos(), sep)
				add(c.Args[len(c.Args)-1].End(), c.End(), "; vsched_.Go(func() { "+call+") }) }")
			} else {
				add(c.Fun.End(), c.End(), "; vsched_.Go(func() { "+call+") }) }")
			}
		case *ast.SelectStmt:
			var at ast.Stmt = x
			for labeled[at] != nil {
				at = labeled[at]
			}
			nsel++
			v := fmt.Sprintf("vsel%d", nsel)
			add(at.Pos(), at.Pos(), v+" := vsched_.SelBegin(); ")
			k := 0
			for _, cl := range x.Body.List {
				if cl.(*ast.CommClause).Comm != nil {
					k++
				}
			}
			i := 0
			for _, cl := range x.Body.List {
				cc := cl.(*ast.CommClause)
				add(cc.Colon+1, cc.Colon+1, " vsched_.SelEnd("+v+"); ")
				if cc.Comm == nil {
					continue
				}
				wrapRecv := func(e ast.Expr) {
					u, ok := inner(e).(*ast.UnaryExpr)
					if !ok {
						return
					}
					skip[u] = true
					add(u.X.Pos(), u.X.Pos(), fmt.Sprintf("vsched_.SelRecv(%d, %d, ", i, k))
					add(u.X.End(), u.X.End(), ")")
				}
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					skip[s] = true
					add(s.Chan.Pos(), s.Chan.Pos(), fmt.Sprintf("vsched_.SelSend(%d, %d, ", i, k))
					add(s.Chan.End(), s.Chan.End(), ")")
				case *ast.ExprStmt:
					wrapRecv(s.X)
				case *ast.AssignStmt:
					wrapRecv(s.Rhs[0])
				}
				i++
			}
		case *ast.SendStmt:
			if !skip[x] {
				add(x.Pos(), x.Pos(), "vsched_.Send(")
				add(x.Arrow, x.Arrow+2, ", ")
				add(x.End(), x.End(), ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := inner(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && !skip[u] {
					skip[u] = true
					add(u.Pos(), u.X.Pos(), "vsched_.Recv2(")
					add(u.End(), u.End(), ")")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skip[x] {
				add(x.Pos(), x.X.Pos(), "vsched_.Recv(")
				add(x.End(), x.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, b := p.TypesInfo.Uses[id].(*types.Builtin); b {
					add(id.Pos(), id.End(), "vsched_.Close")
				}
			}
		}
		return true
	})
	// inner insertions at the same offset come after outer ones at starts and
	// before them at ends
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		ci := strings.HasPrefix(eds[i].text, ")")
		cj := strings.HasPrefix(eds[j].text, ")")
		if ci && cj {
			return eds[i].seq > eds[j].seq
		}
		if ci != cj {
			return ci
		}
		return eds[i].seq < eds[j].seq
	})
	var out bytes.Buffer
	last := 0
	for _, e := range eds {
		if e.off < last {
			continue
		}
		out.Write(src[last:e.off])
		out.WriteString(e.text)
		last = e.end
	}
	out.Write(src[last:])
	out.WriteString("\nvar _ = vsched_.Me\n")
	return out.Bytes()
}

type nativeOut struct {
	res, msg string
	out      string
	code     int
	obs      []string
}

func (r *replayer) runNative(bin string, run *ReplayRun, file string) nativeOut {
	b, _ := json.MarshalIndent(run, "", " ")
	os.WriteFile(file, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Env = append(os.Environ(), "VRF_REPLAY="+file, "VRF_HARNESS="+run.Harness, "GORACE=halt_on_error=0 exitcode=66")
	cmd.Dir = r.scratch
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	err := cmd.Run()
	n := nativeOut{out: o.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		n.code = ee.ExitCode()
	} else if err != nil {
		n.code = -1
	}
	for _, ln := range strings.Split(n.out, "\n") {
		if strings.HasPrefix(ln, "VRF-OBS ") {
			n.obs = append(n.obs, ln[8:])
		}
		if strings.HasPrefix(ln, "VRF-RESULT ") && n.res == "" {
			sp := strings.SplitN(ln[11:], " ", 2)
			n.res = sp[0]
			if len(sp) > 1 {
				n.msg = sp[1]
			}
		}
	}
	if n.res == "" {
		switch {
		case strings.Contains(n.out, "fatal error: all goroutines are asleep"):
			n.res = "deadlock"
		case strings.Contains(n.out, "panic: ") || strings.Contains(n.out, "fatal error: "):
			n.res = "panic"
			n.msg = firstLines(n.out, 3)
		case ctx.Err() != nil:
			n.res = "timeout"
		default:
			n.res = "error"
			n.msg = firstLines(n.out, 5)
		}
	}
	return n
}

// replay follows a counterexample natively and says whether the violation
// shows in the real code.
func (r *replayer) replay(c Cex) (replayRes, string) {
	r.n++
	os.MkdirAll(r.keep, 0o755)
	file := filepath.Join(r.keep, fmt.Sprintf("%s-%s-%d.json", r.prop, c.Harness, r.n))
	race := c.Viol.kind == "race"
	bin, err := r.build(race)
	if err != nil {
		r.why = err.Error()
		return replayFailed, file
	}
	run := c.Run
	r.why = ""
	for i := 0; i < 25; i++ {
		n := r.runNative(bin, &run, file)
		ok := false
		switch c.Viol.kind {
		case "race":
			ok = strings.Contains(n.out, "WARNING: DATA RACE") && raceInRepo(n.out)
		case "deadlock":
			ok = n.res == "deadlock" || n.res == "timeout"
		default:
			ok = n.res == "assert" || n.res == "panic" || n.res == "deadlock"
		}
		if ok {
			os.WriteFile(strings.TrimSuffix(file, ".json")+".txt", []byte(fmt.Sprintf("%s: %s: %s\nat %s\n%s\nnative run:\n%s\n", c.Harness, c.Viol.kind, c.Viol.msg, c.Viol.pos, c.Stack, firstLines(n.out, 200))), 0o644)
			return replayConfirmed, file
		}
		r.why = fmt.Sprintf("native run ended with %s %s", n.res, n.msg)
		if r.e.debug {
			r.why += "\n" + firstLines(n.out, 60)
		}
		if n.res == "timeout" || n.res == "diverged" && i >= 4 {
			break
		}
	}
	os.Remove(file)
	return replayFailed, file
}

func raceInRepo(out string) bool {
	return strings.Contains(out, "/repo/")
}

// validate follows sampled passing paths natively and compares the values the
// harness observed.
func (r *replayer) validate(h *HarnessResult) (int, int, string) {
	if len(h.Samples) == 0 {
		return 0, 0, ""
	}
	bin, err := r.build(false)
	if err != nil {
		return 0, 0, err.Error()
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	ok, bad := 0, 0
	note := ""
	for i := range h.Samples {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			s := &h.Samples[i]
			n := r.runNative(bin, &s.Run, filepath.Join(r.scratch, fmt.Sprintf("s-%s-%d.json", h.Name, i)))
			why := ""
			if n.res != "ok" {
				why = "native run ended with " + n.res + " " + n.msg
			} else if strings.Join(n.obs, "\n") != strings.Join(s.Observe, "\n") {
				why = fmt.Sprintf("observed natively %v, symbolically %v", n.obs, s.Observe)
			}
			mu.Lock()
			defer mu.Unlock()
			if why == "" {
				ok++
			} else {
				bad++
				if note == "" || r.e.debug {
					note = fmt.Sprintf("%s: sampled path does not agree natively: %s; inputs %v choices %v", h.Name, why, s.Inputs, s.Choices)
					if r.e.debug {
						fmt.Println(note, n.out)
					}
				}
			}
		}(i)
	}
	wg.Wait()
	return ok, bad, note
}
