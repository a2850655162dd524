package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// overlay generation: patches of the Go standard library (scheduler, clock,
// randomness, network entry points) and preemption points in the code under
// test. Nothing in /repo or GOROOT is modified; `go build -overlay` is used.

type overlayGen struct {
	goroot, repo, out, srcDir string
	replace                   map[string]string
	n                         int
}

func (o *overlayGen) put(target string, data []byte) error {
	o.n++
	p := filepath.Join(o.out, fmt.Sprintf("f%04d_%s", o.n, filepath.Base(target)))
	// write only when changed, so that the build cache stays warm
	if old, err := os.ReadFile(p); err != nil || string(old) != string(data) {
		if err := os.WriteFile(p, data, 0o644); err != nil {
			return err
		}
	}
	o.replace[target] = p
	return nil
}

type sub struct{ old, new string }

func (o *overlayGen) patchStd(rel string, subs ...sub) error {
	f := filepath.Join(o.goroot, "src", rel)
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	s := string(b)
	for _, x := range subs {
		if strings.Count(s, x.old) < 1 {
			return fmt.Errorf("overlay: %s: pattern not found: %q", rel, x.old)
		}
		s = strings.ReplaceAll(s, x.old, x.new)
	}
	return o.put(f, []byte(s))
}

func (o *overlayGen) addStd(rel, src string) error {
	b, err := os.ReadFile(filepath.Join(o.srcDir, src))
	if err != nil {
		return err
	}
	return o.put(filepath.Join(o.goroot, "src", rel), b)
}

func (o *overlayGen) std() error {
	steps := []func() error{
		func() error { return o.addStd("runtime/time_fake.go", "time_fake.go.src") },
		func() error { return o.addStd("runtime/zz_sim.go", "zz_sim.go.src") },
		func() error {
			return o.patchStd("runtime/proc.go",
				sub{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
				sub{"	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if false && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
				sub{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif gomaxprocs == 1 {\n\t\treturn simPick(pp), false\n\t}\n"},
				sub{"	// Poll network.\n	// This netpoll is only an optimization", "	if gomaxprocs == 1 && simIdle(pp) {\n		goto top\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization"},
			)
		},
		func() error {
			return o.patchStd("runtime/rand.go",
				sub{"	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	for i := range seed {\n		seed[i] = byte(i*7 + 3)\n	}\n	startupRand = nil\n	if true {\n	} else if len(startupRand) >= 16 &&"},
				sub{"func rand() uint64 {\n", "func rand() uint64 {\n	if sim.on {\n		return simRand()\n	}\n"},
				sub{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if sim.on {\n		return uint32(simRand() >> 16)\n	}\n"},
				sub{"func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n	if sim.on {\n		return simRand()\n	}\n"},
			)
		},
		func() error {
			return o.patchStd("crypto/internal/sysrand/rand.go",
				sub{"func Read(b []byte) {\n", "func Read(b []byte) {\n	runtime.SimRandFill(b)\n	if true {\n		return\n	}\n"},
				sub{"import (\n", "import (\n	\"runtime\"\n"},
			)
		},
		func() error {
			return o.patchStd("os/sys.go", sub{"	return hostname()", "	return \"simhost\", nil"})
		},
		func() error {
			return o.patchStd("net/dial.go",
				sub{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
					"// SimListen, when set, replaces Listen.\nvar SimListen func(ctx context.Context, network, address string) (Listener, error)\n\n// SimDial, when set, replaces DialContext.\nvar SimDial func(ctx context.Context, network, address string, timeout time.Duration) (Conn, error)\n\nfunc (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(ctx, network, address)\n	}\n"},
				sub{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
					"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil {\n		return SimDial(ctx, network, address, d.Timeout)\n	}\n"},
			)
		},
	}
	for _, f := range []string{"map.go", "runtime.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"} {
		f := f
		steps = append(steps, func() error {
			subs := []sub{{"	m.writing ^= 1 // toggle, see comment on writing\n", "	m.writing ^= 1 // toggle, see comment on writing\n	simMapYield()\n"}}
			if f == "runtime.go" {
				subs = append(subs, sub{"//go:linkname rand\nfunc rand() uint64\n", "//go:linkname rand\nfunc rand() uint64\n\n//go:linkname simMapYield\nfunc simMapYield()\n"})
			}
			return o.patchStd("internal/runtime/maps/"+f, subs...)
		})
	}
	for _, s := range steps {
		if err := s(); err != nil {
			return err
		}
	}
	return nil
}

type edit struct {
	off int
	end int
	txt string
}

// instrument inserts a preemption point before every statement, and splits
// unsynchronised-looking read-modify-write statements so that a lost update is
// observable.
func instrument(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var pure func(e ast.Expr) bool
	pure = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return true
		case *ast.SelectorExpr:
			return pure(x.X)
		case *ast.StarExpr:
			return pure(x.X)
		case *ast.ParenExpr:
			return pure(x.X)
		}
		return false
	}
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch x := s.(type) {
			case *ast.LabeledStmt:
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "simrt.SimYield(); "})
				continue
			case *ast.EmptyStmt:
				continue
			case *ast.IncDecStmt:
				if _, ok := x.X.(*ast.SelectorExpr); ok && pure(x.X) {
					l := text(x.X)
					op := "+"
					if x.Tok == token.DEC {
						op = "-"
					}
					edits = append(edits, edit{off(s.Pos()), off(s.End()), "{ simrt.SimYield(); simtmp__ := " + l + "; simrt.SimYield(); " + l + " = simtmp__ " + op + " 1 }"})
					continue
				}
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "simrt.SimYield(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// a switch or select body holds clauses, not statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import simrt \"runtime\"; var _ = simrt.SimYield"})
	// the var must not precede other imports: add import only, and the use at the end
	edits[len(edits)-1].txt = "; import simrt \"runtime\""
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		if e.off < last {
			continue
		}
		b.Write(src[last:e.off])
		b.WriteString(e.txt)
		last = e.end
	}
	b.Write(src[last:])
	b.WriteString("\n\nvar _ = simrt.SimYield\n")
	return []byte(b.String()), nil
}

func (o *overlayGen) instrumentDir(dir string, skip func(string) bool) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || (skip != nil && skip(n)) {
			continue
		}
		p := filepath.Join(dir, n)
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if strings.Contains(string(src), "//go:build ignore") {
			continue
		}
		out, err := instrument(p, src)
		if err != nil {
			return err
		}
		if err := o.put(p, out); err != nil {
			return err
		}
	}
	return nil
}

func (o *overlayGen) write() (string, error) {
	b, _ := json.MarshalIndent(map[string]any{"Replace": o.replace}, "", " ")
	p := filepath.Join(o.out, "overlay.json")
	if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
		return p, nil
	}
	return p, os.WriteFile(p, b, 0o644)
}
