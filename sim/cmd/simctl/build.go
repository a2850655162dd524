package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func buildDir() string { return filepath.Join(verifDir, ".build") }

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOEXPERIMENT", "GODEBUG", "GOMAXPROCS", "GOCACHE", "CGO_ENABLED", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOGC", "GOOS", "GOARCH", "GOAMD64":
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"GOFLAGS=-mod=mod", "GOEXPERIMENT=norandomizedheapbase64", "GOCACHE="+filepath.Join(buildDir(), "gocache"),
		"CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
}

// buildSim rebuilds the simulator binary from the current working tree.
func buildSim() (string, error) {
	bd := buildDir()
	ov := filepath.Join(bd, "overlay")
	if err := os.MkdirAll(ov, 0o755); err != nil {
		return "", err
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", fmt.Errorf("go env: %w", err)
	}
	out2, err := exec.Command("go", "env", "GOMODCACHE").Output()
	if err != nil {
		return "", fmt.Errorf("go env: %w", err)
	}
	g := &overlayGen{goroot: strings.TrimSpace(string(out)), repo: repoDir, out: ov,
		srcDir: filepath.Join(verifDir, "sim", "overlay"), replace: map[string]string{}}
	if err := g.std(); err != nil {
		return "", err
	}
	for _, d := range []string{"server", "client"} {
		if err := g.instrumentDir(filepath.Join(repoDir, d), nil); err != nil {
			return "", err
		}
	}
	if err := g.instrumentDir(filepath.Join(repoDir, "ua"), func(n string) bool {
		return strings.Contains(n, "generated") || strings.HasPrefix(n, "gen_")
	}); err != nil {
		return "", err
	}
	if err := copyInstrumented(filepath.Join(strings.TrimSpace(string(out2)), "github.com/gammazero/workerpool@v1.1.3"), filepath.Join(bd, "workerpool")); err != nil {
		return "", err
	}
	oj, err := g.write()
	if err != nil {
		return "", err
	}
	bin := filepath.Join(bd, "simbin")
	cmd := exec.Command("go", "build", "-tags", "faketime", "-overlay", oj, "-o", bin, "./cmd/simrun")
	cmd.Dir = filepath.Join(verifDir, "sim")
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("build of the simulator failed: %v\n%s", err, b)
	}
	return bin, nil
}

// copyInstrumented copies a module with preemption points added (files below
// the module cache cannot be overlaid; go.mod replaces the module).
func copyInstrumented(from, to string) error {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return err
	}
	ents, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, n))
		if err != nil {
			return err
		}
		if strings.HasSuffix(n, ".go") && n != "doc.go" {
			if b, err = instrument(n, b); err != nil {
				return err
			}
		}
		p := filepath.Join(to, n)
		if old, err := os.ReadFile(p); err == nil && string(old) == string(b) {
			continue
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return err
		}
	}
	return nil
}
