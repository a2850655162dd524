package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// violation and result mirror the simulator's output.
type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type schedCounters struct {
	Decisions, Contended, Preempts, Stalls, StallNs, Jumps, Steps, MapYields, Hash, MaxReady, NonFifo uint64
}

type result struct {
	Prop     string         `json:"prop"`
	Seed     uint64         `json:"seed"`
	OK       bool           `json:"ok"`
	Viol     *violation     `json:"violation"`
	Counts   map[string]int `json:"counts"`
	Faults   map[string]int `json:"faults"`
	Sched    schedCounters  `json:"sched"`
	SimNs    int64          `json:"sim_ns"`
	States   []uint64       `json:"states"`
	HistHash uint64         `json:"hist_hash"`
	Hist     []string       `json:"hist"`
	Ops      int            `json:"ops"`
	NonTriv  bool           `json:"nontrivial"`

	infra   string // not a verdict: harness trouble
	timeout bool
	stderr  string
}

var runSeq int64

type runner struct {
	bin, tmp string
}

func newRunner(bin string) (*runner, error) {
	if err := os.MkdirAll(filepath.Join(buildDir(), "runs"), 0o755); err != nil {
		return nil, err
	}
	d, err := os.MkdirTemp(filepath.Join(buildDir(), "runs"), "r")
	if err != nil {
		return nil, err
	}
	return &runner{bin, d}, nil
}

func (r *runner) close() { os.RemoveAll(r.tmp) }

const runWall = 60 * time.Second

// run executes one plan or seed in a fresh process.
func (r *runner) run(args ...string) *result {
	return r.runCtx(context.Background(), args...)
}

func (r *runner) runCtx(ctx context.Context, args ...string) *result {
	out := filepath.Join(r.tmp, fmt.Sprintf("o%d", atomic.AddInt64(&runSeq, 1)))
	defer os.Remove(out)
	ctx, cancel := context.WithTimeout(ctx, runWall)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, append(args, "-out", out)...)
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC", "GOTRACEBACK=all", "SIM_KNOWN=" + os.Getenv("SIM_KNOWN")}
	cmd.Dir = r.tmp
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var eb bytes.Buffer
	cmd.Stderr = &capWriter{b: &eb, max: 4 << 20}
	cmd.Stdout = cmd.Stderr
	err := cmd.Run()
	res := &result{}
	if b, e := os.ReadFile(out); e == nil {
		json.Unmarshal(b, res)
	}
	if err == nil {
		if !res.OK {
			res.infra = "run ended without a result"
		}
		return res
	}
	if ctx.Err() != nil {
		res.timeout = true
		return res
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		res.infra = err.Error()
		return res
	}
	if ee.ExitCode() == 10 && res.Viol != nil {
		return res
	}
	res.stderr = unfake(eb.Bytes())
	if v := crashClass(res.stderr); v != nil {
		res.Viol = v
		return res
	}
	res.infra = fmt.Sprintf("%v: %s", err, tail(res.stderr, 1500))
	return res
}

// unfake removes the playback headers of the fake clock's write.
func unfake(b []byte) string {
	var o bytes.Buffer
	for i := 0; i < len(b); {
		if i+16 < len(b) && b[i] == 0 && b[i+1] == 0 && b[i+2] == 'P' && b[i+3] == 'B' {
			i += 16
			continue
		}
		o.WriteByte(b[i])
		i++
	}
	return o.String()
}

type capWriter struct {
	mu  sync.Mutex
	b   *bytes.Buffer
	max int
}

func (c *capWriter) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if room := c.max - c.b.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		c.b.Write(p[:room])
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var frameRe = regexp.MustCompile(`(?m)^([^\s].*)\n\t(/\S+\.go):(\d+)`)

// crashClass recognises a crash of the code under test.
func crashClass(s string) *violation {
	i := strings.Index(s, "panic: ")
	kind := "crash"
	if j := strings.Index(s, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if j := strings.Index(s, "SIM-STEP-LIMIT"); j >= 0 {
		kind = "livelock"
		if i < 0 || j < i {
			i = j
		}
	}
	if j := strings.Index(s, "runtime: goroutine stack exceeds"); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return nil
	}
	s = s[i:]
	if strings.Contains(tail(s, 300), "all goroutines are asleep") {
		return nil
	}
	msg := strings.SplitN(s, "\n", 2)[0]
	g := s
	if j := strings.Index(s, "\ngoroutine "); j >= 0 {
		g = s[j:]
		if k := strings.Index(g[1:], "\n\n"); k >= 0 {
			g = g[:k+1]
		}
	}
	for _, m := range frameRe.FindAllStringSubmatch(g, -1) {
		fn, file := m[1], m[2]
		switch {
		case strings.HasPrefix(file, repoDir+"/") || strings.Contains(file, "/overlay/repo") || strings.HasPrefix(fn, "github.com/awcullen/opcua/"):
			if j := strings.LastIndex(fn, "("); j > 0 && !strings.HasSuffix(fn[:j], ".") {
				fn = fn[:j]
			}
			fn = strings.TrimPrefix(fn, "github.com/awcullen/opcua/")
			fn = strings.NewReplacer("(*", "", ")", "", "[...]", "").Replace(fn)
			if j := strings.Index(fn, ".func"); j > 0 {
				fn = fn[:j]
			}
			return &violation{Class: kind + ":" + fn, Msg: msg + "\n" + tail(g, 2500)}
		case strings.Contains(fn, "workerpool"):
			continue
		case strings.HasPrefix(fn, "opcuasim/") || strings.HasPrefix(fn, "main."):
			if kind == "livelock" {
				return nil
			}
			return nil
		}
	}
	return nil
}
