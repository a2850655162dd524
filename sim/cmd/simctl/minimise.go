package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sync"
	"time"
)

type op struct {
	A int     `json:"a"`
	D int64   `json:"d"`
	K string  `json:"k"`
	I []int64 `json:"i,omitempty"`
	S string  `json:"s,omitempty"`
}

type plan struct {
	Prop  string                 `json:"prop"`
	Seed  uint64                 `json:"seed"`
	Tier  string                 `json:"tier"`
	Sched map[string]json.Number `json:"sched"`
	Net   map[string]json.Number `json:"net"`
	P     map[string]int64       `json:"params"`
	Ops   []op                   `json:"ops"`
}

func (p *plan) clone() *plan {
	b, _ := json.Marshal(p)
	q := &plan{}
	json.Unmarshal(b, q)
	return q
}

type replayFile struct {
	Property  string     `json:"property"`
	Violation *violation `json:"violation"`
	Hash      string     `json:"schedule_hash"`
	HistHash  string     `json:"history_hash"`
	OpsBefore int        `json:"ops_before_minimising"`
	OpsAfter  int        `json:"ops_after_minimising"`
	Plan      *plan      `json:"plan"`
	History   []string   `json:"history"`
	HowTo     string     `json:"replay_with"`
}

type minimiser struct {
	rn    *runner
	class string
	until time.Time
}

func (m *minimiser) try(p *plan) (*result, bool) {
	f, err := os.CreateTemp(m.rn.tmp, "plan")
	if err != nil {
		return nil, false
	}
	b, _ := json.Marshal(p)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	r := m.rn.run("-plan", f.Name())
	return r, r.Viol != nil && r.Viol.Class == m.class
}

// firstOf tries candidates in parallel and returns the first (by order) that still fails.
func (m *minimiser) firstOf(c []*plan) (*plan, *result) {
	if time.Now().After(m.until) || len(c) == 0 {
		return nil, nil
	}
	ok := make([]*result, len(c))
	sem := make(chan struct{}, runtime.NumCPU())
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for i := range c {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if ctx.Err() != nil {
				return
			}
			if r, y := m.try(c[i]); y {
				ok[i] = r
			}
		}()
	}
	wg.Wait()
	for i := range c {
		if ok[i] != nil {
			return c[i], ok[i]
		}
	}
	return nil, nil
}

func minimise(rn *runner, prop, tier string, seed uint64, r *result, budget time.Duration) (string, any) {
	out, err := exec.Command(rn.bin, "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-dump").Output()
	p := &plan{}
	if err == nil {
		err = json.Unmarshal([]byte(unfake(out)), p)
	}
	m := &minimiser{rn: rn, class: r.Viol.Class, until: time.Now().Add(budget)}
	before := len(p.Ops)
	best := r
	if err == nil {
		// drop operations
		for n := 2; len(p.Ops) > 0 && time.Now().Before(m.until); {
			var c []*plan
			sz := (len(p.Ops) + n - 1) / n
			for i := 0; i < len(p.Ops); i += sz {
				q := p.clone()
				e := i + sz
				if e > len(q.Ops) {
					e = len(q.Ops)
				}
				q.Ops = append(append([]op{}, q.Ops[:i]...), q.Ops[e:]...)
				c = append(c, q)
			}
			if q, rr := m.firstOf(c); q != nil {
				p, best = q, rr
				if n > 2 {
					n--
				}
				continue
			}
			if sz == 1 {
				break
			}
			n *= 2
			if n > len(p.Ops) {
				n = len(p.Ops)
			}
		}
		// simplify network and schedule
		set := func(q *plan, net bool, kv ...string) *plan {
			q = q.clone()
			for i := 0; i < len(kv); i += 2 {
				if net {
					q.Net[kv[i]] = json.Number(kv[i+1])
				} else {
					q.Sched[kv[i]] = json.Number(kv[i+1])
				}
			}
			return q
		}
		for _, f := range []func(*plan) *plan{
			func(q *plan) *plan { return set(q, false, "mode", "0", "gap", "0", "tick_ns", "0", "stall_ppm", "0") },
			func(q *plan) *plan { return set(q, false, "stall_ppm", "0", "tick_ns", "0") },
			func(q *plan) *plan { return set(q, false, "stall_ppm", "0") },
			func(q *plan) *plan {
				return set(q, true, "lat_min_us", "0", "lat_max_us", "0", "seg", "0", "frag", "0")
			},
			func(q *plan) *plan { return set(q, true, "seg", "0", "frag", "0") },
		} {
			if q, rr := m.firstOf([]*plan{f(p)}); q != nil {
				p, best = q, rr
			}
		}
		// shrink the window of scheduler decisions that are not FIFO
		if p.Sched["mode"] != "0" {
			lo, hi := uint64(0), best.Sched.Decisions+1
			for step := 0; step < 24 && time.Now().Before(m.until); step++ {
				mid := lo + (hi-lo)/2
				q := set(p, false, "hi", fmt.Sprint(mid))
				if x, rr := m.firstOf([]*plan{q}); x != nil {
					p, best, hi = x, rr, mid
				} else {
					lo = mid + 1
				}
				if lo >= hi {
					break
				}
			}
			a, b := uint64(0), hi
			for step := 0; step < 24 && time.Now().Before(m.until) && a < b; step++ {
				mid := a + (b-a+1)/2
				q := set(p, false, "lo", fmt.Sprint(mid))
				if x, rr := m.firstOf([]*plan{q}); x != nil {
					p, best, a = x, rr, mid
				} else {
					b = mid - 1
				}
			}
		}
	}
	// the replay must reproduce
	final, ok := m.try(p)
	if ok {
		best = final
	}
	os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755)
	cl := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(r.Viol.Class, "_")
	path := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%s-%d.json", prop, cl, seed))
	rf := replayFile{Property: prop, Violation: best.Viol, Hash: fmt.Sprintf("%016x", best.Sched.Hash), HistHash: fmt.Sprintf("%016x", best.HistHash),
		OpsBefore: before, OpsAfter: len(p.Ops), Plan: p, History: best.Hist, HowTo: "bash /verif/check.sh replay " + path}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path, map[string]any{"class": r.Viol.Class, "message": tail(r.Viol.Msg, 2000), "seed": seed, "replay": path, "ops_before": before, "ops_after": len(p.Ops), "replay_reproduces": ok}
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil || rf.Plan == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		return 3
	}
	rn, err := prepare()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer rn.close()
	m := &minimiser{rn: rn, class: rf.Violation.Class}
	r, ok := m.try(rf.Plan)
	if r == nil {
		return 3
	}
	if ok {
		same := fmt.Sprintf("%016x", r.Sched.Hash) == rf.Hash && fmt.Sprintf("%016x", r.HistHash) == rf.HistHash
		fmt.Printf("reproduced %s (identical execution: %v)\n%s\n", r.Viol.Class, same, tail(r.Viol.Msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	if r.Viol != nil {
		fmt.Printf("a different violation appears: %s %s\n", r.Viol.Class, tail(r.Viol.Msg, 500))
		return 1
	}
	fmt.Println("not reproduced on this tree", r.infra)
	return 0
}
