package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// tierCfg is the exploration budget.
type tierCfg struct {
	budget, hard time.Duration
	minRuns      int
	maxRuns      int
	twice        int // seeds run twice to show determinism
	minimise     time.Duration
}

var tiers = map[string]tierCfg{
	"quick":    {budget: 25 * time.Second, hard: 240 * time.Second, minRuns: 250, maxRuns: 3000, twice: 12, minimise: 25 * time.Second},
	"thorough": {budget: 600 * time.Second, hard: 820 * time.Second, minRuns: 2000, maxRuns: 200000, twice: 40, minimise: 90 * time.Second},
}

type agg struct {
	mu        sync.Mutex
	runs      int
	nontriv   int
	timeouts  int
	infra     []string
	counts    map[string]int
	faults    map[string]int
	hashes    map[uint64]struct{}
	states    map[uint64]struct{}
	hist      map[uint64]struct{}
	simNs     int64
	decisions uint64
	contended uint64
	preempts  uint64
	nonfifo   uint64
	maxReady  uint64
	samples   []any
	runsWith  map[string]int
}

func newAgg() *agg {
	return &agg{counts: map[string]int{}, faults: map[string]int{}, hashes: map[uint64]struct{}{}, states: map[uint64]struct{}{}, hist: map[uint64]struct{}{}, runsWith: map[string]int{}}
}

func (a *agg) add(seed uint64, r *result) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if r.timeout {
		a.timeouts++
		return
	}
	if r.infra != "" {
		a.infra = append(a.infra, fmt.Sprintf("seed %d: %s", seed, r.infra))
		return
	}
	a.runs++
	if r.NonTriv {
		a.nontriv++
	}
	for k, n := range r.Counts {
		a.counts[k] += n
	}
	for k, n := range r.Faults {
		a.faults[k] += n
		a.runsWith[k]++
	}
	if r.Sched.Hash != 0 {
		a.hashes[r.Sched.Hash] = struct{}{}
	}
	a.hist[r.HistHash] = struct{}{}
	for _, s := range r.States {
		a.states[s] = struct{}{}
	}
	a.simNs += r.SimNs
	a.decisions += r.Sched.Decisions
	a.contended += r.Sched.Contended
	a.preempts += r.Sched.Preempts
	a.nonfifo += r.Sched.NonFifo
	if r.Sched.MaxReady > a.maxReady {
		a.maxReady = r.Sched.MaxReady
	}
	if len(a.samples) < 6 {
		a.samples = append(a.samples, map[string]any{"seed": seed, "ops": r.Ops, "sim_s": float64(r.SimNs) / 1e9, "sched_decisions": r.Sched.Decisions,
			"preemptions": r.Sched.Preempts, "schedule_hash": fmt.Sprintf("%016x", r.Sched.Hash), "counts": r.Counts, "faults": r.Faults})
	}
}

type known struct{ prop, class, text string }

func readKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var l []known
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(ln, "known: "), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[0], "property=") && strings.HasPrefix(f[1], "class=") {
			l = append(l, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "class="), f[2]})
		}
	}
	return l
}

func seedBase() uint64 {
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return v
	}
	return 1
}

func lockBuild() func() {
	os.MkdirAll(buildDir(), 0o755)
	f, err := os.OpenFile(filepath.Join(buildDir(), "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return func() {}
	}
	syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
	return func() { f.Close() }
}

func prepare() (*runner, error) {
	un := lockBuild()
	defer un()
	bin, err := buildSim()
	if err != nil {
		return nil, err
	}
	r, err := newRunner(bin)
	if err != nil {
		return nil, err
	}
	// a private copy, so that a later rebuild does not change this run
	dst := filepath.Join(r.tmp, "simbin")
	if err := exec.Command("cp", bin, dst).Run(); err != nil {
		return nil, err
	}
	r.bin = dst
	return r, nil
}

func check(prop, tier string) int {
	tc, ok := tiers[tier]
	if !ok {
		usage()
	}
	if v, err := strconv.Atoi(os.Getenv("SIM_BUDGET_S")); err == nil {
		tc.budget = time.Duration(v) * time.Second
	}
	start := time.Now()
	rn, err := prepare()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer rn.close()
	buildS := time.Since(start).Seconds()
	kn := map[string]known{}
	var kl []string
	for _, k := range readKnown() {
		if k.prop == prop {
			kn[k.class] = k
			kl = append(kl, k.class)
		}
	}
	sort.Strings(kl)
	os.Setenv("SIM_KNOWN", strings.Join(kl, ","))
	base := seedBase() * 1000003
	a := newAgg()
	begin := time.Now()
	var mu sync.Mutex
	next := 0
	knownSeen := map[string]int{}
	unconf := []string{}
	var found *result
	var foundSeed uint64
	stop := false
	mism := 0
	twice := 0
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				el := time.Since(begin)
				if stop || next >= tc.maxRuns || el > tc.hard || (el > tc.budget && next >= tc.minRuns) {
					mu.Unlock()
					return
				}
				seed := base + uint64(next)
				dup := next < tc.twice
				next++
				mu.Unlock()
				args := []string{"-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed)}
				r := rn.run(args...)
				if dup && r.infra == "" && !r.timeout {
					r2 := rn.run(args...)
					mu.Lock()
					if !r2.timeout {
						twice++
						if r2.Sched.Hash != r.Sched.Hash || r2.HistHash != r.HistHash || r2.SimNs != r.SimNs || (r2.Viol == nil) != (r.Viol == nil) {
							mism++
						}
					}
					mu.Unlock()
				}
				a.add(seed, r)
				if r.Viol == nil {
					continue
				}
				if k, ok := kn[r.Viol.Class]; ok {
					mu.Lock()
					knownSeen[k.class]++
					mu.Unlock()
					continue
				}
				// confirm in a fresh process
				conf := false
				for i := 0; i < 3 && !conf; i++ {
					r2 := rn.run(args...)
					conf = r2.Viol != nil && r2.Viol.Class == r.Viol.Class
				}
				mu.Lock()
				if !conf {
					unconf = append(unconf, fmt.Sprintf("seed %d class %s", seed, r.Viol.Class))
				} else if found == nil {
					found, foundSeed, stop = r, seed, true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	explore := time.Since(begin)
	code := 0
	var viol []any
	if found != nil {
		path, info := minimise(rn, prop, tier, foundSeed, found, tc.minimise)
		viol = append(viol, info)
		fmt.Printf("property %s broken: %s\n%s\n", prop, found.Viol.Class, tail(found.Viol.Msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	if code == 0 {
		for _, k := range kl {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, kn[k].text, knownSeen[k])
		}
		if a.runs < tc.minRuns/5 || len(a.infra) > a.runs/10+2 {
			fmt.Fprintf(os.Stderr, "no verdict: %d runs completed, %d timeouts, %d harness errors\n", a.runs, a.timeouts, len(a.infra))
			for i, s := range a.infra {
				if i < 5 {
					fmt.Fprintln(os.Stderr, s)
				}
			}
			code = 3
		}
	}
	writeEvidence(prop, tier, a, start, explore, buildS, viol, knownSeen, unconf, twice, mism)
	fmt.Printf("%s %s: %d runs (%d nontrivial) in %.1fs, %.0f s simulated, %d distinct schedules, %d timeouts, %d harness errors, %d unconfirmed, determinism %d/%d\n",
		prop, tier, a.runs, a.nontriv, explore.Seconds(), float64(a.simNs)/1e9, len(a.hashes), a.timeouts, len(a.infra), len(unconf), twice-mism, twice)
	return code
}

func writeEvidence(prop, tier string, a *agg, start time.Time, explore time.Duration, buildS float64, viol []any, ks map[string]int, unconf []string, twice, mism int) {
	if viol == nil {
		viol = []any{}
	}
	hours := explore.Hours()
	if hours == 0 {
		hours = 1
	}
	samples := a.samples
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seedBase(), "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         a.runs,
			"distinct_nontrivial": distinctNontrivial(a),
			"rule":                "one evaluation is one simulated run of a generated plan (workload, faults, network and schedule) in its own process, checked to its end; it is non-trivial when the workload of the property was reached and its final checks ran, and distinct by the hash of all scheduling decisions it made",
			"samples":             samples,
			"runs_per_hour":       float64(a.runs) / hours,
			"seeds_per_hour":      float64(a.runs) / hours,
			"simulated_seconds":   float64(a.simNs) / 1e9,
			"faults_injected":     a.faults,
			"runs_with_fault":     a.runsWith,
			"workload":            a.counts,
			"schedule": map[string]any{"decisions": a.decisions, "contended_decisions": a.contended, "preemptions": a.preempts, "non_fifo_choices": a.nonfifo,
				"max_runnable": a.maxReady, "distinct_schedules": len(a.hashes), "measure": "FNV hash over every scheduling decision, preemption point and clock jump of a run"},
			"distinct_abstract_states": len(a.states),
			"distinct_histories":       len(a.hist),
			"determinism":              map[string]any{"seeds_run_twice": twice, "mismatches": mism},
			"watchdog_timeouts":        a.timeouts,
			"harness_errors":           len(a.infra),
			"unconfirmed":              unconf,
			"known_findings_seen":      ks,
			"components": map[string]any{
				"real": []string{"server package (all services, sessions, subscriptions, scheduler, address space)", "client package (where the scenario uses the library client)", "ua codec", "workerpool dependency", "Go runtime timers, channels, mutexes, crypto (seeded randomness)"},
				"stub": []string{"TCP (simulated byte streams with delay, fragmentation, backpressure, resets, stalls)", "clock (simulated)", "randomness source (seeded)", "application callbacks: authentication, method handlers, read handlers, historian", "raw wire client (independent secure-channel implementation)"},
			},
			"build_s": buildS,
		},
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": assumptions,
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

var assumptions = []string{
	"goroutines interleave at the preemption points the instrumentation adds (statement boundaries, blocking operations, increments, map writes) under sequentially consistent memory; weaker hardware memory orderings are not simulated",
	"the network is a reliable byte stream per connection, as TCP is; loss and reordering appear as delay, stalls and resets, and tampering is modelled by an attacker on the link",
	"seeded search: only the executions that were run are covered",
}

func distinctNontrivial(a *agg) int {
	n := len(a.hashes)
	if a.nontriv < n {
		n = a.nontriv
	}
	return n
}

// explore runs seeds and lists all violation classes (development aid).
func explore(prop string, secs int, base uint64) int {
	rn, err := prepare()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer rn.close()
	tier := "quick"
	if t := os.Getenv("VERIF_TIER"); t != "" {
		tier = t
	}
	type cls struct {
		n    int
		seed uint64
		msg  string
	}
	m := map[string]*cls{}
	var mu sync.Mutex
	a := newAgg()
	begin := time.Now()
	next := uint64(0)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ctx.Err() == nil {
				mu.Lock()
				seed := base*1000003 + next
				next++
				mu.Unlock()
				r := rn.run("-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed))
				a.add(seed, r)
				mu.Lock()
				k, msg := "", ""
				switch {
				case r.timeout:
					k, msg = "TIMEOUT", ""
				case r.infra != "":
					k, msg = "INFRA", r.infra
				case r.Viol != nil:
					k, msg = r.Viol.Class, r.Viol.Msg
				}
				if k != "" {
					if m[k] == nil {
						m[k] = &cls{seed: seed, msg: msg}
					}
					m[k].n++
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]].n > m[ks[j]].n })
	for _, k := range ks {
		fmt.Printf("=== %s  x%d  first seed %d\n%s\n", k, m[k].n, m[k].seed, tail(m[k].msg, 1800))
	}
	fmt.Printf("%s: %d runs (%d nontrivial) in %.1fs, %.0f s simulated, %d distinct schedules, %d timeouts, %d harness errors\ncounts %v\nfaults %v\nstates %d\n",
		prop, a.runs, a.nontriv, time.Since(begin).Seconds(), float64(a.simNs)/1e9, len(a.hashes), a.timeouts, len(a.infra), a.counts, a.faults, len(a.states))
	for _, k := range ks {
		fmt.Printf("  %6d %s (seed %d)\n", m[k].n, k, m[k].seed)
	}
	return 0
}
