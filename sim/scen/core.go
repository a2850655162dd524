// Package scen holds the simulated worlds and the property scenarios.
package scen

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"opcuasim/simnet"
)

// Op is one planned operation or fault.
type Op struct {
	A int     `json:"a"`           // actor
	D int64   `json:"d"`           // microseconds to wait before it
	K string  `json:"k"`           // kind
	I []int64 `json:"i,omitempty"` // arguments
	S string  `json:"s,omitempty"`
}

// Sched is the schedule part of a plan.
type Sched struct {
	Seed     uint64 `json:"seed"`
	Mode     int    `json:"mode"`
	Gap      int64  `json:"gap"`
	Sticky   uint64 `json:"sticky"`
	Change   uint64 `json:"change"`
	Lo       uint64 `json:"lo"`
	Hi       uint64 `json:"hi"`
	TickNs   uint64 `json:"tick_ns"`
	StallPpm uint64 `json:"stall_ppm"`
	StallNs  uint64 `json:"stall_ns"`
	StallN   uint64 `json:"stall_n"`
}

// NetCfg is the network part of a plan.
type NetCfg struct {
	LatMinUs int64 `json:"lat_min_us"`
	LatMaxUs int64 `json:"lat_max_us"`
	Window   int   `json:"window"`
	Seg      int   `json:"seg"`
	Frag     int   `json:"frag"`
}

// Plan is everything a run depends on.
type Plan struct {
	Prop  string           `json:"prop"`
	Seed  uint64           `json:"seed"`
	Tier  string           `json:"tier"`
	Sched Sched            `json:"sched"`
	Net   NetCfg           `json:"net"`
	P     map[string]int64 `json:"params"`
	Ops   []Op             `json:"ops"`
}

// Violation of a property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Result of a run.
type Result struct {
	Prop      string              `json:"prop"`
	Seed      uint64              `json:"seed"`
	OK        bool                `json:"ok"`
	Viol      *Violation          `json:"violation,omitempty"`
	Counts    map[string]int      `json:"counts"` // what the workload did
	Faults    map[string]int      `json:"faults"`
	Sched     runtime.SimCounters `json:"sched"`
	SimNs     int64               `json:"sim_ns"`
	States    []uint64            `json:"states"`
	HistHash  uint64              `json:"hist_hash"`
	Hist      []string            `json:"hist,omitempty"`
	Ops       int                 `json:"ops"`
	NonTriv   bool                `json:"nontrivial"`
	Known     []string            `json:"known,omitempty"`
	NotesLast string              `json:"notes,omitempty"`
}

// Gen is the plan generator's randomness.
type Gen struct{ *simnet.Rand }

// Pick returns one of the values.
func (g Gen) Pick(v ...int64) int64 { return v[g.N(len(v))] }

// Range returns a value in [a,b].
func (g Gen) Range(a, b int64) int64 {
	if b <= a {
		return a
	}
	return a + int64(g.U64()%uint64(b-a+1))
}

// Scenario is the check of one property.
type Scenario struct {
	Prop string
	Gen  func(g Gen, p *Plan)
	Run  func(w *World)
}

// All scenarios by property.
var All = map[string]*Scenario{}

func register(s *Scenario) { All[s.Prop] = s }

// MakePlan generates the plan of a seed.
func MakePlan(prop, tier string, seed uint64) *Plan {
	s := All[prop]
	if s == nil {
		return nil
	}
	h := fnv.New64a()
	h.Write([]byte(prop))
	g := Gen{simnet.NewRand(seed*2654435761 ^ h.Sum64())}
	p := &Plan{Prop: prop, Seed: seed, Tier: tier, P: map[string]int64{}}
	p.Sched = Sched{
		Seed:   g.U64() >> 1,
		Mode:   int(g.Pick(0, 1, 1, 2, 2, 3, 3)),
		Gap:    g.Pick(0, 3, 10, 40, 40, 150, 600, 3000),
		Sticky: uint64(g.Pick(50, 80, 95)),
		Change: uint64(g.Pick(20, 100, 500, 3000)),
		Hi:     1 << 62,
		TickNs: uint64(g.Pick(0, 200, 2000, 20000)),
	}
	if g.P(30) {
		p.Sched.StallPpm = uint64(g.Pick(200, 2000, 20000))
		p.Sched.StallNs = uint64(g.Pick(200e3, 2e6, 20e6))
		p.Sched.StallN = uint64(g.Pick(3, 30))
	}
	lat := [][2]int64{{0, 0}, {10, 200}, {100, 3000}, {1000, 20000}, {0, 60000}}[g.N(5)]
	p.Net = NetCfg{LatMinUs: lat[0], LatMaxUs: lat[1],
		Window: int(g.Pick(65536, 65536, 262144, 16384)),
		Seg:    int(g.Pick(0, 0, 0, 1460, 300, 64)),
		Frag:   int(g.Pick(0, 0, 4096, 200, 30)),
	}
	s.Gen(g, p)
	return p
}

// World is one simulated execution.
type World struct {
	Plan   *Plan
	Net    *simnet.Net
	R      Gen // scenario-time randomness (deterministic order)
	mu     sync.Mutex
	res    *Result
	start  time.Time
	out    string
	hist   []string
	hh     uint64
	states map[uint64]bool
	ended  bool
	Trace  bool
	muted  bool
	finish []func()
}

// Execute runs a plan in this process and writes the result.
func Execute(p *Plan, out string, trace bool) {
	s := All[p.Prop]
	w := &World{Plan: p, out: out, states: map[uint64]bool{}, Trace: trace}
	w.R = Gen{simnet.NewRand(p.Seed ^ 0xabcdef)}
	w.res = &Result{Prop: p.Prop, Seed: p.Seed, Counts: map[string]int{}, Faults: map[string]int{}}
	w.Net = simnet.New(p.Seed^0x77, simnet.Config{
		LatencyMin: time.Duration(p.Net.LatMinUs) * time.Microsecond,
		LatencyMax: time.Duration(p.Net.LatMaxUs) * time.Microsecond,
		Window:     p.Net.Window, Seg: p.Net.Seg, Frag: p.Net.Frag})
	w.Net.Install()
	loadIdents()
	w.start = time.Now()
	w.hh = 14695981039346656037
	s.Run(w)
	w.End(nil)
}

// P returns a parameter.
func (w *World) P(k string) int64 { return w.Plan.P[k] }

// StartSched turns on the seeded scheduler.
func (w *World) StartSched() {
	c := w.Plan.Sched
	runtime.SimStart(runtime.SimConfig{Seed: c.Seed, Mode: c.Mode, MeanGap: c.Gap, StickyPct: c.Sticky, ChangeGap: c.Change, Lo: c.Lo, Hi: c.Hi,
		TickMaxNs: c.TickNs, StallPpm: c.StallPpm, StallMaxNs: c.StallNs, StallMax: c.StallN, StepLimit: 40_000_000})
}

// Now is the simulated time since the start.
func (w *World) Now() time.Duration { return time.Since(w.start) }

// Count counts workload events.
func (w *World) Count(k string) { w.CountN(k, 1) }

// CountN counts workload events.
func (w *World) CountN(k string, n int) {
	w.mu.Lock()
	w.res.Counts[k] += n
	w.mu.Unlock()
}

// Fault counts an injected fault.
func (w *World) Fault(k string) {
	w.mu.Lock()
	w.res.Faults[k]++
	w.mu.Unlock()
}

// Log adds to the history.
func (w *World) Log(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	w.mu.Lock()
	for i := 0; i < len(s); i++ {
		w.hh = (w.hh ^ uint64(s[i])) * 1099511628211
	}
	if len(w.hist) < 4000 {
		w.hist = append(w.hist, fmt.Sprintf("%12.6f %s", time.Since(w.start).Seconds(), s))
	}
	w.mu.Unlock()
	if w.Trace {
		fmt.Fprintf(os.Stderr, "%12.6f %s\n", time.Since(w.start).Seconds(), s)
	}
}

// State records an abstract state for coverage.
func (w *World) State(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	w.mu.Lock()
	if len(w.states) < 5000 {
		w.states[h.Sum64()] = true
	}
	w.mu.Unlock()
}

// Fail reports a violation and ends the run.
func (w *World) Fail(class, f string, a ...any) {
	w.End(&Violation{Class: class, Msg: fmt.Sprintf(f, a...)})
}

// NonTrivial marks that the run reached the interesting part.
func (w *World) NonTrivial() { w.mu.Lock(); w.res.NonTriv = true; w.mu.Unlock() }

// End finishes the run.
func (w *World) End(v *Violation) {
	w.mu.Lock()
	if w.ended {
		w.mu.Unlock()
		select {}
	}
	w.ended = true
	w.mu.Unlock()
	runtime.SimStop()
	w.mu.Lock()
	r := w.res
	r.OK = v == nil
	r.Viol = v
	r.Sched = runtime.SimGetCounters()
	r.SimNs = int64(time.Since(w.start))
	for k, n := range w.Net.Faults() {
		r.Faults[k] += n
	}
	if r.Sched.Stalls > 0 {
		r.Faults["goroutine_stall"] += int(r.Sched.Stalls)
	}
	for s := range w.states {
		r.States = append(r.States, s)
	}
	sort.Slice(r.States, func(i, j int) bool { return r.States[i] < r.States[j] })
	r.HistHash = w.hh
	r.Ops = len(w.Plan.Ops)
	if v != nil {
		h := w.hist
		if len(h) > 400 {
			h = append(append([]string{}, h[:100]...), h[len(h)-300:]...)
		}
		r.Hist = h
	}
	b, _ := json.Marshal(r)
	if w.out == "" || w.out == "-" {
		os.Stdout.Write(append(b, '\n'))
	} else {
		os.WriteFile(w.out, b, 0o644)
	}
	if v != nil {
		if w.Trace {
			fmt.Fprintln(os.Stderr, "VIOLATION", v.Class, v.Msg)
		}
		os.Exit(10)
	}
	os.Exit(0)
}

// OpsOf returns the operations of an actor.
func (w *World) OpsOf(a int) []Op {
	var l []Op
	for _, o := range w.Plan.Ops {
		if o.A == a {
			l = append(l, o)
		}
	}
	return l
}

// Actors runs f for every actor id present in the plan (0..n-1) concurrently
// and waits for all.
func (w *World) Actors(n int, f func(a int, ops []Op)) {
	var wg sync.WaitGroup
	for a := 0; a < n; a++ {
		ops := w.OpsOf(a)
		if len(ops) == 0 {
			continue
		}
		wg.Add(1)
		go func(a int) {
			defer wg.Done()
			f(a, ops)
		}(a)
	}
	wg.Wait()
}

// Sleep of an op.
func (o Op) Sleep() {
	if o.D > 0 {
		time.Sleep(time.Duration(o.D) * time.Microsecond)
	}
}

// Arg returns argument i or 0.
func (o Op) Arg(i int) int64 {
	if i < len(o.I) {
		return o.I[i]
	}
	return 0
}

// Within runs f and fails when it does not return in simulated time d.
func (w *World) Within(d time.Duration, class, what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		w.Fail(class, "%s did not finish within %v of simulated time\n%s", what, d, Stacks())
	}
}

// Stacks returns the stacks of goroutines that are inside the code under test.
func Stacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "/repo/") {
			lines := strings.Split(g, "\n")
			if len(lines) > 14 {
				lines = lines[:14]
			}
			out = append(out, strings.Join(lines, "\n"))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}
