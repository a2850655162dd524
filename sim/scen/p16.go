package scen

import (
	"context"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"

	"opcuasim/simnet"
)

// P16: every call of the library's client ends by its deadline, with a definite outcome.
func init() {
	register(&Scenario{Prop: "P16", Gen: genP16, Run: runP16})
}

const (
	p16Slack = 2500 * time.Millisecond
	p16NoDl  = 170 * time.Second // a Dial without a deadline: all its steps at their own limits
)

func genP16(g Gen, p *Plan) {
	p.P["sec"] = g.Pick(0, 0, int64(g.N(len(secs))))
	p.P["hint"] = g.Pick(0, 0, 2000, 5000, 30000)
	p.P["conn"] = g.Pick(0, 0, 1000, 8000)
	p.P["life"] = g.Pick(0, 0, 0, 300000)
	p.P["workers"] = g.Pick(1, 4, 8)
	n := int(g.Range(4, 16))
	if p.Tier == "thorough" {
		n = int(g.Range(6, 30))
	}
	dial := func(mode int64) Op {
		return Op{K: "dial", D: g.Range(0, 3e6), I: []int64{g.Pick(0, 300, 2000, 7000, 20000), mode, g.Range(0, 2), g.Range(0, 40000), g.Pick(500, 3000, 12000, 400000)}}
	}
	if g.P(30) {
		p.Ops = append(p.Ops, dial(g.Range(1, 7)))
	}
	p.Ops = append(p.Ops, dial(0))
	for i := 0; i < n; i++ {
		d := g.Pick(0, 0, 1000, 30000, 400000, 3000000)
		switch x := g.N(100); {
		case x < 45:
			k := 1
			if g.P(20) {
				k = int(g.Range(2, 60))
			}
			o := Op{K: "call", D: d, I: []int64{int64(k), g.Pick(0, 1, 1, 2, 3, 3), g.Pick(0, 0, 50, 300, 2000, 8000, 25000), g.Pick(0, 0, 0, 1000, 6000), g.Pick(0, 0, 0, 0, 100, 1500), g.Pick(0, 0, 2000, 300000, 5000000), int64(g.U64() % 1000000)}}
			if p.P["life"] != 0 && g.P(20) {
				o.D = g.Range(200e6, 290e6)
			}
			p.Ops = append(p.Ops, o)
		case x < 75:
			p.Ops = append(p.Ops, Op{K: "fault", D: d, I: []int64{g.Pick(0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5), g.Pick(20, 700, 5000, 20000, 90000), g.Range(0, 9000)}})
		case x < 85:
			p.Ops = append(p.Ops, Op{K: "wait", D: g.Range(0, 20e6)})
		case x < 92:
			p.Ops = append(p.Ops, Op{K: "close", D: d, I: []int64{g.Pick(0, 500, 4000)}})
			if g.P(80) {
				p.Ops = append(p.Ops, dial(g.Pick(0, 0, g.Range(1, 7))))
			}
		default:
			p.Ops = append(p.Ops, Op{K: "abort", D: d})
			if g.P(80) {
				p.Ops = append(p.Ops, dial(g.Pick(0, 0, g.Range(1, 7))))
			}
		}
	}
}

type p16 struct {
	w     *World
	s     *Srv
	c     *client.Client
	link  *simnet.Link
	hint  time.Duration
	wg    sync.WaitGroup
	hurt  bool          // the connection may be lost
	lost  chan struct{} // the connection is lost for certain
	dead  bool
	mu    sync.Mutex
	heals sync.WaitGroup
	stuck int          // stalls in force towards the server
	sent  int          // bytes sent since, roughly
	busy  atomic.Int64 // how long the server's method calls take, in us
	ends  int
}

func runP16(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers"))})
	s.AddVar("V", int32(7), ua.DataTypeIDInt32, -1, VarOpts{})
	s.AddVar("B", []byte{1}, ua.DataTypeIDByteString, -1, VarOpts{})
	s.AddEcho()
	w.StartSched()
	s.Serve()
	h := &p16{w: w, s: s, hint: 15 * time.Second}
	if v := w.P("hint"); v != 0 {
		h.hint = time.Duration(v) * time.Millisecond
	}
	for i, o := range w.Plan.Ops {
		o.Sleep()
		switch o.K {
		case "dial":
			h.dial(o)
		case "call":
			h.calls(i, o)
		case "fault":
			h.fault(o)
		case "close":
			h.close(time.Duration(o.Arg(0)) * time.Millisecond)
		case "abort":
			h.abort()
		}
	}
	h.finish()
	w.State(w.P("sec"), h.ends, len(w.Net.Links()))
	w.NonTrivial()
}

// finish lets the faults pass and checks that the client still works, if it can.
func (h *p16) finish() {
	h.waitCalls()
	h.heals.Wait()
	if h.c == nil || h.dead {
		return
	}
	if !h.hurt {
		// the server still works off what it was asked for.
		time.Sleep(time.Duration(h.busy.Load()) * time.Microsecond)
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		r, err := h.c.Read(ctx, readVal("V"))
		if err != nil || len(r.Results) != 1 || r.Results[0].Value != int32(7) {
			h.w.Fail("no-progress", "the connection was never lost, but when the network is well again a read fails: %v %v\n%s", r, err, Stacks())
		}
		h.w.Count("healed")
	}
	h.close(5 * time.Second)
}

func (h *p16) waitCalls() {
	done := make(chan struct{})
	go func() { h.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(longWait):
		h.w.Fail("call-hangs", "calls still outstanding after %v\n%s", longWait, Stacks())
	}
}

// bounded runs one call and fails when it ends late.
func (h *p16) bounded(what string, d time.Duration, f func()) {
	done := make(chan struct{})
	t0 := h.w.Now()
	go func() { f(); close(done) }()
	t := time.NewTimer(d + p16Slack)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		h.w.Fail("late", "%s has to end by %v but has not after %v (since %v)\n%s", what, d, d+p16Slack, t0, Stacks())
	}
}

func (h *p16) dial(o Op) {
	w := h.w
	if h.c != nil {
		h.abort()
	}
	h.heals.Wait()
	dl, mode, nth, delay, dur := time.Duration(o.Arg(0))*time.Millisecond, o.Arg(1), int(o.Arg(2)), o.Arg(3), time.Duration(o.Arg(4))*time.Millisecond
	before := len(w.Net.Links())
	t0 := time.Now()
	w.Net.OnDial(nil)
	w.Net.OnLink(nil)
	switch mode {
	case 1, 2:
		e := error(syscall.ECONNREFUSED)
		if mode == 2 {
			e = os.ErrDeadlineExceeded
		}
		n := 0
		w.Net.OnDial(func(string) error {
			n++
			if n > nth && time.Since(t0) < dur {
				w.Fault([]string{"", "dial_refused", "dial_timeout"}[mode])
				return e
			}
			return nil
		})
	case 3, 4, 5, 6, 7:
		n := 0
		w.Net.OnLink(func(l *simnet.Link) {
			n++
			if n != nth+1 {
				return
			}
			switch mode {
			case 3:
				w.Fault("silent_server")
				l.Stall(simnet.S2C)
			case 4:
				w.Fault("silent_server")
				l.Partition()
			case 5:
				w.Fault("cut_after")
				l.CutAfter(simnet.S2C, delay/8)
			case 6:
				w.Fault("silent_later")
				h.heals.Add(1)
				go func() { defer h.heals.Done(); time.Sleep(time.Duration(delay) * time.Microsecond); l.Partition() }()
			case 7:
				w.Fault("pipe_full")
				l.SetWindow(simnet.C2S, 16)
				l.Stall(simnet.C2S)
			}
			if mode != 5 && dur < 100*time.Second {
				h.heals.Add(1)
				go func() { defer h.heals.Done(); time.Sleep(dur); l.Heal() }()
			}
		})
	}
	opts := []client.Option{client.WithSessionTimeout(3600000)}
	if v := w.P("hint"); v != 0 {
		opts = append(opts, client.WithTimeoutHint(uint32(v)))
	}
	if v := w.P("life"); v != 0 {
		opts = append(opts, client.WithTokenLifetime(uint32(v)))
	}
	if v := w.P("conn"); v != 0 {
		opts = append(opts, client.WithConnectTimeout(v))
	}
	ctx, lim := context.Background(), p16NoDl
	if dl > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, dl)
		defer cancel()
		lim = min(lim, dl)
	}
	var c *client.Client
	var err error
	h.bounded(fmt.Sprintf("Dial (deadline %v, fault %d)", dl, mode), lim, func() { c, err = h.s.DialReal(ctx, int(w.P("sec")), "", opts...) })
	w.Net.OnDial(nil)
	w.Net.OnLink(nil)
	links := w.Net.Links()[before:]
	if err != nil {
		if mode == 0 && dl == 0 {
			w.Fail("dial-failed", "Dial fails without a fault: %v", err)
		}
		w.Count("dial_failed")
	} else {
		w.Count("dialled")
		h.link = links[len(links)-1]
		links = links[:len(links)-1]
	}
	// what is not in use is closed.
	for i, l := range links {
		for j := 0; !l.ClientClosed(); j++ {
			if j == 25 {
				w.Fail("connection-left", "Dial returned (%v) but its connection %d is still open", err, i+1)
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	h.c, h.dead, h.sent = c, err != nil, 0
	if err != nil {
		h.c = nil
	}
	h.hurt = mode != 0 || w.P("life") != 0
	h.lost = make(chan struct{})
}

func (h *p16) lose() {
	h.hurt = true
	select {
	case <-h.lost:
	default:
		close(h.lost)
	}
}

func (h *p16) fault(o Op) {
	if h.c == nil || h.dead {
		return
	}
	w, l, dur := h.w, h.link, time.Duration(o.Arg(1))*time.Millisecond
	heal := func() {
		h.mu.Lock()
		if h.stuck == 0 {
			h.sent = 0
		}
		h.stuck++
		h.mu.Unlock()
		h.heals.Add(1)
		go func() {
			defer h.heals.Done()
			time.Sleep(dur)
			l.Heal()
			h.mu.Lock()
			h.stuck--
			h.mu.Unlock()
		}()
	}
	switch o.Arg(0) {
	case 0:
		w.Fault("partition")
		l.Partition()
		heal()
	case 1:
		w.Fault("stall_to_client")
		l.Stall(simnet.S2C)
		heal()
	case 2:
		w.Fault("stall_to_server")
		l.Stall(simnet.C2S)
		heal()
	case 3:
		w.Fault("pipe_full")
		h.hurt = true
		l.SetWindow(simnet.C2S, int(o.Arg(2)))
		l.Stall(simnet.C2S)
		heal()
	case 4:
		w.Fault("cut")
		l.Cut()
		h.lose()
	case 5:
		w.Fault("cut_after")
		h.hurt = true
		l.CutAfter(int(o.Arg(2))&1, o.Arg(2))
	}
}

func (h *p16) calls(i int, o Op) {
	if h.c == nil || h.dead {
		return
	}
	n, kind := int(o.Arg(0)), o.Arg(1)
	size := 0
	if kind == 2 {
		size = 4000
		if o.Arg(6)%3 == 0 {
			size = 20000
		}
	}
	h.mu.Lock()
	h.sent += (size + 400) * n
	if h.stuck > 0 && h.sent > 10000 || size*n > 10000 {
		h.hurt = true // a write may have to wait
	}
	h.mu.Unlock()
	for j := 0; j < n; j++ {
		h.call(fmt.Sprintf("%d.%d.%d", i, j, o.Arg(6)), kind, size, o)
	}
}

func (h *p16) call(tag string, kind int64, size int, o Op) {
	w, c, lost := h.w, h.c, h.lost
	lim := h.hint
	ctx, cancel := context.WithCancel(context.Background())
	if v := o.Arg(2); v != 0 {
		d := time.Duration(v) * time.Millisecond
		ctx, cancel = context.WithTimeout(ctx, d)
		lim = min(lim, d)
	}
	hdr := ua.RequestHeader{TimeoutHint: uint32(o.Arg(3))}
	if v := o.Arg(3); v != 0 {
		own := time.Duration(v) * time.Millisecond
		lim = own
		if d := time.Duration(o.Arg(2)) * time.Millisecond; d != 0 {
			lim = min(lim, d)
		}
	}
	if v := o.Arg(4); v != 0 {
		d := time.Duration(v) * time.Millisecond
		time.AfterFunc(d, cancel)
		lim = min(lim, d)
	}
	h.wg.Add(1)
	if kind == 1 || kind == 3 {
		h.busy.Add(o.Arg(5))
	}
	w.Count("calls")
	go func() {
		defer h.wg.Done()
		defer cancel()
		t0 := w.Now()
		end := make(chan string, 1)
		var err error
		go func() {
			var m string
			m, err = h.one(ctx, c, hdr, tag, kind, size, o)
			end <- m
		}()
		t := time.NewTimer(lim + p16Slack)
		defer t.Stop()
		m, late := "", false
		select {
		case m = <-end:
		case <-t.C:
			late = true
		case <-lost:
			// a lost connection ends the calls that wait on it.
			x := time.NewTimer(p16Slack)
			defer x.Stop()
			select {
			case m = <-end:
			case <-t.C:
				late = true
			case <-x.C:
				w.Fail("lost-hangs", "call %s (kind %d) still waits %v after its connection was lost\n%s", tag, kind, p16Slack, Stacks())
			}
		}
		if late {
			w.Fail("late", "call %s (kind %d) has to end by %v but has not after %v (since %v)\n%s", tag, kind, lim, lim+p16Slack, t0, Stacks())
		}
		if m != "" {
			w.Fail("outcome", "call %s (kind %d): %s", tag, kind, m)
		}
		if err != nil {
			w.Count("call_error")
		} else {
			w.Count("call_ok")
		}
		h.mu.Lock()
		h.ends = h.ends*3%1000003 + int(w.Now().Seconds())
		h.mu.Unlock()
	}()
}

// one makes the call and says what is wrong with its outcome.
func (h *p16) one(ctx context.Context, c *client.Client, hdr ua.RequestHeader, tag string, kind int64, size int, o Op) (string, error) {
	switch kind {
	case 0:
		q := readVal("V")
		q.RequestHeader = hdr
		r, err := c.Read(ctx, q)
		if err == nil && (len(r.Results) != 1 || r.Results[0].Value != int32(7)) {
			return fmt.Sprintf("read returned %v", r.Results), nil
		}
		return "", err
	case 2:
		q := writeReq("B", ua.ByteString(make([]byte, size)), "")
		q.RequestHeader = hdr
		r, err := c.Write(ctx, q)
		if err == nil && (len(r.Results) != 1 || r.Results[0] != ua.Good && r.Results[0] != ua.BadOutOfRange) {
			return fmt.Sprintf("write returned %v", r.Results), nil
		}
		return "", err
	default:
		q := &ua.CallRequest{RequestHeader: hdr, MethodsToCall: []ua.CallMethodRequest{callReq("Echo", tag, uint32(o.Arg(5)))}}
		r, err := c.Call(ctx, q)
		n := h.s.Calls(tag)
		if n > 1 {
			return fmt.Sprintf("the method ran %d times", n), err
		}
		if err == nil {
			if len(r.Results) != 1 || r.Results[0].StatusCode != ua.Good || len(r.Results[0].OutputArguments) != 1 || r.Results[0].OutputArguments[0] != tag {
				return fmt.Sprintf("the method returned %v", r.Results), nil
			}
			if n != 1 {
				return "answered, but the method never ran", nil
			}
		}
		return "", err
	}
}

func (h *p16) close(dl time.Duration) {
	if h.c == nil || h.dead {
		return
	}
	// two requests: close the session, close the channel.
	ctx, lim := context.Background(), 2*h.hint
	if dl > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, dl)
		defer cancel()
		lim = min(lim, dl)
	}
	var err error
	h.bounded("Close", lim, func() { err = h.c.Close(ctx) })
	h.w.Count("close")
	if err != nil {
		h.abort()
		return
	}
	h.gone("Close")
}

func (h *p16) abort() {
	if h.c == nil || h.dead {
		return
	}
	h.bounded("Abort", 0, func() { h.c.Abort(context.Background()) })
	h.w.Count("abort")
	h.gone("Abort")
}

// gone checks that the connection is closed and lets no call hang.
func (h *p16) gone(what string) {
	h.dead = true
	for j := 0; !h.link.ClientClosed(); j++ {
		if j == 25 {
			h.w.Fail("connection-left", "%s returned but the connection is still open", what)
		}
		time.Sleep(100 * time.Millisecond)
	}
	h.lose()
	h.waitCalls()
}
