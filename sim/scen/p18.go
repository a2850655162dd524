package scen

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
	"opcuasim/simnet"
)

// P18: Close stops the server, whatever is under way, and leaves nothing behind.
func init() {
	register(&Scenario{Prop: "P18", Gen: genP18, Run: runP18})
}

const p18Limit = 22 * time.Second // 3 s of grace, a method under way, a client that does not read, slack

func genP18(g Gen, p *Plan) {
	nc := int(g.Range(1, 4))
	p.P["clients"] = int64(nc)
	p.P["workers"] = g.Pick(1, 2, 4)
	p.P["diagoff"] = g.Pick(0, 1)
	p.P["closers"] = g.Pick(1, 1, 2, 3)
	p.P["early"] = g.Pick(0, 0, 0, 0, 0, 0, 0, 1, 2)
	p.P["at"] = g.Pick(0, 1000, g.Range(0, 200000), g.Range(0, 6000000)) // us after the start
	for i := 0; i < 3; i++ {
		p.P[fmt.Sprintf("gap%d", i)] = g.Pick(0, 0, 1000, 500000, 2999990, 3000000, 3000010, 5000000)
	}
	n := int(g.Range(5, 40))
	if p.Tier == "thorough" {
		n = int(g.Range(5, 120))
	}
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, int64(g.N(len(secs))))
		p.P[fmt.Sprintf("real%d", a)] = g.Pick(0, 0, 1)
	}
	for i := 0; i < n; i++ {
		k := []string{"read", "read", "call", "call", "sub", "sub", "item", "pub", "pub", "del", "browse"}[g.N(11)]
		p.Ops = append(p.Ops, Op{A: g.N(nc), K: k, D: g.Pick(0, 100, 5000, 100000, 600000), I: []int64{g.Pick(0, 0, 1000, 200000, 1500000), g.Pick(125, 250, 1000)}})
	}
	for i := 0; i < int(g.Range(0, 5)); i++ {
		k := []string{"silent", "half", "channel", "stalled", "fresh", "partial"}[g.N(6)]
		p.Ops = append(p.Ops, Op{A: 10 + i, K: k, D: g.Range(0, 7000000), I: []int64{g.Range(0, 60000), g.Pick(0, int64(g.N(len(secs))))}})
	}
}

type p18 struct {
	w      *World
	s      *Srv
	mu     sync.Mutex
	closed time.Time // when Close was called first
	over   chan struct{}
}

func (h *p18) graceOver() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return !h.closed.IsZero() && time.Since(h.closed) > 2990*time.Millisecond
}

func (h *p18) within(d time.Duration, class, what string, f func()) { h.w.Within(d, class, what, f) }

func runP18(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers")), DiagOff: w.P("diagoff") == 1})
	v := s.AddVar("V", int32(7), ua.DataTypeIDInt32, -1, VarOpts{})
	t := s.AddVar("T", int32(0), ua.DataTypeIDInt32, -1, VarOpts{})
	s.AddVar("B", ua.ByteString(make([]byte, 4000)), ua.DataTypeIDByteString, -1, VarOpts{})
	s.AddEcho()
	h := &p18{w: w, s: s, over: make(chan struct{})}
	w.StartSched()
	early := w.P("early")
	if early == 1 {
		// closed before it serves.
		h.close()
		var err error
		h.within(p18Limit, "serve-hangs", "ListenAndServe of a closed server", func() { err = s.ListenAndServe() })
		if err == nil {
			w.Fail("serve-result", "ListenAndServe of a closed server returns nil")
		}
		h.after(v.SetValue)
		return
	}
	if early == 2 {
		go func() { s.Done <- s.ListenAndServe() }()
	} else {
		s.Serve()
	}
	var wg, src sync.WaitGroup
	src.Add(1)
	go func() {
		defer src.Done()
		for i := int32(1); ; i++ {
			select {
			case <-h.over:
				return
			case <-time.After(150 * time.Millisecond):
				t.SetValue(ua.NewDataValue(i, ua.Good, time.Now(), 0, time.Now(), 0))
			}
		}
	}()
	if early == 0 {
		for a := 0; a < int(w.P("clients")); a++ {
			ops := w.OpsOf(a)
			wg.Add(1)
			go func() { defer wg.Done(); h.client(a, ops) }()
		}
		for a := 10; a < 15; a++ {
			for _, o := range w.OpsOf(a) {
				wg.Add(1)
				go func() { defer wg.Done(); h.peer(o) }()
			}
		}
	}
	time.Sleep(time.Duration(w.P("at")) * time.Microsecond)
	h.close()
	var err error
	h.within(p18Limit, "serve-hangs", "ListenAndServe after Close", func() { err = <-s.Done })
	if err == nil || early == 0 && err != ua.BadServerHalted {
		w.Fail("serve-result", "ListenAndServe returned %v after Close, not BadServerHalted", err)
	}
	close(h.over)
	src.Wait()
	for i, l := range w.Net.Links() {
		if l.Accepted() && !l.ServerClosed() {
			w.Fail("connection-left", "ListenAndServe has returned after Close, but connection %d is still open\n%s", i, Stacks())
		}
	}
	if w.Net.Listening("46010") {
		w.Fail("listener-left", "ListenAndServe has returned after Close, but the server still listens")
	}
	h.within(longWait, "client-hangs", "the clients of the closed server", wg.Wait)
	h.after(v.SetValue)
}

// close calls Close as often as planned and waits for it.
func (h *p18) close() {
	var wg sync.WaitGroup
	n := int(h.w.P("closers"))
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i > 0 {
				time.Sleep(time.Duration(h.w.P(fmt.Sprintf("gap%d", i-1))) * time.Microsecond)
			}
			h.mu.Lock()
			if h.closed.IsZero() {
				h.closed = time.Now()
			} else {
				h.closed = time.Now().Add(-time.Hour) // a second Close does not wait
			}
			h.mu.Unlock()
			h.w.Fault("close")
			h.within(6*time.Second, "close-hangs", "Close", func() { h.s.Close() })
		}()
	}
	wg.Wait()
}

// after checks that nothing of the server is left, and that another can take its place.
func (h *p18) after(set func(ua.DataValue)) {
	w := h.w
	h.within(5*time.Second, "value-hangs", "setting a value of a closed server", func() { set(ua.NewDataValue(int32(1), ua.Good, time.Now(), 0, time.Now(), 0)) })
	time.Sleep(130 * time.Second)
	if st := p18Left(); st != "" && w.P("early") == 0 {
		w.Fail("goroutine-left", "two minutes after the server was closed, there still runs:\n%s", st)
	}
	s := w.NewServer(SrvOpts{})
	s.Serve()
	s.Alive("restart")
	s.Close()
	h.within(p18Limit, "serve-hangs", "ListenAndServe after Close, of the second server", func() { <-s.Done })
	w.NonTrivial()
}

// p18Left returns the stacks of goroutines that run code of the server.
func p18Left() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "awcullen/opcua/server.") || strings.Contains(g, "gammazero/workerpool") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func (h *p18) client(a int, ops []Op) {
	w, s := h.w, h.s
	c, err := s.Open(w.P(fmt.Sprintf("real%d", a)) == 1, RawOpts{Sec: int(w.P(fmt.Sprintf("sec%d", a))), Timeout: 3600000})
	if err != nil {
		if !h.graceOver() {
			w.Fail("grace", "client %d is refused before the server ends: %v", a, err)
		}
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var subs []uint32
	for i, o := range ops {
		o.Sleep()
		var q ua.ServiceRequest
		tag := fmt.Sprintf("%d.%d", a, i)
		mu.Lock()
		last := uint32(0)
		if len(subs) > 0 {
			last = subs[len(subs)-1]
		}
		mu.Unlock()
		wait := longWait
		switch o.K {
		case "read":
			q = readVal("V", "T", "B")
		case "browse":
			q = &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}}
		case "call":
			q = &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Echo", tag, uint32(o.Arg(0)))}}
		case "sub":
			q = &ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(o.Arg(1)), RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 3, PublishingEnabled: true}
		case "item":
			q = &ua.CreateMonitoredItemsRequest{SubscriptionID: last, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem("T", 1, float64(o.Arg(1)), 10, true, nil, ua.MonitoringModeReporting)}}
		case "pub":
			q = &ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}}
			wait = 60 * time.Second
		case "del":
			q = &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{last}}
		}
		run := func() {
			r, err := c.Do(q, wait)
			if err != nil {
				if o.K != "pub" && last == 0 && (o.K == "item" || o.K == "del") {
					return
				}
				if _, ok := err.(ua.StatusCode); o.K != "pub" && !h.graceOver() && !(ok && (o.K == "item" || o.K == "del")) {
					w.Fail("grace", "client %d: %s fails before the server ends: %v", a, o.K, err)
				}
				w.Count("ended")
				return
			}
			w.Count("served")
			switch r := r.(type) {
			case *ua.CallResponse:
				if len(r.Results) != 1 || len(r.Results[0].OutputArguments) != 1 || r.Results[0].OutputArguments[0] != tag {
					w.Fail("wrong-response", "client %d: call %s returned %v", a, tag, r.Results)
				}
			case *ua.CreateSubscriptionResponse:
				mu.Lock()
				subs = append(subs, r.SubscriptionID)
				mu.Unlock()
			}
		}
		if o.K == "pub" || o.K == "call" {
			wg.Add(1)
			go func() { defer wg.Done(); run() }()
		} else {
			run()
		}
	}
	wg.Wait()
	<-h.over
	c.Disconnect()
}

func (h *p18) peer(o Op) {
	w, s := h.w, h.s
	o.Sleep()
	w.Fault("peer_" + o.K)
	switch o.K {
	case "silent", "half", "partial":
		k, err := raw.Dial(w.Net, srvAddr, srvURL)
		if err != nil {
			return
		}
		b := raw.HelloBytes(raw.Limits{Recv: 65535, Send: 65535}, srvURL)
		switch o.K {
		case "half":
			k.SendRaw(b[:int(o.Arg(0))%len(b)])
		case "partial":
			k.Hello(raw.Limits{Recv: 65535, Send: 65535})
		}
	case "channel":
		s.Connect(RawOpts{Sec: int(o.Arg(1)), NoSess: true})
	case "fresh":
		for i := 0; i < 20; i++ {
			c, err := s.Connect(RawOpts{Sec: int(o.Arg(1)), Timeout: 10000})
			if err != nil {
				if !h.graceOver() {
					w.Fail("grace", "a new client is refused before the server ends: %v", err)
				}
				return
			}
			c.Disconnect()
			time.Sleep(time.Duration(o.Arg(0)) * 10 * time.Microsecond)
		}
	case "stalled":
		c, err := s.Connect(RawOpts{Sec: int(o.Arg(1)), Timeout: 60000})
		if err != nil {
			return
		}
		c.Link.SetWindow(simnet.S2C, 100)
		c.Link.Stall(simnet.S2C)
		for k := 0; k < 12; k++ {
			go c.Start(readVal("B", "B", "B"))
		}
	}
}
