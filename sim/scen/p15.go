package scen

import (
	"fmt"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
	"opcuasim/simnet"
)

// P15: connections that stall, say nothing or fail do not hold up the other clients.
func init() {
	register(&Scenario{Prop: "P15", Gen: genP15, Run: runP15})
}

const (
	p15Slack = 3 * time.Second
	p15Write = 13 * time.Second // how long a client that does not read may hold on to what it shares with others
	p15Open  = 23 * time.Second // how long a connection may stay without becoming a channel
)

var p15Modes = []string{"reads", "subs", "subs", "half", "silent", "hello", "trickle", "conns", "acceptfail", "openstall", "abandon", "move", "transfer"}

func genP15(g Gen, p *Plan) {
	nv := int(g.Range(1, 2))
	p.P["victims"] = int64(nv)
	for i := 0; i < nv; i++ {
		p.P[fmt.Sprintf("sec%d", i)] = g.Pick(0, int64(g.N(len(secs))))
	}
	p.P["diag"] = g.Pick(0, 0, 1)
	p.P["workers"] = g.Pick(1, 4)
	na := int(g.Range(1, 4))
	p.P["attackers"] = int64(na)
	n := int(g.Range(10, 40))
	if p.Tier == "thorough" {
		n = int(g.Range(20, 120))
	}
	for i := 0; i < n; i++ {
		k := []string{"read", "write", "call", "browse", "sub", "item", "fresh", "fresh", "diag", "mode"}[g.N(10)]
		p.Ops = append(p.Ops, Op{A: g.N(nv), K: k, D: g.Range(0, 2500000), I: []int64{g.Range(0, 100)}})
	}
	for i := 0; i < na; i++ {
		m := p15Modes[g.N(len(p15Modes))]
		p.Ops = append(p.Ops, Op{A: 10 + i, K: m, D: g.Range(0, 6000000), I: []int64{g.Pick(0, int64(g.N(len(secs)))), g.Pick(64, 2000, 16384), g.Range(1, 30), g.Pick(10000, 20000, 30000), g.Range(0, 60000)}})
	}
}

type p15 struct {
	w       *World
	s       *Srv
	stop    chan struct{}
	held    bool // someone looks at what the stalled clients hold
	mu      sync.Mutex
	expect  []p15Expect
	expires time.Time // when the attackers' sessions are gone
}

// p15Expect is a connection that has to be closed by the server.
type p15Expect struct {
	l    *simnet.Link
	by   time.Time
	what string
}

func (h *p15) closes(l *simnet.Link, d time.Duration, what string) {
	h.mu.Lock()
	h.expect = append(h.expect, p15Expect{l, time.Now().Add(d), what})
	h.mu.Unlock()
}

func runP15(w *World) {
	nv, na := int(w.P("victims")), int(w.P("attackers"))
	maxSess := nv + 2*na + 3
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers")), DiagOff: false, Extra: []server.Option{server.WithMaxSessionCount(uint32(maxSess))}})
	s.AddVar("V", int32(7), ua.DataTypeIDInt32, -1, VarOpts{})
	t := s.AddVar("T", int32(0), ua.DataTypeIDInt32, -1, VarOpts{})
	s.AddVar("B", ua.ByteString(make([]byte, 4000)), ua.DataTypeIDByteString, -1, VarOpts{})
	s.AddEcho()
	w.StartSched()
	s.Serve()
	h := &p15{w: w, s: s, stop: make(chan struct{}), held: w.P("diag") == 1}
	for _, o := range w.Plan.Ops {
		if o.K == "transfer" {
			h.held = true // it asks for the subscriptions of a stalled client
		}
	}
	var src sync.WaitGroup
	src.Add(1)
	go func() {
		defer src.Done()
		for i := int32(1); ; i++ {
			select {
			case <-h.stop:
				return
			case <-time.After(400 * time.Millisecond):
				t.SetValue(ua.NewDataValue(i, ua.Good, time.Now(), 0, time.Now(), 0))
			}
		}
	}()
	// everyone is connected before the trouble starts.
	vs := make([]*Subber, nv)
	for i := range vs {
		vs[i] = s.NewSubber(fmt.Sprintf("v%d", i), RawOpts{Sec: int(w.P(fmt.Sprintf("sec%d", i))), Timeout: 3600000})
	}
	var wg sync.WaitGroup
	for i := range vs {
		ops := w.OpsOf(i)
		wg.Add(1)
		go func() { defer wg.Done(); h.victim(i, vs[i], ops) }()
	}
	for i := 0; i < na; i++ {
		for _, o := range w.OpsOf(10 + i) {
			wg.Add(1)
			go func() { defer wg.Done(); h.attack(i, o) }()
		}
	}
	wg.Wait()
	for _, e := range h.expect {
		if d := time.Until(e.by); d > 0 {
			time.Sleep(d)
		}
		if !e.l.ServerClosed() {
			w.Fail("not-closed", "the server still keeps a connection that %s\n%s", e.what, Stacks())
		}
		w.Count("closed")
	}
	close(h.stop)
	src.Wait()
	// the places of the sessions are free again.
	if d := time.Until(h.expires); d > 0 {
		time.Sleep(d)
	}
	for _, v := range vs {
		v.C.Disconnect()
	}
	var cs []*raw.Client
	for i := 0; i < maxSess-nv; i++ {
		c, err := s.Connect(RawOpts{Timeout: 3600000})
		if err != nil {
			w.Fail("no-place", "the sessions of the stalled clients have ended, but session %d of %d is refused: %v", i+1, maxSess-nv, err)
		}
		cs = append(cs, c)
	}
	for _, c := range cs {
		c.Disconnect()
	}
	w.NonTrivial()
}

// bound is how long a request of a healthy client may take.
func (h *p15) bound() time.Duration {
	if h.held {
		// one stalled client after the other
		return time.Duration(h.w.P("attackers"))*p15Write + p15Slack
	}
	return p15Slack
}

func (h *p15) timed(who, what string, f func()) {
	done := make(chan struct{})
	t0 := h.w.Now()
	go func() { f(); close(done) }()
	t := time.NewTimer(h.bound())
	defer t.Stop()
	select {
	case <-done:
		h.w.Count("op")
	case <-t.C:
		h.w.Fail("held-up", "%s: %s is not done after %v (since %v) while other clients stall\n%s", who, what, h.bound(), t0, Stacks())
	}
}

func (h *p15) victim(i int, b *Subber, ops []Op) {
	w, s := h.w, h.s
	who := fmt.Sprintf("victim %d", i)
	var mu sync.Mutex
	last := time.Now()
	over := false
	b.OnNotif = func(n Notif) {
		mu.Lock()
		last = time.Now()
		mu.Unlock()
		w.Count("notification")
	}
	sub := b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 250, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 10, PublishingEnabled: true})
	b.CreateItems(sub.ID, ua.TimestampsToReturnBoth, monItem("T", 1, 100, 10, true, nil, ua.MonitoringModeReporting))
	b.SetTarget(3)
	var wd sync.WaitGroup
	wd.Add(1)
	stop := make(chan struct{})
	go func() {
		defer wd.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
			}
			mu.Lock()
			d := time.Since(last)
			x := over
			mu.Unlock()
			if lim := h.bound() + time.Second; d > lim && !x {
				w.Fail("held-up", "%s: no notification for %v of a value that changes every 400 ms\n%s", who, d, Stacks())
			}
		}
	}()
	do := func(what string, q ua.ServiceRequest) (r ua.ServiceResponse) {
		h.timed(who, what, func() {
			var err error
			r, err = b.C.Do(q, longWait)
			if err != nil || r.Header().ServiceResult != ua.Good {
				w.Fail("refused", "%s: %s fails while other clients stall: %s", who, what, sr(r, err))
			}
		})
		return
	}
	for j, o := range ops {
		o.Sleep()
		switch o.K {
		case "read":
			do("a read", readVal("V", "T"))
		case "write":
			do("a write", writeReq("V", int32(o.Arg(0)), ""))
		case "call":
			tag := fmt.Sprintf("%d.%d", i, j)
			r := do("a call", &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Echo", tag, uint32(o.Arg(0)))}}).(*ua.CallResponse)
			if len(r.Results) != 1 || r.Results[0].StatusCode != ua.Good {
				w.Fail("refused", "%s: a call returned %v", who, r.Results)
			}
		case "browse":
			do("a browse", &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder, BrowseDirection: ua.BrowseDirectionForward, ResultMask: 63}}})
		case "sub":
			r := do("CreateSubscription", &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 5000, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 12}).(*ua.CreateSubscriptionResponse)
			time.Sleep(time.Duration(o.Arg(0)) * time.Millisecond)
			do("DeleteSubscriptions", &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{r.SubscriptionID}})
		case "item":
			h.timed(who, "monitoring an item", func() {
				x := b.CreateItems(sub.ID, ua.TimestampsToReturnBoth, monItem("V", 2, 100, 5, true, nil, ua.MonitoringModeReporting))
				b.Must(&ua.DeleteMonitoredItemsRequest{SubscriptionID: sub.ID, MonitoredItemIDs: []uint32{x[0].MonitoredItemID}})
			})
		case "mode":
			do("ModifySubscription", &ua.ModifySubscriptionRequest{SubscriptionID: sub.ID, RequestedPublishingInterval: 250, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 10})
		case "diag":
			if w.P("diag") == 1 {
				do("reading the diagnostics", readReq(ua.ReadValueID{NodeID: ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, AttributeID: ua.AttributeIDValue},
					ua.ReadValueID{NodeID: ua.VariableIDServerServerDiagnosticsSessionsDiagnosticsSummarySessionDiagnosticsArray, AttributeID: ua.AttributeIDValue}))
			}
		case "fresh":
			h.timed(who, "a new connection", func() {
				c, err := s.Connect(RawOpts{Sec: int(o.Arg(0)) % len(secs), Timeout: 10000})
				if err != nil {
					w.Fail("refused", "%s: a new client is refused while others stall: %v", who, err)
				}
				if r, err := c.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}, longWait); !good(r, err) {
					w.Fail("refused", "%s: CloseSession: %s", who, sr(r, err))
				}
				c.Disconnect()
			})
		}
	}
	mu.Lock()
	over = true
	mu.Unlock()
	close(stop)
	wd.Wait()
	b.SetTarget(0)
}

func (h *p15) attack(i int, o Op) {
	w, s := h.w, h.s
	o.Sleep()
	sec, win, n, tmo := int(o.Arg(0)), int(o.Arg(1)), int(o.Arg(2)), float64(o.Arg(3))
	if o.K == "move" || o.K == "transfer" {
		tmo = 120000 // longer than it may take to continue
	}
	w.Fault("peer_" + o.K)
	note := func() {
		h.mu.Lock()
		if t := time.Now().Add(time.Duration(tmo)*time.Millisecond + p15Write + 10*time.Second + p15Slack); t.After(h.expires) {
			h.expires = t
		}
		h.mu.Unlock()
	}
	connect := func() *raw.Client {
		c, err := s.Connect(RawOpts{Sec: sec, Timeout: tmo, User: "root"})
		if err != nil {
			w.Fail("refused", "attacker %d cannot connect in the first place: %v", i, err)
		}
		note()
		return c
	}
	// fill sends requests whose answers do not fit the pipe.
	fill := func(c *raw.Client) {
		c.Link.SetWindow(simnet.S2C, win)
		c.Link.Stall(simnet.S2C)
		for k := 0; k < 12; k++ {
			q := readVal("B", "B", "B")
			done := make(chan struct{})
			go func() { c.Start(q); close(done) }()
			select {
			case <-done:
			case <-time.After(time.Second):
			}
		}
		note()
		if o.K == "move" { // reads that come after the move are refused, which fits the pipe
			return
		}
		h.closes(c.Link, time.Duration(w.P("attackers"))*p15Write+p15Slack, "has not taken what it was sent for a long time")
	}
	subscribe := func(c *raw.Client) uint32 {
		r, err := c.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 200, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 2, PublishingEnabled: true}, longWait)
		if !good(r, err) {
			w.Fail("refused", "attacker's CreateSubscription: %s", sr(r, err))
		}
		id := r.(*ua.CreateSubscriptionResponse).SubscriptionID
		q := &ua.CreateMonitoredItemsRequest{SubscriptionID: id, TimestampsToReturn: ua.TimestampsToReturnBoth}
		for k := 0; k < 10; k++ {
			q.ItemsToCreate = append(q.ItemsToCreate, monItem([]string{"T", "V", "B"}[k%3], uint32(k), 100, 20, true, nil, ua.MonitoringModeReporting))
		}
		if r, err := c.Do(q, longWait); !good(r, err) {
			w.Fail("refused", "attacker's CreateMonitoredItems: %s", sr(r, err))
		}
		return id
	}
	switch o.K {
	case "reads":
		fill(connect())
	case "subs", "abandon", "move", "transfer":
		c := connect()
		id := subscribe(c)
		for k := 0; k < n; k++ {
			c.Start(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 600000}})
		}
		time.Sleep(time.Duration(o.Arg(4)) * 10 * time.Microsecond)
		if o.K == "abandon" {
			c.Link.Partition()
			note()
			return
		}
		if o.K == "subs" {
			// only notifications fill the pipe.
			c.Link.SetWindow(simnet.S2C, 64)
			c.Link.Stall(simnet.S2C)
			note()
			return
		}
		fill(c)
		// the same user comes again.
		time.Sleep(time.Duration(o.Arg(4)) * 20 * time.Microsecond)
		h2 := *h
		h2.held = true
		h2.timed(fmt.Sprintf("attacker %d", i), "continuing on a new connection", func() {
			if o.K == "move" {
				d, err := s.Connect(RawOpts{Sec: sec, NoSess: true})
				if err != nil {
					w.Fail("refused", "the stalled client cannot open a new channel: %v", err)
				}
				d.Token, d.SessID, d.SNonce, d.SCert = c.Token, c.SessID, c.SNonce, c.SCert
				if err := d.Activate(s.UserOf(d, "root"), longWait); err != nil {
					w.Fail("refused", "the stalled client cannot continue its session: %v", err)
				}
				r, err := d.Do(readVal("V"), longWait)
				if !good(r, err) {
					w.Fail("refused", "the stalled client's read on the new channel: %s", sr(r, err))
				}
				for k := 0; k < n; k++ {
					d.Start(&ua.PublishRequest{})
				}
				if r, err := d.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{id}}, longWait); !good(r, err) {
					w.Fail("refused", "the stalled client's DeleteSubscriptions on the new channel: %s", sr(r, err))
				}
				d.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}, longWait)
				d.Disconnect()
				return
			}
			d, err := s.Connect(RawOpts{Sec: sec, User: "root", Timeout: tmo})
			if err != nil {
				w.Fail("refused", "the stalled client cannot connect again: %v", err)
			}
			r, err := d.Do(&ua.TransferSubscriptionsRequest{SubscriptionIDs: []uint32{id}, SendInitialValues: true}, longWait)
			if err != nil {
				w.Fail("refused", "TransferSubscriptions: %s", sr(r, err))
			}
			d.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}, longWait)
			d.Disconnect()
		})
		note()
	case "half":
		c := connect()
		body, _ := raw.Encode(c.EC, readVal("V"))
		q := c.BuildMSG("MSG", body, 4711, 8192)
		c.SendRaw(q[0][:8+int(o.Arg(4))%(len(q[0])-8)])
		note()
	case "silent":
		k, err := raw.Dial(w.Net, srvAddr, srvURL)
		if err != nil {
			w.Fail("refused", "cannot dial: %v", err)
		}
		b := raw.HelloBytes(raw.Limits{Recv: 65535, Send: 65535}, srvURL)
		k.SendRaw(b[:int(o.Arg(4))%len(b)])
		h.closes(k.Link, p15Open+p15Slack, "never said hello")
	case "hello":
		k, err := raw.Dial(w.Net, srvAddr, srvURL)
		if err != nil {
			w.Fail("refused", "cannot dial: %v", err)
		}
		if err := k.Hello(raw.Limits{Recv: 65535, Send: 65535}); err != nil {
			w.Fail("refused", "hello: %v", err)
		}
		h.closes(k.Link, p15Open+p15Slack, "never opened a channel")
	case "trickle":
		c := connect()
		subscribe(c)
		c.Link.SetWindow(simnet.S2C, win)
		for k := 0; k < n; k++ {
			c.Start(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 600000}})
		}
		for k := 0; k < 8; k++ {
			c.Link.Stall(simnet.S2C)
			time.Sleep(2 * time.Second)
			c.Link.Unstall(simnet.S2C)
			time.Sleep(time.Duration(o.Arg(4)) * time.Microsecond)
		}
		note()
		c.Disconnect()
	case "conns":
		for k := 0; k < 3*n; k++ {
			d, err := raw.Dial(w.Net, srvAddr, srvURL)
			if err != nil {
				w.Fail("refused", "cannot dial: %v", err)
			}
			h.closes(d.Link, p15Open+p15Slack, "never said hello")
		}
	case "acceptfail":
		for k := 0; k < 1+n%5; k++ {
			w.Net.InjectAcceptError("46010")
			time.Sleep(time.Duration(o.Arg(4)) * time.Microsecond)
		}
	case "openstall":
		k, err := raw.Dial(w.Net, srvAddr, srvURL)
		if err != nil {
			w.Fail("refused", "cannot dial: %v", err)
		}
		k.Link.SetWindow(simnet.S2C, 10)
		k.Link.Stall(simnet.S2C)
		k.SendRaw(raw.HelloBytes(raw.Limits{Recv: 65535, Send: 65535}, srvURL))
		h.closes(k.Link, p15Open+p15Slack, "never took the answer to its hello")
	}
}
