package scen

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
	"opcuasim/simnet"
)

// P04: security tokens are renewed without anybody noticing, and lapse when they are not.
func init() { register(&Scenario{Prop: "P04", Gen: genP04, Run: runP04}) }

func genP04(g Gen, p *Plan) {
	nc := int(g.Range(1, 2))
	p.P["clients"] = int64(nc)
	if g.Pick(0, 0, 1) == 1 {
		// instant delivery: what happens at one moment happens in any order
		p.Net.LatMinUs, p.Net.LatMaxUs, p.Net.Seg, p.Net.Frag = 0, 0, 0, 0
	}
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("real%d", a)] = g.Pick(0, 1)
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, g.Range(1, int64(len(secs)-1)), g.Range(1, int64(len(secs)-1)), g.Range(1, int64(len(secs)-1)))
		p.P[fmt.Sprintf("workers%d", a)] = g.Range(1, 5)
		p.P[fmt.Sprintf("sub%d", a)] = g.Pick(0, 1, 1)
		p.P[fmt.Sprintf("life%d", a)] = g.Pick(1, 300000, 300000, 400000)
		p.P[fmt.Sprintf("pub%d", a)] = g.Pick(125, 250, 500)
		p.P[fmt.Sprintf("lapse%d", a)] = g.Pick(0, 0, 1)
		n := int(g.Range(2, 5))
		if p.Tier == "thorough" {
			n = int(g.Range(3, 7))
		}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{A: a, K: "round", I: []int64{g.Pick(0, 0, 5, 2000), int64(g.U64() % 1000000), g.Range(1, 6), g.Pick(0, 0, 1, 2, 3)*8 + g.Pick(0, 2, 2, 4, 7), g.Pick(0, 300, 2000, 20000), g.Pick(0, 1)}})
		}
	}
	genWall(g, p, 400000000)
}

type p04 struct {
	dial sync.Mutex
	w    *World
	s    *Srv
	mu   sync.Mutex
	n    map[string]int
	id   int
}

func (x *p04) tag(a int) string {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.id++
	return fmt.Sprintf("c%d.%d", a, x.id)
}

func (x *p04) ran(t string) int { x.mu.Lock(); defer x.mu.Unlock(); return x.n[t] }

func runP04(w *World) {
	nc := int(w.P("clients"))
	s := w.NewServer(SrvOpts{})
	x := &p04{w: w, s: s, n: map[string]int{}}
	s.AddMethod("Note", "Root", nil, func(_ *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		x.mu.Lock()
		x.n[fmt.Sprint(r.InputArguments[0])]++
		x.mu.Unlock()
		return ua.CallMethodResult{OutputArguments: r.InputArguments}
	})
	s.AddEcho()
	vars := make([]*server.VariableNode, nc)
	for a := range vars {
		vars[a] = s.AddVar(fmt.Sprintf("V%d", a), int64(0), ua.DataTypeIDInt64, -1, VarOpts{})
	}
	s.Serve()
	w.StartSched()
	w.WallJumps()
	var wg sync.WaitGroup
	for a := 0; a < nc; a++ {
		wg.Add(1)
		go func(a int) {
			defer wg.Done()
			x.client(a, vars[a])
		}(a)
	}
	wg.Wait()
	s.Alive("not-alive")
}

func (x *p04) client(a int, v *server.VariableNode) {
	w, s := x.w, x.s
	ops := w.OpsOf(a)
	sec := int(w.P(fmt.Sprintf("sec%d", a)))
	life := uint32(w.P(fmt.Sprintf("life%d", a)))
	eff := time.Duration(life) * time.Millisecond // what the server makes of it
	if eff < 300*time.Second {
		eff = 300 * time.Second
	}
	if eff > time.Hour {
		eff = time.Hour
	}
	var c Caller
	var rc *raw.Client
	var real bool
	opened := time.Now()
	x.dial.Lock()
	if real = w.P(fmt.Sprintf("real%d", a)) == 1; real {
		k, err := s.DialReal(context.Background(), sec, "", client.WithTimeoutHint(60000), client.WithTokenLifetime(life), client.WithSessionTimeout(3600000))
		if err != nil {
			w.Fail("connect-refused", "legal client (%s mode %d) could not connect: %v\n%s", secs[sec].Policy, secs[sec].Mode, err, Stacks())
		}
		c = Real{k}
	} else {
		rc = s.MustConnect(RawOpts{Sec: sec, Lifetime: life, Timeout: 3600000})
		c = rc
		if got := time.Duration(rc.Lifetime) * time.Millisecond; got != eff {
			eff = got
			if eff < time.Minute || eff > 10*time.Hour {
				w.Fail("lifetime", "token lifetime revised to %v", eff)
			}
		}
	}
	ls := w.Net.Links()
	link := ls[len(ls)-1]
	x.dial.Unlock()
	name := fmt.Sprintf("client %d (library=%v, %s mode %d)", a, real, secs[sec].Policy, secs[sec].Mode)
	call := func(what string) {
		t := x.tag(a)
		r, err := c.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Note", t)}}, 55*time.Second)
		if !good(r, err) {
			w.Fail("request-failed", "%s: a call %s failed: %s; %v after connecting\n%s", name, what, sr(r, err), time.Since(opened), Stacks())
		}
		q := r.(*ua.CallResponse)
		if len(q.Results) != 1 || len(q.Results[0].OutputArguments) != 1 || q.Results[0].OutputArguments[0] != t {
			w.Fail("wrong-answer", "%s: call %s answered %v", name, t, q.Results)
		}
		if n := x.ran(t); n != 1 {
			w.Fail("repeated", "%s: call %s ran %d times", name, t, n)
		}
		w.Count("calls")
	}
	// a subscription whose notifications meet the renewals
	stop := make(chan struct{})
	var sw sync.WaitGroup
	var got, set int64
	var tick time.Time // arrival of the last notification
	put := func() {
		x.mu.Lock()
		set++
		n := set
		x.mu.Unlock()
		v.SetValue(ua.NewDataValue(n, 0, time.Now(), 0, time.Now(), 0))
	}
	if w.P(fmt.Sprintf("sub%d", a)) == 1 {
		r, err := c.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(w.P(fmt.Sprintf("pub%d", a))), RequestedMaxKeepAliveCount: 10, RequestedLifetimeCount: 1000, PublishingEnabled: true}, 55*time.Second)
		if !good(r, err) {
			w.Fail("request-failed", "%s: CreateSubscription: %s", name, sr(r, err))
		}
		sub := r.(*ua.CreateSubscriptionResponse).SubscriptionID
		r, err = c.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem(fmt.Sprintf("V%d", a), 1, 0, 100, true, nil, ua.MonitoringModeReporting)}}, 55*time.Second)
		if !good(r, err) || r.(*ua.CreateMonitoredItemsResponse).Results[0].StatusCode != ua.Good {
			w.Fail("request-failed", "%s: CreateMonitoredItems: %s", name, sr(r, err))
		}
		sw.Add(1)
		go func() {
			defer sw.Done()
			var acks []ua.SubscriptionAcknowledgement
			var last uint32
			for {
				select {
				case <-stop:
					return
				default:
				}
				r, err := c.Do(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}, SubscriptionAcknowledgements: acks}, 70*time.Second)
				select {
				case <-stop:
					return
				default:
				}
				if !good(r, err) {
					w.Fail("publish-failed", "%s: a Publish failed: %s; %v after connecting\n%s", name, sr(r, err), time.Since(opened), Stacks())
				}
				x.mu.Lock()
				tick = time.Now()
				x.mu.Unlock()
				w.Log("c%d publish response", a)
				q := r.(*ua.PublishResponse)
				acks = nil
				if len(q.NotificationMessage.NotificationData) > 0 {
					if q.NotificationMessage.SequenceNumber != last+1 {
						w.Fail("notification-lost", "%s: notification %d follows %d", name, q.NotificationMessage.SequenceNumber, last)
					}
					last++
					acks = []ua.SubscriptionAcknowledgement{{SubscriptionID: sub, SequenceNumber: last}}
					for _, d := range q.NotificationMessage.NotificationData {
						if d, ok := d.(ua.DataChangeNotification); ok {
							for _, i := range d.MonitoredItems {
								if n, ok := i.Value.Value.(int64); ok {
									x.mu.Lock()
									got = n
									x.mu.Unlock()
								}
							}
						}
					}
					w.Count("notifications")
				}
			}
		}()
	}
	nw := int(w.P(fmt.Sprintf("workers%d", a)))
	renewed := time.Now() // the token is not younger
	for i, op := range ops {
		// just after three quarters of the lifetime, when a client renews
		at := eff*3/4 + time.Duration(op.I[0])*time.Millisecond + time.Millisecond
		if rest := time.Until(renewed.Add(at)); rest > 0 {
			time.Sleep(rest)
		}
		if time.Since(renewed) > eff-5*time.Second {
			panic("plan outlasts the token")
		}
		if real && i == len(ops)-1 && op.Arg(5) == 1 {
			// the answer to the first attempt comes too late for the request that made it
			link.Stall(simnet.S2C)
			c.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Echo", "late", uint32(0))}}, 3*time.Second)
			time.Sleep(2 * time.Second)
			link.Unstall(simnet.S2C)
			w.Fault("renewal_late")
			time.Sleep(62 * time.Second)
		}
		var rw sync.WaitGroup
		for k := 0; k < nw; k++ {
			rw.Add(1)
			go func(k int) {
				defer rw.Done()
				h := uint64(op.I[1])*31 + uint64(k)*7919 + 1
				for j := 0; j < int(op.I[2]); j++ {
					h = h*6364136223846793005 + 1442695040888963407
					if op.I[4] > 0 {
						time.Sleep(time.Duration(int64(h>>33)%op.I[4]) * time.Microsecond)
					}
					call(fmt.Sprintf("in round %d", i))
				}
			}(k)
		}
		rw.Add(1)
		go func() {
			defer rw.Done()
			for j := 0; j < 4; j++ {
				put()
				time.Sleep(time.Duration(op.I[1]%7) * 100 * time.Microsecond)
			}
		}()
		if rc != nil {
			iv := time.Duration(w.P(fmt.Sprintf("pub%d", a))) * time.Millisecond
			x.renew(rc, int(op.I[3]), life, name, call, func() {
				// meet the next publishing moment
				x.mu.Lock()
				t := tick
				x.mu.Unlock()
				if w.P(fmt.Sprintf("sub%d", a)) == 0 || t.IsZero() {
					return
				}
				at := t.Add((time.Since(t)/iv + 1) * iv)
				put()
				time.Sleep(time.Until(at) - time.Duration(op.I[1]%40)*time.Microsecond)
				w.Log("c%d meets publishing", a)
			})
		}
		rw.Wait()
		renewed = time.Now()
		w.Count("rounds")
		w.NonTrivial()
	}
	time.Sleep(3 * time.Second)
	call("after the last renewal")
	if real {
		time.Sleep(30 * time.Second)
		call("30 s after the last renewal")
	}
	if w.P(fmt.Sprintf("sub%d", a)) == 1 {
		time.Sleep(3 * time.Second)
		x.mu.Lock()
		g, n := got, set
		x.mu.Unlock()
		if g != n {
			w.Fail("notification-lost", "%s: the last value %d was never reported, %d was", name, n, g)
		}
	}
	close(stop)
	if rc != nil {
		if an := rc.Anomalies(); len(an) > 0 {
			w.Fail("anomaly", "%s: %v", name, an)
		}
		if w.P(fmt.Sprintf("lapse%d", a)) == 1 {
			// nobody renews: the channel serves until the token lapses and not for long after
			time.Sleep(time.Until(renewed.Add(eff - 10*time.Second)))
			call("10 s before the token lapses")
			time.Sleep(time.Until(time.Now().Add(eff/4 + 20*time.Second)))
			t := x.tag(a)
			r, err := c.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Note", t)}}, 55*time.Second)
			if good(r, err) || x.ran(t) > 0 {
				w.Fail("lapsed-served", "%s: a request secured with a token that lapsed more than a quarter of its lifetime ago was served", name)
			}
			w.Count("lapsed")
		}
	}
	c.Disconnect()
	sw.Wait()
	w.State(a, real, len(ops))
}

// renew in one of the ways a client may.
func (x *p04) renew(rc *raw.Client, how int, life uint32, name string, call func(string), meet func()) {
	w := x.w
	ren := func() *ua.OpenSecureChannelResponse {
		rc.Chan.Lock()
		req := rc.OpenRequest(true, life, 0)
		rc.Chan.Unlock()
		r, err := rc.Do(req, 55*time.Second)
		if !good(r, err) {
			w.Fail("renew-failed", "%s: renewal failed: %s\n%s", name, sr(r, err), Stacks())
		}
		o, ok := r.(*ua.OpenSecureChannelResponse)
		if !ok {
			w.Fail("renew-failed", "%s: renewal answered with %T", name, r)
		}
		if o.SecurityToken.ChannelID != rc.ChannelID || o.SecurityToken.TokenID == rc.TokenID {
			w.Fail("renew-failed", "%s: renewal of token %d of channel %d gave token %d of channel %d", name, rc.TokenID, rc.ChannelID, o.SecurityToken.TokenID, o.SecurityToken.ChannelID)
		}
		return o
	}
	// requests on their way with the old token while the new one is taken into use
	install := func(o *ua.OpenSecureChannelResponse) {
		var ps []*raw.Pending
		for i := 0; i < how%8; i++ {
			ps = append(ps, rc.Start(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Echo", fmt.Sprint(i), uint32(0))}}))
		}
		if how%8 > 1 {
			meet()
		}
		rc.InstallRenewed(o)
		ps = append(ps, rc.Start(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Echo", "new", uint32(0))}}))
		for i, p := range ps {
			if r, err := p.Wait(55 * time.Second); !good(r, err) {
				w.Fail("request-failed", "%s: request %d of %d sent while the token changed failed: %s\n%s", name, i+1, len(ps), sr(r, err), Stacks())
			}
		}
	}
	switch how / 8 {
	case 1: // the old token is used for a while
		o := ren()
		for i := 0; i < 3; i++ {
			call("secured with the old token after a renewal")
		}
		install(o)
	case 2: // renewed again before the first renewal is used
		ren()
		call("between two renewals")
		install(ren())
	case 3: // two renewals in use one after the other at once
		install(ren())
		call("after the first of two renewals")
		install(ren())
	default:
		install(ren())
	}
	call("secured with the new token")
	if rc.LastRecvToken != rc.TokenID {
		w.Fail("old-token", "%s: the response to a request secured with token %d is secured with token %d", name, rc.TokenID, rc.LastRecvToken)
	}
}
