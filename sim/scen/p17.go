package scen

import (
	"fmt"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P17: sessions and subscriptions end cleanly at whatever moment they are
// deleted, closed, abandoned or expire, and give back what they held.
func init() { register(&Scenario{Prop: "P17", Gen: genP17, Run: runP17}) }

func genP17(g Gen, p *Plan) {
	nc := int(g.Range(1, 4))
	p.P["clients"] = int64(nc)
	p.P["workers"] = g.Pick(1, 2, 4)
	p.P["maxsub"] = g.Pick(2, 3, 5, 8)
	p.P["maxsess"] = g.Pick(3, 4, 6)
	p.P["nodiag"] = g.Pick(0, 0, 0, 1)
	if g.P(50) { // tight timing
		p.Net.LatMinUs, p.Net.LatMaxUs, p.Net.Seg, p.Net.Frag = 0, g.Pick(0, 0, 100), 0, 0
	}
	if g.P(2) { // many subscriptions of one session expire while nobody asks
		p.P["clients"], p.P["maxsub"] = 1, 75
		p.Ops = append(p.Ops, Op{A: 0, K: "open", I: []int64{0, 3600000}}, Op{A: 0, K: "many", I: []int64{g.Range(66, 75), g.Pick(125, 250, 1000)}},
			Op{A: 0, K: []string{"call", "diag", "diag"}[g.N(3)], D: 15000000, I: []int64{3}}, Op{A: 0, K: []string{"del", "close", "abandon", "clo"}[g.N(4)], I: []int64{int64(g.U64() % 1000), 0}})
		return
	}
	for a := 0; a < nc; a++ {
		lives := int(g.Range(1, 3))
		if p.Tier == "thorough" {
			lives = int(g.Range(1, 7))
		}
		for l := 0; l < lives; l++ {
			p.Ops = append(p.Ops, Op{A: a, K: "open", D: g.Pick(0, 1000, 500000), I: []int64{g.Pick(0, 0, 0, 3), g.Pick(10000, 20000, 3600000)}})
			if g.P(40) {
				p.Ops = append(p.Ops, Op{A: a, K: "align", I: []int64{int64(g.U64() % 1000), g.Pick(1000, 2000, 500)}})
			}
			n := int(g.Range(1, 8))
			for i := 0; i < n; i++ {
				k := []string{"sub", "sub", "items", "items", "pub", "del", "delnear", "delnear", "pubnear", "modnear", "modenear", "itemnear", "renear", "diag", "wait", "delitems", "call", "imodnear", "imodnear", "outlast", "outlast"}[g.N(21)]
				if i == 0 {
					k = "sub"
				}
				p.Ops = append(p.Ops, Op{A: a, K: k, D: g.Pick(0, 0, 1000, 200000), I: []int64{int64(g.U64() % 1000000), g.Range(-3000, 3000), g.Pick(0, 0, 0, 1)}})
			}
			p.Ops = append(p.Ops, Op{A: a, K: []string{"close", "close", "closekeep", "abandon", "closenear", "clo", "reconn", "takeover", "takeover", "starve"}[g.N(10)], D: g.Pick(0, 100000, 5000000), I: []int64{int64(g.U64() % 1000), g.Range(-3000, 3000)}})
		}
	}
}

// p17sub is what the model knows of one subscription.
type p17sub struct {
	id     uint32
	iv     time.Duration
	keep   uint32
	life   uint32
	born   time.Duration
	served time.Duration // last time it may have been served
	deadBy time.Duration // certainly gone then (0: unknown)
	sess   *p17sess
	tick0  time.Duration // request sent
	unsure bool          // modified in the moments in which it expires: accepted, and gone all the same
	pubs   int
}

// goneBy is when the subscription has certainly ended: publish requests that
// wait, time out after 5 s, and each that was sent on a lost connection can
// use up one publishing interval.
func (s *p17sub) goneBy() time.Duration {
	if s.deadBy != 0 {
		return s.deadBy
	}
	return s.served + time.Duration(s.life+s.keep+2)*s.iv + 20*time.Second
}

type p17sess struct {
	client  int
	born    time.Duration
	deadBy  time.Duration
	last    time.Duration
	timeout time.Duration
}

type p17 struct {
	w    *World
	s    *Srv
	mu   sync.Mutex
	subs []*p17sub
	ids  map[uint32]bool
	sess []*p17sess
	// reads counts calls of the handler of each client's polled variable
	reads []int
	vars  []*server.VariableNode
}

func (x *p17) subBounds(now time.Duration) (hi int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, s := range x.subs {
		if now <= s.goneBy() {
			hi++
		}
	}
	return
}

func (x *p17) sessBounds(now time.Duration) (hi int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, s := range x.sess {
		d := s.deadBy
		if d == 0 {
			d = s.last + s.timeout + 8*time.Second
		}
		if now <= d {
			hi++
		}
	}
	return
}

func runP17(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers")), DiagOff: w.P("nodiag") == 1,
		Extra: []server.Option{server.WithMaxSubscriptionCount(uint32(w.P("maxsub"))), server.WithMaxSessionCount(uint32(w.P("maxsess")))}})
	x := &p17{w: w, s: s, ids: map[uint32]bool{}}
	for i := 0; i < 3; i++ {
		x.vars = append(x.vars, s.AddVar(fmt.Sprintf("V%d", i), int64(0), ua.DataTypeIDInt64, -1, VarOpts{}))
	}
	x.reads = make([]int, w.P("clients"))
	for a := range x.reads {
		s.AddVar(fmt.Sprintf("R%d", a), int64(0), ua.DataTypeIDInt64, -1, VarOpts{}).SetReadValueHandler(func(*server.Session, ua.ReadValueID) ua.DataValue {
			x.mu.Lock()
			x.reads[a]++
			n := x.reads[a]
			x.mu.Unlock()
			return ua.NewDataValue(int64(n), ua.Good, time.Now(), 0, time.Now(), 0)
		})
	}
	ev := s.AddObject("Ev", "Root", ua.EventNotifierSubscribeToEvents)
	w.StartSched()
	s.Serve()
	stop := make(chan struct{})
	go func() { // the application is busy meanwhile
		for i := int64(1); ; i++ {
			select {
			case <-stop:
				return
			case <-time.After(170 * time.Millisecond):
			}
			x.vars[i%2].SetValue(ua.NewDataValue(i, ua.Good, time.Now(), 0, time.Now(), 0))
			s.NM.OnEvent(ev, &ua.BaseEvent{EventID: ua.ByteString(fmt.Sprintf("e%d", i)), EventType: ua.ObjectTypeIDBaseEventType, SourceNode: nid("Ev"), SourceName: "Ev", Time: time.Now(), ReceiveTime: time.Now(), Severity: 100})
		}
	}()
	w.Actors(int(w.P("clients")), func(a int, ops []Op) { x.client(a, ops) })
	close(stop)
	x.final()
	w.NonTrivial()
}

func (x *p17) sampled() []int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]int(nil), x.reads...)
}

// gone waits until everything the model knows has certainly ended.
func (x *p17) final() {
	w, s := x.w, x.s
	var until time.Duration
	x.mu.Lock()
	for _, q := range x.sess {
		d := q.deadBy
		if d == 0 {
			d = q.last + q.timeout + 8*time.Second
		}
		if d > until {
			until = d
		}
	}
	for _, q := range x.subs {
		if d := q.goneBy(); d > until {
			until = d
		}
	}
	x.mu.Unlock()
	if d := until - w.Now(); d > 0 {
		time.Sleep(d)
	}
	time.Sleep(3 * time.Second)
	r0 := x.sampled()
	time.Sleep(20 * time.Second)
	r1 := x.sampled()
	for a := range r0 {
		if r1[a] != r0[a] {
			w.Fail("still-sampling", "the value of a variable was sampled %d times in 20 s although no subscription exists any more", r1[a]-r0[a])
		}
	}
	c, err := s.Connect(RawOpts{Wait: 60 * time.Second})
	if err != nil {
		w.Fail("dead", "after all sessions ended a client cannot connect: %v\n%s", err, Stacks())
	}
	num := func(id ua.NodeID) int {
		r, err := c.Do(readReq(ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}), 60*time.Second)
		if !good(r, err) {
			w.Fail("dead", "read: %s", sr(r, err))
		}
		v, ok := r.(*ua.ReadResponse).Results[0].Value.(uint32)
		if !ok {
			w.Fail("diagnostics", "%v is %v", id, r.(*ua.ReadResponse).Results[0].Value)
		}
		return int(v)
	}
	if w.P("nodiag") == 0 {
		if n := num(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCurrentSubscriptionCount); n != 0 {
			w.Fail("not-released", "%d subscriptions are counted although all have ended", n)
		}
		if n := num(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCurrentSessionCount); n != 1 {
			w.Fail("not-released", "%d sessions are counted although there is one", n)
		}
		// nothing of an ended session or subscription is left in the address space
		for _, q := range []struct {
			id   ua.NodeID
			want int
			what string
		}{{ua.ObjectIDServerServerDiagnosticsSessionsDiagnosticsSummary, 1, "session"}, {ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, 0, "subscription"}} {
			r, err := c.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: q.id, BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IncludeSubtypes: true, ResultMask: 63}}}, 60*time.Second)
			if !good(r, err) {
				w.Fail("dead", "browse: %s", sr(r, err))
			}
			n := 0
			for _, d := range r.(*ua.BrowseResponse).Results[0].References {
				if d.NodeID.NodeID.(ua.NodeID) != nil && nsOf(d.NodeID.NodeID) == 1 {
					n++
				}
			}
			if n != q.want {
				w.Fail("not-released", "%d %s diagnostics nodes are left, want %d", n, q.what, q.want)
			}
		}
	}
	// the slots can all be used again
	max := int(w.P("maxsub"))
	var ids []uint32
	for i := 0; i <= max; i++ {
		r, err := c.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 5}, 60*time.Second)
		if i < max {
			if !good(r, err) {
				w.Fail("not-released", "all subscriptions ended and only %d of %d can be created: %s", i, max, sr(r, err))
			}
			id := r.(*ua.CreateSubscriptionResponse).SubscriptionID
			if x.ids[id] {
				w.Fail("id-reused", "subscription id %d was used before", id)
			}
			ids = append(ids, id)
		} else if err != nil || r.Header().ServiceResult != ua.BadTooManySubscriptions {
			w.Fail("limit", "subscription %d of at most %d: %s", i+1, max, sr(r, err))
		}
	}
	if r, err := c.Do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: ids}, 60*time.Second); !good(r, err) {
		w.Fail("dead", "delete: %s", sr(r, err))
	}
	maxs := int(w.P("maxsess"))
	var cs []*raw.Client
	for i := 1; i <= maxs; i++ {
		c, err := s.Connect(RawOpts{Wait: 60 * time.Second})
		if i < maxs && err != nil {
			w.Fail("not-released", "all sessions ended and only %d of %d can be created: %v", i, maxs, err)
		}
		if i == maxs && err == nil {
			w.Fail("limit", "session %d of at most %d was accepted", i+1, maxs)
		}
		cs = append(cs, c)
	}
	for _, c := range cs {
		if c != nil {
			c.Disconnect()
		}
	}
	for _, e := range c.Anomalies() {
		w.Fail("anomaly", "%s", e)
	}
}

func nsOf(n ua.NodeID) uint16 {
	switch i := n.(type) {
	case ua.NodeIDNumeric:
		return i.NamespaceIndex
	case ua.NodeIDString:
		return i.NamespaceIndex
	case ua.NodeIDGUID:
		return i.NamespaceIndex
	case ua.NodeIDOpaque:
		return i.NamespaceIndex
	}
	return 0
}

func (x *p17) client(a int, ops []Op) {
	rv := fmt.Sprintf("R%d", a)
	w, s := x.w, x.s
	var c *raw.Client
	var sess *p17sess
	var subs []*p17sub
	items := map[uint32][]uint32{}
	lost := false
	cur := ""
	fail := func(class, f string, args ...any) {
		w.Fail(class, fmt.Sprintf("c%d %s: ", a, cur)+f, args...)
	}
	end := func() {
		if c == nil {
			return
		}
		for _, e := range c.Anomalies() {
			fail("anomaly", "%s", e)
		}
		c.Disconnect()
		c = nil
		subs = nil
		items = map[uint32][]uint32{}
	}
	touch := func() {
		x.mu.Lock()
		if sess != nil {
			sess.last = w.Now()
		}
		x.mu.Unlock()
	}
	do := func(q ua.ServiceRequest) ua.ServiceResponse {
		touch()
		r, err := c.Do(q, 60*time.Second)
		touch()
		if err != nil {
			if err == raw.ErrTimeout {
				fail("hang", "%T is not answered within 60 s\n%s", q, Stacks())
			}
			fail("connection-lost", "%T: %v\n%s", q, err, Stacks())
		}
		return r
	}
	// certain reports whether the session must still be known to the server
	certain := func() bool {
		x.mu.Lock()
		defer x.mu.Unlock()
		return w.Now() < sess.last+sess.timeout-time.Second
	}
	okOr := func(r ua.ServiceResponse, codes ...ua.StatusCode) bool {
		c := r.Header().ServiceResult
		if c == ua.Good {
			return true
		}
		for _, k := range codes {
			if c == k {
				return false
			}
		}
		fail("refused", "%s", sr(r, nil))
		return false
	}
	// near waits until about the moment the subscription expires
	near := func(q *p17sub, off int64) {
		at := q.tick0 + time.Duration(q.life)*q.iv + time.Duration(off)*time.Microsecond
		if q.pubs > 0 {
			at += time.Duration(q.keep) * q.iv
		}
		for w.Now() < at {
			d := at - w.Now()
			if d > 2*time.Second { // keep the session alive
				time.Sleep(2 * time.Second)
				do(readVal("V0"))
				continue
			}
			time.Sleep(d)
		}
	}
	dead := func(q *p17sub) {
		x.mu.Lock()
		if q.deadBy == 0 {
			q.deadBy = w.Now()
		}
		x.mu.Unlock()
	}
	pick := func(o Op) *p17sub {
		if len(subs) == 0 {
			return nil
		}
		return subs[int(o.Arg(0))%len(subs)]
	}
	drop := func(q *p17sub) {
		for i, s := range subs {
			if s == q {
				subs = append(subs[:i:i], subs[i+1:]...)
				return
			}
		}
	}
	served := func(q *p17sub) {
		x.mu.Lock()
		q.served = w.Now()
		x.mu.Unlock()
	}
	// alive reports whether the subscription cannot have expired yet
	alive := func(q *p17sub) bool {
		return !q.unsure && w.Now() < q.tick0+time.Duration(q.life)*q.iv-time.Second
	}
	for _, o := range ops {
		o.Sleep()
		if c == nil && o.K != "open" {
			continue
		}
		w.Count(o.K)
		cur = o.K
		switch o.K {
		case "open":
			end()
			lost = false
			lim := x.sessBounds(w.Now())
			ns := &p17sess{client: a, born: w.Now(), last: w.Now(), timeout: time.Duration(o.Arg(1)) * time.Millisecond}
			x.mu.Lock()
			x.sess = append(x.sess, ns)
			x.mu.Unlock()
			cc, err := s.Connect(RawOpts{Sec: int(o.Arg(0)), NoSess: true})
			if err != nil {
				fail("connect-refused", "%v\n%s", err, Stacks())
			}
			if err := s.Session(cc, RawOpts{Sec: int(o.Arg(0)), Timeout: float64(o.Arg(1)), Wait: 60 * time.Second}); err != nil {
				if err == raw.ErrTimeout {
					fail("hang", "creating a session is not answered\n%s", Stacks())
				}
				if lim+1 <= int(w.P("maxsess")) && x.sessBounds(w.Now()) <= int(w.P("maxsess")) {
					fail("not-released", "a session was refused (%v) although at most %d of %d exist\n%s", err, lim, w.P("maxsess"), Stacks())
				}
				x.mu.Lock()
				ns.deadBy = w.Now()
				x.mu.Unlock()
				cc.Disconnect()
				w.Count("too_many_sessions")
				continue
			}
			c, sess = cc, ns
			touch()
		case "align":
			// so that a subscription of this lifetime ends when the server looks for expired ones
			life := 10 * time.Second
			iv := time.Duration(o.Arg(1)) * time.Millisecond
			t := w.Now() + life + 2*time.Second
			at := (t/time.Minute+1)*time.Minute - life - time.Duration(o.Arg(0)-500)*time.Microsecond
			if life%iv != 0 {
				continue
			}
			for w.Now() < at {
				d := at - w.Now()
				if d > 4*time.Second {
					d = 4 * time.Second
				}
				time.Sleep(d)
				if at-w.Now() > time.Second {
					do(readVal("V0"))
				}
			}
			x.create(c, sess, &subs, float64(o.Arg(1)), 1, 0, do, okOr, fail)
		case "sub":
			if len(subs) < 4 {
				x.create(c, sess, &subs, []float64{125, 250, 500, 1000, 2000}[o.Arg(0)%5], uint32(o.Arg(0)/5%3)+1, 0, do, okOr, fail)
			}
		case "many":
			for i := int64(0); i < o.Arg(0); i++ {
				x.create(c, sess, &subs, float64(o.Arg(1)), 1, 0, do, okOr, fail)
			}
		case "imodnear":
			q := pick(o)
			if q == nil || len(items[q.id]) == 0 {
				continue
			}
			near(q, o.Arg(1))
			var r ua.ServiceResponse
			if id := items[q.id]; o.Arg(0)%2 == 0 {
				var ms []ua.MonitoredItemModifyRequest
				for i, m := range id {
					ms = append(ms, ua.MonitoredItemModifyRequest{MonitoredItemID: m, RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), SamplingInterval: 250, QueueSize: 5, DiscardOldest: true}})
					if i%3 == 2 {
						ms[i].RequestedParameters.Filter = ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses[:2]}
					}
				}
				r = do(&ua.ModifyMonitoredItemsRequest{SubscriptionID: q.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: ms})
			} else {
				r = do(&ua.SetMonitoringModeRequest{SubscriptionID: q.id, MonitoringMode: ua.MonitoringMode(o.Arg(0) / 2 % 3), MonitoredItemIDs: id})
			}
			if !okOr(r, ua.BadSubscriptionIDInvalid) {
				dead(q)
				drop(q)
			}
		case "items":
			q := pick(o)
			if q == nil {
				continue
			}
			h := uint32(o.Arg(0))
			r := do(&ua.CreateMonitoredItemsRequest{SubscriptionID: q.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{
				monItem("V0", h, 0, 10, true, nil, ua.MonitoringModeReporting), monItem(rv, h+1, 250, 10, true, nil, ua.MonitoringModeReporting),
				{ItemToMonitor: ua.ReadValueID{NodeID: nid("Ev"), AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,
					RequestedParameters: ua.MonitoringParameters{ClientHandle: h + 2, QueueSize: 10, DiscardOldest: true, Filter: ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses[:3]}}}}})
			if alive(q) {
				okOr(r)
			}
			if okOr(r, ua.BadSubscriptionIDInvalid) {
				for _, m := range r.(*ua.CreateMonitoredItemsResponse).Results {
					if m.StatusCode == ua.Good {
						items[q.id] = append(items[q.id], m.MonitoredItemID)
					} else if alive(q) || m.StatusCode != ua.BadSubscriptionIDInvalid {
						fail("refused", "item: %v", m.StatusCode)
					}
				}
			} else {
				dead(q)
				drop(q)
			}
		case "delitems":
			q := pick(o)
			if q == nil || len(items[q.id]) == 0 {
				continue
			}
			r := do(&ua.DeleteMonitoredItemsRequest{SubscriptionID: q.id, MonitoredItemIDs: items[q.id]})
			okOr(r, ua.BadSubscriptionIDInvalid)
			delete(items, q.id)
		case "pub":
			for i := int64(0); i <= o.Arg(0)%5; i++ {
				c.Start(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 5000}})
			}
			touch()
			x.mu.Lock()
			for _, q := range subs {
				q.pubs++
			}
			x.mu.Unlock()
			time.Sleep(time.Duration(o.Arg(0)%3) * 700 * time.Millisecond)
			for _, q := range subs {
				served(q)
			}
		case "pubnear":
			if q := pick(o); q != nil {
				near(q, o.Arg(1))
				for i := int64(0); i <= o.Arg(0)%3; i++ {
					c.Start(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 5000}})
				}
				x.mu.Lock()
				for _, q := range subs {
					q.pubs++
				}
				x.mu.Unlock()
				time.Sleep(time.Second)
				for _, q := range subs {
					served(q)
				}
			}
		case "del", "delnear":
			q := pick(o)
			if q == nil {
				continue
			}
			if o.K == "delnear" {
				near(q, o.Arg(1))
			}
			must := alive(q)
			r := do(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{q.id}})
			okOr(r)
			if d := r.(*ua.DeleteSubscriptionsResponse); len(d.Results) != 1 || d.Results[0] != ua.Good && (must || d.Results[0] != ua.BadSubscriptionIDInvalid) {
				fail("refused", "delete: %v", d.Results)
			}
			dead(q)
			drop(q)
		case "modnear":
			if q := pick(o); q != nil {
				near(q, o.Arg(1))
				t0, was := w.Now(), alive(q)
				r := do(&ua.ModifySubscriptionRequest{SubscriptionID: q.id, RequestedPublishingInterval: float64(q.iv) / 1e6, RequestedLifetimeCount: q.life, RequestedMaxKeepAliveCount: q.keep})
				if okOr(r, ua.BadSubscriptionIDInvalid) {
					q.tick0 = t0
					q.unsure = !was
					served(q)
				} else {
					dead(q)
					drop(q)
				}
			}
		case "modenear":
			if q := pick(o); q != nil {
				near(q, o.Arg(1))
				r := do(&ua.SetPublishingModeRequest{SubscriptionIDs: []uint32{q.id}, PublishingEnabled: o.Arg(0)%2 == 0})
				okOr(r)
				if m := r.(*ua.SetPublishingModeResponse); m.Results[0] == ua.Good {
					served(q)
				} else if m.Results[0] == ua.BadSubscriptionIDInvalid {
					dead(q)
					drop(q)
				} else {
					fail("refused", "%v", m.Results)
				}
			}
		case "itemnear":
			if q := pick(o); q != nil {
				near(q, o.Arg(1))
				r := do(&ua.CreateMonitoredItemsRequest{SubscriptionID: q.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{
					monItem("V0", 1, 0, 10, true, nil, ua.MonitoringModeReporting), monItem(rv, 2, 250, 10, true, nil, ua.MonitoringModeReporting)}})
				if !okOr(r, ua.BadSubscriptionIDInvalid) {
					dead(q)
					drop(q)
				}
			}
		case "renear":
			if q := pick(o); q != nil {
				near(q, o.Arg(1))
				r := do(&ua.RepublishRequest{SubscriptionID: q.id, RetransmitSequenceNumber: uint32(o.Arg(0) % 4)})
				switch r.Header().ServiceResult {
				case ua.Good, ua.BadMessageNotAvailable:
					served(q)
				case ua.BadSubscriptionIDInvalid:
					dead(q)
					drop(q)
				default:
					fail("refused", "%s", sr(r, nil))
				}
			}
		case "diag":
			for i := int64(0); i <= o.Arg(0)%20; i++ {
				okOr(do(readReq(ua.ReadValueID{NodeID: ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, AttributeID: ua.AttributeIDValue},
					ua.ReadValueID{NodeID: ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary, AttributeID: ua.AttributeIDValue})))
			}
		case "call":
			okOr(do(readVal("V0", "V1", rv)))
		case "outlast":
			// the subscriptions of the client end while its session goes on
			var until time.Duration
			x.mu.Lock()
			for _, q := range x.subs {
				if d := q.goneBy(); q.sess.client == a && d > until {
					until = d
				}
			}
			x.mu.Unlock()
			if until > w.Now()+3*time.Minute || until == 0 || !certain() {
				continue
			}
			for ok := true; ok; {
				ok = w.Now() < until
				time.Sleep(2 * time.Second)
				okOr(do(readVal("V0")))
			}
			r0 := x.sampled()[a]
			time.Sleep(3 * time.Second)
			if r1 := x.sampled()[a]; r1 != r0 {
				fail("still-sampling", "the value of a variable was sampled %d times in 3 s although all subscriptions of the client ended", r1-r0)
			}
			w.Count("outlasted")
			touch()
			okOr(do(readVal("V0")))
			subs = nil
		case "wait":
			time.Sleep(time.Duration(o.Arg(0)%4000) * time.Millisecond)
			touch()
			okOr(do(readVal("V0")))
		case "close", "closekeep", "closenear":
			if q := pick(o); q != nil && o.K == "closenear" {
				near(q, o.Arg(1))
			}
			must := certain()
			r, err := c.Do(&ua.CloseSessionRequest{DeleteSubscriptions: o.K != "closekeep"}, 60*time.Second)
			if err != nil {
				fail("hang", "CloseSession: %v\n%s", err, Stacks())
			}
			if must {
				okOr(r)
			} else {
				okOr(r, ua.BadSessionIDInvalid)
			}
			if r.Header().ServiceResult == ua.Good {
				x.mu.Lock()
				sess.deadBy = w.Now()
				x.mu.Unlock()
				if o.K != "closekeep" {
					for _, q := range subs {
						dead(q)
					}
				}
				// nothing works in a closed session
				if r, err := c.Do(readVal("V0"), 60*time.Second); err == nil && r.Header().ServiceResult == ua.Good {
					fail("zombie", "Read succeeds in a closed session")
				}
			}
			end()
		case "abandon":
			lost = true
			c.Link.Cut()
			c = nil
			subs = nil
		case "clo":
			c.SendClose(999999)
			time.Sleep(200 * time.Millisecond)
			c.Disconnect()
			c = nil
			subs = nil
		case "takeover":
			// the session is closed on another channel while requests of it are under way
			old := c
			if old.P.Name != "None" || !certain() {
				end()
				continue
			}
			nc, err := s.Connect(RawOpts{NoSess: true})
			if err != nil {
				fail("connect-refused", "%v\n%s", err, Stacks())
			}
			if !certain() {
				nc.Disconnect()
				end()
				continue
			}
			nc.Token, nc.SessID, nc.SNonce, nc.SCert = old.Token, old.SessID, old.SNonce, old.SCert
			act, err := nc.ActivateRequest(s.UserOf(nc, ""))
			if err != nil {
				panic(err)
			}
			var pend []*raw.Pending
			rnd := uint64(o.Arg(0))*2654435761 + 12345
			next := func(n uint64) uint64 { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd % n }
			burst := func(n int) {
				for i := 0; i < n; i++ {
					switch k := next(8); {
					case k < 3:
						q := &ua.BrowseRequest{RequestedMaxReferencesPerNode: 1}
						for j := uint64(0); j <= next(12); j++ {
							q.NodesToBrowse = append(q.NodesToBrowse, ua.BrowseDescription{NodeID: ua.ObjectIDServer, BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, IncludeSubtypes: true, ResultMask: 63})
						}
						pend = append(pend, old.Start(q))
					case k < 5:
						pend = append(pend, old.Start(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 3600000}}))
					case k == 5 && len(subs) > 0:
						pend = append(pend, old.Start(&ua.CreateMonitoredItemsRequest{SubscriptionID: subs[int(next(16))%len(subs)].id, TimestampsToReturn: ua.TimestampsToReturnBoth,
							ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem(rv, 1, 100, 5, true, nil, ua.MonitoringModeReporting), monItem("V0", 2, 0, 5, true, nil, ua.MonitoringModeReporting)}}))
					case k == 6:
						x.mu.Lock()
						x.subs = append(x.subs, &p17sub{born: w.Now(), tick0: w.Now(), served: w.Now() + time.Minute, sess: sess, iv: time.Second, life: 3, keep: 1})
						x.mu.Unlock()
						pend = append(pend, old.Start(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 3, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true}))
					default:
						pend = append(pend, old.Start(readVal("V0", rv)))
					}
				}
			}
			burst(int(next(3)))
			if d := o.Arg(1); d > 0 && next(3) == 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			pa := nc.Start(act)
			if next(4) == 0 {
				burst(1 + int(next(3)))
			}
			pc := nc.Start(&ua.CloseSessionRequest{DeleteSubscriptions: true})
			burst(1 + int(next(5)))
			touch()
			if r, err := pa.Wait(60 * time.Second); !good(r, err) {
				fail("refused", "activating the session on a new channel: %s\n%s", sr(r, err), Stacks())
			}
			if r, err := pc.Wait(60 * time.Second); !good(r, err) {
				fail("refused", "closing the session on the new channel: %s\n%s", sr(r, err), Stacks())
			}
			for _, p := range pend {
				if r, err := p.Wait(60 * time.Second); err == raw.ErrTimeout {
					fail("unanswered", "%T was under way as the session was closed on another channel, and is never answered\n%s", p.Req, Stacks())
				} else if cr, ok := r.(*ua.CreateSubscriptionResponse); err == nil && ok {
					x.mu.Lock()
					if x.ids[cr.SubscriptionID] {
						fail("id-reused", "subscription id %d was used before", cr.SubscriptionID)
					}
					x.ids[cr.SubscriptionID] = true
					x.mu.Unlock()
				}
			}
			x.mu.Lock()
			sess.deadBy = w.Now()
			x.mu.Unlock()
			for _, q := range subs {
				dead(q)
			}
			for _, e := range nc.Anomalies() {
				fail("anomaly", "%s", e)
			}
			nc.Disconnect()
			end()
		case "starve":
			// the session ends as the client asks for nothing any more; its publish requests are answered
			if sess.timeout > 30*time.Second || !certain() {
				continue
			}
			var pend []*raw.Pending
			for i := int64(0); i <= o.Arg(0)%40; i++ {
				pend = append(pend, c.Start(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 7200000}}))
			}
			touch()
			x.mu.Lock()
			for _, q := range subs { // they may be served until the session ends
				q.served = w.Now() + sess.timeout + 10*time.Second
			}
			x.mu.Unlock()
			time.Sleep(sess.timeout + 10*time.Second)
			for _, p := range pend {
				if _, err := p.Wait(time.Second); err == raw.ErrTimeout {
					fail("unanswered", "the session has expired and a publish request of it is not answered\n%s", Stacks())
				}
			}
			end()
		case "reconn":
			// the session moves to a new channel while the old one ends
			old := c
			if !certain() {
				end()
				continue
			}
			nc, err := s.Connect(RawOpts{NoSess: true})
			if err != nil {
				fail("connect-refused", "%v\n%s", err, Stacks())
			}
			if old.P.Name != "None" {
				nc.Disconnect()
				end()
				continue
			}
			nc.Token, nc.SessID, nc.SNonce, nc.SCert = old.Token, old.SessID, old.SNonce, old.SCert
			old.Link.Cut()
			if err := nc.Activate(s.UserOf(nc, ""), 60*time.Second); err != nil {
				fail("refused", "activating the session on a new channel: %v\n%s", err, Stacks())
			}
			c = nc
			touch()
			okOr(do(readVal("V0")))
		}
	}
	_ = lost
	if c != nil {
		c.Disconnect()
	}
}

func (x *p17) create(c *raw.Client, sess *p17sess, subs *[]*p17sub, iv float64, keep, life uint32, do func(ua.ServiceRequest) ua.ServiceResponse, okOr func(ua.ServiceResponse, ...ua.StatusCode) bool, fail func(string, string, ...any)) {
	w := x.w
	q := &p17sub{born: w.Now(), tick0: w.Now(), served: w.Now(), sess: sess, iv: time.Minute, life: 1, keep: 1}
	before := x.subBounds(w.Now())
	x.mu.Lock()
	x.subs = append(x.subs, q)
	x.mu.Unlock()
	r := do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: iv, RequestedLifetimeCount: life, RequestedMaxKeepAliveCount: keep, PublishingEnabled: true})
	max := int(w.P("maxsub"))
	if !okOr(r, ua.BadTooManySubscriptions) {
		if before < max && x.subBounds(w.Now()) <= max {
			fail("not-released", "a subscription was refused although at most %d of %d exist\n%s", before, max, Stacks())
		}
		x.mu.Lock()
		q.deadBy = w.Now()
		x.mu.Unlock()
		w.Count("too_many_subscriptions")
		return
	}
	cr := r.(*ua.CreateSubscriptionResponse)
	x.mu.Lock()
	if x.ids[cr.SubscriptionID] {
		fail("id-reused", "subscription id %d was used before", cr.SubscriptionID)
	}
	x.ids[cr.SubscriptionID] = true
	q.id = cr.SubscriptionID
	q.iv = time.Duration(cr.RevisedPublishingInterval * 1e6)
	q.keep = cr.RevisedMaxKeepAliveCount
	q.life = cr.RevisedLifetimeCount
	q.served = w.Now()
	x.mu.Unlock()
	*subs = append(*subs, q)
}
