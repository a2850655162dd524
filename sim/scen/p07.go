package scen

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P07: sessions are isolated: nothing a session does with the identifiers of
// another one reveals or changes what belongs to that one.
func init() { register(&Scenario{Prop: "P07", Gen: genP07, Run: runP07}) }

func genP07(g Gen, p *Plan) {
	nc := int(g.Range(2, 3))
	p.P["clients"] = int64(nc)
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, 0, int64(g.N(len(secs))))
		p.P[fmt.Sprintf("subs%d", a)] = g.Range(1, 2)
		p.P[fmt.Sprintf("ack%d", a)] = g.Pick(0, 1, 1)
		for i := 0; i < 2; i++ {
			p.P[fmt.Sprintf("int%d_%d", a, i)] = g.Pick(125, 250, 500, 1000)
			p.P[fmt.Sprintf("keep%d_%d", a, i)] = g.Pick(2, 3, 5)
		}
	}
	p.P["workers"] = g.Pick(1, 2, 4)
	n := int(g.Range(8, 24))
	if p.Tier == "thorough" {
		n = int(g.Range(10, 60))
	}
	kinds := []string{"set", "set", "set", "create", "moditem", "mode", "trig", "delitem", "owndel", "ownmode", "modsub", "pubmode", "delsub", "ack", "ack", "ack",
		"republish", "republish", "transfer", "browse", "browsenext", "browsenext", "cancel", "intruder", "intruder", "wait", "ownadd"}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{A: g.N(nc), D: g.Pick(0, 0, 1000, 130000, 700000), K: kinds[g.N(len(kinds))],
			I: []int64{int64(g.U64() % 1000000), int64(g.U64() % 1000), int64(g.U64() % 1000), int64(g.U64() % 1000)}})
	}
}

type p07cl struct {
	a     int
	b     *Subber
	subs  []*SubRec
	items map[uint32][]uint32 // server's ids by subscription
	hOf   map[uint32][]uint32 // handles by subscription
	own   map[uint32]uint32   // handle -> subscription
	last  map[uint32]int64
	cps   []ua.ByteString
	left  []int // references still to come per continuation point
	nh    uint32
	gone  map[uint32]bool // handles of deleted items
}

type p07 struct {
	w    *World
	s    *Srv
	mu   sync.Mutex
	vars []*server.VariableNode
	n    []int64
	cl   []*p07cl
	end  sync.WaitGroup
}

const p07kids = 9

func runP07(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers"))})
	x := &p07{w: w, s: s}
	nc := int(w.P("clients"))
	for a := 0; a < nc; a++ {
		x.vars = append(x.vars, s.AddVar(fmt.Sprintf("V%d", a), int64(a*1000000), ua.DataTypeIDInt64, -1, VarOpts{}))
		x.n = append(x.n, int64(a*1000000))
		s.AddObject(fmt.Sprintf("F%d", a), "Root", 0)
		for k := 0; k < p07kids; k++ {
			s.AddObject(fmt.Sprintf("F%d_%d", a, k), fmt.Sprintf("F%d", a), 0)
		}
		x.cl = append(x.cl, nil)
	}
	w.StartSched()
	s.Serve()
	for a := 0; a < nc; a++ {
		if len(w.OpsOf(a)) > 0 {
			x.end.Add(1)
		}
	}
	w.Actors(nc, x.client)
	w.NonTrivial()
}

func (x *p07) other(c *p07cl, n int64) *p07cl {
	x.mu.Lock()
	defer x.mu.Unlock()
	var l []*p07cl
	for _, d := range x.cl {
		if d != nil && d != c {
			l = append(l, d)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[int(n)%len(l)]
}

func (x *p07) set(a int) {
	x.mu.Lock()
	x.n[a]++
	v := x.n[a]
	x.vars[a].SetValue(ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0))
	x.mu.Unlock()
}

func (c *p07cl) addItem(i int) {
	rec := c.subs[i]
	var h uint32
	c.b.Run(func() { c.nh++; h = c.nh; c.own[h] = rec.ID })
	r := c.b.CreateItems(rec.ID, ua.TimestampsToReturnBoth, monItem(fmt.Sprintf("V%d", c.a), h, 0, 1000, true, nil, ua.MonitoringModeReporting))
	c.items[rec.ID] = append(c.items[rec.ID], r[0].MonitoredItemID)
	c.hOf[rec.ID] = append(c.hOf[rec.ID], h)
}

func (x *p07) client(a int, ops []Op) {
	w, s := x.w, x.s
	k := func(f string) int64 { return w.P(fmt.Sprintf(f, a)) }
	b := s.NewSubber(fmt.Sprintf("c%d", a), RawOpts{Sec: int(k("sec%d")), Timeout: 3600000, Me: []string{"client1", "client2"}[a%2]})
	b.AckMode = k("ack%d")
	c := &p07cl{a: a, b: b, items: map[uint32][]uint32{}, hOf: map[uint32][]uint32{}, own: map[uint32]uint32{}, last: map[uint32]int64{}, gone: map[uint32]bool{}}
	b.OnNotif = func(n Notif) {
		v, ok := n.Value.Value.(int64)
		if !ok || c.own[n.Handle] != n.Sub || int(v/1000000) != a {
			b.fail("foreign-data", "client %d received on subscription %d: handle %d value %v", a, n.Sub, n.Handle, n.Value.Value)
		}
		c.last[n.Handle] = v
	}
	for i := 0; i < int(k("subs%d")); i++ {
		c.subs = append(c.subs, b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(w.P(fmt.Sprintf("int%d_%d", a, i))), RequestedLifetimeCount: 20000,
			RequestedMaxKeepAliveCount: uint32(w.P(fmt.Sprintf("keep%d_%d", a, i))), PublishingEnabled: true}))
		c.addItem(i)
		c.addItem(i)
	}
	b.SetTarget(4)
	x.mu.Lock()
	x.cl[a] = c
	x.mu.Unlock()
	for _, o := range ops {
		o.Sleep()
		w.Count(o.K)
		x.step(c, o)
		if b.C.Err() != nil {
			b.fail("connection-lost", "without a fault: %v\n%s", b.C.Err(), Stacks())
		}
	}
	x.end.Done()
	x.end.Wait() // everybody's attacks are over
	x.set(a)
	b.Settle(5 * time.Second)
	x.mu.Lock()
	want := x.n[a]
	x.mu.Unlock()
	b.Run(func() {
		for h := uint32(1); h <= c.nh; h++ {
			if !c.gone[h] && c.last[h] != want {
				b.fail("disturbed", "client %d: item %d of subscription %d last reported %d but the value is %d: another session changed or removed it", a, h, c.own[h], c.last[h], want)
			}
		}
	})
	x.checkOwn(c)
	b.CheckAnomalies()
	b.Run(func() { b.target = 0; b.OnFault = func(ua.StatusCode, *raw.Pending) {} })
	b.Must(&ua.CloseSessionRequest{DeleteSubscriptions: true})
	b.C.Disconnect()
}

// checkOwn: everything the client made still exists.
func (x *p07) checkOwn(c *p07cl) {
	for _, rec := range c.subs {
		q := &ua.SetMonitoringModeRequest{SubscriptionID: rec.ID, MonitoringMode: ua.MonitoringModeReporting, MonitoredItemIDs: c.items[rec.ID]}
		r := c.b.Must(q).(*ua.SetMonitoringModeResponse)
		for i, e := range r.Results {
			if e != ua.Good {
				c.b.fail("disturbed", "item %d of subscription %d is gone: %v", q.MonitoredItemIDs[i], rec.ID, e)
			}
		}
	}
	for i, cp := range c.cps {
		x.next(c, cp, c.left[i], "at the end")
	}
	c.cps, c.left = nil, nil
}

func (x *p07) mine(c *p07cl, refs []ua.ReferenceDescription) {
	for _, r := range refs {
		if !strings.HasPrefix(r.BrowseName.Name, fmt.Sprintf("F%d_", c.a)) {
			c.b.fail("foreign-data", "client %d received the reference to %s of another session's browse", c.a, r.BrowseName.Name)
		}
	}
}

// next: the rest of an own continuation point is complete.
func (x *p07) next(c *p07cl, cp ua.ByteString, left int, why string) {
	for len(cp) > 0 {
		r := c.b.Must(&ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{cp}}).(*ua.BrowseNextResponse)
		if len(r.Results) != 1 || r.Results[0].StatusCode != ua.Good {
			c.b.fail("disturbed", "client %d: its continuation point is gone %s: %v", c.a, why, r.Results)
		}
		x.mine(c, r.Results[0].References)
		left -= len(r.Results[0].References)
		cp = r.Results[0].ContinuationPoint
	}
	if left != 0 {
		c.b.fail("disturbed", "client %d: browsing ended with %d references missing %s", c.a, left, why)
	}
}

// refusedAll expects a fault or only bad results.
func (x *p07) refusedAll(c *p07cl, d *p07cl, q ua.ServiceRequest) {
	r, err := c.b.Do(q)
	if err != nil {
		c.b.fail("no-answer", "%T: %v\n%s", q, err, Stacks())
	}
	x.w.Count("attack")
	bad := func(s ua.StatusCode) bool { return uint32(s)&0x80000000 != 0 }
	if bad(r.Header().ServiceResult) {
		return
	}
	n := 0
	var res []ua.StatusCode
	switch t := r.(type) {
	case *ua.SetMonitoringModeResponse:
		res = t.Results
	case *ua.DeleteMonitoredItemsResponse:
		res = t.Results
	case *ua.SetPublishingModeResponse:
		res = t.Results
	case *ua.DeleteSubscriptionsResponse:
		res = t.Results
	case *ua.ModifyMonitoredItemsResponse:
		for _, e := range t.Results {
			res = append(res, e.StatusCode)
		}
	case *ua.CreateMonitoredItemsResponse:
		for _, e := range t.Results {
			res = append(res, e.StatusCode)
		}
	case *ua.TransferSubscriptionsResponse:
		for _, e := range t.Results {
			res = append(res, e.StatusCode)
		}
	case *ua.SetTriggeringResponse:
		res = append(append(res, t.AddResults...), t.RemoveResults...)
	default:
		c.b.fail("not-isolated", "client %d used an identifier of client %d: %T was answered %T %v", c.a, d.a, q, r, r.Header().ServiceResult)
	}
	for _, e := range res {
		if !bad(e) {
			n++
		}
	}
	if n > 0 || len(res) == 0 {
		c.b.fail("not-isolated", "client %d used identifiers of client %d: %T gave %v", c.a, d.a, q, res)
	}
}

func (x *p07) step(c *p07cl, o Op) {
	b := c.b
	var d *p07cl
	var vs *SubRec // victim's subscription
	var vi []uint32
	if d = x.other(c, o.Arg(0)); d != nil {
		vs = d.subs[int(o.Arg(1))%len(d.subs)]
		vi = append(vi, d.items[vs.ID][:2]...)
	}
	my := c.subs[int(o.Arg(1))%len(c.subs)]
	mi := c.items[my.ID]
	switch o.K {
	case "set":
		x.set(c.a)
		return
	case "wait":
		time.Sleep(time.Duration(o.Arg(1)) * 2 * time.Millisecond)
		return
	case "ownadd":
		if len(mi) < 6 {
			c.addItem(int(o.Arg(1)) % len(c.subs))
		}
		return
	case "browse":
		if len(c.cps) >= 6 {
			return
		}
		max := 1 + int(o.Arg(1))%(p07kids-1)
		r := b.Must(&ua.BrowseRequest{RequestedMaxReferencesPerNode: uint32(max), NodesToBrowse: []ua.BrowseDescription{{NodeID: nid(fmt.Sprintf("F%d", c.a)), BrowseDirection: ua.BrowseDirectionForward,
			ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, IncludeSubtypes: true, ResultMask: 63}}}).(*ua.BrowseResponse)
		e := r.Results[0]
		if e.StatusCode != ua.Good || len(e.References) != max || len(e.ContinuationPoint) == 0 {
			b.fail("browse", "browse with at most %d references gave %v, %d references", max, e.StatusCode, len(e.References))
		}
		x.mine(c, e.References)
		x.mu.Lock()
		c.cps = append(c.cps, e.ContinuationPoint)
		c.left = append(c.left, p07kids-max)
		x.mu.Unlock()
		return
	}
	if d == nil {
		return
	}
	x.w.State(o.K, c.a, d.a, len(c.cps))
	switch o.K {
	case "create":
		x.refusedAll(c, d, &ua.CreateMonitoredItemsRequest{SubscriptionID: vs.ID, TimestampsToReturn: ua.TimestampsToReturnBoth,
			ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem(fmt.Sprintf("V%d", c.a), 1, 0, 10, true, nil, ua.MonitoringModeReporting)}})
	case "moditem":
		q := &ua.ModifyMonitoredItemsRequest{SubscriptionID: vs.ID, TimestampsToReturn: ua.TimestampsToReturnBoth}
		if o.Arg(2)%2 == 0 {
			q.SubscriptionID = my.ID
		}
		for _, i := range vi {
			q.ItemsToModify = append(q.ItemsToModify, ua.MonitoredItemModifyRequest{MonitoredItemID: i, RequestedParameters: ua.MonitoringParameters{ClientHandle: 77, SamplingInterval: 10000, QueueSize: 1}})
		}
		x.refusedAll(c, d, q)
	case "mode":
		x.refusedAll(c, d, &ua.SetMonitoringModeRequest{SubscriptionID: vs.ID, MonitoringMode: ua.MonitoringModeDisabled, MonitoredItemIDs: vi})
	case "ownmode":
		x.refusedAll(c, d, &ua.SetMonitoringModeRequest{SubscriptionID: my.ID, MonitoringMode: ua.MonitoringModeDisabled, MonitoredItemIDs: vi})
	case "trig":
		q := &ua.SetTriggeringRequest{SubscriptionID: vs.ID, TriggeringItemID: vi[0], LinksToAdd: vi[1:]}
		switch o.Arg(2) % 3 {
		case 1:
			q = &ua.SetTriggeringRequest{SubscriptionID: my.ID, TriggeringItemID: mi[0], LinksToAdd: vi}
		case 2:
			q = &ua.SetTriggeringRequest{SubscriptionID: my.ID, TriggeringItemID: vi[0], LinksToAdd: mi[:1]}
		}
		x.refusedAll(c, d, q)
	case "delitem":
		x.refusedAll(c, d, &ua.DeleteMonitoredItemsRequest{SubscriptionID: vs.ID, MonitoredItemIDs: vi})
	case "owndel":
		x.refusedAll(c, d, &ua.DeleteMonitoredItemsRequest{SubscriptionID: my.ID, MonitoredItemIDs: vi})
	case "modsub":
		x.refusedAll(c, d, &ua.ModifySubscriptionRequest{SubscriptionID: vs.ID, RequestedPublishingInterval: 60000, RequestedMaxKeepAliveCount: 1000, RequestedLifetimeCount: 3000})
	case "pubmode":
		x.refusedAll(c, d, &ua.SetPublishingModeRequest{PublishingEnabled: false, SubscriptionIDs: []uint32{vs.ID}})
	case "delsub":
		x.refusedAll(c, d, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{vs.ID}})
	case "transfer":
		x.refusedAll(c, d, &ua.TransferSubscriptionsRequest{SubscriptionIDs: []uint32{vs.ID}})
	case "republish":
		var seq uint32
		d.b.Run(func() { seq = vs.Next })
		if seq > 1 {
			x.refusedAll(c, d, &ua.RepublishRequest{SubscriptionID: vs.ID, RetransmitSequenceNumber: 1 + uint32(o.Arg(2))%(seq-1)})
		}
	case "ack":
		var seq uint32
		d.b.Run(func() { seq = vs.Next })
		var l []ua.SubscriptionAcknowledgement
		for i := uint32(1); i < seq && i < 40; i++ {
			l = append(l, ua.SubscriptionAcknowledgement{SubscriptionID: vs.ID, SequenceNumber: seq - i})
		}
		b.Run(func() { b.publish(l) }) // predicts BadSubscriptionIdInvalid for each
		x.w.Count("attack")
	case "browsenext":
		x.mu.Lock()
		var cp ua.ByteString
		if len(d.cps) > 0 {
			cp = d.cps[int(o.Arg(2))%len(d.cps)]
		}
		for _, e := range c.cps { // would use up an own one
			if e == cp {
				cp = ""
			}
		}
		x.mu.Unlock()
		if len(cp) == 0 {
			return
		}
		r := b.Must(&ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{cp}, ReleaseContinuationPoints: o.Arg(3)%3 == 0}).(*ua.BrowseNextResponse)
		x.w.Count("attack")
		if len(r.Results) == 1 && (r.Results[0].StatusCode == ua.Good && o.Arg(3)%3 != 0 || len(r.Results[0].References) > 0) {
			b.fail("foreign-data", "client %d continued the browse of client %d: %v %d references", c.a, d.a, r.Results[0].StatusCode, len(r.Results[0].References))
		}
	case "cancel":
		d.b.C.Outstanding()
		for _, p := range d.b.C.Outstanding() {
			b.Do(&ua.CancelRequest{RequestHandle: p.Handle})
			break
		}
	case "intruder":
		x.intruder(c, d, vs, vi, o)
	}
}

// intruder is a client that comes, uses the others' identifiers, and goes.
func (x *p07) intruder(c, d *p07cl, vs *SubRec, vi []uint32, o Op) {
	sec := int(o.Arg(2)) % len(secs)
	y, err := x.s.Connect(RawOpts{Sec: sec, Me: "client2", User: "user2", Timeout: 10000})
	if err != nil {
		c.b.fail("connect-refused", "%v", err)
	}
	refused := func(q ua.ServiceRequest, why string) {
		r, err := y.Do(q, longWait)
		x.w.Count("attack")
		if err == nil && uint32(r.Header().ServiceResult)&0x80000000 == 0 {
			c.b.fail("not-isolated", "%s: %T was answered %T", why, q, r)
		}
	}
	switch o.Arg(3) % 5 {
	case 0:
		q := &ua.CloseSessionRequest{DeleteSubscriptions: true}
		q.AuthenticationToken = d.b.C.Token
		refused(q, "closing another session by its token")
	case 1:
		q := &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{vs.ID}}
		q.AuthenticationToken = d.b.C.Token
		refused(q, "another session's token")
	case 2:
		q := &ua.PublishRequest{}
		q.AuthenticationToken = d.b.C.Token
		refused(q, "another session's token")
	case 3:
		q := &ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{"\x01\x00\x00\x00"}, ReleaseContinuationPoints: true}
		q.AuthenticationToken = d.b.C.Token
		refused(q, "another session's token")
	case 4: // own subscription, then leave
		r, err := y.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 3, PublishingEnabled: true}, longWait)
		if !good(r, err) {
			c.b.fail("refused", "%s", sr(r, err))
		}
	}
	switch o.Arg(1) % 3 {
	case 0:
		y.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}, longWait)
		y.Disconnect()
	case 1:
		y.Disconnect()
		x.w.Fault("abrupt_disconnect")
	case 2:
		y.Disconnect()
		x.w.Fault("abrupt_disconnect")
		time.Sleep(16 * time.Second) // it expires
	}
}
