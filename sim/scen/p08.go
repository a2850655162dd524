package scen

import (
	"fmt"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

// P08: notification messages are numbered without gaps or reuse, stay
// available until acknowledged, and can be recovered after a lost connection.
func init() { register(&Scenario{Prop: "P08", Gen: genP08, Run: runP08}) }

func genP08(g Gen, p *Plan) {
	nc := int(g.Range(1, 2))
	p.P["clients"] = int64(nc)
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, 0, int64(g.N(len(secs))))
		p.P[fmt.Sprintf("subs%d", a)] = g.Range(1, 3)
		p.P[fmt.Sprintf("ack%d", a)] = g.Range(0, 3)
		p.P[fmt.Sprintf("target%d", a)] = g.Range(1, 5)
		for i := 0; i < 3; i++ {
			p.P[fmt.Sprintf("int%d_%d", a, i)] = g.Pick(125, 125, 200, 500)
			p.P[fmt.Sprintf("keep%d_%d", a, i)] = g.Range(1, 6)
			p.P[fmt.Sprintf("maxn%d_%d", a, i)] = g.Pick(0, 0, 1, 3)
		}
	}
	p.P["workers"] = g.Pick(1, 2, 4)
	n := int(g.Range(10, 50))
	if p.Tier == "thorough" {
		n = int(g.Range(10, 120))
	}
	kinds := []string{"set", "set", "set", "burst", "probe", "probe", "pause", "resume", "wait", "pubmode", "modsub", "newsub", "delsub", "acks"}
	if g.P(20) {
		kinds = []string{"set", "set", "set", "set", "probe", "wait"}
	}
	cuts := g.P(60)
	for i := 0; i < n; i++ {
		o := Op{A: g.N(nc), D: g.Pick(0, 0, 1000, 20000, 130000, 130000, 400000), K: kinds[g.N(len(kinds))], I: []int64{int64(g.U64() % 1000000), int64(g.U64() % 1000)}}
		if cuts && g.P(10) {
			o.K = []string{"cut", "cutafter", "stall"}[g.N(3)]
			o.I = []int64{g.Pick(1, 30, 200, 2000, 20000), g.Range(0, 1), g.Pick(0, 1000, 50000, 300000, 2000000)}
		}
		if g.P(10) {
			o.A = nc
			o.K = "set"
		}
		p.Ops = append(p.Ops, o)
	}
	if g.P(6) { // many unacknowledged messages
		a := g.N(nc)
		p.P[fmt.Sprintf("ack%d", a)] = 1
		p.P[fmt.Sprintf("int%d_0", a)] = 125
		p.Ops = append(p.Ops, Op{A: a, K: "flood", I: []int64{g.Range(100, 160)}})
	}
}

const p08Vars = 3

type p08 struct {
	w    *World
	s    *Srv
	vars []*server.VariableNode
	n    []int64
}

func (x *p08) set(i int) {
	x.w.mu.Lock()
	x.n[i]++
	v := x.n[i]
	x.w.mu.Unlock()
	x.vars[i].SetValue(ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0))
}

func runP08(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers"))})
	x := &p08{w: w, s: s, n: make([]int64, p08Vars)}
	for i := 0; i < p08Vars; i++ {
		x.vars = append(x.vars, s.AddVar(fmt.Sprintf("V%d", i), int64(0), ua.DataTypeIDInt64, -1, VarOpts{}))
	}
	w.StartSched()
	s.Serve()
	nc := int(w.P("clients"))
	w.Actors(nc+1, func(a int, ops []Op) {
		if a == nc {
			for _, o := range ops {
				o.Sleep()
				x.set(int(o.Arg(0)) % p08Vars)
			}
			return
		}
		x.client(a, ops)
	})
	w.NonTrivial()
}

func (x *p08) client(a int, ops []Op) {
	w, s := x.w, x.s
	k := func(f string) int64 { return w.P(fmt.Sprintf(f, a)) }
	b := s.NewSubber(fmt.Sprintf("c%d", a), RawOpts{Sec: int(k("sec%d")), Timeout: 3600000})
	b.AckMode = k("ack%d")
	last := map[uint32]int64{} // by handle
	owner := map[uint32]uint32{}
	nh := uint32(0)
	b.OnNotif = func(n Notif) {
		v, ok := n.Value.Value.(int64)
		if !ok || owner[n.Handle] != n.Sub {
			b.fail("content", "subscription %d message %d: handle %d value %v", n.Sub, n.Seq, n.Handle, n.Value.Value)
		}
		if l, ok := last[n.Handle]; ok && v <= l {
			b.fail("order", "subscription %d message %d: item %d reports %d after %d", n.Sub, n.Seq, n.Handle, v, l)
		}
		last[n.Handle] = v
	}
	varOf := map[uint32]int{}
	mk := func(i int) *SubRec {
		rec := b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(w.P(fmt.Sprintf("int%d_%d", a, i))), RequestedLifetimeCount: 20000,
			RequestedMaxKeepAliveCount: uint32(w.P(fmt.Sprintf("keep%d_%d", a, i))), MaxNotificationsPerPublish: uint32(w.P(fmt.Sprintf("maxn%d_%d", a, i))), PublishingEnabled: true, Priority: byte(i)})
		var l []ua.MonitoredItemCreateRequest
		b.Run(func() {
			for j := 0; j < p08Vars; j++ {
				nh++
				owner[nh] = rec.ID
				varOf[nh] = j
				l = append(l, monItem(fmt.Sprintf("V%d", j), nh, 0, 1000, true, nil, ua.MonitoringModeReporting))
			}
		})
		b.CreateItems(rec.ID, ua.TimestampsToReturnBoth, l...)
		return rec
	}
	var subs []*SubRec
	enabled := map[uint32]bool{}
	for i := 0; i < int(k("subs%d")); i++ {
		r := mk(i)
		subs = append(subs, r)
		enabled[r.ID] = true
	}
	b.SetTarget(int(k("target%d")))
	hurt := false
	fix := func() {
		if hurt {
			b.Reconnect()
			hurt = false
		}
	}
	// safe runs a request that a fault may break
	safe := func(req ua.ServiceRequest) (ua.ServiceResponse, bool) {
		r, err := b.Do(req)
		if err != nil {
			if !hurt {
				b.fail("no-answer", "%T: %v\n%s", req, err, Stacks())
			}
			fix()
			return nil, false
		}
		return r, true
	}
	for _, o := range ops {
		o.Sleep()
		w.Count(o.K)
		if b.C.Err() != nil {
			if !hurt {
				b.fail("connection-lost", "without a fault: %v\n%s", b.C.Err(), Stacks())
			}
			fix()
		}
		switch o.K {
		case "set":
			x.set(int(o.Arg(0)) % p08Vars)
		case "burst":
			for i := 0; i < 6; i++ {
				x.set((int(o.Arg(0)) + i) % p08Vars)
				time.Sleep(time.Duration(o.Arg(1)) * 300 * time.Microsecond)
			}
		case "flood":
			fix()
			for i := 0; i < int(o.Arg(0)); i++ {
				x.set(i % p08Vars)
				time.Sleep(260 * time.Millisecond)
			}
		case "probe":
			b.Probe(int(o.Arg(0)))
		case "pause":
			b.SetTarget(0)
		case "resume":
			b.SetTarget(int(o.Arg(0)%5) + 1)
		case "acks":
			b.Run(func() { b.AckMode = o.Arg(0) % 4 })
		case "wait":
			time.Sleep(time.Duration(o.Arg(1)) * 2 * time.Millisecond)
		case "pubmode":
			i := int(o.Arg(0)) % len(subs)
			on := o.Arg(1)%2 == 0
			if _, ok := safe(&ua.SetPublishingModeRequest{PublishingEnabled: on, SubscriptionIDs: []uint32{subs[i].ID}}); ok {
				enabled[subs[i].ID] = on
			} else {
				safe(&ua.SetPublishingModeRequest{PublishingEnabled: on, SubscriptionIDs: []uint32{subs[i].ID}})
				enabled[subs[i].ID] = on
			}
		case "modsub":
			i := int(o.Arg(0)) % len(subs)
			q := func() *ua.ModifySubscriptionRequest {
				return &ua.ModifySubscriptionRequest{SubscriptionID: subs[i].ID, RequestedPublishingInterval: float64(125 + 25*(o.Arg(1)%9)), RequestedLifetimeCount: 20000, RequestedMaxKeepAliveCount: uint32(o.Arg(1)%5) + 1, MaxNotificationsPerPublish: subs[i].MaxN}
			}
			r, ok := safe(q())
			if !ok {
				r, ok = safe(q())
			}
			if ok {
				if m, k := r.(*ua.ModifySubscriptionResponse); k && m.ServiceResult == ua.Good {
					b.Run(func() {
						subs[i].Interval = time.Duration(m.RevisedPublishingInterval * 1e6)
						subs[i].Keep = m.RevisedMaxKeepAliveCount
					})
				} else {
					b.fail("refused", "modify: %s", sr(r, nil))
				}
			}
		case "newsub":
			if !hurt && len(subs) < 5 {
				r := mk(int(o.Arg(0)) % 3)
				subs = append(subs, r)
				enabled[r.ID] = true
			}
		case "delsub":
			if hurt || len(subs) < 2 {
				continue
			}
			i := int(o.Arg(0)) % len(subs)
			b.Run(func() { subs[i].Deleting = true })
			r, ok := safe(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{subs[i].ID}})
			if !ok {
				return
			}
			if d, k := r.(*ua.DeleteSubscriptionsResponse); !k || len(d.Results) != 1 || d.Results[0] != ua.Good {
				b.fail("refused", "delete: %s", sr(r, nil))
			}
			b.Run(func() { subs[i].Deleted = true })
			subs = append(subs[:i:i], subs[i+1:]...)
		case "cut":
			hurt = true
			b.C.Link.Cut()
			time.Sleep(time.Duration(o.Arg(2)) * time.Microsecond)
			fix()
		case "cutafter":
			hurt = true
			b.C.Link.CutAfter(int(o.Arg(1)), o.Arg(0))
			time.Sleep(time.Duration(o.Arg(2)) * time.Microsecond)
		case "stall":
			l := b.C.Link
			l.Stall(int(o.Arg(1)))
			time.Sleep(time.Duration(o.Arg(2)) * time.Microsecond)
			l.Unstall(int(o.Arg(1)))
		}
	}
	if hurt {
		b.C.Link.Cut()
		fix()
	}
	for _, r := range subs {
		if !enabled[r.ID] {
			b.Must(&ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: []uint32{r.ID}})
		}
	}
	b.Settle(20 * time.Second)
	b.CheckAnomalies()
	// everything that was reported arrived; the last value is known
	b.Run(func() {
		for h, id := range owner {
			sub := b.subs[id]
			if sub.Deleted {
				continue
			}
			if _, ok := last[h]; !ok {
				b.fail("convergence", "item %d of subscription %d never reported a value", h, id)
			}
		}
	})
	w.State(a, b.answered, b.gen, b.lost)
	b.C.Disconnect()
}
