package scen

import (
	"fmt"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P11: while the client keeps publish requests outstanding a subscription is
// heard of within keep-alive time, idle subscriptions do not chatter, and a
// subscription ends only after its lifetime passed without publish requests,
// which the client is told exactly once.
func init() { register(&Scenario{Prop: "P11", Gen: genP11, Run: runP11}) }

func genP11(g Gen, p *Plan) {
	nc := int(g.Range(1, 2))
	p.P["clients"] = int64(nc)
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, 0, int64(g.N(len(secs))))
		p.P[fmt.Sprintf("subs%d", a)] = g.Range(1, 4)
		for i := 0; i < 4; i++ {
			p.P[fmt.Sprintf("int%d_%d", a, i)] = g.Pick(125, 250, 500, 1000, 1000, 2000, 5000, 0)
			p.P[fmt.Sprintf("keep%d_%d", a, i)] = g.Pick(1, 2, 3, 5, 10, 0, 700)
			p.P[fmt.Sprintf("life%d_%d", a, i)] = g.Pick(0, 10, 20, 40, 80, 100)
			p.P[fmt.Sprintf("items%d_%d", a, i)] = g.Range(0, 1)
		}
	}
	p.P["workers"] = g.Pick(1, 2, 4)
	n := int(g.Range(4, 14))
	if p.Tier == "thorough" {
		n = int(g.Range(4, 40))
	}
	kinds := []string{"set", "run", "run", "pubmode", "modify", "starve", "starve", "starve", "newsub", "delsub", "stall"}
	for i := 0; i < n; i++ {
		o := Op{A: g.N(nc), D: g.Pick(0, 1000, 130000, 700000), K: kinds[g.N(len(kinds))], I: []int64{int64(g.U64() % 1000000), int64(g.U64() % 1000), int64(g.U64() % 1000)}}
		p.Ops = append(p.Ops, o)
	}
	genWall(g, p, 30000000)
}

type p11sub struct {
	rec     *SubRec
	first   bool          // nothing received yet
	due     time.Duration // next message is due
	prev    time.Duration // previous message
	minGap  time.Duration // since prev a keep-alive may come after
	starved bool
	lo, hi  time.Duration // not ended before lo, ended by hi, when starved
	gone    bool          // deleted by the client
	item    bool
}

type p11 struct {
	w       *World
	s       *Srv
	v       *server.VariableNode
	n       int64
	b       *Subber
	subs    map[uint32]*p11sub
	hold    bool          // deadlines suspended
	bunch   time.Duration // arrivals are bunched until then
	closing bool
}

const (
	p11slack = 2500 * time.Millisecond
	p11early = 900 * time.Millisecond
)

func runP11(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers"))})
	v := s.AddVar("V", int64(0), ua.DataTypeIDInt64, -1, VarOpts{})
	w.StartSched()
	w.WallJumps()
	s.Serve()
	w.Actors(int(w.P("clients")), func(a int, ops []Op) {
		x := &p11{w: w, s: s, v: v, subs: map[uint32]*p11sub{}}
		x.client(a, ops)
	})
	s.Alive("dead")
	w.NonTrivial()
}

func (x *p11) renew(p *p11sub, now time.Duration) {
	r := p.rec
	d := now + time.Duration(r.Keep+1)*r.Interval + p11slack
	if p.first {
		d = now + r.Interval + p11slack
	}
	if d > p.due {
		p.due = d
	}
}

// touched: the server restarted the lifetime somewhere between t0 and t1.
func (p *p11sub) touched(t0, t1 time.Duration) {
	r := p.rec
	p.lo = t0 + time.Duration(r.Life)*r.Interval - p11early
	p.hi = t1 + time.Duration(r.Life+r.Keep+2)*r.Interval + p11slack
}

func (x *p11) live() (l []*p11sub) {
	for _, id := range x.b.ids() {
		if p := x.subs[id]; p != nil && !p.gone && p.rec.Status == 0 {
			l = append(l, p)
		}
	}
	return
}

// check looks for overdue messages; runs in the worker.
func (x *p11) check() {
	if x.hold {
		return
	}
	now := x.w.Now()
	for _, p := range x.live() {
		if now > p.due {
			x.b.fail("silent", "subscription %d (interval %v keep-alive %d) was not heard of since %v although %d publish requests are outstanding\n%s", p.rec.ID, p.rec.Interval, p.rec.Keep, p.prev, x.b.out, Stacks())
		}
	}
}

func (x *p11) watch(d time.Duration) {
	end := x.w.Now() + d
	for x.w.Now() < end {
		step := 500 * time.Millisecond
		if r := end - x.w.Now(); r < step {
			step = r
		}
		time.Sleep(step)
		x.b.Run(x.check)
		if x.b.C.Err() != nil {
			x.b.fail("connection-lost", "without a fault: %v\n%s", x.b.C.Err(), Stacks())
		}
	}
}

func (x *p11) target() {
	x.b.Run(func() {
		n := len(x.live())
		x.b.target = 3*n + 3
		if n == 0 {
			x.b.target = 0
		}
	})
}

func (x *p11) client(a int, ops []Op) {
	w, s := x.w, x.s
	k := func(f string, i int) int64 { return w.P(fmt.Sprintf(f, a, i)) }
	b := s.NewSubber(fmt.Sprintf("c%d", a), RawOpts{Sec: int(w.P(fmt.Sprintf("sec%d", a))), Timeout: 3600000})
	x.b = b
	b.Hint = 4000000000
	b.OnMsg = func(rec *SubRec, r *ua.PublishResponse) {
		p := x.subs[rec.ID]
		if p == nil {
			return
		}
		now := w.Now()
		if rec.Status != 0 {
			if rec.Status != ua.BadTimeout {
				b.fail("wrong-end", "subscription %d ended with %v", rec.ID, rec.Status)
			}
			if !p.starved || now < p.lo {
				b.fail("early-end", "subscription %d (interval %v, lifetime count %d) ended at %v although publish requests were available until %v; it cannot expire before %v", rec.ID, rec.Interval, rec.Life, now, p.prev, p.lo)
			}
			w.Count("expired")
			return
		}
		ka := len(r.NotificationMessage.NotificationData) == 0
		if ka && !p.first && now > x.bunch && now-p.prev < p.minGap-p11early {
			b.fail("chatter", "subscription %d (interval %v keep-alive %d) sent a keep-alive %v after its previous message", rec.ID, rec.Interval, rec.Keep, now-p.prev)
		}
		p.first = false
		p.prev = now
		p.minGap = time.Duration(rec.Keep-1) * rec.Interval
		if now < x.bunch { // it may have been on its way for a while
			p.minGap = 0
		}
		p.due = 0
		x.renew(p, now)
		p.touched(now-3*time.Second, now)
		if p.starved && now > p.hi+p11slack {
			b.fail("no-end", "subscription %d still sends at %v, after its lifetime passed at %v", rec.ID, now, p.hi)
		}
	}
	b.OnFault = func(code ua.StatusCode, q *raw.Pending) {
		if x.closing {
			return
		}
		if code == ua.BadNoSubscription && len(x.live()) == 0 {
			b.target = 0
			w.Count("no_subscription")
			return
		}
		b.fail("publish-refused", "a publish request was answered %v with %d live subscriptions", code, len(x.live()))
	}
	nh := uint32(0)
	mk := func(i int) {
		i %= 4
		t0 := w.Now()
		q := &ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(k("int%d_%d", i)), RequestedLifetimeCount: uint32(k("life%d_%d", i)),
			RequestedMaxKeepAliveCount: uint32(k("keep%d_%d", i)), PublishingEnabled: true}
		rec := b.CreateSub(q)
		x.revised(rec, q.RequestedPublishingInterval, q.RequestedMaxKeepAliveCount, q.RequestedLifetimeCount)
		b.Run(func() {
			p := &p11sub{rec: rec, first: rec.Last == rec.Created, prev: w.Now(), minGap: 0}
			p.touched(t0, w.Now())
			p.due = 0
			x.subs[rec.ID] = p
			x.renew(p, w.Now())
		})
		x.target()
		if k("items%d_%d", i) == 1 {
			nh++
			b.CreateItems(rec.ID, ua.TimestampsToReturnBoth, monItem("V", nh, 0, 1000, true, nil, ua.MonitoringModeReporting))
			b.Run(func() { x.subs[rec.ID].item = true })
		}
	}
	for i := 0; i < int(w.P(fmt.Sprintf("subs%d", a))); i++ {
		mk(i)
	}
	pick := func(o Op) *p11sub {
		var p *p11sub
		b.Run(func() {
			if l := x.live(); len(l) > 0 {
				p = l[int(o.Arg(0))%len(l)]
			}
		})
		return p
	}
	for _, o := range ops {
		x.watch(time.Duration(o.D) * time.Microsecond)
		if w.Now() > 35*time.Minute { // channel token and session last an hour
			break
		}
		w.Count(o.K)
		p := pick(o)
		if p == nil && o.K != "newsub" && o.K != "set" {
			continue
		}
		switch o.K {
		case "set":
			x.set()
		case "run":
			x.watch(time.Duration(1+o.Arg(1)%3) * (time.Duration(p.rec.Keep+1)*p.rec.Interval + time.Second))
		case "pubmode":
			t0 := w.Now()
			b.Must(&ua.SetPublishingModeRequest{PublishingEnabled: o.Arg(1)%2 == 0, SubscriptionIDs: []uint32{p.rec.ID}})
			b.Run(func() { p.touched(t0, w.Now()) })
		case "modify":
			i := int(o.Arg(1)) % 4
			x.modify(p, float64(k("int%d_%d", i)), uint32(k("keep%d_%d", (i+int(o.Arg(2)))%4)), uint32(k("life%d_%d", i)))
		case "newsub":
			if len(x.subs) < 7 {
				mk(int(o.Arg(0)))
			}
		case "delsub":
			b.Run(func() { p.rec.Deleting = true; p.gone = true })
			r := b.Must(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{p.rec.ID}}).(*ua.DeleteSubscriptionsResponse)
			if len(r.Results) != 1 || r.Results[0] != ua.Good {
				b.fail("early-end", "deleting the live subscription %d gave %v", p.rec.ID, r.Results)
			}
			b.Run(func() { p.rec.Deleted = true })
			x.target()
		case "stall":
			b.Run(func() { x.hold = true; x.bunch = w.Now() + time.Hour })
			dir := int(o.Arg(1)) % 2
			b.C.Link.Stall(dir)
			time.Sleep(time.Duration(o.Arg(2)) * 3 * time.Millisecond)
			b.C.Link.Unstall(dir)
			b.Run(func() {
				x.hold = false
				x.bunch = w.Now() + p11slack
				for _, p := range x.live() {
					x.renew(p, w.Now()+p11slack)
				}
			})
		case "starve":
			x.starve(o)
		}
	}
	// a last calm period
	var d time.Duration
	b.Run(func() {
		for _, p := range x.live() {
			if t := time.Duration(p.rec.Keep+2) * p.rec.Interval; t > d {
				d = t
			}
		}
	})
	x.watch(d + 2*p11slack)
	b.CheckAnomalies()
	w.State(a, b.answered, len(x.subs))
	b.Run(func() { x.closing = true; b.target = 0 })
	b.Must(&ua.CloseSessionRequest{DeleteSubscriptions: true})
	b.C.Disconnect()
}

func (x *p11) set() {
	x.w.mu.Lock()
	x.n++
	v := x.n
	x.w.mu.Unlock()
	x.v.SetValue(ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0))
}

// revised checks the values the server promises.
func (x *p11) revised(r *SubRec, iv float64, keep, life uint32) {
	ms := float64(r.Interval) / 1e6
	if iv >= 125 && iv <= 60000 && ms != iv || ms < 125 || ms > 60000 {
		x.b.fail("revised", "publishing interval %v was revised to %v", iv, ms)
	}
	if keep > 0 && float64(keep)*ms <= 60000 && r.Keep != keep || r.Keep == 0 || float64(r.Keep-1)*ms > 60000 {
		x.b.fail("revised", "keep-alive count %d (interval %v) was revised to %d", keep, ms, r.Keep)
	}
	if life >= 3*r.Keep && float64(life)*ms >= 10000 && float64(life)*ms <= 3600000 && r.Life != life || r.Life < 3*r.Keep {
		x.b.fail("revised", "lifetime count %d (interval %v keep-alive %d) was revised to %d", life, ms, r.Keep, r.Life)
	}
}

func (x *p11) modify(p *p11sub, iv float64, keep, life uint32) {
	b := x.b
	t0 := x.w.Now()
	r := b.Must(&ua.ModifySubscriptionRequest{SubscriptionID: p.rec.ID, RequestedPublishingInterval: iv, RequestedMaxKeepAliveCount: keep, RequestedLifetimeCount: life}).(*ua.ModifySubscriptionResponse)
	b.Run(func() {
		rec := p.rec
		oi, ok := rec.Interval, rec.Keep
		rec.Interval = time.Duration(r.RevisedPublishingInterval * float64(time.Millisecond))
		rec.Keep = r.RevisedMaxKeepAliveCount
		rec.Life = r.RevisedLifetimeCount
		x.revised(rec, iv, keep, life)
		p.touched(t0, x.w.Now())
		x.renew(p, x.w.Now())
		// the next keep-alive may follow the old or the new rhythm
		mi, mk := oi, ok
		if rec.Interval < mi {
			mi = rec.Interval
		}
		if rec.Keep < mk {
			mk = rec.Keep
		}
		if g := time.Duration(mk-1) * mi; g < p.minGap {
			p.minGap = g
		}
	})
}

// sips sends a single publish request now and then, and returns until when to stay silent after that.
func (x *p11) sips(o Op) time.Duration {
	b, w := x.b, x.w
	span := func() (lo, hi time.Duration) {
		b.Run(func() {
			for _, p := range x.live() {
				if lo == 0 || p.lo < lo {
					lo = p.lo
				}
				if p.hi > hi {
					hi = p.hi
				}
			}
		})
		return
	}
	for i := 0; i <= int(o.Arg(0))%4; i++ {
		lo, _ := span()
		if d := lo - w.Now(); d > 0 {
			time.Sleep(time.Duration(float64(d) * float64(500+o.Arg(2)/2) / 1000))
		}
		if (int(o.Arg(2))+i)%3 != 0 {
			x.set()
			time.Sleep(time.Duration(o.Arg(0)%700) * time.Millisecond)
		}
		b.Run(func() { b.target = 1; b.pump() })
		b.Run(func() { b.target = 0 })
		time.Sleep(3 * time.Second)
		w.Count("sip")
	}
	lo, hi := span()
	switch o.Arg(0) % 3 {
	case 0:
		return lo
	case 1:
		return hi
	}
	return w.Now() + time.Duration(float64(hi-w.Now())*float64(o.Arg(2))/1000)
}

// starve leaves the session without publish requests for a while.
func (x *p11) starve(o Op) {
	b, w := x.b, x.w
	b.Run(func() { b.target = 0 })
	// the outstanding requests are used up by keep-alives and data
	for i := 0; b.Out() > 0; i++ {
		x.watch(time.Second)
		if i > 3000 {
			b.fail("silent", "%d publish requests are never used\n%s", b.Out(), Stacks())
		}
		var l int
		b.Run(func() { l = len(x.live()) })
		if l == 0 {
			return
		}
	}
	var lo, hi time.Duration
	b.Run(func() {
		x.hold = true
		for _, p := range x.live() {
			p.starved = true
			p.rec.Lax = true
			if lo == 0 || p.lo < lo {
				lo = p.lo
			}
			if p.hi > hi {
				hi = p.hi
			}
		}
	})
	now := w.Now()
	var until time.Duration
	switch o.Arg(1) % 6 {
	case 0: // well before the first ends
		until = now + time.Duration(float64(lo-now)*float64(o.Arg(2))/1000)
	case 1: // just before the first ends
		until = lo
	case 2: // after all ended
		until = hi
	case 3: // anywhere
		until = now + time.Duration(float64(hi-now)*float64(o.Arg(2))/1000)
	case 4: // other services keep it alive
		until = hi
	}
	if o.Arg(1)%6 == 4 {
		// the victim is kept alive by ModifySubscription, SetPublishingMode or Republish
		var p *p11sub
		b.Run(func() {
			if l := x.live(); len(l) > 0 {
				p = l[int(o.Arg(0))%len(l)]
			}
		})
		for i := 0; w.Now() < until; i++ {
			var step time.Duration
			b.Run(func() { step = time.Duration(p.rec.Life)*p.rec.Interval*2/3 - p11early })
			time.Sleep(step)
			t0 := w.Now()
			switch (int(o.Arg(2)) + i) % 3 {
			case 0:
				b.Must(&ua.SetPublishingModeRequest{PublishingEnabled: i%2 == 0, SubscriptionIDs: []uint32{p.rec.ID}})
				b.Run(func() { p.touched(t0, w.Now()) })
			case 1:
				x.modify(p, float64(p.rec.Interval)/1e6, p.rec.Keep, p.rec.Life)
			case 2:
				r, err := b.Do(&ua.RepublishRequest{SubscriptionID: p.rec.ID, RetransmitSequenceNumber: 4000000})
				if err != nil || r.Header().ServiceResult != ua.BadMessageNotAvailable {
					b.fail("early-end", "subscription %d was used %v ago and Republish answers %s", p.rec.ID, step, sr(r, err))
				}
				b.Run(func() { p.touched(t0, w.Now()) })
			}
			w.Count("kept_alive")
		}
	} else {
		if o.Arg(1)%6 == 5 {
			until = x.sips(o)
		}
		for w.Now() < until {
			d := until - w.Now()
			if d > 5*time.Second {
				d = 5 * time.Second
			}
			time.Sleep(d)
			if o.Arg(0)%3 == 0 {
				x.set()
			}
		}
	}
	// resume and look what is left
	t := w.Now()
	var must, dead []*p11sub
	b.Run(func() {
		for _, p := range x.live() {
			switch {
			case t <= p.lo:
				must = append(must, p)
			case t >= p.hi:
				dead = append(dead, p)
			}
			p.due = 0
			p.minGap = 0
			x.renew(p, t)
		}
		x.hold = false
	})
	w.CountN("starved_alive", len(must))
	w.CountN("starved_dead", len(dead))
	x.b.Run(func() { b.target = 3*len(x.live()) + 3 })
	for i := 0; i < 20; i++ {
		time.Sleep(500 * time.Millisecond)
		var l int
		b.Run(func() { l = len(x.live()) })
		if l == 0 {
			break
		}
	}
	b.Run(func() {
		for _, p := range dead {
			if p.rec.Status == 0 {
				b.fail("no-end", "subscription %d (interval %v keep-alive %d lifetime %d) had no publish request from %v to %v and its end was not reported", p.rec.ID, p.rec.Interval, p.rec.Keep, p.rec.Life, p.prev, t)
			}
		}
		for _, p := range must {
			if p.rec.Status != 0 {
				b.fail("early-end", "subscription %d ended early", p.rec.ID)
			}
		}
		for _, p := range x.live() {
			p.starved = false
			p.rec.Lax = false
		}
	})
	// an ended subscription is gone for every service
	for _, p := range dead {
		for _, q := range []ua.ServiceRequest{
			&ua.RepublishRequest{SubscriptionID: p.rec.ID, RetransmitSequenceNumber: 1},
			&ua.ModifySubscriptionRequest{SubscriptionID: p.rec.ID, RequestedPublishingInterval: 1000, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 3},
			&ua.CreateMonitoredItemsRequest{SubscriptionID: p.rec.ID, ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem("V", 1, 0, 1, true, nil, ua.MonitoringModeReporting)}},
		} {
			r, err := b.Do(q)
			if err != nil || r.Header().ServiceResult != ua.BadSubscriptionIDInvalid {
				b.fail("zombie", "%T for the ended subscription %d: %s", q, p.rec.ID, sr(r, err))
			}
		}
	}
	// what must live is heard of in time
	b.Run(func() {
		for _, p := range x.live() {
			x.renew(p, w.Now())
		}
	})
	x.target()
}
