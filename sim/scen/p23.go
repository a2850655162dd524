package scen

import (
	"fmt"
	"sort"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P23: every publish request is answered once, for the right reason and in turn.
func init() { register(&Scenario{Prop: "P23", Gen: genP23, Run: runP23}) }

func genP23(g Gen, p *Plan) {
	nc := int(g.Range(1, 3))
	p.P["clients"] = int64(nc)
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, 0, int64(g.N(len(secs))))
		p.P[fmt.Sprintf("subs%d", a)] = g.Range(0, 3)
		p.P[fmt.Sprintf("skew%d", a)] = g.Pick(0, 0, 0, -3600, -7200, 3600, 86400, -20)
		p.P[fmt.Sprintf("hint%d", a)] = g.Pick(0, 600000, 600000, 5000, 20000)
		p.P[fmt.Sprintf("multi%d", a)] = g.Pick(0, 1)
		p.P[fmt.Sprintf("ack%d", a)] = g.Pick(0, 3, 3)
	}
	p.P["workers"] = g.Pick(1, 2, 4)
	n := int(g.Range(6, 24))
	if p.Tier == "thorough" {
		n = int(g.Range(6, 60))
	}
	kinds := []string{"pub", "pub", "pub", "flood", "set", "set", "wait", "wait", "newsub", "delsub", "delall", "hint", "late", "skew", "cut", "expire", "expire"}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{A: g.N(nc), D: g.Pick(0, 0, 1000, 60000, 300000, 1100000), K: kinds[g.N(len(kinds))], I: []int64{int64(g.U64() % 1000000), int64(g.U64() % 1000)}})
	}
	genWall(g, p, 10000000)
}

type p23 struct {
	w      *World
	s      *Srv
	v      *server.VariableNode
	n      int64
	b      *Subber
	out    map[uint32]*p23req
	subs   []*SubRec
	prio   map[uint32]byte
	multi  bool          // ever more than one subscription at a time
	noneAt time.Duration // since when there is no subscription (0: there is one)
	some   time.Duration // last time there was one
	closed bool
	left   bool     // requests of a lost connection may still wait
	order  []uint32 // subscriptions answered, in order of arrival
}

type p23req struct {
	p    *raw.Pending
	hint time.Duration
	at   time.Duration
}

func runP23(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers"))})
	v := s.AddVar("V", int64(0), ua.DataTypeIDInt64, -1, VarOpts{})
	w.StartSched()
	w.WallJumps()
	s.Serve()
	w.Actors(int(w.P("clients")), func(a int, ops []Op) {
		x := &p23{w: w, s: s, v: v, out: map[uint32]*p23req{}, prio: map[uint32]byte{}}
		x.client(a, ops)
	})
	s.Alive("dead")
	w.NonTrivial()
}

// send sends publish requests; runs in the worker.
func (x *p23) send(n int) {
	for i := 0; i < n; i++ {
		p := x.b.publish(x.b.takeAcks())
		x.out[p.ReqID] = &p23req{p: p, hint: time.Duration(x.b.Hint) * time.Millisecond, at: x.w.Now()}
		x.w.Count("publish")
	}
}

func (x *p23) done(p *raw.Pending, what string) *p23req {
	r := x.out[p.ReqID]
	if r == nil {
		x.b.fail("twice", "publish request %d is answered (%s) again", p.ReqID, what)
	}
	delete(x.out, p.ReqID)
	return r
}

func (x *p23) oldest() (id uint32) {
	for i := range x.out {
		if id == 0 || i < id {
			id = i
		}
	}
	return
}

func (x *p23) live() (l []*SubRec) {
	for _, s := range x.subs {
		if !s.Deleted && !s.Deleting && s.Status == 0 {
			l = append(l, s)
		}
	}
	return
}

// mark notes whether there is a subscription; runs in the worker.
func (x *p23) mark() {
	n := 0
	for _, s := range x.subs {
		if !s.Deleted {
			n++
		}
	}
	if n > 1 {
		x.multi = true
	}
	if n == 0 {
		if x.noneAt == 0 {
			x.noneAt = x.w.Now()
		}
	} else {
		x.noneAt = 0
		x.some = x.w.Now()
	}
}

const p23slack = 2500 * time.Millisecond

func (x *p23) check() {
	now := x.w.Now()
	x.mark()
	if x.noneAt != 0 && now > x.noneAt+p23slack {
		for _, r := range x.out {
			if now > r.at+p23slack {
				x.b.fail("unanswered", "publish request %d was sent at %v; the session has no subscription since %v and the request is not answered\n%s", r.p.ReqID, r.at, x.noneAt, Stacks())
			}
		}
	}
	n := 0
	for _, r := range x.out {
		if now > r.at+p23slack {
			n++
		}
	}
	if n > 64 {
		x.b.fail("unanswered", "%d publish requests are kept waiting", n)
	}
}

func (x *p23) wait(d time.Duration) {
	end := x.w.Now() + d
	for x.w.Now() < end {
		step := end - x.w.Now()
		if step > time.Second {
			step = time.Second
		}
		time.Sleep(step)
		x.b.Run(x.check)
		if x.b.C.Err() != nil {
			x.b.fail("connection-lost", "without a fault: %v\n%s", x.b.C.Err(), Stacks())
		}
	}
}

func (x *p23) client(a int, ops []Op) {
	w, s := x.w, x.s
	k := func(f string) int64 { return w.P(fmt.Sprintf(f, a)) }
	b := s.NewSubber(fmt.Sprintf("c%d", a), RawOpts{Sec: int(k("sec%d")), Timeout: 3600000})
	x.b = b
	b.C.Hint = 0
	b.Hint = uint32(k("hint%d"))
	b.AckMode = k("ack%d")
	b.Skew = time.Duration(k("skew%d")) * time.Second
	// every publish response passes through here before it is judged as a message
	b.OnMsg = func(rec *SubRec, r *ua.PublishResponse) { x.order = append(x.order, rec.ID) }
	b.OnAnswer = func(p *raw.Pending) {
		r := x.done(p, "with a notification")
		if r.hint > 0 && w.Now() > r.at+r.hint+p23slack {
			b.fail("late-use", "publish request %d with a timeout of %v was used %v after it was sent", p.ReqID, r.hint, w.Now()-r.at)
		}
		if !x.multi {
			// the refusal of one too many may be overtaken on its way
			if o := x.oldest(); o != 0 && o < p.ReqID && x.last() < o+64 {
				b.fail("out-of-turn", "publish request %d was used before request %d", p.ReqID, o)
			}
		}
	}
	b.OnFault = func(code ua.StatusCode, p *raw.Pending) {
		r := x.done(p, code.Error())
		now := w.Now()
		x.mark()
		w.Count("fault " + code.Error())
		switch code {
		case ua.BadNoSubscription:
			deleting := false
			for _, s := range x.subs {
				if s.Deleting {
					deleting = true
				}
			}
			if x.noneAt == 0 && x.some > r.at && !deleting && len(x.live()) > 0 && w.Now() > x.live()[0].Created+p23slack {
				b.fail("wrong-fault", "publish request %d: %v although the session has %d subscriptions", p.ReqID, code, len(x.live()))
			}
		case ua.BadTooManyPublishRequests:
			later := 0
			for id := range x.out {
				if id > p.ReqID {
					later++
				}
			}
			if p.ReqID+64 > x.last() {
				b.fail("wrong-fault", "publish request %d: %v with fewer than 64 younger requests (last %d)", p.ReqID, code, x.last())
			}
			if o := x.oldest(); !x.multi && o != 0 && o < p.ReqID {
				b.fail("out-of-turn", "publish request %d was refused as one too many before request %d", p.ReqID, o)
			}
		case ua.BadTimeout:
			if r.hint == 0 || now < r.at+r.hint-100*time.Millisecond {
				b.fail("wrong-fault", "publish request %d: %v %v after it was sent, with a timeout of %v (client clock off by %v)", p.ReqID, code, now-r.at, r.hint, b.Skew)
			}
		case ua.BadSessionClosed:
			if !x.closed {
				b.fail("wrong-fault", "publish request %d: %v in an open session", p.ReqID, code)
			}
		default:
			b.fail("wrong-fault", "publish request %d: %v", p.ReqID, code)
		}
	}
	nh := uint32(0)
	mk := func(o int64) {
		iv := []float64{125, 250, 500, 1000, 3000}[o%5]
		keep := uint32(o/5%3) + 1
		pr := byte(o / 15 % 4)
		rec := b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: iv, RequestedLifetimeCount: 20000, RequestedMaxKeepAliveCount: keep, PublishingEnabled: true, Priority: pr})
		b.Run(func() { x.subs = append(x.subs, rec); x.prio[rec.ID] = pr; x.mark() })
		if o%2 == 0 {
			nh++
			b.CreateItems(rec.ID, ua.TimestampsToReturnBoth, monItem("V", nh, 0, 1000, true, nil, ua.MonitoringModeReporting))
		}
	}
	for i := int64(0); i < k("subs%d"); i++ {
		if i == 0 || k("multi%d") == 1 {
			mk(i*7 + k("hint%d"))
		}
	}
	b.Run(x.mark)
	del := func(l []*SubRec) {
		if len(l) == 0 {
			return
		}
		var ids []uint32
		b.Run(func() {
			for _, s := range l {
				s.Deleting = true
				ids = append(ids, s.ID)
			}
		})
		r := b.Must(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: ids}).(*ua.DeleteSubscriptionsResponse)
		for i, c := range r.Results {
			if c != ua.Good {
				b.fail("refused", "deleting subscription %d: %v", ids[i], c)
			}
		}
		b.Run(func() {
			for _, s := range l {
				s.Deleted = true
				s.Deleting = false
			}
			x.mark()
		})
	}
	liveNow := func() (l []*SubRec) { b.Run(func() { l = x.live() }); return }
	for _, o := range ops {
		x.wait(time.Duration(o.D) * time.Microsecond)
		if w.Now() > 45*time.Minute {
			break
		}
		w.Count(o.K)
		switch o.K {
		case "pub":
			b.Run(func() { x.send(int(o.Arg(0)%6) + 1) })
		case "flood":
			b.Run(func() { x.send(int(o.Arg(0)%20) + 55) })
		case "set":
			w.mu.Lock()
			x.n++
			n := x.n
			w.mu.Unlock()
			x.v.SetValue(ua.NewDataValue(n*10+int64(a), ua.Good, time.Now(), 0, time.Now(), 0))
		case "wait":
			x.wait(time.Duration(o.Arg(1)) * 12 * time.Millisecond)
		case "newsub":
			l := liveNow()
			if len(l) < 4 && (len(l) == 0 || k("multi%d") == 1) {
				mk(o.Arg(0))
			}
		case "delsub":
			if l := liveNow(); len(l) > 0 {
				del(l[:1])
			}
		case "delall":
			del(liveNow())
		case "hint":
			b.Run(func() { b.Hint = []uint32{0, 0, 3000, 8000, 600000}[o.Arg(0)%5] })
		case "skew":
			b.Run(func() { b.Skew = time.Duration([]int64{0, -3600, 3600, -30, 30}[o.Arg(0)%5]) * time.Second })
		case "late":
			x.late()
		case "expire":
			x.expire(o.Arg(0))
		case "cut":
			b.C.Link.Cut()
			time.Sleep(time.Duration(o.Arg(1)) * time.Millisecond)
			b.Reconnect()
			b.Run(func() {
				x.left = x.left || len(x.out) > 0
				x.out = map[uint32]*p23req{}
				b.orders = nil
				x.multi = true // responses lost with the connection leave gaps
			})
			b.C.Hint = 0
		}
	}
	// everything left is answered when the session closes
	b.Run(func() {
		x.closed = true
		for _, s := range x.subs {
			s.Deleting = true
		}
	})
	b.Must(&ua.CloseSessionRequest{DeleteSubscriptions: true})
	time.Sleep(p23slack)
	b.Run(func() {
		if len(x.out) > 0 {
			b.fail("unanswered", "%d publish requests are not answered after CloseSession, first %d", len(x.out), x.oldest())
		}
	})
	b.CheckAnomalies()
	w.State(a, b.answered)
	b.C.Disconnect()
}

func (x *p23) last() (id uint32) {
	for _, q := range x.b.orders {
		if q > id {
			id = q
		}
	}
	return
}

// late lets all subscriptions run out of requests and then serves them one by one.
func (x *p23) late() {
	b, w := x.b, x.w
	var n int
	var d time.Duration
	b.Run(func() {
		n = len(x.out)
		for _, s := range x.live() {
			if t := time.Duration(s.Keep+2) * s.Interval; t > d {
				d = t
			}
		}
	})
	if n > 12 || d == 0 || x.left {
		return
	}
	x.drain()
	x.wait(d + p23slack)
	// now every live subscription is late
	var l []*SubRec
	b.Run(func() { l = x.live(); x.order = nil })
	fast := false
	for _, s := range l {
		if time.Duration(s.Keep)*s.Interval < 2*time.Second {
			fast = true
		}
	}
	for range l {
		b.Run(func() { b.Hint = 600000; x.send(1) })
		for i := 0; ; i++ {
			b.Run(func() { n = len(x.out) })
			if n == 0 {
				break
			}
			if i > 300 {
				b.fail("unanswered", "a publish request is not answered at once although subscriptions are late\n%s", Stacks())
			}
			time.Sleep(10 * time.Millisecond)
		}
		if fast {
			break
		}
	}
	b.Run(func() {
		w.Count("late_rounds")
		var pr []int
		for _, s := range l {
			pr = append(pr, int(x.prio[s.ID]))
		}
		sort.Sort(sort.Reverse(sort.IntSlice(pr)))
		for i, id := range x.order {
			if i < len(pr) && int(x.prio[id]) != pr[i] {
				b.fail("priority", "late subscriptions were served in the order %v with priorities %v", x.order, x.prio)
			}
			if fast {
				break
			}
		}
	})
}

// drain waits until no publish request is left.
func (x *p23) drain() {
	b, n := x.b, 0
	for i := 0; ; i++ {
		b.Run(func() { n = len(x.out) })
		if n == 0 {
			break
		}
		if i > 2000 {
			b.fail("unanswered", "%d publish requests are not used\n%s", n, Stacks())
		}
		x.wait(100 * time.Millisecond)
	}
}

// expire lets subscriptions end for want of publish requests. The next requests report that,
// each with the results of its own acknowledgements.
func (x *p23) expire(o int64) {
	b, w := x.b, x.w
	n, live := 0, 0
	b.Run(func() { n, live = len(x.out), len(x.live()) })
	if n > 12 || x.left || live == 0 && n > 0 {
		return
	}
	x.drain()
	var l []*SubRec
	var d time.Duration
	for i := int64(0); i <= o%2; i++ {
		rec := b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: uint32(3 + o/2%10), RequestedMaxKeepAliveCount: 1, PublishingEnabled: true})
		b.Run(func() { rec.Deleting = true; x.subs = append(x.subs, rec); x.prio[rec.ID] = 0; x.mark() })
		if t := time.Duration(rec.Life+2) * rec.Interval; t > d {
			d = t
		}
		l = append(l, rec)
	}
	x.wait(d + p23slack)
	for range l {
		b.Run(func() {
			for i := int64(0); i < o/20%4; i++ { // of no subscription, or a message never sent
				a := ua.SubscriptionAcknowledgement{SubscriptionID: 9999990, SequenceNumber: 1}
				if lv := x.live(); len(lv) > 0 && (o/80+i)%2 == 0 {
					a = ua.SubscriptionAcknowledgement{SubscriptionID: lv[0].ID, SequenceNumber: lv[0].Next + 1000}
				}
				b.acks = append(b.acks, a)
			}
			b.Hint = 600000
			x.send(1)
		})
		for i := 0; ; i++ {
			b.Run(func() { n = len(x.out) })
			if n == 0 {
				break
			}
			if i > 300 {
				b.fail("unanswered", "a publish request is not answered at once although a subscription ended\n%s", Stacks())
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	b.Run(func() {
		for _, rec := range l {
			if rec.Status != ua.BadTimeout {
				b.fail("not-reported", "subscription %d ended for want of publish requests; %d requests later that was not reported (%v)", rec.ID, len(l), rec.Status)
			}
			rec.Deleted, rec.Deleting = true, false
		}
		x.mark()
		w.Count("expired")
	})
}
