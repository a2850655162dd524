package scen

import (
	"fmt"
	"math"
	"reflect"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

// P09: monitored values are reported in order, completely when they change
// slowly enough, never invented, and the last one always arrives; queues and
// filters behave as configured.
func init() { register(&Scenario{Prop: "P09", Gen: genP09, Run: runP09}) }

func genP09(g Gen, p *Plan) {
	p.P["sec"] = g.Pick(0, 0, 0, int64(g.N(len(secs))))
	p.P["subs"] = g.Range(1, 2)
	for i := 0; i < 2; i++ {
		p.P[fmt.Sprintf("int%d", i)] = g.Pick(125, 200, 500, 1000)
		p.P[fmt.Sprintf("keep%d", i)] = g.Range(1, 4)
		p.P[fmt.Sprintf("maxn%d", i)] = g.Pick(0, 0, 1, 2, 5)
	}
	ni := int(g.Range(2, 7))
	p.P["items"] = int64(ni)
	for i := 0; i < ni; i++ {
		k := func(n string, v int64) { p.P[fmt.Sprintf("%s_%d", n, i)] = v }
		k("var", int64(g.N(p09Vars)))
		k("sub", g.Range(0, p.P["subs"]-1))
		k("queue", g.Pick(0, 1, 1, 2, 3, 5, 100))
		k("old", g.Range(0, 1))
		k("samp", g.Pick(-1, 0, 100, 125, 300))
		k("trig", g.Pick(1, 1, 1, 0, 2))
		k("dead", g.Pick(0, 0, 0, 1, 10, 40))
		k("ts", g.Range(0, 3))
		k("rng", g.Pick(0, 0, 1, 2))
	}
	n := int(g.Range(2, 6))
	if p.Tier == "thorough" {
		n = int(g.Range(3, 12))
	}
	for i := 0; i < n; i++ {
		o := Op{A: 0, K: []string{"slow", "slow", "fast", "late", "late", "moditem", "lateview", "pubmode", "newitem", "modfull", "modfull", "off"}[g.N(12)],
			I: []int64{int64(g.U64() % 1000000), g.Range(1, 9), g.Pick(0, 1000, 20000, 90000, 200000)}}
		if o.K == "fast" && g.P(40) {
			o.S = []string{"cut", "stall", "cutafter"}[g.N(3)]
		}
		p.Ops = append(p.Ops, o)
	}
}

const p09Vars = 6

// p09Val makes value number n of a variable; walks in steps around the deadbands.
func p09Val(v int, x *int64, r uint64) (any, ua.StatusCode) {
	step := int64(r%61) - 30
	if r%5 == 0 {
		step = 0
	}
	if r%7 == 0 {
		step = 1
	}
	*x += step
	if *x < 0 {
		*x = -*x
	}
	code := ua.Good
	if (r>>8)%6 == 0 {
		code = []ua.StatusCode{ua.UncertainLastUsableValue, ua.BadDeviceFailure, ua.Good, ua.BadSensorFailure, ua.UncertainSensorNotAccurate, 0x4000, 0x8000}[(r>>16)%7]
	}
	n := *x
	switch v {
	case 0:
		return n - 20, code
	case 1:
		return float64(n) + 0.25, code
	case 2:
		return uint16(n % 65536), code
	case 3:
		return []int32{int32(n), 5, int32(r >> 20 % 3), -7}, code
	case 4:
		return []float32{float32(n), float32(int(r>>24)%50) + 0.5}[:1+int(r>>30%4)/2], code
	}
	return fmt.Sprintf("s%d", n), code
}

var p09Types = []struct {
	dt   ua.NodeID
	rank int32
}{{ua.DataTypeIDInt64, -1}, {ua.DataTypeIDDouble, -1}, {ua.DataTypeIDUInt16, -1}, {ua.DataTypeIDInt32, 1}, {ua.DataTypeIDFloat, 1}, {ua.DataTypeIDString, -1}}

// p09Item is the model of a monitored item.
type p09Item struct {
	idx, v     int
	handle     uint32
	id         uint32
	sub        *SubRec
	queue      int
	old        bool
	trig       int64
	dead       float64
	ts         ua.TimestampsToReturn
	rng        string
	samp       time.Duration
	from       int // history index from which it exists
	prev       *ua.DataValue
	got        []ua.DataValue // not yet checked
	all        int
	pos        int // greedy position in the history
	param      ua.MonitoringParameters
	afterDelay bool
}

type p09 struct {
	w     *World
	s     *Srv
	b     *Subber
	vars  []*server.VariableNode
	walk  []int64
	mu    sync.Mutex
	hist  [][]ua.DataValue // per variable
	items []*p09Item
	subs  []*SubRec
	byH   map[uint32]*p09Item
	nh    uint32
	live  bool
}

// view is what an item sees of a value.
func (it *p09Item) view(v ua.DataValue) ua.DataValue {
	if it.rng == "" || v.Value == nil {
		return v
	}
	if l, ok := v.Value.([]int32); ok {
		v.Value = l[1:3]
	}
	return v
}

// change is the reference filter.
func (it *p09Item) change(cur ua.DataValue) bool {
	if it.prev == nil {
		return true
	}
	p := *it.prev
	if cur.StatusCode != p.StatusCode {
		return true
	}
	if it.trig == 0 {
		return false
	}
	if it.trig == 2 && !cur.SourceTimestamp.Equal(p.SourceTimestamp) {
		return true
	}
	if it.dead > 0 {
		return beyond(cur.Value, p.Value, it.dead)
	}
	return !reflect.DeepEqual(cur.Value, p.Value)
}

func num(v any) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case uint16:
		return float64(x), true
	case int32:
		return float64(x), true
	case float32:
		return float64(x), true
	}
	return 0, false
}

func beyond(a, b any, d float64) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Slice && vb.Kind() == reflect.Slice {
		if va.Len() != vb.Len() {
			return true
		}
		for i := 0; i < va.Len(); i++ {
			if beyond(va.Index(i).Interface(), vb.Index(i).Interface(), d) {
				return true
			}
		}
		return false
	}
	x, ok1 := num(a)
	y, ok2 := num(b)
	if !ok1 || !ok2 {
		return !reflect.DeepEqual(a, b)
	}
	return math.Abs(x-y) > d
}

func dvShow(d ua.DataValue) string {
	return fmt.Sprintf("%v(%08X)", d.Value, uint32(d.StatusCode))
}

func dvs(l []ua.DataValue) string {
	s := "["
	for i, d := range l {
		if i > 0 {
			s += " "
		}
		s += dvShow(d)
	}
	return s + "]"
}

const overflowBits = ua.StatusCode(0x480)

func runP09(w *World) {
	s := w.NewServer(SrvOpts{})
	x := &p09{w: w, s: s, walk: make([]int64, p09Vars), hist: make([][]ua.DataValue, p09Vars), byH: map[uint32]*p09Item{}}
	for i := 0; i < p09Vars; i++ {
		x.walk[i] = 100
		v, _ := p09Val(i, &x.walk[i], 35)
		x.vars = append(x.vars, s.AddVar(fmt.Sprintf("V%d", i), v, p09Types[i].dt, p09Types[i].rank, VarOpts{}))
		x.hist[i] = append(x.hist[i], x.vars[i].Value())
	}
	w.StartSched()
	s.Serve()
	b := s.NewSubber("c0", RawOpts{Sec: int(w.P("sec")), Timeout: 3600000})
	x.b = b
	b.OnNotif = x.notif
	for i := 0; i < int(w.P("subs")); i++ {
		x.subs = append(x.subs, b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(w.P(fmt.Sprintf("int%d", i))), RequestedLifetimeCount: 50000,
			RequestedMaxKeepAliveCount: uint32(w.P(fmt.Sprintf("keep%d", i))), MaxNotificationsPerPublish: uint32(w.P(fmt.Sprintf("maxn%d", i))), PublishingEnabled: true}))
	}
	for i := 0; i < int(w.P("items")); i++ {
		x.create(i, func(n string) int64 { return w.P(fmt.Sprintf("%s_%d", n, i)) })
	}
	b.SetTarget(3)
	x.check("start", true)
	for _, o := range w.OpsOf(0) {
		w.Count(o.K)
		switch o.K {
		case "slow":
			x.live = true
			x.writes(o, true)
			x.live = false
			x.check("slow writes", true)
		case "fast":
			x.fast(o)
		case "late":
			b.SetTarget(0)
			x.drain()
			x.writes(o, true)
			b.SetTarget(3)
			x.check("writes without publish requests", true)
		case "lateview": // without publish requests, fast
			b.SetTarget(0)
			x.drain()
			x.writes(o, false)
			b.SetTarget(3)
			x.check("fast writes without publish requests", false)
		case "pubmode":
			var ids []uint32
			for _, r := range x.subs {
				ids = append(ids, r.ID)
			}
			b.Must(&ua.SetPublishingModeRequest{PublishingEnabled: false, SubscriptionIDs: ids})
			x.quiesce()
			mark := x.total()
			x.writes(o, true)
			if x.total() != mark {
				b.fail("disabled", "notifications arrive while publishing is disabled")
			}
			b.Must(&ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: ids})
			x.check("writes while publishing was disabled", true)
		case "moditem":
			it := x.items[int(o.Arg(0))%len(x.items)]
			old := it.handle
			x.modify(it, o.Arg(0))
			x.check("item modified", true)
			x.mu.Lock()
			delete(x.byH, old)
			x.mu.Unlock()
		case "modfull": // an item that has changes waiting
			b.SetTarget(0)
			x.drain()
			x.writes(o, true)
			d := 2 * x.maxSamp()
			for _, r := range x.subs {
				d += 2 * r.Interval
			}
			time.Sleep(d)
			for k := int64(0); k < 1+o.Arg(0)/3%3 && k < int64(len(x.items)); k++ {
				it := x.items[int(o.Arg(0)+k)%len(x.items)]
				old := it.handle
				x.modify(it, o.Arg(0)/7+k*13)
				it.trim()
				x.sample(it)
				x.mu.Lock()
				delete(x.byH, old)
				x.mu.Unlock()
			}
			if o.Arg(0)%3 == 0 {
				time.Sleep(d)
				x.writes(Op{I: []int64{o.Arg(0) + 17, 1 + o.Arg(1)%3, o.Arg(2)}}, true)
			}
			b.SetTarget(3)
			x.check("an item modified that had changes waiting", true)
		case "off":
			x.off(o)
		case "newitem":
			r := o.Arg(0)
			x.create(len(x.items), func(n string) int64 {
				switch n {
				case "var":
					return r % p09Vars
				case "sub":
					return r / 6 % int64(len(x.subs))
				case "queue":
					return r / 12 % 4
				case "trig":
					return 1
				case "ts":
					return 2
				}
				return 0
			})
			x.check("item created", true)
		}
	}
	x.b.CheckAnomalies()
	w.NonTrivial()
}

// off disables an item that has changes waiting and enables it again: it starts afresh.
func (x *p09) off(o Op) {
	b := x.b
	it := x.items[int(o.Arg(0))%len(x.items)]
	b.SetTarget(0)
	x.drain()
	r := uint64(o.Arg(0))*0x9e3779b97f4a7c15 + 11
	set := func(n int64) {
		for k := int64(0); k < n; k++ {
			r = r*6364136223846793005 + 1442695040888963407
			x.set(it.v, r>>3)
			time.Sleep(time.Duration(o.Arg(2)) * time.Microsecond)
		}
	}
	mode := func(m ua.MonitoringMode) {
		res := b.Must(&ua.SetMonitoringModeRequest{SubscriptionID: it.sub.ID, MonitoringMode: m, MonitoredItemIDs: []uint32{it.id}}).(*ua.SetMonitoringModeResponse)
		if len(res.Results) != 1 || res.Results[0] != ua.Good {
			b.fail("refused", "set mode: %v", res.Results)
		}
	}
	set(1 + o.Arg(1)%4)
	mode(ua.MonitoringModeDisabled)
	set(o.Arg(1) % 3)
	mode(ua.MonitoringModeReporting)
	b.SetTarget(3)
	x.quiesce()
	x.mu.Lock()
	got := it.got
	it.got = nil
	h := x.hist[it.v]
	cur := it.view(h[len(h)-1])
	it.pos = len(h) - 1
	x.mu.Unlock()
	if len(got) != 1 || !reflect.DeepEqual(got[0].Value, cur.Value) || got[0].StatusCode != cur.StatusCode {
		b.fail("delivery", "item %d on V%d (queue %d discardOldest %v trigger %d deadband %v range %q sampling %v) was disabled and enabled; then it reported %s, want the current value %s", it.idx, it.v, it.queue, it.old, it.trig, it.dead, it.rng, it.samp, dvs(got), dvShow(cur))
	}
	it.prev = &cur
	p09Queues[it] = nil
	x.check("an item was disabled and enabled", false)
}

// modify changes the parameters of an item.
func (x *p09) modify(it *p09Item, r int64) {
	b := x.b
	it.old = r%2 == 0
	q := []int{1, 2, 4, 50}[r/2%4]
	it.queue = q
	if it.v != 5 {
		it.dead = []float64{0, 3, 25}[r/8%3]
	}
	it.trig = []int64{1, 1, 0, 2}[r/32%4]
	if it.trig == 2 && (it.ts == ua.TimestampsToReturnServer || it.ts == ua.TimestampsToReturnNeither) {
		it.trig = 1 // which of several equal values was reported last cannot be told
	}
	x.nh++
	h := x.nh
	x.mu.Lock()
	if x.byH[0] == nil && r%3 == 0 {
		h = 0
	}
	x.byH[h] = it
	x.mu.Unlock()
	it.param = ua.MonitoringParameters{ClientHandle: h, SamplingInterval: float64(it.samp / time.Millisecond), QueueSize: uint32(q), DiscardOldest: it.old, Filter: it.filter()}
	res := b.Must(&ua.ModifyMonitoredItemsRequest{SubscriptionID: it.sub.ID, TimestampsToReturn: it.ts, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: it.id, RequestedParameters: it.param}}}).(*ua.ModifyMonitoredItemsResponse)
	if len(res.Results) != 1 || res.Results[0].StatusCode != ua.Good {
		b.fail("refused", "modify item: %v", res.Results)
	}
	if int(res.Results[0].RevisedQueueSize) != q {
		b.fail("revised", "queue size %d revised to %d", q, res.Results[0].RevisedQueueSize)
	}
	x.mu.Lock()
	it.handle = h
	x.mu.Unlock()
}

// trim runs the model: the queue is cut to its new size.
func (it *p09Item) trim() {
	q := p09Queues[it]
	if len(q) <= it.queue {
		return
	}
	i := it.queue - 1
	if it.old {
		q = append([]ua.DataValue(nil), q[len(q)-it.queue:]...)
		i = 0
	} else {
		q = append([]ua.DataValue(nil), q[:it.queue]...)
	}
	if it.queue > 1 {
		q[i].StatusCode |= overflowBits
	}
	p09Queues[it] = q
}

func (it *p09Item) filter() any {
	if it.trig == 1 && it.dead == 0 {
		return nil
	}
	f := ua.DataChangeFilter{Trigger: ua.DataChangeTrigger(it.trig)}
	if it.dead > 0 {
		f.DeadbandType = uint32(ua.DeadbandTypeAbsolute)
		f.DeadbandValue = it.dead
	}
	return f
}

func (x *p09) create(i int, k func(string) int64) {
	x.nh++
	it := &p09Item{idx: i, v: int(k("var")), handle: x.nh, sub: x.subs[k("sub")], queue: int(k("queue")), old: k("old") == 1, trig: k("trig"), dead: float64(k("dead")), ts: ua.TimestampsToReturn(k("ts"))}
	if it.v == 5 {
		it.dead = 0
	}
	if it.v == 3 && k("rng") == 1 {
		it.rng = "1:2"
	}
	x.mu.Lock()
	it.from = len(x.hist[it.v]) - 1
	it.pos = it.from
	x.byH[it.handle] = it
	x.items = append(x.items, it)
	x.mu.Unlock()
	q := monItem(fmt.Sprintf("V%d", it.v), it.handle, float64(k("samp")), uint32(it.queue), it.old, it.filter(), ua.MonitoringModeReporting)
	q.ItemToMonitor.IndexRange = it.rng
	r := x.b.CreateItems(it.sub.ID, it.ts, q)[0]
	it.id = r.MonitoredItemID
	it.samp = time.Duration(r.RevisedSamplingInterval * float64(time.Millisecond))
	if it.queue < 1 {
		it.queue = 1
	}
	if int(r.RevisedQueueSize) != it.queue {
		x.b.fail("revised", "queue size %d revised to %d", it.queue, r.RevisedQueueSize)
	}
}

func (x *p09) total() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	n := 0
	for _, it := range x.items {
		n += it.all
	}
	return n
}

func (x *p09) notif(n Notif) {
	x.mu.Lock()
	it := x.byH[n.Handle]
	x.mu.Unlock()
	b := x.b
	if it == nil || it.sub.ID != n.Sub {
		b.fail("content", "notification for handle %d in subscription %d", n.Handle, n.Sub)
	}
	v := n.Value
	src, sv := !v.SourceTimestamp.IsZero(), !v.ServerTimestamp.IsZero()
	if src != (it.ts == ua.TimestampsToReturnBoth || it.ts == ua.TimestampsToReturnSource) || sv != (it.ts == ua.TimestampsToReturnBoth || it.ts == ua.TimestampsToReturnServer) {
		b.fail("timestamps", "item %d asked for timestamps %v and got source %v server %v", it.idx, it.ts, src, sv)
	}
	x.w.Log("item %d V%d handle %d: %s", it.idx, it.v, n.Handle, dvShow(v))
	x.mu.Lock()
	it.got = append(it.got, v)
	it.all++
	x.mu.Unlock()
	x.w.Count("notifications")
}

// slack covers latency and stalled goroutines.
const p09Slack = 900 * time.Millisecond

func (x *p09) maxSamp() time.Duration {
	d := 100 * time.Millisecond
	for _, it := range x.items {
		if it.samp > d {
			d = it.samp
		}
	}
	return d
}

func (x *p09) set(i int, r uint64) {
	v, code := p09Val(i, &x.walk[i], r)
	if r>>40%4 == 0 {
		code = ua.Good
		q := writeReq(fmt.Sprintf("V%d", i), v, "")
		res := x.b.Must(q).(*ua.WriteResponse)
		if res.Results[0] != ua.Good {
			x.b.fail("refused", "write V%d = %v: %v", i, v, res.Results[0])
		}
		x.mu.Lock()
		x.hist[i] = append(x.hist[i], x.vars[i].Value())
		x.mu.Unlock()
	} else {
		// the source has a clock of its own
		src := time.Now()
		if r>>44%3 == 0 {
			src = src.Add(-time.Duration(r>>20%4000000) * time.Microsecond)
		}
		dv := ua.NewDataValue(v, code, src, 0, time.Now(), 0)
		x.mu.Lock()
		x.hist[i] = append(x.hist[i], dv)
		x.mu.Unlock()
		x.vars[i].SetValue(dv)
	}
	x.w.Log("set V%d %v %08X", i, v, uint32(code))
}

func (x *p09) writes(o Op, slow bool) {
	r := uint64(o.Arg(0))*0x9e3779b97f4a7c15 + 1
	for k := 0; k < int(o.Arg(1)); k++ {
		for i := 0; i < p09Vars; i++ {
			r = r*6364136223846793005 + 1442695040888963407
			if r>>60 < 5 {
				continue
			}
			x.set(i, r>>3)
		}
		if slow {
			d := 2*x.maxSamp() + p09Slack
			if x.live {
				for _, r := range x.subs {
					n := 2
					if r.MaxN > 0 {
						n += (len(x.items) + 1) / int(r.MaxN)
					}
					d += time.Duration(n) * r.Interval
				}
			}
			time.Sleep(d)
			for _, it := range x.items {
				x.sample(it)
			}
		} else {
			time.Sleep(time.Duration(o.Arg(2)) * time.Microsecond)
		}
	}
}

// sample runs the model: the current value is sampled.
func (x *p09) sample(it *p09Item) {
	x.mu.Lock()
	h := x.hist[it.v]
	cur := it.view(h[len(h)-1])
	x.mu.Unlock()
	if !it.change(cur) {
		return
	}
	it.prev = &cur
	it.push(cur, x.live)
}

// modelq of the item (values not yet delivered).
var p09Queues = map[*p09Item][]ua.DataValue{}

func (it *p09Item) push(v ua.DataValue, live bool) {
	q := p09Queues[it]
	over := len(q) >= it.queue && !live // a live queue is emptied between the writes
	if over {
		if it.old {
			q = append([]ua.DataValue(nil), q[1:]...)
		} else {
			q = q[:len(q)-1]
		}
	}
	q = append(q, v)
	if over && it.queue > 1 {
		i := 0
		if !it.old {
			i = len(q) - 1
		}
		q[i].StatusCode |= overflowBits
	}
	p09Queues[it] = q
}

// drain waits until no publish request is left at the server.
func (x *p09) drain() {
	start := x.w.Now()
	for x.b.Out() > 0 {
		time.Sleep(100 * time.Millisecond)
		if x.w.Now()-start > 120*time.Second {
			x.b.fail("no-keepalive", "publish requests stay unanswered: %s\n%s", x.b.describe(), Stacks())
		}
	}
	time.Sleep(100 * time.Millisecond)
}

// quiesce waits until everything pending was delivered.
func (x *p09) quiesce() {
	d := 2*x.maxSamp() + p09Slack
	for _, r := range x.subs {
		d += 3 * r.Interval
	}
	time.Sleep(d)
	x.b.Settle(10 * time.Second)
}

func (x *p09) fast(o Op) {
	b := x.b
	switch o.S {
	case "stall":
		b.C.Link.Stall(int(o.Arg(0) % 2))
		l := b.C.Link
		go func() { time.Sleep(time.Duration(o.Arg(0)%3000) * time.Millisecond); l.Unstall(int(o.Arg(0) % 2)) }()
	case "cutafter":
		b.C.Link.CutAfter(1, o.Arg(0)%3000+1)
	}
	r := uint64(o.Arg(0))*0x9e3779b97f4a7c15 + 7
	for k := 0; k < 12; k++ {
		r = r*6364136223846793005 + 1442695040888963407
		q := r >> 3
		if o.S != "" {
			q |= 1 << 41 // no writes by the client
		}
		if o.S == "" || r>>40%4 != 0 {
			if o.S != "" && q>>40%4 == 0 {
				q |= 1 << 40
			}
			x.set(int(r>>50%p09Vars), q)
		}
		time.Sleep(time.Duration(o.Arg(2)) * time.Microsecond)
		if o.S == "cut" && k == int(o.Arg(1)) {
			b.C.Link.Cut()
			b.Reconnect()
		}
	}
	if o.S == "cutafter" {
		b.C.Link.Cut()
		b.Reconnect()
	}
	x.check("fast writes", false)
}

// check compares what arrived with the model.
func (x *p09) check(what string, exact bool) {
	x.quiesce()
	for _, it := range x.items {
		// the final sample
		x.mu.Lock()
		got := it.got
		it.got = nil
		h := x.hist[it.v]
		x.mu.Unlock()
		if exact {
			x.sample(it)
			want := p09Queues[it]
			p09Queues[it] = nil
			ok := len(want) == len(got)
			for i := 0; ok && i < len(want); i++ {
				ok = reflect.DeepEqual(want[i].Value, got[i].Value) && want[i].StatusCode == got[i].StatusCode &&
					(got[i].SourceTimestamp.IsZero() || p09SameTime(want[i].SourceTimestamp, got[i].SourceTimestamp)) &&
					(got[i].ServerTimestamp.IsZero() || p09SameTime(want[i].ServerTimestamp, got[i].ServerTimestamp))
			}
			if !ok {
				x.b.fail("delivery", "after %s item %d on V%d (queue %d discardOldest %v trigger %d deadband %v range %q sampling %v) reported %s, want %s", what, it.idx, it.v, it.queue, it.old, it.trig, it.dead, it.rng, it.samp, dvs(got), dvs(want))
			}
			if len(got) > 0 {
				it.pos = len(h) - 1
			}
			continue
		}
		p09Queues[it] = nil
		// subsequence of the history
		for _, g := range got {
			g.StatusCode &^= overflowBits
			for ; it.pos < len(h); it.pos++ {
				v := it.view(h[it.pos])
				if reflect.DeepEqual(v.Value, g.Value) && v.StatusCode == g.StatusCode && (g.SourceTimestamp.IsZero() || p09SameTime(v.SourceTimestamp, g.SourceTimestamp)) {
					break
				}
			}
			if it.pos == len(h) {
				x.b.fail("order", "after %s item %d on V%d reported %s, which does not follow the order of the values %s", what, it.idx, it.v, dvs(got), dvs(h[it.from:]))
			}
			v := it.view(h[it.pos])
			it.prev = &v
		}
		cur := it.view(h[len(h)-1])
		if it.trig == 2 && (it.ts == ua.TimestampsToReturnServer || it.ts == ua.TimestampsToReturnNeither) {
			// which of several equal values was reported cannot be told
			if !reflect.DeepEqual(it.prev.Value, cur.Value) && it.dead == 0 || it.prev.StatusCode != cur.StatusCode {
				x.b.fail("convergence", "after %s item %d on V%d last reported %s but the value is %s", what, it.idx, it.v, dvShow(*it.prev), dvShow(cur))
			}
			it.prev = &cur
		}
		if reflect.DeepEqual(it.prev.Value, cur.Value) && it.prev.StatusCode == cur.StatusCode && p09SameTime(it.prev.SourceTimestamp, cur.SourceTimestamp) {
			// two equal values set within one 100 ns tick cannot be told apart
			it.prev = &cur
		}
		if it.change(cur) {
			x.b.fail("convergence", "after %s item %d on V%d (queue %d discardOldest %v trigger %d deadband %v range %q) last reported %s but the value is %s", what, it.idx, it.v, it.queue, it.old, it.trig, it.dead, it.rng, dvShow(*it.prev), dvShow(cur))
		}
	}
	x.w.State(what, len(x.items), x.total())
}

func p09SameTime(a, b time.Time) bool { return a.UnixNano()/100 == b.UnixNano()/100 }
