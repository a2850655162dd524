package scen

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

// P24: monitoring modes and triggering links decide what is reported.
func init() { register(&Scenario{Prop: "P24", Gen: genP24, Run: runP24}) }

func genP24(g Gen, p *Plan) {
	ni := int(g.Range(2, 6))
	p.P["items"] = int64(ni)
	p.P["iv"] = g.Pick(125, 250, 500)
	p.P["maxn"] = g.Pick(0, 0, 1, 2, 5)
	p.P["busy"] = g.Pick(0, 1)
	if g.P(30) {
		p.Net.LatMinUs, p.Net.LatMaxUs, p.Net.Seg, p.Net.Frag = 0, 0, 0, 0
	}
	n := int(g.Range(6, 24))
	if p.Tier == "thorough" {
		n = int(g.Range(12, 70))
	}
	rnd := func() int64 { return int64(g.U64() >> 1) }
	for i := 0; i < ni; i++ {
		p.Ops = append(p.Ops, Op{K: "create", I: []int64{rnd(), rnd()}})
	}
	for i := 0; i < n; i++ {
		k := []string{"write", "write", "write", "write", "write", "mode", "mode", "flick", "trig", "trig", "trig", "trig", "del", "create", "diag"}[g.N(15)]
		p.Ops = append(p.Ops, Op{K: k, D: g.Pick(0, 0, 100000, 3000000), I: []int64{rnd(), rnd(), g.Pick(0, 0, 0, 1)}})
	}
	if g.P(50) {
		p.Ops = append(p.Ops, Op{K: "storm", I: []int64{rnd(), rnd()}})
	}
}

// p24st is one state an item may be in.
type p24st struct {
	q     []int64 // waiting to be reported
	latch bool    // may have been triggered while nothing was waiting
}

func (a p24st) key() string { return fmt.Sprint(a.q, a.latch) }

// p24item is what the model knows of one item.
type p24item struct {
	id     uint32
	handle uint32
	src    int // < p24vars: variable, else object
	size   int
	oldest bool
	mode   ua.MonitoringMode
	last   int64 // last value sampled, -1 none
	links  map[*p24item]bool
	st     []p24st
	// of the current step
	fresh []int64 // values that came in
	hits  int     // times it was triggered
	got   []int64
}

func (it *p24item) event() bool { return it.src >= p24vars }

const p24vars = 4

type p24 struct {
	w     *World
	s     *Srv
	b     *Subber
	sub   *SubRec
	vars  []*server.VariableNode
	objs  []*server.ObjectNode
	cur   []int64
	num   int64
	items []*p24item
	mu    sync.Mutex
	byH   map[uint32]*p24item
	gone  map[uint32]string
	data  int // data messages seen when the step began
	step  string
	late  bool // no publish request is waiting
}

func (it *p24item) push(q []int64, v int64) []int64 {
	q = append([]int64(nil), q...)
	for len(q) >= it.size {
		if it.oldest {
			q = q[1:]
		} else {
			q = q[:len(q)-1]
		}
	}
	return append(q, v)
}

func runP24(w *World) {
	s := w.NewServer(SrvOpts{})
	x := &p24{w: w, s: s, byH: map[uint32]*p24item{}, gone: map[uint32]string{}, step: "start"}
	for i := 0; i < p24vars; i++ {
		x.vars = append(x.vars, s.AddVar(fmt.Sprintf("V%d", i), int64(0), ua.DataTypeIDInt64, -1, VarOpts{}))
		x.cur = append(x.cur, 0)
	}
	for i := 0; i < 2; i++ {
		x.objs = append(x.objs, s.AddObject(fmt.Sprintf("E%d", i), "", ua.EventNotifierSubscribeToEvents))
	}
	busy := s.AddVar("Busy", int64(0), ua.DataTypeIDInt64, -1, VarOpts{})
	w.StartSched()
	s.Serve()
	x.b = s.NewSubber("c", RawOpts{Timeout: 3600000})
	x.b.OnNotif = x.notif
	x.sub = x.b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(w.P("iv")), RequestedLifetimeCount: 20000, RequestedMaxKeepAliveCount: 2, MaxNotificationsPerPublish: uint32(w.P("maxn")), PublishingEnabled: true})
	x.b.SetTarget(3)
	stop := make(chan struct{})
	if w.P("busy") == 1 { // something else goes on meanwhile
		go func() {
			for i := int64(1); ; i++ {
				select {
				case <-stop:
					return
				case <-time.After(70 * time.Millisecond):
				}
				busy.SetValue(ua.NewDataValue(i, ua.Good, time.Now(), 0, time.Now(), 0))
			}
		}()
	}
	for _, o := range w.OpsOf(0) {
		o.Sleep()
		w.Count(o.K)
		x.step = o.K
		x.op(o)
	}
	close(stop)
	x.b.CheckAnomalies()
	w.NonTrivial()
}

func (x *p24) fail(class, f string, a ...any) {
	x.w.Fail(class, "%s: %s\n%s", x.step, fmt.Sprintf(f, a...), x.describe())
}

func (x *p24) describe() string {
	s := ""
	for _, it := range x.items {
		var l []string
		for t := range it.links {
			l = append(l, fmt.Sprint(t.handle))
		}
		sort.Strings(l)
		s += fmt.Sprintf("item %d: source %d mode %d queue %d oldest %v links %v states %v; ", it.handle, it.src, it.mode, it.size, it.oldest, l, it.st)
	}
	return s
}

func (x *p24) notif(n Notif) {
	x.mu.Lock()
	defer x.mu.Unlock()
	it := x.byH[n.Handle]
	if it == nil {
		if why, ok := x.gone[n.Handle]; ok {
			x.fail("after-delete", "a notification for item %d, which was %s", n.Handle, why)
			return
		}
		x.fail("foreign", "a notification for the unknown item %d", n.Handle)
		return
	}
	var v int64
	if it.event() {
		if len(n.Event) == 1 {
			if id, ok := n.Event[0].(ua.ByteString); ok {
				fmt.Sscanf(string(id), "ev%d", &v)
			}
		}
	} else {
		var ok bool
		if v, ok = n.Value.Value.(int64); !ok {
			x.fail("value", "item %d reports %v", n.Handle, n.Value)
		}
	}
	it.got = append(it.got, v)
}

// settle waits until everything due has been reported.
func (x *p24) settle() {
	time.Sleep(700*time.Millisecond + 2*x.sub.Interval)
	if x.late {
		x.late = false
		x.b.SetTarget(3)
	}
	x.b.Settle(20 * time.Second)
}

// enq is a value that comes in at an item.
func (x *p24) enq(it *p24item, v int64) {
	it.fresh = append(it.fresh, v)
	for t := range it.links {
		t.hits++
	}
}

// value makes it sample the variable if it has changed.
func (x *p24) value(it *p24item) {
	if it.mode == ua.MonitoringModeDisabled || it.event() || it.last == x.cur[it.src] {
		return
	}
	it.last = x.cur[it.src]
	x.enq(it, it.last)
}

func same(a, b []int64) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// next lists the states and reports possible after the step.
type p24out struct {
	rep []int64
	st  p24st
}

func (it *p24item) outcomes(maxn int64) []p24out {
	var outs []p24out
	seen := map[string]bool{}
	add := func(o p24out) {
		k := fmt.Sprint(o.rep) + o.st.key()
		if !seen[k] {
			seen[k] = true
			outs = append(outs, o)
		}
	}
	for _, st := range it.st {
		switch {
		case it.mode == ua.MonitoringModeDisabled:
			add(p24out{nil, p24st{nil, st.latch || it.hits > 0}})
		case it.mode == ua.MonitoringModeReporting:
			// everything is reported; how much of a burst finds place depends on when
			type c struct{ rep, q []int64 }
			cs := []c{{nil, st.q}}
			for _, v := range it.fresh {
				var nx []c
				for _, a := range cs {
					nx = append(nx, c{a.rep, it.push(a.q, v)})
					if len(a.q) > 0 {
						nx = append(nx, c{append(append([]int64(nil), a.rep...), a.q...), it.push(nil, v)})
					}
				}
				cs = nx
			}
			for _, a := range cs {
				add(p24out{append(append([]int64(nil), a.rep...), a.q...), p24st{nil, st.latch || it.hits > 0}})
			}
		case it.hits == 0 && !st.latch:
			q := st.q
			for _, v := range it.fresh {
				q = it.push(q, v)
			}
			add(p24out{nil, p24st{q, false}})
		default:
			// triggered at some moment of the step, or perhaps before it
			type c struct {
				rep, q []int64
				n      int
				rest   bool // a part of the queue has been sent, and the rest follows
			}
			cs := []c{{nil, st.q, 0, false}}
			flush := func(l []c) []c {
				var nx []c
				for _, a := range l {
					nx = append(nx, a)
					n := a.n
					if !a.rest {
						n++
					}
					for k := 1; k <= len(a.q); k++ {
						if k == len(a.q) || maxn > 0 {
							nx = append(nx, c{append(append([]int64(nil), a.rep...), a.q[:k]...), append([]int64(nil), a.q[k:]...), n, k < len(a.q)})
						}
					}
				}
				return nx
			}
			cs = flush(cs)
			for _, v := range it.fresh {
				for i := range cs {
					cs[i].q = it.push(cs[i].q, v)
				}
				cs = flush(cs)
			}
			max := it.hits
			if st.latch {
				max++
			}
			self := it.links[it]
			for _, a := range cs {
				if a.n > max || a.rest {
					continue
				}
				if a.n == 0 && it.hits > 0 && len(st.q) > 0 {
					continue // what waits must be reported
				}
				if self && len(it.fresh) > 0 && len(a.q) > 0 {
					continue // each value triggers the item itself
				}
				// a trigger that found nothing may count for the next value
				left := len(a.q) == 0 && (it.hits > 1 || len(it.fresh) > 0 || len(st.q) == 0 || st.latch)
				add(p24out{a.rep, p24st{a.q, left}})
				if left {
					add(p24out{a.rep, p24st{a.q, false}})
				}
			}
		}
	}
	return outs
}

// check compares what was reported in the step with what may have been.
func (x *p24) check() {
	x.settle()
	x.mu.Lock()
	defer x.mu.Unlock()
	data := x.sub.Data
	for _, it := range x.items {
		outs := it.outcomes(x.w.P("maxn"))
		var st []p24st
		seen := map[string]bool{}
		for _, o := range outs {
			if !same(o.rep, it.got) {
				continue
			}
			if it.hits == 0 && data > x.data {
				o.st.latch = false // forgotten with any message sent
			}
			if k := o.st.key(); !seen[k] {
				seen[k] = true
				st = append(st, o.st)
			}
		}
		if len(st) == 0 {
			var can []string
			for _, o := range outs {
				can = append(can, fmt.Sprint(o.rep))
			}
			x.fail("reported", "item %d (values %v came in, triggered %d times) reported %v, possible are %s", it.handle, it.fresh, it.hits, it.got, strings.Join(can, " or "))
			return
		}
		it.st = st
		if len(it.got) > 0 {
			switch {
			case it.mode == ua.MonitoringModeSampling:
				x.w.Count("reported_when_triggered")
			}
		}
		if len(st) > 1 {
			x.w.Count("states_left_open")
		}
		it.got, it.fresh, it.hits = nil, nil, 0
	}
	x.data = data
}

// pick returns k pseudo-random numbers below n.
type p24rnd uint64

func (r *p24rnd) n(n int) int {
	*r ^= *r << 13
	*r ^= *r >> 7
	*r ^= *r << 17
	return int(uint64(*r) % uint64(n))
}

func (r *p24rnd) mode() ua.MonitoringMode {
	return []ua.MonitoringMode{ua.MonitoringModeDisabled, ua.MonitoringModeSampling, ua.MonitoringModeSampling, ua.MonitoringModeSampling, ua.MonitoringModeReporting, ua.MonitoringModeReporting}[r.n(6)]
}

func (x *p24) raise(i int) {
	x.num++
	n := x.num
	x.mu.Lock()
	for _, it := range x.items {
		if it.src == p24vars+i && it.mode != ua.MonitoringModeDisabled {
			x.enq(it, n)
		}
	}
	x.mu.Unlock()
	x.event(i, n)
}

func (x *p24) event(i int, n int64) {
	err := x.s.NM.OnEvent(x.objs[i], &ua.BaseEvent{EventID: ua.ByteString(fmt.Sprintf("ev%d", n)), EventType: ua.ObjectTypeIDBaseEventType, SourceNode: x.objs[i].NodeID(), SourceName: "E", Time: time.Now(), ReceiveTime: time.Now(), Severity: 100})
	if err != nil {
		x.fail("refused", "OnEvent: %v", err)
	}
}

func (x *p24) create(r *p24rnd) *p24item {
	it := &p24item{handle: uint32(len(x.byH)+len(x.gone)) + 1, size: []int{1, 2, 3, 5}[r.n(4)], oldest: r.n(2) == 0, mode: r.mode(), last: -1, links: map[*p24item]bool{}, st: []p24st{{}}}
	if it.src = r.n(p24vars); r.n(4) == 0 {
		it.src = p24vars + r.n(2)
	}
	var q ua.MonitoredItemCreateRequest
	if it.event() {
		it.size = 1000
		q = monItem("", it.handle, 0, 1000, it.oldest, ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses[:1]}, it.mode)
		q.ItemToMonitor.NodeID = x.objs[it.src-p24vars].NodeID()
		q.ItemToMonitor.AttributeID = ua.AttributeIDEventNotifier
	} else {
		q = monItem(fmt.Sprintf("V%d", it.src), it.handle, []float64{-1, 0, 100, 250}[r.n(4)], uint32(it.size), it.oldest, nil, it.mode)
	}
	x.mu.Lock()
	x.items = append(x.items, it)
	x.byH[it.handle] = it
	x.value(it)
	x.mu.Unlock()
	res := x.b.CreateItems(x.sub.ID, ua.TimestampsToReturnBoth, q)
	it.id = res[0].MonitoredItemID
	return it
}

func (x *p24) setMode(l []*p24item, m ua.MonitoringMode) {
	q := &ua.SetMonitoringModeRequest{SubscriptionID: x.sub.ID, MonitoringMode: m}
	for _, it := range l {
		q.MonitoredItemIDs = append(q.MonitoredItemIDs, it.id)
	}
	q.MonitoredItemIDs = append(q.MonitoredItemIDs, 99999999)
	r := x.b.Must(q).(*ua.SetMonitoringModeResponse)
	if len(r.Results) != len(l)+1 || r.Results[len(l)] != ua.BadMonitoredItemIDInvalid {
		x.fail("results", "SetMonitoringMode of %d items and an unknown one returns %v", len(l), r.Results)
	}
	for i := range l {
		if r.Results[i] != ua.Good {
			x.fail("results", "SetMonitoringMode returns %v", r.Results)
		}
	}
}

func (x *p24) op(o Op) {
	if len(x.items) == 0 && o.K != "create" && o.K != "diag" {
		return
	}
	r := p24rnd(o.Arg(0) | 1)
	some := func(max int) (l []*p24item) { // a few different items
		seen := map[*p24item]bool{}
		for i := 0; i <= r.n(max); i++ {
			if it := x.items[r.n(len(x.items))]; !seen[it] {
				seen[it] = true
				l = append(l, it)
			}
		}
		return
	}
	x.late = o.Arg(2) == 1 && (o.K == "write" || o.K == "create" || o.K == "mode")
	if x.late {
		// no publish request waits when things happen
		x.w.Count("late")
		x.b.SetTarget(0)
		for i := 0; x.b.Out() > 0; i++ {
			time.Sleep(x.sub.Interval)
			if i > 3000 {
				x.fail("silent", "%d publish requests are never used\n%s", x.b.Out(), Stacks())
			}
		}
		time.Sleep(x.sub.Interval)
		defer func() {
			if x.late {
				x.settle()
			}
		}()
	}
	switch o.K {
	case "create":
		if len(x.items) < 10 {
			x.create(&r)
			x.check()
		}
	case "write":
		for i := range x.vars {
			if r.n(3) != 0 {
				continue
			}
			x.num++
			x.mu.Lock()
			x.cur[i] = x.num
			for _, it := range x.items {
				if it.src == i {
					x.value(it)
				}
			}
			x.mu.Unlock()
			x.vars[i].SetValue(ua.NewDataValue(x.cur[i], ua.Good, time.Now(), 0, time.Now(), 0))
		}
		for i := range x.objs {
			for k := r.n(5) - 2; k > 0; k-- {
				x.raise(i)
			}
		}
		x.check()
	case "mode":
		m := r.mode()
		l := some(3)
		x.mu.Lock()
		for _, it := range l {
			was := it.mode
			it.mode = m
			switch {
			case was == m:
			case m == ua.MonitoringModeDisabled:
				it.last = -1
				for i := range it.st {
					it.st[i].q = nil
				}
			case was == ua.MonitoringModeDisabled:
				x.value(it)
			}
		}
		x.mu.Unlock()
		x.setMode(l, m)
		x.check()
	case "flick":
		// an item is disabled when it has just sampled a value; what it reports later is newer
		var it *p24item
		for i := 0; i < 6; i++ {
			if o := x.items[r.n(len(x.items))]; !o.event() && o.mode != ua.MonitoringModeDisabled && len(o.links) == 0 {
				it = o
				break
			}
		}
		if it == nil {
			return
		}
		back := it.mode
		set := func() {
			x.num++
			x.mu.Lock()
			x.cur[it.src] = x.num
			for _, o := range x.items {
				if o.src == it.src && o != it {
					x.value(o)
				}
			}
			x.mu.Unlock()
			x.vars[it.src].SetValue(ua.NewDataValue(x.cur[it.src], ua.Good, time.Now(), 0, time.Now(), 0))
		}
		set()
		time.Sleep(time.Duration(r.n(600)) * time.Millisecond)
		x.mu.Lock()
		it.mode, it.last = ua.MonitoringModeDisabled, -1
		x.mu.Unlock()
		x.setMode([]*p24item{it}, ua.MonitoringModeDisabled)
		x.settle()
		x.mu.Lock()
		it.got = nil // what it had before may or may not have been reported
		for i := range it.st {
			it.st[i] = p24st{nil, true}
		}
		x.mu.Unlock()
		x.check()
		if r.n(3) != 0 {
			set()
			x.check()
		}
		x.mu.Lock()
		it.mode = back
		x.value(it)
		x.mu.Unlock()
		x.setMode([]*p24item{it}, back)
		x.check()
	case "trig":
		t := x.items[r.n(len(x.items))]
		q := &ua.SetTriggeringRequest{SubscriptionID: x.sub.ID, TriggeringItemID: t.id}
		var wantR, wantA []ua.StatusCode
		x.mu.Lock()
		for i := 0; i < 3 && len(t.links) == 0; i++ { // rather one that has links
			if o := x.items[r.n(len(x.items))]; len(o.links) > 0 {
				t = o
				q.TriggeringItemID = t.id
			}
		}
		if r.n(2) == 0 {
			l := some(3)
			if r.n(3) != 0 && len(t.links) > 0 {
				l = nil
				for _, it := range x.items {
					if t.links[it] && r.n(2) == 0 {
						l = append(l, it)
					}
				}
			}
			for _, it := range l {
				q.LinksToRemove = append(q.LinksToRemove, it.id)
				c := ua.BadMonitoredItemIDInvalid
				if t.links[it] {
					c = ua.Good
				}
				wantR = append(wantR, c)
				delete(t.links, it)
			}
		}
		if r.n(4) != 0 || len(q.LinksToRemove) == 0 {
			for _, it := range some(4) {
				q.LinksToAdd = append(q.LinksToAdd, it.id)
				wantA = append(wantA, ua.Good)
				t.links[it] = true
			}
			if r.n(5) == 0 {
				q.LinksToAdd = append(q.LinksToAdd, 99999999)
				wantA = append(wantA, ua.BadMonitoredItemIDInvalid)
			}
		}
		x.mu.Unlock()
		a := x.b.Must(q).(*ua.SetTriggeringResponse)
		if fmt.Sprint(a.RemoveResults) != fmt.Sprint(wantR) || fmt.Sprint(a.AddResults) != fmt.Sprint(wantA) {
			x.fail("results", "SetTriggering removing %v and adding %v at item %d returns %v and %v, want %v and %v", q.LinksToRemove, q.LinksToAdd, t.id, a.RemoveResults, a.AddResults, wantR, wantA)
		}
		x.check()
	case "del":
		l := some(2)
		var ids []uint32
		for _, it := range l {
			ids = append(ids, it.id)
		}
		a := x.b.Must(&ua.DeleteMonitoredItemsRequest{SubscriptionID: x.sub.ID, MonitoredItemIDs: ids}).(*ua.DeleteMonitoredItemsResponse)
		for _, c := range a.Results {
			if c != ua.Good {
				x.fail("results", "DeleteMonitoredItems returns %v", a.Results)
			}
		}
		x.settle() // nothing waits at a reporting item any more
		x.mu.Lock()
		for _, it := range l {
			delete(x.byH, it.handle)
			x.gone[it.handle] = "deleted"
			for i, e := range x.items {
				if e == it {
					x.items = append(x.items[:i:i], x.items[i+1:]...)
					break
				}
			}
			for _, e := range x.items {
				delete(e.links, it)
			}
		}
		x.mu.Unlock()
		x.check()
	case "diag":
		n, off := x.counts()
		d := 0
		for _, it := range x.items {
			if it.mode == ua.MonitoringModeDisabled {
				d++
			}
		}
		if n != len(x.items) || off != d {
			x.fail("counts", "the diagnostics count %d items, %d of them disabled; there are %d and %d", n, off, len(x.items), d)
		}
	case "storm":
		x.storm(&r)
	}
}

// counts reads the item counts of the subscription's diagnostics.
func (x *p24) counts() (n, off int) {
	a := x.b.Must(readReq(ua.ReadValueID{NodeID: ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, AttributeID: ua.AttributeIDValue})).(*ua.ReadResponse)
	l, ok := a.Results[0].Value.([]ua.ExtensionObject)
	if !ok {
		x.fail("counts", "the subscription diagnostics are %T", a.Results[0].Value)
	}
	for _, e := range l {
		if d, ok := e.(ua.SubscriptionDiagnosticsDataType); ok && d.SubscriptionID == x.sub.ID {
			return int(d.MonitoredItemCount), int(d.DisabledMonitoredItemCount)
		}
	}
	x.fail("counts", "the subscription is missing in the diagnostics: %v", l)
	return
}

// storm changes modes and links while values and events come in; afterwards everything still works.
func (x *p24) storm(r *p24rnd) {
	w := x.w
	for len(x.items) < 4 {
		x.create(r)
		x.check()
	}
	x.mu.Lock()
	x.b.OnNotif = func(Notif) {} // what is reported meanwhile depends on the order
	x.mu.Unlock()
	var wg sync.WaitGroup
	n := 5 + r.n(40)
	gap := time.Duration([]int{0, 0, 1, 20}[r.n(4)]) * time.Millisecond
	for i := 0; i < 2; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				x.event(i, 0)
				time.Sleep(gap)
			}
		}()
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				for v := i; v < p24vars; v += 2 {
					x.vars[v].SetValue(ua.NewDataValue(int64(1000000+k), ua.Good, time.Now(), 0, time.Now(), 0))
				}
				time.Sleep(gap)
			}
		}()
	}
	modes := map[*p24item]ua.MonitoringMode{}
	for _, it := range x.items {
		modes[it] = it.mode
	}
	for k := 0; k < 4+r.n(12); k++ {
		it := x.items[r.n(len(x.items))]
		switch r.n(3) {
		case 0:
			m := ua.MonitoringMode(r.n(3))
			x.setMode([]*p24item{it}, m)
			modes[it] = m
		default:
			q := &ua.SetTriggeringRequest{SubscriptionID: x.sub.ID, TriggeringItemID: it.id}
			for j := 0; j <= r.n(3); j++ {
				q.LinksToAdd = append(q.LinksToAdd, x.items[r.n(len(x.items))].id)
			}
			x.b.Must(q)
		}
	}
	w.Within(120*time.Second, "hang", "raising events and setting values while items trigger each other", wg.Wait)
	x.settle()
	d := 0
	for _, m := range modes {
		if m == ua.MonitoringModeDisabled {
			d++
		}
	}
	if n, off := x.counts(); n != len(x.items) || off != d {
		x.fail("counts", "after modes were changed many times the diagnostics count %d items, %d of them disabled; there are %d and %d", n, off, len(x.items), d)
	}
	// a new item that reports still does
	x.mu.Lock()
	seen := 0
	h := uint32(5000)
	x.b.OnNotif = func(n Notif) {
		if n.Handle == h {
			seen++
		}
	}
	x.mu.Unlock()
	x.b.CreateItems(x.sub.ID, ua.TimestampsToReturnBoth, monItem("V0", h, 0, 3, true, nil, ua.MonitoringModeReporting))
	x.settle()
	x.vars[0].SetValue(ua.NewDataValue(int64(2000000), ua.Good, time.Now(), 0, time.Now(), 0))
	x.settle()
	x.b.Run(func() {
		if seen != 2 {
			w.Fail("reported", "after the storm an item that reports delivered %d of 2 values", seen)
		}
	})
}
