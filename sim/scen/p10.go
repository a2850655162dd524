package scen

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/simnet"
)

// P10: an event reaches every monitored item its notifier hierarchy and the
// item's filter select, once, in order, with the fields asked for.
func init() { register(&Scenario{Prop: "P10", Gen: genP10, Run: runP10}) }

func genP10(g Gen, p *Plan) {
	nc := int(g.Range(1, 2))
	nr := int(g.Range(1, 3))
	p.P["clients"], p.P["raisers"] = int64(nc), int64(nr)
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, 0, int64(g.N(len(secs))))
		p.P[fmt.Sprintf("items%d", a)] = g.Range(1, 6)
		p.P[fmt.Sprintf("subs%d", a)] = g.Range(1, 2)
		p.P[fmt.Sprintf("target%d", a)] = g.Range(1, 4)
		p.P[fmt.Sprintf("int%d", a)] = g.Pick(125, 125, 200, 500)
		p.P[fmt.Sprintf("maxn%d", a)] = g.Pick(0, 0, 1, 3, 10)
	}
	p.P["fseed"] = int64(g.U64() % (1 << 40))
	p.P["workers"] = g.Pick(1, 2, 4)
	p.P["topo"] = g.Pick(0, 0, 1, 2, 3, 4)
	if g.P(3) {
		p.P["flood"] = 1
		p.P["topo"] = 0
		p.P["floodn"] = g.Range(1000, 1100)
		p.P["clients"], p.P["raisers"] = 1, 0
		return
	}
	n := int(g.Range(15, 70))
	if p.Tier == "thorough" {
		n = int(g.Range(15, 160))
	}
	kinds := []string{"modify", "modify", "mode", "mode", "newitem", "delitem", "pause", "resume", "wait", "wait", "delsub", "probe"}
	if g.P(25) {
		kinds = []string{"wait", "probe", "newitem"}
	}
	hot := g.P(40) // changes of items while events are raised in bursts
	cuts := g.P(40)
	for i := 0; i < n; i++ {
		if g.P(60) {
			p.Ops = append(p.Ops, Op{A: nc + g.N(nr), K: "raise", D: g.Pick(0, 0, 0, 100, 20000, 130000), I: []int64{int64(g.N(4)), int64(g.N(4)), int64(g.N(4)), int64(g.N(4)), 1}})
			if o := &p.Ops[len(p.Ops)-1]; hot {
				o.D, o.I[4] = g.Pick(0, 0, 300, 2000), g.Range(1, 12)
			}
			continue
		}
		o := Op{A: g.N(nc), D: g.Pick(0, 0, 1000, 20000, 130000), K: kinds[g.N(len(kinds))], I: []int64{int64(g.U64() % 1000000), int64(g.U64() % 1000)}}
		if hot {
			o.D = g.Pick(0, 0, 300, 2000)
			if o.K == "wait" || o.K == "pause" {
				o.K = "modify"
			}
		}
		if cuts && g.P(15) {
			o.K = "cut"
			o.I = []int64{g.Pick(0, 1000, 50000, 300000)}
		}
		p.Ops = append(p.Ops, o)
	}
}

// p10Event is one raised event.
type p10Event struct {
	n        int
	raiser   int
	node     int // where it was raised
	ev       *ua.BaseEvent
	vals     []ua.Variant // of all fields that can be selected
	from, to int          // ticks
}

// p10Filter is a filter with an independent evaluation.
type p10Filter struct {
	kind   int
	arg    int
	sel    []int // indices of the base select clauses, -1 an unknown field
	filter ua.EventFilter
}

type p10Epoch struct {
	f          *p10Filter
	mode       ua.MonitoringMode
	req, resp  int // ticks at which it was asked for and confirmed
	endRq, end int // ticks at which the next one was
}

type p10Item struct {
	id      uint32
	sub     *SubRec
	handle  uint32
	node    int
	epochs  []*p10Epoch
	got     []int // event numbers in order of arrival
	gone    bool
	deleted bool
	dropped int // ticks before which undelivered events may be gone
	fields  map[int][]ua.Variant
}

var p10Nodes = []string{"A", "B", "C", "Server"}

// p10Up lists for each arrangement the notifiers above A, B and C; in the last one A cannot be monitored.
var p10Up = [][][]int{
	{{3}, {0}, nil},
	{{3}, {0, 2}, nil},
	{{3}, {0, 2}, {3}},
	{{3}, {2, 0}, {0}},
	{{3}, {0}, nil},
}

// reach lists the nodes an event raised at n passes.
func (x *p10) reach(n int) []int {
	l := []int{n}
	for i := 0; i < len(l); i++ {
		if l[i] == 3 {
			continue
		}
		for _, u := range p10Up[x.w.P("topo")][l[i]] {
			if !slices.Contains(l, u) {
				l = append(l, u)
			}
		}
	}
	return l
}

// p10Clauses are the fields of an alarm.
var p10Clauses = func() (l []ua.SimpleAttributeOperand) {
	for _, c := range []struct {
		t ua.NodeID
		n []string
	}{{ua.ObjectTypeIDBaseEventType, []string{"EventId", "EventType", "SourceNode", "SourceName", "Time", "ReceiveTime", "Message", "Severity"}},
		{ua.ObjectTypeIDConditionType, []string{"", "ConditionName", "BranchId", "Retain"}},
		{ua.ObjectTypeIDAcknowledgeableConditionType, []string{"AckedState/Id", "ConfirmedState/Id"}},
		{ua.ObjectTypeIDAlarmConditionType, []string{"ActiveState/Id"}}} {
		for _, n := range c.n {
			q := ua.SimpleAttributeOperand{TypeDefinitionID: c.t, AttributeID: ua.AttributeIDValue}
			if n == "" {
				q.AttributeID = ua.AttributeIDNodeID
			} else {
				for _, e := range strings.Split(n, "/") {
					q.BrowsePath = append(q.BrowsePath, ua.QualifiedName{Name: e})
				}
			}
			l = append(l, q)
		}
	}
	return
}()

// event types: base, a subtype, a subtype of that, another
var p10Types = []ua.NodeID{ua.ObjectTypeIDBaseEventType, ua.ObjectTypeIDConditionType, ua.ObjectTypeIDAlarmConditionType, ua.ObjectTypeIDAuditEventType}

// p10Is[t][u]: type t is u or a subtype of it
var p10Is = [][]bool{{true, false, false, false}, {true, true, false, false}, {true, true, true, false}, {true, false, false, true}}

type p10 struct {
	w      *World
	s      *Srv
	objs   []*server.ObjectNode
	events []*p10Event
	tick   int
}

func (x *p10) now() int { x.w.mu.Lock(); defer x.w.mu.Unlock(); x.tick++; return x.tick }

func (x *p10) mkFilter(g Gen) *p10Filter {
	f := &p10Filter{kind: g.N(6), arg: g.N(4)}
	f.sel = []int{0}
	for i := g.N(7); i > 0; i-- {
		f.sel = append(f.sel, g.N(16)-1)
	}
	for _, i := range f.sel {
		if i < 0 {
			f.filter.SelectClauses = append(f.filter.SelectClauses, ua.SimpleAttributeOperand{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("NoSuchField"), AttributeID: ua.AttributeIDValue})
		} else {
			f.filter.SelectClauses = append(f.filter.SelectClauses, p10Clauses[i])
		}
	}
	lit := func(v ua.Variant) ua.ExtensionObject { return ua.LiteralOperand{Value: v} }
	el := func(op ua.FilterOperator, args ...ua.ExtensionObject) ua.ContentFilterElement {
		return ua.ContentFilterElement{FilterOperator: op, FilterOperands: args}
	}
	ofType := el(ua.FilterOperatorOfType, lit(p10Types[f.arg]))
	src := el(ua.FilterOperatorEquals, p10Clauses[3], lit(fmt.Sprintf("src%d", f.arg)))
	sev := el(ua.FilterOperatorEquals, lit(uint16(100*(f.arg+1))), p10Clauses[7])
	switch f.kind {
	case 1:
		f.filter.WhereClause.Elements = []ua.ContentFilterElement{ofType}
	case 2:
		f.filter.WhereClause.Elements = []ua.ContentFilterElement{src}
	case 3:
		f.filter.WhereClause.Elements = []ua.ContentFilterElement{sev}
	case 4:
		f.filter.WhereClause.Elements = []ua.ContentFilterElement{el(ua.FilterOperatorEquals, ua.ElementOperand{Index: 1}, lit(f.arg%2 == 0)), ofType}
	case 5:
		f.filter.WhereClause.Elements = []ua.ContentFilterElement{el(ua.FilterOperatorEquals, ua.ElementOperand{Index: 1}, ua.ElementOperand{Index: 2}), src, sev}
	}
	return f
}

func (f *p10Filter) match(e *p10Event) bool {
	typ := 0
	for i, t := range p10Types {
		if e.ev.EventType == t {
			typ = i
		}
	}
	is := p10Is[typ][f.arg]
	src := e.ev.SourceName == fmt.Sprintf("src%d", f.arg)
	sev := int(e.ev.Severity) == 100*(f.arg+1)
	switch f.kind {
	case 1:
		return is
	case 2:
		return src
	case 3:
		return sev
	case 4:
		return is == (f.arg%2 == 0)
	case 5:
		return src == sev
	}
	return true
}

func (f *p10Filter) fields(e *p10Event) []ua.Variant {
	var l []ua.Variant
	for _, i := range f.sel {
		if i < 0 {
			l = append(l, nil)
		} else {
			l = append(l, e.vals[i])
		}
	}
	return l
}

func sameFields(a, b []ua.Variant) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if t, ok := a[i].(time.Time); ok {
			u, ok := b[i].(time.Time)
			if !ok || t.Sub(u) > 100 || u.Sub(t) > 100 {
				return false
			}
			continue
		}
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (x *p10) raise(raiser int, node, typ, src, sev int) {
	w := x.w
	w.mu.Lock()
	x.tick++
	e := &p10Event{n: len(x.events), raiser: raiser, node: node, from: x.tick, to: 1 << 60}
	e.ev = &ua.BaseEvent{EventID: ua.ByteString(fmt.Sprintf("ev%d", e.n)), EventType: p10Types[typ], SourceNode: nid(p10Nodes[node]), SourceName: fmt.Sprintf("src%d", src),
		Time: time.Now().UTC(), ReceiveTime: time.Now().UTC(), Message: ua.LocalizedText{Text: fmt.Sprintf("event %d", e.n), Locale: "en"}, Severity: uint16(100 * (sev + 1))}
	e.vals = make([]ua.Variant, len(p10Clauses))
	copy(e.vals, []ua.Variant{e.ev.EventID, e.ev.EventType, e.ev.SourceNode, e.ev.SourceName, e.ev.Time, e.ev.ReceiveTime, e.ev.Message, e.ev.Severity})
	var ev ua.Event = e.ev
	if typ == 1 || typ == 2 {
		v := &ua.AlarmCondition{EventID: e.ev.EventID, EventType: e.ev.EventType, SourceNode: e.ev.SourceNode, SourceName: e.ev.SourceName, Time: e.ev.Time, ReceiveTime: e.ev.ReceiveTime, Message: e.ev.Message, Severity: e.ev.Severity,
			ConditionID: nid(fmt.Sprintf("cond%d", e.n)), ConditionName: fmt.Sprintf("cn%d", e.n), BranchID: nid(fmt.Sprintf("br%d", e.n)), Retain: e.n%2 == 0, AckedState: e.n%3 == 0, ConfirmedState: e.n%5 == 0, ActiveState: e.n%7 < 3}
		copy(e.vals[8:], []ua.Variant{v.ConditionID, v.ConditionName, v.BranchID, v.Retain, v.AckedState, v.ConfirmedState, v.ActiveState})
		ev = v
		if typ == 1 { // no alarm
			copy(e.vals[12:], []ua.Variant{nil, nil, nil})
			ev = &ua.Condition{EventID: v.EventID, EventType: v.EventType, SourceNode: v.SourceNode, SourceName: v.SourceName, Time: v.Time, ReceiveTime: v.ReceiveTime, Message: v.Message, Severity: v.Severity,
				ConditionID: v.ConditionID, ConditionName: v.ConditionName, BranchID: v.BranchID, Retain: v.Retain}
		}
	}
	x.events = append(x.events, e)
	w.mu.Unlock()
	if err := x.s.NM.OnEvent(x.objs[node], ev); err != nil {
		w.Fail("refused", "OnEvent: %v", err)
	}
	w.mu.Lock()
	x.tick++
	e.to = x.tick
	w.mu.Unlock()
	w.Count("events")
}

func runP10(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers"))})
	x := &p10{w: w, s: s}
	mk := func(id string, up []int) *server.ObjectNode {
		refs := s.refs("Root", ua.ReferenceTypeIDHasComponent, nil)
		for _, u := range up {
			to := ua.NodeID(ua.ObjectIDServer)
			if u < 3 {
				to = nid(p10Nodes[u])
			}
			refs = append(refs, ua.NewReference(ua.ReferenceTypeIDHasNotifier, true, ua.NewExpandedNodeID(to)))
		}
		notifier := byte(ua.EventNotifierSubscribeToEvents)
		if w.P("topo") == 4 && id == "A" {
			notifier = 0
		}
		n := server.NewObjectNode(s.Server, nid(id), ua.NewQualifiedName(2, id), ua.NewLocalizedText(id, "en"), ua.NewLocalizedText("", ""), openPerms, refs, notifier)
		if err := s.NM.AddNode(n); err != nil {
			panic(err)
		}
		return n
	}
	up := p10Up[w.P("topo")]
	x.objs = make([]*server.ObjectNode, 3)
	for _, i := range []int{0, 2, 1} {
		x.objs[i] = mk(p10Nodes[i], up[i])
	}
	so, _ := s.NM.FindObject(ua.ObjectIDServer)
	x.objs = append(x.objs, so)
	w.StartSched()
	s.Serve()
	if w.P("flood") == 1 {
		x.flood()
		w.NonTrivial()
		return
	}
	nc, nr := int(w.P("clients")), int(w.P("raisers"))
	ready := make(chan struct{}, nc)
	quiet := make(chan struct{})
	left, cl := 0, 0
	for a := 0; a < nc+nr; a++ {
		if len(w.OpsOf(a)) == 0 {
			continue
		} else if a < nc {
			cl++
		} else {
			left++
		}
	}
	if left == 0 {
		close(quiet)
	}
	go2 := make(chan struct{})
	go func() {
		for i := 0; i < cl; i++ {
			<-ready
		}
		close(go2)
	}()
	w.Actors(nc+nr, func(a int, ops []Op) {
		if a >= nc {
			<-go2
			for _, o := range ops {
				o.Sleep()
				for i := 0; i < int(o.Arg(4)); i++ {
					x.raise(a-nc, int(o.Arg(0)), int(o.Arg(1)+int64(i))%4, int(o.Arg(2)), int(o.Arg(3)+int64(i/2))%4)
				}
			}
			w.mu.Lock()
			left--
			if left == 0 {
				close(quiet)
			}
			w.mu.Unlock()
			return
		}
		x.client(a, ops, ready, quiet)
	})
	if len(x.events) > 0 {
		w.NonTrivial()
	}
}

func (x *p10) client(a int, ops []Op, ready chan struct{}, quiet chan struct{}) {
	w, s := x.w, x.s
	k := func(f string) int64 { return w.P(fmt.Sprintf(f, a)) }
	b := s.NewSubber(fmt.Sprintf("c%d", a), RawOpts{Sec: int(k("sec%d")), Timeout: 3600000})
	g := Gen{simnet.NewRand(uint64(w.P("fseed")) + uint64(a))}
	var items []*p10Item
	byHandle := map[uint32]*p10Item{}
	nh := uint32(0)
	b.OnNotif = func(n Notif) {
		it := byHandle[n.Handle]
		if it == nil || n.Event == nil {
			b.fail("content", "message %d of subscription %d: handle %d, event %v", n.Seq, n.Sub, n.Handle, n.Event)
			return
		}
		if it.sub.ID != n.Sub {
			b.fail("content", "item %d of subscription %d reported by %d", it.handle, it.sub.ID, n.Sub)
		}
		if it.gone {
			b.fail("after-delete", "item %d reports an event after its deletion was confirmed", it.handle)
		}
		num := -1
		if len(n.Event) > 0 {
			if id, ok := n.Event[0].(ua.ByteString); ok {
				fmt.Sscanf(string(id), "ev%d", &num)
			}
		}
		if num < 0 || num >= len(x.events) {
			b.fail("content", "item %d: fields %v", it.handle, n.Event)
			return
		}
		if _, ok := it.fields[num]; ok {
			b.fail("twice", "item %d reports event %d twice", it.handle, num)
		}
		it.fields[num] = n.Event
		it.got = append(it.got, num)
	}
	var subs []*SubRec
	for i := 0; i < int(k("subs%d")); i++ {
		subs = append(subs, b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(k("int%d")), RequestedLifetimeCount: 20000, RequestedMaxKeepAliveCount: 5,
			MaxNotificationsPerPublish: uint32(k("maxn%d")), PublishingEnabled: true}))
	}
	newItem := func() {
		it := &p10Item{sub: subs[g.N(len(subs))], node: g.N(4), fields: map[int][]ua.Variant{}}
		if w.P("topo") == 4 && it.node == 0 {
			it.node = 1
		}
		ep := &p10Epoch{f: x.mkFilter(g), mode: ua.MonitoringModeReporting, endRq: 1 << 60, end: 1 << 60}
		if g.P(10) {
			ep.mode = ua.MonitoringModeDisabled
		}
		b.Run(func() {
			nh++
			it.handle = nh
			byHandle[nh] = it
			items = append(items, it)
		})
		ep.req = x.now()
		it.epochs = append(it.epochs, ep)
		q := monItem("", it.handle, 0, uint32(g.N(20)), g.P(50), ep.f.filter, ep.mode)
		q.ItemToMonitor.NodeID = x.objs[it.node].NodeID()
		q.ItemToMonitor.AttributeID = ua.AttributeIDEventNotifier
		r := b.CreateItems(it.sub.ID, ua.TimestampsToReturnBoth, q)
		it.id = r[0].MonitoredItemID
		ep.resp = x.now()
	}
	for i := 0; i < int(k("items%d")); i++ {
		newItem()
	}
	b.SetTarget(int(k("target%d")))
	ready <- struct{}{}
	pick := func(n int64) *p10Item {
		var l []*p10Item
		for _, it := range items {
			if !it.deleted && !it.sub.Deleted {
				l = append(l, it)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[int(n)%len(l)]
	}
	change := func(it *p10Item, f *p10Filter, mode ua.MonitoringMode, req ua.ServiceRequest) ua.ServiceResponse {
		old := it.epochs[len(it.epochs)-1]
		ep := &p10Epoch{f: f, mode: mode, req: x.now(), endRq: 1 << 60, end: 1 << 60}
		old.endRq = ep.req
		it.epochs = append(it.epochs, ep)
		r := b.Must(req)
		ep.resp = x.now()
		old.end = ep.resp
		if mode == ua.MonitoringModeDisabled {
			it.dropped = ep.resp
		}
		return r
	}
	for _, o := range ops {
		o.Sleep()
		w.Count(o.K)
		switch o.K {
		case "newitem":
			if len(items) < 14 {
				newItem()
			}
		case "modify":
			it := pick(o.Arg(0))
			if it == nil {
				continue
			}
			last := it.epochs[len(it.epochs)-1]
			f := last.f
			if o.Arg(1)%2 == 0 {
				f = x.mkFilter(g)
			}
			b.Run(func() {
				if o.Arg(1)%3 == 0 {
					nh++
					it.handle = nh
					byHandle[nh] = it
				}
			})
			r := change(it, f, last.mode, &ua.ModifyMonitoredItemsRequest{SubscriptionID: it.sub.ID, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: it.id,
				RequestedParameters: ua.MonitoringParameters{ClientHandle: it.handle, QueueSize: uint32(g.N(20)), DiscardOldest: g.P(50), Filter: f.filter}}}})
			if m, ok := r.(*ua.ModifyMonitoredItemsResponse); !ok || len(m.Results) != 1 || m.Results[0].StatusCode != ua.Good {
				b.fail("refused", "modify: %s", sr(r, nil))
			}
		case "mode":
			it := pick(o.Arg(0))
			if it == nil {
				continue
			}
			last := it.epochs[len(it.epochs)-1]
			mode := []ua.MonitoringMode{ua.MonitoringModeReporting, ua.MonitoringModeDisabled, ua.MonitoringModeSampling}[o.Arg(1)%3]
			if mode == last.mode {
				mode = ua.MonitoringModeReporting
			}
			r := change(it, last.f, mode, &ua.SetMonitoringModeRequest{SubscriptionID: it.sub.ID, MonitoringMode: mode, MonitoredItemIDs: []uint32{it.id}})
			if m, ok := r.(*ua.SetMonitoringModeResponse); !ok || len(m.Results) != 1 || m.Results[0] != ua.Good {
				b.fail("refused", "set monitoring mode: %s", sr(r, nil))
			}
		case "delitem":
			it := pick(o.Arg(0))
			if it == nil {
				continue
			}
			r := change(it, it.epochs[len(it.epochs)-1].f, ua.MonitoringModeDisabled, &ua.DeleteMonitoredItemsRequest{SubscriptionID: it.sub.ID, MonitoredItemIDs: []uint32{it.id}})
			if m, ok := r.(*ua.DeleteMonitoredItemsResponse); !ok || len(m.Results) != 1 || m.Results[0] != ua.Good {
				b.fail("refused", "delete item: %s", sr(r, nil))
			}
			it.deleted = true
		case "delsub":
			if len(subs) < 2 {
				continue
			}
			sub := subs[0]
			subs = subs[1:]
			b.Run(func() { sub.Deleting = true })
			for _, it := range items {
				if it.sub == sub {
					it.dropped = 1 << 60
				}
			}
			b.Must(&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub.ID}})
			b.Run(func() { sub.Deleted = true })
		case "pause":
			b.SetTarget(0)
		case "resume":
			b.SetTarget(int(o.Arg(0)%4) + 1)
		case "wait":
			time.Sleep(time.Duration(o.Arg(1)) * time.Millisecond)
		case "probe":
			b.Probe(2)
		case "cut":
			b.C.Link.Cut()
			time.Sleep(time.Duration(o.Arg(0)) * time.Microsecond)
			b.Reconnect()
		}
	}
	<-quiet
	for _, it := range items {
		if last := it.epochs[len(it.epochs)-1]; last.mode == ua.MonitoringModeSampling && !it.sub.Deleted {
			r := change(it, last.f, ua.MonitoringModeReporting, &ua.SetMonitoringModeRequest{SubscriptionID: it.sub.ID, MonitoringMode: ua.MonitoringModeReporting, MonitoredItemIDs: []uint32{it.id}})
			if m, ok := r.(*ua.SetMonitoringModeResponse); !ok || len(m.Results) != 1 || m.Results[0] != ua.Good {
				b.fail("refused", "set monitoring mode: %s", sr(r, nil))
			}
		}
	}
	b.Settle(20 * time.Second)
	b.CheckAnomalies()
	b.Run(func() {
		for _, it := range items {
			x.check(b, it)
		}
	})
	w.State(a, len(x.events), b.gen, b.lost)
	b.C.Disconnect()
}

// check compares what an item reported with what it should have.
func (x *p10) check(b *Subber, it *p10Item) {
	for _, e := range x.events {
		passes := false
		for _, n := range x.reach(e.node) {
			passes = passes || n == it.node
		}
		must, may := passes, false
		any := false
		var fields [][]ua.Variant
		if passes {
			if e.from < it.epochs[0].resp { // raised while the item was being created
				must = false
			}
			for _, ep := range it.epochs {
				if e.to < ep.req || e.from > ep.end {
					continue
				}
				any = true
				if ep.mode == ua.MonitoringModeDisabled || !ep.f.match(e) {
					must = false
					continue
				}
				may = true
				fields = append(fields, ep.f.fields(e))
			}
			if e.from < it.dropped {
				must = false
			}
		}
		must = must && any
		f, got := it.fields[e.n]
		switch {
		case got && !may:
			b.fail("unwanted", "item %d on %s (%s) reported event %d raised at %s (type %v source %s severity %d)", it.handle, p10Nodes[it.node], it.describe(), e.n, p10Nodes[e.node], e.ev.EventType, e.ev.SourceName, e.ev.Severity)
		case !got && must:
			b.fail("lost", "item %d on %s (%s) did not report event %d raised at %s (type %v source %s severity %d) at ticks %d-%d; it reported %v", it.handle, p10Nodes[it.node], it.describe(), e.n, p10Nodes[e.node], e.ev.EventType, e.ev.SourceName, e.ev.Severity, e.from, e.to, it.got)
		case got:
			ok := false
			for _, l := range fields {
				ok = ok || sameFields(f, l)
			}
			if !ok {
				b.fail("fields", "item %d on %s: event %d has fields %v, want one of %v", it.handle, p10Nodes[it.node], e.n, f, fields)
			}
			x.w.Count("delivered")
		}
	}
	// order: an event whose raising was over before another's began comes first
	min := 1 << 61
	for i := len(it.got) - 1; i >= 0; i-- {
		e := x.events[it.got[i]]
		if e.from > min {
			b.fail("order", "item %d on %s reported %v: event %d was raised after a later one", it.handle, p10Nodes[it.node], it.got, e.n)
		}
		if e.to < min {
			min = e.to
		}
	}
}

func (it *p10Item) describe() string {
	var l []string
	for _, e := range it.epochs {
		l = append(l, fmt.Sprintf("filter %d/%d mode %d at %d-%d", e.f.kind, e.f.arg, e.mode, e.req, e.resp))
	}
	return strings.Join(l, "; ")
}

// flood raises about as many events as a queue holds while nothing is published.
func (x *p10) flood() {
	w, s := x.w, x.s
	b := s.NewSubber("c0", RawOpts{Timeout: 3600000})
	got := map[uint32][]int{}
	b.OnNotif = func(n Notif) {
		num := -1
		if len(n.Event) > 0 {
			if id, ok := n.Event[0].(ua.ByteString); ok {
				fmt.Sscanf(string(id), "ev%d", &num)
			}
		}
		got[n.Handle] = append(got[n.Handle], num)
	}
	sub := b.CreateSub(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 20000, RequestedMaxKeepAliveCount: 5, PublishingEnabled: true})
	var l []ua.MonitoredItemCreateRequest
	for h := uint32(1); h <= 2; h++ {
		q := monItem("", h, 0, 0, h == 1, ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses[:1]}, ua.MonitoringModeReporting)
		q.ItemToMonitor.NodeID = x.objs[0].NodeID()
		q.ItemToMonitor.AttributeID = ua.AttributeIDEventNotifier
		l = append(l, q)
	}
	r := b.CreateItems(sub.ID, ua.TimestampsToReturnBoth, l...)
	size := int(r[0].RevisedQueueSize)
	n := int(w.P("floodn"))
	for i := 0; i < n; i++ {
		x.raise(0, 0, 0, 0, 0)
	}
	b.SetTarget(3)
	b.Settle(20 * time.Second)
	b.Run(func() {
		for h := uint32(1); h <= 2; h++ {
			want := []int{}
			for i := 0; i < n; i++ {
				want = append(want, i)
			}
			if n > size {
				if h == 1 {
					want = want[n-size:]
				} else {
					want = append(want[:size-1:size-1], n-1)
				}
			}
			if !reflect.DeepEqual(got[h], want) {
				g := got[h]
				sort.Ints(g)
				b.fail("overflow", "%d events with a queue of %d (discardOldest %v): %d reported, first %v last %v", n, size, h == 1, len(g), g[:min(3, len(g))], g[max(0, len(g)-3):])
			}
		}
	})
	w.Count("flood")
}
