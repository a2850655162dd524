package scen

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"sort"
	"sync"
	"time"

	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// Notif is one delivered notification of a monitored item.
type Notif struct {
	Sub    uint32
	Seq    uint32
	Handle uint32
	Value  ua.DataValue
	Event  []ua.Variant
	At     time.Duration // when the message was received or recovered
}

// seqState is what the client knows of one notification message.
type seqState struct {
	hash  uint64
	ackIn uint32 // request that carried the acknowledgement (0 none)
	gen   int    // connection of that request
	maybe bool   // an acknowledgement was sent but its fate is unknown
	n     int    // notifications
}

// SubRec is the client's view of a subscription.
type SubRec struct {
	ID        uint32
	Interval  time.Duration
	Keep      uint32
	Life      uint32
	MaxN      uint32
	Next      uint32
	seqs      map[uint32]*seqState
	missing   []uint32
	held      map[uint32]*ua.NotificationMessage
	heldNext  uint32
	Status    ua.StatusCode // of a StatusChangeNotification
	Deleted   bool
	Deleting  bool
	Data      int
	KeepAlive int
	Last      time.Duration // last message received
	LastReq   time.Duration
	More      bool
	Gaps      int // messages lost with a connection
	Created   time.Duration
	Lax       bool // may have ended without the client knowing yet
}

type subEv struct {
	c *raw.Client
	p *raw.Pending
	m *raw.Msg
	f func()
}

// Subber is a raw client that keeps publish requests outstanding and checks
// every publish response against the subscription protocol.
type Subber struct {
	w        *World
	s        *Srv
	Name     string
	opts     RawOpts
	C        *raw.Client
	mu       sync.Mutex
	evq      []subEv
	kick     chan struct{}
	stopped  bool
	target   int
	out      int
	subs     map[uint32]*SubRec
	acks     []ua.SubscriptionAcknowledgement
	want     map[uint32][]ua.StatusCode // expected ack results by request id (of this connection)
	AckMode  int64                      // 0 auto, 1 never, 2 some, 3 auto plus bogus ones
	gen      int
	lostMax  int // messages that may have been lost with connections
	lost     int
	OnNotif  func(n Notif)
	OnMsg    func(sub *SubRec, r *ua.PublishResponse)
	OnAnswer func(p *raw.Pending)
	OnFault  func(code ua.StatusCode, p *raw.Pending)
	Hint     uint32
	Skew     time.Duration // of the client's clock
	rnd      Gen
	reqGen   map[*raw.Pending]int
	answered int
	dead     bool
	orders   []uint32
}

// NewSubber connects a subscriber.
func (s *Srv) NewSubber(name string, o RawOpts) *Subber {
	b := &Subber{w: s.w, s: s, Name: name, opts: o, kick: make(chan struct{}, 1), subs: map[uint32]*SubRec{}, want: map[uint32][]ua.StatusCode{}, Hint: 600000,
		reqGen: map[*raw.Pending]int{}}
	b.rnd = Gen{s.w.R.Rand.Fork()}
	b.C = s.MustConnect(o)
	b.attach(b.C)
	go b.worker()
	return b
}

func (b *Subber) attach(c *raw.Client) {
	c.SetOnMsg(func(p *raw.Pending, m *raw.Msg) { b.push(subEv{c: c, p: p, m: m}) })
}

func (b *Subber) push(e subEv) {
	b.mu.Lock()
	b.evq = append(b.evq, e)
	b.mu.Unlock()
	select {
	case b.kick <- struct{}{}:
	default:
	}
}

func (b *Subber) pop() (subEv, bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.evq) == 0 {
		return subEv{}, false
	}
	e := b.evq[0]
	b.evq = b.evq[1:]
	return e, true
}

func (b *Subber) worker() {
	for {
		e, ok := b.pop()
		if !ok {
			<-b.kick
			continue
		}
		if e.f != nil {
			e.f()
		} else {
			b.message(e)
		}
		b.pump()
	}
}

// Run executes f in the worker, after everything received before.
func (b *Subber) Run(f func()) {
	done := make(chan struct{})
	b.push(subEv{f: func() { f(); close(done) }})
	t := time.NewTimer(900 * time.Second)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		b.w.Fail("subscriber-stuck", "%s: an operation of the subscriber did not finish\n%s", b.Name, Stacks())
	}
}

// SetTarget sets the number of publish requests to keep outstanding.
func (b *Subber) SetTarget(n int) { b.Run(func() { b.target = n }) }

// Out returns the number of unanswered publish requests.
func (b *Subber) Out() (n int) { b.Run(func() { n = b.out }); return }

func (b *Subber) pump() {
	for b.out < b.target && !b.dead && b.C.Err() == nil {
		b.publish(b.takeAcks())
	}
}

func (b *Subber) takeAcks() []ua.SubscriptionAcknowledgement {
	l := b.acks
	b.acks = nil
	switch b.AckMode {
	case 3:
		for i := range l {
			if b.rnd.P(15) { // a duplicate
				l = append(l, l[i])
			}
		}
		if b.rnd.P(20) {
			l = append(l, ua.SubscriptionAcknowledgement{SubscriptionID: 9999999, SequenceNumber: 1})
		}
		if len(b.subs) > 0 && b.rnd.P(20) {
			ids := b.ids()
			id := ids[b.rnd.N(len(ids))]
			l = append(l, ua.SubscriptionAcknowledgement{SubscriptionID: id, SequenceNumber: b.subs[id].Next + 1000})
		}
		if len(l) > 1 && b.rnd.P(40) {
			i, j := b.rnd.N(len(l)), b.rnd.N(len(l))
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

func (b *Subber) ids() []uint32 {
	var ids []uint32
	for id := range b.subs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

const anyCode = ua.StatusCode(0xffffffff)

// publish sends one publish request and predicts the results of its acknowledgements.
func (b *Subber) publish(acks []ua.SubscriptionAcknowledgement) *raw.Pending {
	var want []ua.StatusCode
	var hit []*seqState
	for _, a := range acks {
		sub := b.subs[a.SubscriptionID]
		switch {
		case sub == nil:
			want = append(want, ua.BadSubscriptionIDInvalid)
		case sub.Deleted || sub.Status != 0 || sub.Lax:
			if st := sub.seqs[a.SequenceNumber]; st != nil {
				st.maybe = true
			}
			want = append(want, anyCode)
		default:
			st := sub.seqs[a.SequenceNumber]
			switch {
			case st == nil && a.SequenceNumber > sub.Next+500:
				want = append(want, ua.BadSequenceNumberUnknown)
			case st == nil, st.maybe:
				want = append(want, anyCode)
			case st.ackIn != 0:
				want = append(want, ua.BadSequenceNumberUnknown)
			case a.SequenceNumber+100 < sub.Next:
				want = append(want, anyCode) // may have been displaced
				st.maybe = true
			default:
				want = append(want, ua.Good)
				st.ackIn = 1
				hit = append(hit, st)
			}
		}
	}
	b.out++
	p := b.C.Start(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: b.Hint, Timestamp: time.Now().Add(b.Skew)}, SubscriptionAcknowledgements: acks})
	b.reqGen[p] = b.gen
	for _, st := range hit {
		st.ackIn = p.ReqID
		st.gen = b.gen
	}
	b.want[p.ReqID] = want
	b.orders = append(b.orders, p.ReqID)
	return p
}

func hashMsg(m *ua.NotificationMessage) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %d ", m.SequenceNumber, m.PublishTime.UnixNano()/100)
	for _, d := range m.NotificationData {
		fmt.Fprintf(h, "%T %v|", d, d)
	}
	return h.Sum64()
}

func (b *Subber) fail(class, f string, a ...any) {
	b.w.Fail(class, "%s: "+f, append([]any{b.Name}, a...)...)
}

func (b *Subber) message(e subEv) {
	switch r := e.m.V.(type) {
	case *ua.CreateSubscriptionResponse:
		q := e.p.Req.(*ua.CreateSubscriptionRequest)
		if r.ServiceResult != ua.Good {
			return
		}
		iv := time.Duration(r.RevisedPublishingInterval * float64(time.Millisecond))
		b.subs[r.SubscriptionID] = &SubRec{ID: r.SubscriptionID, Interval: iv, Keep: r.RevisedMaxKeepAliveCount, Life: r.RevisedLifetimeCount, MaxN: q.MaxNotificationsPerPublish,
			Next: 1, heldNext: 1, seqs: map[uint32]*seqState{}, held: map[uint32]*ua.NotificationMessage{}, Last: b.w.Now(), Created: b.w.Now()}
	case *ua.PublishResponse:
		b.out--
		b.answered++
		if b.OnAnswer != nil {
			b.OnAnswer(e.p)
		}
		b.response(e.p, r)
	case *ua.ServiceFault:
		if _, ok := e.p.Req.(*ua.PublishRequest); ok {
			b.out--
			b.answered++
			delete(b.want, e.p.ReqID)
			if b.OnFault != nil {
				b.OnFault(r.ServiceResult, e.p)
			} else {
				b.fail("publish-refused", "a publish request was answered %v", r.ServiceResult)
			}
		}
	}
}

func (b *Subber) response(p *raw.Pending, r *ua.PublishResponse) {
	w := b.w
	acks := p.Req.(*ua.PublishRequest).SubscriptionAcknowledgements
	want := b.want[p.ReqID]
	delete(b.want, p.ReqID)
	if len(r.Results) != len(acks) {
		b.fail("ack-results", "%d acknowledgement results for %d acknowledgements", len(r.Results), len(acks))
	}
	for i, c := range r.Results {
		if sb := b.subs[acks[i].SubscriptionID]; sb != nil && (sb.Deleting || sb.Lax || sb.Status != 0) {
			continue
		}
		if want[i] != anyCode && c != want[i] {
			b.fail("ack-results", "acknowledgement %d of %v (subscription %d message %d) gave %v, want %v", i, len(acks), acks[i].SubscriptionID, acks[i].SequenceNumber, c, want[i])
		}
	}
	sub := b.subs[r.SubscriptionID]
	if sub == nil {
		b.fail("foreign-message", "publish response for subscription %d, which this session never had", r.SubscriptionID)
	}
	if sub.Deleted {
		b.fail("after-delete", "publish response (message %d) for subscription %d after its deletion was confirmed", r.NotificationMessage.SequenceNumber, sub.ID)
	}
	nm := &r.NotificationMessage
	w.Log("%s sub%d msg %d data %d avail %v more %v acks %d", b.Name, sub.ID, nm.SequenceNumber, len(nm.NotificationData), r.AvailableSequenceNumbers, r.MoreNotifications, len(acks))
	data := len(nm.NotificationData) > 0
	if sub.Status != 0 {
		b.fail("after-expiry", "message %d for subscription %d after it reported that it ended", nm.SequenceNumber, sub.ID)
	}
	if nm.SequenceNumber < sub.Next {
		b.fail("sequence-reuse", "message number %d of subscription %d arrives again (data %v, expected %d)", nm.SequenceNumber, sub.ID, data, sub.Next)
	}
	if n := int(nm.SequenceNumber - sub.Next); n > 0 {
		b.lost += n
		sub.Gaps += n
		if b.lost > b.lostMax {
			b.fail("sequence-gap", "message number %d of subscription %d arrives, expected %d; %d lost, at most %d can have been lost with connections", nm.SequenceNumber, sub.ID, sub.Next, b.lost, b.lostMax)
		}
		for q := sub.Next; q < nm.SequenceNumber; q++ {
			sub.missing = append(sub.missing, q)
			sub.seqs[q] = &seqState{}
		}
		sub.Next = nm.SequenceNumber
		w.Count("gaps_after_reconnect")
	}
	sub.Last = w.Now()
	sub.More = r.MoreNotifications
	if sc, ok := statusChange(nm); ok {
		sub.Status = sc
		sub.Next++
		w.Count("status_change")
		if b.OnMsg != nil {
			b.OnMsg(sub, r)
		}
		return
	}
	b.available(p, sub, r, data)
	if data {
		st := &seqState{hash: hashMsg(nm)}
		sub.seqs[nm.SequenceNumber] = st
		sub.Next++
		sub.Data++
		w.Count("data_messages")
		n := count(nm)
		if n == 0 {
			b.fail("empty-message", "message %d of subscription %d holds notification data without notifications", nm.SequenceNumber, sub.ID)
		}
		if sub.MaxN > 0 && n > int(sub.MaxN) {
			b.fail("too-many-notifications", "message %d of subscription %d holds %d notifications, at most %d were allowed", nm.SequenceNumber, sub.ID, n, sub.MaxN)
		}
		b.ack(sub, nm.SequenceNumber)
		sub.held[nm.SequenceNumber] = nm
	} else {
		sub.KeepAlive++
		w.Count("keepalives")
	}
	if b.OnMsg != nil {
		b.OnMsg(sub, r)
	}
	b.recover(sub)
	b.deliver(sub)
}

func (b *Subber) ack(sub *SubRec, seq uint32) {
	switch b.AckMode {
	case 1:
		return
	case 2:
		if b.rnd.P(50) {
			return
		}
	}
	b.acks = append(b.acks, ua.SubscriptionAcknowledgement{SubscriptionID: sub.ID, SequenceNumber: seq})
}

func count(nm *ua.NotificationMessage) int {
	n := 0
	for _, d := range nm.NotificationData {
		switch x := d.(type) {
		case ua.DataChangeNotification:
			n += len(x.MonitoredItems)
		case ua.EventNotificationList:
			n += len(x.Events)
		}
	}
	return n
}

func statusChange(nm *ua.NotificationMessage) (ua.StatusCode, bool) {
	for _, d := range nm.NotificationData {
		if s, ok := d.(ua.StatusChangeNotification); ok {
			return s.Status, true
		}
	}
	return 0, false
}

// available checks the list of messages the server says it can republish.
func (b *Subber) available(p *raw.Pending, sub *SubRec, r *ua.PublishResponse, data bool) {
	has := map[uint32]bool{}
	prev := uint32(0)
	for _, q := range r.AvailableSequenceNumbers {
		if has[q] || q <= prev {
			b.fail("available", "subscription %d lists available messages %v", sub.ID, r.AvailableSequenceNumbers)
		}
		prev = q
		has[q] = true
		st := sub.seqs[q]
		if st == nil {
			if !(data && q == r.NotificationMessage.SequenceNumber) {
				b.fail("available", "subscription %d lists message %d as available, which was never sent (next %d)", sub.ID, q, sub.Next)
			}
			continue
		}
		if !st.maybe && st.ackIn != 0 && st.gen == b.gen && st.ackIn <= p.ReqID {
			b.fail("available", "subscription %d lists message %d as available after it was acknowledged", sub.ID, q)
		}
	}
	if data && !has[r.NotificationMessage.SequenceNumber] {
		b.fail("available", "subscription %d sends message %d and does not list it as available", sub.ID, r.NotificationMessage.SequenceNumber)
	}
	for q := sub.Next - 1; q >= 1 && q+100 > sub.Next; q-- {
		st := sub.seqs[q]
		if st != nil && !st.maybe && st.ackIn == 0 && !has[q] {
			b.fail("available", "subscription %d no longer lists message %d, which was not acknowledged", sub.ID, q)
		}
	}
	if len(r.AvailableSequenceNumbers) > 128 {
		b.fail("available", "subscription %d keeps %d messages", sub.ID, len(r.AvailableSequenceNumbers))
	}
}

// recover fetches lost messages by Republish.
func (b *Subber) recover(sub *SubRec) {
	for len(sub.missing) > 0 && b.C.Err() == nil && !sub.Deleted && sub.Status == 0 {
		q := sub.missing[0]
		nm, code, err := b.republish(sub.ID, q)
		if err != nil {
			return
		}
		if code != ua.Good && sub.Deleting {
			return
		}
		if code != ua.Good {
			b.fail("lost", "message %d of subscription %d was sent on a lost connection and cannot be republished: %v", q, sub.ID, code)
		}
		if nm.SequenceNumber != q {
			b.fail("republish", "asked for message %d of subscription %d and got %d", q, sub.ID, nm.SequenceNumber)
		}
		b.w.Count("recovered")
		sub.missing = sub.missing[1:]
		sub.seqs[q].hash = hashMsg(nm)
		sub.held[q] = nm
		sub.Data++
		b.ack(sub, q)
	}
}

// republish asks for a message.
func (b *Subber) republish(id, q uint32) (*ua.NotificationMessage, ua.StatusCode, error) {
	r, err := b.C.Do(&ua.RepublishRequest{SubscriptionID: id, RetransmitSequenceNumber: q}, longWait)
	if err != nil {
		return nil, 0, err
	}
	if rr, ok := r.(*ua.RepublishResponse); ok && rr.ServiceResult == ua.Good {
		return &rr.NotificationMessage, ua.Good, nil
	}
	return nil, r.Header().ServiceResult, nil
}

// Probe republishes a message chosen by k and checks the answer; runs in the worker.
func (b *Subber) Probe(k int) {
	b.Run(func() {
		ids := b.ids()
		if len(ids) == 0 {
			return
		}
		sub := b.subs[ids[k%len(ids)]]
		k /= len(ids)
		if sub.Deleting || sub.Status != 0 {
			return
		}
		if k%7 == 0 {
			if _, code, err := b.republish(8888888, 1); err == nil && code != ua.BadSubscriptionIDInvalid {
				b.fail("republish", "republish for a subscription that does not exist gave %v", code)
			}
			return
		}
		if k%7 == 1 {
			if _, code, err := b.republish(sub.ID, sub.Next+1000); err == nil && code != ua.BadMessageNotAvailable {
				b.fail("republish", "republish of a message that was never sent gave %v", code)
			}
			return
		}
		if sub.Next <= 1 {
			return
		}
		lo := uint32(1)
		if sub.Next > 90 {
			lo = sub.Next - 90
		}
		q := lo + uint32(k/7)%(sub.Next-lo)
		st := sub.seqs[q]
		if st == nil || st.maybe || st.hash == 0 {
			return
		}
		nm, code, err := b.republish(sub.ID, q)
		if err != nil {
			return
		}
		switch {
		case st.ackIn != 0 && st.gen == b.gen:
			if code != ua.BadMessageNotAvailable {
				b.fail("republish", "republish of message %d of subscription %d, which was acknowledged, gave %v", q, sub.ID, code)
			}
			b.w.Count("republish_acked")
		case st.ackIn == 0:
			if code != ua.Good {
				b.fail("republish", "republish of message %d of subscription %d, which was not acknowledged, gave %v", q, sub.ID, code)
			}
			if nm.SequenceNumber != q || hashMsg(nm) != st.hash {
				b.fail("republish", "message %d of subscription %d is republished with another content", q, sub.ID)
			}
			b.w.Count("republish_unacked")
		}
	})
}

// deliver hands complete messages over in order.
func (b *Subber) deliver(sub *SubRec) {
	for {
		nm := sub.held[sub.heldNext]
		if nm == nil {
			return
		}
		delete(sub.held, sub.heldNext)
		sub.heldNext++
		if b.OnNotif == nil {
			continue
		}
		for _, d := range nm.NotificationData {
			switch x := d.(type) {
			case ua.DataChangeNotification:
				for _, n := range x.MonitoredItems {
					b.OnNotif(Notif{Sub: sub.ID, Seq: nm.SequenceNumber, Handle: n.ClientHandle, Value: n.Value, At: b.w.Now()})
				}
			case ua.EventNotificationList:
				for _, n := range x.Events {
					b.OnNotif(Notif{Sub: sub.ID, Seq: nm.SequenceNumber, Handle: n.ClientHandle, Event: n.EventFields, At: b.w.Now()})
				}
			default:
				b.fail("notification-type", "notification data of type %T", d)
			}
		}
	}
}

// Reconnect opens a new channel and takes the session over.
func (b *Subber) Reconnect() {
	b.Run(func() {
		old := b.C
		old.Disconnect()
		<-old.Closed
		// what was received before counts
		b.mu.Lock()
		var mine, rest []subEv
		for _, e := range b.evq {
			if e.c == old {
				mine = append(mine, e)
			} else {
				rest = append(rest, e)
			}
		}
		b.evq = rest
		b.mu.Unlock()
		b.dead = true
		for _, e := range mine {
			b.message(e)
		}
		b.dead = false
		for _, e := range old.Anomalies() {
			b.fail("anomaly", "%s", e)
		}
		b.lostMax += b.out
		b.out = 0
		b.acks = nil
		b.want = map[uint32][]ua.StatusCode{}
		for _, sub := range b.subs {
			for _, st := range sub.seqs {
				if st.ackIn != 0 {
					st.maybe = true
				}
			}
		}
		b.gen++
		o := b.opts
		o.NoSess = true
		c, err := b.s.Connect(o)
		if err != nil {
			b.fail("connect-refused", "reconnecting: %v\n%s", err, Stacks())
		}
		c.Token, c.SessID, c.SNonce, c.SCert = old.Token, old.SessID, old.SNonce, old.SCert
		b.attach(c)
		if err := c.Activate(b.s.UserOf(c, b.opts.User), longWait); err != nil {
			b.fail("takeover-refused", "ActivateSession on a new channel: %v\n%s", err, Stacks())
		}
		b.C = c
		b.w.Count("reconnects")
		// messages received but not yet acknowledged
		for _, id := range b.ids() {
			sub := b.subs[id]
			for q := uint32(1); q < sub.Next; q++ {
				if st := sub.seqs[q]; st != nil && st.ackIn == 0 && !st.maybe && st.hash != 0 && q+100 > sub.Next {
					b.ack(sub, q)
				}
			}
			b.recover(sub)
			b.deliver(sub)
		}
	})
}

// Do sends a request on the current connection and waits.
func (b *Subber) Do(req ua.ServiceRequest) (r ua.ServiceResponse, err error) {
	return b.C.Do(req, longWait)
}

// Must sends a request that has to succeed.
func (b *Subber) Must(req ua.ServiceRequest) ua.ServiceResponse {
	r, err := b.Do(req)
	if !good(r, err) {
		b.fail("refused", "%T: %s\n%s", req, sr(r, err), Stacks())
	}
	return r
}

// CreateSub creates a subscription and returns its record.
func (b *Subber) CreateSub(q *ua.CreateSubscriptionRequest) *SubRec {
	r := b.Must(q).(*ua.CreateSubscriptionResponse)
	var rec *SubRec
	b.Run(func() { rec = b.subs[r.SubscriptionID] })
	return rec
}

// item builds a create request.
func monItem(id string, handle uint32, sampling float64, queue uint32, discardOldest bool, filter any, mode ua.MonitoringMode) ua.MonitoredItemCreateRequest {
	return ua.MonitoredItemCreateRequest{
		ItemToMonitor:       ua.ReadValueID{NodeID: nid(id), AttributeID: ua.AttributeIDValue},
		MonitoringMode:      mode,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: handle, SamplingInterval: sampling, Filter: filter, QueueSize: queue, DiscardOldest: discardOldest},
	}
}

// CreateItems creates monitored items that have to be accepted.
func (b *Subber) CreateItems(sub uint32, ts ua.TimestampsToReturn, items ...ua.MonitoredItemCreateRequest) []ua.MonitoredItemCreateResult {
	r := b.Must(&ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ts, ItemsToCreate: items}).(*ua.CreateMonitoredItemsResponse)
	if len(r.Results) != len(items) {
		b.fail("wrong-response", "%d results for %d items", len(r.Results), len(items))
	}
	for i, x := range r.Results {
		if x.StatusCode != ua.Good {
			b.fail("refused", "creating the item for %v: %v", items[i].ItemToMonitor.NodeID, x.StatusCode)
		}
	}
	return r.Results
}

// Settle waits until every live subscription was quiet: two keep-alives in a
// row, with nothing missing, within the time the intervals allow.
func (b *Subber) Settle(extra time.Duration) {
	b.Run(func() {
		if b.target < 2 {
			b.target = 2
		}
	})
	type mark struct{ ka, data int }
	at := map[uint32]mark{}
	var limit time.Duration
	b.Run(func() {
		limit = extra
		for _, s := range b.subs {
			if s.Deleted || s.Status != 0 {
				continue
			}
			l := time.Duration(s.Keep+4)*s.Interval*4 + extra
			limit += l
			at[s.ID] = mark{s.KeepAlive, s.Data}
		}
		limit += time.Duration(b.lostMax) * 60 * time.Second
	})
	start := b.w.Now()
	begin := start
	for {
		ok := true
		b.Run(func() {
			for id, m := range at {
				s := b.subs[id]
				if s.Status != 0 {
					b.fail("expired", "subscription %d ended (%v) although publish requests were outstanding", s.ID, s.Status)
				}
				if s.Data != m.data {
					at[id] = mark{s.KeepAlive, s.Data}
					ok = false
					if b.w.Now()-begin < 2*time.Hour {
						start = b.w.Now() // a backlog is being sent
					}
				} else if s.KeepAlive < m.ka+2 || len(s.missing) > 0 {
					ok = false
				}
			}
		})
		if ok {
			return
		}
		if b.C.Err() != nil {
			b.fail("connection-lost", "the connection ended without a fault: %v\n%s", b.C.Err(), Stacks())
		}
		if b.w.Now()-start > limit {
			b.fail("not-quiet", "subscriptions are not quiet %v after the last fault and write: %s\n%s", b.w.Now()-start, b.describe(), Stacks())
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func (b *Subber) describe() string {
	s := fmt.Sprintf("outstanding %d;", b.out)
	for _, id := range b.ids() {
		x := b.subs[id]
		s += fmt.Sprintf(" sub %d interval %v keep %d next %d data %d keepalives %d missing %v last %v;", id, x.Interval, x.Keep, x.Next, x.Data, x.KeepAlive, x.missing, x.Last)
	}
	return s
}

// CheckAnomalies fails on protocol anomalies of the current connection.
func (b *Subber) CheckAnomalies() {
	for _, e := range b.C.Anomalies() {
		b.fail("anomaly", "%s", e)
	}
}

var _ = binary.LittleEndian
