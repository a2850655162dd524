package scen

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P06: a session lives as long as it is used at least once per timeout, over
// lost connections and clock jumps, and is gone soon after that.
func init() { register(&Scenario{Prop: "P06", Gen: genP06, Run: runP06}) }

func genP06(g Gen, p *Plan) {
	nc := int(g.Range(1, 4))
	p.P["clients"] = int64(nc)
	p.P["max"] = int64(2*nc) + g.Range(1, 3)
	p.P["diag"] = g.Pick(0, 1)
	left := int64(40 * 60) // simulated seconds
	kinds := []string{"read", "read", "browse", "badread", "mode", "resume", "resume", "move", "close", "sub", "pub", "unact", "wall"}
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, g.Range(1, int64(len(secs)-1)))
		p.P[fmt.Sprintf("timeout%d", a)] = g.Pick(0, 1, 5000, 10000, 10000, 12345, 15000, 30000, 60000, 120000)
		n := int(g.Range(4, 12))
		if p.Tier == "thorough" {
			n = int(g.Range(6, 30))
		}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{A: a, K: kinds[g.N(len(kinds))], I: []int64{g.Pick(0, 200, 500, 800, 900, 950, 970, 985, 985, 1015, 1100, 1600, 2500), int64(g.U64() % 1000000), g.Pick(0, 0, 0, 1)}})
		}
	}
	_ = left
}

type p06cl struct {
	a     int
	x     *p06
	c     *raw.Client
	t     time.Duration
	sent  time.Time // of the last request that counts
	recv  time.Time
	alive bool
	sub   uint32
	start time.Time
	rel   time.Time
}

type p06 struct {
	w *World
	s *Srv
}

func runP06(w *World) {
	nc := int(w.P("clients"))
	s := w.NewServer(SrvOpts{DiagOff: w.P("diag") == 0, Extra: []server.Option{server.WithMaxSessionCount(uint32(w.P("max")))}})
	s.AddVar("V", int64(7), ua.DataTypeIDInt64, -1, VarOpts{})
	s.Serve()
	w.StartSched()
	x := &p06{w: w, s: s}
	var mu sync.Mutex
	var maxT time.Duration
	w.Actors(nc, func(a int, ops []Op) {
		cl := &p06cl{a: a, x: x, start: time.Now()}
		cl.connect()
		cl.create()
		for i, op := range ops {
			if time.Since(cl.start) > 35*time.Minute {
				break
			}
			cl.op(i, op)
			mu.Lock()
			if cl.t > maxT {
				maxT = cl.t
			}
			mu.Unlock()
		}
		cl.c.Disconnect()
	})
	// when all are gone, the whole number of sessions can be used again
	time.Sleep(maxT + 12*time.Second)
	var all []*raw.Client
	for i := 0; i < int(w.P("max")); i++ {
		c, err := s.Connect(RawOpts{Wait: 60 * time.Second})
		if err != nil {
			w.Fail("not-released", "all sessions have been gone for more than 12 s, but session %d of %d is refused: %v", i+1, w.P("max"), err)
		}
		all = append(all, c)
	}
	for _, c := range all {
		c.Disconnect()
	}
}

func (cl *p06cl) connect() {
	c, err := cl.x.s.Connect(RawOpts{Sec: int(cl.x.w.P(fmt.Sprintf("sec%d", cl.a))), NoSess: true})
	if err != nil {
		cl.x.w.Fail("connect-refused", "client %d could not connect: %v\n%s", cl.a, err, Stacks())
	}
	if cl.c != nil {
		c.Token, c.SessID, c.SNonce, c.SCert, c.Timeout = cl.c.Token, cl.c.SessID, cl.c.SNonce, cl.c.SCert, cl.c.Timeout
	}
	cl.c = c
}

func (cl *p06cl) create() {
	w, s := cl.x.w, cl.x.s
	req := float64(w.P(fmt.Sprintf("timeout%d", cl.a)))
	cl.sent = time.Now()
	r, err := cl.c.CreateSession(raw.SessionOpts{AppURI: "urn:simhost:client1", Timeout: req, Name: "s"}, longWait)
	if err != nil {
		// the sessions of others may not be gone yet: at most max are alive
		w.Fail("create-refused", "client %d: CreateSession: %v", cl.a, err)
	}
	cl.t = time.Duration(r.RevisedSessionTimeout * float64(time.Millisecond))
	if r.RevisedSessionTimeout < req && req <= 3600000 || cl.t < time.Second || cl.t > 2*time.Hour {
		w.Fail("timeout-revised", "a session timeout of %v ms was revised to %v ms", req, r.RevisedSessionTimeout)
	}
	cl.sub = 0
	if err := cl.c.Activate(s.UserOf(cl.c, ""), longWait); err != nil {
		w.Fail("activate-refused", "client %d: ActivateSession: %v", cl.a, err)
	}
	cl.recv = time.Now()
	cl.alive = true
}

// result judges the outcome of a request of the session.
func (cl *p06cl) result(what string, sent time.Time, r ua.ServiceResponse, err error) bool {
	w := cl.x.w
	now := time.Now()
	ok := err == nil && r.Header().ServiceResult == ua.Good
	if err != nil {
		w.Fail("no-answer", "client %d: %s was not answered: %v\n%s", cl.a, what, err, Stacks())
	}
	switch {
	case !cl.alive:
		if ok {
			w.Fail("dead-served", "client %d: %s was served in a session that had ended", cl.a, what)
		}
	case ok:
		if sent.Sub(cl.recv) > cl.t+100*time.Millisecond {
			w.Fail("not-expired", "client %d: %s was served although the session (timeout %v) had not been used for %v", cl.a, what, cl.t, sent.Sub(cl.recv))
		}
		cl.sent, cl.recv = sent, now
		w.Count("served")
	default:
		if now.Sub(cl.sent) <= cl.t {
			w.Fail("expired-early", "client %d: %s was refused with %v %v after the last request of the session; its timeout is %v", cl.a, what, r.Header().ServiceResult, now.Sub(cl.sent), cl.t)
		}
		w.Count("expired")
		w.NonTrivial()
		cl.alive = false
	}
	return ok
}

func (cl *p06cl) do(what string, q ua.ServiceRequest) (ua.ServiceResponse, bool) {
	t := time.Now()
	r, err := cl.c.Do(q, longWait)
	return r, cl.result(what, t, r, err)
}

func (cl *p06cl) activate(what string) bool {
	w, s := cl.x.w, cl.x.s
	q, err := cl.c.ActivateRequest(s.UserOf(cl.c, ""))
	if err != nil {
		w.Fail("harness", "ActivateRequest: %v", err)
	}
	t := time.Now()
	r, err := cl.c.Do(q, longWait)
	ok := cl.result(what, t, r, err)
	if ok {
		cl.c.SNonce = []byte(r.(*ua.ActivateSessionResponse).ServerNonce)
	}
	return ok
}

func (cl *p06cl) op(i int, op Op) {
	w := cl.x.w
	if op.K == "wall" {
		d := []int64{3600, -3600, 86400 * 400, -86400 * 400, 5, -5}[op.I[1]%6]
		runtime.SimAddWall(d * int64(time.Second))
		w.Fault("clock_jump")
	}
	if op.K == "resume" && op.I[1]%3 == 0 {
		// the connection breaks at once, not just before the client returns
		cl.c.Disconnect()
		w.Fault("conn_lost")
	}
	if gap := cl.t * time.Duration(op.I[0]) / 1000; op.I[2] == 0 || op.I[0] < 1000 {
		time.Sleep(time.Until(cl.sent.Add(gap)))
	}
	what := fmt.Sprintf("operation %d (%s)", i, op.K)
	switch op.K {
	case "read", "wall":
		cl.do(what, readVal("V"))
	case "browse":
		cl.do(what, &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: nid("Root"), IncludeSubtypes: true, ResultMask: 63}}})
	case "badread":
		// an error in the request's items still counts as use
		cl.do(what, readVal("no such node"))
	case "mode":
		r, ok := cl.do(what, &ua.SetPublishingModeRequest{SubscriptionIDs: []uint32{4000000}})
		if ok && r.(*ua.SetPublishingModeResponse).Results[0] == ua.Good {
			w.Fail("bad-answer", "SetPublishingMode of an unknown subscription is Good")
		}
	case "sub":
		if r, ok := cl.do(what, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1000, PublishingEnabled: true}); ok {
			cl.sub = r.(*ua.CreateSubscriptionResponse).SubscriptionID
		}
	case "pub":
		if cl.sub != 0 && cl.alive {
			// a waiting Publish request is a use of the session when it arrives, and no later
			cl.do(what+" before", readVal("V"))
			if cl.alive {
				t := time.Now()
				cl.c.Start(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 3600000}})
				r, err := cl.c.Do(readVal("V"), longWait)
				cl.result(what, t, r, err)
			}
		} else {
			cl.do(what, readVal("V"))
		}
	case "resume", "move":
		if op.K == "resume" {
			cl.c.Disconnect()
			w.Fault("conn_lost")
		}
		old := cl.c
		was := cl.alive
		cl.connect()
		if cl.activate(what) {
			w.Count("resumed")
			if r, ok := cl.do(what+" afterwards", readVal("V")); ok && r.(*ua.ReadResponse).Results[0].Value != int64(7) {
				w.Fail("bad-answer", "read after resuming: %v", r.(*ua.ReadResponse).Results[0])
			}
			if cl.sub != 0 && cl.alive {
				r, ok := cl.do(what+" subscription", &ua.ModifySubscriptionRequest{SubscriptionID: cl.sub, RequestedPublishingInterval: 1000, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1000})
				_ = r
				if ok {
					w.Count("sub_kept")
				}
			}
			if op.K == "move" {
				// the old channel is no longer the session's
				r, err := old.Do(readVal("V"), longWait)
				if good(r, err) {
					w.Fail("two-channels", "a session moved to another channel is still served on the old one")
				}
				cl.recv = time.Now() // may count as use
			}
		} else if was {
			w.Count("resume_late")
		}
		old.Disconnect()
	case "close":
		if _, ok := cl.do(what, &ua.CloseSessionRequest{DeleteSubscriptions: true}); ok {
			cl.alive = false
			cl.do("a request after CloseSession", readVal("V"))
		}
	case "unact":
		// a session that is never activated ends too
		r, err := cl.x.s.Connect(RawOpts{NoSess: true})
		if err != nil {
			w.Fail("connect-refused", "connect: %v", err)
		}
		if _, err := r.CreateSession(raw.SessionOpts{AppURI: "urn:simhost:client1", Timeout: 10000, Name: "u"}, longWait); err == nil {
			w.Count("unactivated")
			time.Sleep(time.Duration(op.I[1]%12000+10200) * time.Millisecond)
			if err := r.Activate(cl.x.s.UserOf(r, ""), longWait); err == nil {
				w.Fail("not-expired", "a session with a timeout of 10 s was activated more than 10.1 s after it was created")
			}
		}
		r.Disconnect()
		cl.do(what, readVal("V"))
	}
	w.State(cl.a, cl.alive, op.K, i)
	if !cl.alive {
		// stays dead
		cl.do("a later request", readVal("V"))
		if op.I[1]%2 == 0 {
			cl.activate("a later activation")
		}
		time.Sleep(8 * time.Second)
		cl.c.Disconnect()
		cl.c = nil
		cl.connect()
		cl.create()
	}
}
