package scen

import (
	"bytes"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P05: only an activated session is served, on the channel it is bound to, with
// the identity that was proved last; every failed or missing proof is refused.
func init() { register(&Scenario{Prop: "P05", Gen: genP05, Run: runP05}) }

func genP05(g Gen, p *Plan) {
	na := int(g.Range(1, 3))
	p.P["actors"] = int64(na)
	p.P["noneoff"] = g.Pick(0, 0, 0, 1)
	p.P["anonoff"] = g.Pick(0, 0, 1)
	p.P["workers"] = g.Pick(1, 2, 4)
	p.P["ident"] = g.Pick(0, 0, 1)
	n := int(g.Range(3, 9))
	if p.Tier == "thorough" {
		n = int(g.Range(4, 24))
	}
	kinds := []string{"honest", "noact", "forge", "forge", "badact", "badact", "badact", "reauthfail", "reauthfail", "switch", "move", "steal", "steal",
		"replay", "race", "race", "race", "disc", "closed", "expired"}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{A: g.N(na), D: g.Pick(0, 0, 1000, 50000, 1500000), K: kinds[g.N(len(kinds))],
			I: []int64{int64(g.U64() % 1000000), int64(g.U64() % 1000000), int64(g.U64() % 1000000), int64(g.U64() % 1000000)}})
	}
}

type p05 struct {
	w      *World
	s      *Srv
	mu     sync.Mutex
	nonces map[string]bool
	tokens map[string]bool
	open   []*raw.Client // sessions of others, for stealing
	n      int64
}

func runP05(w *World) {
	x := &p05{w: w, nonces: map[string]bool{}, tokens: map[string]bool{}}
	auth := server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, app string, ep string) error {
		if u.UserName == "weird" {
			return errors.New("the directory does not answer")
		}
		if knownUsers[u.UserName] != "" && knownUsers[u.UserName] == u.Password {
			return nil
		}
		return ua.BadUserAccessDenied
	})
	x.s = w.NewServer(SrvOpts{NoneOff: w.P("noneoff") == 1, AnonOff: w.P("anonoff") == 1, Workers: int(w.P("workers")), Extra: []server.Option{auth},
		Ident: []string{"server", "server2"}[w.P("ident")]})
	s := x.s
	s.AddVar("Secret", int64(7777777), ua.DataTypeIDInt64, -1, VarOpts{})
	s.AddVar("W", int64(0), ua.DataTypeIDInt64, -1, VarOpts{})
	s.AddMethod("WhoAmI", "Root", nil, func(ss *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		u := userName(ss.UserIdentity())
		if len(r.InputArguments) > 0 && r.InputArguments[0] == int64(666) {
			w.Fail("unauthenticated-served", "a method was executed for a request that had to be refused (session user %s)", u)
		}
		return ua.CallMethodResult{OutputArguments: []ua.Variant{u}}
	})
	w.StartSched()
	s.Serve()
	w.Actors(int(w.P("actors")), func(a int, ops []Op) {
		for _, o := range ops {
			o.Sleep()
			x.do(o)
		}
	})
	if v, _ := s.NM.FindVariable(nid("W")); v != nil && v.Value().Value == int64(666) {
		w.Fail("unauthenticated-served", "a write that had to be refused took effect")
	}
	w.NonTrivial()
}

func userName(id any) string {
	switch u := id.(type) {
	case ua.UserNameIdentity:
		return u.UserName
	case ua.AnonymousIdentity:
		return "anon"
	case ua.X509Identity:
		return "x509"
	}
	return fmt.Sprintf("%T", id)
}

func (x *p05) sec(n int64) int {
	i := int(n) % len(secs)
	if i == 0 && x.w.P("noneoff") == 1 {
		i = 1
	}
	return i
}

func (x *p05) user(n int64) string {
	l := []string{"root", "user1", "user2", "x509", "anon"}
	if x.w.P("anonoff") == 1 {
		l = l[:4]
	}
	return l[int(n)%len(l)]
}

func (x *p05) fail(class, f string, a ...any) { x.w.Fail(class, f, a...) }

func (x *p05) saw(nonce []byte, tok ua.NodeID) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(nonce) < 32 {
		x.fail("nonce", "the server's nonce has %d bytes", len(nonce))
	}
	if x.nonces[string(nonce)] {
		x.fail("nonce", "the server gave a nonce twice")
	}
	x.nonces[string(nonce)] = true
	if tok != nil {
		k := fmt.Sprint(tok)
		if x.tokens[k] {
			x.fail("token", "the server gave an authentication token twice")
		}
		x.tokens[k] = true
		o, ok := tok.(ua.NodeIDOpaque)
		if !ok || len(o.ID) < 16 {
			x.fail("token", "the authentication token %v can be guessed", tok)
		}
	}
}

// connect opens a channel.
func (x *p05) connect(sec int, me string) *raw.Client {
	c, err := x.s.Connect(RawOpts{Sec: sec, Me: me, NoSess: true})
	if err != nil {
		x.fail("connect-refused", "channel %v: %v\n%s", secs[sec], err, Stacks())
	}
	return c
}

func (x *p05) create(c *raw.Client, me string, timeout float64) {
	if me == "" {
		me = "client1"
	}
	cs, err := c.CreateSession(raw.SessionOpts{AppURI: "urn:simhost:" + me, Timeout: timeout, Name: "s"}, longWait)
	if err != nil {
		x.fail("connect-refused", "CreateSession: %v", err)
	}
	x.saw([]byte(cs.ServerNonce), cs.AuthenticationToken)
}

// activate must succeed.
func (x *p05) activate(c *raw.Client, user string) {
	if err := c.Activate(x.s.UserOf(c, user), longWait); err != nil {
		x.fail("activation-refused", "user %s with valid credentials over %s mode %d: %v", user, c.P.Name, c.Mode, err)
	}
	x.saw(c.SNonce, nil)
}

func (x *p05) session(sec int, me, user string, timeout float64) *raw.Client {
	c := x.connect(sec, me)
	x.create(c, me, timeout)
	x.activate(c, user)
	return c
}

// served: the session is served as the user.
func (x *p05) served(c *raw.Client, user, why string) {
	r, err := c.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("WhoAmI", int64(1))}}, longWait)
	if !good(r, err) {
		x.fail("session-refused", "%s: an activated session (user %s) is not served: %s", why, user, sr(r, err))
	}
	m := r.(*ua.CallResponse).Results[0]
	if m.StatusCode != ua.Good || len(m.OutputArguments) != 1 {
		x.fail("session-refused", "%s: the call of user %s gave %v", why, user, m.StatusCode)
	}
	if m.OutputArguments[0] != user {
		x.fail("wrong-identity", "%s: the session acts as %v instead of %s", why, m.OutputArguments[0], user)
	}
	x.w.Count("served")
}

// probe sends a request that must be refused.
func (x *p05) probe(c *raw.Client, tok ua.NodeID, n int64, why string) {
	if tok == nil {
		tok = ua.NodeIDNumeric{}
	}
	var q ua.ServiceRequest
	switch n % 20 {
	case 0, 1:
		q = readVal("Secret")
	case 2:
		q = writeReq("W", int64(666), "")
	case 3:
		q = &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("WhoAmI", int64(666))}}
	case 4:
		q = &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: nid("Root"), ReferenceTypeID: ua.ReferenceTypeIDReferences, IncludeSubtypes: true, ResultMask: 63}}}
	case 5:
		q = &ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: ua.ObjectIDObjectsFolder, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: ua.NewQualifiedName(2, "Root")}}}}}}
	case 6:
		q = &ua.RegisterNodesRequest{NodesToRegister: []ua.NodeID{nid("W")}}
	case 7:
		q = &ua.UnregisterNodesRequest{NodesToUnregister: []ua.NodeID{nid("W")}}
	case 8:
		q = &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 10, PublishingEnabled: true}
	case 9:
		q = &ua.PublishRequest{}
	case 10:
		q = &ua.HistoryReadRequest{HistoryReadDetails: ua.ReadRawModifiedDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now()}, NodesToRead: []ua.HistoryReadValueID{{NodeID: nid("W")}}}
	case 11:
		q = &ua.CreateMonitoredItemsRequest{SubscriptionID: 1, ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem("W", 1, 0, 1, true, nil, ua.MonitoringModeReporting)}}
	case 12:
		q = &ua.CancelRequest{RequestHandle: 5}
	case 13:
		q = &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{1, 2, 3}}
	case 14:
		q = &ua.RepublishRequest{SubscriptionID: 1, RetransmitSequenceNumber: 1}
	case 15:
		q = &ua.SetPublishingModeRequest{SubscriptionIDs: []uint32{1}}
	case 16:
		q = &ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{"x"}, ReleaseContinuationPoints: n/20%2 == 0}
	case 17:
		q = &ua.SetTriggeringRequest{SubscriptionID: 1, TriggeringItemID: 1, LinksToAdd: []uint32{2}}
	case 18:
		switch n / 20 % 4 {
		case 0:
			q = &ua.ModifySubscriptionRequest{SubscriptionID: 1, RequestedPublishingInterval: 1000, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 10}
		case 1:
			q = &ua.ModifyMonitoredItemsRequest{SubscriptionID: 1, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: 1}}}
		case 2:
			q = &ua.SetMonitoringModeRequest{SubscriptionID: 1, MonitoredItemIDs: []uint32{1}}
		case 3:
			q = &ua.DeleteMonitoredItemsRequest{SubscriptionID: 1, MonitoredItemIDs: []uint32{1}}
		}
	case 19:
		q = &ua.CloseSessionRequest{DeleteSubscriptions: true}
	}
	q.Header().AuthenticationToken = tok
	x.refused(c, q, why)
}

func (x *p05) refused(c *raw.Client, q ua.ServiceRequest, why string) {
	r, err := c.Do(q, longWait)
	x.w.Count("probe")
	if errors.Is(err, raw.ErrTimeout) {
		x.fail("unanswered", "%s: %T was not answered\n%s", why, q, Stacks())
	}
	if err != nil {
		x.w.Count("refused_by_close")
		return
	}
	code := r.Header().ServiceResult
	if uint32(code)&0x80000000 == 0 {
		x.fail("unauthenticated-served", "%s: %T was answered with %T %v", why, q, r, code)
	}
	if _, ok := r.(*ua.ServiceFault); !ok {
		x.fail("unauthenticated-served", "%s: %T was answered with %T %v", why, q, r, code)
	}
	switch code {
	case ua.BadSubscriptionIDInvalid, ua.BadNoSubscription, ua.BadNothingToDo, ua.BadMessageNotAvailable:
		x.fail("unauthenticated-served", "%s: %T was processed: %v", why, q, code)
	}
	x.w.Count("refused")
}

// notActivated sends an ActivateSession that must fail.
func (x *p05) notActivated(c *raw.Client, q *ua.ActivateSessionRequest, why string) {
	r, err := c.Do(q, longWait)
	x.w.Count("bad_activation")
	if errors.Is(err, raw.ErrTimeout) {
		x.fail("unanswered", "%s: not answered\n%s", why, Stacks())
	}
	if err == nil && uint32(r.Header().ServiceResult)&0x80000000 == 0 {
		x.fail("bad-activation-accepted", "%s: %T %v", why, r, r.Header().ServiceResult)
	}
	if err != nil {
		x.w.Count("refused_by_close")
	}
}

func (x *p05) close(c *raw.Client) {
	x.mu.Lock()
	for i, o := range x.open {
		if o == c {
			x.open = append(x.open[:i], x.open[i+1:]...)
			break
		}
	}
	x.mu.Unlock()
	if c.Err() == nil {
		c.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}, longWait)
	}
	c.Disconnect()
}

// bad builds an activation without a valid proof; "" when the variant does not
// apply to the channel.
func (x *p05) bad(c *raw.Client, n, m int64) (*ua.ActivateSessionRequest, string) {
	s := x.s
	user := []string{"root", "user1", "user2"}[m%3]
	mk := func(u raw.User) *ua.ActivateSessionRequest {
		q, err := c.ActivateRequest(u)
		if err != nil {
			panic(err)
		}
		return q
	}
	u := s.UserOf(c, user)
	xu := s.UserOf(c, "x509")
	secured := c.Mode != raw.ModeNone
	enc := raw.Policies[u.Policy] != nil && raw.Policies[u.Policy].Nonce > 0
	xsec := raw.Policies[xu.Policy] != nil && raw.Policies[xu.Policy].Nonce > 0
	switch n % 20 {
	case 0:
		u.Password += "x"
		return mk(u), "wrong password"
	case 1:
		u.Password = u.Password[:len(u.Password)-1]
		return mk(u), "password without its last character"
	case 2:
		u.Name = "nobody"
		return mk(u), "unknown user"
	case 3:
		u.Name = ""
		return mk(u), "empty user name"
	case 4:
		u.PolicyID = "nosuch"
		return mk(u), "unknown token policy"
	case 5:
		u.Password = ""
		return mk(u), "empty password"
	case 6:
		if !secured {
			return nil, ""
		}
		q := mk(u)
		b := []byte(q.ClientSignature.Signature)
		b[int(m)%len(b)] ^= 1 << (m % 8)
		q.ClientSignature.Signature = ua.ByteString(b)
		return q, "altered client signature"
	case 7:
		if !secured {
			return nil, ""
		}
		q := mk(u)
		q.ClientSignature = ua.SignatureData{}
		return q, "no client signature"
	case 8:
		if !secured {
			return nil, ""
		}
		q := mk(u)
		d := append(append([]byte(nil), c.SCert...), bytes.Repeat([]byte{7}, 32)...)
		sg, _ := c.P.RSASign(c.Me.Key, d)
		q.ClientSignature.Signature = ua.ByteString(sg)
		return q, "client signature over another nonce"
	case 9:
		if !secured {
			return nil, ""
		}
		q := mk(u)
		sg, _ := c.P.RSASign(ident("rogue").Key, append(append([]byte(nil), c.SCert...), c.SNonce...))
		q.ClientSignature.Signature = ua.ByteString(sg)
		return q, "client signature with another key"
	case 10:
		if !enc {
			return nil, ""
		}
		u.BadNonce = true
		return mk(u), "password encrypted with another nonce"
	case 11:
		if !enc {
			return nil, ""
		}
		q := mk(u)
		t := q.UserIdentityToken.(ua.UserNameIdentityToken)
		t.Password = ua.ByteString(knownUsers[user])
		if m%2 == 0 {
			t.EncryptionAlgorithm = ""
		}
		q.UserIdentityToken = t
		return q, "password in clear where it must be encrypted"
	case 12:
		if !xsec {
			return nil, ""
		}
		xu.SigData = append(append([]byte(nil), c.SCert...), bytes.Repeat([]byte{7}, 32)...)
		return mk(xu), "user certificate with a signature over another nonce"
	case 13:
		if !xsec {
			return nil, ""
		}
		xu.Ident = &raw.Ident{Cert: ident("user1").Cert, Key: ident("rogue").Key}
		return mk(xu), "user certificate signed with another key"
	case 14:
		xu.Ident = ident("rogue")
		return mk(xu), "a certificate that is no user's"
	case 15:
		if !xsec {
			return nil, ""
		}
		q := mk(xu)
		q.UserTokenSignature = ua.SignatureData{}
		return q, "user certificate without a signature"
	case 16:
		return mk(raw.User{Kind: "raw"}), "no identity token"
	case 17:
		return mk(raw.User{Kind: "raw", RawToken: ua.IssuedIdentityToken{PolicyID: xu.PolicyID, TokenData: "abc"}}), "an issued token nobody validates"
	case 18:
		if x.w.P("anonoff") == 0 {
			return mk(raw.User{Kind: "raw", RawToken: ua.AnonymousIdentityToken{PolicyID: u.PolicyID}}), "anonymous with the policy of user names"
		}
		id, _, _ := s.tokenPolicy(c.P.Name, c.Mode, ua.UserTokenTypeAnonymous)
		if id == "" {
			id = "Anonymous"
		}
		return mk(raw.User{Kind: "anon", PolicyID: id}), "anonymous where it is not allowed"
	case 19:
		u.Name = "weird"
		return mk(u), "a user whose check fails with another error"
	}
	return nil, ""
}

func (x *p05) do(o Op) {
	w, s := x.w, x.s
	sec := x.sec(o.Arg(0))
	user := x.user(o.Arg(1))
	w.Count(o.K)
	w.State(o.K, sec, user)
	switch o.K {
	case "honest":
		c := x.session(sec, "", user, 60000)
		x.served(c, user, "honest")
		r, err := c.Do(readVal("Secret"), longWait)
		if !good(r, err) || r.(*ua.ReadResponse).Results[0].Value != int64(7777777) {
			x.fail("session-refused", "reading as %s: %s", user, sr(r, err))
		}
		x.mu.Lock()
		x.open = append(x.open, c)
		x.mu.Unlock()
		time.Sleep(time.Duration(o.Arg(2)%3000) * time.Millisecond)
		x.served(c, user, "honest")
		x.close(c)

	case "noact":
		c := x.connect(sec, "")
		if o.Arg(3)%3 == 0 { // no session at all
			x.probe(c, nil, o.Arg(2), "no session")
		} else {
			x.create(c, "", 60000)
			x.probe(c, c.Token, o.Arg(2), "session never activated")
		}
		c.Disconnect()

	case "forge":
		c := x.connect(sec, "")
		x.create(c, "", 60000)
		x.activate(c, user)
		var t ua.NodeID
		why := ""
		switch o.Arg(3) % 7 {
		case 0:
			t, why = ua.NewNodeIDOpaque(0, ua.ByteString(fmt.Sprintf("%032d", o.Arg(2)))), "a made-up token"
		case 1:
			t, why = c.SessID, "the session id as token"
		case 2:
			t, why = ua.NodeIDNumeric{}, "the null token"
		case 3:
			t, why = ua.NodeIDString{ID: "admin"}, "a string token"
		case 4:
			b := []byte(c.Token.(ua.NodeIDOpaque).ID)
			b[int(o.Arg(2))%len(b)] ^= 1
			t, why = ua.NewNodeIDOpaque(0, ua.ByteString(b)), "a token with one bit changed"
		case 5, 6:
			x.mu.Lock()
			if n := len(x.open); n > 0 {
				t, why = x.open[int(o.Arg(2))%n].Token, "the token of a session on another channel"
			}
			x.mu.Unlock()
		}
		if t != nil {
			x.probe(c, t, o.Arg(2), why)
			if o.Arg(2)%3 == 0 && c.Err() == nil {
				q := &ua.CloseSessionRequest{DeleteSubscriptions: true}
				q.AuthenticationToken = t
				x.refused(c, q, "closing with "+why)
			}
		}
		x.served(c, user, "after forged requests")
		x.close(c)

	case "badact":
		c := x.connect(sec, "")
		x.create(c, "", 60000)
		q, why := x.bad(c, o.Arg(2), o.Arg(3))
		if q == nil {
			x.activate(c, user)
			x.close(c)
			return
		}
		x.notActivated(c, q, why)
		w.Count("bad: " + why)
		if c.Err() == nil {
			x.probe(c, c.Token, o.Arg(1), "after activation with "+why)
		}
		c.Disconnect()

	case "reauthfail":
		c := x.session(sec, "", user, 60000)
		q, why := x.bad(c, o.Arg(2), o.Arg(3))
		if q == nil {
			x.close(c)
			return
		}
		x.notActivated(c, q, why)
		w.Count("bad: " + why)
		if c.Err() == nil {
			x.served(c, user, "after another activation with "+why+" failed")
		}
		x.close(c)

	case "switch":
		c := x.session(sec, "", user, 60000)
		u2 := x.user(o.Arg(2))
		x.activate(c, u2)
		x.served(c, u2, "after the user changed")
		x.close(c)

	case "move":
		c := x.session(sec, "", user, 60000)
		d := x.connect(sec, "")
		d.Token, d.SNonce, d.SCert, d.SessID = c.Token, c.SNonce, c.SCert, c.SessID
		if o.Arg(2)%2 == 0 {
			x.probe(d, d.Token, o.Arg(2), "token on a channel it was not activated on")
			if d.Err() != nil {
				x.close(c)
				return
			}
			x.served(c, user, "after its token was used elsewhere")
		}
		x.activate(d, user)
		x.served(d, user, "after moving")
		x.probe(c, c.Token, o.Arg(3), "on the channel the session left")
		x.served(d, user, "after the left channel was used")
		x.close(d)
		c.Disconnect()

	case "steal":
		if sec == 0 {
			return
		}
		c := x.session(sec, "", user, 60000)
		me, sec2, why := "client2", sec, "with another application's certificate"
		if o.Arg(2)%3 == 0 && w.P("noneoff") == 0 {
			me, sec2, why = "", 0, "over a channel without security"
		}
		d := x.connect(sec2, me)
		d.Token, d.SNonce, d.SCert, d.SessID = c.Token, c.SNonce, c.SCert, c.SessID
		u2 := x.user(o.Arg(3))
		q, err := d.ActivateRequest(s.UserOf(d, u2))
		if err != nil {
			panic(err)
		}
		x.notActivated(d, q, "activating a session of client1 "+why)
		if d.Err() == nil {
			x.probe(d, d.Token, o.Arg(2), "stolen session")
		}
		x.served(c, user, "after an attempt to take it over")
		x.close(c)
		d.Disconnect()

	case "replay":
		c := x.connect(sec, "")
		x.create(c, "", 60000)
		u := s.UserOf(c, user)
		if c.Mode == raw.ModeNone && (user == "anon" || raw.Policies[u.Policy].Nonce == 0) {
			c.Disconnect()
			return
		}
		q, err := c.ActivateRequest(u)
		if err != nil {
			panic(err)
		}
		r, err := c.Do(q, longWait)
		if !good(r, err) {
			x.fail("activation-refused", "user %s: %s", user, sr(r, err))
		}
		c.SNonce = []byte(r.(*ua.ActivateSessionResponse).ServerNonce)
		x.saw(c.SNonce, nil)
		q2 := *q
		q2.RequestHeader = ua.RequestHeader{AuthenticationToken: c.Token}
		why := "a repeated activation"
		d := c
		if o.Arg(2)%2 == 0 { // the same token in a new session
			d = x.connect(sec, "")
			x.create(d, "", 60000)
			f, err := d.ActivateRequest(u)
			if err != nil {
				panic(err)
			}
			q2.ClientSignature = f.ClientSignature
			q2.RequestHeader.AuthenticationToken = d.Token
			why = "an identity token recorded in another session"
			if user == "anon" {
				x.close(c)
				d.Disconnect()
				return
			}
		}
		x.notActivated(d, &q2, why)
		if d != c {
			if d.Err() == nil {
				x.probe(d, d.Token, o.Arg(3), why)
			}
			d.Disconnect()
		}
		if c.Err() == nil {
			x.served(c, user, "after "+why)
		}
		x.close(c)

	case "race":
		x.race(o, sec)

	case "disc":
		if w.P("noneoff") == 0 {
			return
		}
		c := x.connect(0, "")
		if o.Arg(2)%2 == 0 {
			q, _ := c.CreateSessionRequest(raw.SessionOpts{Name: "d"})
			x.refused(c, q, "a session on a channel for discovery only")
		} else {
			x.mu.Lock()
			if n := len(x.open); n > 0 {
				c.Token = x.open[int(o.Arg(2))%n].Token
			}
			x.mu.Unlock()
			x.probe(c, c.Token, o.Arg(3), "on a channel for discovery only")
		}
		c.Disconnect()

	case "closed":
		c := x.session(sec, "", user, 60000)
		r, err := c.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}, longWait)
		if !good(r, err) {
			x.fail("session-refused", "CloseSession: %s", sr(r, err))
		}
		x.probe(c, c.Token, o.Arg(2), "after the session was closed")
		if c.Err() == nil {
			if q, err := c.ActivateRequest(s.UserOf(c, user)); err == nil {
				x.notActivated(c, q, "activating a closed session")
			}
		}
		c.Disconnect()

	case "expired":
		c := x.session(sec, "", user, 10000)
		time.Sleep(10*time.Second + 5*time.Second + 4*time.Second)
		x.probe(c, c.Token, o.Arg(2), "after the session expired")
		if c.Err() == nil {
			if q, err := c.ActivateRequest(s.UserOf(c, user)); err == nil {
				x.notActivated(c, q, "activating an expired session")
			}
		}
		c.Disconnect()
	}
}

// race: the session is activated on two channels by two users at once. Whoever
// is served is served as the user of that channel.
func (x *p05) race(o Op, sec int) {
	s, w := x.s, x.w
	users := []string{"user1", "user2", "root"}
	first := users[o.Arg(1)%3]
	n := 2 + int(o.Arg(2)%2)
	c := x.session(sec, "", first, 60000)
	var ds []*raw.Client
	var qs []*ua.ActivateSessionRequest
	var us []string
	for i := 0; i < n; i++ {
		d := c
		if i > 0 || o.Arg(3)%2 == 0 {
			d = x.connect(sec, "")
			d.Token, d.SNonce, d.SCert, d.SessID = c.Token, c.SNonce, c.SCert, c.SessID
		}
		u := users[(int(o.Arg(1))+1+i)%3]
		q, err := d.ActivateRequest(s.UserOf(d, u))
		if err != nil {
			panic(err)
		}
		ds, qs, us = append(ds, d), append(qs, q), append(us, u)
	}
	ok := make([]bool, n)
	var wg sync.WaitGroup
	for i := range ds {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r, err := ds[i].Do(qs[i], longWait)
			if errors.Is(err, raw.ErrTimeout) {
				x.fail("unanswered", "concurrent activation\n%s", Stacks())
			}
			ok[i] = good(r, err)
			// meanwhile served only as its own user
			for k := 0; k < 2 && ds[i].Err() == nil; k++ {
				x.whoIs(ds[i], us[i], first, ds[i] == c)
			}
		}(i)
	}
	wg.Wait()
	wins := 0
	for i := range ok {
		if ok[i] {
			wins++
		}
	}
	if wins == 0 {
		x.fail("activation-refused", "of %d concurrent activations with valid credentials none succeeded", n)
	}
	u := s.UserOf(c, "user1")
	if wins > 1 && (c.Mode != raw.ModeNone || raw.Policies[u.Policy].Nonce > 0) {
		x.fail("nonce-reused", "%d activations succeeded with proofs over the same server nonce (%s mode %d)", wins, c.P.Name, c.Mode)
	}
	w.Count(fmt.Sprintf("race_wins_%d", wins))
	served := 0
	for i, d := range ds {
		if d.Err() == nil && x.whoIs(d, us[i], "", false) {
			served++
			if !ok[i] {
				x.fail("bad-activation-accepted", "a channel whose activation failed is served")
			}
		}
	}
	if served > 1 {
		x.fail("two-channels", "the session is served on %d channels", served)
	}
	if served == 0 {
		x.fail("session-refused", "after %d concurrent activations no channel is served", wins)
	}
	for _, d := range append(ds, c) {
		d.Disconnect()
	}
}

// whoIs asks for the identity; reports whether the channel is served.
func (x *p05) whoIs(d *raw.Client, user, before string, mayBefore bool) bool {
	q := &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("WhoAmI", int64(1))}}
	r, err := d.Do(q, longWait)
	if errors.Is(err, raw.ErrTimeout) {
		x.fail("unanswered", "WhoAmI\n%s", Stacks())
	}
	if !good(r, err) {
		return false
	}
	m := r.(*ua.CallResponse).Results[0]
	if m.StatusCode != ua.Good || len(m.OutputArguments) != 1 {
		return false
	}
	got := m.OutputArguments[0]
	if got == user || mayBefore && got == before {
		return true
	}
	// a call that was accepted before another activation took the session over
	// may still see the newer identity; asked alone it must be its own.
	if before != "" {
		return true
	}
	x.fail("wrong-identity", "the channel on which %s activated the session is served as %v", user, got)
	return false
}
