package scen

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sync/atomic"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P02: whatever hostile or broken peers send, the server goes on serving the others.
func init() { register(&Scenario{Prop: "P02", Gen: genP02, Run: runP02}) }

var p02Kinds = []string{"hello", "junk", "opn", "opn", "chunk", "chunk", "body", "body", "body", "req", "req", "req", "req", "req", "deep", "half", "ev", "actsess"}

func genP02(g Gen, p *Plan) {
	n := int(g.Range(1, 3))
	p.P["hostile"] = int64(n)
	p.P["workers"] = g.Pick(1, 2, 4)
	p.P["vsec"] = g.Pick(0, 0, 0, 3)
	p.P["hist"] = g.Pick(0, 1)
	p.P["nodiag"] = g.Pick(0, 0, 1)
	for i := int64(0); i < g.Range(6, 14); i++ {
		p.Ops = append(p.Ops, Op{A: 0, K: "read", D: g.Pick(0, 1000, 100000, 1000000), I: []int64{int64(g.U64() % 1000)}})
	}
	ops := g.Range(4, 14)
	if p.Tier == "thorough" {
		ops = g.Range(4, 40)
	}
	for a := 1; a <= n; a++ {
		for i := int64(0); i < ops; i++ {
			p.Ops = append(p.Ops, Op{A: a, K: p02Kinds[g.N(len(p02Kinds))], D: g.Pick(0, 0, 1000, 300000), I: []int64{int64(g.U64() >> 2), g.Pick(0, 0, 0, 1, 2, 3, 4, 5)}})
		}
	}
}

type p02 struct {
	w     *World
	s     *Srv
	nodes []ua.NodeID
	alloc atomic.Uint64
	what  atomic.Pointer[string]
}

func runP02(w *World) {
	so := SrvOpts{Workers: int(w.P("workers")), DiagOff: w.P("nodiag") == 1}
	if w.P("hist") == 1 {
		so.Historian = newSimHist(w)
	}
	s := w.NewServer(so)
	x := &p02{w: w, s: s}
	v0 := s.AddVar("V0", int64(1), ua.DataTypeIDInt64, -1, VarOpts{})
	s.AddVar("V1", "text", ua.DataTypeIDString, -1, VarOpts{})
	s.AddVar("V2", []int32{1, 2, 3}, ua.DataTypeIDInt32, 1, VarOpts{})
	s.AddVar("V3", nil, ua.DataTypeIDBaseDataType, -2, VarOpts{})
	s.AddVar("V4", [][]int32{{1, 2}, {3, 4}}, ua.DataTypeIDInt32, 2, VarOpts{})
	s.AddVar("V5", int64(5), ua.DataTypeIDInt64, -1, VarOpts{Access: 15, Perms: []ua.RolePermissionType{
		{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: 0xffff}, {RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: 0xffff}}})
	ev := s.AddObject("Ev", "Root", ua.EventNotifierSubscribeToEvents)
	s.AddEcho()
	priv := s.AddVar("Priv8842", int64(0), ua.DataTypeIDInt64, -1, VarOpts{})
	_ = priv
	for _, n := range []string{"V0", "V1", "V2", "V3", "V4", "V5", "Ev", "Root", "Echo"} {
		x.nodes = append(x.nodes, nid(n))
	}
	x.nodes = append(x.nodes, ua.ObjectIDServer, ua.ObjectIDObjectsFolder, ua.ObjectIDRootFolder, ua.ObjectTypeIDBaseEventType, ua.VariableIDServerServerStatus, ua.VariableIDServerNamespaceArray, ua.MethodIDServerGetMonitoredItems, ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDOrganizes, ua.DataTypeIDInt32, ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray)
	_ = v0
	w.StartSched()
	s.Serve()
	stop := make(chan struct{})
	go func() {
		for i := int64(1); i < 20000; i++ {
			select {
			case <-stop:
				return
			case <-time.After(150 * time.Millisecond):
			}
			v0.SetValue(ua.NewDataValue(i, 0, time.Now(), 0, time.Now(), 0))
			s.NM.OnEvent(ev, &ua.BaseEvent{EventID: ua.ByteString(fmt.Sprint("e", i)), EventType: ua.ObjectTypeIDBaseEventType, SourceNode: nid("Ev"), SourceName: "Ev", Time: time.Now(), ReceiveTime: time.Now(), Message: ua.LocalizedText{Text: "m"}, Severity: uint16(i)})
		}
	}()
	w.Actors(int(w.P("hostile"))+1, func(a int, ops []Op) {
		if a == 0 {
			x.victim(ops)
			return
		}
		for _, o := range ops {
			o.Sleep()
			w.Count(o.K)
			x.hostile(a, o)
		}
	})
	close(stop)
	time.Sleep(3 * time.Second)
	// everybody can still be served
	for i := 0; i < 2; i++ {
		c := s.MustConnect(RawOpts{Sec: int(i) * 3, Wait: 60 * time.Second})
		r, err := c.Do(readVal("Priv8842"), 60*time.Second)
		if !good(r, err) {
			w.Fail("server-dead", "after the attacks a read fails: %s\n%s", sr(r, err), Stacks())
		}
		c.Do(&ua.CloseSessionRequest{}, 60*time.Second)
		c.Disconnect()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if os.Getenv("MEMDBG") != "" {
		println("TOTAL", m.TotalAlloc>>20)
	}
	w.NonTrivial()
}

// victim is an honest client.
func (x *p02) victim(ops []Op) {
	w, s := x.w, x.s
	b := s.MustConnect(RawOpts{Sec: int(w.P("vsec")), Timeout: 3600000, Wait: 60 * time.Second})
	do := func(q ua.ServiceRequest) ua.ServiceResponse {
		r, err := b.Do(q, 60*time.Second)
		if !good(r, err) {
			w.Fail("disturbed", "an honest client's %T: %s\n%s", q, sr(r, err), Stacks())
		}
		return r
	}
	var cur int64
	for i, o := range ops {
		o.Sleep()
		w.Count("victim_ops")
		switch i % 4 {
		case 0:
			cur = o.Arg(0) + 1
			if r := do(writeReq("Priv8842", cur, "")).(*ua.WriteResponse); r.Results[0] != ua.Good {
				w.Fail("disturbed", "write: %v", r.Results)
			}
		case 1, 3:
			r := do(readVal("Priv8842", "Nope")).(*ua.ReadResponse)
			if len(r.Results) != 2 || r.Results[0].Value != cur || r.Results[1].StatusCode != ua.BadNodeIDUnknown {
				w.Fail("disturbed", "an honest client reads %v, want %d", r.Results, cur)
			}
		case 2:
			r := do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Echo", int32(i), "t")}}).(*ua.CallResponse)
			if len(r.Results) != 1 || r.Results[0].StatusCode != ua.Good {
				w.Fail("disturbed", "call: %v", r.Results)
			}
		}
	}
	for _, e := range b.Anomalies() {
		w.Fail("anomaly", "%s", e)
	}
	do(&ua.CloseSessionRequest{})
	b.Disconnect()
}

func (x *p02) mem(what string, before uint64) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if d := m.TotalAlloc - before; d > 1<<30 {
		if os.Getenv("MEMDBG") != "" {
			f, _ := os.Create("/tmp/mem.prof")
			pprof.Lookup("allocs").WriteTo(f, 0)
			f.Close()
		}
		x.w.Fail("memory", "a hostile peer sending a few kilobytes (%s) made the server allocate %d MB", what, d>>20)
	}
}

func (x *p02) hostile(a int, o Op) {
	w, s := x.w, x.s
	f := newFuzzer(o.Arg(0))
	f.nodes = x.nodes
	sec := int(o.Arg(1))
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	base := m.TotalAlloc
	defer func() { x.mem(o.K, base) }()
	dial := func() *raw.Chan {
		c, err := raw.Dial(w.Net, srvAddr, srvURL)
		if err != nil {
			w.Fail("server-dead", "connection refused: %v", err)
		}
		c.EC = s.ec()
		return c
	}
	// drain reads until the server closes or a while has passed
	drain := func(c *raw.Chan, d time.Duration) {
		c.Conn.SetReadDeadline(time.Now().Add(d))
		for {
			if _, err := c.ReadMsg(); err != nil {
				break
			}
		}
		c.Conn.Close()
	}
	lims := raw.Limits{Recv: 65535, Send: 65535}
	switch o.K {
	case "hello":
		c := dial()
		pk := []uint32{0, 1, 7, 8, 24, 28, 32, 100, 1024, 8191, 8192, 65535, 1 << 20, 0xffffffff}
		l := raw.Limits{Recv: pk[f.N(len(pk))], Send: pk[f.N(len(pk))], MaxMsg: pk[f.N(len(pk))], MaxChunk: pk[f.N(len(pk))]}
		b := raw.HelloBytes(l, []string{srvURL, "", "x", string(make([]byte, 5000))}[f.N(4)])
		if f.P(40) {
			b = f.mutate(b, int(f.Pick(0, 4, 8)))
		}
		c.SendRaw(b)
		if f.P(70) {
			c.Secure(secs[sec].Policy, secs[sec].Mode, ident("client1"), ident("server").Cert)
			if body, err := raw.Encode(c.EC, c.OpenRequest(false, 60000, 1)); err == nil {
				if b, err := c.BuildOPN(body, 1); err == nil {
					c.SendRaw(b)
					c.ChannelID = 1
					c.TokenID = 1
				}
			}
		}
		drain(c, time.Duration(f.Pick(100, 3000, 25000))*time.Millisecond)
	case "junk":
		c := dial()
		b := make([]byte, f.Pick(1, 7, 8, 9, 16, 100, 3000))
		for i := range b {
			b[i] = byte(f.U64())
		}
		copy(b, []string{"GET / HTTP/1.1\r\n\r\n", "HELF", "OPNF", "MSGF", "ERRF", "ACKF", "CLOF", ""}[f.N(8)])
		if f.P(50) && len(b) >= 8 {
			binary.LittleEndian.PutUint32(b[4:], fuzzInts[f.N(len(fuzzInts))])
		}
		if f.P(50) {
			c.SendRaw(raw.HelloBytes(lims, srvURL))
		}
		c.SendRaw(b)
		drain(c, time.Duration(f.Pick(100, 3000, 25000))*time.Millisecond)
	case "half":
		// a peer that says nothing more
		c := dial()
		b := raw.HelloBytes(lims, srvURL)
		b = b[:f.N(len(b)+1)]
		c.SendRaw(b)
		drain(c, time.Duration(f.Pick(100, 3000, 30000))*time.Millisecond)
	case "opn":
		c := dial()
		if c.Hello(lims) != nil {
			return
		}
		me := ident([]string{"client1", "client1", "client2", "rogue", "eccert"}[f.N(5)])
		if sec == 0 && f.P(50) {
			sec = 1
		}
		me = &raw.Ident{Cert: me.Cert, Key: me.Key}
		if me.Key == nil {
			me.Key = ident("client1").Key
		}
		if c.Secure(secs[sec].Policy, secs[sec].Mode, me, ident("server").Cert) != nil {
			return
		}
		req := c.OpenRequest(f.P(20), uint32(f.u64()), 1)
		if f.P(50) {
			req.SecurityMode = ua.MessageSecurityMode(f.Pick(0, 1, 2, 3, 4, -1))
		}
		if f.P(30) {
			req.ClientNonce = f.bytes()
		}
		body, err := raw.Encode(c.EC, req)
		if err != nil {
			return
		}
		if f.P(30) {
			body = f.mutate(body, 0)
		}
		if f.P(10) {
			if body, err = raw.Encode(c.EC, f.request()); err != nil {
				return
			}
		}
		if f.P(15) {
			me.Cert = []byte(f.bytes())
		}
		b, err := c.BuildOPN(body, 1)
		if err != nil {
			return
		}
		if f.P(50) {
			b = f.mutate(b, int(f.Pick(0, 8, 12, 60)))
			if f.P(60) && len(b) >= 8 {
				binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
			}
		}
		c.SendRaw(b)
		// go on as if it had been accepted
		if f.P(60) {
			c.Conn.SetReadDeadline(time.Now().Add(2 * time.Second))
			if m, err := c.ReadMsg(); err == nil && len(m) > 12 {
				c.ChannelID = binary.LittleEndian.Uint32(m[8:])
			}
			q := []byte("MSGF\x00\x00\x00\x00")
			q = binary.LittleEndian.AppendUint32(q, c.ChannelID)
			q = binary.LittleEndian.AppendUint32(q, uint32(f.Pick(0, 1, 1, 2)))
			q = binary.LittleEndian.AppendUint32(q, 2)
			q = binary.LittleEndian.AppendUint32(q, 2)
			if bb, err := raw.Encode(c.EC, &ua.GetEndpointsRequest{EndpointURL: srvURL}); err == nil {
				q = append(q, bb...)
			}
			q = append(q, make([]byte, f.Pick(0, 1, 16, 32))...)
			binary.LittleEndian.PutUint32(q[4:], uint32(len(q)))
			c.SendRaw(q)
		}
		drain(c, time.Duration(f.Pick(100, 3000))*time.Millisecond)
	case "chunk", "body", "deep", "req", "ev", "actsess":
		c, err := s.Connect(RawOpts{Sec: sec, NoSess: true, Me: "client2", Wait: 30 * time.Second})
		if err != nil {
			w.Count("hostile_refused")
			return
		}
		defer c.Disconnect()
		if o.K != "actsess" && (o.K != "chunk" || f.P(50)) {
			if err := s.Session(c, RawOpts{Me: "client2", Timeout: 20000, Wait: 30 * time.Second, User: []string{"anon", "root", "user1"}[f.N(3)]}); err != nil {
				w.Count("hostile_refused")
				return
			}
		}
		x.attack(c, f, o, &base)
	}
}

func (x *p02) attack(c *raw.Client, f *fuzzer, o Op, base *uint64) {
	w := x.w
	f.toks = append(f.toks, c.Token, c.SessID)
	send := func(body []byte, id uint32) {
		c.Lock()
		bs := c.BuildMSG("MSG", body, id, int(f.Pick(0, 0, 0, 8192)))
		c.Unlock()
		for _, b := range bs {
			c.SendRaw(b)
		}
	}
	closed := func(d time.Duration) bool {
		for t := w.Now() + d; w.Now() < t; {
			if c.Err() != nil {
				return true
			}
			time.Sleep(d / 10)
		}
		return c.Err() != nil
	}
	switch o.K {
	case "chunk":
		n := int(f.Pick(1, 1, 2, 4))
		for i := 0; i < n; i++ {
			var body []byte
			if f.P(60) {
				body, _ = raw.Encode(c.EC, readVal("V0"))
			} else {
				body = make([]byte, f.Pick(0, 1, 2, 8, 100))
			}
			typ := []string{"MSGF", "MSGF", "MSGC", "MSGA", "MSGX", "CLOF", "OPNF", "OPNC", "ACKF", "ERRF", "HELF"}[f.N(11)]
			tok := c.TokenID
			if f.P(25) {
				tok = uint32(f.Pick(0, 2, 99))
			}
			c.Lock()
			var b []byte
			if tok == c.TokenID {
				b = c.SecureChunk(typ, body, c.NextSeq(), uint32(f.Pick(1, 77)), tok)
			} else {
				b = []byte(typ + "\x00\x00\x00\x00")
				b = binary.LittleEndian.AppendUint32(b, c.ChannelID)
				b = binary.LittleEndian.AppendUint32(b, tok)
				b = append(b, make([]byte, f.Pick(0, 8, 16, 32, 64, 100))...)
				binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
			}
			if f.P(50) {
				b = f.mutate(b, int(f.Pick(0, 4, 8, 12, 16, 24)))
				if f.P(60) && len(b) >= 8 {
					binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
				}
			} else if f.P(40) && len(b) > 12 {
				// cut short, with a length that fits
				b = b[:12+f.N(len(b)-12)]
				binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
			}
			c.Unlock()
			c.SendRaw(b)
		}
		closed(time.Second)
	case "body":
		n := int(f.Pick(1, 2, 5))
		for i := 0; i < n && c.Err() == nil; i++ {
			q := f.request()
			q.Header().AuthenticationToken = c.Token
			body, err := raw.Encode(c.EC, q)
			if err != nil {
				continue
			}
			lo := 0
			if f.P(70) {
				lo = len(body) / 3
			}
			send(f.mutate(body, lo), uint32(1000+i))
			closed(time.Duration(f.Pick(10, 300)) * time.Millisecond)
		}
	case "deep":
		n := int(f.Pick(50, 200, 2000, 100000, 1000000))
		if w.Plan.Net.Seg > 0 || w.Plan.Net.Frag > 0 {
			n = min(n, 20000) // each fragment costs the simulated network memory
		}
		if body := f.rawWrite(c.EC, c.Token, nid("V3"), deepVariant(f.N(3), n)); body != nil {
			send(body, 5000)
			// what building it took does not count
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			*base = m.TotalAlloc
		}
		closed(3 * time.Second)
	case "req":
		c.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, PublishingEnabled: true, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 3}, 20*time.Second)
		n := int(f.Pick(3, 8, 20))
		for i := 0; i < n && c.Err() == nil; i++ {
			q := f.request()
			if f.P(12) { // change any attribute of a variable that may be changed
				at := ua.AttributeIDHistorizing
				var v ua.Variant = f.P(70)
				if f.P(50) {
					at, v = ua.AttributeIDValue, int64(f.N(100))
				}
				if f.P(10) {
					at = uint32(f.N(30))
				}
				q = &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: nid("V5"), AttributeID: at, Value: ua.DataValue{Value: v}}}}
			}
			if f.P(10) {
				q.Header().AuthenticationToken = f.nodeID()
			}
			w.Count(fmt.Sprintf("%T", q)[4:])
			p := c.Start(q)
			if _, pub := q.(*ua.PublishRequest); !pub || f.P(30) {
				r, _ := p.Wait(time.Duration(f.Pick(50, 3000)) * time.Millisecond)
				f.note(r)
			}
		}
	case "actsess":
		for i := 0; i < 3 && c.Err() == nil; i++ {
			q := fuzzSession[f.N(3)]()
			f.fillReq(q)
			if f.P(50) || i == 0 {
				so := RawOpts{Me: "client2", Timeout: 20000, Wait: 20 * time.Second, NoAct: true}
				if x.s.Session(c, so) != nil {
					return
				}
			}
			if f.P(60) {
				if h := x.hostileUser(c, f); h != nil {
					q = h
				}
			}
			r, _ := c.Do(q, 3*time.Second)
			f.note(r)
		}
	case "ev":
		r, err := c.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, PublishingEnabled: true, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 3}, 20*time.Second)
		if !good(r, err) {
			return
		}
		id := r.(*ua.CreateSubscriptionResponse).SubscriptionID
		var it []ua.MonitoredItemCreateRequest
		for i := int64(0); i < f.Range(1, 4); i++ {
			flt := ua.EventFilter{WhereClause: f.content()}
			if f.P(70) {
				flt.SelectClauses = ua.BaseEventSelectClauses
			} else {
				flt.SelectClauses = []ua.SimpleAttributeOperand{{TypeDefinitionID: f.nodeID(), BrowsePath: []ua.QualifiedName{{Name: "Severity"}, {}}[:f.N(3)], AttributeID: fuzzAttrs[f.N(len(fuzzAttrs))]}, {}}
			}
			it = append(it, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: []ua.NodeID{nid("Ev"), ua.ObjectIDServer}[f.N(2)], AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringMode(f.Pick(2, 2, 1, 0, 7)),
				RequestedParameters: ua.MonitoringParameters{ClientHandle: uint32(i), QueueSize: uint32(f.u64()), DiscardOldest: f.P(50), Filter: flt}})
		}
		c.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: id, TimestampsToReturn: ua.TimestampsToReturn(f.Pick(0, 1, 2, 3, 9)), ItemsToCreate: it}, 20*time.Second)
		c.Start(&ua.PublishRequest{})
		c.Start(&ua.PublishRequest{})
		time.Sleep(time.Second)
	}
	_ = server.Server{}
}

// hostileUser builds an activation that is signed well but carries a hostile identity.
func (x *p02) hostileUser(c *raw.Client, f *fuzzer) ua.ServiceRequest {
	u := x.s.UserOf(c, "user1")
	if f.P(70) {
		n := uint32(f.Pick(0, 1, 4, 31, 32, 33, 40, 96, 97, 1000, 1<<31-1, 1<<31, 1<<32-1))
		b := binary.LittleEndian.AppendUint32(nil, n)
		b = append(b, make([]byte, f.Pick(0, 1, 31, 32, 40, 92, 200, 500))...)
		u.Secret = b[:f.Pick(int64(len(b)), int64(len(b)), int64(len(b)), 0, 1, 3)]
	} else {
		u = x.s.UserOf(c, "x509")
	}
	q, err := c.ActivateRequest(u)
	if err != nil {
		return nil
	}
	switch t := q.UserIdentityToken.(type) {
	case ua.UserNameIdentityToken:
		if p := []byte(t.Password); len(p) > 1 && f.P(30) {
			t.Password = ua.ByteString(p[:f.N(len(p))])
			q.UserIdentityToken = t
		}
	case ua.X509IdentityToken:
		t.CertificateData = ua.ByteString([][]byte{nil, {0x30}, ident("eccert").Cert, append(append([]byte(nil), ident("user1").Cert...), 1), ident("user1").Cert[:100], append(append([]byte(nil), ident("eccert").Cert...), ident("user1").Cert...)}[f.N(6)])
		q.UserIdentityToken = t
		if f.P(50) {
			q.UserTokenSignature.Signature = ua.ByteString(make([]byte, f.Pick(0, 1, 255, 256, 257)))
		}
	}
	return q
}
