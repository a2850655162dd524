package scen

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P01: every request gets exactly one response, its own, and items line up.
func init() {
	register(&Scenario{Prop: "P01", Gen: genP01, Run: runP01})
}

func genP01(g Gen, p *Plan) {
	nc := int(g.Range(1, 4))
	p.P["clients"] = int64(nc)
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = int64(g.Pick(0, 0, int64(g.N(len(secs)))))
		p.P[fmt.Sprintf("real%d", a)] = g.Pick(0, 0, 1)
	}
	p.P["workers"] = g.Pick(1, 2, 4, 4)
	n := int(g.Range(8, 40))
	if p.Tier == "thorough" {
		n = int(g.Range(8, 90))
	}
	for i := 0; i < n; i++ {
		k := []string{"read", "read", "write", "call", "call", "browse", "trans", "reg", "endpoints", "find", "unsup", "sub", "pub", "del"}[g.N(14)]
		d := g.Pick(0, 0, 0, 20, 200, 3000, 50000)
		o := Op{A: g.N(nc), D: d, K: k, I: []int64{g.Range(0, 8), int64(g.U64() % 1000000), g.Pick(0, 0, 10, 500, 5000)}}
		p.Ops = append(p.Ops, o)
	}
	// faults
	if g.P(35) {
		for i := 0; i < int(g.Range(1, 3)); i++ {
			p.Ops = append(p.Ops, Op{A: g.N(nc), D: g.Range(0, 30000), K: []string{"cut", "cutafter", "stall", "disc"}[g.N(4)], I: []int64{g.Range(0, 20000), g.Range(0, 1)}})
		}
	}
}

const p01Static = 12

func runP01(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers"))})
	for i := 0; i < p01Static; i++ {
		s.AddVar(fmt.Sprintf("S%d", i), int32(1000+i), ua.DataTypeIDInt32, -1, VarOpts{})
		v := s.AddVar(fmt.Sprintf("H%d", i), int32(0), ua.DataTypeIDInt32, -1, VarOpts{})
		i := i
		v.SetReadValueHandler(func(_ *server.Session, r ua.ReadValueID) ua.DataValue {
			time.Sleep(time.Duration(i*37) * time.Microsecond)
			return ua.NewDataValue(int32(2000+i), ua.Good, time.Now(), 0, time.Now(), 0)
		})
		s.AddVar(fmt.Sprintf("W%d", i), int32(0), ua.DataTypeIDInt32, -1, VarOpts{})
	}
	s.AddEcho()
	w.StartSched()
	s.Serve()
	n := int(w.P("clients"))
	var wg sync.WaitGroup
	for a := 0; a < n; a++ {
		ops := w.OpsOf(a)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if w.P(fmt.Sprintf("real%d", a)) == 1 {
				p01Real(w, s, a, ops)
			} else {
				p01Raw(w, s, a, ops)
			}
		}()
	}
	wg.Wait()
	w.NonTrivial()
}

// item describes one expected positional result.
type p01Item struct {
	id   ua.NodeID
	attr uint32
	want any
	code ua.StatusCode
}

func p01Items(o Op, salt int) []p01Item {
	var l []p01Item
	x := uint64(o.Arg(1))*977 + uint64(salt)
	for i := 0; i <= int(o.Arg(0)); i++ {
		x = x*6364136223846793005 + 1442695040888963407
		k := int(x>>33) % p01Static
		switch (x >> 20) % 6 {
		case 0, 1:
			l = append(l, p01Item{nid(fmt.Sprintf("S%d", k)), ua.AttributeIDValue, int32(1000 + k), ua.Good})
		case 2, 3:
			l = append(l, p01Item{nid(fmt.Sprintf("H%d", k)), ua.AttributeIDValue, int32(2000 + k), ua.Good})
		case 4:
			l = append(l, p01Item{nid(fmt.Sprintf("NO%d", k)), ua.AttributeIDValue, nil, ua.BadNodeIDUnknown})
		case 5:
			l = append(l, p01Item{nid(fmt.Sprintf("S%d", k)), ua.AttributeIDEventNotifier, nil, ua.BadAttributeIDInvalid})
		}
	}
	return l
}

func p01Req(a, i int, o Op) (ua.ServiceRequest, func(r ua.ServiceResponse) string, []string) {
	tag := func(j int) string { return fmt.Sprintf("c%d-%d-%d-%d", a, i, j, o.Arg(1)) }
	switch o.K {
	case "read":
		items := p01Items(o, i)
		var ids []ua.ReadValueID
		for _, it := range items {
			ids = append(ids, ua.ReadValueID{NodeID: it.id, AttributeID: it.attr})
		}
		return readReq(ids...), func(r ua.ServiceResponse) string {
			rr, ok := r.(*ua.ReadResponse)
			if !ok || rr.ServiceResult != ua.Good {
				return "read answered by " + sr(r, nil)
			}
			if len(rr.Results) != len(items) {
				return fmt.Sprintf("read of %d items got %d results", len(items), len(rr.Results))
			}
			for j, it := range items {
				g := rr.Results[j]
				if g.StatusCode != it.code || (it.want != nil && g.Value != it.want) {
					return fmt.Sprintf("read item %d (%v attr %d): got %v %v, want %v %v", j, it.id, it.attr, g.Value, g.StatusCode, it.want, it.code)
				}
			}
			return ""
		}, nil
	case "write":
		items := p01Items(o, i)
		req := &ua.WriteRequest{}
		var codes []ua.StatusCode
		for j, it := range items {
			id, c := nid(fmt.Sprintf("W%d", (i+j)%p01Static)), ua.Good
			var v any = int32(i)
			switch j % 4 {
			case 1:
				if it.code == ua.BadNodeIDUnknown {
					id, c = it.id, ua.BadNodeIDUnknown
				}
			case 2:
				v, c = "text", ua.BadTypeMismatch
			}
			codes = append(codes, c)
			req.NodesToWrite = append(req.NodesToWrite, ua.WriteValue{NodeID: id, AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: v}})
		}
		return req, func(r ua.ServiceResponse) string {
			rr, ok := r.(*ua.WriteResponse)
			if !ok || rr.ServiceResult != ua.Good {
				return "write answered by " + sr(r, nil)
			}
			return cmpCodes("write", rr.Results, codes)
		}, nil
	case "call":
		req := &ua.CallRequest{}
		var tags []string
		var codes []ua.StatusCode
		for j := 0; j <= int(o.Arg(0)); j++ {
			t := tag(j)
			if (int(o.Arg(1))+j)%5 == 4 {
				req.MethodsToCall = append(req.MethodsToCall, ua.CallMethodRequest{ObjectID: nid("Root"), MethodID: nid("NoSuch")})
				codes = append(codes, ua.BadMethodInvalid)
				tags = append(tags, "")
				continue
			}
			req.MethodsToCall = append(req.MethodsToCall, callReq("Echo", t, uint32(o.Arg(2))*uint32(j%3)))
			codes = append(codes, ua.Good)
			tags = append(tags, t)
		}
		return req, func(r ua.ServiceResponse) string {
			rr, ok := r.(*ua.CallResponse)
			if !ok || rr.ServiceResult != ua.Good {
				return "call answered by " + sr(r, nil)
			}
			if len(rr.Results) != len(tags) {
				return fmt.Sprintf("%d results for %d calls", len(rr.Results), len(tags))
			}
			for j, t := range tags {
				g := rr.Results[j]
				if t == "" {
					if g.StatusCode == ua.Good {
						return fmt.Sprintf("call %d of an unknown method returned Good", j)
					}
					continue
				}
				if g.StatusCode != ua.Good || len(g.OutputArguments) != 1 || g.OutputArguments[0] != t {
					return fmt.Sprintf("call %d: got %v %v, want echo of %s", j, g.StatusCode, g.OutputArguments, t)
				}
			}
			return ""
		}, tags
	case "browse":
		req := &ua.BrowseRequest{}
		var codes []ua.StatusCode
		for j := 0; j <= int(o.Arg(0))%5; j++ {
			var id ua.NodeID = nid("Root")
			c := ua.Good
			if (int(o.Arg(1))+j)%3 == 1 {
				id, c = nid("Nope"), ua.BadNodeIDUnknown
			}
			codes = append(codes, c)
			req.NodesToBrowse = append(req.NodesToBrowse, ua.BrowseDescription{NodeID: id, BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, IncludeSubtypes: true, ResultMask: 63})
		}
		return req, func(r ua.ServiceResponse) string {
			rr, ok := r.(*ua.BrowseResponse)
			if !ok || rr.ServiceResult != ua.Good {
				return "browse answered by " + sr(r, nil)
			}
			var g []ua.StatusCode
			for _, x := range rr.Results {
				g = append(g, x.StatusCode)
			}
			return cmpCodes("browse", g, codes)
		}, nil
	case "trans":
		req := &ua.TranslateBrowsePathsToNodeIDsRequest{}
		var want []int
		for j := 0; j <= int(o.Arg(0)); j++ {
			k := (int(o.Arg(1)) + j) % (p01Static + 3)
			want = append(want, k)
			req.BrowsePaths = append(req.BrowsePaths, ua.BrowsePath{StartingNode: nid("Root"), RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{
				{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, TargetName: ua.NewQualifiedName(2, fmt.Sprintf("S%d", k))}}}})
		}
		return req, func(r ua.ServiceResponse) string {
			rr, ok := r.(*ua.TranslateBrowsePathsToNodeIDsResponse)
			if !ok || rr.ServiceResult != ua.Good {
				return "translate answered by " + sr(r, nil)
			}
			if len(rr.Results) != len(want) {
				return fmt.Sprintf("%d results for %d paths", len(rr.Results), len(want))
			}
			for j, k := range want {
				g := rr.Results[j]
				if k >= p01Static {
					if g.StatusCode != ua.BadNoMatch {
						return fmt.Sprintf("path %d: %v, want BadNoMatch", j, g.StatusCode)
					}
					continue
				}
				if g.StatusCode != ua.Good || len(g.Targets) != 1 || g.Targets[0].TargetID.NodeID != nid(fmt.Sprintf("S%d", k)) {
					return fmt.Sprintf("path %d: %v %v, want S%d", j, g.StatusCode, g.Targets, k)
				}
			}
			return ""
		}, nil
	case "reg":
		req := &ua.RegisterNodesRequest{}
		for j := 0; j <= int(o.Arg(0)); j++ {
			req.NodesToRegister = append(req.NodesToRegister, nid(fmt.Sprintf("S%d", (int(o.Arg(1))+j)%p01Static)))
		}
		return req, func(r ua.ServiceResponse) string {
			rr, ok := r.(*ua.RegisterNodesResponse)
			if !ok || rr.ServiceResult != ua.Good || len(rr.RegisteredNodeIDs) != len(req.NodesToRegister) {
				return "register answered by " + sr(r, nil)
			}
			for j := range rr.RegisteredNodeIDs {
				if rr.RegisteredNodeIDs[j] != req.NodesToRegister[j] {
					return fmt.Sprintf("registered node %d: %v want %v", j, rr.RegisteredNodeIDs[j], req.NodesToRegister[j])
				}
			}
			return ""
		}, nil
	case "endpoints":
		return &ua.GetEndpointsRequest{EndpointURL: srvURL}, func(r ua.ServiceResponse) string {
			rr, ok := r.(*ua.GetEndpointsResponse)
			if !ok || rr.ServiceResult != ua.Good || len(rr.Endpoints) == 0 {
				return "getEndpoints answered by " + sr(r, nil)
			}
			return ""
		}, nil
	case "find":
		return &ua.FindServersRequest{EndpointURL: srvURL}, func(r ua.ServiceResponse) string {
			rr, ok := r.(*ua.FindServersResponse)
			if !ok || rr.ServiceResult != ua.Good || len(rr.Servers) != 1 {
				return "findServers answered by " + sr(r, nil)
			}
			return ""
		}, nil
	case "unsup":
		return &ua.AddNodesRequest{}, func(r ua.ServiceResponse) string {
			if r.Header().ServiceResult != ua.BadServiceUnsupported {
				return "unsupported service answered by " + sr(r, nil)
			}
			return ""
		}, nil
	}
	return nil, nil, nil
}

func cmpCodes(what string, got, want []ua.StatusCode) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d results for %d items", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("%s item %d: %v, want %v", what, i, got[i], want[i])
		}
	}
	return ""
}

func p01Raw(w *World, s *Srv, a int, ops []Op) {
	c := s.MustConnect(RawOpts{Sec: int(w.P(fmt.Sprintf("sec%d", a)))})
	type sent struct {
		p     *raw.Pending
		check func(ua.ServiceResponse) string
		tags  []string
		op    Op
		i     int
	}
	var all []sent
	hurt := false
	var subs []uint32
	pubs := 0
	for i, o := range ops {
		o.Sleep()
		switch o.K {
		case "cut":
			c.Link.Cut()
			hurt = true
			continue
		case "cutafter":
			c.Link.CutAfter(int(o.Arg(1)), o.Arg(0))
			hurt = true
			continue
		case "disc":
			c.Disconnect()
			hurt = true
			continue
		case "stall":
			c.Link.Stall(int(o.Arg(1)))
			time.Sleep(time.Duration(o.Arg(0)) * time.Microsecond * 10)
			c.Link.Unstall(int(o.Arg(1)))
			continue
		case "sub":
			r, err := c.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 200, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true}, longWait)
			if err != nil && hurt {
				continue
			}
			rr, ok := r.(*ua.CreateSubscriptionResponse)
			if !ok {
				w.Fail("wrong-response", "createSubscription: %s", sr(r, err))
			}
			subs = append(subs, rr.SubscriptionID)
			continue
		case "pub":
			if len(subs) == 0 || pubs > 40 {
				continue
			}
			pubs++
			all = append(all, sent{c.Start(&ua.PublishRequest{}), func(r ua.ServiceResponse) string {
				if _, ok := r.(*ua.PublishResponse); ok {
					return ""
				}
				switch r.Header().ServiceResult {
				case ua.BadNoSubscription, ua.BadTimeout, ua.BadTooManyPublishRequests:
					return ""
				}
				return "publish answered by " + sr(r, nil)
			}, nil, o, i})
			continue
		case "del":
			continue
		}
		req, check, tags := p01Req(a, i, o)
		if req == nil {
			continue
		}
		w.Count("req_" + o.K)
		all = append(all, sent{c.Start(req), check, tags, o, i})
	}
	for _, x := range all {
		r, err := x.p.Wait(longWait)
		if err == raw.ErrTimeout {
			if hurt {
				continue
			}
			w.Fail("no-response", "client %d request %d (%s, %T) got no response in %v on a healthy connection\n%s", a, x.i, x.op.K, x.p.Req, longWait, Stacks())
		}
		if err != nil {
			if !hurt {
				w.Fail("connection-lost", "client %d: connection failed without a fault: %v (op %s)", a, err, x.op.K)
			}
		} else {
			if m := x.check(r); m != "" {
				w.Fail("wrong-response", "client %d request %d (%s): %s", a, x.i, x.op.K, m)
			}
			w.Log("c%d %d %s ok", a, x.i, x.op.K)
			w.Count("answered")
		}
		for _, t := range x.tags {
			if t == "" {
				continue
			}
			n := s.Calls(t)
			if err == nil && n != 1 || n > 1 {
				w.Fail("call-count", "method call %s ran %d times", t, n)
			}
		}
	}
	time.Sleep(2 * time.Second)
	if an := c.Anomalies(); len(an) > 0 {
		w.Fail("correlation", "client %d: %s", a, an[0])
	}
	w.State(a, len(all), hurt, len(subs))
	c.Disconnect()
}

func p01Real(w *World, s *Srv, a int, ops []Op) {
	ctx := context.Background()
	var opt []client.Option
	c, err := s.DialReal(ctx, int(w.P(fmt.Sprintf("sec%d", a))), "", append(opt, client.WithTimeoutHint(120000))...)
	if err != nil {
		w.Fail("connect-refused", "library client cannot connect: %v", err)
	}
	var wg sync.WaitGroup
	for i, o := range ops {
		o.Sleep()
		req, check, tags := p01Req(a, i, o)
		if req == nil || o.K == "unsup" || o.K == "endpoints" || o.K == "find" {
			continue
		}
		wg.Add(1)
		w.Count("real_" + o.K)
		go func() {
			defer wg.Done()
			var r ua.ServiceResponse
			var err error
			switch q := req.(type) {
			case *ua.ReadRequest:
				r, err = c.Read(ctx, q)
			case *ua.WriteRequest:
				r, err = c.Write(ctx, q)
			case *ua.CallRequest:
				r, err = c.Call(ctx, q)
			case *ua.BrowseRequest:
				r, err = c.Browse(ctx, q)
			case *ua.TranslateBrowsePathsToNodeIDsRequest:
				r, err = c.TranslateBrowsePathsToNodeIDs(ctx, q)
			case *ua.RegisterNodesRequest:
				r, err = c.RegisterNodes(ctx, q)
			}
			if err != nil {
				w.Fail("client-error", "library client %d: %s failed without a fault: %v", a, o.K, err)
			}
			if m := check(r); m != "" {
				w.Fail("wrong-response", "library client %d request %d (%s): %s", a, i, o.K, m)
			}
			w.Count("answered")
			for _, t := range tags {
				if t != "" && s.Calls(t) != 1 {
					w.Fail("call-count", "method call %s ran %d times", t, s.Calls(t))
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(longWait):
		w.Fail("no-response", "library client %d: a call did not return in %v\n%s", a, longWait, Stacks())
	}
	if err := c.Close(ctx); err != nil {
		w.Fail("client-error", "Close of library client: %v", err)
	}
}
