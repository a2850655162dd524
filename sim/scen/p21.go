package scen

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
	"opcuasim/simnet"
)

// P21: nothing that arrives from the other end crashes a client, makes a call
// outlast its deadline, or hands the application a response of another service.
func init() { register(&Scenario{Prop: "P21", Gen: genP21, Run: runP21}) }

const p21Slack = 2500 * time.Millisecond

func genP21(g Gen, p *Plan) {
	p.P["sec"] = g.Pick(0, int64(g.N(len(secs))))
	p.P["user"] = int64(g.N(3))
	p.P["life"] = g.Pick(0, 0, 10000)
	p.P["buf"] = g.Pick(0, 0, 8192, 16384)
	n := int(g.Range(2, 5))
	if p.Tier == "thorough" {
		n = int(g.Range(3, 12))
	}
	kinds := []string{"swap", "swap", "swap", "fill", "fill", "fill", "mutate", "mutate", "trunc", "err", "abort", "dup", "drop", "extra", "head", "fault", "handle", "deep", "chunks", "type", "length", "length", "length", "pad"}
	for i := 0; i < n; i++ {
		// one connection: what it does and which of the messages that arrive is changed.
		what := []string{"dial", "dial", "dial", "dial", "endpoints", "servers"}[g.N(6)]
		link := g.Pick(0, 1, 1, 1)
		if what != "dial" {
			link = 0
		}
		msg := g.Pick(0, 1, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9)
		if link == 0 {
			msg = g.Pick(0, 1, 2, 2, 2)
		}
		k := kinds[g.N(len(kinds))]
		if msg == 0 {
			k = []string{"ack", "ack", "ack", "head", "err", "drop", "trunc", "extra"}[g.N(8)]
		}
		if link == 0 && msg == 2 && g.P(50) {
			k = "endp"
		}
		p.Ops = append(p.Ops, Op{A: 0, D: g.Pick(0, 0, 1000), K: what, S: k,
			I: []int64{link, msg, int64(g.U64() % (1 << 40)), g.Range(3, 8), g.Pick(1500, 3000, 5000), g.Pick(1, 1, 1, 2, 100), g.Pick(0, 1, 1, 1), g.Pick(0, 0, 0, 1)}})
	}
}

type p21 struct {
	w *World
	s *Srv
	f *fuzzer
}

func runP21(w *World) {
	s := w.NewServer(SrvOpts{Workers: 2})
	s.AddVar("V0", int64(1), ua.DataTypeIDInt64, -1, VarOpts{})
	x := &p21{w: w, s: s}
	w.StartSched()
	s.Serve()
	var m0, m1 runtime.MemStats
	for _, o := range w.OpsOf(0) {
		o.Sleep()
		runtime.ReadMemStats(&m0)
		x.one(o)
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > 3<<30 {
			w.Fail("memory", "%s with %s allocated %d MB", o.K, o.S, d>>20)
		}
	}
	// without tampering everything works.
	w.Net.OnLink(nil)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c, err := s.DialReal(ctx, int(w.P("sec")), "")
	if err != nil {
		w.Fail("dial-failed", "Dial fails without a fault: %v", err)
		return
	}
	r, err := c.Read(ctx, readVal("V0"))
	if err != nil || len(r.Results) != 1 || r.Results[0].Value != int64(1) {
		w.Fail("read-failed", "Read fails without a fault: %v %v", r, err)
	}
	c.Abort(ctx)
	w.NonTrivial()
}

// bounded runs one call and fails when it ends late.
func (x *p21) bounded(what string, d time.Duration, f func()) bool {
	done := make(chan struct{})
	t0 := x.w.Now()
	go func() { f(); close(done) }()
	t := time.NewTimer(d + p21Slack)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		x.w.Fail("late", "%s has to end by %v but has not after %v (since %v)\n%s", what, d, d+p21Slack, t0, Stacks())
		return false
	}
}

func (x *p21) one(o Op) {
	w := x.w
	kind := o.S
	x.f = newFuzzer(o.Arg(2))
	x.f.nodes = []ua.NodeID{nid("V0"), ua.ObjectIDServer, ua.VariableIDServerNamespaceArray, nil}
	before := len(w.Net.Links())
	nl := 0
	w.Net.OnLink(func(l *simnet.Link) {
		mine := int64(nl) == o.Arg(0)
		nl++
		if !mine {
			return
		}
		nm := int64(0)
		var spy *raw.Spy
		if sec := int(w.P("sec")); sec != 0 && o.Arg(6) != 0 {
			spy = raw.NewSpy(raw.Policies[secs[sec].Policy], secs[sec].Mode, ident("client1"), ident("server"), x.s.ec())
			l.Tamper(simnet.C2S, func(msg []byte) [][]byte { spy.C2S(msg); return [][]byte{msg} })
		}
		l.Tamper(simnet.S2C, func(msg []byte) [][]byte {
			i := nm
			nm++
			plain, sealed := msg, false
			if spy != nil {
				plain, sealed = spy.Plain(msg)
			}
			if i == 0 && o.Arg(7) != 0 {
				// a server that offers much.
				w.Fault("tamper_bigack")
				msg = append([]byte{}, msg...)
				for k := 12; k+4 <= len(msg); k += 4 {
					binary.LittleEndian.PutUint32(msg[k:], uint32(x.f.Pick(0x10000, 0x20000, 1<<20, math.MaxUint32)))
				}
				plain = msg
			}
			if i >= o.Arg(1) && i < o.Arg(1)+o.Arg(5) {
				w.Fault("tamper_" + kind)
				if sealed {
					// by somebody who has the server's keys.
					w.Count("tamper_sealed")
					if kind == "pad" {
						w.Count("tamper_pad")
						return [][]byte{spy.Seal(plain, x.f.N(256))}
					}
					out := x.tamper(kind, plain)
					for i := range out {
						out[i] = spy.Seal(out[i], -1)
					}
					return out
				}
				return x.tamper(kind, msg)
			}
			return [][]byte{msg}
		})
	})
	defer w.Net.OnLink(nil)
	dl := time.Duration(o.Arg(4)) * time.Millisecond
	ctx, cancel := context.WithTimeout(context.Background(), dl)
	defer cancel()
	what := fmt.Sprintf("%s (message %d of connection %d: %s)", o.K, o.Arg(1), o.Arg(0), kind)
	switch o.K {
	case "endpoints":
		var r *ua.GetEndpointsResponse
		var err error
		if x.bounded(what, dl, func() { r, err = client.GetEndpoints(ctx, &ua.GetEndpointsRequest{EndpointURL: srvURL}) }) {
			x.result(what, r, err)
		}
	case "servers":
		var r *ua.FindServersResponse
		var err error
		if x.bounded(what, dl, func() { r, err = client.FindServers(ctx, &ua.FindServersRequest{EndpointURL: srvURL}) }) {
			x.result(what, r, err)
		}
	case "dial":
		var c *client.Client
		var err error
		opts := []client.Option{client.WithSessionTimeout(3600000)}
		if v := w.P("life"); v != 0 {
			opts = append(opts, client.WithTokenLifetime(uint32(v)))
		}
		if v := w.P("buf"); v != 0 {
			opts = append(opts, client.WithTransportLimits(uint32(v), 1<<24, 4096))
		}
		user := []string{"", "root", "x509"}[w.P("user")]
		if !x.bounded("Dial, "+what, dl, func() { c, err = x.s.DialReal(ctx, int(w.P("sec")), user, opts...) }) {
			return
		}
		if err == nil && c == nil {
			w.Fail("nothing", "Dial returns neither client nor error: %s", what)
			return
		}
		if err != nil {
			w.Count("dial_failed")
			break
		}
		w.Count("dialled")
		x.use(c, o, what)
	}
	// every connection the client made is given up.
	for t := 0; t < 30; t++ {
		open := 0
		for _, l := range w.Net.Links()[before:] {
			if !l.ClientClosed() {
				open++
			}
		}
		if open == 0 {
			return
		}
		if t == 29 {
			w.Fail("left-open", "%d connections left open: %s", open, what)
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func (x *p21) result(what string, r any, err error) {
	if err == nil && reflect.ValueOf(r).IsNil() {
		x.w.Fail("nothing", "%s returns neither response nor error", what)
	}
	if err != nil {
		x.w.Count("call_failed")
		if err == ua.BadUnknownResponse {
			x.w.Count(fmt.Sprintf("unknown_response_%d", min(x.w.P("sec"), 1)))
		}
	} else {
		x.w.Count("call_ok")
	}
}

// use makes some calls, one at a time or two at once, and closes.
func (x *p21) use(c *client.Client, o Op, what string) {
	g := Gen{simnet.NewRand(uint64(o.Arg(2)) + 5)}
	r := Real{c}
	for i := int64(0); i < o.Arg(3); i++ {
		n := 1 + g.N(2)
		done := make(chan struct{}, n)
		for j := 0; j < n; j++ {
			req := []ua.ServiceRequest{readVal("V0"), &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDServer}}}, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 500, PublishingEnabled: true, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 2},
				&ua.PublishRequest{}, &ua.RegisterNodesRequest{NodesToRegister: []ua.NodeID{nid("V0")}}, writeReq("V0", int64(1), ""), &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("M")}},
				&ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{1}}, &ua.CreateMonitoredItemsRequest{SubscriptionID: 1, ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem("V0", 1, 0, 1, true, nil, ua.MonitoringModeReporting)}}}[g.N(9)]
			go func() {
				defer func() { done <- struct{}{} }()
				d := 2 * time.Second
				var res ua.ServiceResponse
				var err error
				if x.bounded(fmt.Sprintf("%T, %s", req, what), d, func() { res, err = r.Do(req, d) }) {
					x.result(what, &res, err)
				}
			}()
		}
		for j := 0; j < n; j++ {
			<-done
		}
		time.Sleep(time.Duration(g.Pick(0, 0, 100, 9000)) * time.Millisecond)
	}
	if g.P(60) {
		x.bounded("Close, "+what, 5*time.Second, func() {
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			defer cancel()
			if c.Close(ctx) != nil {
				x.w.Count("close_failed")
			}
		})
	}
	x.bounded("Abort, "+what, 0, func() { c.Abort(context.Background()) })
}

func p21len(b []byte) []byte {
	if len(b) >= 8 {
		binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
	}
	return b
}

// body finds where the sequence header of a plain message starts.
func p21body(b []byte) (int, bool) {
	if len(b) < 24 {
		return 0, false
	}
	switch string(b[:3]) {
	case "MSG":
		return 16, true
	case "OPN":
		i := 12
		for k := 0; k < 3; k++ {
			if i+4 > len(b) {
				return 0, false
			}
			n := int(int32(binary.LittleEndian.Uint32(b[i:])))
			i += 4 + max(n, 0)
			if i < 0 || i > len(b) {
				return 0, false
			}
		}
		return i, i+8 <= len(b)
	}
	return 0, false
}

func (x *p21) tamper(kind string, msg []byte) [][]byte {
	f := x.f
	ec := x.s.ec()
	b := append([]byte{}, msg...)
	one := func(b []byte) [][]byte { return [][]byte{b} }
	sec, ok := p21body(b)
	var handle uint32
	var res ua.ServiceResponse
	if ok {
		if v, err := raw.Decode(ec, b[sec+8:]); err == nil {
			res, _ = v.(ua.ServiceResponse)
		}
		if res == nil {
			ok = false
		} else {
			handle = res.Header().RequestHandle
		}
	}
	// with puts another response into the message.
	with := func(r any) []byte {
		e, err := raw.Encode(ec, r)
		if err != nil || len(e) > 60000 {
			return b
		}
		return p21len(append(b[:sec+8:sec+8], e...))
	}
	header := func() ua.ResponseHeader { return ua.ResponseHeader{Timestamp: time.Now(), RequestHandle: handle} }
	switch kind {
	case "ack":
		if string(b[:3]) != "ACK" || len(b) != 28 {
			return one(b)
		}
		vals := []uint32{0, 1, 7, 8, 16, 24, 28, 31, 32, 64, 100, 4096, 8191, 8192, 65535, 65536, 65537, 1 << 20, 0x7fffffff, 0x80000000, math.MaxUint32}
		for n := 1 + f.N(3); n > 0; n-- {
			binary.LittleEndian.PutUint32(b[8+4*f.N(5):], vals[f.N(len(vals))])
		}
		return one(b)
	case "head":
		binary.LittleEndian.PutUint32(b[4*f.N(min(6, len(b)/4)):], fuzzInts[f.N(len(fuzzInts))])
		return one(b)
	case "length":
		lim := int64(65536)
		if v := x.w.P("buf"); v != 0 {
			lim = v
		}
		n := f.Pick(7, 8, 9, 12, 23, 24, 25, lim-1, lim, lim+1, lim+10000, 2*lim, int64(len(b))+1, int64(len(b))-1)
		if n > int64(len(b)) && f.P(70) {
			b = append(b, make([]byte, n-int64(len(b)))...)
		}
		binary.LittleEndian.PutUint32(b[4:], uint32(n))
		return one(b)
	case "type":
		copy(b, []string{"MSGF", "MSGC", "MSGA", "OPNF", "OPNC", "CLOF", "ERRF", "ACKF", "HELF", "XXXX", "RHEF"}[f.N(11)])
		return one(b)
	case "trunc":
		return one(p21len(b[:f.N(len(b))]))
	case "mutate":
		lo := 8
		if ok {
			lo = sec + 8
		}
		return one(p21len(f.mutate(b, lo)))
	case "err":
		e := append([]byte("ERRF"), 0, 0, 0, 0)
		e = binary.LittleEndian.AppendUint32(e, uint32(f.Pick(0, 0x80000000, 0x80860000, int64(uint32(f.U64())))))
		e = binary.LittleEndian.AppendUint32(e, uint32(f.Pick(0, 0xffffffff, 3, 1000, 0x7fffffff)))
		return one(p21len(append(e, "abc"...)))
	case "abort":
		if ok {
			copy(b, "MSGA")
			return one(p21len(append(b[:sec+8:sec+8], 0, 0, 0x86, 0x80, 0xff, 0xff, 0xff, 0xff)))
		}
		return one(b)
	case "dup":
		return [][]byte{b, append([]byte{}, b...)}
	case "drop":
		return nil
	case "extra":
		e := make([]byte, f.Range(1, 3000))
		for i := range e {
			e[i] = byte(f.U64())
		}
		if f.P(50) {
			return [][]byte{b, e}
		}
		return [][]byte{e, b}
	case "chunks":
		if !ok || string(b[:3]) != "MSG" {
			return one(b)
		}
		// one response in many pieces that never ends.
		var l [][]byte
		seq := binary.LittleEndian.Uint32(b[16:])
		n := int(f.Pick(2, 50, 5000))
		for i := 0; i < n; i++ {
			c := append([]byte{}, b...)
			copy(c, "MSGC")
			binary.LittleEndian.PutUint32(c[16:], seq+uint32(i))
			l = append(l, c)
		}
		return l
	}
	if !ok {
		return one(f.mutate(b, min(8, len(b)-1)))
	}
	switch kind {
	case "swap", "fill", "fault":
		r := res
		if kind == "swap" {
			r = fuzzResponses[f.N(len(fuzzResponses))]()
			if f.P(50) {
				f.fill(reflect.ValueOf(r).Elem(), 0)
			}
		} else if kind == "fault" {
			r = new(ua.ServiceFault)
		} else {
			keep := *res.Header()
			v := reflect.ValueOf(r).Elem()
			if f.P(50) {
				// one field only.
				f.fill(v.Field(f.N(v.NumField())), 0)
			} else {
				f.fill(v, 0)
			}
			*r.Header() = keep
		}
		*r.Header() = header()
		if f.P(15) {
			r.Header().ServiceResult = ua.StatusCode(f.U64())
		}
		return one(with(r))
	case "handle":
		res.Header().RequestHandle = uint32(f.Pick(0, int64(handle)+1, int64(handle)-1, math.MaxUint32, int64(uint32(f.U64()))))
		return one(with(res))
	case "deep":
		r := &ua.ReadResponse{ResponseHeader: header(), Results: []ua.DataValue{{}}}
		e, err := raw.Encode(ec, r)
		if err != nil {
			return one(b)
		}
		// results: one data value with a variant, then no diagnostics.
		e = append(e[:len(e)-5:len(e)-5], 1)
		e = append(e, deepVariant(f.N(3), int(f.Pick(10, 200, 5000)))...)
		return one(p21len(append(b[:sec+8:sec+8], append(e, 0xff, 0xff, 0xff, 0xff)...)))
	case "endp":
		r, _ := res.(*ua.GetEndpointsResponse)
		if r == nil {
			return one(b)
		}
		for i := range r.Endpoints {
			e := &r.Endpoints[i]
			switch f.N(8) {
			case 0:
				e.ServerCertificate = f.bytes()
			case 1:
				e.ServerCertificate = ua.ByteString(ident("eccert").Cert)
			case 2:
				e.SecurityMode = ua.MessageSecurityMode(f.N(5))
			case 3:
				e.SecurityPolicyURI = raw.Policies[secs[f.N(len(secs))].Policy].URI
			case 4:
				e.UserIdentityTokens = nil
			case 5:
				for j := range e.UserIdentityTokens {
					e.UserIdentityTokens[j].SecurityPolicyURI = raw.Policies[secs[f.N(len(secs))].Policy].URI
				}
			case 6:
				e.ServerCertificate = ""
			case 7:
				f.fill(reflect.ValueOf(e).Elem(), 0)
			}
		}
		return one(with(r))
	}
	return one(b)
}
