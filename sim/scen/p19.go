package scen

import (
	"context"
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P19: messages of any size arrive whole within the agreed limits, and what
// exceeds a limit is refused alone.
func init() { register(&Scenario{Prop: "P19", Gen: genP19, Run: runP19}) }

func genP19(g Gen, p *Plan) {
	nc := int(g.Range(1, 2))
	p.P["clients"] = int64(nc)
	p.P["sbuf"] = g.Pick(8192, 8200, 16384, 65536, 65536, 100000)
	p.P["smsg"] = g.Pick(0, 0, 20000, 60000, 200000)
	p.P["schunk"] = g.Pick(0, 0, 3, 8, 30)
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("real%d", a)] = g.Pick(0, 1)
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, g.Range(1, int64(len(secs)-1)), g.Range(1, int64(len(secs)-1)), g.Range(1, int64(len(secs)-1)))
		p.P[fmt.Sprintf("buf%d", a)] = g.Pick(8192, 8193, 8207, 9000, 65535, 65536, 200000)
		p.P[fmt.Sprintf("sndbuf%d", a)] = g.Pick(0, 0, 8192, 8300, 20000, 200000) // of an independent client, 0 the same
		p.P[fmt.Sprintf("msg%d", a)] = g.Pick(0, 0, 60000, 120000)
		p.P[fmt.Sprintf("chunk%d", a)] = g.Pick(0, 0, 10, 25)
		p.P[fmt.Sprintf("sub%d", a)] = g.Pick(0, 0, 1)
		p.P[fmt.Sprintf("par%d", a)] = g.Pick(1, 1, 2, 3)
		n := int(g.Range(3, 9))
		if p.Tier == "thorough" {
			n = int(g.Range(4, 24))
		}
		for i := 0; i < n; i++ {
			k := []string{"echo", "echo", "make", "make", "many", "vals", "write", "odd"}[g.N(8)]
			// near a multiple of a chunk, or anything
			base := g.Pick(8192, p.P[fmt.Sprintf("buf%d", a)], p.P["sbuf"], 65536)
			sz := base*g.Pick(1, 1, 2, 3, 4, 8) - g.Range(0, 400) + g.Pick(0, 0, 200)
			if g.Pick(0, 1, 2) == 0 {
				sz = g.Range(0, 200000)
			}
			if lim := g.Pick(p.P["smsg"], p.P[fmt.Sprintf("msg%d", a)]); lim > 0 && g.Pick(0, 1, 2) == 0 {
				sz = lim - 400 + g.Range(0, 800)
			}
			if sz > 400000 {
				sz = 400000
			}
			p.Ops = append(p.Ops, Op{A: a, D: g.Pick(0, 0, 1000, 100000), K: k, I: []int64{sz, int64(g.U64() % 1000000), g.Pick(0, 0, int64(g.U64()%100000))}})
		}
	}
}

type p19 struct {
	w    *World
	s    *Srv
	mu   sync.Mutex
	ran  map[string]int
	vars []*server.VariableNode
	auth ua.NodeID
}

func p19fill(n int, salt int) string {
	b := make([]byte, n)
	h := uint32(salt)*2654435761 + 12345
	for i := range b {
		h = h*1664525 + 1013904223
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[h>>26]
	}
	return string(b)
}

// p19vals makes an array of about n bytes of one of the types.
func p19vals(n, kind int) ua.Variant {
	t0 := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	switch kind % 16 {
	case 0:
		v := make([]int32, n/4)
		for i := range v {
			v[i] = int32(i*7919 - kind)
		}
		return v
	case 1:
		v := make([]float64, n/8)
		for i := range v {
			v[i] = float64(i)*1.5 - float64(kind)
		}
		return v
	case 2:
		v := make([]string, n/20+1)
		for i := range v {
			v[i] = p19fill(i%33, i)
		}
		return v
	case 3:
		v := make([]ua.ByteString, n/40+1)
		for i := range v {
			v[i] = ua.ByteString(p19fill(1+i%71, i))
		}
		return v
	case 4:
		v := make([]ua.Variant, n/12+1)
		for i := range v {
			switch i % 6 {
			case 0:
				v[i] = int32(i)
			case 1:
				v[i] = p19fill(i%29, i)
			case 2:
				v[i] = true
			case 3:
				v[i] = float32(i) / 2
			case 4:
				v[i] = uint64(i) << 33
			case 5:
				v[i] = []int16{int16(i), -1, 5}
			}
		}
		return v
	case 5:
		v := make([]bool, n)
		for i := range v {
			v[i] = (i*i+kind)%3 == 0
		}
		return v
	case 6:
		v := make([]time.Time, n/8)
		for i := range v {
			v[i] = t0.Add(time.Duration(i) * 100 * time.Nanosecond)
		}
		return v
	case 7:
		v := make([]ua.LocalizedText, n/30+1)
		for i := range v {
			v[i] = ua.LocalizedText{Text: p19fill(1+i%20, i), Locale: "en"}
		}
		return v
	case 8:
		v := make([]ua.NodeID, n/16+1)
		for i := range v {
			switch i % 4 {
			case 0:
				v[i] = ua.NodeIDNumeric{NamespaceIndex: uint16(i % 3), ID: uint32(i*100 + 1)}
			case 1:
				v[i] = ua.NodeIDString{NamespaceIndex: 2, ID: p19fill(1+i%10, i)}
			case 2:
				v[i] = ua.NodeIDNumeric{NamespaceIndex: 300, ID: 1 << 20}
			default:
				v[i] = ua.NodeIDOpaque{NamespaceIndex: 1, ID: ua.ByteString(p19fill(1+i%5, i))}
			}
		}
		return v
	case 9:
		v := make([]uint64, n/8)
		for i := range v {
			v[i] = uint64(i) * 0x9E3779B97F4A7C15
		}
		return v
	case 10:
		v := make([]ua.QualifiedName, n/20+1)
		for i := range v {
			v[i] = ua.QualifiedName{NamespaceIndex: uint16(i), Name: p19fill(1+i%19, i)}
		}
		return v
	case 11:
		v := make([]ua.StatusCode, n/4)
		for i := range v {
			v[i] = ua.StatusCode(uint32(i) << 16)
		}
		return v
	case 12:
		return ua.ByteString(p19fill(n, kind))
	case 13:
		v := make([]int64, n/8)
		for i := range v {
			v[i] = -int64(i) << 20
		}
		return v
	case 14:
		v := make([]float32, n/4)
		for i := range v {
			v[i] = float32(i) * 0.25
		}
		return v
	default:
		v := make([]uint16, n/2)
		for i := range v {
			v[i] = uint16(i)
		}
		return v
	}
}

func runP19(w *World) {
	nc := int(w.P("clients"))
	s := w.NewServer(SrvOpts{Extra: []server.Option{server.WithTransportLimits(uint32(w.P("sbuf")), uint32(w.P("smsg")), uint32(w.P("schunk")))}})
	x := &p19{w: w, s: s, ran: map[string]int{}}
	note := func(v ua.Variant) {
		x.mu.Lock()
		x.ran[fmt.Sprint(v)]++
		x.mu.Unlock()
	}
	s.AddMethod("Copy", "Root", nil, func(_ *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		note(r.InputArguments[0])
		return ua.CallMethodResult{OutputArguments: r.InputArguments}
	})
	s.AddMethod("Take", "Root", nil, func(_ *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		note(r.InputArguments[0])
		n := 0
		for i := 1; i < len(r.InputArguments); i++ {
			n += len(r.InputArguments[i].(string))
		}
		return ua.CallMethodResult{OutputArguments: []ua.Variant{r.InputArguments[0], uint32(n)}}
	})
	s.AddMethod("Make", "Root", nil, func(_ *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		note(r.InputArguments[0])
		return ua.CallMethodResult{OutputArguments: []ua.Variant{r.InputArguments[0], p19fill(int(r.InputArguments[1].(uint32)), int(r.InputArguments[2].(uint32)))}}
	})
	s.AddMethod("Odd", "Root", nil, func(_ *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		note(r.InputArguments[0])
		// a value the encoder does not know
		return ua.CallMethodResult{OutputArguments: []ua.Variant{r.InputArguments[0], struct{ A chan int }{}}}
	})
	for a := 0; a < nc; a++ {
		v := s.AddVar(fmt.Sprintf("V%d", a), "", ua.DataTypeIDString, -1, VarOpts{})
		x.vars = append(x.vars, v)
	}
	s.Serve()
	w.StartSched()
	p := s.MustConnect(RawOpts{})
	x.auth = p.Token
	p.Disconnect()
	var wg sync.WaitGroup
	for a := 0; a < nc; a++ {
		wg.Add(1)
		go func(a int) { defer wg.Done(); x.client(a) }(a)
	}
	wg.Wait()
	s.Alive("not-alive")
}

type p19cl struct {
	*p19
	a       int
	c       Caller
	rc      *raw.Client
	name    string
	up, dn  int // bytes a chunk carries at most and at least, see fits
	upMsg   int
	upChunk int
	dnMsg   int
	dnChunk int
	// bytes of a message that a full chunk carries
	upCap, dnCap int
}

// exact tells whether a body of n bytes is within the limits, given the bytes a chunk can carry.
func exact(n, capacity, msg, chunks int) int {
	if msg > 0 && n > msg || chunks > 0 && n > chunks*capacity {
		return -1
	}
	return 1
}

// fits tells whether a body of about n bytes is within the limits: 1 yes, -1 no, 0 too close to tell.
func fits(n, chunk, msg, chunks int) int {
	r := 1
	if msg > 0 {
		if n > msg+64 {
			return -1
		}
		if n > msg-64 {
			r = 0
		}
	}
	if chunks > 0 {
		if n > chunks*chunk {
			return -1
		}
		if n > chunks*(chunk-160) {
			r = 0
		}
	}
	return r
}

func (x *p19) client(a int) {
	w, s := x.w, x.s
	sec := int(w.P(fmt.Sprintf("sec%d", a)))
	buf, msg, chunk := w.P(fmt.Sprintf("buf%d", a)), w.P(fmt.Sprintf("msg%d", a)), w.P(fmt.Sprintf("chunk%d", a))
	snd := buf
	if v := w.P(fmt.Sprintf("sndbuf%d", a)); v > 0 && w.P(fmt.Sprintf("real%d", a)) == 0 {
		snd = v
	}
	k := &p19cl{p19: x, a: a, upMsg: int(w.P("smsg")), upChunk: int(w.P("schunk")), dnMsg: int(msg), dnChunk: int(chunk)}
	if w.P(fmt.Sprintf("real%d", a)) == 1 {
		c, err := s.DialReal(context.Background(), sec, "", client.WithTimeoutHint(60000), client.WithTransportLimits(uint32(buf), uint32(msg), uint32(chunk)))
		if err != nil {
			w.Fail("connect-refused", "library client (%s mode %d, buffer %d, message %d, chunks %d) could not connect: %v\n%s", secs[sec].Policy, secs[sec].Mode, buf, msg, chunk, err, Stacks())
		}
		k.c = Real{c}
	} else {
		k.rc = s.MustConnect(RawOpts{Sec: sec, Limits: raw.Limits{Recv: uint32(buf), Send: uint32(snd), MaxMsg: uint32(msg), MaxChunk: uint32(chunk)}})
		k.c = k.rc
		ack := k.rc.Ack
		if ack.Recv < 8192 || ack.Send < 8192 || int64(ack.Recv) > snd || int64(ack.Send) > buf || int64(ack.Recv) > w.P("sbuf") || int64(ack.Send) > w.P("sbuf") {
			w.Fail("negotiation", "the client receives %d and sends %d bytes, the server at most %d: the server acknowledged %+v", buf, snd, w.P("sbuf"), ack)
		}
	}
	k.dn = int(min(buf, w.P("sbuf")))
	k.up = int(min(snd, w.P("sbuf")))
	// a full chunk has a header of 16 bytes, a sequence header of 8, and in the secured modes a
	// signature and the padding that fills the last block of the cipher
	pol := raw.Policies[secs[sec].Policy]
	capacity := func(n int) int {
		switch secs[sec].Mode {
		case raw.ModeNone:
			return n - 24
		case raw.ModeEncrypt:
			return (n-16)/pol.Block*pol.Block - 8 - 1 - pol.Sig
		}
		return n - 24 - pol.Sig
	}
	k.upCap, k.dnCap = capacity(k.up), capacity(k.dn)
	k.name = fmt.Sprintf("client %d (library=%v, %s mode %d, buffer %d, limits of server %d bytes %d chunks, of client %d bytes %d chunks)", a, k.rc == nil, secs[sec].Policy, secs[sec].Mode, k.dn, k.upMsg, k.upChunk, k.dnMsg, k.dnChunk)
	stop := make(chan struct{})
	var sw sync.WaitGroup
	if w.P(fmt.Sprintf("sub%d", a)) == 1 {
		sw.Add(1)
		ready := make(chan struct{})
		go func() { defer sw.Done(); k.subscribe(stop, ready) }()
		<-ready
	}
	ops := w.OpsOf(a)
	par := int(w.P(fmt.Sprintf("par%d", a)))
	var wg sync.WaitGroup
	for j := 0; j < par; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			for i := j; i < len(ops); i += par {
				ops[i].Sleep()
				k.op(fmt.Sprintf("c%d.%d", a, i), ops[i])
			}
		}(j)
	}
	wg.Wait()
	close(stop)
	if k.rc != nil {
		if an := k.rc.Anomalies(); len(an) > 0 {
			w.Fail("anomaly", "%s: %v", k.name, an)
		}
	}
	k.c.Disconnect()
	sw.Wait()
}

// subscribe receives large notifications between the responses.
func (k *p19cl) subscribe(stop, ready chan struct{}) {
	w := k.w
	r, err := k.c.Do(&ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedMaxKeepAliveCount: 20, RequestedLifetimeCount: 10000, PublishingEnabled: true}, 60*time.Second)
	if !good(r, err) {
		w.Fail("request-failed", "%s: CreateSubscription: %s", k.name, sr(r, err))
	}
	sub := r.(*ua.CreateSubscriptionResponse).SubscriptionID
	r, err = k.c.Do(&ua.CreateMonitoredItemsRequest{SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem(fmt.Sprintf("V%d", k.a), 1, 0, 5, true, nil, ua.MonitoringModeReporting)}}, 60*time.Second)
	if !good(r, err) {
		w.Fail("request-failed", "%s: CreateMonitoredItems: %s", k.name, sr(r, err))
	}
	close(ready)
	for {
		r, err := k.c.Do(&ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}}, 60*time.Second)
		select {
		case <-stop:
			return
		default:
		}
		if st := sr(r, err); !good(r, err) {
			if k.small(r, err) {
				w.Count("notification_too_large")
				continue
			}
			w.Fail("publish-failed", "%s: Publish: %s\n%s", k.name, st, Stacks())
		}
		for _, d := range r.(*ua.PublishResponse).NotificationMessage.NotificationData {
			d, ok := d.(ua.DataChangeNotification)
			if !ok {
				continue
			}
			for _, i := range d.MonitoredItems {
				v, _ := i.Value.Value.(string)
				if len(v) > 0 && v != p19fill(len(v), len(v)) {
					w.Fail("changed", "%s: a notification of %d bytes arrived changed", k.name, len(v))
				}
				w.Count("notifications")
			}
		}
	}
}

// small tells a refusal because of a limit from a failure.
func (k *p19cl) small(r ua.ServiceResponse, err error) bool {
	st := ua.Good
	if e, ok := err.(ua.StatusCode); ok {
		st = e
	} else if err == nil && r != nil {
		st = r.Header().ServiceResult
	}
	return st == ua.BadResponseTooLarge || st == ua.BadRequestTooLarge || st == ua.BadEncodingLimitsExceeded || st == ua.BadTCPMessageTooLarge
}

func (k *p19cl) count(tag string) int { k.mu.Lock(); defer k.mu.Unlock(); return k.ran[tag] }

func (k *p19cl) op(tag string, op Op) {
	w := k.w
	sz := int(op.I[0])
	if sz < 0 {
		sz = 0
	}
	salt := int(op.I[1])
	var req ua.ServiceRequest
	var want ua.ServiceResponse // with the size of the expected response
	method, marked := "", true
	args := []ua.Variant{tag}
	out := []ua.Variant{tag}
	switch op.K {
	case "echo":
		method = "Take"
		args = append(args, p19fill(sz, salt))
		out = append(out, uint32(sz))
	case "make":
		method = "Make"
		args = append(args, uint32(sz), uint32(salt))
		out = append(out, p19fill(sz, salt))
	case "vals":
		method = "Copy"
		args = append(args, p19vals(sz, salt))
		out = args
	case "odd":
		method = "Odd"
	case "write":
		if w.P(fmt.Sprintf("par%d", k.a)) > 1 {
			return // a later write may be read
		}
		marked = false
		v := p19fill(sz, sz)
		k.vars[k.a].SetValue(ua.NewDataValue(v, 0, time.Now(), 0, time.Now(), 0))
		req = readVal(fmt.Sprintf("V%d", k.a))
		want = &ua.ReadResponse{Results: []ua.DataValue{ua.NewDataValue(v, 0, time.Now(), 0, time.Now(), 0)}}
	case "many":
		// many results in one response
		n := sz/200 + 1
		if n > 900 {
			n = 900
		}
		q := &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnNeither}
		res := &ua.ReadResponse{}
		for i := 0; i < n; i++ {
			q.NodesToRead = append(q.NodesToRead, ua.ReadValueID{NodeID: ua.ParseNodeID("i=2253"), AttributeID: ua.AttributeIDDisplayName})
			res.Results = append(res.Results, ua.DataValue{Value: ua.LocalizedText{Text: "Server", Locale: "en"}})
		}
		req, want, marked = q, res, false
	}
	if method != "" {
		req = &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq(method, args...)}}
		want = &ua.CallResponse{Results: []ua.CallMethodResult{{OutputArguments: out}}}
	}
	ec := k.s.ec()
	// the header is filled in later with a token of this size
	req.Header().AuthenticationToken = k.auth
	if e := int(op.Arg(2)); e != 0 && (op.K == "echo" || op.K == "make" || op.K == "write") {
		// end exactly at a limit, or a few bytes off
		lim, body := 0, 0
		if op.K == "echo" {
			b, err := raw.Encode(ec, req)
			if err != nil {
				panic(err)
			}
			body = len(b)
			lim = []int{k.upMsg, k.upChunk * k.upCap, k.upCap * (1 + e%4)}[e%3]
		} else {
			b, err := raw.Encode(ec, want)
			if err != nil {
				panic(err)
			}
			body = len(b)
			lim = []int{k.dnMsg, k.dnChunk * k.dnCap, k.dnCap * (1 + e%4)}[e%3]
		}
		n := sz + lim + []int{0, 0, 1, -1, 5, 30, 200, 900}[e/16%8] - body
		if lim > 0 && n >= 0 && n < 600000 {
			op.I = []int64{int64(n), op.I[1], 0}
			w.Count("exact")
			k.op(tag, op)
			return
		}
	}
	up, err := raw.Encode(ec, req)
	if err != nil {
		panic(err)
	}
	dn, err := raw.Encode(ec, want)
	if err != nil {
		panic(err)
	}
	req.Header().AuthenticationToken = nil
	fu, fd := exact(len(up), k.upCap, k.upMsg, k.upChunk), exact(len(dn), k.dnCap, k.dnMsg, k.dnChunk)
	if op.K == "many" {
		fd = fits(len(dn), k.dn, k.dnMsg, k.dnChunk)
	}
	if k.rc != nil && fu <= 0 {
		return // the independent client keeps to the server's limits
	}
	if op.K == "many" && fd == 1 {
		// sizes of the results are not known exactly
		if fits(len(dn)+40*len(want.(*ua.ReadResponse).Results), k.dn, k.dnMsg, k.dnChunk) != 1 {
			fd = 0
		}
	} else if op.K == "many" && fd == -1 && fits(len(dn)/2, k.dn, k.dnMsg, k.dnChunk) != -1 {
		fd = 0
	}
	r, err := k.c.Do(req, 60*time.Second)
	ok := good(r, err)
	what := fmt.Sprintf("%s: %s with a request of about %d and a response of about %d bytes", k.name, op.K, len(up), len(dn))
	if op.K == "odd" {
		if ok {
			w.Fail("unencodable", "%s was answered Good", what)
		}
		if n := k.count(tag); n != 1 {
			w.Fail("unencodable", "%s: carried out %d times", what, n)
		}
		if sr(r, err) == "" || k.gone(r, err) {
			w.Fail("too-large-closes", "%s: a result that cannot be encoded ended the connection: %s\n%s", what, sr(r, err), Stacks())
		}
		w.Count("odd")
		return
	}
	switch {
	case ok && (fu == -1 || fd == -1):
		w.Fail("limit-exceeded", "%s was served", what)
	case !ok && fu == 1 && fd == 1:
		w.Fail("request-failed", "%s failed: %s\n%s", what, sr(r, err), Stacks())
	case !ok:
		if !k.small(r, err) {
			w.Fail("too-large-closes", "%s ended with %s\n%s", what, sr(r, err), Stacks())
		}
		if n := k.count(tag); fu == -1 && n > 0 {
			w.Fail("refused-executed", "%s was refused and carried out %d times", what, n)
		}
		w.Count("refused")
		w.Fault("limit_exceeded")
		return
	}
	if marked {
		if n := k.count(tag); n != 1 {
			w.Fail("repeated", "%s: carried out %d times", what, n)
		}
	}
	switch q := r.(type) {
	case *ua.CallResponse:
		if len(q.Results) != 1 || q.Results[0].StatusCode != ua.Good || len(q.Results[0].OutputArguments) != len(out) {
			w.Fail("changed", "%s: wrong answer %.200v", what, q.Results)
		}
		for i, v := range q.Results[0].OutputArguments {
			if !reflect.DeepEqual(v, out[i]) {
				w.Fail("changed", "%s: result %d (%T) arrived changed: %.200v", what, i, out[i], v)
			}
		}
	case *ua.ReadResponse:
		if n := len(want.(*ua.ReadResponse).Results); len(q.Results) != n {
			w.Fail("changed", "%s: %d results for %d entries", what, len(q.Results), n)
		}
		if op.K == "write" && q.Results[0].Value != p19fill(sz, sz) {
			w.Fail("changed", "%s: read %.100v", what, q.Results[0])
		}
		for _, v := range q.Results {
			if !reflect.DeepEqual(v.Value, q.Results[0].Value) || v.StatusCode != ua.Good {
				w.Fail("changed", "%s: %v", what, v)
			}
		}
	}
	if len(up) > k.up || len(dn) > k.dn {
		w.NonTrivial()
		w.Count("chunked")
	}
	w.Count("served")
	w.State(op.K, len(up)/k.up, len(dn)/k.dn)
}

// gone tells whether the connection has ended.
func (k *p19cl) gone(r ua.ServiceResponse, err error) bool {
	if err == nil {
		return false
	}
	e, ok := err.(ua.StatusCode)
	return !ok || e == ua.BadSecureChannelClosed || e == ua.BadRequestTimeout
}
