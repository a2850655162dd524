package scen

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"sync"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
	"opcuasim/simnet"
)

// P03: whoever controls the network can neither read, forge, change, repeat,
// drop nor reorder what travels on a secured channel without being noticed.
func init() { register(&Scenario{Prop: "P03", Gen: genP03, Run: runP03}) }

const p03secret = "S3CR3T-N0T-T0-B3-S33N"

func genP03(g Gen, p *Plan) {
	nv := int(g.Range(1, 2))
	p.P["victims"] = int64(nv)
	p.P["strict"] = g.Pick(0, 1)
	p.P["server2"] = g.Pick(0, 0, 0, 1)
	for a := 0; a < nv; a++ {
		p.P[fmt.Sprintf("real%d", a)] = g.Pick(0, 1)
		p.P[fmt.Sprintf("sec%d", a)] = g.Range(1, int64(len(secs)-1))
		p.P[fmt.Sprintf("buf%d", a)] = g.Pick(8192, 8192, 65536)
		// a client nobody interferes with, whose sequence numbers reach their maximum
		p.P[fmt.Sprintf("wrap%d", a)] = g.Pick(0, 0, 0, 0, 0, 1)
		p.P[fmt.Sprintf("seq%d", a)] = int64(g.U64() % 1000000)
	}
	n := int(g.Range(6, 16))
	if p.Tier == "thorough" {
		n = int(g.Range(8, 40))
	}
	kinds := []string{"call", "call", "call", "big", "write", "read", "two", "renew"}
	for i := 0; i < n*nv; i++ {
		p.Ops = append(p.Ops, Op{A: g.N(nv), D: g.Pick(0, 0, 1000, 200000), K: kinds[g.N(len(kinds))], I: []int64{int64(g.U64() % 1000000), int64(g.U64() % 1000)}})
	}
	att := []string{"flip", "flip", "flip", "flip", "trunc", "grow", "drop", "drop", "dup", "dup", "replay", "replay", "swap", "plain", "cross", "reflect", "opn", "opn2", "opn3", "opn3", "type", "other"}
	m := int(g.Range(1, 8))
	if p.Tier == "thorough" {
		m = int(g.Range(4, 20))
	}
	for i := 0; i < m; i++ {
		p.Ops = append(p.Ops, Op{A: 10, D: g.Pick(0, 1000, 50000, 300000), K: att[g.N(len(att))], I: []int64{int64(g.N(nv)), g.Pick(0, 0, 1), g.Pick(0, 0, 1, 2, 5), int64(g.U64() % 1000000), int64(g.U64() % 1000000)}})
	}
	op := []string{"badkey", "rogue", "mode", "nothing"}
	for i, m := 0, int(g.Range(0, 2)); i < m; i++ {
		p.Ops = append(p.Ops, Op{A: 11, D: g.Pick(0, 100000), K: op[g.N(len(op))], I: []int64{g.Range(1, int64(len(secs)-1)), int64(g.U64() % 1000)}})
	}
}

// p03link is what the attacker sees and does on one connection.
type p03link struct {
	mu    sync.Mutex
	l     *simnet.Link
	arm   [2][]Op
	rec   [2][][]byte
	held  [2][]byte
	lost  [2]bool // something sent was dropped, changed or moved
	extra [2]bool // something was put in
	sec   int
	opn   [2]int
	base  uint32 // last sequence number the client sent before the attacks, if known
	auth  []byte // the bytes of a request with the session's token (Sign mode)
}

type p03 struct {
	w      *World
	s      *Srv
	mu     sync.Mutex
	links  []*p03link // current link of each victim
	all    []*p03link
	sent   map[string]bool
	order  []string
	nonces map[string]bool
	evil   *raw.Client
	hits   int
}

func (x *p03) tamper(v int, enc bool, d int) func(lk *p03link) func(m []byte) [][]byte {
	return func(lk *p03link) func(m []byte) [][]byte {
		return func(m []byte) [][]byte {
			lk.mu.Lock()
			defer lk.mu.Unlock()
			if enc && bytes.Contains(m, []byte(p03secret)) {
				x.w.Fail("readable", "data of an encrypted channel is readable on the wire (direction %d, %d bytes)", d, len(m))
			}
			lk.rec[d] = append(lk.rec[d], m)
			if string(m[:3]) == "OPN" {
				if lk.opn[d]++; lk.opn[simnet.S2C] > lk.opn[simnet.C2S] {
					x.w.Fail("renewed", "victim %d: the server answered an OpenSecureChannel request the client did not send", v)
				}
			}
			if h := lk.held[d]; h != nil {
				lk.held[d] = nil
				return [][]byte{m, h}
			}
			if len(lk.arm[d]) == 0 {
				return [][]byte{m}
			}
			op := &lk.arm[d][0]
			if op.I[2] > 0 {
				op.I[2]--
				return [][]byte{m}
			}
			o := *op
			lk.arm[d] = lk.arm[d][1:]
			out, lost, extra := x.attack(lk, d, o, m)
			if lost {
				lk.lost[d] = true
			}
			if extra {
				lk.extra[d] = true
			}
			if lost || extra {
				x.w.Fault("mitm_" + o.K)
				x.w.Log("attack %s victim %d dir %d on %d bytes %q", o.K, v, d, len(m), m[:4])
				x.hits++
			}
			return out
		}
	}
}

// attack returns what is delivered instead of m, and whether the original
// stream lost something or got something that was never sent.
func (x *p03) attack(lk *p03link, d int, o Op, m []byte) (out [][]byte, lost, extra bool) {
	a, b := int(o.I[3]), int(o.I[4])
	c := append([]byte(nil), m...)
	fix := func(c []byte) []byte { binary.LittleEndian.PutUint32(c[4:], uint32(len(c))); return c }
	switch o.K {
	case "flip":
		// anywhere but in the size, which would only make the reader wait
		i := a % len(c)
		if b%3 == 0 {
			i = a % 24
		}
		if i >= 4 && i < 8 {
			i = 12
		}
		if i >= len(c) {
			i = len(c) - 1
		}
		c[i] ^= byte(1 << (b % 8))
		return [][]byte{c}, true, true
	case "trunc":
		n := 8 + a%(len(c)-7)
		if b%2 == 0 && len(c) > 40 {
			n = len(c) - 16*(1+a%2)
		} else if b%4 == 1 {
			n = 8 + a%24
		}
		if n >= len(c) {
			n = len(c) - 1
		}
		if n < 8 {
			n = 8
		}
		return [][]byte{fix(c[:n])}, true, true
	case "grow":
		for i := 0; i < 16*(1+a%3); i++ {
			c = append(c, byte(b))
		}
		return [][]byte{fix(c)}, true, true
	case "drop":
		// putting it back later would only be a delay
		lk.rec[d] = lk.rec[d][:len(lk.rec[d])-1]
		if d == simnet.C2S && lk.base != 0 {
			lk.base++
		}
		return nil, true, false
	case "dup":
		return [][]byte{m, m}, false, true
	case "replay":
		if len(lk.rec[d]) < 2 {
			return [][]byte{m}, false, false
		}
		r := lk.rec[d][a%(len(lk.rec[d])-1)]
		if b%2 == 0 {
			return [][]byte{r, m}, false, true
		}
		return [][]byte{m, r}, false, true
	case "swap":
		lk.held[d] = m
		return nil, true, false
	case "reflect":
		if len(lk.rec[1-d]) == 0 {
			return [][]byte{m}, false, false
		}
		return [][]byte{lk.rec[1-d][a%len(lk.rec[1-d])], m}, false, true
	case "type":
		// a final chunk presented as an intermediate one, and the reverse
		if string(c[:3]) != "MSG" {
			return [][]byte{m}, false, false
		}
		if c[3] == 'F' {
			c[3] = 'C'
		} else {
			c[3] = 'F'
		}
		return [][]byte{c}, true, true
	case "other":
		if string(c[:3]) != "MSG" {
			return [][]byte{m}, false, false
		}
		binary.LittleEndian.PutUint32(c[12:], binary.LittleEndian.Uint32(c[12:])+uint32(1+a%2))
		return [][]byte{c}, true, true
	case "plain", "cross", "opn", "opn2", "opn3":
		if d != simnet.C2S || string(m[:3]) != "MSG" {
			return [][]byte{m}, false, false
		}
		// the number the next chunk must have
		seq := lk.base + uint32(len(lk.rec[d]))
		if secs[lk.sec].Mode != raw.ModeEncrypt {
			seq = binary.LittleEndian.Uint32(m[16:])
		} else if lk.base == 0 {
			seq += 3 + uint32(a%5)
		}
		if o.I[4]/8%4 == 0 {
			seq = uint32(a)
		}
		f := x.forge(o.K, m, a, b, seq, secs[lk.sec])
		if f == nil {
			return [][]byte{m}, false, false
		}
		if o.I[4]/32%2 == 0 {
			return [][]byte{f}, true, true
		}
		return [][]byte{f, m}, false, true
	}
	return [][]byte{m}, false, false
}

// forge builds a message the attacker can make without the victim's keys.
func (x *p03) forge(kind string, m []byte, a, b int, seq uint32, sec secMode) []byte {
	id := binary.LittleEndian.Uint32(m[8:])
	tok := binary.LittleEndian.Uint32(m[12:])
	switch kind {
	case "plain", "cross":
		// in Sign mode the session's token is visible on the wire
		var auth ua.NodeID = x.evil.Token
		if v, err := raw.Decode(x.evil.EC, safeBody(m)); err == nil {
			if q, ok := v.(ua.ServiceRequest); ok && q.Header().AuthenticationToken != nil {
				auth = q.Header().AuthenticationToken
				x.w.Count("token_seen")
			}
		}
		q := &ua.CallRequest{RequestHeader: ua.RequestHeader{AuthenticationToken: auth, Timestamp: time.Now(), RequestHandle: 77777}, MethodsToCall: []ua.CallMethodRequest{callReq("Note", "forged")}}
		body, err := raw.Encode(x.evil.EC, q)
		if err != nil {
			return nil
		}
		var c []byte
		if kind == "plain" {
			c = append([]byte("MSGF\x00\x00\x00\x00"), make([]byte, 16)...)
			binary.LittleEndian.PutUint32(c[16:], seq)
			binary.LittleEndian.PutUint32(c[20:], 4711)
			c = append(c, body...)
			if b%2 == 0 {
				c = append(c, make([]byte, b%64)...)
			}
			binary.LittleEndian.PutUint32(c[4:], uint32(len(c)))
		} else {
			c = x.evil.SecureChunk("MSGF", body, seq, 4711, x.evil.TokenID)
		}
		binary.LittleEndian.PutUint32(c[8:], id)
		binary.LittleEndian.PutUint32(c[12:], tok)
		return c
	case "opn", "opn2", "opn3":
		// a renewal without security, with the attacker's certificate, with the victim's
		// certificate but another key
		ch := &raw.Chan{P: raw.Policies[sec.Policy], Mode: sec.Mode, EC: x.evil.EC, ChannelID: id, Me: x.evil.Me, ServerCert: x.evil.ServerCert, ServerKey: x.evil.ServerKey}
		if kind == "opn" {
			ch = &raw.Chan{P: raw.Policies["None"], Mode: raw.ModeNone, EC: x.evil.EC, ChannelID: id}
			if b%3 == 0 {
				ch.Mode = sec.Mode
			}
		} else if kind == "opn3" {
			ch.Me = &raw.Ident{Cert: ident("client1").Cert, Key: ident("client2").Key}
		}
		ch.SetSeq(seq - 1)
		r := ch.OpenRequest(b%4 != 0, 3600000, 9)
		body, err := raw.Encode(ch.EC, r)
		if err != nil {
			return nil
		}
		c, err := ch.BuildOPN(body, 4712)
		if err != nil {
			return nil
		}
		return c
	}
	return nil
}

// safeBody is the body of a signed chunk.
func safeBody(m []byte) []byte {
	if len(m) < 24 {
		return nil
	}
	return m[24:]
}

type p03cl struct {
	Caller
	lk    *p03link
	rc    *raw.Client
	sec   int
	dead  bool
	quiet bool // no attacks
	bad   int  // operations that failed
}

func (x *p03) connect(v int) *p03cl {
	w, s := x.w, x.s
	sec := int(w.P(fmt.Sprintf("sec%d", v)))
	enc := secs[sec].Mode == raw.ModeEncrypt
	c := &p03cl{sec: sec, lk: &p03link{sec: sec}}
	buf := uint32(w.P(fmt.Sprintf("buf%d", v)))
	x.mu.Lock()
	defer x.mu.Unlock()
	if w.P(fmt.Sprintf("real%d", v)) == 1 {
		k, err := s.DialReal(context.Background(), sec, "", client.WithTimeoutHint(15000), client.WithTransportLimits(buf, 0, 0))
		if err != nil {
			w.Fail("connect-refused", "legal client (%s mode %d) could not connect: %v\n%s", secs[sec].Policy, secs[sec].Mode, err, Stacks())
		}
		c.Caller = Real{k}
	} else {
		o := RawOpts{Sec: sec, Limits: raw.Limits{Recv: buf, Send: buf}}
		if w.P(fmt.Sprintf("wrap%d", v)) == 1 {
			q := uint32(w.P(fmt.Sprintf("seq%d", v)))
			o.WrapAt = math.MaxUint32 - q%5*q%1000
			o.Seq = o.WrapAt - q/5%12 - 2
			o.WrapTo = q / 7 % 2 * (q / 11 % 1000)
			c.quiet = true
			w.Count("wraps")
		}
		rc := s.MustConnect(o)
		c.Caller, c.rc = rc, rc
		x.nonce(rc)
		c.lk.base = rc.Seq()
	}
	ls := w.Net.Links()
	c.lk.l = ls[len(ls)-1]
	for d := 0; d < 2 && !c.quiet; d++ {
		c.lk.l.Tamper(d, x.tamper(v, enc, d)(c.lk))
	}
	if x.links[v] != nil {
		// attacks still armed go on
		o := x.links[v]
		o.mu.Lock()
		c.lk.arm = o.arm
		o.arm = [2][]Op{}
		o.mu.Unlock()
	}
	x.links[v] = c.lk
	return c
}

// nonce checks that the server's nonces are fresh.
func (x *p03) nonce(rc *raw.Client) {
	n := rc.ServerNonce
	if len(n) < rc.P.Nonce {
		x.w.Fail("nonce-short", "the server's nonce has %d bytes, %s needs %d", len(n), rc.P.Name, rc.P.Nonce)
	}
	if x.nonces[string(n)] {
		x.w.Fail("nonce-reused", "the server used the nonce %x twice", n)
	}
	x.nonces[string(n)] = true
}

func runP03(w *World) {
	nv := int(w.P("victims"))
	o := SrvOpts{}
	if w.P("strict") == 1 {
		o.Strict, o.Trusted = true, PKI+"trusted.pem"
	}
	if w.P("server2") == 1 {
		o.Ident = "server2"
	}
	s := w.NewServer(o)
	x := &p03{w: w, s: s, links: make([]*p03link, nv), sent: map[string]bool{}, nonces: map[string]bool{}}
	ran := map[string]int{}
	var rmu sync.Mutex
	s.AddMethod("Note", "Root", nil, func(_ *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		if len(r.InputArguments) == 0 {
			return ua.CallMethodResult{StatusCode: ua.BadArgumentsMissing}
		}
		tag := fmt.Sprint(r.InputArguments[0])
		key := tag
		if len(key) > 60 {
			key = key[:60]
		}
		rmu.Lock()
		ran[key]++
		n := ran[key]
		rmu.Unlock()
		x.mu.Lock()
		ok := x.sent[tag]
		x.mu.Unlock()
		if !ok {
			w.Fail("forged", "the server carried out a call that no client sent: %.60q", tag)
		}
		if n > 1 {
			w.Fail("repeated", "the server carried out the call %.60q %d times; it was sent once", key, n)
		}
		return ua.CallMethodResult{OutputArguments: []ua.Variant{"done " + tag}}
	})
	for v := 0; v < nv; v++ {
		s.AddVar(fmt.Sprintf("V%d", v), "init", ua.DataTypeIDString, -1, VarOpts{})
	}
	s.Serve()
	w.StartSched()
	x.evil = s.MustConnect(RawOpts{Sec: 1, Me: "client2"})
	cls := make([]*p03cl, nv)
	for v := range cls {
		cls[v] = x.connect(v)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, op := range w.OpsOf(10) {
			op.Sleep()
			x.mu.Lock()
			lk := x.links[op.I[0]]
			x.mu.Unlock()
			lk.mu.Lock()
			op.I = append([]int64(nil), op.I...)
			lk.arm[op.I[1]] = append(lk.arm[op.I[1]], op)
			lk.mu.Unlock()
		}
	}()
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i, op := range w.OpsOf(11) {
			op.Sleep()
			x.open(op, i)
		}
	}()
	w.Actors(nv, func(v int, ops []Op) {
		cur := "init"              // value of the variable
		maybe := map[string]bool{} // values of writes without an answer
		for i, op := range ops {
			op.Sleep()
			c := cls[v]
			if c.dead {
				c.Disconnect()
				c = x.connect(v)
				cls[v] = c
				w.Count("reconnects")
			}
			tag := fmt.Sprintf("v%d.%d.%s", v, i, p03secret)
			c.lk.mu.Lock()
			lostUp, lostDown, touched := c.lk.lost[0], c.lk.lost[1], c.lk.extra[0] || c.lk.extra[1] || c.lk.lost[0] || c.lk.lost[1]
			c.lk.mu.Unlock()
			noted := func(ok bool, what string) {
				if ok {
					w.Count("served")
					if lostUp {
						w.Fail("loss-unnoticed", "victim %d: a %s sent after a message of the client was dropped, changed or held back was still served on the same channel", v, what)
					}
					if lostDown && c.rc == nil {
						w.Fail("loss-unnoticed", "victim %d: the library's client accepted the response to a %s although an earlier message of the server was dropped, changed or held back", v, what)
					}
					return
				}
				c.lk.mu.Lock()
				touched = touched || c.lk.extra[0] || c.lk.extra[1] || c.lk.lost[0] || c.lk.lost[1]
				c.lk.mu.Unlock()
				if !touched {
					w.Fail("failed", "victim %d: a %s failed on a channel nobody touched\n%s", v, what, Stacks())
				}
				w.Count("refused")
				// go on for a while on the same channel, what it sends must not be served any more
				if c.bad++; c.bad > int(op.Arg(1)%3) {
					c.dead = true
				}
			}
			switch op.K {
			case "call", "big":
				if op.K == "big" {
					b := make([]byte, 9000+op.Arg(0)%60000)
					for i := range b {
						b[i] = "abcdefghijklmnopqrstuvwxyz"[i%26]
					}
					tag += string(b)
				}
				x.mu.Lock()
				x.sent[tag] = true
				x.mu.Unlock()
				r, err := c.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Note", tag)}}, 20*time.Second)
				ok := good(r, err)
				if ok {
					q := r.(*ua.CallResponse)
					if len(q.Results) != 1 || len(q.Results[0].OutputArguments) != 1 || q.Results[0].OutputArguments[0] != "done "+tag {
						w.Fail("changed", "victim %d: the call %.60q was answered %.120v", v, tag, q.Results)
					}
				}
				noted(ok, op.K)
			case "two":
				// two calls in one request: both or none, each once
				t2 := tag + "#2"
				x.mu.Lock()
				x.sent[tag], x.sent[t2] = true, true
				x.mu.Unlock()
				r, err := c.Do(&ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{callReq("Note", tag), callReq("Note", t2)}}, 20*time.Second)
				ok := good(r, err)
				if ok {
					q := r.(*ua.CallResponse)
					if len(q.Results) != 2 || fmt.Sprint(q.Results[0].OutputArguments) != "[done "+tag+"]" || fmt.Sprint(q.Results[1].OutputArguments) != "[done "+t2+"]" {
						w.Fail("changed", "victim %d: two calls were answered %.200v", v, q.Results)
					}
				}
				noted(ok, op.K)
			case "write":
				r, err := c.Do(writeReq(fmt.Sprintf("V%d", v), tag, ""), 20*time.Second)
				ok := good(r, err)
				if ok {
					q := r.(*ua.WriteResponse)
					if len(q.Results) != 1 || q.Results[0] != ua.Good {
						w.Fail("changed", "victim %d: a write was answered %v", v, q.Results)
					}
					cur, maybe = tag, map[string]bool{}
				} else {
					maybe[tag] = true
				}
				noted(ok, op.K)
			case "read":
				r, err := c.Do(readVal(fmt.Sprintf("V%d", v)), 20*time.Second)
				ok := good(r, err)
				if ok {
					q := r.(*ua.ReadResponse)
					if len(q.Results) != 1 {
						w.Fail("changed", "victim %d: a read was answered with %d results", v, len(q.Results))
					}
					g, _ := q.Results[0].Value.(string)
					if g != cur && !maybe[g] {
						w.Fail("changed", "victim %d: read %q, written %q", v, g, cur)
					}
					if g != cur {
						cur = g
					}
				}
				noted(ok, op.K)
			case "renew":
				if c.rc == nil {
					continue
				}
				err := c.rc.Renew(3600000, 20*time.Second)
				if err == nil {
					x.mu.Lock()
					x.nonce(c.rc)
					x.mu.Unlock()
					w.Count("renewed")
				}
				noted(err == nil, op.K)
			}
		}
	})
	wg.Wait()
	time.Sleep(time.Second)
	for v, c := range cls {
		// what the server put on the wire of an untouched channel is well-formed
		if c.rc != nil {
			c.lk.mu.Lock()
			t := c.lk.lost[1] || c.lk.extra[1]
			c.lk.mu.Unlock()
			if a := c.rc.Anomalies(); len(a) > 0 && !t {
				w.Fail("anomaly", "victim %d: %v", v, a)
			}
		}
		c.Disconnect()
	}
	if !good(x.evil.Do(readVal("V0"), 60*time.Second)) {
		w.Fail("failed", "the attacker's own channel does not work any more")
	}
	s.Alive("not-alive")
	if x.hits > 0 {
		w.NonTrivial()
	}
	rmu.Lock()
	w.State(len(ran), x.hits)
	rmu.Unlock()
}

// open tries to open a channel without being entitled to.
func (x *p03) open(op Op, i int) {
	w, s := x.w, x.s
	sec := secs[op.I[0]]
	x.mu.Lock() // connect takes the last link for its own
	c, err := raw.Dial(w.Net, srvAddr, srvURL)
	x.mu.Unlock()
	if err != nil {
		w.Fail("connect-refused", "dial: %v", err)
	}
	defer c.Conn.Close()
	c.EC = s.ec()
	c.Conn.SetDeadline(time.Now().Add(30 * time.Second))
	if err := c.Hello(raw.DefaultLimits); err != nil {
		w.Fail("connect-refused", "hello: %v", err)
	}
	me := &raw.Ident{Cert: ident("client1").Cert, Key: ident("client1").Key}
	mode := sec.Mode
	switch op.K {
	case "badkey": // somebody else's certificate
		me.Key = ident("rogue").Key
	case "rogue":
		if w.P("strict") == 0 {
			return
		}
		me = ident("rogue")
	case "mode":
		mode = raw.ModeNone
		if op.I[1]%2 == 0 {
			mode = int(4 + op.I[1]%3)
		}
	case "nothing":
		me.Cert = nil
	}
	c.Secure(sec.Policy, mode, me, ident(s.ident).Cert)
	err = c.Open(3600000)
	w.Fault("open_" + op.K)
	if err == nil {
		w.Fail("opened", "a channel was opened with %s (policy %s, mode %d)", op.K, sec.Policy, mode)
	}
}
