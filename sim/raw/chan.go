package raw

import (
	"bytes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sync"
	"time"

	"github.com/awcullen/opcua/ua"

	"opcuasim/simnet"
)

// Message security modes.
const (
	ModeNone    = 1
	ModeSign    = 2
	ModeEncrypt = 3
)

// Ident is an application instance certificate with its key.
type Ident struct {
	Cert []byte // DER
	Key  *rsa.PrivateKey
}

// Limits offered in Hello.
type Limits struct{ Recv, Send, MaxMsg, MaxChunk uint32 }

// DefaultLimits of the raw client.
var DefaultLimits = Limits{65535, 65535, 0, 0}

// Chan is one secure channel.
type Chan struct {
	// ServerNonce is the nonce of the last OpenSecureChannel response.
	ServerNonce []byte
	Conn        *simnet.Conn
	Link        *simnet.Link
	P           *Policy
	Mode        int
	Me          *Ident
	ServerCert  []byte
	ServerKey   *rsa.PublicKey
	URL         string
	Ack         Limits // what the server answered
	Offered     Limits

	ChannelID uint32
	TokenID   uint32
	Lifetime  uint32 // revised, ms

	sendMu  sync.Mutex
	kmu     sync.Mutex
	ckeys   map[uint32]*keys
	skeys   map[uint32]*keys
	nonce   []byte
	sendSeq uint32
	// WrapAt makes the sequence number start again at WrapTo after it.
	WrapAt, WrapTo uint32
	recvSeq        uint32
	gotSeq         bool
	EC             ua.EncodingContext

	LastRecvToken uint32
	MaxChunkSeen  int
	ChunksSeen    int
	RenewedTokens []uint32
}

type encCtx struct{ uris []string }

func (e *encCtx) NamespaceURIs() []string { return e.uris }

// NewEC returns an encoding context.
func NewEC(uris ...string) ua.EncodingContext { return &encCtx{uris} }

// ErrProto marks a violation of the wire protocol by the server.
type ErrProto struct{ Msg string }

func (e *ErrProto) Error() string { return "protocol violation: " + e.Msg }

// ErrUACP is an ERR message from the server.
type ErrUACP struct {
	Code   ua.StatusCode
	Reason string
}

func (e *ErrUACP) Error() string { return fmt.Sprintf("ERR %08X %s", uint32(e.Code), e.Reason) }

// Dial connects.
func Dial(n *simnet.Net, addr, url string) (*Chan, error) {
	c, l, err := n.Dial(addr, 10*time.Second)
	if err != nil {
		return nil, err
	}
	return &Chan{Conn: c, Link: l, URL: url, ckeys: map[uint32]*keys{}, skeys: map[uint32]*keys{}, P: Policies["None"], Mode: ModeNone,
		EC: NewEC("http://opcfoundation.org/UA/", "urn:a", "urn:b", "urn:c")}, nil
}

func le32(b []byte, v uint32) []byte { return binary.LittleEndian.AppendUint32(b, v) }

func lestr(b []byte, s string) []byte {
	b = le32(b, uint32(len(s)))
	return append(b, s...)
}

// HelloBytes builds a Hello.
func HelloBytes(l Limits, url string) []byte {
	b := []byte("HELF\x00\x00\x00\x00")
	b = le32(b, 0)
	b = le32(b, l.Recv)
	b = le32(b, l.Send)
	b = le32(b, l.MaxMsg)
	b = le32(b, l.MaxChunk)
	b = lestr(b, url)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
	return b
}

// ReadMsg reads one framed chunk.
func (c *Chan) ReadMsg() ([]byte, error) {
	h := make([]byte, 8)
	if _, err := io.ReadFull(c.Conn, h); err != nil {
		return nil, err
	}
	sz := binary.LittleEndian.Uint32(h[4:])
	if sz < 8 || sz > 64<<20 {
		return nil, &ErrProto{fmt.Sprintf("chunk with declared size %d (type %q)", sz, h[:4])}
	}
	b := make([]byte, sz)
	copy(b, h)
	if _, err := io.ReadFull(c.Conn, b[8:]); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	if string(b[:3]) == "ERR" {
		e := &ErrUACP{}
		if len(b) >= 16 {
			e.Code = ua.StatusCode(binary.LittleEndian.Uint32(b[8:]))
			e.Reason = string(b[16:])
		}
		return nil, e
	}
	return b, nil
}

// Hello performs the handshake.
func (c *Chan) Hello(l Limits) error {
	c.Offered = l
	if _, err := c.Conn.Write(HelloBytes(l, c.URL)); err != nil {
		return err
	}
	b, err := c.ReadMsg()
	if err != nil {
		return err
	}
	if string(b[:4]) != "ACKF" || len(b) != 28 {
		return &ErrProto{fmt.Sprintf("answer to Hello is %q len %d", b[:4], len(b))}
	}
	u := func(i int) uint32 { return binary.LittleEndian.Uint32(b[8+4*i:]) }
	c.Ack = Limits{Recv: u(1), Send: u(2), MaxMsg: u(3), MaxChunk: u(4)}
	if c.Ack.Send > l.Recv || c.Ack.Recv > l.Send {
		return &ErrProto{"Ack buffer sizes exceed what the client offered"}
	}
	return nil
}

func thumb(der []byte) []byte { s := sha1.Sum(der); return s[:] }

// Secure sets the security of the channel (before Open).
func (c *Chan) Secure(policy string, mode int, me *Ident, serverCert []byte) error {
	c.P = Policies[policy]
	c.Mode = mode
	c.Me = me
	c.ServerCert = serverCert
	if policy != "None" {
		x, err := x509.ParseCertificate(serverCert)
		if err != nil {
			return err
		}
		c.ServerKey = x.PublicKey.(*rsa.PublicKey)
	}
	return nil
}

// SetSeq sets the number before the next sequence number.
func (c *Chan) SetSeq(n uint32) { c.sendSeq = n }

// Seq returns the last sequence number sent.
func (c *Chan) Seq() uint32 { return c.sendSeq }

// NextSeq returns the next sequence number.
func (c *Chan) NextSeq() uint32 {
	if c.WrapAt != 0 && c.sendSeq == c.WrapAt {
		c.sendSeq, c.WrapAt = c.WrapTo, 0
		return c.sendSeq
	}
	c.sendSeq++
	return c.sendSeq
}

// BuildOPN builds the (single) chunk of an OpenSecureChannel request.
func (c *Chan) BuildOPN(body []byte, reqID uint32) ([]byte, error) {
	return c.buildOPN(body, reqID, -1)
}

func (c *Chan) buildOPN(body []byte, reqID uint32, says int) ([]byte, error) {
	b := []byte("OPNF\x00\x00\x00\x00")
	b = le32(b, c.ChannelID)
	b = lestr(b, c.P.URI)
	if c.P.Nonce == 0 {
		b = le32(b, 0xffffffff)
		b = le32(b, 0xffffffff)
	} else {
		b = lestr(b, string(c.Me.Cert))
		b = lestr(b, string(thumb(c.ServerCert)))
	}
	hdr := len(b)
	b = le32(b, c.NextSeq())
	b = le32(b, reqID)
	b = append(b, body...)
	if c.P.Nonce == 0 {
		binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
		return b, nil
	}
	sig := c.Me.Key.Size()
	plain := c.ServerKey.Size() - c.P.pad()
	// padding
	ph := 1
	if c.ServerKey.Size() > 256 {
		ph = 2
	}
	n := len(b) - hdr + ph + sig
	pad := (plain - n%plain) % plain
	val := byte(pad)
	if says >= 0 {
		val = byte(says)
	}
	b = append(b, val)
	for i := 0; i < pad; i++ {
		b = append(b, val)
	}
	if ph == 2 {
		b = append(b, byte(pad>>8))
	}
	total := hdr + (len(b)-hdr+sig)/plain*c.ServerKey.Size()
	binary.LittleEndian.PutUint32(b[4:], uint32(total))
	s, err := c.P.RSASign(c.Me.Key, b)
	if err != nil {
		return nil, err
	}
	b = append(b, s...)
	e, err := c.P.RSAEncrypt(c.ServerKey, b[hdr:])
	if err != nil {
		return nil, err
	}
	return append(b[:hdr:hdr], e...), nil
}

// Encode encodes a service message body (type id + fields).
func Encode(ec ua.EncodingContext, req any) ([]byte, error) {
	var buf bytes.Buffer
	enc := ua.NewBinaryEncoder(&buf, ec)
	id, ok := ua.FindBinaryEncodingIDForType(reflect.TypeOf(req).Elem())
	if !ok {
		return nil, fmt.Errorf("no encoding id for %T", req)
	}
	if err := enc.WriteNodeID(id.NodeID); err != nil {
		return nil, err
	}
	if err := enc.Encode(req); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// Decode decodes a service message body.
func Decode(ec ua.EncodingContext, b []byte) (any, error) {
	r := bytes.NewReader(b)
	dec := ua.NewBinaryDecoder(r, ec)
	var id ua.NodeID
	if err := dec.ReadNodeID(&id); err != nil {
		return nil, err
	}
	t, ok := ua.FindTypeForBinaryEncodingID(ua.NewExpandedNodeID(id))
	if !ok {
		return nil, fmt.Errorf("unknown encoding id %v", id)
	}
	v := reflect.New(t).Interface()
	if err := dec.Decode(v); err != nil {
		return nil, err
	}
	if r.Len() != 0 {
		return v, fmt.Errorf("%d bytes after the message", r.Len())
	}
	return v, nil
}

// OpenRequest builds the request and remembers the nonce.
func (c *Chan) OpenRequest(renew bool, lifetime uint32, handle uint32) *ua.OpenSecureChannelRequest {
	c.nonce = make([]byte, c.P.Nonce)
	rand.Read(c.nonce)
	t := ua.SecurityTokenRequestTypeIssue
	if renew {
		t = ua.SecurityTokenRequestTypeRenew
	}
	return &ua.OpenSecureChannelRequest{
		RequestHeader:     ua.RequestHeader{Timestamp: time.Now(), RequestHandle: handle, TimeoutHint: 60000},
		RequestType:       t,
		SecurityMode:      ua.MessageSecurityMode(c.Mode),
		ClientNonce:       ua.ByteString(c.nonce),
		RequestedLifetime: lifetime,
	}
}

// Open opens the channel and waits for the answer.
func (c *Chan) Open(lifetime uint32) error {
	body, err := Encode(c.EC, c.OpenRequest(false, lifetime, 1))
	if err != nil {
		return err
	}
	b, err := c.BuildOPN(body, 1)
	if err != nil {
		return err
	}
	if _, err := c.Conn.Write(b); err != nil {
		return err
	}
	m, err := c.ReadMsg()
	if err != nil {
		return err
	}
	r, err := c.Unwrap(m)
	if err != nil {
		return err
	}
	v, err := Decode(c.EC, r.Body)
	if err != nil {
		return err
	}
	o, ok := v.(*ua.OpenSecureChannelResponse)
	if !ok {
		return fmt.Errorf("answer to Open is %T", v)
	}
	if r.ReqID != 1 {
		return &ErrProto{"OpenSecureChannel response with another request id"}
	}
	c.install(o)
	return nil
}

func (c *Chan) install(o *ua.OpenSecureChannelResponse) {
	c.ServerNonce = []byte(o.ServerNonce)
	c.ChannelID = o.SecurityToken.ChannelID
	c.TokenID = o.SecurityToken.TokenID
	c.Lifetime = o.SecurityToken.RevisedLifetime
	if c.P.Nonce > 0 {
		c.kmu.Lock()
		c.ckeys[c.TokenID] = c.P.derive([]byte(o.ServerNonce), c.nonce)
		c.skeys[c.TokenID] = c.P.derive(c.nonce, []byte(o.ServerNonce))
		c.kmu.Unlock()
	}
}

// Chunk is one received chunk.
type Chunk struct {
	Type  string
	Seq   uint32
	ReqID uint32
	Token uint32
	Body  []byte
}

// Unwrap verifies and decrypts a received chunk.
func (c *Chan) Unwrap(b []byte) (*Chunk, error) {
	r := &Chunk{Type: string(b[:4])}
	if len(b) > c.MaxChunkSeen {
		c.MaxChunkSeen = len(b)
	}
	c.ChunksSeen++
	if c.Offered.Recv > 0 && len(b) > int(c.Offered.Recv) {
		return nil, &ErrProto{fmt.Sprintf("chunk of %d bytes exceeds the client's receive buffer %d", len(b), c.Offered.Recv)}
	}
	switch r.Type {
	case "OPNF":
		if len(b) < 12 {
			return nil, &ErrProto{"short OPN"}
		}
		p := 12
		str := func() ([]byte, error) {
			if len(b) < p+4 {
				return nil, &ErrProto{"short OPN header"}
			}
			n := int(int32(binary.LittleEndian.Uint32(b[p:])))
			p += 4
			if n < 0 {
				return nil, nil
			}
			if len(b) < p+n {
				return nil, &ErrProto{"short OPN header"}
			}
			v := b[p : p+n]
			p += n
			return v, nil
		}
		uri, err := str()
		if err != nil {
			return nil, err
		}
		if string(uri) != c.P.URI {
			return nil, &ErrProto{fmt.Sprintf("OPN answered with policy %q, asked %q", uri, c.P.URI)}
		}
		if _, err := str(); err != nil {
			return nil, err
		}
		if _, err := str(); err != nil {
			return nil, err
		}
		rest := b[p:]
		if c.P.Nonce > 0 {
			plain, err := c.P.RSADecrypt(c.Me.Key, rest)
			if err != nil {
				return nil, &ErrProto{"OPN cannot be decrypted: " + err.Error()}
			}
			all := append(append([]byte(nil), b[:p]...), plain...)
			sig := c.ServerKey.Size()
			if len(plain) < sig+9 {
				return nil, &ErrProto{"short OPN body"}
			}
			if err := c.P.RSAVerify(c.ServerKey, all[:len(all)-sig], all[len(all)-sig:]); err != nil {
				return nil, &ErrProto{"OPN signature invalid"}
			}
			plain = plain[:len(plain)-sig]
			pad := int(plain[len(plain)-1])
			if len(plain) < 9+pad {
				return nil, &ErrProto{"OPN padding"}
			}
			rest = plain[:len(plain)-1-pad]
		}
		if len(rest) < 8 {
			return nil, &ErrProto{"short OPN"}
		}
		r.Seq = binary.LittleEndian.Uint32(rest)
		r.ReqID = binary.LittleEndian.Uint32(rest[4:])
		r.Body = rest[8:]
	case "MSGF", "MSGC", "MSGA", "CLOF":
		if len(b) < 24 {
			return nil, &ErrProto{"short MSG chunk"}
		}
		if id := binary.LittleEndian.Uint32(b[8:]); id != c.ChannelID {
			return nil, &ErrProto{fmt.Sprintf("chunk for channel %d on channel %d", id, c.ChannelID)}
		}
		r.Token = binary.LittleEndian.Uint32(b[12:])
		rest := b[16:]
		if c.Mode != ModeNone {
			c.kmu.Lock()
			k := c.skeys[r.Token]
			c.kmu.Unlock()
			if k == nil {
				return nil, &ErrProto{fmt.Sprintf("chunk secured with unknown token %d", r.Token)}
			}
			if c.Mode == ModeEncrypt {
				if len(rest)%16 != 0 {
					return nil, &ErrProto{"ciphertext not a multiple of the block size"}
				}
				d := make([]byte, len(rest))
				cipher.NewCBCDecrypter(k.blk, k.iv).CryptBlocks(d, rest)
				rest = d
			}
			all := append(append([]byte(nil), b[:16]...), rest...)
			n := len(all) - c.P.Sig
			if n < 24 {
				return nil, &ErrProto{"short secured chunk"}
			}
			if !hmac.Equal(c.P.mac(k, all[:n]), all[n:]) {
				return nil, &ErrProto{"signature of a chunk does not verify"}
			}
			rest = all[16:n]
			if c.Mode == ModeEncrypt {
				pad := int(rest[len(rest)-1])
				if len(rest) < 9+pad {
					return nil, &ErrProto{"padding"}
				}
				rest = rest[:len(rest)-1-pad]
			}
		}
		r.Seq = binary.LittleEndian.Uint32(rest)
		r.ReqID = binary.LittleEndian.Uint32(rest[4:])
		r.Body = rest[8:]
		c.LastRecvToken = r.Token
	default:
		return nil, &ErrProto{fmt.Sprintf("unexpected message type %q", r.Type)}
	}
	if c.gotSeq && r.Seq != c.recvSeq+1 {
		return nil, &ErrProto{fmt.Sprintf("sequence number %d follows %d", r.Seq, c.recvSeq)}
	}
	c.gotSeq = true
	c.recvSeq = r.Seq
	return r, nil
}

// BuildMSG splits and secures a body. maxChunk 0 uses the negotiated size.
func (c *Chan) BuildMSG(typ string, body []byte, reqID uint32, maxChunk int) [][]byte {
	return c.BuildMSGToken(typ, body, reqID, maxChunk, c.TokenID)
}

// BuildMSGToken is BuildMSG with an explicit token.
func (c *Chan) BuildMSGToken(typ string, body []byte, reqID uint32, maxChunk int, token uint32) [][]byte {
	if maxChunk == 0 {
		maxChunk = int(c.Ack.Recv)
		if maxChunk == 0 {
			maxChunk = 8192
		}
	}
	var out [][]byte
	max := maxChunk - 24
	switch c.Mode {
	case ModeSign:
		max -= c.P.Sig
	case ModeEncrypt:
		max = (maxChunk-16)/16*16 - 8 - 1 - c.P.Sig
	}
	if max < 1 {
		max = 1
	}
	first := true
	for first || len(body) > 0 {
		first = false
		n := len(body)
		t := typ + "F"
		if n > max {
			n = max
			t = typ + "C"
		}
		out = append(out, c.SecureChunk(t, body[:n], c.NextSeq(), reqID, token))
		body = body[n:]
	}
	return out
}

// SecureChunk secures one chunk.
func (c *Chan) SecureChunk(t string, part []byte, seq, reqID, token uint32) []byte {
	b := []byte(t + "\x00\x00\x00\x00")
	b = le32(b, c.ChannelID)
	b = le32(b, token)
	b = le32(b, seq)
	b = le32(b, reqID)
	b = append(b, part...)
	c.kmu.Lock()
	k := c.ckeys[token]
	if k == nil {
		k = c.ckeys[c.TokenID]
	}
	c.kmu.Unlock()
	switch c.Mode {
	case ModeSign:
		binary.LittleEndian.PutUint32(b[4:], uint32(len(b)+c.P.Sig))
		b = append(b, c.P.mac(k, b)...)
	case ModeEncrypt:
		n := len(b) - 16 + 1 + c.P.Sig
		pad := (16 - n%16) % 16
		for i := 0; i <= pad; i++ {
			b = append(b, byte(pad))
		}
		binary.LittleEndian.PutUint32(b[4:], uint32(len(b)+c.P.Sig))
		b = append(b, c.P.mac(k, b)...)
		cipher.NewCBCEncrypter(k.blk, k.iv).CryptBlocks(b[16:], b[16:])
	default:
		binary.LittleEndian.PutUint32(b[4:], uint32(len(b)))
	}
	return b
}

// Send sends a service request.
func (c *Chan) Send(req ua.ServiceRequest, reqID uint32) error {
	body, err := Encode(c.EC, req)
	if err != nil {
		return err
	}
	c.sendMu.Lock()
	defer c.sendMu.Unlock()
	return c.sendBody("MSG", body, reqID)
}

func (c *Chan) sendBody(typ string, body []byte, reqID uint32) error {
	for _, m := range c.BuildMSG(typ, body, reqID, 0) {
		if _, err := c.Conn.Write(m); err != nil {
			return err
		}
	}
	return nil
}

// SendRaw writes bytes as they are.
func (c *Chan) SendRaw(b []byte) error {
	c.sendMu.Lock()
	defer c.sendMu.Unlock()
	_, err := c.Conn.Write(b)
	return err
}

// Lock gives exclusive use of the sending side.
func (c *Chan) Lock() { c.sendMu.Lock() }

// Unlock ends Lock.
func (c *Chan) Unlock() { c.sendMu.Unlock() }

// Msg is a complete received message.
type Msg struct {
	ReqID uint32
	Type  string
	Token uint32
	Body  []byte
	Size  int
	Count int
	At    time.Time
	V     any
}

// Recv reads one complete message.
func (c *Chan) Recv() (*Msg, error) {
	var m *Msg
	for {
		b, err := c.ReadMsg()
		if err != nil {
			return nil, err
		}
		ch, err := c.Unwrap(b)
		if err != nil {
			return nil, err
		}
		if m == nil {
			m = &Msg{ReqID: ch.ReqID, Token: ch.Token}
		} else if ch.ReqID != m.ReqID {
			return nil, &ErrProto{fmt.Sprintf("chunk of message %d interleaved with message %d", ch.ReqID, m.ReqID)}
		}
		m.Type = ch.Type[:3]
		m.Body = append(m.Body, ch.Body...)
		m.Count++
		switch ch.Type[3] {
		case 'F':
			m.At = time.Now()
			m.Size = len(m.Body)
			if c.Offered.MaxMsg > 0 && m.Size > int(c.Offered.MaxMsg) {
				return nil, &ErrProto{fmt.Sprintf("response of %d bytes exceeds the client's maximum %d", m.Size, c.Offered.MaxMsg)}
			}
			if c.Offered.MaxChunk > 0 && m.Count > int(c.Offered.MaxChunk) {
				return nil, &ErrProto{fmt.Sprintf("response of %d chunks exceeds the client's maximum %d", m.Count, c.Offered.MaxChunk)}
			}
			v, err := Decode(c.EC, m.Body)
			if err != nil {
				return nil, &ErrProto{"response cannot be decoded: " + err.Error()}
			}
			m.V = v
			if o, ok := v.(*ua.OpenSecureChannelResponse); ok && m.Type == "OPN" {
				c.RenewedTokens = append(c.RenewedTokens, o.SecurityToken.TokenID)
			}
			return m, nil
		case 'A':
			return nil, errors.New("aborted message")
		}
	}
}

// InstallRenewed switches to a renewed token.
func (c *Chan) InstallRenewed(o *ua.OpenSecureChannelResponse) {
	c.sendMu.Lock()
	c.install(o)
	c.sendMu.Unlock()
}

// SendOPN sends an OPN with a given body under the sending lock.
func (c *Chan) SendOPN(body []byte, reqID uint32) error {
	c.sendMu.Lock()
	defer c.sendMu.Unlock()
	b, err := c.BuildOPN(body, reqID)
	if err != nil {
		return err
	}
	_, err = c.Conn.Write(b)
	return err
}

// SendClose sends CloseSecureChannel.
func (c *Chan) SendClose(reqID uint32) error {
	body, err := Encode(c.EC, &ua.CloseSecureChannelRequest{RequestHeader: ua.RequestHeader{Timestamp: time.Now(), RequestHandle: reqID}})
	if err != nil {
		return err
	}
	c.sendMu.Lock()
	defer c.sendMu.Unlock()
	return c.sendBody("CLO", body, reqID)
}
