package raw

import (
	"crypto/rand"
	"crypto/rsa"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/awcullen/opcua/ua"

	"opcuasim/simnet"
)

// Pending is an outstanding request.
type Pending struct {
	ReqID  uint32
	Handle uint32
	Req    ua.ServiceRequest
	Sent   time.Time
	Done   chan struct{}
	Msg    *Msg
	N      int // number of responses seen
	Err    error
}

// ErrTimeout is returned by Wait.
var ErrTimeout = errors.New("no response in time")

// Client is a raw channel with a reader, pending requests and an optional session.
type Client struct {
	*Chan
	Name     string
	mu       sync.Mutex
	pend     map[uint32]*Pending
	done     map[uint32]*Pending // completed
	nextID   uint32
	Token    ua.NodeID // authentication token
	SessID   ua.NodeID
	SNonce   []byte
	SCert    []byte
	Timeout  float64
	ReadErr  error
	Closed   chan struct{}
	Anomaly  []string // responses nobody asked for, duplicates, wrong handles
	OnMsg    func(p *Pending, m *Msg)
	Handles  func(id uint32) uint32
	Hint     uint32
	closeOne sync.Once
}

// NewClient starts the reader of an opened channel.
func NewClient(c *Chan) *Client {
	x := &Client{Chan: c, pend: map[uint32]*Pending{}, done: map[uint32]*Pending{}, nextID: 1, Closed: make(chan struct{}), Hint: 60000}
	go x.reader()
	return x
}

func (x *Client) reader() {
	for {
		m, err := x.Recv()
		if err != nil {
			x.mu.Lock()
			x.ReadErr = err
			ps := x.pend
			x.pend = map[uint32]*Pending{}
			var pe *ErrProto
			if errors.As(err, &pe) {
				x.Anomaly = append(x.Anomaly, pe.Msg)
			}
			x.mu.Unlock()
			for _, p := range ps {
				p.Err = err
			}
			// close in id order, so that runs are reproducible
			for len(ps) > 0 {
				min := uint32(0)
				for id := range ps {
					if min == 0 || id < min {
						min = id
					}
				}
				close(ps[min].Done)
				delete(ps, min)
			}
			close(x.Closed)
			return
		}
		x.mu.Lock()
		p := x.pend[m.ReqID]
		if p == nil {
			if d := x.done[m.ReqID]; d != nil {
				d.N++
				x.Anomaly = append(x.Anomaly, fmt.Sprintf("second response (%T) to request %d (%T)", m.V, m.ReqID, d.Req))
			} else {
				x.Anomaly = append(x.Anomaly, fmt.Sprintf("response (%T) to request id %d that was never sent", m.V, m.ReqID))
			}
			x.mu.Unlock()
			continue
		}
		delete(x.pend, m.ReqID)
		x.done[m.ReqID] = p
		p.Msg = m
		p.N++
		if r, ok := m.V.(ua.ServiceResponse); ok {
			if r.Header().RequestHandle != p.Handle {
				x.Anomaly = append(x.Anomaly, fmt.Sprintf("response (%T) to request %d carries request handle %d, want %d", m.V, m.ReqID, r.Header().RequestHandle, p.Handle))
			}
			if !matches(p.Req, m.V) {
				x.Anomaly = append(x.Anomaly, fmt.Sprintf("response of type %T to a request of type %T", m.V, p.Req))
			}
		} else {
			x.Anomaly = append(x.Anomaly, fmt.Sprintf("message of type %T received as a response", m.V))
		}
		f := x.OnMsg
		x.mu.Unlock()
		if f != nil {
			f(p, m)
		}
		close(p.Done)
	}
}

func matches(req, res any) bool {
	if _, ok := res.(*ua.ServiceFault); ok {
		return true
	}
	a := fmt.Sprintf("%T", req)
	b := fmt.Sprintf("%T", res)
	return a[:len(a)-len("Request")] == b[:len(b)-len("Response")]
}

// Start sends a request and returns without waiting.
func (x *Client) Start(req ua.ServiceRequest) *Pending {
	x.mu.Lock()
	x.nextID++
	id := x.nextID
	h := id*7 + 1000
	if x.Handles != nil {
		h = x.Handles(id)
	}
	hd := req.Header()
	hd.RequestHandle = h
	if hd.Timestamp.IsZero() {
		hd.Timestamp = time.Now()
	}
	if hd.TimeoutHint == 0 {
		hd.TimeoutHint = x.Hint
	}
	if hd.AuthenticationToken == nil {
		hd.AuthenticationToken = x.Token
	}
	p := &Pending{ReqID: id, Handle: h, Req: req, Sent: time.Now(), Done: make(chan struct{})}
	if x.ReadErr != nil {
		p.Err = x.ReadErr
		close(p.Done)
		x.mu.Unlock()
		return p
	}
	x.pend[id] = p
	x.mu.Unlock()
	var err error
	if o, ok := req.(*ua.OpenSecureChannelRequest); ok {
		var body []byte
		if body, err = Encode(x.EC, o); err == nil {
			err = x.SendOPN(body, id)
		}
	} else {
		err = x.Send(req, id)
	}
	if err != nil {
		x.mu.Lock()
		if x.pend[id] == p {
			delete(x.pend, id)
			p.Err = err
			close(p.Done)
		}
		x.mu.Unlock()
	}
	return p
}

// Wait waits for the response.
func (p *Pending) Wait(d time.Duration) (ua.ServiceResponse, error) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-p.Done:
	case <-t.C:
		return nil, ErrTimeout
	}
	if p.Err != nil {
		return nil, p.Err
	}
	r, ok := p.Msg.V.(ua.ServiceResponse)
	if !ok {
		return nil, fmt.Errorf("response is %T", p.Msg.V)
	}
	return r, nil
}

// Do sends and waits.
func (x *Client) Do(req ua.ServiceRequest, d time.Duration) (ua.ServiceResponse, error) {
	return x.Start(req).Wait(d)
}

// Renew renews the security token.
func (x *Client) Renew(lifetime uint32, d time.Duration) error {
	x.Chan.Lock()
	req := x.OpenRequest(true, lifetime, 0)
	x.Chan.Unlock()
	r, err := x.Do(req, d)
	if err != nil {
		return err
	}
	o, ok := r.(*ua.OpenSecureChannelResponse)
	if !ok {
		return fmt.Errorf("renew answered by %T %v", r, r.Header().ServiceResult)
	}
	x.InstallRenewed(o)
	return nil
}

// Outstanding returns the requests without a response.
func (x *Client) Outstanding() []*Pending {
	x.mu.Lock()
	defer x.mu.Unlock()
	var l []*Pending
	for id := uint32(0); id <= x.nextID; id++ {
		if p := x.pend[id]; p != nil {
			l = append(l, p)
		}
	}
	return l
}

// Anomalies returns recorded anomalies.
func (x *Client) Anomalies() []string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]string(nil), x.Anomaly...)
}

// Err returns the error that ended the reader, if any.
func (x *Client) Err() error { x.mu.Lock(); defer x.mu.Unlock(); return x.ReadErr }

// SetOnMsg installs the receipt hook.
func (x *Client) SetOnMsg(f func(p *Pending, m *Msg)) { x.mu.Lock(); x.OnMsg = f; x.mu.Unlock() }

// Disconnect closes the transport.
func (x *Client) Disconnect() { x.closeOne.Do(func() { x.Conn.Close() }) }

// Opts of Connect.
type Opts struct {
	Addr, URL  string
	Policy     string
	Mode       int
	Me         *Ident
	ServerCert []byte
	Limits     Limits
	Lifetime   uint32
	EC         ua.EncodingContext
	// Seq is the number before the first sequence number, see also Chan.WrapAt.
	Seq, WrapAt, WrapTo uint32
}

// Connect dials, says hello and opens a channel.
func Connect(n *simnet.Net, o Opts) (*Client, error) {
	c, err := Dial(n, o.Addr, o.URL)
	if err != nil {
		return nil, err
	}
	if o.EC != nil {
		c.EC = o.EC
	}
	if o.Limits == (Limits{}) {
		o.Limits = DefaultLimits
	}
	c.sendSeq, c.WrapAt, c.WrapTo = o.Seq, o.WrapAt, o.WrapTo
	c.Conn.SetDeadline(time.Now().Add(60 * time.Second))
	if err := c.Hello(o.Limits); err != nil {
		c.Conn.Close()
		return nil, fmt.Errorf("hello: %w", err)
	}
	if o.Policy == "" {
		o.Policy = "None"
	}
	if o.Mode == 0 {
		o.Mode = ModeNone
	}
	if err := c.Secure(o.Policy, o.Mode, o.Me, o.ServerCert); err != nil {
		c.Conn.Close()
		return nil, err
	}
	if o.Lifetime == 0 {
		o.Lifetime = 3600000
	}
	if err := c.Open(o.Lifetime); err != nil {
		c.Conn.Close()
		return nil, fmt.Errorf("open: %w", err)
	}
	c.Conn.SetDeadline(time.Time{})
	return NewClient(c), nil
}

// SessionOpts of CreateSession.
type SessionOpts struct {
	AppURI  string
	Name    string
	Timeout float64
	MaxResp uint32
	Cert    []byte
	Nonce   []byte
	URL     string
}

// CreateSession creates a session (not yet activated).
func (x *Client) CreateSession(o SessionOpts, d time.Duration) (*ua.CreateSessionResponse, error) {
	req, nonce := x.CreateSessionRequest(o)
	_ = nonce
	r, err := x.Do(req, d)
	if err != nil {
		return nil, err
	}
	cs, ok := r.(*ua.CreateSessionResponse)
	if !ok {
		return nil, r.Header().ServiceResult
	}
	if cs.ServiceResult != ua.Good {
		return cs, cs.ServiceResult
	}
	x.Token = cs.AuthenticationToken
	x.SessID = cs.SessionID
	x.SNonce = []byte(cs.ServerNonce)
	x.SCert = []byte(cs.ServerCertificate)
	x.Timeout = cs.RevisedSessionTimeout
	return cs, nil
}

// CreateSessionRequest builds the request.
func (x *Client) CreateSessionRequest(o SessionOpts) (*ua.CreateSessionRequest, []byte) {
	if o.Timeout == 0 {
		o.Timeout = 120000
	}
	if o.AppURI == "" {
		o.AppURI = "urn:simhost:client1"
	}
	nonce := o.Nonce
	if nonce == nil {
		nonce = make([]byte, 32)
		rand.Read(nonce)
	}
	cert := o.Cert
	if cert == nil && x.P.Nonce > 0 {
		cert = x.Me.Cert
	}
	url := o.URL
	if url == "" {
		url = x.URL
	}
	return &ua.CreateSessionRequest{
		ClientDescription: ua.ApplicationDescription{
			ApplicationURI: o.AppURI, ApplicationName: ua.LocalizedText{Text: "sim"}, ApplicationType: ua.ApplicationTypeClient},
		EndpointURL: url, SessionName: o.Name, ClientNonce: ua.ByteString(nonce), ClientCertificate: ua.ByteString(cert),
		RequestedSessionTimeout: o.Timeout, MaxResponseMessageSize: o.MaxResp,
	}, nonce
}

// User identity for ActivateSession.
type User struct {
	Kind     string // "anon", "user", "x509", "raw"
	Name     string
	Password string
	Policy   string // policy short name of the user token ("" = channel policy)
	PolicyID string
	Ident    *Ident
	RawToken any    // for "raw"
	SigData  []byte // overrides the signed data for x509
	BadNonce bool   // encrypt the password with a wrong nonce
	Secret   []byte // overrides the plain text of the encrypted password
}

// ActivateRequest builds an ActivateSession request.
func (x *Client) ActivateRequest(u User) (*ua.ActivateSessionRequest, error) {
	req := &ua.ActivateSessionRequest{LocaleIDs: []string{"en"}}
	signed := append(append([]byte(nil), x.SCert...), x.SNonce...)
	if x.Mode != ModeNone {
		s, err := x.P.RSASign(x.Me.Key, signed)
		if err != nil {
			return nil, err
		}
		req.ClientSignature = ua.SignatureData{Signature: ua.ByteString(s), Algorithm: SigAlg(x.P)}
	}
	up := x.P
	if u.Policy != "" {
		up = Policies[u.Policy]
	}
	switch u.Kind {
	case "", "anon":
		id := u.PolicyID
		if id == "" {
			id = "Anonymous"
		}
		req.UserIdentityToken = ua.AnonymousIdentityToken{PolicyID: id}
	case "user":
		id := u.PolicyID
		if id == "" {
			id = "UserName"
		}
		if up.Nonce == 0 {
			req.UserIdentityToken = ua.UserNameIdentityToken{PolicyID: id, UserName: u.Name, Password: ua.ByteString(u.Password)}
			break
		}
		nonce := x.SNonce
		if u.BadNonce {
			nonce = make([]byte, len(x.SNonce))
			rand.Read(nonce)
		}
		var b []byte
		b = binary.LittleEndian.AppendUint32(b, uint32(len(u.Password)+len(nonce)))
		b = append(b, u.Password...)
		b = append(b, nonce...)
		if u.Secret != nil {
			b = u.Secret
		}
		pk, err := certKey(x.SCert)
		if err != nil {
			return nil, err
		}
		e, err := up.RSAEncrypt(pk, b)
		if err != nil {
			return nil, err
		}
		req.UserIdentityToken = ua.UserNameIdentityToken{PolicyID: id, UserName: u.Name, Password: ua.ByteString(e), EncryptionAlgorithm: EncAlg(up)}
	case "x509":
		id := u.PolicyID
		if id == "" {
			id = "Certificate"
		}
		req.UserIdentityToken = ua.X509IdentityToken{PolicyID: id, CertificateData: ua.ByteString(u.Ident.Cert)}
		d := signed
		if u.SigData != nil {
			d = u.SigData
		}
		s, err := up.RSASign(u.Ident.Key, d)
		if err != nil {
			return nil, err
		}
		req.UserTokenSignature = ua.SignatureData{Signature: ua.ByteString(s), Algorithm: SigAlg(up)}
	case "raw":
		req.UserIdentityToken = u.RawToken
	}
	return req, nil
}

// Activate activates the session.
func (x *Client) Activate(u User, d time.Duration) error {
	req, err := x.ActivateRequest(u)
	if err != nil {
		return err
	}
	r, err := x.Do(req, d)
	if err != nil {
		return err
	}
	if r.Header().ServiceResult != ua.Good {
		return r.Header().ServiceResult
	}
	as, ok := r.(*ua.ActivateSessionResponse)
	if !ok {
		return fmt.Errorf("activate answered by %T", r)
	}
	x.SNonce = []byte(as.ServerNonce)
	return nil
}

// SigAlg is the signature algorithm URI of a policy.
func SigAlg(p *Policy) string {
	switch {
	case p.PSS:
		return "http://opcfoundation.org/UA/security/rsa-pss-sha2-256"
	case p.SHA1:
		return "http://www.w3.org/2000/09/xmldsig#rsa-sha1"
	}
	return "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256"
}

// EncAlg is the encryption algorithm URI of a policy.
func EncAlg(p *Policy) string {
	switch p.OAEP {
	case 1:
		return "http://www.w3.org/2001/04/xmlenc#rsa-oaep"
	case 2:
		return "http://opcfoundation.org/UA/security/rsa-oaep-sha2-256"
	}
	return "http://www.w3.org/2001/04/xmlenc#rsa-1_5"
}

func certKey(der []byte) (*rsa.PublicKey, error) {
	c, err := parseCert(der)
	if err != nil {
		return nil, err
	}
	return c, nil
}
