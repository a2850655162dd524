package scen

import (
	"context"
	"crypto/rsa"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
	"opcuasim/simnet"
)

// PKI is the directory of the simulated certificates.
var PKI = "/verif/sim/pki/"

const (
	srvURL  = "opc.tcp://simhost:46010"
	srvAddr = "simhost:46010"
	nsURI   = "urn:sim:ns"
)

var idents = map[string]*raw.Ident{}

// loadIdents reads all certificates before the simulation starts.
func loadIdents() {
	for _, n := range []string{"server", "server2", "client1", "client2", "user1", "rogue", "eccert"} {
		ident(n)
	}
}

func ident(name string) *raw.Ident {
	if i := idents[name]; i != nil {
		return i
	}
	c, err := tls.LoadX509KeyPair(PKI+name+".crt", PKI+name+".key")
	if err != nil {
		panic(err)
	}
	k, _ := c.PrivateKey.(*rsa.PrivateKey)
	i := &raw.Ident{Cert: c.Certificate[0], Key: k}
	idents[name] = i
	return i
}

// allPerms gives everybody everything.
const allPermBits = ua.PermissionTypeBrowse | ua.PermissionTypeRead | ua.PermissionTypeWrite | ua.PermissionTypeReadHistory | ua.PermissionTypeReceiveEvents | ua.PermissionTypeCall

var openPerms = []ua.RolePermissionType{
	{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: allPermBits},
	{RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: allPermBits},
}

// SrvOpts configures the simulated server.
type SrvOpts struct {
	NoneOff   bool
	AnonOff   bool
	Workers   int
	DiagOff   bool
	Historian server.HistoryReadWriter
	Extra     []server.Option
	// Strict requires valid certificates (nothing suppressed).
	Strict  bool
	Trusted string
	Ident   string // of the server; its private exponent is short for "server2"
}

// Srv is the server under test with its simulated application.
type Srv struct {
	*server.Server
	w       *World
	NM      *server.NamespaceManager
	Done    chan error
	mu      sync.Mutex
	calls   map[string]int // method invocations by tag
	Auths   []string
	refused map[string]bool
	ident   string
}

// NewServer creates the server. The clock does not advance by real time.
func (w *World) NewServer(o SrvOpts) *Srv {
	log.SetOutput(io.Discard)
	s := &Srv{w: w, Done: make(chan error, 1), calls: map[string]int{}, refused: map[string]bool{}, ident: o.Ident}
	if s.ident == "" {
		s.ident = "server"
	}
	opts := []server.Option{
		server.WithBuildInfo(ua.BuildInfo{ProductURI: "urn:sim", ManufacturerName: "sim", ProductName: "sim", SoftwareVersion: "1"}),
		server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, app string, ep string) error {
			if knownUsers[u.UserName] != "" && knownUsers[u.UserName] == u.Password {
				return nil
			}
			return ua.BadUserAccessDenied
		}),
		server.WithAuthenticateX509IdentityFunc(func(u ua.X509Identity, app string, ep string) error {
			if string(u.Certificate) == string(ident("user1").Cert) {
				return nil
			}
			return ua.BadUserAccessDenied
		}),
		server.WithSecurityPolicyNone(!o.NoneOff),
	}
	if !o.AnonOff {
		opts = append(opts, server.WithAuthenticateAnonymousIdentityFunc(func(ua.AnonymousIdentity, string, string) error { return nil }))
	}
	if o.Strict {
		if o.Trusted != "" {
			opts = append(opts, server.WithTrustedCertificatesPaths(o.Trusted, ""))
		}
	} else {
		opts = append(opts, server.WithInsecureSkipVerify())
	}
	if o.Workers > 0 {
		opts = append(opts, server.WithMaxWorkerThreads(o.Workers))
	}
	if o.DiagOff {
		opts = append(opts, server.WithServerDiagnostics(false))
	}
	if o.Historian != nil {
		opts = append(opts, server.WithHistorian(o.Historian))
	}
	opts = append(opts, o.Extra...)
	srv, err := server.New(ua.ApplicationDescription{
		ApplicationURI: "urn:simhost:simserver", ProductURI: "urn:sim",
		ApplicationName: ua.LocalizedText{Text: "sim", Locale: "en"}, ApplicationType: ua.ApplicationTypeServer,
		DiscoveryURLs: []string{srvURL}}, PKI+s.ident+".crt", PKI+s.ident+".key", srvURL, opts...)
	if err != nil {
		panic("server.New: " + err.Error())
	}
	s.Server = srv
	s.NM = srv.NamespaceManager()
	if i := s.NM.Add(nsURI); i != 2 {
		panic("namespace index")
	}
	s.AddObject("Root", "", 0)
	return s
}

var knownUsers = map[string]string{"root": "secret", "user1": "password", "user2": "password1",
	"Root": "secret2", "user": "password2", "user10": "password3"}

// Serve starts ListenAndServe.
func (s *Srv) Serve() {
	go func() { s.Done <- s.ListenAndServe() }()
	for i := 0; !s.w.Net.Listening("46010") && i < 100000; i++ {
		time.Sleep(time.Millisecond)
	}
}

func nid(s string) ua.NodeID { return ua.NodeIDString{NamespaceIndex: 2, ID: s} }

func (s *Srv) refs(parent string, typ ua.NodeID, def ua.NodeID) []ua.Reference {
	var p ua.NodeID = ua.ObjectIDObjectsFolder
	var rt ua.NodeID = ua.ReferenceTypeIDOrganizes
	if parent != "" {
		p = nid(parent)
		rt = typ
	}
	r := []ua.Reference{{ReferenceTypeID: rt, IsInverse: true, TargetID: ua.NewExpandedNodeID(p)}}
	if def != nil {
		r = append(r, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(def)})
	}
	return r
}

// AddObject adds an object node.
func (s *Srv) AddObject(id, parent string, notifier byte) *server.ObjectNode {
	n := server.NewObjectNode(s.Server, nid(id), ua.NewQualifiedName(2, id), ua.NewLocalizedText(id, "en"), ua.NewLocalizedText("", ""), openPerms,
		s.refs(parent, ua.ReferenceTypeIDHasComponent, ua.ObjectTypeIDBaseObjectType), notifier)
	if err := s.NM.AddNode(n); err != nil {
		panic(err)
	}
	return n
}

// VarOpts of AddVar.
type VarOpts struct {
	Parent    string
	Perms     []ua.RolePermissionType
	Access    byte
	MinSample float64
	Hist      server.HistoryReadWriter
	Dims      []uint32
}

// NewVar creates a variable without adding it.
func (s *Srv) NewVar(id string, v any, dt ua.NodeID, rank int32, o VarOpts) *server.VariableNode {
	if o.Parent == "" {
		o.Parent = "Root"
	}
	if o.Perms == nil {
		o.Perms = openPerms
	}
	if o.Access == 0 {
		o.Access = ua.AccessLevelsCurrentRead | ua.AccessLevelsCurrentWrite
		if o.Hist != nil {
			o.Access |= ua.AccessLevelsHistoryRead
		}
	}
	dims := o.Dims
	if rank == 1 && dims == nil {
		dims = []uint32{0}
	}
	now := time.Now()
	return server.NewVariableNode(s.Server, nid(id), ua.NewQualifiedName(2, id), ua.NewLocalizedText(id, "en"), ua.NewLocalizedText("", ""), o.Perms,
		s.refs(o.Parent, ua.ReferenceTypeIDHasComponent, ua.VariableTypeIDBaseDataVariableType),
		ua.NewDataValue(v, ua.Good, now, 0, now, 0), dt, rank, dims, o.Access, o.MinSample, o.Hist != nil, o.Hist)
}

// AddVar adds a variable.
func (s *Srv) AddVar(id string, v any, dt ua.NodeID, rank int32, o VarOpts) *server.VariableNode {
	n := s.NewVar(id, v, dt, rank, o)
	if err := s.NM.AddNode(n); err != nil {
		panic(err)
	}
	return n
}

// AddMethod adds a method below an object.
func (s *Srv) AddMethod(id, parent string, perms []ua.RolePermissionType, f func(*server.Session, ua.CallMethodRequest) ua.CallMethodResult) *server.MethodNode {
	if perms == nil {
		perms = openPerms
	}
	n := server.NewMethodNode(s.Server, nid(id), ua.NewQualifiedName(2, id), ua.NewLocalizedText(id, "en"), ua.NewLocalizedText("", ""), perms,
		s.refs(parent, ua.ReferenceTypeIDHasComponent, nil), true)
	n.SetCallMethodHandler(f)
	if err := s.NM.AddNode(n); err != nil {
		panic(err)
	}
	return n
}

// AddEcho adds the Echo method: returns its arguments and records the call.
// The second argument, when present, is a handling time in microseconds.
func (s *Srv) AddEcho() {
	s.AddMethod("Echo", "Root", nil, func(_ *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
		if len(r.InputArguments) < 2 {
			return ua.CallMethodResult{StatusCode: ua.BadArgumentsMissing}
		}
		tag := fmt.Sprint(r.InputArguments[0])
		s.mu.Lock()
		s.calls[tag]++
		s.mu.Unlock()
		if d, ok := r.InputArguments[1].(uint32); ok && d > 0 {
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
		return ua.CallMethodResult{OutputArguments: []ua.Variant{r.InputArguments[0]}}
	})
}

// Calls returns how often the Echo method ran with the tag.
func (s *Srv) Calls(tag string) int { s.mu.Lock(); defer s.mu.Unlock(); return s.calls[tag] }

type secMode struct {
	Policy string
	Mode   int
}

// secs are the security settings scenarios choose from.
var secs = []secMode{
	{"None", raw.ModeNone},
	{"Basic256Sha256", raw.ModeEncrypt},
	{"Basic256Sha256", raw.ModeSign},
	{"Aes128Sha256RsaOaep", raw.ModeEncrypt},
	{"Aes256Sha256RsaPss", raw.ModeEncrypt},
	{"Basic128Rsa15", raw.ModeEncrypt},
	{"Basic256", raw.ModeEncrypt},
	{"Aes256Sha256RsaPss", raw.ModeSign},
	{"Aes128Sha256RsaOaep", raw.ModeSign},
	{"Basic128Rsa15", raw.ModeSign},
	{"Basic256", raw.ModeSign},
}

// RawOpts of a raw client.
type RawOpts struct {
	Sec      int // index into secs
	Me       string
	Limits   raw.Limits
	Lifetime uint32
	Timeout  float64 // session timeout ms
	User     string  // "", "anon", "user1", "x509"
	NoSess   bool
	NoAct    bool
	Wait     time.Duration
	// see raw.Opts
	Seq, WrapAt, WrapTo uint32
}

const longWait = 300 * time.Second

// ec returns the encoding context of the server's namespaces.
func (s *Srv) ec() ua.EncodingContext { return raw.NewEC(s.NM.NamespaceUris()...) }

// tokenPolicy finds the user token policy the server offers.
func (s *Srv) tokenPolicy(policy string, mode int, t ua.UserTokenType) (id, pol string, ok bool) {
	uri := raw.Policies[policy].URI
	for _, e := range s.Endpoints() {
		if e.SecurityPolicyURI != uri || int(e.SecurityMode) != mode {
			continue
		}
		for _, tp := range e.UserIdentityTokens {
			if tp.TokenType == t {
				p := tp.SecurityPolicyURI
				if p == "" {
					p = uri
				}
				for n, q := range raw.Policies {
					if q.URI == p {
						return tp.PolicyID, n, true
					}
				}
			}
		}
	}
	return "", "", false
}

// UserOf builds the identity for a client.
func (s *Srv) UserOf(c *raw.Client, name string) raw.User {
	switch name {
	case "", "anon":
		id, _, _ := s.tokenPolicy(c.P.Name, c.Mode, ua.UserTokenTypeAnonymous)
		return raw.User{Kind: "anon", PolicyID: id}
	case "x509":
		id, p, _ := s.tokenPolicy(c.P.Name, c.Mode, ua.UserTokenTypeCertificate)
		return raw.User{Kind: "x509", PolicyID: id, Policy: p, Ident: ident("user1")}
	}
	id, p, _ := s.tokenPolicy(c.P.Name, c.Mode, ua.UserTokenTypeUserName)
	pw := knownUsers[name]
	if i := strings.IndexByte(name, '/'); i >= 0 {
		name, pw = name[:i], name[i+1:]
	}
	return raw.User{Kind: "user", PolicyID: id, Policy: p, Name: name, Password: pw}
}

// Connect makes a raw client with an activated session.
func (s *Srv) Connect(o RawOpts) (*raw.Client, error) {
	if o.Me == "" {
		o.Me = "client1"
	}
	if o.Wait == 0 {
		o.Wait = longWait
	}
	sec := secs[o.Sec]
	c, err := raw.Connect(s.w.Net, raw.Opts{Addr: srvAddr, URL: srvURL, Policy: sec.Policy, Mode: sec.Mode, Me: ident(o.Me),
		ServerCert: ident(s.ident).Cert, Limits: o.Limits, Lifetime: o.Lifetime, EC: s.ec(),
		Seq: o.Seq, WrapAt: o.WrapAt, WrapTo: o.WrapTo})
	if err != nil {
		return nil, err
	}
	if o.NoSess {
		return c, nil
	}
	if err := s.Session(c, o); err != nil {
		return c, err
	}
	return c, nil
}

// Session creates (and activates) a session on a client.
func (s *Srv) Session(c *raw.Client, o RawOpts) error {
	if o.Me == "" {
		o.Me = "client1"
	}
	if o.Wait == 0 {
		o.Wait = longWait
	}
	if _, err := c.CreateSession(raw.SessionOpts{AppURI: "urn:simhost:" + o.Me, Timeout: o.Timeout, Name: "s"}, o.Wait); err != nil {
		return fmt.Errorf("CreateSession: %w", err)
	}
	if o.NoAct {
		return nil
	}
	if err := c.Activate(s.UserOf(c, o.User), o.Wait); err != nil {
		return fmt.Errorf("ActivateSession: %w", err)
	}
	return nil
}

// MustConnect fails the run when a legal connection is refused.
func (s *Srv) MustConnect(o RawOpts) *raw.Client {
	c, err := s.Connect(o)
	if err != nil {
		s.w.Fail("connect-refused", "legal client (%s mode %d user %q) could not connect: %v\n%s", secs[o.Sec].Policy, secs[o.Sec].Mode, o.User, err, Stacks())
	}
	return c
}

// DialReal connects the library's own client.
func (s *Srv) DialReal(ctx context.Context, sec int, user string, extra ...client.Option) (*client.Client, error) {
	o := []client.Option{
		client.WithSecurityPolicyURI(raw.Policies[secs[sec].Policy].URI, ua.MessageSecurityMode(secs[sec].Mode)),
		client.WithInsecureSkipVerify(),
		client.WithClientCertificatePaths(PKI+"client1.crt", PKI+"client1.key"),
	}
	switch user {
	case "", "anon":
	case "x509":
		o = append(o, client.WithX509Identity(ident("user1").Cert, ident("user1").Key))
	default:
		o = append(o, client.WithUserNameIdentity(user, knownUsers[user]))
	}
	return client.Dial(ctx, srvURL, append(o, extra...)...)
}

// Good reports whether a response is good.
func good(r ua.ServiceResponse, err error) bool {
	return err == nil && r.Header().ServiceResult == ua.Good
}

func sr(r ua.ServiceResponse, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%T %v", r, r.Header().ServiceResult)
}

// Alive checks with a fresh client that the server still serves.
func (s *Srv) Alive(class string) {
	c, err := s.Connect(RawOpts{Wait: 60 * time.Second})
	if err != nil {
		s.w.Fail(class, "a new well-behaved client cannot connect any more: %v\n%s", err, Stacks())
	}
	r, err := c.Do(readReq(ua.ReadValueID{NodeID: ua.VariableIDServerServerStatusState, AttributeID: ua.AttributeIDValue}), 60*time.Second)
	if !good(r, err) {
		s.w.Fail(class, "a new well-behaved client is not served any more: %s\n%s", sr(r, err), Stacks())
	}
	c.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}, 60*time.Second)
	c.Disconnect()
}

func readReq(ids ...ua.ReadValueID) *ua.ReadRequest {
	return &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: ids}
}

func readVal(ids ...string) *ua.ReadRequest {
	r := &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth}
	for _, i := range ids {
		r.NodesToRead = append(r.NodesToRead, ua.ReadValueID{NodeID: nid(i), AttributeID: ua.AttributeIDValue})
	}
	return r
}

func writeReq(id string, v any, rng string) *ua.WriteRequest {
	return &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: nid(id), AttributeID: ua.AttributeIDValue, IndexRange: rng, Value: ua.DataValue{Value: v}}}}
}

func callReq(method string, args ...ua.Variant) ua.CallMethodRequest {
	return ua.CallMethodRequest{ObjectID: nid("Root"), MethodID: nid(method), InputArguments: args}
}

var _ = simnet.C2S

// genWall plans jumps of the wall clock, each up to so many microseconds after the one before.
func genWall(g Gen, p *Plan, span int64) {
	if g.Pick(0, 0, 1) == 0 {
		return
	}
	for i, n := 0, int(g.Range(1, 3)); i < n; i++ {
		p.Ops = append(p.Ops, Op{A: 99, D: g.Range(0, span), K: "wall", I: []int64{g.Pick(3600, -3600, 86400*400, -86400*400, 5, -5, 30, -30)}})
	}
}

// WallJumps makes the wall clock jump as planned; nothing that is promised depends on it.
func (w *World) WallJumps() {
	ops := w.OpsOf(99)
	if len(ops) == 0 {
		return
	}
	go func() {
		for _, op := range ops {
			op.Sleep()
			runtime.SimAddWall(op.I[0] * int64(time.Second))
			w.Fault("clock_jump")
		}
	}()
}
