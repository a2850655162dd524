package main

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

var (
	dir = os.Getenv("DEMO_DIR")
	srv *server.Server
	ep  string
	bg  = context.Background()
	ended = make(chan struct{}) // closed when the server has ended
)

func check(err error) {
	if err != nil {
		fmt.Println("DEMO ERROR:", err)
		os.Exit(2)
	}
}

// fail reports that the behaviour is broken.
func fail(f string, a ...any) { fmt.Printf("BROKEN: "+f+"\n", a...); os.Exit(1) }

// limit fails the demonstration if it takes too long.
func limit(d time.Duration, what string) { time.AfterFunc(d, func() { fail("%s", what) }) }

func cert(name string) {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	check(err)
	u, _ := url.Parse("urn:127.0.0.1:" + name)
	t := x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageContentCommitment | x509.KeyUsageKeyEncipherment | x509.KeyUsageDataEncipherment | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true,
		DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, URIs: []*url.URL{u}}
	der, err := x509.CreateCertificate(rand.Reader, &t, &t, &key.PublicKey, key)
	check(err)
	check(os.WriteFile(filepath.Join(dir, name+".crt"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	check(os.WriteFile(filepath.Join(dir, name+".key"), pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key)}), 0o600))
}

// start runs a server on a free port; namespace 2 is for the demonstration.
func start(opts ...server.Option) {
	log.SetOutput(io.Discard)
	cert("server")
	cert("client")
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	ep = fmt.Sprintf("opc.tcp://127.0.0.1:%d", l.Addr().(*net.TCPAddr).Port)
	l.Close()
	opts = append([]server.Option{
		server.WithAuthenticateAnonymousIdentityFunc(func(ua.AnonymousIdentity, string, string) error { return nil }),
		server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, _ string, _ string) error {
			if u.Password == "secret" {
				return nil
			}
			return ua.BadUserAccessDenied
		}),
		server.WithSecurityPolicyNone(true), server.WithInsecureSkipVerify()}, opts...)
	srv, err = server.New(ua.ApplicationDescription{ApplicationURI: "urn:127.0.0.1:server", ProductURI: "urn:demo", ApplicationName: ua.LocalizedText{Text: "demo"},
		ApplicationType: ua.ApplicationTypeServer, DiscoveryURLs: []string{ep}}, filepath.Join(dir, "server.crt"), filepath.Join(dir, "server.key"), ep, opts...)
	check(err)
	for len(srv.NamespaceManager().NamespaceUris()) < 2 {
		srv.NamespaceManager().Add("urn:pad")
	}
	srv.NamespaceManager().Add("urn:demo:ns")
	go func() { srv.ListenAndServe(); close(ended) }()
	for i := 0; i < 200; i++ {
		if c, err := net.Dial("tcp", ep[10:]); err == nil {
			c.Close()
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	check(fmt.Errorf("the server does not listen"))
}

var openRoles = []ua.RolePermissionType{{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: 0x1FFFF}, {RoleID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Permissions: 0x1FFFF}, {RoleID: ua.ObjectIDWellKnownRoleOperator, Permissions: 0x1FFFF}}

func id(s string) ua.NodeID { return ua.NewNodeIDString(2, s) }

func below(parent ua.NodeID) []ua.Reference {
	return []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, IsInverse: true, TargetID: ua.NewExpandedNodeID(parent)}}
}

// addVar adds a variable.
func addVar(name string, v any, dt ua.NodeID, rank int32) *server.VariableNode {
	n := server.NewVariableNode(srv, id(name), ua.NewQualifiedName(2, name), ua.NewLocalizedText(name, ""), ua.NewLocalizedText("", ""), openRoles, below(ua.ObjectIDObjectsFolder),
		ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0), dt, rank, []uint32{}, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite, 0, false, nil)
	check(srv.NamespaceManager().AddNode(n))
	return n
}

// addObject adds an object.
func addObject(name string, parent ua.NodeID, notifier byte) *server.ObjectNode {
	n := server.NewObjectNode(srv, id(name), ua.NewQualifiedName(2, name), ua.NewLocalizedText(name, ""), ua.NewLocalizedText("", ""), openRoles, below(parent), notifier)
	check(srv.NamespaceManager().AddNode(n))
	return n
}

// addMethod adds a method of an object.
func addMethod(name string, parent ua.NodeID, f func(*server.Session, ua.CallMethodRequest) ua.CallMethodResult) {
	n := server.NewMethodNode(srv, id(name), ua.NewQualifiedName(2, name), ua.NewLocalizedText(name, ""), ua.NewLocalizedText("", ""), openRoles, below(parent), true)
	n.SetCallMethodHandler(f)
	check(srv.NamespaceManager().AddNode(n))
}

func set(n *server.VariableNode, v any) {
	n.SetValue(ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0))
}

// dial opens a session without security.
func dial(opts ...client.Option) *client.Client {
	opts = append([]client.Option{client.WithSecurityPolicyURI(ua.SecurityPolicyURINone, ua.MessageSecurityModeNone), client.WithInsecureSkipVerify()}, opts...)
	c, err := client.Dial(bg, ep, opts...)
	check(err)
	return c
}

// dialSecure opens a signed and encrypted session.
func dialSecure(opts ...client.Option) *client.Client {
	opts = append([]client.Option{client.WithClientCertificatePaths(filepath.Join(dir, "client.crt"), filepath.Join(dir, "client.key")),
		client.WithSecurityPolicyURI(ua.SecurityPolicyURIBasic256Sha256, ua.MessageSecurityModeSignAndEncrypt), client.WithInsecureSkipVerify()}, opts...)
	c, err := client.Dial(bg, ep, opts...)
	check(err)
	return c
}

func subscribe(c *client.Client, interval float64, keep, life uint32) uint32 {
	r, err := c.CreateSubscription(bg, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: interval, RequestedMaxKeepAliveCount: keep, RequestedLifetimeCount: life, PublishingEnabled: true})
	check(err)
	return r.SubscriptionID
}

func monitor(c *client.Client, sub uint32, reqs ...ua.MonitoredItemCreateRequest) []uint32 {
	r, err := c.CreateMonitoredItems(bg, &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: reqs})
	check(err)
	var ids []uint32
	for _, x := range r.Results {
		if x.StatusCode != ua.Good {
			check(x.StatusCode)
		}
		ids = append(ids, x.MonitoredItemID)
	}
	return ids
}

func item(name string, handle uint32, sampling float64, queue uint32, filter any) ua.MonitoredItemCreateRequest {
	return ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: id(name), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: handle, SamplingInterval: sampling, QueueSize: queue, DiscardOldest: true, Filter: filter}}
}

// publish sends one Publish request and waits for its answer.
func publish(c *client.Client, acks ...ua.SubscriptionAcknowledgement) *ua.PublishResponse {
	r, err := c.Publish(bg, &ua.PublishRequest{RequestHeader: ua.RequestHeader{TimeoutHint: 60000}, SubscriptionAcknowledgements: acks})
	check(err)
	return r
}

// values lists the data changes of a message.
func values(r *ua.PublishResponse) (l []ua.MonitoredItemNotification) {
	for _, d := range r.NotificationMessage.NotificationData {
		if n, ok := d.(ua.DataChangeNotification); ok {
			l = append(l, n.MonitoredItems...)
		}
	}
	return
}

func now() time.Time { return time.Now() }
