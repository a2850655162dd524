package scen

import (
	"context"
	"fmt"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/ua"
)

// Caller sends one service request and waits for its response.
type Caller interface {
	Do(req ua.ServiceRequest, d time.Duration) (ua.ServiceResponse, error)
	Disconnect()
}

// Real makes the library's client a Caller.
type Real struct{ *client.Client }

// Disconnect drops the connection.
func (r Real) Disconnect() { r.Abort(context.Background()) }

// Do calls the service of the request's type.
func (r Real) Do(req ua.ServiceRequest, d time.Duration) (ua.ServiceResponse, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	var res ua.ServiceResponse
	var err error
	switch q := req.(type) {
	case *ua.ReadRequest:
		res, err = r.Read(ctx, q)
	case *ua.WriteRequest:
		res, err = r.Write(ctx, q)
	case *ua.CallRequest:
		res, err = r.Call(ctx, q)
	case *ua.BrowseRequest:
		res, err = r.Browse(ctx, q)
	case *ua.BrowseNextRequest:
		res, err = r.BrowseNext(ctx, q)
	case *ua.TranslateBrowsePathsToNodeIDsRequest:
		res, err = r.TranslateBrowsePathsToNodeIDs(ctx, q)
	case *ua.RegisterNodesRequest:
		res, err = r.RegisterNodes(ctx, q)
	case *ua.CreateSubscriptionRequest:
		res, err = r.CreateSubscription(ctx, q)
	case *ua.ModifySubscriptionRequest:
		res, err = r.ModifySubscription(ctx, q)
	case *ua.SetPublishingModeRequest:
		res, err = r.SetPublishingMode(ctx, q)
	case *ua.DeleteSubscriptionsRequest:
		res, err = r.DeleteSubscriptions(ctx, q)
	case *ua.CreateMonitoredItemsRequest:
		res, err = r.CreateMonitoredItems(ctx, q)
	case *ua.ModifyMonitoredItemsRequest:
		res, err = r.ModifyMonitoredItems(ctx, q)
	case *ua.SetMonitoringModeRequest:
		res, err = r.SetMonitoringMode(ctx, q)
	case *ua.SetTriggeringRequest:
		res, err = r.SetTriggering(ctx, q)
	case *ua.DeleteMonitoredItemsRequest:
		res, err = r.DeleteMonitoredItems(ctx, q)
	case *ua.PublishRequest:
		res, err = r.Publish(ctx, q)
	case *ua.RepublishRequest:
		res, err = r.Republish(ctx, q)
	case *ua.HistoryReadRequest:
		res, err = r.HistoryRead(ctx, q)
	default:
		return nil, fmt.Errorf("no client method for %T", req)
	}
	if err != nil {
		return nil, err
	}
	return res, nil
}

// Open connects a raw or a library client.
func (s *Srv) Open(real bool, o RawOpts) (Caller, error) {
	if real {
		c, err := s.DialReal(context.Background(), o.Sec, o.User, client.WithTimeoutHint(120000))
		if err != nil {
			return nil, err
		}
		return Real{c}, nil
	}
	c, err := s.Connect(o)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// MustOpen fails the run when a legal connection is refused.
func (s *Srv) MustOpen(real bool, o RawOpts) Caller {
	c, err := s.Open(real, o)
	if err != nil {
		s.w.Fail("connect-refused", "legal client (%s mode %d user %q library=%v) could not connect: %v\n%s", secs[o.Sec].Policy, secs[o.Sec].Mode, o.User, real, err, Stacks())
	}
	return c
}
