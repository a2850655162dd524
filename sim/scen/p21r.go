package scen

import "github.com/awcullen/opcua/ua"

// fuzzResponses are all the responses a server may send.
var fuzzResponses = []func() ua.ServiceResponse{
	func() ua.ServiceResponse { return new(ua.ActivateSessionResponse) },
	func() ua.ServiceResponse { return new(ua.AddNodesResponse) },
	func() ua.ServiceResponse { return new(ua.AddReferencesResponse) },
	func() ua.ServiceResponse { return new(ua.BrowseNextResponse) },
	func() ua.ServiceResponse { return new(ua.BrowseResponse) },
	func() ua.ServiceResponse { return new(ua.CallResponse) },
	func() ua.ServiceResponse { return new(ua.CancelResponse) },
	func() ua.ServiceResponse { return new(ua.CloseSecureChannelResponse) },
	func() ua.ServiceResponse { return new(ua.CloseSessionResponse) },
	func() ua.ServiceResponse { return new(ua.CreateMonitoredItemsResponse) },
	func() ua.ServiceResponse { return new(ua.CreateSessionResponse) },
	func() ua.ServiceResponse { return new(ua.CreateSubscriptionResponse) },
	func() ua.ServiceResponse { return new(ua.DeleteMonitoredItemsResponse) },
	func() ua.ServiceResponse { return new(ua.DeleteNodesResponse) },
	func() ua.ServiceResponse { return new(ua.DeleteReferencesResponse) },
	func() ua.ServiceResponse { return new(ua.DeleteSubscriptionsResponse) },
	func() ua.ServiceResponse { return new(ua.FindServersOnNetworkResponse) },
	func() ua.ServiceResponse { return new(ua.FindServersResponse) },
	func() ua.ServiceResponse { return new(ua.GetEndpointsResponse) },
	func() ua.ServiceResponse { return new(ua.HistoryReadResponse) },
	func() ua.ServiceResponse { return new(ua.HistoryUpdateResponse) },
	func() ua.ServiceResponse { return new(ua.ModifyMonitoredItemsResponse) },
	func() ua.ServiceResponse { return new(ua.ModifySubscriptionResponse) },
	func() ua.ServiceResponse { return new(ua.OpenSecureChannelResponse) },
	func() ua.ServiceResponse { return new(ua.PublishResponse) },
	func() ua.ServiceResponse { return new(ua.QueryFirstResponse) },
	func() ua.ServiceResponse { return new(ua.QueryNextResponse) },
	func() ua.ServiceResponse { return new(ua.ReadResponse) },
	func() ua.ServiceResponse { return new(ua.RegisterNodesResponse) },
	func() ua.ServiceResponse { return new(ua.RegisterServer2Response) },
	func() ua.ServiceResponse { return new(ua.RegisterServerResponse) },
	func() ua.ServiceResponse { return new(ua.RepublishResponse) },
	func() ua.ServiceResponse { return new(ua.ServiceFault) },
	func() ua.ServiceResponse { return new(ua.SetMonitoringModeResponse) },
	func() ua.ServiceResponse { return new(ua.SetPublishingModeResponse) },
	func() ua.ServiceResponse { return new(ua.SetTriggeringResponse) },
	func() ua.ServiceResponse { return new(ua.TransferSubscriptionsResponse) },
	func() ua.ServiceResponse { return new(ua.TranslateBrowsePathsToNodeIDsResponse) },
	func() ua.ServiceResponse { return new(ua.UnregisterNodesResponse) },
	func() ua.ServiceResponse { return new(ua.WriteResponse) },
}
