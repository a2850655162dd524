From 9cd1bcc6e98fb57acffc7e176433bc29fcea06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:06 +0000
Subject: [PATCH 01/63] fix: Endpoints deadlocks with a pending writer by
 taking the server's read lock twice

---
 server/server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/server/server.go b/server/server.go
index 1084098..a1c5a0d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -173,8 +173,8 @@ func (srv *Server) EndpointURL() string {
 
 // Endpoints gets the endpoint descriptions.
 func (srv *Server) Endpoints() []ua.EndpointDescription {
-	srv.RLock()
-	defer srv.RUnlock()
+	srv.Lock()
+	defer srv.Unlock()
 	if srv.endpoints == nil {
 		srv.endpoints = srv.buildEndpointDescriptions()
 	}
@@ -958,6 +958,7 @@ func (srv *Server) initializeNamespace() error {
 	return nil
 }
 
+// buildEndpointDescriptions builds the endpoint descriptions. The caller must hold the server's lock.
 func (srv *Server) buildEndpointDescriptions() []ua.EndpointDescription {
 	eds := []ua.EndpointDescription{}
 	if srv.allowSecurityPolicyNone {
@@ -986,7 +987,7 @@ func (srv *Server) buildEndpointDescriptions() []ua.EndpointDescription {
 		eds = append(eds, ua.EndpointDescription{
 			EndpointURL:         srv.endpointURL,
 			Server:              srv.localDescription,
-			ServerCertificate:   ua.ByteString(srv.LocalCertificate()),
+			ServerCertificate:   ua.ByteString(srv.localCertificate),
 			SecurityMode:        ua.MessageSecurityModeNone,
 			SecurityPolicyURI:   ua.SecurityPolicyURINone,
 			TransportProfileURI: ua.TransportProfileURIUaTcpTransport,
@@ -1028,7 +1029,7 @@ func (srv *Server) buildEndpointDescriptions() []ua.EndpointDescription {
 		eds = append(eds, ua.EndpointDescription{
 			EndpointURL:         srv.endpointURL,
 			Server:              srv.localDescription,
-			ServerCertificate:   ua.ByteString(srv.LocalCertificate()),
+			ServerCertificate:   ua.ByteString(srv.localCertificate),
 			SecurityMode:        ua.MessageSecurityModeSign,
 			SecurityPolicyURI:   uri,
 			TransportProfileURI: ua.TransportProfileURIUaTcpTransport,
@@ -1062,7 +1063,7 @@ func (srv *Server) buildEndpointDescriptions() []ua.EndpointDescription {
 		eds = append(eds, ua.EndpointDescription{
 			EndpointURL:         srv.endpointURL,
 			Server:              srv.localDescription,
-			ServerCertificate:   ua.ByteString(srv.LocalCertificate()),
+			ServerCertificate:   ua.ByteString(srv.localCertificate),
 			SecurityMode:        ua.MessageSecurityModeSignAndEncrypt,
 			SecurityPolicyURI:   uri,
 			TransportProfileURI: ua.TransportProfileURIUaTcpTransport,
-- 
2.43.0


From c816369f615a67250433ba6fe2e5d87efa276241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 02/63] fix: a range write of a null or differently typed value
 panics

---
 server/server_service_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a309b18..f277364 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2973,6 +2973,10 @@ func writeRange(source ua.DataValue, value ua.DataValue, indexRange string) (ua.
 	if indexRange == "" {
 		return ua.NewDataValue(value.Value, value.StatusCode, time.Now(), 0, time.Now(), 0), ua.Good
 	}
+	// the elements written must be of the type of the elements replaced
+	if source.Value != nil && reflect.TypeOf(value.Value) != reflect.TypeOf(source.Value) {
+		return ua.NilDataValue, ua.BadTypeMismatch
+	}
 	ranges := strings.Split(indexRange, ",")
 	switch src := source.Value.(type) {
 	case string:
-- 
2.43.0


From 7c095356d1cce100a2a2b287c6aca2a5d016c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:20 +0000
Subject: [PATCH 03/63] fix: concurrent range writes of a variable lose updates

---
 server/server_service_set.go |  8 +++-----
 server/variable_node.go      | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index f277364..ab8c7e2 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -6033,11 +6033,9 @@ func (srv *Server) writeValue(session *Session, writeValue ua.WriteValue) ua.Sta
 				}
 				return status
 			} else {
-				result, status := writeRange(n1.Value(), writeValue.Value, writeValue.IndexRange)
-				if status == ua.Good {
-					n1.SetValue(result)
-				}
-				return status
+				return n1.updateValue(func(value ua.DataValue) (ua.DataValue, ua.StatusCode) {
+					return writeRange(value, writeValue.Value, writeValue.IndexRange)
+				})
 			}
 		default:
 			return ua.BadAttributeIDInvalid
diff --git a/server/variable_node.go b/server/variable_node.go
index 57a526f..c080b32 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -130,6 +130,23 @@ func (n *VariableNode) Value() ua.DataValue {
 func (n *VariableNode) SetValue(value ua.DataValue) {
 	n.Lock()
 	defer n.Unlock()
+	n.setValue(value)
+}
+
+// updateValue sets the value of the Variable to the result of f, given the current value.
+// No other change of the value happens in between.
+func (n *VariableNode) updateValue(f func(ua.DataValue) (ua.DataValue, ua.StatusCode)) ua.StatusCode {
+	n.Lock()
+	defer n.Unlock()
+	value, status := f(n.value)
+	if status == ua.Good {
+		n.setValue(value)
+	}
+	return status
+}
+
+// setValue sets the value of the Variable, with the lock held.
+func (n *VariableNode) setValue(value ua.DataValue) {
 	n.value = value
 	if n.historizing {
 		n.historian.WriteValue(context.Background(), n.nodeId, value)
-- 
2.43.0


From b24f88277d4cff58fb91663e9c44aa1a999d6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 04/63] fix: a response that arrives just before the connection
 closes is lost

---
 client/client_secure_channel.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 4352104..36b2131 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -250,20 +250,26 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		cancel()
 		return nil, err
 	}
+	var res ua.ServiceResponse
 	select {
-	case res := <-operation.ResponseCh():
+	case res = <-operation.ResponseCh():
 		cancel()
-		if sr := res.Header().ServiceResult; sr != ua.Good {
-			return nil, sr
-		}
-		return res, nil
 	case <-ctx.Done():
 		cancel()
 		return nil, ua.BadRequestTimeout
 	case <-ch.closed:
 		cancel()
-		return nil, ua.BadSecureChannelClosed
+		// the response may have arrived just before the channel closed.
+		select {
+		case res = <-operation.ResponseCh():
+		default:
+			return nil, ua.BadSecureChannelClosed
+		}
+	}
+	if sr := res.Header().ServiceResult; sr != ua.Good {
+		return nil, sr
 	}
+	return res, nil
 }
 
 // Open opens the channel.
-- 
2.43.0


From db140151a8e1f40d4d9e6198953e04a398776b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:08 +0000
Subject: [PATCH 05/63] fix: a late keep-alive answers every acknowledgement
 with Good

---
 server/subscription.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/server/subscription.go b/server/subscription.go
index cd290e0..8a46612 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -613,7 +613,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 					avail = append(avail, nm.SequenceNumber)
 				}
 			}
-			results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 			err := ch.Write(
 				&ua.PublishResponse{
 					ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From bdad792dfbdd6ecc9a7d2742c8d99fd89c6fd8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:42 +0000
Subject: [PATCH 06/63] fix: Republish drops the message it resends and walks
 the queue without the lock

---
 server/server_service_set.go | 43 +++++++++++++-----------------------
 server/subscription.go       | 17 ++++++++++++++
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index ab8c7e2..9433498 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5521,35 +5521,22 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 		return nil
 	}
 
-	s.Lock()
-	s.lifetimeCount = 0
-	s.Unlock()
-
-	s.republishRequestCount++
-	s.republishMessageRequestCount++
-	q := s.retransmissionQueue
-	for e := q.Front(); e != nil; e = e.Next() {
-		if nm, ok := e.Value.(ua.NotificationMessage); ok {
-			if req.RetransmitSequenceNumber == nm.SequenceNumber {
-				err := ch.Write(
-					&ua.RepublishResponse{
-						ResponseHeader: ua.ResponseHeader{
-							Timestamp:     time.Now(),
-							RequestHandle: req.RequestHeader.RequestHandle,
-						},
-						NotificationMessage: nm,
-					},
-					requestid,
-				)
-				if err != nil {
-					return err
-				}
-				s.republishMessageCount++
-				q.Remove(e)
-				e.Value = nil
-				return nil
-			}
+	// the message stays in the queue until it is acknowledged.
+	if nm, ok := s.republish(req.RetransmitSequenceNumber); ok {
+		err := ch.Write(
+			&ua.RepublishResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				NotificationMessage: nm,
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
 		}
+		return nil
 	}
 	session.republishErrorCount++
 	session.errorCount++
diff --git a/server/subscription.go b/server/subscription.go
index 8a46612..1c720c9 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -279,6 +279,23 @@ func (s *Subscription) acknowledge(seqNum uint32) bool {
 	return false
 }
 
+// republish returns the message with the given sequence number from the retransmission queue.
+func (s *Subscription) republish(seqNum uint32) (ua.NotificationMessage, bool) {
+	s.Lock()
+	defer s.Unlock()
+	s.lifetimeCount = 0
+	s.republishRequestCount++
+	s.republishMessageRequestCount++
+	q := s.retransmissionQueue
+	for e := q.Front(); e != nil; e = e.Next() {
+		if nm, ok := e.Value.(ua.NotificationMessage); ok && nm.SequenceNumber == seqNum {
+			s.republishMessageCount++
+			return nm, true
+		}
+	}
+	return ua.NotificationMessage{}, false
+}
+
 func (s *Subscription) startPublishing() {
 	// log.Printf("startPublishing %d \n", s.id)
 	s.cancelPublishing = make(chan struct{})
-- 
2.43.0


From 51750d4964d06c42d92f7105bb65c768435aac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 07/63] fix: a sequence number is used twice after a
 notification could not be sent

---
 server/subscription.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index 1c720c9..6f2c483 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -396,6 +396,8 @@ func (s *Subscription) publish(tn time.Time) error {
 				e.Value = nil
 			}
 			q.PushBack(nm)
+			// the number belongs to this message, even if it cannot be sent now.
+			s.nextSequenceNumber++
 			avail := make([]uint32, 0, 4)
 			for e := q.Front(); e != nil; e = e.Next() {
 				if nm, ok := e.Value.(ua.NotificationMessage); ok {
@@ -422,7 +424,6 @@ func (s *Subscription) publish(tn time.Time) error {
 			}
 			s.unacknowledgedMessageCount = uint32(len(avail))
 			s.publishRequestCount++
-			s.nextSequenceNumber++
 			s.keepAliveCount = 0
 			s.lifetimeCount = 0
 			s.isLate = false
@@ -585,6 +586,8 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 			q.Remove(e)
 		}
 		q.PushBack(nm)
+		// the number belongs to this message, even if it cannot be sent now.
+		s.nextSequenceNumber++
 		avail := make([]uint32, 0, 4)
 		for e := q.Front(); e != nil; e = e.Next() {
 			if nm, ok := e.Value.(ua.NotificationMessage); ok {
@@ -612,7 +615,6 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 		s.publishRequestCount++
 		s.latePublishRequestCount++
 		s.unacknowledgedMessageCount = uint32(len(avail))
-		s.nextSequenceNumber++
 		s.keepAliveCount = 0
 		s.lifetimeCount = 0
 		s.moreNotifications = more
-- 
2.43.0


From d73e8536527377871c308d9e73dd6d849c3959af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:49 +0000
Subject: [PATCH 08/63] fix: the overflow bit of a discarded value never
 reaches the client

---
 server/datachange_monitored_item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index db6f5ae..84bf2a1 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -190,6 +190,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 		}
 	} else {
 		for mi.queue.Len() > int(mi.queueSize) {
@@ -200,6 +201,7 @@ func (mi *DataChangeMonitoredItem) setQueueSize(queueSize uint32) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 		}
 	}
 }
@@ -309,6 +311,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Front()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(0, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	} else {
@@ -321,6 +324,7 @@ func (mi *DataChangeMonitoredItem) enqueue(item ua.DataValue) {
 			// set overflow bit of statuscode
 			v := mi.queue.Back()
 			v.StatusCode = ua.StatusCode(uint32(v.StatusCode) | ua.InfoTypeDataValue | ua.Overflow)
+			mi.queue.Set(mi.queue.Len()-1, v)
 			mi.sub.monitoringQueueOverflowCount++
 		}
 	}
-- 
2.43.0


From a41da74f9670548b232dddad00cce5dddfd7c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:07 +0000
Subject: [PATCH 09/63] fix: absolute deadband of arrays and unsigned values
 always reports a change

---
 server/datachange_monitored_item.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 84bf2a1..71a841f 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -462,7 +462,7 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 	switch vc.Kind() {
 	case reflect.Array:
 		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
+			if !equalDeadbandAbsolute(vc.Index(i).Interface(), vp.Index(i).Interface(), deadband) {
 				return false
 			}
 		}
@@ -482,7 +482,7 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 			return bytes.Equal(vc.Bytes(), vp.Bytes())
 		}
 		for i := 0; i < vc.Len(); i++ {
-			if !equalDeadbandAbsolute(vc.Index(i), vp.Index(i), deadband) {
+			if !equalDeadbandAbsolute(vc.Index(i).Interface(), vp.Index(i).Interface(), deadband) {
 				return false
 			}
 		}
@@ -490,7 +490,7 @@ func equalDeadbandAbsolute(current, previous ua.Variant, deadband float64) bool
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return math.Abs(float64(vc.Int()-vp.Int())) <= deadband
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return math.Abs(float64(vc.Uint()-vp.Uint())) <= deadband
+		return math.Abs(float64(vc.Uint())-float64(vp.Uint())) <= deadband
 	case reflect.Float32, reflect.Float64:
 		return math.Abs(vc.Float()-vp.Float()) <= deadband
 	}
-- 
2.43.0


From 5ed48aac188b3fb8210001f436a546fba2deec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 10/63] fix: raising an event deadlocks with a change of an
 event monitored item

The node's lock was held while its listeners were called, and the listeners
take it while holding their own. An item that was modified also missed the
events raised meanwhile, because it was removed and added again.
---
 server/event_monitored_item.go | 17 +++++++++++------
 server/object_node.go          |  7 ++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index bd86136..f610ec0 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -115,13 +115,11 @@ func (mi *EventMonitoredItem) SetTriggered(val bool) {
 func (mi *EventMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.MonitoredItemModifyResult {
 	mi.Lock()
 	defer mi.Unlock()
-	mi.stopMonitoring()
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
 	mi.setQueueSize(req.RequestedParameters.QueueSize)
 	mi.setSamplingInterval(req.RequestedParameters.SamplingInterval)
 	mi.setFilter(req.RequestedParameters.Filter)
-	mi.startMonitoring()
 	return ua.MonitoredItemModifyResult{RevisedSamplingInterval: mi.samplingInterval, RevisedQueueSize: mi.queueSize}
 }
 
@@ -143,15 +141,17 @@ func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	if mi.monitoringMode == mode {
 		return
 	}
-	mi.stopMonitoring()
+	wasDisabled := mi.monitoringMode == ua.MonitoringModeDisabled
 	mi.monitoringMode = mode
-	if mode == ua.MonitoringModeDisabled {
+	switch {
+	case mode == ua.MonitoringModeDisabled:
+		mi.stopMonitoring()
 		mi.queue.Clear()
 		mi.sub.disabledMonitoredItemCount++
-	} else {
+	case wasDisabled:
 		mi.sub.disabledMonitoredItemCount--
+		mi.startMonitoring()
 	}
-	mi.startMonitoring()
 }
 
 func (mi *EventMonitoredItem) setQueueSize(queueSize uint32) {
@@ -212,6 +212,11 @@ func (mi *EventMonitoredItem) enqueue(item []ua.Variant) {
 
 func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 	mi.Lock()
+	// may have been deleted or disabled while the event was on its way.
+	if mi.node == nil || mi.monitoringMode == ua.MonitoringModeDisabled {
+		mi.Unlock()
+		return
+	}
 	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
 		mi.enqueue(mi.selectFields(evt))
 	}
diff --git a/server/object_node.go b/server/object_node.go
index 1c90889..323abd9 100644
--- a/server/object_node.go
+++ b/server/object_node.go
@@ -115,9 +115,14 @@ func (n *ObjectNode) EventNotifier() byte {
 
 // OnEvent raises an event from this node.
 func (n *ObjectNode) OnEvent(evt ua.Event) {
+	// call the listeners without holding the lock, they may be waiting to remove themselves.
 	n.RLock()
-	defer n.RUnlock()
+	subs := make([]EventListener, 0, len(n.subs))
 	for sub := range n.subs {
+		subs = append(subs, sub)
+	}
+	n.RUnlock()
+	for _, sub := range subs {
 		sub.OnEvent(evt)
 	}
 }
-- 
2.43.0


From 56c13d621862f2f0c768d12a6422b8d9297cf4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:32 +0000
Subject: [PATCH 11/63] fix: publish requests time out by the client's clock,
 or at once without a hint

---
 server/session.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/server/session.go b/server/session.go
index 3f63c06..af226c1 100644
--- a/server/session.go
+++ b/server/session.go
@@ -14,6 +14,7 @@ type publishOp struct {
 	requestId uint32
 	req       *ua.PublishRequest
 	results   []ua.StatusCode
+	received  time.Time
 }
 
 type stateChangeOp struct {
@@ -290,9 +291,10 @@ func (s *Session) ClientCertificate() ua.ByteString {
 }
 
 func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) error {
+	received := time.Now()
 	for {
 		select {
-		case s.publishRequests <- &publishOp{ch, requestid, req, results}:
+		case s.publishRequests <- &publishOp{ch, requestid, req, results, received}:
 			return nil
 		default:
 			op := <-s.publishRequests
@@ -321,8 +323,8 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			req := op.req
 			rid := op.requestId
 			results := op.results
-			// check if expired
-			if time.Now().After(req.RequestHeader.Timestamp.Add(time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond)) {
+			// check if expired. The time is counted from the arrival, since the clock of the client may differ, and a hint of 0 means no timeout.
+			if hint := time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond; hint > 0 && time.Since(op.received) > hint {
 				err := ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
-- 
2.43.0


From 39f47266122144667b2c4422764d8fdb08551631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:32 +0000
Subject: [PATCH 12/63] fix: Publish waits for ever in a session without
 subscriptions while other sessions have some

---
 server/server_service_set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 9433498..5a92b03 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5387,7 +5387,8 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	default:
 	}
 
-	if sm.Len() == 0 {
+	subs := sm.GetBySession(session)
+	if len(subs) == 0 {
 		session.publishErrorCount++
 		session.errorCount++
 		err := ch.Write(
@@ -5406,7 +5407,6 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 		return nil
 	}
 
-	subs := sm.GetBySession(session)
 	sort.Slice(subs, func(i, j int) bool {
 		return subs[i].priority > subs[j].priority
 	})
-- 
2.43.0


From f4d2b54b684fec08510d5668741bbc7179a41b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:00 +0000
Subject: [PATCH 13/63] fix: publish requests waiting when the session is
 closed are never answered

---
 server/server_service_set.go | 18 ++++++++++++++++++
 server/session.go            | 10 ++++++++++
 2 files changed, 28 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 5a92b03..4b9b451 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -938,6 +938,24 @@ func (srv *Server) handleCloseSession(ch *serverSecureChannel, requestid uint32,
 		}
 	}
 
+	// answer the publish requests that are still waiting
+	for {
+		op, ok := session.takePublishRequest()
+		if !ok {
+			break
+		}
+		op.ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: op.req.RequestHandle,
+					ServiceResult: ua.BadSessionClosed,
+				},
+			},
+			op.requestId,
+		)
+	}
+
 	// delete session
 	srv.sessionManager.Delete(session)
 
diff --git a/server/session.go b/server/session.go
index af226c1..2782121 100644
--- a/server/session.go
+++ b/server/session.go
@@ -315,6 +315,16 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 	}
 }
 
+// takePublishRequest returns the oldest waiting publish request, if any.
+func (s *Session) takePublishRequest() (*publishOp, bool) {
+	select {
+	case op := <-s.publishRequests:
+		return op, true
+	default:
+		return nil, false
+	}
+}
+
 func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.PublishRequest, []ua.StatusCode, bool, error) {
 	for {
 		select {
-- 
2.43.0


From 43748360077035b4ec4265b8eb19f8edbb6c7e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:44 +0000
Subject: [PATCH 14/63] fix: a publish request left over from a lost channel
 closes the session's new channel

---
 server/server_service_set.go |  6 ++----
 server/session.go            | 12 ++++--------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 4b9b451..c15aa6d 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -5258,7 +5258,8 @@ func (srv *Server) handleDeleteSubscriptions(ch *serverSecureChannel, requestid
 		for ok {
 			session.publishErrorCount++
 			session.errorCount++
-			err := ch.Write(
+			// the request may have come on a channel that is closed by now.
+			ch.Write(
 				&ua.ServiceFault{
 					ResponseHeader: ua.ResponseHeader{
 						Timestamp:     time.Now(),
@@ -5268,9 +5269,6 @@ func (srv *Server) handleDeleteSubscriptions(ch *serverSecureChannel, requestid
 				},
 				requestid,
 			)
-			if err != nil {
-				return err
-			}
 			ch, requestid, req, _, ok, err = session.removePublishRequest()
 			if err != nil {
 				return err
diff --git a/server/session.go b/server/session.go
index 2782121..912b707 100644
--- a/server/session.go
+++ b/server/session.go
@@ -298,7 +298,8 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 			return nil
 		default:
 			op := <-s.publishRequests
-			err := op.ch.Write(
+			// the request may have come on a channel that is closed by now.
+			op.ch.Write(
 				&ua.ServiceFault{
 					ResponseHeader: ua.ResponseHeader{
 						Timestamp:     time.Now(),
@@ -308,9 +309,6 @@ func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, r
 				},
 				op.requestId,
 			)
-			if err != nil {
-				return err
-			}
 		}
 	}
 }
@@ -335,7 +333,8 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 			results := op.results
 			// check if expired. The time is counted from the arrival, since the clock of the client may differ, and a hint of 0 means no timeout.
 			if hint := time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond; hint > 0 && time.Since(op.received) > hint {
-				err := ch.Write(
+				// the request may have come on a channel that is closed by now.
+				ch.Write(
 					&ua.ServiceFault{
 						ResponseHeader: ua.ResponseHeader{
 							Timestamp:     time.Now(),
@@ -345,9 +344,6 @@ func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.Publ
 					},
 					rid,
 				)
-				if err != nil {
-					return nil, 0, nil, nil, false, err
-				}
 				continue
 			}
 			return ch, rid, req, results, true, nil
-- 
2.43.0


From f6373232f4e615713e3c9df3175daca3023627f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:34 +0000
Subject: [PATCH 15/63] fix: reading the server diagnostics summary closes the
 client's channel

---
 server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index a1c5a0d..815cc9b 100644
--- a/server/server.go
+++ b/server/server.go
@@ -742,7 +742,10 @@ func (srv *Server) initializeNamespace() error {
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummary); ok {
 		n.SetReadValueHandler(func(session *Session, req ua.ReadValueID) ua.DataValue {
-			return ua.NewDataValue(srv.serverDiagnosticsSummary, 0, time.Now(), 0, time.Now(), 0)
+			srv.RLock()
+			summary := *srv.serverDiagnosticsSummary
+			srv.RUnlock()
+			return ua.NewDataValue(summary, 0, time.Now(), 0, time.Now(), 0)
 		})
 	}
 	if n, ok := nm.FindVariable(ua.VariableIDServerServerDiagnosticsServerDiagnosticsSummaryCumulatedSessionCount); ok {
-- 
2.43.0


From 5aa395f475e1b6467853e7e67a50e19a74c5360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:28 +0000
Subject: [PATCH 16/63] fix: deleting a subscription while it expires panics or
 deadlocks

A subscription that expires deletes itself while it is locked, as DeleteSubscriptions, CloseSession and
the expiry check do. The second to delete closed a closed channel, ModifySubscription restarted a deleted
subscription, and the manager locked subscriptions while it was locked itself.
---
 server/datachange_monitored_item.go | 13 ++++++++++-
 server/event_monitored_item.go      |  3 +--
 server/server.go                    |  2 +-
 server/server_service_set.go        | 24 ++++++++++++++++----
 server/subscription.go              | 34 ++++++++++++++++++++---------
 server/subscription_manager.go      | 33 ++++++++++++++--------------
 6 files changed, 74 insertions(+), 35 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 71a841f..39df87b 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -129,6 +129,10 @@ func (mi *DataChangeMonitoredItem) Modify(req ua.MonitoredItemModifyRequest) ua.
 	mi.Lock()
 	defer mi.Unlock()
 	mi.stopMonitoring()
+	if mi.node == nil {
+		// deleted meanwhile.
+		return ua.MonitoredItemModifyResult{StatusCode: ua.BadMonitoredItemIDInvalid}
+	}
 	mi.clientHandle = req.RequestedParameters.ClientHandle
 	mi.discardOldest = req.RequestedParameters.DiscardOldest
 	mi.setQueueSize(req.RequestedParameters.QueueSize)
@@ -146,7 +150,6 @@ func (mi *DataChangeMonitoredItem) Delete() {
 	mi.queue.Clear()
 	mi.node = nil
 	mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
-	mi.sub = nil
 	mi.prequeue.Clear()
 	mi.triggeredItems = nil
 }
@@ -159,6 +162,10 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		return
 	}
 	mi.stopMonitoring()
+	if mi.node == nil {
+		// deleted meanwhile.
+		return
+	}
 	mi.monitoringMode = mode
 	if mode == ua.MonitoringModeDisabled {
 		mi.queue.Clear()
@@ -256,6 +263,10 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 	mi.Unlock()
 	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Subscribe(mi)
 	mi.Lock()
+	if mi.node == nil {
+		// deleted meanwhile.
+		mi.stopMonitoring()
+	}
 }
 
 func (mi *DataChangeMonitoredItem) stopMonitoring() {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index f610ec0..6172e62 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -130,7 +130,6 @@ func (mi *EventMonitoredItem) Delete() {
 	mi.stopMonitoring()
 	mi.queue.Clear()
 	mi.node = nil
-	mi.sub = nil
 	mi.triggeredItems = nil
 }
 
@@ -138,7 +137,7 @@ func (mi *EventMonitoredItem) Delete() {
 func (mi *EventMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 	mi.Lock()
 	defer mi.Unlock()
-	if mi.monitoringMode == mode {
+	if mi.monitoringMode == mode || mi.node == nil {
 		return
 	}
 	wasDisabled := mi.monitoringMode == ua.MonitoringModeDisabled
diff --git a/server/server.go b/server/server.go
index 815cc9b..ec700a5 100644
--- a/server/server.go
+++ b/server/server.go
@@ -814,7 +814,7 @@ func (srv *Server) initializeNamespace() error {
 				return ua.NewDataValue(nil, 0, time.Now(), 0, time.Now(), 0)
 			}
 			a := make([]ua.ExtensionObject, 0, 16)
-			for _, s := range srv.SubscriptionManager().subscriptionsByID {
+			for _, s := range srv.SubscriptionManager().all() {
 				s.RLock()
 				e := ua.SubscriptionDiagnosticsDataType{
 					SessionID:                  s.sessionId,
diff --git a/server/server_service_set.go b/server/server_service_set.go
index c15aa6d..4c791c8 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3921,7 +3921,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				}
 			}
 			mi := NewDataChangeMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters, req.TimestampsToReturn, minSupportedSampleRate)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -3950,7 +3954,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				continue
 			}
 			mi := NewEventMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -3968,7 +3976,11 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 				continue
 			}
 			mi := NewDataChangeMonitoredItem(sub, n, item.ItemToMonitor, item.MonitoringMode, item.RequestedParameters, req.TimestampsToReturn, minSupportedSampleRate)
-			sub.AppendItem(mi)
+			if !sub.AppendItem(mi) {
+				mi.Delete()
+				results[i] = ua.MonitoredItemCreateResult{StatusCode: ua.BadSubscriptionIDInvalid}
+				continue
+			}
 			results[i] = ua.MonitoredItemCreateResult{
 				MonitoredItemID:         mi.ID(),
 				RevisedSamplingInterval: mi.SamplingInterval(),
@@ -4892,7 +4904,11 @@ func (srv *Server) handleCreateSubscription(ch *serverSecureChannel, requestid u
 		}
 		return nil
 	}
-	s.startPublishing()
+	s.Lock()
+	if !s.deleted {
+		s.startPublishing()
+	}
+	s.Unlock()
 	// log.Printf("Created subscription '%d'.\n", s.id)
 
 	err := ch.Write(
diff --git a/server/subscription.go b/server/subscription.go
index 6f2c483..bd92d2f 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -36,6 +36,7 @@ type Subscription struct {
 	priority                     byte
 	nextSequenceNumber           uint32
 	cancelPublishing             chan struct{}
+	deleted                      bool
 	items                        map[uint32]MonitoredItem
 	keepAliveCount               uint32
 	lifetimeCount                uint32
@@ -97,21 +98,19 @@ func (s *Subscription) Delete() {
 }
 
 func (s *Subscription) deleteImpl() {
+	if s.deleted {
+		// already deleted.
+		return
+	}
 	s.stopPublishing()
 	for id, item := range s.items {
 		delete(s.items, id)
 		item.Delete()
 	}
 	s.items = nil
-	q := s.retransmissionQueue
-	// log.Printf("Empty retransmissionQueue len: %d\n", q.Len())
-	for e := q.Front(); e != nil; e = e.Next() {
-		q.Remove(e)
-		e.Value = nil
-	}
-	s.retransmissionQueue = nil
+	s.retransmissionQueue.Init()
 	s.session = nil
-	s.manager = nil
+	s.deleted = true
 }
 
 func (s *Subscription) Items() []MonitoredItem {
@@ -135,6 +134,10 @@ func (s *Subscription) AppendItem(item MonitoredItem) bool {
 	s.Lock()
 	defer s.Unlock()
 	ret := false
+	if s.deleted {
+		// deleted.
+		return ret
+	}
 	if _, ok := s.items[item.ID()]; !ok {
 		s.items[item.ID()] = item
 		s.monitoredItemCount++
@@ -172,6 +175,10 @@ func (s *Subscription) SetPublishingMode(publishingEnabled bool) {
 func (s *Subscription) Modify(publishingInterval float64, lifetimeCount uint32, maxKeepAliveCount uint32, maxNotificationsPerPublish uint32, priority byte) {
 	s.Lock()
 	defer s.Unlock()
+	if s.deleted {
+		// deleted.
+		return
+	}
 	s.stopPublishing()
 	s.setPublishingInterval(publishingInterval)
 	s.setMaxKeepAliveCount(maxKeepAliveCount)
@@ -316,13 +323,20 @@ func (s *Subscription) startPublishing() {
 
 func (s *Subscription) stopPublishing() {
 	// log.Printf("stopPublishing %d \n", s.id)
-	close(s.cancelPublishing)
+	if s.cancelPublishing != nil {
+		close(s.cancelPublishing)
+		s.cancelPublishing = nil
+	}
 }
 
 func (s *Subscription) publish(tn time.Time) error {
 	// log.Printf("onPublish id: %d, keepAlive: %d, lifetime: %d\n", s.id, s.keepAliveCount, s.lifetimeCount)
 	s.Lock()
 	defer s.Unlock()
+	if s.deleted {
+		// deleted.
+		return nil
+	}
 	notificationsAvailable := false
 	for _, item := range s.items {
 		if item.notificationsAvailable(tn, false, s.resend) {
@@ -520,7 +534,7 @@ func (s *Subscription) publish(tn time.Time) error {
 func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) (bool, error) {
 	s.Lock()
 	defer s.Unlock()
-	if !s.isLate {
+	if !s.isLate || s.deleted {
 		return false, nil
 	}
 	tn := time.Now()
diff --git a/server/subscription_manager.go b/server/subscription_manager.go
index a1d27fe..a9fbf0a 100644
--- a/server/subscription_manager.go
+++ b/server/subscription_manager.go
@@ -95,33 +95,32 @@ func (m *SubscriptionManager) GetBySession(session *Session) []*Subscription {
 }
 
 func (m *SubscriptionManager) checkForExpiredSubscriptions() {
-	m.Lock()
-	defer m.Unlock()
-	for k, s := range m.subscriptionsByID {
+	for _, s := range m.all() {
 		if s.IsExpired() {
-			delete(m.subscriptionsByID, k)
-			if m.server.serverDiagnostics {
-				// remove diagnostic node
-				nm := m.server.NamespaceManager()
-				if n, ok := nm.FindNode(s.diagnosticsNodeId); ok {
-					nm.DeleteNode(n, true)
-				}
-				m.server.Lock()
-				m.server.serverDiagnosticsSummary.CurrentSubscriptionCount = uint32(len(m.subscriptionsByID))
-				m.server.Unlock()
-			}
-			// log.Printf("Deleted expired subscription '%d'.\n", k)
+			m.Delete(s)
 			s.Delete()
 		}
 	}
 }
 
 func (m *SubscriptionManager) stopPublishingAllSubscriptions() {
+	for _, s := range m.all() {
+		s.Lock()
+		s.stopPublishing()
+		s.Unlock()
+	}
+}
+
+// all returns the subscriptions of the server. A subscription deletes itself from the manager while
+// it is locked, so the subscriptions may not be locked while the manager is.
+func (m *SubscriptionManager) all() []*Subscription {
 	m.RLock()
 	defer m.RUnlock()
-	for _, v := range m.subscriptionsByID {
-		v.stopPublishing()
+	subs := make([]*Subscription, 0, len(m.subscriptionsByID))
+	for _, s := range m.subscriptionsByID {
+		subs = append(subs, s)
 	}
+	return subs
 }
 
 func (m *SubscriptionManager) addDiagnosticsNode(s *Subscription) {
-- 
2.43.0


From 0e78a907c9b35d54f0dd9babe225125e70286b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:07 +0000
Subject: [PATCH 17/63] fix: the 65th expiring subscription of a session blocks
 for ever

The status change is queued for the session while the subscription is locked; nobody empties the queue of
a session that does not publish.
---
 server/subscription.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/subscription.go b/server/subscription.go
index bd92d2f..5fd8949 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -454,7 +454,11 @@ func (s *Subscription) publish(tn time.Time) error {
 				PublishTime:      time.Now(),
 				NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 			}
-			s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+			select {
+			case s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}:
+			default:
+				// the queue is full, the client has not asked for a long time.
+			}
 			s.nextSequenceNumber++
 			s.manager.Delete(s)
 			s.deleteImpl()
@@ -520,7 +524,11 @@ func (s *Subscription) publish(tn time.Time) error {
 					PublishTime:      time.Now(),
 					NotificationData: []ua.ExtensionObject{ua.StatusChangeNotification{Status: ua.BadTimeout}},
 				}
-				s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}
+				select {
+				case s.session.stateChanges <- &stateChangeOp{subscriptionId: s.id, message: nm}:
+				default:
+					// the queue is full, the client has not asked for a long time.
+				}
 				s.nextSequenceNumber++
 				s.manager.Delete(s)
 				s.deleteImpl()
-- 
2.43.0


From 23939d40cbbfd4463654f97061c2319d96546d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:42 +0000
Subject: [PATCH 18/63] fix: decoding a diagnostic info that has any field
 panics

---
 ua/binary_decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 11cde47..6f2f7c0 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -2091,36 +2091,43 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 		return BadDecodingError
 	}
 	if (b & 1) != 0 {
+		result.SymbolicID = new(int32)
 		if err := dec.ReadInt32(result.SymbolicID); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 2) != 0 {
+		result.NamespaceURI = new(int32)
 		if err := dec.ReadInt32(result.NamespaceURI); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 8) != 0 {
+		result.Locale = new(int32)
 		if err := dec.ReadInt32(result.Locale); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 4) != 0 {
+		result.LocalizedText = new(int32)
 		if err := dec.ReadInt32(result.LocalizedText); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 16) != 0 {
+		result.AdditionalInfo = new(string)
 		if err := dec.ReadString(result.AdditionalInfo); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 32) != 0 {
+		result.InnerStatusCode = new(StatusCode)
 		if err := dec.ReadStatusCode(result.InnerStatusCode); err != nil {
 			return BadDecodingError
 		}
 	}
 	if (b & 64) != 0 {
+		result.InnerDiagnosticInfo = new(DiagnosticInfo)
 		if err := dec.ReadDiagnosticInfo(result.InnerDiagnosticInfo); err != nil {
 			return BadDecodingError
 		}
-- 
2.43.0


From bbab62d21d624c5899bb0907cb4031f8cedbd7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:48 +0000
Subject: [PATCH 19/63] fix: lengths and dimensions in a message make the
 decoder allocate any amount of memory or panic

---
 ua/binary_decoder.go | 170 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 141 insertions(+), 29 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 6f2f7c0..2a0824f 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -26,9 +26,12 @@ type BinaryDecoder struct {
 	bs [8]byte
 }
 
+// maxEmptyDimension limits the leading dimensions of a multidimensional array without elements.
+const maxEmptyDimension = 1000
+
 // NewBinaryDecoder returns a new decoder that reads from an io.Reader.
 func NewBinaryDecoder(r io.Reader, ec EncodingContext) *BinaryDecoder {
-	return &BinaryDecoder{r, ec, [8]byte{}}
+	return &BinaryDecoder{r: r, ec: ec}
 }
 
 type decoderFunc func(*BinaryDecoder, unsafe.Pointer) error
@@ -194,7 +197,7 @@ func getSliceDecoder(typ reflect.Type) (decoderFunc, error) {
 	return func(buf *BinaryDecoder, p unsafe.Pointer) error {
 		hdr := (*sliceHeader)(p)
 		var l int32
-		if err := buf.ReadInt32(&l); err != nil {
+		if err := buf.readLength(&l); err != nil {
 			return err
 		}
 		len := int(l)
@@ -440,7 +443,7 @@ func (dec *BinaryDecoder) ReadDouble(value *float64) error {
 // ReadString reads a string.
 func (dec *BinaryDecoder) ReadString(value *string) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -456,6 +459,40 @@ func (dec *BinaryDecoder) ReadString(value *string) error {
 	return nil
 }
 
+// readLength reads the length of a string or an array, which cannot have more elements than there are bytes left.
+func (dec *BinaryDecoder) readLength(n *int32) error {
+	if err := dec.ReadInt32(n); err != nil {
+		return BadDecodingError
+	}
+	left := int64(math.MaxInt32)
+	switch r := dec.r.(type) {
+	case interface{ Len() int }:
+		left = int64(r.Len())
+	case interface{ Len() int64 }:
+		left = r.Len()
+	}
+	if int64(*n) > left {
+		return BadDecodingError
+	}
+	return nil
+}
+
+// validDimensions returns true if the dimensions of a multidimensional array fit the number of its elements.
+func validDimensions(dims []int32, count int) bool {
+	limit := int64(maxEmptyDimension)
+	if limit < int64(count) {
+		limit = int64(count)
+	}
+	product := int64(1)
+	for _, d := range dims {
+		if d < 0 || product > limit {
+			return false
+		}
+		product *= int64(d)
+	}
+	return product == int64(count)
+}
+
 // ReadDateTime reads a time.Time.
 func (dec *BinaryDecoder) ReadDateTime(value *time.Time) error {
 	// ticks are 100 nanosecond intervals since January 1, 1601
@@ -497,7 +534,7 @@ func (dec *BinaryDecoder) ReadGUID(value *uuid.UUID) error {
 // ReadByteString reads a ByteString.
 func (dec *BinaryDecoder) ReadByteString(value *ByteString) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n <= 0 {
@@ -1307,6 +1344,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]bool, dims[0])
 			for i := range res {
@@ -1337,6 +1377,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]int8, dims[0])
 			for i := range res {
@@ -1367,6 +1410,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]byte, dims[0])
 			for i := range res {
@@ -1397,6 +1443,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]int16, dims[0])
 			for i := range res {
@@ -1427,6 +1476,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]uint16, dims[0])
 			for i := range res {
@@ -1457,6 +1509,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]int32, dims[0])
 			for i := range res {
@@ -1487,6 +1542,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]uint32, dims[0])
 			for i := range res {
@@ -1517,6 +1575,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]int64, dims[0])
 			for i := range res {
@@ -1547,6 +1608,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]uint64, dims[0])
 			for i := range res {
@@ -1577,6 +1641,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]float32, dims[0])
 			for i := range res {
@@ -1607,6 +1674,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]float64, dims[0])
 			for i := range res {
@@ -1637,6 +1707,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]string, dims[0])
 			for i := range res {
@@ -1667,6 +1740,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]time.Time, dims[0])
 			for i := range res {
@@ -1697,6 +1773,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]uuid.UUID, dims[0])
 			for i := range res {
@@ -1727,6 +1806,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]ByteString, dims[0])
 			for i := range res {
@@ -1757,6 +1839,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]XMLElement, dims[0])
 			for i := range res {
@@ -1787,6 +1872,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]NodeID, dims[0])
 			for i := range res {
@@ -1817,6 +1905,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]ExpandedNodeID, dims[0])
 			for i := range res {
@@ -1847,6 +1938,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]StatusCode, dims[0])
 			for i := range res {
@@ -1877,6 +1971,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]QualifiedName, dims[0])
 			for i := range res {
@@ -1907,6 +2004,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]LocalizedText, dims[0])
 			for i := range res {
@@ -1937,6 +2037,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]ExtensionObject, dims[0])
 			for i := range res {
@@ -1967,6 +2070,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]DataValue, dims[0])
 			for i := range res {
@@ -1997,6 +2103,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]Variant, dims[0])
 			for i := range res {
@@ -2027,6 +2136,9 @@ func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
 		if err := dec.ReadInt32Array(&dims); err != nil {
 			return BadDecodingError
 		}
+		if !validDimensions(dims, len(vals)) {
+			return BadDecodingError
+		}
 		if len(dims) == 2 {
 			res := make([][]DiagnosticInfo, dims[0])
 			for i := range res {
@@ -2139,7 +2251,7 @@ func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
 // ReadBooleanArray reads a bool array.
 func (dec *BinaryDecoder) ReadBooleanArray(value *[]bool) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2159,7 +2271,7 @@ func (dec *BinaryDecoder) ReadBooleanArray(value *[]bool) error {
 // ReadSByteArray reads a int8 array.
 func (dec *BinaryDecoder) ReadSByteArray(value *[]int8) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2179,7 +2291,7 @@ func (dec *BinaryDecoder) ReadSByteArray(value *[]int8) error {
 // ReadByteArray reads a byte array.
 func (dec *BinaryDecoder) ReadByteArray(value *[]byte) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2197,7 +2309,7 @@ func (dec *BinaryDecoder) ReadByteArray(value *[]byte) error {
 // ReadInt16Array reads a int16 array.
 func (dec *BinaryDecoder) ReadInt16Array(value *[]int16) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2217,7 +2329,7 @@ func (dec *BinaryDecoder) ReadInt16Array(value *[]int16) error {
 // ReadUInt16Array reads a uint16 array.
 func (dec *BinaryDecoder) ReadUInt16Array(value *[]uint16) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2237,7 +2349,7 @@ func (dec *BinaryDecoder) ReadUInt16Array(value *[]uint16) error {
 // ReadInt32Array reads a int32 array.
 func (dec *BinaryDecoder) ReadInt32Array(value *[]int32) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2257,7 +2369,7 @@ func (dec *BinaryDecoder) ReadInt32Array(value *[]int32) error {
 // ReadUInt32Array reads a uint32 array.
 func (dec *BinaryDecoder) ReadUInt32Array(value *[]uint32) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2277,7 +2389,7 @@ func (dec *BinaryDecoder) ReadUInt32Array(value *[]uint32) error {
 // ReadInt64Array reads a int64 array.
 func (dec *BinaryDecoder) ReadInt64Array(value *[]int64) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2297,7 +2409,7 @@ func (dec *BinaryDecoder) ReadInt64Array(value *[]int64) error {
 // ReadUInt64Array reads a uint64 array.
 func (dec *BinaryDecoder) ReadUInt64Array(value *[]uint64) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2317,7 +2429,7 @@ func (dec *BinaryDecoder) ReadUInt64Array(value *[]uint64) error {
 // ReadFloatArray reads a float32 array.
 func (dec *BinaryDecoder) ReadFloatArray(value *[]float32) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2337,7 +2449,7 @@ func (dec *BinaryDecoder) ReadFloatArray(value *[]float32) error {
 // ReadDoubleArray reads a float64 array.
 func (dec *BinaryDecoder) ReadDoubleArray(value *[]float64) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2357,7 +2469,7 @@ func (dec *BinaryDecoder) ReadDoubleArray(value *[]float64) error {
 // ReadStringArray reads a string array.
 func (dec *BinaryDecoder) ReadStringArray(value *[]string) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2377,7 +2489,7 @@ func (dec *BinaryDecoder) ReadStringArray(value *[]string) error {
 // ReadDateTimeArray reads a Time array.
 func (dec *BinaryDecoder) ReadDateTimeArray(value *[]time.Time) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2397,7 +2509,7 @@ func (dec *BinaryDecoder) ReadDateTimeArray(value *[]time.Time) error {
 // ReadGUIDArray reads a UUID array.
 func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2417,7 +2529,7 @@ func (dec *BinaryDecoder) ReadGUIDArray(value *[]uuid.UUID) error {
 // ReadByteStringArray reads a ByteString array.
 func (dec *BinaryDecoder) ReadByteStringArray(value *[]ByteString) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2437,7 +2549,7 @@ func (dec *BinaryDecoder) ReadByteStringArray(value *[]ByteString) error {
 // ReadXMLElementArray reads a XMLElement array.
 func (dec *BinaryDecoder) ReadXMLElementArray(value *[]XMLElement) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2457,7 +2569,7 @@ func (dec *BinaryDecoder) ReadXMLElementArray(value *[]XMLElement) error {
 // ReadNodeIDArray reads a NodeID array.
 func (dec *BinaryDecoder) ReadNodeIDArray(value *[]NodeID) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2477,7 +2589,7 @@ func (dec *BinaryDecoder) ReadNodeIDArray(value *[]NodeID) error {
 // ReadExpandedNodeIDArray reads a ExpandedNodeID array.
 func (dec *BinaryDecoder) ReadExpandedNodeIDArray(value *[]ExpandedNodeID) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2497,7 +2609,7 @@ func (dec *BinaryDecoder) ReadExpandedNodeIDArray(value *[]ExpandedNodeID) error
 // ReadStatusCodeArray reads a StatusCode array.
 func (dec *BinaryDecoder) ReadStatusCodeArray(value *[]StatusCode) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2517,7 +2629,7 @@ func (dec *BinaryDecoder) ReadStatusCodeArray(value *[]StatusCode) error {
 // ReadQualifiedNameArray reads a QualifiedName array.
 func (dec *BinaryDecoder) ReadQualifiedNameArray(value *[]QualifiedName) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2537,7 +2649,7 @@ func (dec *BinaryDecoder) ReadQualifiedNameArray(value *[]QualifiedName) error {
 // ReadLocalizedTextArray reads a LocalizedText array.
 func (dec *BinaryDecoder) ReadLocalizedTextArray(value *[]LocalizedText) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2557,7 +2669,7 @@ func (dec *BinaryDecoder) ReadLocalizedTextArray(value *[]LocalizedText) error {
 // ReadExtensionObjectArray reads a ExtensionObject array.
 func (dec *BinaryDecoder) ReadExtensionObjectArray(value *[]ExtensionObject) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2577,7 +2689,7 @@ func (dec *BinaryDecoder) ReadExtensionObjectArray(value *[]ExtensionObject) err
 // ReadDataValueArray reads a DataValue array.
 func (dec *BinaryDecoder) ReadDataValueArray(value *[]DataValue) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2597,7 +2709,7 @@ func (dec *BinaryDecoder) ReadDataValueArray(value *[]DataValue) error {
 // ReadVariantArray reads a Variant array.
 func (dec *BinaryDecoder) ReadVariantArray(value *[]Variant) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
@@ -2617,7 +2729,7 @@ func (dec *BinaryDecoder) ReadVariantArray(value *[]Variant) error {
 // ReadDiagnosticInfoArray reads a DiagnosticInfo array.
 func (dec *BinaryDecoder) ReadDiagnosticInfoArray(value *[]DiagnosticInfo) error {
 	var n int32
-	if err := dec.ReadInt32(&n); err != nil {
+	if err := dec.readLength(&n); err != nil {
 		return BadDecodingError
 	}
 	if n < 0 {
-- 
2.43.0


From 1258f73b51acb3850f4ae1e8c233325d875f4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:51 +0000
Subject: [PATCH 20/63] fix: a deeply nested variant overflows the stack of the
 decoder

---
 ua/binary_decoder.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/ua/binary_decoder.go b/ua/binary_decoder.go
index 2a0824f..b4410b4 100644
--- a/ua/binary_decoder.go
+++ b/ua/binary_decoder.go
@@ -21,13 +21,18 @@ var (
 
 // BinaryDecoder decodes the UA binary protocol.
 type BinaryDecoder struct {
-	r  io.Reader
-	ec EncodingContext
-	bs [8]byte
+	r     io.Reader
+	ec    EncodingContext
+	bs    [8]byte
+	depth int
 }
 
-// maxEmptyDimension limits the leading dimensions of a multidimensional array without elements.
-const maxEmptyDimension = 1000
+const (
+	// maxDecodingDepth limits the nesting of variants, extension objects and diagnostic infos.
+	maxDecodingDepth = 100
+	// maxEmptyDimension limits the leading dimensions of a multidimensional array without elements.
+	maxEmptyDimension = 1000
+)
 
 // NewBinaryDecoder returns a new decoder that reads from an io.Reader.
 func NewBinaryDecoder(r io.Reader, ec EncodingContext) *BinaryDecoder {
@@ -804,6 +809,11 @@ func (dec *BinaryDecoder) ReadLocalizedText(value *LocalizedText) error {
 
 // ReadExtensionObject reads an Extensionobject.
 func (dec *BinaryDecoder) ReadExtensionObject(value *ExtensionObject) error {
+	if dec.depth >= maxDecodingDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var nodeID NodeID
 	if err := dec.ReadNodeID(&nodeID); err != nil {
 		return BadDecodingError
@@ -901,6 +911,11 @@ func (dec *BinaryDecoder) ReadDataValue(value *DataValue) error {
 
 // ReadVariant reads a Variant.
 func (dec *BinaryDecoder) ReadVariant(value *Variant) error {
+	if dec.depth >= maxDecodingDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
 		return BadDecodingError
@@ -2197,6 +2212,11 @@ func split(level, i, j int, dims []int, vals reflect.Value) reflect.Value {
 
 // ReadDiagnosticInfo reads a DiagnosticInfo.
 func (dec *BinaryDecoder) ReadDiagnosticInfo(value *DiagnosticInfo) error {
+	if dec.depth >= maxDecodingDepth {
+		return BadDecodingError
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
 	result := DiagnosticInfo{}
 	var b byte
 	if err := dec.ReadByte(&b); err != nil {
-- 
2.43.0


From 06bc53ba84ac1a1ac42d282e33b57ba2abbbda7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 21/63] fix: a Hello with tiny buffers crashes the server

---
 server/server_secure_channel.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 43fcd48..acaf5a5 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -31,6 +31,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the smallest send or receive buffer that a client may ask for.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -188,12 +190,12 @@ func (ch *serverSecureChannel) Open() error {
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
 	ch.conn.SetDeadline(ch.tokenExpiration)
-	_, err := ch.read(buf)
+	n, err := ch.read(buf)
 	if err != nil {
 		return ua.BadDecodingError
 	}
 
-	var reader = bytes.NewReader(buf)
+	var reader = bytes.NewReader(buf[:n])
 	var ec = ua.NewEncodingContext()
 	var dec = ua.NewBinaryDecoder(reader, ec)
 
@@ -236,6 +238,11 @@ func (ch *serverSecureChannel) Open() error {
 		return ua.BadDecodingError
 	}
 
+	// the specification requires buffers of at least 8192 bytes
+	if cliReceiveBufferSize < minBufferSize || cliSendBufferSize < minBufferSize {
+		return ua.BadConnectionRejected
+	}
+
 	var writer = ua.NewWriter(buf)
 	var enc = ua.NewBinaryEncoder(writer, ec)
 
-- 
2.43.0


From 4e35204e32876c2341b2736e0df238d76f51fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 22/63] fix: a chunk too short for its headers and signature
 crashes the server

---
 server/server_secure_channel.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index acaf5a5..08464c8 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1159,7 +1159,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			// decrypt
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
 				span := ch.receiveBuffer[plainHeaderSize:count]
-				if len(span)%ch.symDecryptingBlockCipher.BlockSize() != 0 {
+				if ch.symDecryptingBlockCipher == nil || len(span)%ch.symDecryptingBlockCipher.BlockSize() != 0 {
 					return nil, 0, ua.BadDecodingError
 				}
 				symDecryptor := cipher.NewCBCDecrypter(ch.symDecryptingBlockCipher, ch.remoteInitializationVector)
@@ -1170,6 +1170,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.securityPolicy.SymSignatureSize()
+				if ch.symVerifyHMAC == nil || sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				if _, err := ch.symVerifyHMAC.Write(ch.receiveBuffer[:sigStart]); err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1211,6 +1214,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
+			if n < m {
+				return nil, 0, ua.BadDecodingError
+			}
 			if _, err := bodyStream.Write(ch.receiveBuffer[m:n]); err != nil {
 				return nil, 0, err
 			}
@@ -1283,6 +1289,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				cipherTextBlockSize := ch.localPrivateKey.Size()
 				cipherText := make([]byte, cipherTextBlockSize)
 				jj := plainHeaderSize
+				if (int(messageLength)-plainHeaderSize)%cipherTextBlockSize != 0 {
+					return nil, 0, ua.BadDecodingError
+				}
 				for ii := plainHeaderSize; ii < int(messageLength); ii += cipherTextBlockSize {
 					copy(cipherText, ch.receiveBuffer[ii:])
 					// decrypt with local private key.
@@ -1301,6 +1310,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKey.Size()
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, 0, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, ch.receiveBuffer[:sigStart], ch.receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, 0, ua.BadDecodingError
@@ -1338,6 +1350,9 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
+			if n < m {
+				return nil, 0, ua.BadDecodingError
+			}
 			if _, err := bodyStream.Write(ch.receiveBuffer[m:n]); err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From c10263d4c88635b4b4bef2a296d202a804b00193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:25 +0000
Subject: [PATCH 23/63] fix: a client certificate whose key is not RSA, or too
 small or large, crashes the server

---
 server/server_secure_channel.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 08464c8..19c3a7e 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -324,7 +324,7 @@ func (ch *serverSecureChannel) Open() error {
 			return ua.BadSecurityChecksFailed
 		}
 		certs, err := x509.ParseCertificates(ch.remoteCertificate)
-		if err != nil {
+		if err != nil || len(certs) == 0 {
 			return ua.BadSecurityChecksFailed
 		}
 		err = ua.ValidateCertificate(
@@ -345,7 +345,11 @@ func (ch *serverSecureChannel) Open() error {
 			return err
 		}
 		cert := certs[0]
-		ch.remotePublicKey = cert.PublicKey.(*rsa.PublicKey)
+		publicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+		if !ok {
+			return ua.BadSecurityChecksFailed
+		}
+		ch.remotePublicKey = publicKey
 		if len(cert.URIs) > 0 {
 			ch.remoteApplicationURI = cert.URIs[0].String()
 		}
@@ -486,6 +490,9 @@ func (ch *serverSecureChannel) sendOpenSecureChannelResponse(res *ua.OpenSecureC
 				paddingHeaderSize = 1
 			}
 			maxBodySize = (((int(ch.sendBufferSize) - plainHeaderSize) / cipherTextBlockSize) * plainTextBlockSize) - sequenceHeaderSize - paddingHeaderSize - signatureSize
+			if maxBodySize <= 0 {
+				return ua.BadEncodingError
+			}
 			if bodyCount < maxBodySize {
 				bodySize = bodyCount
 				paddingSize = (plainTextBlockSize - ((sequenceHeaderSize + bodySize + paddingHeaderSize + signatureSize) % plainTextBlockSize)) % plainTextBlockSize
@@ -1278,11 +1285,12 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 					return nil, 0, ua.BadSecurityChecksFailed
 				}
 
+				ch.remotePublicKey = nil
 				if crts, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(crts) > 0 {
-					ch.remotePublicKey = crts[0].PublicKey.(*rsa.PublicKey)
+					ch.remotePublicKey, _ = crts[0].PublicKey.(*rsa.PublicKey)
 				}
 
-				if ch.remotePublicKey == nil {
+				if ch.remotePublicKey == nil || ch.remotePublicKey.Size() <= ch.securityPolicy.RSAPaddingSize() {
 					return nil, 0, ua.BadSecurityChecksFailed
 				}
 
-- 
2.43.0


From a456255ab5e0f11204fbfd71d5c0cb5cbe44ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 24/63] fix: a channel opens with a policy and mode the server
 does not offer

---
 server/server_secure_channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 19c3a7e..fdd6b33 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -318,6 +318,11 @@ func (ch *serverSecureChannel) Open() error {
 		}
 	}
 
+	// reject a combination of policy and mode that the server does not offer
+	if ch.localEndpoint.EndpointURL == "" {
+		return ua.BadSecurityModeRejected
+	}
+
 	if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 		rc := ch.remoteCertificate
 		if rc == nil {
-- 
2.43.0


From 65107bb939798f424f6b6cf314a36179036e9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 25/63] fix: an unauthenticated OpenSecureChannel renews a
 secured channel with another policy

---
 server/server_secure_channel.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index fdd6b33..9d81d09 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1240,12 +1240,25 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				return nil, 0, ua.BadDecodingError
 			}
 			// asymmetric header
-			if err := decoder.ReadString(&ch.securityPolicyURI); err != nil {
+			var securityPolicyURI string
+			if err := decoder.ReadString(&securityPolicyURI); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
-			if err := decoder.ReadByteArray(&ch.remoteCertificate); err != nil {
+			var remoteCertificate []byte
+			if err := decoder.ReadByteArray(&remoteCertificate); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			// a renewal keeps the policy and the certificate of the channel
+			if ch.pendingTokenID != 0 {
+				if channelID != ch.channelID {
+					return nil, 0, ua.BadTCPSecureChannelUnknown
+				}
+				if securityPolicyURI != ch.securityPolicyURI || !bytes.Equal(remoteCertificate, ch.remoteCertificate) {
+					return nil, 0, ua.BadSecurityChecksFailed
+				}
+			}
+			ch.securityPolicyURI = securityPolicyURI
+			ch.remoteCertificate = remoteCertificate
 			if err := decoder.ReadByteArray(&ch.remoteCertificateThumbprint); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
@@ -1502,7 +1515,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 }
 
 func (ch *serverSecureChannel) handleOpenSecureChannel(requestid uint32, req *ua.OpenSecureChannelRequest) error {
-	if req.RequestType != ua.SecurityTokenRequestTypeRenew {
+	if req.RequestType != ua.SecurityTokenRequestTypeRenew || req.SecurityMode != ch.securityMode {
 		return ua.BadSecurityChecksFailed
 	}
 
-- 
2.43.0


From 5c9883dc1ed0c54ffbc7bcbd2889b1a5e13e87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:45 +0000
Subject: [PATCH 26/63] fix: a browse continuation point of the wrong length
 crashes the server

---
 server/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/session.go b/server/session.go
index 912b707..d78cf1b 100644
--- a/server/session.go
+++ b/server/session.go
@@ -367,7 +367,7 @@ func (s *Session) addBrowseContinuationPoint(data []ua.ReferenceDescription, max
 }
 
 func (s *Session) removeBrowseContinuationPoint(cp []byte) ([]ua.ReferenceDescription, int, bool) {
-	if cp == nil {
+	if len(cp) != 4 {
 		return nil, 0, false
 	}
 	s.Lock()
-- 
2.43.0


From 107fc80f7dee774c9595274214e55e963889e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 27/63] fix: an event filter's operands crash, loop or stall
 the server

---
 server/event_monitored_item.go | 35 ++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index 6172e62..b0d0464 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -3,6 +3,7 @@
 package server
 
 import (
+	"reflect"
 	"sync/atomic"
 	"time"
 
@@ -216,7 +217,7 @@ func (mi *EventMonitoredItem) OnEvent(evt ua.Event) {
 		mi.Unlock()
 		return
 	}
-	if res, ok := mi.whereClause(evt, 0).(bool); ok && res {
+	if res, ok := mi.whereClause(evt).(bool); ok && res {
 		mi.enqueue(mi.selectFields(evt))
 	}
 	mi.Unlock()
@@ -226,14 +227,27 @@ var (
 	attributeOperandEventType = ua.SimpleAttributeOperand{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("EventType"), AttributeID: ua.AttributeIDValue}
 )
 
-func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
-	if idx >= len(mi.eventFilter.WhereClause.Elements) {
+// whereClause evaluates the filter. An element refers to later elements only, so evaluating from the last one visits each once.
+func (mi *EventMonitoredItem) whereClause(evt ua.Event) any {
+	elements := mi.eventFilter.WhereClause.Elements
+	if len(elements) == 0 {
 		return true
 	}
+	results := make([]any, len(elements))
+	for idx := len(elements) - 1; idx >= 0; idx-- {
+		results[idx] = mi.evaluate(evt, idx, results)
+	}
+	return results[0]
+}
+
+func (mi *EventMonitoredItem) evaluate(evt ua.Event, idx int, results []any) any {
 	element := mi.eventFilter.WhereClause.Elements[idx]
 	switch element.FilterOperator {
 
 	case ua.FilterOperatorEquals:
+		if len(element.FilterOperands) < 2 {
+			return false
+		}
 		var a, b ua.Variant
 		switch c := element.FilterOperands[0].(type) {
 		case ua.LiteralOperand:
@@ -241,7 +255,10 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		case ua.SimpleAttributeOperand:
 			a = evt.GetAttribute(c)
 		case ua.ElementOperand:
-			a = mi.whereClause(evt, int(c.Index))
+			if c.Index <= uint32(idx) || c.Index >= uint32(len(results)) {
+				return false
+			}
+			a = results[c.Index]
 		default:
 			return false
 		}
@@ -251,13 +268,19 @@ func (mi *EventMonitoredItem) whereClause(evt ua.Event, idx int) any {
 		case ua.SimpleAttributeOperand:
 			b = evt.GetAttribute(c)
 		case ua.ElementOperand:
-			b = mi.whereClause(evt, int(c.Index))
+			if c.Index <= uint32(idx) || c.Index >= uint32(len(results)) {
+				return false
+			}
+			b = results[c.Index]
 		default:
 			return false
 		}
-		return a == b
+		return reflect.DeepEqual(a, b)
 
 	case ua.FilterOperatorOfType:
+		if len(element.FilterOperands) < 1 {
+			return false
+		}
 		if a, ok := element.FilterOperands[0].(ua.LiteralOperand); ok {
 			if b, ok := a.Value.(ua.NodeID); ok {
 				if c, ok := evt.GetAttribute(attributeOperandEventType).(ua.NodeID); ok {
-- 
2.43.0


From c3dadeb27262d0bf6c1aee3b57d1e43ed68ca663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:43 +0000
Subject: [PATCH 28/63] fix: an authenticator's error that is no status code
 refuses the activation instead of ending the server

---
 server/server_service_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 4c791c8..1a74501 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -822,12 +822,16 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		srv.serverDiagnosticsSummary.RejectedSessionCount++
 		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		code, ok := err.(ua.StatusCode)
+		if !ok {
+			code = ua.BadIdentityTokenRejected
+		}
 		err = ch.Write(
 			&ua.ServiceFault{
 				ResponseHeader: ua.ResponseHeader{
 					Timestamp:     time.Now(),
 					RequestHandle: req.RequestHandle,
-					ServiceResult: err.(ua.StatusCode),
+					ServiceResult: code,
 				},
 			},
 			requestid,
-- 
2.43.0


From dad16d1031a6ec93322da4fa6b27a286ab53deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:43 +0000
Subject: [PATCH 29/63] fix: decrypt passwords by the size of the server's key,
 whatever the leading bytes of its private exponent

---
 server/server_service_set.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 1a74501..16afbcc 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -586,7 +586,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -646,7 +646,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
@@ -706,7 +706,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			plainBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf := buffer.NewPartitionAt(ch.bufferPool)
 			cipherBuf.Write(cipherBytes)
-			cipherText := make([]byte, int32(len(srv.localPrivateKey.D.Bytes())))
+			cipherText := make([]byte, srv.localPrivateKey.Size())
 			for cipherBuf.Len() > 0 {
 				cipherBuf.Read(cipherText)
 				// decrypt with local private key.
-- 
2.43.0


From 1ff460f77855f3264d66caec598324e7e6e5bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:44 +0000
Subject: [PATCH 30/63] fix: refuse an encrypted password that does not carry
 the session's nonce

---
 server/server_service_set.go | 69 ++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 16afbcc..75ab8ab 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -618,8 +618,31 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			// the secret must have been made for this session.
+			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+				srv.serverDiagnosticsSummary.RejectedSessionCount++
+				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+				srv.serverDiagnosticsSummary.RejectedRequestsCount++
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		case ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
@@ -678,8 +701,31 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			// the secret must have been made for this session.
+			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+				srv.serverDiagnosticsSummary.RejectedSessionCount++
+				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+				srv.serverDiagnosticsSummary.RejectedRequestsCount++
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		case ua.SecurityPolicyURIAes256Sha256RsaPss:
@@ -742,8 +788,31 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			}
 			passwordBytes := make([]byte, plainLength-32)
 			plainBuf.Read(passwordBytes)
+			nonceBytes := make([]byte, 32)
+			plainBuf.Read(nonceBytes)
 			cipherBuf.Reset()
 			plainBuf.Reset()
+			// the secret must have been made for this session.
+			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+				srv.serverDiagnosticsSummary.RejectedSessionCount++
+				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+				srv.serverDiagnosticsSummary.RejectedRequestsCount++
+				err := ch.Write(
+					&ua.ServiceFault{
+						ResponseHeader: ua.ResponseHeader{
+							Timestamp:     time.Now(),
+							RequestHandle: req.RequestHandle,
+							ServiceResult: ua.BadIdentityTokenRejected,
+						},
+					},
+					requestid,
+				)
+				if err != nil {
+					return err
+				}
+				return nil
+			}
 			userIdentity = ua.UserNameIdentity{UserName: userIdentityToken.UserName, Password: string(passwordBytes)}
 
 		default:
-- 
2.43.0


From 6fdc6e931ccfd49b01ae2500828b67dd4accb072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:45 +0000
Subject: [PATCH 31/63] fix: a session is activated only by the application
 that created it

---
 server/server_service_set.go | 24 +++++++++++++++++++++++-
 server/session.go            |  1 +
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 75ab8ab..5790612 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -228,7 +228,7 @@ func (srv *Server) handleCreateSession(ch *serverSecureChannel, requestid uint32
 		req.ClientDescription,
 		req.ServerURI,
 		req.EndpointURL,
-		req.ClientCertificate,
+		ua.ByteString(ch.RemoteCertificate()),
 		req.MaxResponseMessageSize,
 	)
 	err := srv.SessionManager().Add(session)
@@ -309,6 +309,28 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		return nil
 	}
 
+	// only the application that created the session may activate it.
+	if session.ClientCertificate() != ua.ByteString(ch.RemoteCertificate()) {
+		srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+		srv.serverDiagnosticsSummary.RejectedSessionCount++
+		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err := ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadSecurityChecksFailed,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	// verify the client's signature.
 	var err error
 	switch ch.SecurityPolicyURI() {
diff --git a/server/session.go b/server/session.go
index d78cf1b..e7e88ff 100644
--- a/server/session.go
+++ b/server/session.go
@@ -126,6 +126,7 @@ func NewSession(server *Server, sessionId ua.NodeID, sessionName string, authent
 		sessionNonce:                 sessionNonce,
 		securityMode:                 ua.MessageSecurityModeNone,
 		securityPolicyURI:            ua.SecurityPolicyURINone,
+		clientCertificate:            clientCertificate,
 		lastAccess:                   time.Now(),
 		publishRequests:              make(chan *publishOp, 64),
 		stateChanges:                 make(chan *stateChangeOp, 64),
-- 
2.43.0


From 07163140fcdf78a985822ebe86a89ac64d2c265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:46 +0000
Subject: [PATCH 32/63] fix: two activations of a session at once no longer mix
 their users and channels

---
 server/server_service_set.go | 50 ++++++++++++++++++++++++------------
 server/session.go            | 20 +++++++++++++++
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 5790612..a4252eb 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -331,27 +331,30 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		return nil
 	}
 
+	// everything is proved over the nonce of this moment.
+	nonce := session.SessionNonce()
+
 	// verify the client's signature.
 	var err error
 	switch ch.SecurityPolicyURI() {
 	case ua.SecurityPolicyURIBasic128Rsa15, ua.SecurityPolicyURIBasic256:
 		hash := crypto.SHA1.New()
 		hash.Write(srv.LocalCertificate())
-		hash.Write([]byte(session.SessionNonce()))
+		hash.Write([]byte(nonce))
 		hashed := hash.Sum(nil)
 		err = rsa.VerifyPKCS1v15(ch.RemotePublicKey(), crypto.SHA1, hashed, []byte(req.ClientSignature.Signature))
 
 	case ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
 		hash := crypto.SHA256.New()
 		hash.Write(srv.LocalCertificate())
-		hash.Write([]byte(session.SessionNonce()))
+		hash.Write([]byte(nonce))
 		hashed := hash.Sum(nil)
 		err = rsa.VerifyPKCS1v15(ch.RemotePublicKey(), crypto.SHA256, hashed, []byte(req.ClientSignature.Signature))
 
 	case ua.SecurityPolicyURIAes256Sha256RsaPss:
 		hash := crypto.SHA256.New()
 		hash.Write(srv.LocalCertificate())
-		hash.Write([]byte(session.SessionNonce()))
+		hash.Write([]byte(nonce))
 		hashed := hash.Sum(nil)
 		err = rsa.VerifyPSS(ch.RemotePublicKey(), crypto.SHA256, hashed, []byte(req.ClientSignature.Signature), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
 	}
@@ -489,21 +492,21 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		case ua.SecurityPolicyURIBasic128Rsa15, ua.SecurityPolicyURIBasic256:
 			hash := crypto.SHA1.New()
 			hash.Write(srv.LocalCertificate())
-			hash.Write([]byte(session.SessionNonce()))
+			hash.Write([]byte(nonce))
 			hashed := hash.Sum(nil)
 			err = rsa.VerifyPKCS1v15(userKey, crypto.SHA1, hashed, []byte(req.UserTokenSignature.Signature))
 
 		case ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
 			hash := crypto.SHA256.New()
 			hash.Write(srv.LocalCertificate())
-			hash.Write([]byte(session.SessionNonce()))
+			hash.Write([]byte(nonce))
 			hashed := hash.Sum(nil)
 			err = rsa.VerifyPKCS1v15(userKey, crypto.SHA256, hashed, []byte(req.UserTokenSignature.Signature))
 
 		case ua.SecurityPolicyURIAes256Sha256RsaPss:
 			hash := crypto.SHA256.New()
 			hash.Write(srv.LocalCertificate())
-			hash.Write([]byte(session.SessionNonce()))
+			hash.Write([]byte(nonce))
 			hashed := hash.Sum(nil)
 			err = rsa.VerifyPSS(userKey, crypto.SHA256, hashed, []byte(req.UserTokenSignature.Signature), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
 		}
@@ -645,7 +648,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			cipherBuf.Reset()
 			plainBuf.Reset()
 			// the secret must have been made for this session.
-			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+			if ua.ByteString(nonceBytes) != nonce {
 				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
 				srv.serverDiagnosticsSummary.RejectedSessionCount++
 				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
@@ -728,7 +731,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			cipherBuf.Reset()
 			plainBuf.Reset()
 			// the secret must have been made for this session.
-			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+			if ua.ByteString(nonceBytes) != nonce {
 				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
 				srv.serverDiagnosticsSummary.RejectedSessionCount++
 				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
@@ -815,7 +818,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 			cipherBuf.Reset()
 			plainBuf.Reset()
 			// the secret must have been made for this session.
-			if ua.ByteString(nonceBytes) != session.SessionNonce() {
+			if ua.ByteString(nonceBytes) != nonce {
 				srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
 				srv.serverDiagnosticsSummary.RejectedSessionCount++
 				srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
@@ -933,12 +936,27 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 		return nil
 	}
 
-	session.SetUserIdentity(userIdentity)
-	session.SetSessionNonce(ua.ByteString(getNextNonce(nonceLength)))
-	session.SetSecureChannelId(ch.ChannelID())
-	session.SetSecurityMode(ch.securityMode)
-	session.SetSecurityPolicyURI(ch.securityPolicyURI)
-	session.localeIds = req.LocaleIDs
+	nextNonce := ua.ByteString(getNextNonce(nonceLength))
+	if !session.activate(nonce, nextNonce, userIdentity, ch.ChannelID(), ch.securityMode, ch.securityPolicyURI, req.LocaleIDs) {
+		srv.serverDiagnosticsSummary.SecurityRejectedSessionCount++
+		srv.serverDiagnosticsSummary.RejectedSessionCount++
+		srv.serverDiagnosticsSummary.SecurityRejectedRequestsCount++
+		srv.serverDiagnosticsSummary.RejectedRequestsCount++
+		err = ch.Write(
+			&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHandle,
+					ServiceResult: ua.BadNonceInvalid,
+				},
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
 
 	err = ch.Write(
 		&ua.ActivateSessionResponse{
@@ -946,7 +964,7 @@ func (srv *Server) handleActivateSession(ch *serverSecureChannel, requestid uint
 				Timestamp:     time.Now(),
 				RequestHandle: req.RequestHeader.RequestHandle,
 			},
-			ServerNonce:     session.SessionNonce(),
+			ServerNonce:     nextNonce,
 			Results:         nil,
 			DiagnosticInfos: nil,
 		},
diff --git a/server/session.go b/server/session.go
index e7e88ff..f7e2913 100644
--- a/server/session.go
+++ b/server/session.go
@@ -206,6 +206,10 @@ func (s *Session) UserIdentity() any {
 func (s *Session) SetUserIdentity(value any) {
 	s.Lock()
 	defer s.Unlock()
+	s.setUserIdentity(value)
+}
+
+func (s *Session) setUserIdentity(value any) {
 	s.userIdentity = value
 	// update diagnostics
 	switch ui := s.userIdentity.(type) {
@@ -225,6 +229,22 @@ func (s *Session) SetUserIdentity(value any) {
 	s.clientUserIdHistory = append(s.clientUserIdHistory, s.clientUserIdOfSession)
 }
 
+// activate stores what an ActivateSession proved over a nonce of the session, unless the nonce was used meanwhile.
+func (s *Session) activate(proved, next ua.ByteString, userIdentity any, channelId uint32, mode ua.MessageSecurityMode, policyURI string, localeIds []string) bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.sessionNonce != proved {
+		return false
+	}
+	s.setUserIdentity(userIdentity)
+	s.sessionNonce = next
+	s.channelId = channelId
+	s.securityMode = mode
+	s.securityPolicyURI = policyURI
+	s.localeIds = localeIds
+	return true
+}
+
 func (s *Session) SessionNonce() ua.ByteString {
 	s.RLock()
 	defer s.RUnlock()
-- 
2.43.0


From 01a7daaccbcb5d377b76bebbcecccd5214c8692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:14 +0000
Subject: [PATCH 33/63] fix: only the session a subscription belongs to may use
 it (monitored items, triggering, acknowledgement, Republish)

---
 server/server_service_set.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a4252eb..19afa73 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -3895,7 +3895,7 @@ func (srv *Server) handleCreateMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.createMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4421,7 +4421,7 @@ func (srv *Server) handleSetMonitoringMode(ch *serverSecureChannel, requestid ui
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setMonitoringModeErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4586,7 +4586,7 @@ func (srv *Server) handleSetTriggering(ch *serverSecureChannel, requestid uint32
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.setTriggeringErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -4769,7 +4769,7 @@ func (srv *Server) handleDeleteMonitoredItems(ch *serverSecureChannel, requestid
 
 	// get subscription
 	sub, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || sub.sessionId != session.sessionId {
 		session.deleteMonitoredItemsErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
@@ -5484,7 +5484,7 @@ func (srv *Server) handlePublish(ch *serverSecureChannel, requestid uint32, req
 	// process sub ack's
 	results := make([]ua.StatusCode, len(req.SubscriptionAcknowledgements))
 	for i, sa := range req.SubscriptionAcknowledgements {
-		if sub, ok := sm.Get(sa.SubscriptionID); ok {
+		if sub, ok := sm.Get(sa.SubscriptionID); ok && sub.sessionId == session.sessionId {
 			if sub.acknowledge(sa.SequenceNumber) {
 				results[i] = ua.Good
 			} else {
@@ -5646,7 +5646,7 @@ func (srv *Server) handleRepublish(ch *serverSecureChannel, requestid uint32, re
 	}
 
 	s, ok := srv.SubscriptionManager().Get(req.SubscriptionID)
-	if !ok {
+	if !ok || s.sessionId != session.sessionId {
 		session.republishErrorCount++
 		session.errorCount++
 		srv.serverDiagnosticsSummary.RejectedRequestsCount++
-- 
2.43.0


From d9168eca4a64aa4cbc06ac1755f7ce0acbd9a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 34/63] fix: a mapping rule for other applications or endpoints
 no longer hides the rules after it

---
 server/roles_provider.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/roles_provider.go b/server/roles_provider.go
index d85a039..5147abd 100644
--- a/server/roles_provider.go
+++ b/server/roles_provider.go
@@ -151,7 +151,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next rule
+			continue // with next rule
 		}
 		ok = rule.EndpointsExclude // true means the following endpoints should be excluded
 		for _, ep := range rule.Endpoints {
@@ -161,7 +161,7 @@ func (p *RulesBasedRolesProvider) GetRoles(userIdentity any, applicationURI stri
 			}
 		}
 		if !ok {
-			break // continue with next role
+			continue // with next rule
 		}
 		for _, identity := range rule.Identities {
 
-- 
2.43.0


From c5b3057bf11ecf929f9b44f24cf1c3dafcd2ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:59 +0000
Subject: [PATCH 35/63] fix: TranslateBrowsePathsToNodeIds does not reveal
 nodes the user may not browse

---
 server/server_service_set.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 19afa73..dbadee4 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1801,7 +1801,7 @@ func (srv *Server) handleTranslateBrowsePathsToNodeIds(ch *serverSecureChannel,
 					return
 				}
 			}
-			targets, err1 := srv.follow(d.StartingNode, d.RelativePath.Elements)
+			targets, err1 := srv.follow(session, d.StartingNode, d.RelativePath.Elements)
 			if err1 == ua.BadNodeIDUnknown {
 				results[i] = ua.BrowsePathResult{StatusCode: ua.BadNodeIDUnknown, Targets: []ua.BrowsePathTarget{}}
 				wg.Done()
@@ -2109,11 +2109,11 @@ func (srv *Server) handleUnregisterNodes(ch *serverSecureChannel, requestid uint
 	return nil
 }
 
-func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
+func (srv *Server) follow(session *Session, nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
 	if len(elements) == 0 {
 		return nil, ua.BadNothingToDo
 	} else if len(elements) == 1 {
-		ns, err2 := srv.target(nodeID, elements[0])
+		ns, err2 := srv.target(session, nodeID, elements[0])
 		if err2 != nil {
 			return nil, err2
 		}
@@ -2124,7 +2124,7 @@ func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) (
 		return targets, nil
 	} else {
 		e := elements[0]
-		ns2, err3 := srv.target(nodeID, e)
+		ns2, err3 := srv.target(session, nodeID, e)
 		if err3 != nil {
 			return nil, err3
 		}
@@ -2136,7 +2136,7 @@ func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) (
 		copy(nextElements, elements[1:])
 		nextNode, ok := srv.NamespaceManager().FindNode(ua.ToNodeID(nextID, srv.NamespaceUris()))
 		if ok {
-			return srv.follow(nextNode.NodeID(), nextElements)
+			return srv.follow(session, nextNode.NodeID(), nextElements)
 		}
 		if len(nextElements) == 0 {
 			return []ua.BrowsePathTarget{
@@ -2150,7 +2150,7 @@ func (srv *Server) follow(nodeID ua.NodeID, elements []ua.RelativePathElement) (
 }
 
 // target returns a slice of target nodeid's that match the given RelativePathElement
-func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
+func (srv *Server) target(session *Session, nodeID ua.NodeID, element ua.RelativePathElement) ([]ua.ExpandedNodeID, error) {
 	referenceTypeID := element.ReferenceTypeID
 	includeSubtypes := element.IncludeSubtypes
 	isInverse := element.IsInverse
@@ -2160,6 +2160,9 @@ func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]u
 	if !ok {
 		return nil, ua.BadNodeIDUnknown
 	}
+	if !IsUserPermitted(node.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+		return nil, ua.BadNodeIDUnknown
+	}
 	refs := node.References()
 	targets := make([]ua.ExpandedNodeID, 0, 4)
 	for _, r := range refs {
@@ -2176,6 +2179,9 @@ func (srv *Server) target(nodeID ua.NodeID, element ua.RelativePathElement) ([]u
 		if !(targetName == t.BrowseName()) {
 			continue
 		}
+		if !IsUserPermitted(t.UserRolePermissions(session.UserIdentity()), ua.PermissionTypeBrowse) {
+			continue
+		}
 		targets = append(targets, r.TargetID)
 	}
 	if len(targets) == 0 {
-- 
2.43.0


From 15648c97473094f9c82b29d06657967d00db5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:00 +0000
Subject: [PATCH 36/63] fix: HistoryRead returns only what the user may read

---
 server/server_service_set.go | 90 ++++++++++++++++++++++++++++++++----
 1 file changed, 82 insertions(+), 8 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index dbadee4..a101661 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2680,9 +2680,48 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 
 	ctx := context.Background()
 
+	// only nodes whose history the user may read reach the historian.
+	denied := make([]ua.StatusCode, l)
+	nodes := make([]ua.HistoryReadValueID, 0, l)
+	for i, n := range req.NodesToRead {
+		if denied[i] = srv.historyReadable(session, n.NodeID); denied[i] == ua.Good {
+			nodes = append(nodes, n)
+		}
+	}
+	merge := func(read []ua.HistoryReadResult) []ua.HistoryReadResult {
+		if len(nodes) == l || len(read) != len(nodes) {
+			return read
+		}
+		results := make([]ua.HistoryReadResult, l)
+		for i := range results {
+			if denied[i] != ua.Good {
+				results[i].StatusCode = denied[i]
+				continue
+			}
+			results[i], read = read[0], read[1:]
+		}
+		return results
+	}
+	if len(nodes) == 0 {
+		err := ch.Write(
+			&ua.HistoryReadResponse{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: req.RequestHeader.RequestHandle,
+				},
+				Results: merge(nil),
+			},
+			requestid,
+		)
+		if err != nil {
+			return err
+		}
+		return nil
+	}
+
 	switch details := req.HistoryReadDetails.(type) {
 	case ua.ReadEventDetails:
-		results, status := h.ReadEvent(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadEvent(ctx, nodes, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2690,7 +2729,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2700,7 +2739,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadRawModifiedDetails:
-		results, status := h.ReadRawModified(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadRawModified(ctx, nodes, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2708,7 +2747,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2718,7 +2757,16 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadProcessedDetails:
-		results, status := h.ReadProcessed(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		if len(nodes) < l && len(details.AggregateType) == l {
+			types := make([]ua.NodeID, 0, len(nodes))
+			for i, t := range details.AggregateType {
+				if denied[i] == ua.Good {
+					types = append(types, t)
+				}
+			}
+			details.AggregateType = types
+		}
+		results, status := h.ReadProcessed(ctx, nodes, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2726,7 +2774,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2736,7 +2784,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 		return nil
 
 	case ua.ReadAtTimeDetails:
-		results, status := h.ReadAtTime(ctx, req.NodesToRead, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
+		results, status := h.ReadAtTime(ctx, nodes, details, req.TimestampsToReturn, req.ReleaseContinuationPoints)
 		err := ch.Write(
 			&ua.HistoryReadResponse{
 				ResponseHeader: ua.ResponseHeader{
@@ -2744,7 +2792,7 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 					RequestHandle: req.RequestHeader.RequestHandle,
 					ServiceResult: status,
 				},
-				Results: results,
+				Results: merge(results),
 			},
 			requestid,
 		)
@@ -2771,6 +2819,32 @@ func (srv *Server) handleHistoryRead(ch *serverSecureChannel, requestid uint32,
 	return nil
 }
 
+// historyReadable returns whether the user of the session may read the history of the node.
+func (srv *Server) historyReadable(session *Session, id ua.NodeID) ua.StatusCode {
+	n, ok := srv.NamespaceManager().FindNode(id)
+	if !ok {
+		return ua.BadNodeIDUnknown
+	}
+	user := session.UserIdentity()
+	rp := n.UserRolePermissions(user)
+	if !IsUserPermitted(rp, ua.PermissionTypeBrowse) {
+		return ua.BadNodeIDUnknown
+	}
+	if v, ok := n.(*VariableNode); ok {
+		if v.AccessLevel()&ua.AccessLevelsHistoryRead == 0 {
+			return ua.BadNotReadable
+		}
+		if v.UserAccessLevel(user)&ua.AccessLevelsHistoryRead == 0 {
+			return ua.BadUserAccessDenied
+		}
+		return ua.Good
+	}
+	if !IsUserPermitted(rp, ua.PermissionTypeReadHistory) {
+		return ua.BadUserAccessDenied
+	}
+	return ua.Good
+}
+
 // readRange returns slice of value specified by IndexRange
 func readRange(source ua.DataValue, indexRange string) ua.DataValue {
 	if indexRange == "" {
-- 
2.43.0


From d54d3ee9772575e5e127347b5f4634e4fbc2dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 37/63] fix: refuse chunks whose sequence number does not
 follow the last one

---
 client/client_secure_channel.go | 31 +++++++++++++++++++++++++++----
 server/server_secure_channel.go | 29 +++++++++++++++++++++++++----
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 36b2131..39607bb 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -109,6 +109,8 @@ type clientSecureChannel struct {
 	closing                    bool
 	requestHandle              uint32
 	sequenceNumber             uint32
+	remoteSequenceNumber       uint32
+	remoteSequenceStarted      bool
 	sendingTokenID             uint32
 	receivingTokenID           uint32
 	localSigningKey            []byte
@@ -1482,10 +1484,14 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !ch.acceptSequenceNumber(sequenceNumber) {
+				return nil, ua.BadSecurityChecksFailed
+			}
+			var unused uint32
 
 			if err = decoder.ReadUInt32(&unused); err != nil {
 				return nil, ua.BadDecodingError
@@ -1570,10 +1576,14 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			}
 
 			// sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, ua.BadDecodingError
 			}
+			if !ch.acceptSequenceNumber(sequenceNumber) {
+				return nil, ua.BadSecurityChecksFailed
+			}
+			var unused uint32
 			if err = decoder.ReadUInt32(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
@@ -1839,6 +1849,19 @@ func (ch *clientSecureChannel) getNextRequestHandle() uint32 {
 	}
 }
 
+// acceptSequenceNumber reports whether the SequenceNumber of a received chunk follows the
+// SequenceNumber of the chunk before it. The first may be any number, and the sequence may
+// wrap around when it is close to the maximum.
+func (ch *clientSecureChannel) acceptSequenceNumber(number uint32) bool {
+	last := ch.remoteSequenceNumber
+	if ch.remoteSequenceStarted && number != last+1 && !(last > math.MaxUint32-1024 && number < 1024) {
+		return false
+	}
+	ch.remoteSequenceStarted = true
+	ch.remoteSequenceNumber = number
+	return true
+}
+
 // getNextSequenceNumber gets next SequenceNumber in sequence, skipping zero.
 func (ch *clientSecureChannel) getNextSequenceNumber() uint32 {
 	for {
diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 9d81d09..9c80243 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -67,6 +67,8 @@ type serverSecureChannel struct {
 	sendingSemaphore            sync.Mutex
 	receivingSemaphore          sync.Mutex
 	lastSequenceNumber          uint32
+	remoteSequenceNumber        uint32
+	remoteSequenceStarted       bool
 	pendingTokenID              uint32
 	pendingTokenExpiration      time.Time
 	tokenID                     uint32
@@ -1196,10 +1198,13 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// read sequence header
-			var unused uint32
-			if err = decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err = decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !ch.acceptSequenceNumber(sequenceNumber) {
+				return nil, 0, ua.BadSecurityChecksFailed
+			}
 
 			if err = decoder.ReadUInt32(&id); err != nil {
 				return nil, 0, ua.BadDecodingError
@@ -1346,10 +1351,13 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 			}
 
 			// sequence header
-			var unused uint32
-			if err := decoder.ReadUInt32(&unused); err != nil {
+			var sequenceNumber uint32
+			if err := decoder.ReadUInt32(&sequenceNumber); err != nil {
 				return nil, 0, ua.BadDecodingError
 			}
+			if !ch.acceptSequenceNumber(sequenceNumber) {
+				return nil, 0, ua.BadSecurityChecksFailed
+			}
 
 			if err := decoder.ReadUInt32(&id); err != nil {
 				return nil, 0, ua.BadDecodingError
@@ -1562,6 +1570,19 @@ func (ch *serverSecureChannel) handleCloseSecureChannel(requestid uint32, req *u
 	return ua.Good
 }
 
+// acceptSequenceNumber reports whether the SequenceNumber of a received chunk follows the
+// SequenceNumber of the chunk before it. The first may be any number, and the sequence may
+// wrap around when it is close to the maximum.
+func (ch *serverSecureChannel) acceptSequenceNumber(number uint32) bool {
+	last := ch.remoteSequenceNumber
+	if ch.remoteSequenceStarted && number != last+1 && !(last > math.MaxUint32-1024 && number < 1024) {
+		return false
+	}
+	ch.remoteSequenceStarted = true
+	ch.remoteSequenceNumber = number
+	return true
+}
+
 // getNextSequenceNumber gets next SequenceNumber in sequence, skipping zero.
 func (ch *serverSecureChannel) getNextSequenceNumber() uint32 {
 	for {
-- 
2.43.0


From 26affa1d3c533c52ae031e0c338ae61dc8a768e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 38/63] fix: client must not panic on chunks too short for
 their signature or padding

---
 client/client_secure_channel.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 39607bb..090e1ef 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1465,7 +1465,7 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			// decrypt
 			if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
 				span := receiveBuffer[plainHeaderSize:count]
-				if len(span)%ch.symDecryptingBlockCipher.BlockSize() != 0 {
+				if ch.symDecryptingBlockCipher == nil || len(span)%ch.symDecryptingBlockCipher.BlockSize() != 0 {
 					return nil, ua.BadDecodingError
 				}
 				cipher.NewCBCDecrypter(ch.symDecryptingBlockCipher, ch.remoteInitializationVector).CryptBlocks(span, span)
@@ -1475,6 +1475,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			switch ch.securityMode {
 			case ua.MessageSecurityModeSignAndEncrypt, ua.MessageSecurityModeSign:
 				sigStart := count - signatureSize
+				if ch.symVerifyHMAC == nil || sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				ch.symVerifyHMAC.Reset()
 				ch.symVerifyHMAC.Write(receiveBuffer[:sigStart])
 				sig := ch.symVerifyHMAC.Sum(nil)
@@ -1517,6 +1520,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
+			if n < m {
+				return nil, ua.BadDecodingError
+			}
 			_, err = bodyStream.Write(receiveBuffer[m:n])
 			if err != nil {
 				return nil, ua.BadTCPInternalError
@@ -1550,6 +1556,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				cipherTextBlockSize := ch.localPrivateKeySize
 				cipherText := make([]byte, cipherTextBlockSize)
 				jj := plainHeaderSize
+				if (int(messageLength)-plainHeaderSize)%cipherTextBlockSize != 0 {
+					return nil, ua.BadDecodingError
+				}
 				for ii := plainHeaderSize; ii < int(messageLength); ii += cipherTextBlockSize {
 					copy(cipherText, receiveBuffer[ii:])
 					// decrypt with local private key.
@@ -1569,6 +1578,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 				// verify with remote public key.
 				sigEnd := int(messageLength)
 				sigStart := sigEnd - ch.remotePublicKeySize
+				if sigStart < plainHeaderSize+sequenceHeaderSize {
+					return nil, ua.BadDecodingError
+				}
 				err := ch.securityPolicy.RSAVerify(ch.remotePublicKey, receiveBuffer[:sigStart], receiveBuffer[sigStart:sigEnd])
 				if err != nil {
 					return nil, ua.BadDecodingError
@@ -1610,6 +1622,9 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			m := plainHeaderSize + sequenceHeaderSize
 			n := m + bodySize
+			if n < m {
+				return nil, ua.BadDecodingError
+			}
 			if _, err := bodyStream.Write(receiveBuffer[m:n]); err != nil {
 				return nil, ua.BadTCPInternalError
 			}
-- 
2.43.0


From ec627059cd7371bda2611678c267fc19882ecd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 39/63] fix: server must switch token id and keys together

---
 server/server_secure_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index 9c80243..ea9baf7 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -1114,7 +1114,6 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				if newTokenID != ch.pendingTokenID {
 					return nil, 0, ua.BadSecureChannelTokenUnknown
 				}
-				ch.tokenID = ch.pendingTokenID
 				ch.tokenExpiration = ch.pendingTokenExpiration
 				ch.conn.SetDeadline(ch.tokenExpiration)
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
@@ -1141,6 +1140,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 				}
 
 				ch.sendingSemaphore.Lock()
+				ch.tokenID = ch.pendingTokenID
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 
 					// (re)create security keys for signing, encrypting
-- 
2.43.0


From 41da14aa98889ab079b1261598658043b6fe0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 40/63] fix: client must switch token id and keys together, and
 renew once at a time

---
 client/client_secure_channel.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 090e1ef..80f1b2a 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -513,8 +513,15 @@ func (ch *clientSecureChannel) IsClosing() bool {
 // sendRequest sends the service request on transport channel.
 func (ch *clientSecureChannel) sendRequest(ctx context.Context, op *ua.ServiceOperation) error {
 	// Check if time to renew security token.
-	if !ch.tokenRenewalTime.IsZero() && time.Now().After(ch.tokenRenewalTime) {
-		ch.tokenRenewalTime = ch.tokenRenewalTime.Add(60000 * time.Millisecond)
+	ch.tokenLock.Lock()
+	now := time.Now()
+	renew := !ch.tokenRenewalTime.IsZero() && now.After(ch.tokenRenewalTime)
+	if renew {
+		// only this request renews; if that fails, try again later.
+		ch.tokenRenewalTime = now.Add(60000 * time.Millisecond)
+	}
+	ch.tokenLock.Unlock()
+	if renew {
 		ch.renewToken(ctx)
 	}
 
@@ -836,10 +843,10 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 		encoder.WriteUInt32(ch.channelID)
 
 		// symmetric security header
+		ch.tokenLock.RLock()
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		ch.tokenLock.RLock()
 		if ch.tokenID != ch.sendingTokenID {
 			ch.sendingTokenID = ch.tokenID
 
@@ -1275,10 +1282,10 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		encoder.WriteUInt32(ch.channelID)
 
 		// symmetric security header
+		ch.tokenLock.RLock()
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		ch.tokenLock.RLock()
 		if ch.tokenID != ch.sendingTokenID {
 			ch.sendingTokenID = ch.tokenID
 
-- 
2.43.0


From c8072659989ac2f75c671b3065be9b4e9904e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:49 +0000
Subject: [PATCH 41/63] fix: GetChildren and GetSubTypes must end when
 references form a cycle

---
 server/namespace_manager.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 7b878d2..5737508 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -557,14 +557,19 @@ func (m *NamespaceManager) DeleteNodeByIDRecursive(nodeId ua.NodeID) (int, error
 // GetSubTypes traverses the tree to get all target nodes with HasSubtype reference type.
 func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 	children := []Node{}
+	uris := m.NamespaceUris()
+	visited := map[ua.NodeID]bool{node.NodeID(): true}
 	queue := deque.Deque[Node]{}
 	queue.PushBack(node)
 	for queue.Len() > 0 {
 		node := queue.PopFront()
 		for _, r := range node.References() {
 			if !r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasSubtype {
-				queue.PushBack(node)
-				children = append(children, node)
+				if target, ok := m.FindNode(ua.ToNodeID(r.TargetID, uris)); ok && !visited[target.NodeID()] {
+					visited[target.NodeID()] = true
+					queue.PushBack(target)
+					children = append(children, target)
+				}
 			}
 		}
 	}
@@ -574,21 +579,16 @@ func (m *NamespaceManager) GetSubTypes(node Node) []Node {
 // GetChildren traverses the tree to get all target nodes with the given reference types.
 func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []ua.NodeID) []Node {
 	children := []Node{}
-	type queuedItem struct {
-		Node    Node
-		Visited bool
-	}
-	queue := deque.Deque[queuedItem]{}
-	queue.PushBack(queuedItem{node, false})
+	visited := map[ua.NodeID]bool{node.NodeID(): true}
+	queue := deque.Deque[Node]{}
+	queue.PushBack(node)
 	for queue.Len() > 0 {
 		item := queue.PopFront()
-		if item.Visited {
-			continue
-		}
-		for _, r := range item.Node.References() {
+		for _, r := range item.References() {
 			if !r.IsInverse && (withRefTypes == nil || Contains(withRefTypes, r.ReferenceTypeID)) {
-				if target, ok := m.nodes[ua.ToNodeID(r.TargetID, uris)]; ok {
-					queue.PushBack(queuedItem{target, false})
+				if target, ok := m.nodes[ua.ToNodeID(r.TargetID, uris)]; ok && !visited[target.NodeID()] {
+					visited[target.NodeID()] = true
+					queue.PushBack(target)
 					children = append(children, target)
 				}
 			}
-- 
2.43.0


From d0f90dd6703030d38938910cc4629cf1058aaabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:10 +0000
Subject: [PATCH 42/63] fix: TranslateBrowsePathsToNodeIds follows every node
 that matches an element

---
 server/server_service_set.go | 61 +++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index a101661..3cf8d1f 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -2112,41 +2112,38 @@ func (srv *Server) handleUnregisterNodes(ch *serverSecureChannel, requestid uint
 func (srv *Server) follow(session *Session, nodeID ua.NodeID, elements []ua.RelativePathElement) ([]ua.BrowsePathTarget, error) {
 	if len(elements) == 0 {
 		return nil, ua.BadNothingToDo
-	} else if len(elements) == 1 {
-		ns, err2 := srv.target(session, nodeID, elements[0])
-		if err2 != nil {
-			return nil, err2
-		}
-		targets := make([]ua.BrowsePathTarget, len(ns))
-		for i, n := range ns {
-			targets[i] = ua.BrowsePathTarget{TargetID: n, RemainingPathIndex: math.MaxUint32}
-		}
-		return targets, nil
-	} else {
-		e := elements[0]
-		ns2, err3 := srv.target(session, nodeID, e)
-		if err3 != nil {
-			return nil, err3
-		}
-		var nextID ua.ExpandedNodeID
-		if len(ns2) > 0 {
-			nextID = ns2[0]
-		}
-		nextElements := make([]ua.RelativePathElement, len(elements)-1)
-		copy(nextElements, elements[1:])
-		nextNode, ok := srv.NamespaceManager().FindNode(ua.ToNodeID(nextID, srv.NamespaceUris()))
-		if ok {
-			return srv.follow(session, nextNode.NodeID(), nextElements)
+	}
+	uris := srv.NamespaceUris()
+	nodeIDs := []ua.NodeID{nodeID}
+	var targets []ua.BrowsePathTarget
+	for i, element := range elements {
+		// every node that matches an element may lead to further targets.
+		targets = targets[:0]
+		nextIDs := []ua.NodeID{}
+		found := map[ua.NodeID]bool{}
+		for _, id := range nodeIDs {
+			ns, err := srv.target(session, id, element)
+			if err != nil {
+				if i == 0 {
+					return nil, err
+				}
+				continue
+			}
+			for _, n := range ns {
+				nextID := ua.ToNodeID(n, uris)
+				if !found[nextID] {
+					found[nextID] = true
+					nextIDs = append(nextIDs, nextID)
+					targets = append(targets, ua.BrowsePathTarget{TargetID: n, RemainingPathIndex: math.MaxUint32})
+				}
+			}
 		}
-		if len(nextElements) == 0 {
-			return []ua.BrowsePathTarget{
-				{TargetID: nextID, RemainingPathIndex: math.MaxUint32},
-			}, nil
+		if len(targets) == 0 {
+			return nil, ua.BadNoMatch
 		}
-		return []ua.BrowsePathTarget{
-			{TargetID: nextID, RemainingPathIndex: uint32(len(nextElements))},
-		}, nil
+		nodeIDs = nextIDs
 	}
+	return targets, nil
 }
 
 // target returns a slice of target nodeid's that match the given RelativePathElement
-- 
2.43.0


From 66200a9827f849caaa01bc7c6f9e493afdf770c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:10 +0000
Subject: [PATCH 43/63] fix: Browse must not fail when the target of a
 reference is gone

---
 server/server_service_set.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 3cf8d1f..1a8dd8c 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1386,9 +1386,7 @@ func (srv *Server) handleBrowse(ch *serverSecureChannel, requestid uint32, req *
 				}
 				t, ok := m.FindNode(ua.ToNodeID(r.TargetID, srv.NamespaceUris()))
 				if !ok {
-					results[i] = ua.BrowseResult{StatusCode: ua.BadNodeIDUnknown}
-					wg.Done()
-					return
+					continue
 				}
 				rp2 := t.UserRolePermissions(session.UserIdentity())
 				if !IsUserPermitted(rp2, ua.PermissionTypeBrowse) {
-- 
2.43.0


From 4acdd28f706dc5360ebd729a4c29ef9f886f567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:21 +0000
Subject: [PATCH 44/63] fix: server answers with a fault when a response is too
 large or cannot be encoded

---
 server/server_secure_channel.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index ea9baf7..f1cff5c 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -442,7 +442,18 @@ func (ch *serverSecureChannel) Write(res ua.ServiceResponse, id uint32) error {
 	case *ua.OpenSecureChannelResponse:
 		return ch.sendOpenSecureChannelResponse(res1, id)
 	default:
-		return ch.sendServiceResponse(res1, id)
+		err := ch.sendServiceResponse(res1, id)
+		if err == ua.BadResponseTooLarge || err == ua.BadEncodingError {
+			// nothing has been sent, tell the client why.
+			return ch.sendServiceResponse(&ua.ServiceFault{
+				ResponseHeader: ua.ResponseHeader{
+					Timestamp:     time.Now(),
+					RequestHandle: res1.Header().RequestHandle,
+					ServiceResult: err.(ua.StatusCode),
+				},
+			}, id)
+		}
+		return err
 	}
 }
 
@@ -925,16 +936,26 @@ func (ch *serverSecureChannel) sendServiceResponse(response ua.ServiceResponse,
 		return ua.BadResponseTooLarge
 	}
 
-	var chunkCount int
 	var bodyCount = int(bodyStream.Len())
 	var signatureSize = ch.securityPolicy.SymSignatureSize()
 	var encryptionBlockSize = ch.securityPolicy.SymEncryptionBlockSize()
 
-	for bodyCount > 0 {
-		chunkCount++
-		if i := int(ch.maxResponseChunkCount); i > 0 && chunkCount > i {
+	// check the number of chunks before the first is sent
+	if i := int(ch.maxResponseChunkCount); i > 0 {
+		maxBodySize := int(ch.sendBufferSize) - 16 - sequenceHeaderSize - signatureSize
+		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
+			paddingHeaderSize := 1
+			if encryptionBlockSize > 256 {
+				paddingHeaderSize = 2
+			}
+			maxBodySize = (((int(ch.sendBufferSize) - 16) / encryptionBlockSize) * encryptionBlockSize) - sequenceHeaderSize - paddingHeaderSize - signatureSize
+		}
+		if bodyCount > i*maxBodySize {
 			return ua.BadResponseTooLarge
 		}
+	}
+
+	for bodyCount > 0 {
 
 		var plainHeaderSize int
 		var paddingHeaderSize int
-- 
2.43.0


From 19bf5385115b087e10e1a363d890ff88fa6d062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:21 +0000
Subject: [PATCH 45/63] fix: client checks the number of chunks before sending
 the first

---
 client/client_secure_channel.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 80f1b2a..c240de6 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1220,16 +1220,26 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		return ua.BadRequestTooLarge
 	}
 
-	var chunkCount int
 	var bodyCount = int(bodyStream.Len())
 	var signatureSize = ch.securityPolicy.SymSignatureSize()
 	var encryptionBlockSize = ch.securityPolicy.SymEncryptionBlockSize()
 
-	for bodyCount > 0 {
-		chunkCount++
-		if i := int(ch.maxRequestChunkCount); i > 0 && chunkCount > i {
+	// check the number of chunks before the first is sent
+	if i := int(ch.maxRequestChunkCount); i > 0 {
+		maxBodySize := int(ch.sendBufferSize) - 16 - sequenceHeaderSize - signatureSize
+		if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt {
+			paddingHeaderSize := 1
+			if encryptionBlockSize > 256 {
+				paddingHeaderSize = 2
+			}
+			maxBodySize = (((int(ch.sendBufferSize) - 16) / encryptionBlockSize) * encryptionBlockSize) - sequenceHeaderSize - paddingHeaderSize - signatureSize
+		}
+		if bodyCount > i*maxBodySize {
 			return ua.BadRequestTooLarge
 		}
+	}
+
+	for bodyCount > 0 {
 
 		// plan
 		var plainHeaderSize int
-- 
2.43.0


From 911fb88ba76acb1e4661ec9fba025f91cec5668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:52 +0000
Subject: [PATCH 46/63] fix: client requests give up at their deadline while
 waiting to be sent

---
 client/client_secure_channel.go | 76 +++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 18 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index c240de6..848a637 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -102,9 +102,9 @@ type clientSecureChannel struct {
 	serverURIs                 []string
 	closed                     chan struct{}
 	statusCode                 ua.StatusCode
-	sendingSemaphore           sync.Mutex
+	sendingSemaphore           chan struct{}
 	receivingSemaphore         sync.Mutex
-	pendingResponseCh          chan *ua.ServiceOperation
+	pendingResponsesLock       sync.Mutex
 	pendingResponses           map[uint32]*ua.ServiceOperation
 	closing                    bool
 	requestHandle              uint32
@@ -245,7 +245,8 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 		header.TimeoutHint = defaultTimeoutHint
 	}
 	var operation = ua.NewServiceOperation(req, make(chan ua.ServiceResponse, 1))
-	ch.pendingResponseCh <- operation
+	ch.addPendingResponse(operation)
+	defer ch.removePendingResponse(operation)
 	ctx, cancel := context.WithDeadline(ctx, header.Timestamp.Add(time.Duration(header.TimeoutHint)*time.Millisecond))
 	err := ch.sendRequest(ctx, operation)
 	if err != nil {
@@ -441,8 +442,10 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		ch.remotePublicKeySize = ch.remotePublicKey.Size()
 	}
 
-	ch.pendingResponseCh = make(chan *ua.ServiceOperation, 32)
+	ch.pendingResponsesLock.Lock()
 	ch.pendingResponses = make(map[uint32]*ua.ServiceOperation)
+	ch.pendingResponsesLock.Unlock()
+	ch.sendingSemaphore = make(chan struct{}, 1)
 	ch.closed = make(chan struct{})
 	ch.channelID = 0
 	ch.tokenID = 0
@@ -525,8 +528,18 @@ func (ch *clientSecureChannel) sendRequest(ctx context.Context, op *ua.ServiceOp
 		ch.renewToken(ctx)
 	}
 
-	ch.sendingSemaphore.Lock()
-	defer ch.sendingSemaphore.Unlock()
+	select {
+	case ch.sendingSemaphore <- struct{}{}:
+		defer func() { <-ch.sendingSemaphore }()
+	case <-ctx.Done():
+		return ua.BadRequestTimeout
+	case <-ch.closed:
+		return ua.BadSecureChannelClosed
+	}
+	if ctx.Err() != nil {
+		return ua.BadRequestTimeout
+	}
+	defer ch.interruptOnDone(ctx, ch.conn.SetWriteDeadline)()
 
 	req := op.Request()
 
@@ -1780,10 +1793,12 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 // handleResponse directs the response to the correct handler.
 func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
-	ch.mapPendingResponses()
 	hnd := res.Header().RequestHandle
-	if op, ok := ch.pendingResponses[hnd]; ok {
-		delete(ch.pendingResponses, hnd)
+	ch.pendingResponsesLock.Lock()
+	op, ok := ch.pendingResponses[hnd]
+	delete(ch.pendingResponses, hnd)
+	ch.pendingResponsesLock.Unlock()
+	if ok {
 		select {
 		case op.ResponseCh() <- res:
 		default:
@@ -1794,14 +1809,34 @@ func (ch *clientSecureChannel) handleResponse(res ua.ServiceResponse) error {
 	return ua.BadUnknownResponse
 }
 
-// mapPendingResponses maps operations coming from pendingResponseCh.
-func (ch *clientSecureChannel) mapPendingResponses() {
-	for {
-		select {
-		case op := <-ch.pendingResponseCh:
-			ch.pendingResponses[op.Request().Header().RequestHandle] = op
-		default:
-			return
+// addPendingResponse adds an operation that waits for its response.
+func (ch *clientSecureChannel) addPendingResponse(op *ua.ServiceOperation) {
+	ch.pendingResponsesLock.Lock()
+	defer ch.pendingResponsesLock.Unlock()
+	ch.pendingResponses[op.Request().Header().RequestHandle] = op
+}
+
+// removePendingResponse removes an operation that no longer waits for its response.
+func (ch *clientSecureChannel) removePendingResponse(op *ua.ServiceOperation) {
+	ch.pendingResponsesLock.Lock()
+	defer ch.pendingResponsesLock.Unlock()
+	hnd := op.Request().Header().RequestHandle
+	if ch.pendingResponses[hnd] == op {
+		delete(ch.pendingResponses, hnd)
+	}
+}
+
+// interruptOnDone makes the transport give up when the context is done, until the returned function is called.
+func (ch *clientSecureChannel) interruptOnDone(ctx context.Context, setDeadline func(time.Time) error) func() {
+	interrupted := make(chan struct{})
+	stop := context.AfterFunc(ctx, func() {
+		setDeadline(time.Unix(1, 0))
+		close(interrupted)
+	})
+	return func() {
+		if !stop() {
+			<-interrupted
+			setDeadline(time.Time{})
 		}
 	}
 }
@@ -1921,7 +1956,12 @@ func (ch *clientSecureChannel) Write(p []byte) (int, error) {
 	if ch.conn == nil {
 		return 0, ua.BadSecureChannelClosed
 	}
-	return ch.conn.Write(p)
+	n, err := ch.conn.Write(p)
+	if err != nil {
+		// a message that is cut short leaves the connection unusable.
+		ch.conn.Close()
+	}
+	return n, err
 }
 
 // Read receives a chunk from the remote endpoint.
-- 
2.43.0


From a9daf36fd1d4e9c8d2027c20c6fd82aa7ef17fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:18 +0000
Subject: [PATCH 47/63] fix: client gives up connecting when the server does
 not acknowledge in time

---
 client/client_secure_channel.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 848a637..d5328cb 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -276,7 +276,7 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 }
 
 // Open opens the channel.
-func (ch *clientSecureChannel) Open(ctx context.Context) error {
+func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 	ch.Lock()
 	defer ch.Unlock()
 
@@ -309,10 +309,23 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 		}
 	}
 
-	ch.conn, err = net.DialTimeout("tcp", remoteURL.Host, time.Duration(ch.connectTimeout)*time.Millisecond)
+	connectTimeout := time.Duration(ch.connectTimeout) * time.Millisecond
+	dialer := net.Dialer{Timeout: connectTimeout}
+	ch.conn, err = dialer.DialContext(ctx, "tcp", remoteURL.Host)
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			ch.conn.Close()
+		}
+	}()
+
+	// the server must acknowledge before the connect timeout.
+	if connectTimeout > 0 {
+		ch.conn.SetDeadline(time.Now().Add(connectTimeout))
+	}
+	endHandshake := ch.interruptOnDone(ctx, ch.conn.SetDeadline)
 
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
@@ -328,6 +341,7 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	enc.WriteString(ch.endpointURL)
 	_, err = ch.Write(writer.Bytes())
 	if err != nil {
+		endHandshake()
 		return err
 	}
 
@@ -336,9 +350,11 @@ func (ch *clientSecureChannel) Open(ctx context.Context) error {
 	// }
 
 	_, err = ch.Read(buf)
+	endHandshake()
 	if err != nil {
 		return err
 	}
+	ch.conn.SetDeadline(time.Time{})
 
 	var reader = bytes.NewReader(buf)
 	var dec = ua.NewBinaryDecoder(reader, ch)
-- 
2.43.0


From a1771a7cb0834e52c5a6a5c90dbbdef182095a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:35 +0000
Subject: [PATCH 48/63] fix: client applies the timeout hint it was given

---
 client/client_secure_channel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index d5328cb..529302a 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -241,6 +241,9 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 	header.Timestamp = time.Now()
 	header.RequestHandle = ch.getNextRequestHandle()
 	header.AuthenticationToken = ch.authenticationToken
+	if header.TimeoutHint == 0 {
+		header.TimeoutHint = ch.timeoutHint
+	}
 	if header.TimeoutHint == 0 {
 		header.TimeoutHint = defaultTimeoutHint
 	}
-- 
2.43.0


From 0c23c44201041e44c09bc6ce5b6c7fe911a6a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:18 +0000
Subject: [PATCH 49/63] fix: server closes a connection whose client does not
 take what it is sent

---
 server/server_secure_channel.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server/server_secure_channel.go b/server/server_secure_channel.go
index f1cff5c..5e09bd1 100644
--- a/server/server_secure_channel.go
+++ b/server/server_secure_channel.go
@@ -43,6 +43,8 @@ const (
 	minTokenLifetime uint32 = 300 * 1000
 	// the maximum number of milliseconds that a Token may be used before being renewed by the client. (60 min)
 	maxTokenLifetime uint32 = 3600 * 1000
+	// writeTimeout is the time a client has to take a chunk. (10 sec)
+	writeTimeout = 10 * time.Second
 )
 
 // serverSecureChannel implements a secure channel for binary data over Tcp.
@@ -191,7 +193,7 @@ func (ch *serverSecureChannel) Open() error {
 	// log.Printf("Opening secure channel.\n")
 	buf := *(ch.bytesPool.Get().(*[]byte))
 	defer ch.bytesPool.Put(&buf)
-	ch.conn.SetDeadline(ch.tokenExpiration)
+	ch.conn.SetReadDeadline(ch.tokenExpiration)
 	n, err := ch.read(buf)
 	if err != nil {
 		return ua.BadDecodingError
@@ -425,7 +427,7 @@ func (ch *serverSecureChannel) Abort(reason ua.StatusCode, message string) error
 		enc.WriteUInt32(uint32(reason))
 		enc.WriteString(message)
 		ch.conn.SetWriteDeadline(time.Now().Add(3000 * time.Millisecond))
-		ch.write(writer.Bytes())
+		ch.conn.Write(writer.Bytes())
 		// log.Printf("<- Err { reason: 0x%X, message: %s }\n", uint32(reason), message)
 		ch.conn.Close()
 	}
@@ -1136,7 +1138,7 @@ func (ch *serverSecureChannel) readRequest() (ua.ServiceRequest, uint32, error)
 					return nil, 0, ua.BadSecureChannelTokenUnknown
 				}
 				ch.tokenExpiration = ch.pendingTokenExpiration
-				ch.conn.SetDeadline(ch.tokenExpiration)
+				ch.conn.SetReadDeadline(ch.tokenExpiration)
 				if ch.securityMode == ua.MessageSecurityModeSignAndEncrypt || ch.securityMode == ua.MessageSecurityModeSign {
 
 					// (re)create security keys for verifying, decrypting
@@ -1714,5 +1716,12 @@ func (ch *serverSecureChannel) write(p []byte) (int, error) {
 	if ch.conn == nil {
 		return 0, ua.BadSecureChannelClosed
 	}
-	return ch.conn.Write(p)
+	// a client that stops reading must not hold up the server.
+	ch.conn.SetWriteDeadline(time.Now().Add(writeTimeout))
+	n, err := ch.conn.Write(p)
+	if err != nil {
+		// a message that is cut short leaves the connection unusable.
+		ch.conn.Close()
+	}
+	return n, err
 }
-- 
2.43.0


From 6bd6b1831dd4eff586d6122640fe8c118551ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:18 +0000
Subject: [PATCH 50/63] fix: server keeps accepting connections after a failed
 accept

---
 server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index ec700a5..2c553dd 100644
--- a/server/server.go
+++ b/server/server.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rsa"
 	"crypto/tls"
 	_ "embed"
+	"errors"
 	"fmt"
 	"log"
 	"math"
@@ -359,7 +360,8 @@ func (srv *Server) serve(ln net.Listener, wg *sync.WaitGroup) error {
 			if srv.State() != ua.ServerStateRunning {
 				return ua.BadServerHalted
 			}
-			if ne, ok := err.(net.Error); ok && ne.Timeout() {
+			if !errors.Is(err, net.ErrClosed) {
+				// the listener is still open, e.g. there were too many open files.
 				if delay == 0 {
 					delay = 5 * time.Millisecond
 				} else {
-- 
2.43.0


From 62286c6468ea03ebe5cd9af9b28eb04110183b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:13 +0000
Subject: [PATCH 51/63] fix: server may be closed more than once

---
 server/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 2c553dd..2c8002d 100644
--- a/server/server.go
+++ b/server/server.go
@@ -69,6 +69,7 @@ type Server struct {
 	localCertificate                     []byte
 	localPrivateKey                      *rsa.PrivateKey
 	closing                              chan struct{}
+	closeOnce                            sync.Once
 	state                                ua.ServerState
 	secondsTillShutdown                  uint32
 	shutdownReason                       ua.LocalizedText
@@ -343,7 +344,7 @@ func (srv *Server) Close() error {
 	}
 
 	// begin closing channels
-	close(srv.closing)
+	srv.closeOnce.Do(func() { close(srv.closing) })
 	return nil
 }
 
-- 
2.43.0


From 3f16c1d69edd69cda246233c776cd6998c7df113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:32 +0000
Subject: [PATCH 52/63] fix: requests of a session that is closed meanwhile
 neither panic nor hang, and its publish requests are answered

---
 server/server_service_set.go | 20 +-------
 server/session.go            | 97 ++++++++++++++++++++++--------------
 server/session_manager.go    | 19 ++++++-
 3 files changed, 77 insertions(+), 59 deletions(-)

diff --git a/server/server_service_set.go b/server/server_service_set.go
index 1a8dd8c..5a9f2b2 100644
--- a/server/server_service_set.go
+++ b/server/server_service_set.go
@@ -1051,25 +1051,7 @@ func (srv *Server) handleCloseSession(ch *serverSecureChannel, requestid uint32,
 		}
 	}
 
-	// answer the publish requests that are still waiting
-	for {
-		op, ok := session.takePublishRequest()
-		if !ok {
-			break
-		}
-		op.ch.Write(
-			&ua.ServiceFault{
-				ResponseHeader: ua.ResponseHeader{
-					Timestamp:     time.Now(),
-					RequestHandle: op.req.RequestHandle,
-					ServiceResult: ua.BadSessionClosed,
-				},
-			},
-			op.requestId,
-		)
-	}
-
-	// delete session
+	// delete session, and answer the publish requests that are still waiting
 	srv.sessionManager.Delete(session)
 
 	// log.Printf("Deleted session '%s'.\n", session.SessionName())
diff --git a/server/session.go b/server/session.go
index f7e2913..0b67fc7 100644
--- a/server/session.go
+++ b/server/session.go
@@ -150,7 +150,8 @@ func (s *Session) IsExpired() bool {
 	return time.Since(s.lastAccess).Milliseconds() > int64(s.timeout)
 }
 
-func (s *Session) delete() {
+// delete releases what the session holds, and returns the publish requests that are still waiting.
+func (s *Session) delete() []*publishOp {
 	s.Lock()
 	defer s.Unlock()
 	//s.sessionId = nil  // need to keep to look up diagnostics node
@@ -161,6 +162,14 @@ func (s *Session) delete() {
 	s.securityPolicyURI = ua.SecurityPolicyURINone
 	s.sessionNonce = ua.ByteString("")
 	s.clientCertificate = ua.ByteString("")
+	waiting := make([]*publishOp, 0, len(s.publishRequests))
+	for len(s.publishRequests) > 0 {
+		select {
+		case op := <-s.publishRequests:
+			waiting = append(waiting, op)
+		default:
+		}
+	}
 	s.publishRequests = nil
 	for k := range s.browseCPs {
 		delete(s.browseCPs, k)
@@ -171,6 +180,7 @@ func (s *Session) delete() {
 	}
 	s.historyCPs = nil
 	s.clientUserIdHistory = nil
+	return waiting
 }
 
 func (s *Session) SessionId() ua.NodeID {
@@ -311,31 +321,53 @@ func (s *Session) ClientCertificate() ua.ByteString {
 	return s.clientCertificate
 }
 
+// rejectPublishRequest answers a waiting publish request with an error.
+func rejectPublishRequest(op *publishOp, code ua.StatusCode) {
+	// the request may have come on a channel that is closed by now.
+	op.ch.Write(
+		&ua.ServiceFault{
+			ResponseHeader: ua.ResponseHeader{
+				Timestamp:     time.Now(),
+				RequestHandle: op.req.RequestHandle,
+				ServiceResult: code,
+			},
+		},
+		op.requestId,
+	)
+}
+
 func (s *Session) addPublishRequest(ch *serverSecureChannel, requestid uint32, req *ua.PublishRequest, results []ua.StatusCode) error {
-	received := time.Now()
+	added := &publishOp{ch, requestid, req, results, time.Now()}
 	for {
+		var oldest *publishOp
+		s.RLock()
+		if s.publishRequests == nil {
+			// the session was closed meanwhile.
+			s.RUnlock()
+			rejectPublishRequest(added, ua.BadSessionClosed)
+			return nil
+		}
 		select {
-		case s.publishRequests <- &publishOp{ch, requestid, req, results, received}:
+		case s.publishRequests <- added:
+			s.RUnlock()
 			return nil
 		default:
-			op := <-s.publishRequests
-			// the request may have come on a channel that is closed by now.
-			op.ch.Write(
-				&ua.ServiceFault{
-					ResponseHeader: ua.ResponseHeader{
-						Timestamp:     time.Now(),
-						RequestHandle: op.req.RequestHandle,
-						ServiceResult: ua.BadTooManyPublishRequests,
-					},
-				},
-				op.requestId,
-			)
+		}
+		select {
+		case oldest = <-s.publishRequests:
+		default:
+		}
+		s.RUnlock()
+		if oldest != nil {
+			rejectPublishRequest(oldest, ua.BadTooManyPublishRequests)
 		}
 	}
 }
 
 // takePublishRequest returns the oldest waiting publish request, if any.
 func (s *Session) takePublishRequest() (*publishOp, bool) {
+	s.RLock()
+	defer s.RUnlock()
 	select {
 	case op := <-s.publishRequests:
 		return op, true
@@ -346,37 +378,26 @@ func (s *Session) takePublishRequest() (*publishOp, bool) {
 
 func (s *Session) removePublishRequest() (*serverSecureChannel, uint32, *ua.PublishRequest, []ua.StatusCode, bool, error) {
 	for {
-		select {
-		case op := <-s.publishRequests:
-			ch := op.ch
-			req := op.req
-			rid := op.requestId
-			results := op.results
-			// check if expired. The time is counted from the arrival, since the clock of the client may differ, and a hint of 0 means no timeout.
-			if hint := time.Duration(req.RequestHeader.TimeoutHint) * time.Millisecond; hint > 0 && time.Since(op.received) > hint {
-				// the request may have come on a channel that is closed by now.
-				ch.Write(
-					&ua.ServiceFault{
-						ResponseHeader: ua.ResponseHeader{
-							Timestamp:     time.Now(),
-							RequestHandle: req.RequestHandle,
-							ServiceResult: ua.BadTimeout,
-						},
-					},
-					rid,
-				)
-				continue
-			}
-			return ch, rid, req, results, true, nil
-		default:
+		op, ok := s.takePublishRequest()
+		if !ok {
 			return nil, 0, nil, nil, false, nil
 		}
+		// check if expired. The time is counted from the arrival, since the clock of the client may differ, and a hint of 0 means no timeout.
+		if hint := time.Duration(op.req.RequestHeader.TimeoutHint) * time.Millisecond; hint > 0 && time.Since(op.received) > hint {
+			rejectPublishRequest(op, ua.BadTimeout)
+			continue
+		}
+		return op.ch, op.requestId, op.req, op.results, true, nil
 	}
 }
 
 func (s *Session) addBrowseContinuationPoint(data []ua.ReferenceDescription, max int) ([]byte, error) {
 	s.Lock()
 	defer s.Unlock()
+	if s.browseCPs == nil {
+		// the session was closed meanwhile.
+		return nil, ua.BadSessionClosed
+	}
 	if s.maxBrowseContinuationPoints > 0 && len(s.browseCPs) >= s.maxBrowseContinuationPoints {
 		return nil, ua.BadNoContinuationPoints
 	}
diff --git a/server/session_manager.go b/server/session_manager.go
index 04a3bf5..47500f4 100644
--- a/server/session_manager.go
+++ b/server/session_manager.go
@@ -66,6 +66,12 @@ func (m *SessionManager) Add(s *Session) error {
 
 // Delete the session from the server.
 func (m *SessionManager) Delete(s *Session) {
+	for _, op := range m.remove(s) {
+		rejectPublishRequest(op, ua.BadSessionClosed)
+	}
+}
+
+func (m *SessionManager) remove(s *Session) []*publishOp {
 	m.Lock()
 	defer m.Unlock()
 	delete(m.sessionsByToken, s.authenticationToken)
@@ -75,7 +81,7 @@ func (m *SessionManager) Delete(s *Session) {
 		m.server.serverDiagnosticsSummary.CurrentSessionCount = uint32(len(m.sessionsByToken))
 		m.server.Unlock()
 	}
-	s.delete()
+	return s.delete()
 }
 
 // Len returns the number of sessions.
@@ -86,8 +92,16 @@ func (m *SessionManager) Len() int {
 }
 
 func (m *SessionManager) checkForExpiredSessions() {
+	// answer without the lock, since a client may be slow to take the answers.
+	for _, op := range m.removeExpiredSessions() {
+		rejectPublishRequest(op, ua.BadSessionClosed)
+	}
+}
+
+func (m *SessionManager) removeExpiredSessions() []*publishOp {
 	m.Lock()
 	defer m.Unlock()
+	var waiting []*publishOp
 	for k, s := range m.sessionsByToken {
 		if s.IsExpired() {
 			delete(m.sessionsByToken, k)
@@ -98,9 +112,10 @@ func (m *SessionManager) checkForExpiredSessions() {
 				m.server.serverDiagnosticsSummary.CurrentSessionCount = uint32(len(m.sessionsByToken))
 				m.server.Unlock()
 			}
-			s.delete()
+			waiting = append(waiting, s.delete()...)
 		}
 	}
+	return waiting
 }
 
 func (m *SessionManager) addDiagnosticsNode(s *Session) {
-- 
2.43.0


From b99c7c7ed0610584a533a314063e6bf355ca6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:24 +0000
Subject: [PATCH 53/63] fix: items that trigger themselves or each other do not
 deadlock, a link is made once, and a disabled item forgets what it sampled

---
 server/datachange_monitored_item.go | 32 ++++++++++++++++-------------
 server/event_monitored_item.go      | 23 +++++++++++----------
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index 39df87b..d3d0833 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -37,7 +37,7 @@ type DataChangeMonitoredItem struct {
 	ts                  time.Time
 	ti                  time.Duration
 	triggeredItems      []MonitoredItem
-	triggered           bool
+	triggered           atomic.Bool // apart from the lock, so that items may trigger each other
 }
 
 // NewDataChangeMonitoredItem constructs a new DataChangeMonitoredItem.
@@ -112,16 +112,12 @@ func (mi *DataChangeMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *DataChangeMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -166,12 +162,15 @@ func (mi *DataChangeMonitoredItem) SetMonitoringMode(mode ua.MonitoringMode) {
 		// deleted meanwhile.
 		return
 	}
+	wasDisabled := mi.monitoringMode == ua.MonitoringModeDisabled
 	mi.monitoringMode = mode
-	if mode == ua.MonitoringModeDisabled {
+	switch {
+	case mode == ua.MonitoringModeDisabled:
 		mi.queue.Clear()
+		mi.prequeue.Clear()
 		mi.previousQueuedValue = ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0)
 		mi.sub.disabledMonitoredItemCount++
-	} else {
+	case wasDisabled:
 		mi.sub.disabledMonitoredItemCount--
 	}
 	mi.startMonitoring()
@@ -278,7 +277,7 @@ func (mi *DataChangeMonitoredItem) stopMonitoring() {
 // Poll reads the value of the itemToMonitor.
 func (mi *DataChangeMonitoredItem) Poll() {
 	mi.Lock()
-	if n := mi.node; n != nil {
+	if n := mi.node; n != nil && mi.monitoringMode != ua.MonitoringModeDisabled {
 		v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
 		mi.prequeue.PushBack(v)
 	}
@@ -288,8 +287,13 @@ func (mi *DataChangeMonitoredItem) Poll() {
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *DataChangeMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
+	defer mi.Unlock()
+	for _, e := range mi.triggeredItems {
+		if e.ID() == item.ID() {
+			return true
+		}
+	}
 	mi.triggeredItems = append(mi.triggeredItems, item)
-	mi.Unlock()
 	return true
 }
 
@@ -360,8 +364,8 @@ func (mi *DataChangeMonitoredItem) notifications(max int) (notifications []any,
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -422,7 +426,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 			mi.previousQueuedValue = v
 		}
 	}
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 func (mi *DataChangeMonitoredItem) isDataChange(current, previous ua.DataValue) bool {
diff --git a/server/event_monitored_item.go b/server/event_monitored_item.go
index b0d0464..3f4c7cf 100644
--- a/server/event_monitored_item.go
+++ b/server/event_monitored_item.go
@@ -29,7 +29,7 @@ type EventMonitoredItem struct {
 	sub              *Subscription
 	srv              *Server
 	triggeredItems   []MonitoredItem
-	triggered        bool
+	triggered        atomic.Bool // apart from the lock, so that items may trigger each other
 }
 
 // NewEventMonitoredItem constructs a new EventMonitoredItem.
@@ -100,16 +100,12 @@ func (mi *EventMonitoredItem) ClientHandle() uint32 {
 
 // Triggered returns true when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) Triggered() bool {
-	mi.RLock()
-	defer mi.RUnlock()
-	return mi.triggered
+	return mi.triggered.Load()
 }
 
 // SetTriggered sets when the MonitoredItem is triggered.
 func (mi *EventMonitoredItem) SetTriggered(val bool) {
-	mi.Lock()
-	defer mi.Unlock()
-	mi.triggered = val
+	mi.triggered.Store(val)
 }
 
 // Modify modifies the MonitoredItem.
@@ -333,8 +329,8 @@ func (mi *EventMonitoredItem) notifications(max int) (notifications []any, more
 		}
 	}
 	more = mi.queue.Len() > 0
-	if mi.triggered && !more {
-		mi.triggered = false
+	if !more {
+		mi.triggered.Store(false)
 		// log.Printf("Reset triggered %d", mi.id)
 	}
 	return notifications, more
@@ -349,14 +345,19 @@ func (mi *EventMonitoredItem) notificationsAvailable(tn time.Time, late bool, re
 		return false
 	}
 
-	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered)
+	return mi.queue.Len() > 0 && (mi.monitoringMode == ua.MonitoringModeReporting || mi.triggered.Load())
 }
 
 // AddTriggeredItem adds a item to be triggered by this item.
 func (mi *EventMonitoredItem) AddTriggeredItem(item MonitoredItem) bool {
 	mi.Lock()
+	defer mi.Unlock()
+	for _, e := range mi.triggeredItems {
+		if e.ID() == item.ID() {
+			return true
+		}
+	}
 	mi.triggeredItems = append(mi.triggeredItems, item)
-	mi.Unlock()
 	return true
 }
 
-- 
2.43.0


From 9c90cc0c0b17b5af637c70b9927be9363c955359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:59 +0000
Subject: [PATCH 54/63] fix: monitored items keep reporting, and the server
 keeps running, when the wall clock jumps

---
 server/datachange_monitored_item.go | 35 +++++++++++++++++++++--------
 server/subscription.go              |  6 ++---
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/server/datachange_monitored_item.go b/server/datachange_monitored_item.go
index d3d0833..6af1d7c 100644
--- a/server/datachange_monitored_item.go
+++ b/server/datachange_monitored_item.go
@@ -33,13 +33,30 @@ type DataChangeMonitoredItem struct {
 	previousQueuedValue ua.DataValue
 	sub                 *Subscription
 	srv                 *Server
-	prequeue            deque.Deque[ua.DataValue]
+	prequeue            deque.Deque[sample]
 	ts                  time.Time
 	ti                  time.Duration
 	triggeredItems      []MonitoredItem
 	triggered           atomic.Bool // apart from the lock, so that items may trigger each other
 }
 
+// sample is a value that has been sampled, and when.
+type sample struct {
+	value ua.DataValue
+	at    time.Time
+}
+
+// newSample returns a sample of the value. The time of the sample is that of the server's timestamp, but on
+// the monotonic clock, so that the value is reported whatever becomes of the wall clock.
+func newSample(value ua.DataValue) sample {
+	now := time.Now()
+	age := now.Sub(value.ServerTimestamp)
+	if age < 0 {
+		age = 0
+	}
+	return sample{value: value, at: now.Add(-age)}
+}
+
 // NewDataChangeMonitoredItem constructs a new DataChangeMonitoredItem.
 func NewDataChangeMonitoredItem(sub *Subscription, node Node, itemToMonitor ua.ReadValueID, monitoringMode ua.MonitoringMode, parameters ua.MonitoringParameters, timestampsToReturn ua.TimestampsToReturn, minSamplingInterval float64) *DataChangeMonitoredItem {
 	mi := &DataChangeMonitoredItem{
@@ -54,7 +71,7 @@ func NewDataChangeMonitoredItem(sub *Subscription, node Node, itemToMonitor ua.R
 		timestampsToReturn:  timestampsToReturn,
 		minSamplingInterval: minSamplingInterval,
 		queue:               deque.Deque[ua.DataValue]{},
-		prequeue:            deque.Deque[ua.DataValue]{},
+		prequeue:            deque.Deque[sample]{},
 		previousQueuedValue: ua.NewDataValue(nil, ua.BadWaitingForInitialData, time.Time{}, 0, time.Time{}, 0),
 	}
 	mi.setQueueSize(parameters.QueueSize)
@@ -258,7 +275,7 @@ func (mi *DataChangeMonitoredItem) startMonitoring() {
 		return
 	}
 	v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
-	mi.prequeue.PushBack(v)
+	mi.prequeue.PushBack(newSample(v))
 	mi.Unlock()
 	mi.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Subscribe(mi)
 	mi.Lock()
@@ -279,7 +296,7 @@ func (mi *DataChangeMonitoredItem) Poll() {
 	mi.Lock()
 	if n := mi.node; n != nil && mi.monitoringMode != ua.MonitoringModeDisabled {
 		v := mi.srv.readValue(mi.sub.session, mi.itemToMonitor)
-		mi.prequeue.PushBack(v)
+		mi.prequeue.PushBack(newSample(v))
 	}
 	mi.Unlock()
 }
@@ -392,12 +409,12 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 				// peek
 				peek := mi.prequeue.Front()
 				// if timestamp is within sampling interval
-				if !peek.ServerTimestamp.After(mi.ts) {
-					v = peek
+				if !peek.at.After(mi.ts) {
+					v = peek.value
 					mi.prequeue.PopFront()
-					// log.Printf("Peek at %s take %s", mi.ts.Format(time.StampMilli), peek.ServerTimestamp.Format(time.StampMilli))
+					// log.Printf("Peek at %s take %s", mi.ts.Format(time.StampMilli), peek.at.Format(time.StampMilli))
 				} else {
-					// log.Printf("Peek at %s leave %s", mi.ts.Format(time.StampMilli), peek.ServerTimestamp.Format(time.StampMilli))
+					// log.Printf("Peek at %s leave %s", mi.ts.Format(time.StampMilli), peek.at.Format(time.StampMilli))
 					break
 				}
 			}
@@ -412,7 +429,7 @@ func (mi *DataChangeMonitoredItem) notificationsAvailable(tn time.Time, late boo
 	} else {
 		// for each value in prequeue
 		for mi.prequeue.Len() > 0 {
-			v := mi.prequeue.PopFront()
+			v := mi.prequeue.PopFront().value
 			if mi.isDataChange(v, mi.previousQueuedValue) {
 				mi.enqueue(withTimestamps(v, mi.timestampsToReturn))
 				mi.previousQueuedValue = v
diff --git a/server/subscription.go b/server/subscription.go
index 5fd8949..58b285e 100644
--- a/server/subscription.go
+++ b/server/subscription.go
@@ -315,7 +315,7 @@ func (s *Subscription) startPublishing() {
 				ticker.Stop()
 				return
 			case t := <-ticker.C:
-				f(t.UTC())
+				f(t)
 			}
 		}
 	}(s.cancelPublishing, time.Duration(int64(s.publishingInterval))*time.Millisecond, s.publish)
@@ -401,7 +401,7 @@ func (s *Subscription) publish(tn time.Time) error {
 			}
 			nm := ua.NotificationMessage{
 				SequenceNumber:   s.nextSequenceNumber,
-				PublishTime:      tn,
+				PublishTime:      tn.UTC(),
 				NotificationData: nd,
 			}
 			q := s.retransmissionQueue
@@ -600,7 +600,7 @@ func (s *Subscription) handleLatePublishRequest(ch *serverSecureChannel, request
 		}
 		nm := ua.NotificationMessage{
 			SequenceNumber:   s.nextSequenceNumber,
-			PublishTime:      tn,
+			PublishTime:      tn.UTC(),
 			NotificationData: nd,
 		}
 		q := s.retransmissionQueue
-- 
2.43.0


From eecfd0890c0f232a7ceaf9a239a1e74d90035fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:59 +0000
Subject: [PATCH 55/63] fix: an event reaches every notifier above its source,
 also when there are several

---
 server/namespace_manager.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/server/namespace_manager.go b/server/namespace_manager.go
index 5737508..94b7f19 100644
--- a/server/namespace_manager.go
+++ b/server/namespace_manager.go
@@ -597,27 +597,31 @@ func (m *NamespaceManager) GetChildren(node Node, uris []string, withRefTypes []
 	return children
 }
 
-// OnEvent raises the event, starting from the target node, follows HasNotifier references until the Server node.
+// OnEvent raises the event, starting from the target node, follows all HasNotifier references until the Server node.
 func (m *NamespaceManager) OnEvent(target *ObjectNode, evt ua.Event) error {
-	for target.nodeID != ua.ObjectIDServer {
+	var err error
+	seen := map[ua.NodeID]bool{target.nodeID: true}
+	for targets := []*ObjectNode{target}; len(targets) > 0; {
+		target, targets = targets[0], targets[1:]
 		target.OnEvent(evt)
-		found := false
+		if target.nodeID == ua.ObjectIDServer {
+			continue
+		}
 		for _, r := range target.References() {
 			if r.IsInverse && r.ReferenceTypeID == ua.ReferenceTypeIDHasNotifier {
-				if target1, ok1 := m.FindObject(ua.ToNodeID(r.TargetID, m.NamespaceUris())); ok1 {
-					found = true
-					target = target1
-					break
+				target1, ok1 := m.FindObject(ua.ToNodeID(r.TargetID, m.NamespaceUris()))
+				if !ok1 {
+					err = ua.BadNodeIDUnknown
+					continue
+				}
+				if !seen[target1.nodeID] {
+					seen[target1.nodeID] = true
+					targets = append(targets, target1)
 				}
-				return ua.BadNodeIDUnknown
 			}
 		}
-		if !found {
-			return nil
-		}
 	}
-	target.OnEvent(evt)
-	return nil
+	return err
 }
 
 // Any returns true if the given function returns true for any of the given nodes.
-- 
2.43.0


From a753240ffad2977e6d8527cbd47692448c7976b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:35 +0000
Subject: [PATCH 56/63] fix: a variable made historizing by a client crashed a
 server without historian

---
 server/variable_node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/variable_node.go b/server/variable_node.go
index c080b32..e09121d 100644
--- a/server/variable_node.go
+++ b/server/variable_node.go
@@ -148,7 +148,7 @@ func (n *VariableNode) updateValue(f func(ua.DataValue) (ua.DataValue, ua.Status
 // setValue sets the value of the Variable, with the lock held.
 func (n *VariableNode) setValue(value ua.DataValue) {
 	n.value = value
-	if n.historizing {
+	if n.historizing && n.historian != nil {
 		n.historian.WriteValue(context.Background(), n.nodeId, value)
 	}
 }
-- 
2.43.0


From bfefc9570cd629413af250e85ecf56a30229021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 57/63] fix: the client takes only the response of the service
 it requested

A response of another service, also a ServiceFault with a good result,
crashed the client in the type assertion of the service call.
---
 client/client_secure_channel.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 529302a..6e65007 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -23,6 +23,7 @@ import (
 	"net"
 	"net/url"
 	"reflect"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -275,9 +276,18 @@ func (ch *clientSecureChannel) Request(ctx context.Context, req ua.ServiceReques
 	if sr := res.Header().ServiceResult; sr != ua.Good {
 		return nil, sr
 	}
+	if !isResponseTo(req, res) {
+		return nil, ua.BadUnknownResponse
+	}
 	return res, nil
 }
 
+// isResponseTo reports whether the response is of the service that was requested.
+func isResponseTo(req ua.ServiceRequest, res ua.ServiceResponse) bool {
+	service := strings.TrimSuffix(reflect.TypeOf(req).Elem().Name(), "Request")
+	return reflect.TypeOf(res).Elem().Name() == service+"Response"
+}
+
 // Open opens the channel.
 func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 	ch.Lock()
-- 
2.43.0


From 79f9fad1cac254958259e77eadc826a67aacf8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 58/63] fix: a server certificate without an RSA key crashed
 the client

---
 client/client_secure_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 6e65007..41b6ad3 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -190,7 +190,7 @@ func newClientSecureChannel(
 		trace:                                trace,
 	}
 	if certs, err := x509.ParseCertificates(ch.remoteCertificate); err == nil && len(certs) > 0 {
-		ch.remotePublicKey = certs[0].PublicKey.(*rsa.PublicKey)
+		ch.remotePublicKey, _ = certs[0].PublicKey.(*rsa.PublicKey)
 		ch.remoteThumbprint = sha1.Sum(certs[0].Raw)
 	}
 	return ch
-- 
2.43.0


From 0ea6a7e5e34dcee8b20f89fa08ce74d1f78fc689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 59/63] fix: the client takes an Acknowledge with a sane
 receive buffer only

A buffer smaller than a chunk's headers crashed the client on its first
request, one larger than its own made it write beyond its buffers.
---
 client/client_secure_channel.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 41b6ad3..fa314d1 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -47,6 +47,8 @@ const (
 	protocolVersion uint32 = 0
 	// defaultMaxBufferSize is the default limit on the size of the send and receive buffers.
 	defaultMaxBufferSize uint32 = 64 * 1024
+	// minBufferSize is the smallest buffer that a server may offer.
+	minBufferSize uint32 = 8192
 	// defaultMaxMessageSize is the default limit on the size of messages that may be accepted.
 	defaultMaxMessageSize uint32 = 64 * 1024 * 1024
 	// defaultMaxChunkCount is the default limit on the number of message chunks that may be accepted.
@@ -393,9 +395,16 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 			return ua.BadProtocolVersionUnsupported
 		}
 		// read the remote receiveBufferSize into the local sendBufferSize
-		if err := dec.ReadUInt32(&ch.sendBufferSize); err != nil {
+		var remoteReceiveBufferSize uint32
+		if err := dec.ReadUInt32(&remoteReceiveBufferSize); err != nil {
 			return err
 		}
+		if remoteReceiveBufferSize < minBufferSize {
+			return ua.BadTCPInternalError
+		}
+		if ch.sendBufferSize > remoteReceiveBufferSize {
+			ch.sendBufferSize = remoteReceiveBufferSize
+		}
 		// read the remote sendBufferSize into the local receiveBufferSize
 		if err := dec.ReadUInt32(&ch.receiveBufferSize); err != nil {
 			return err
-- 
2.43.0


From 8f6aa41e6c2aae44aa7a9f87d4bd32090c8e1661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 60/63] fix: the client rejects an endpoint whose security mode
 contradicts its policy

---
 client/client_secure_channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index fa314d1..874cf40 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -437,6 +437,11 @@ func (ch *clientSecureChannel) Open(ctx context.Context) (err error) {
 		return ua.BadDecodingError
 	}
 
+	// a security mode needs a security policy, and the other way round.
+	if (ch.securityPolicyURI == ua.SecurityPolicyURINone) != (ch.securityMode == ua.MessageSecurityModeNone) {
+		return ua.BadSecurityModeRejected
+	}
+
 	// setSecurityPolicy
 	switch ch.securityPolicyURI {
 	case ua.SecurityPolicyURINone:
-- 
2.43.0


From 4539e34d0bcada8151c23b5044f6125c3c02159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 61/63] fix: an error message with a good status code crashed
 the client

---
 client/client_secure_channel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index 874cf40..d5b923f 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -1713,7 +1713,10 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 			if err = decoder.ReadString(&unused); err != nil {
 				return nil, ua.BadDecodingError
 			}
-			return nil, ua.StatusCode(statusCode)
+			if code := ua.StatusCode(statusCode); code != ua.Good {
+				return nil, code
+			}
+			return nil, ua.BadSecureChannelClosed
 
 		default:
 			return nil, ua.BadUnknownResponse
-- 
2.43.0


From caa311870be4368ecf2eea8b852573b34a8c5244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:22 +0000
Subject: [PATCH 62/63] fix: a security token with id 0 crashed the client

---
 client/client_secure_channel.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/client_secure_channel.go b/client/client_secure_channel.go
index d5b923f..692ac1c 100644
--- a/client/client_secure_channel.go
+++ b/client/client_secure_channel.go
@@ -903,7 +903,7 @@ func (ch *clientSecureChannel) sendCloseSecureChannelRequest(ctx context.Context
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		if ch.tokenID != ch.sendingTokenID {
+		if ch.tokenID != ch.sendingTokenID || ch.symSignHMAC == nil {
 			ch.sendingTokenID = ch.tokenID
 
 			switch ch.securityMode {
@@ -1352,7 +1352,7 @@ func (ch *clientSecureChannel) sendServiceRequest(ctx context.Context, request u
 		encoder.WriteUInt32(ch.tokenID)
 
 		// detect new TokenId
-		if ch.tokenID != ch.sendingTokenID {
+		if ch.tokenID != ch.sendingTokenID || ch.symSignHMAC == nil {
 			ch.sendingTokenID = ch.tokenID
 
 			switch ch.securityMode {
@@ -1514,7 +1514,7 @@ func (ch *clientSecureChannel) readResponse() (ua.ServiceResponse, ua.StatusCode
 
 			// detect new token
 			ch.tokenLock.RLock()
-			if tokenID != ch.receivingTokenID {
+			if tokenID != ch.receivingTokenID || ch.symVerifyHMAC == nil {
 				ch.receivingTokenID = tokenID
 
 				switch ch.securityMode {
-- 
2.43.0


From 2ee453ed6a0152de2e7ec99ee2df7d58306257f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 63/63] fix: a namespace or server array of another type
 crashed the client

---
 client/client.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 0e739b7..8ad74b1 100644
--- a/client/client.go
+++ b/client/client.go
@@ -732,13 +732,15 @@ func (ch *Client) open(ctx context.Context) error {
 	}
 	if len(readResponse.Results) == 2 {
 		if readResponse.Results[0].StatusCode.IsGood() {
-			value := readResponse.Results[0].Value.([]string)
-			ch.channel.SetNamespaceURIs(value)
+			if value, ok := readResponse.Results[0].Value.([]string); ok {
+				ch.channel.SetNamespaceURIs(value)
+			}
 		}
 
 		if readResponse.Results[1].StatusCode.IsGood() {
-			value := readResponse.Results[1].Value.([]string)
-			ch.channel.SetServerURIs(value)
+			if value, ok := readResponse.Results[1].Value.([]string); ok {
+				ch.channel.SetServerURIs(value)
+			}
 		}
 	}
 	return nil
-- 
2.43.0

