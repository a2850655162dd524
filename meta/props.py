prop("P01", "Every request gets exactly one response, its own, with results in order",
 "On a connection that stays up, every request a client sends is answered exactly once, and the answer carries that request's identifiers, is of the kind the request calls for, and holds one result per item in the order asked. A method call that is answered Good has run exactly once, and one that was never answered has run at most once. This holds for any number of clients, requests in flight on a connection and worker threads, and for the library's own client as well as for other clients.",
 ["schedules","inputs","fault_sequences","configurations"],
 "any interleaving of clients, connections, worker threads and publishing timers; any mix of services in flight; connections that stall or drop at any byte",
 "The tests send one request at a time and wait for it, on one schedule; mixing up responses, results or calls needs several in flight and particular interleavings of the workers.",
 ["server/server.go","server/server_service_set.go","server/server_secure_channel.go","client/client_secure_channel.go"],
 [("request loop and dispatch","server/server.go requestWorker, handleRequest"),("fan-out of items to the worker pool","server/server_service_set.go handleRead, handleWrite, handleCall"),("matching responses to callers","client/client_secure_channel.go handleResponse")],
 ["the wire, at an independent client","the client API","counters in the simulated application's methods"],
 "1-4 real or wire-level clients, up to 90 operations a run, all services that need no history; seeded search, not exhaustive")
prop("P12", "Reads and writes of a variable are linearizable and values arrive unchanged",
 "Concurrent reads and writes of a variable's value, whole or of an index range, by any clients and by the server's application, behave as if each took effect at one instant between its start and its answer: no acknowledged write is lost, no read returns a mix of writes or a value that was never current, and a rejected write changes nothing. A value that was accepted is read back equal, with its type and shape, and with the timestamps asked for.",
 ["schedules","inputs","histories","fault_sequences"],
 "any interleaving of readers and writers over any number of sessions, whole values and ranges, scalars, arrays and matrices of all built-in types, dropped and stalled connections",
 "The tests write and read sequentially from one client; lost updates and torn values need particular interleavings of two writers.",
 ["server/server_service_set.go","server/variable_node.go","ua/binary_encoder.go","ua/binary_decoder.go"],
 [("read-modify-write of a range","server/server_service_set.go writeValue, writeRange; server/variable_node.go updateValue"),("range of a read","server/server_service_set.go readRange"),("type and rank checks","server/server_service_set.go writeValue")],
 ["the wire, at an independent client","the node's value in the server application"],
 "linearizability decided per variable by search over the recorded history; 2-4 clients plus the application, up to 80 operations a run")
prop("P08", "Notifications are numbered without gaps and recoverable until acknowledged",
 "Each subscription numbers its notification messages 1, 2, 3, ... without a gap or a reuse, and a keep-alive carries the number of the next message. A message stays available for Republish, with the content first sent, until the client acknowledges it or the retransmission queue is full, and the available numbers listed in each Publish response are exactly those. Every acknowledgement gets its own result: Good once for a message that was available, an error for an unknown one. So a client that loses its connection at any byte and reconnects to the session recovers every notification, exactly once and in order, whatever other subscriptions share the session.",
 ["schedules","histories","fault_sequences","crash_points"],
 "any interleaving of publishing timers, Publish, Republish and acknowledgements; connections cut or stalled at any byte; publishing disabled, subscriptions added, changed and removed meanwhile",
 "The tests receive a few notifications on a healthy connection and never republish; gaps and reuse appear only when a send fails or an acknowledgement races with the publishing timer.",
 ["server/subscription.go","server/session.go","server/server_service_set.go"],
 [("publishing timer and numbering","server/subscription.go publish"),("retransmission queue","server/subscription.go republish, acknowledge"),("waiting Publish requests","server/session.go addPublishRequest; server/server_service_set.go handlePublish")],
 ["the wire, at an independent client"],
 "1-2 clients, 1-3 subscriptions each, up to 50 (thorough 120) steps a run, connections cut and restored")
prop("P09", "A monitored item reports every change its settings call for, once and in order",
 "For each monitored item in Reporting mode, the client receives the value the item had when it was created and then exactly those later changes that its trigger, deadband and filter select, each once, in the order they happened, carrying the value, status and timestamps of the change and the client handle in force. When more changes are pending than the queue holds, the oldest are discarded if discardOldest is set, otherwise the newest is replaced, and the overflow bit marks the value next to the gap; nothing is discarded while there is room. This holds whichever application threads and clients write the variable, at whatever moments relative to sampling and publishing, and while items are modified.",
 ["schedules","inputs","histories","configurations"],
 "any interleaving of writers, sampling and publishing timers and item changes; all triggers, deadbands, queue sizes, sampling and publishing intervals",
 "The tests look at a few notifications of slow changes; lost, repeated or reordered values need changes that race with sampling, publishing or another change.",
 ["server/datachange_monitored_item.go","server/subscription.go","server/variable_node.go"],
 [("sampling, filter and queue","server/datachange_monitored_item.go"),("collecting notifications","server/subscription.go publish"),("value changes","server/variable_node.go SetValue")],
 ["the wire, at an independent client","the sequence of changes made by the simulated application"],
 "1-3 variables, up to 12 items with every kind of trigger, deadband and queue, scalars and arrays; up to 60 changes a run")
prop("P10", "An event reaches every item it is meant for, once, in order, with its fields",
 "An event the application raises at an object is reported exactly once to every event item on that object and on each notifier above it, up to the Server object, if the item's filter selects the event, and to no other item. Items report events in the order they were raised, with exactly the fields selected. While an item is modified, is switched between Sampling and Reporting, or its client reconnects, no event is lost; raising events never blocks on such changes. When a queue is full, the oldest or the newest is discarded as asked.",
 ["schedules","inputs","histories","fault_sequences"],
 "any interleaving of threads raising events with the creation, change, disabling and deletion of items and with publishing; filters without and with OfType, Equals and nested elements; cut connections",
 "The tests wait for one event on a quiet server; losing an event, or blocking for ever, needs an item changed at the moment an event passes.",
 ["server/event_monitored_item.go","server/object_node.go","server/namespace_manager.go","server/subscription.go"],
 [("propagation along HasNotifier","server/namespace_manager.go OnEvent; server/object_node.go OnEvent"),("filter and queue","server/event_monitored_item.go OnEvent, whereClause, enqueue"),("collecting notifications","server/subscription.go publish")],
 ["the wire, at an independent client","the sequence of events raised by the simulated application"],
 "1-3 raising threads, 1-2 clients, up to 14 items, up to 300 events a run")
prop("P11", "Keep-alives and expiry of subscriptions keep to the revised times",
 "While Publish requests are available, each subscription sends a first message within its first publishing interval and from then on never stays silent for longer than its revised keep-alive count times its revised publishing interval; a keep-alive is sent only when there is nothing to report, and not earlier than that count. A subscription for which no Publish request is available lives for its revised lifetime count of publishing intervals, not shorter, and is then deleted; its session is told once with a BadTimeout status change. Any Publish response it sends, Republish, ModifySubscription or SetPublishingMode starts that time again. Revised values are consistent: lifetime at least three times the keep-alive count.",
 ["schedules","inputs","histories","configurations","fault_sequences"],
 "any publishing intervals, counts and numbers of waiting Publish requests; requests that arrive at any moment relative to the timers; connections that break; steps of the wall clock; several subscriptions in a session",
 "The tests run for seconds against the real clock; keep-alive and lifetime bounds are about minutes, and their errors show where a request meets a timer.",
 ["server/subscription.go","server/session.go","server/server_service_set.go"],
 [("counters and timer","server/subscription.go publish, handleLatePublishRequest"),("revision of the counts","server/subscription.go setLifetimeCount, setMaxKeepAliveCount")],
 ["the wire, at an independent client, with simulated time"],
 "1-3 subscriptions, publishing intervals 125 ms to 10 s, up to 20 simulated minutes a run; slack of one interval and 2.5 s for injected delays")
prop("P17", "Sessions and subscriptions end cleanly and give back all they held",
 "A session or subscription can end by deletion, CloseSession, expiry, a lost connection or a move to another channel, at any moment and several of these at once: the server never crashes or blocks, other clients are not disturbed, and afterwards nothing is left of it: no sampling, no diagnostics nodes, no counts. The configured maximum number of sessions and subscriptions can be used in full at any time, is never exceeded, and identifiers are not used again.",
 ["schedules","histories","fault_sequences","configurations"],
 "any interleaving of deletion, closing, expiry, modification, publishing and diagnostics reads; connections cut at any byte; any limits",
 "The tests close everything in order; a panic or deadlock needs a subscription that expires in the microseconds in which it is deleted, and leaks show only after many lives.",
 ["server/subscription.go","server/subscription_manager.go","server/session_manager.go","server/session.go","server/server_service_set.go"],
 [("deletion of a subscription","server/subscription.go Delete, deleteImpl, publish; server/subscription_manager.go"),("end of a session","server/session_manager.go Delete, checkForExpiredSessions; server/server_service_set.go handleCloseSession"),("monitored items","server/datachange_monitored_item.go Delete; server/scheduler.go")],
 ["the wire, at independent clients","read handlers of the simulated application","diagnostics nodes and summary"],
 "1-4 clients, up to 3 (thorough 7) session lives each, operations aimed at the moment of expiry to the microsecond")
prop("P15", "A client that stalls, stays silent or fails does not hold up the others",
 "Clients that stop reading, send half a message, say nothing after connecting, do not answer a handshake, send byte by byte or break off at any point delay nobody else beyond a fixed short time: other clients read, write, call, browse, connect, subscribe and receive their notifications, also about what the stalled client shares with them. The server gives up on such a connection after bounded time, and what its sessions held becomes available again. A failed accept, such as for lack of file descriptors, does not end the service.",
 ["schedules","fault_sequences","histories","configurations"],
 "any number of stalled, silent or failing connections, stalled at any byte in any state, with or without subscriptions that have much to send; any security policy; failing accepts",
 "The tests' clients always read at once; a held lock shows only when a peer's window is full in the moment another client needs the same lock.",
 ["server/server.go","server/server_secure_channel.go","server/subscription.go","server/session.go","server/subscription_manager.go"],
 [("accept loop and handshake","server/server.go serve, handleConnection; server/server_secure_channel.go Open"),("writing to a connection","server/server_secure_channel.go Write, write"),("locks held while writing","server/subscription.go publish, Delete; server/session.go addPublishRequest")],
 ["the wire, at the clients that behave","connections the server closes","times at which answers and notifications arrive"],
 "1-2 clients at work, 1-4 stalled or failing ones in 13 ways, windows of 16-256 KiB; up to 40 (thorough 120) operations")
prop("P18", "Close ends the service completely, whatever is under way",
 "Close may be called at any moment, before serving, repeatedly and by several goroutines: it returns, and ListenAndServe returns BadServerHalted, within bounded time, whatever clients, methods, subscriptions, handshakes and stalled connections are under way. Until the announced end requests are still answered, and answered correctly. Afterwards the server listens on nothing, all its connections are closed, clients learn that they have ended, no goroutine of the server is left, and setting a variable or raising an event still returns.",
 ["schedules","histories","fault_sequences","crash_points"],
 "any moment of closing relative to connecting, handshakes, requests, method calls, publishing and other Close calls; any state of the connections",
 "The tests close an idle server once; a panic, a hang or a leaked goroutine needs Close to meet other work in a particular state.",
 ["server/server.go","server/server_secure_channel.go","server/subscription_manager.go","server/scheduler.go","server/session_manager.go"],
 [("closing","server/server.go Close, ListenAndServe, serve"),("publishing","server/subscription_manager.go; server/subscription.go stopPublishing"),("background work","server/scheduler.go; server/session_manager.go")],
 ["return values and times of Close and ListenAndServe","the connections and listeners of the simulated network","the goroutines left","answers received until the end"],
 "1-4 clients (raw or the library's own), up to 5 half-open connections, 1-3 closers; up to 40 (thorough 120) operations")
prop("P23", "Every Publish request is answered once, in order, within its time",
 "Publish requests queue per session and are used in the order they came, by any subscription of the session that has something to send. Each is answered exactly once: with a notification or keep-alive, with BadTimeout when its timeout hint has passed (never earlier, whatever the client's clock says), with BadTooManyPublishRequests for the oldest when more wait than the server allows, with BadNoSubscription when the session has no subscription left and no status change to report, and with BadSessionClosed when the session is closed. A request answered by a subscription carries the results of its own acknowledgements. Requests of one session never serve another.",
 ["schedules","histories","inputs","fault_sequences"],
 "any number of waiting requests and subscriptions, any hints and client clocks, requests racing with publishing timers, deletion of the last subscription, session closing and reconnection",
 "The tests keep one request waiting on one subscription; unanswered or doubly used requests need several requests and subscriptions and particular moments.",
 ["server/session.go","server/subscription.go","server/server_service_set.go"],
 [("queue of waiting requests","server/session.go addPublishRequest, removePublishRequest"),("Publish service","server/server_service_set.go handlePublish"),("late requests","server/subscription.go handleLatePublishRequest")],
 ["the wire, at independent clients"],
 "1-3 sessions with up to 3 subscriptions, up to 120 requests waiting, client clocks up to years off")
prop("P02", "No input from a peer crashes the server, hangs it or disturbs other clients",
 "Whatever bytes a peer sends at whatever stage (Hello, OpenSecureChannel, session set-up, any service request on any channel, with any lengths, types, nesting, identifiers, continuation points, filters or certificates, complete or cut short), the server does not crash, does not block and does not use memory out of proportion to the bytes received. The peer gets a response or has its connection closed. Meanwhile an honest client's session keeps being served correctly and its data stays intact, and new clients can connect.",
 ["inputs","schedules","fault_sequences","histories"],
 "any bytes on the wire at any stage of the protocol, by several peers at once, next to an honest client; every service with hostile arguments; every security policy",
 "The tests only send what the library's own client would send; each crash needs a particular malformed length, index, nesting or state.",
 ["server/server_secure_channel.go","server/server_service_set.go","server/server.go","server/session.go","server/event_monitored_item.go","ua/binary_decoder.go"],
 [("Hello, chunks, headers and signatures","server/server_secure_channel.go Open, readRequest"),("lengths, dimensions and nesting","ua/binary_decoder.go"),("service arguments","server/server_service_set.go handle*; server/event_monitored_item.go whereClause")],
 ["an honest client on the wire during and after the attack","the server process itself (a panic, a deadlock or exhausted memory)"],
 "1-3 hostile peers, 4-14 (thorough 40) attacks each, built by mutation of valid messages and by filling request structures with hostile values; memory bounded to 1 GB per attack and 3 GB in all")
prop("P05", "Only an activated session is served, as the user who proved his identity last",
 "A service that needs a session is carried out only for the authentication token of a session that is activated, alive and bound to the channel the request arrives on; otherwise it is refused and has no effect. An activation succeeds with the server's current nonce and valid proofs (client signature, password, user certificate and signature, anonymous if allowed) and only with them: wrong, missing, replayed or foreign proofs, and another application's certificate, are refused and leave the session, its user and its channel as they were. After concurrent activations the session is served on one channel, as the user who activated it there. Tokens and nonces are unpredictable and never repeat.",
 ["schedules","inputs","histories","configurations"],
 "every service; every security policy and mode; all kinds of identity tokens; forged, closed, expired, foreign and stale tokens and proofs; any interleaving of activations on several channels",
 "The tests activate one session after another with good credentials; a missing check shows only with a forged proof, and mixed activations only in an interleaving of two.",
 ["server/server_service_set.go","server/session.go","server/session_manager.go","server/server_secure_channel.go"],
 [("activation","server/server_service_set.go handleActivateSession; server/session.go activate"),("session and channel check","server/server_service_set.go handle*; server/session_manager.go Get"),("discovery-only channels","server/server_secure_channel.go discoveryOnly")],
 ["the wire, at an independent client","effects in the simulated application (method calls, writes)"],
 "1-3 concurrent actors, up to 9 (thorough 24) scenarios a run; a request already accepted when another activation completes may still see either user")
prop("P07", "A session cannot use, see or change what belongs to another session",
 "Subscriptions, monitored items, notifications and browse continuation points belong to the session that created them. A request of another session that names their identifiers is refused and has no effect: it cannot add, change, trigger or delete items, modify or delete the subscription, acknowledge or fetch its notifications, continue a browse or take anything over; and each session receives exactly the notifications of its own items. A request with the authentication token of a session on a channel that is not its own has no effect on that session.",
 ["schedules","histories","inputs","configurations"],
 "any interleaving of two or three sessions that use each other's identifiers in every service that takes one, with every security policy, while the owners' subscriptions run, change and end",
 "The tests run one session at a time; that an identifier of another session is refused, and that nothing crosses over, needs several sessions with live subscriptions and identifiers guessed across them.",
 ["server/server_service_set.go","server/session.go","server/subscription.go","server/subscription_manager.go"],
 [("owner of a subscription","server/server_service_set.go handle*Subscription*, handle*MonitoredItems, handleSetTriggering, handleRepublish, handlePublish"),("continuation points","server/session.go addBrowseContinuationPoint, removeBrowseContinuationPoint"),("binding of session and channel","server/session_manager.go Get; server/server_service_set.go handle*")],
 ["the wire, at independent clients","the notifications every owner receives"],
 "2-3 sessions with 1-2 subscriptions, 8-24 (thorough 60) cross-session operations a run")
prop("P20", "An operation on a node succeeds exactly when the user's roles permit it",
 "Read, write, method call, browse, translation of browse paths, history read, data and event items on a node are carried out exactly when the session's current user has the permission for it: a role the identity mapping rules give that user has the permission in the node's (or, without any, the server's default) role permissions, and the node's access level or executable flag allows it. A refused operation has no effect, reveals neither value nor references, and fails alone: the other items of the request are served. Changing the session's user, a node's permissions or the access level takes effect for the next request, and a data item reports no values a later user may not read.",
 ["configurations","inputs","histories","schedules"],
 "any assignment of permissions to roles and nodes, any mapping rules and users, every service on nodes, requests that mix permitted and refused items, several sessions at once, changes of user and permissions meanwhile",
 "The tests use two users and one node; the combinations of rules, roles, permissions, services and users are far more than a test lists, and changes of user race with requests and sampling.",
 ["server/server_service_set.go","server/roles_provider.go","server/session.go","server/datachange_monitored_item.go","server/variable_node.go","server/method_node.go"],
 [("roles of a user","server/roles_provider.go GetRoles"),("permission of a node","server/session.go / server_service_set.go IsUserPermitted; UserRolePermissions of the node types"),("services","server/server_service_set.go handleRead, handleWrite, handleCall, handleBrowse, handleTranslateBrowsePathsToNodeIds, handleHistoryRead, handleCreateMonitoredItems")],
 ["the wire, at independent clients","effects in the simulated application (values, method calls)"],
 "5 users, 6 roles, 12 nodes with random permissions, 1-3 sessions; rules restricted to applications or endpoints do not match (the server evaluates roles without them); event items are checked when they are created")
prop("P03", "Nobody on the network can read, forge, alter, repeat or drop messages unnoticed",
 "On a channel with a security policy, whoever controls the network cannot make either side accept what the other did not send: messages or chunks that are forged, altered, shortened, lengthened, repeated, reordered, dropped, reflected, taken from another channel or from before, unsecured, or renewals by another party are not acted on, and after such interference no later message of the same direction is served as if nothing had happened: the channel ends. No request is carried out twice or in parts, no answer is taken for another. In mode SignAndEncrypt the contents are not readable on the wire. A channel is opened only by the holder of the private key of the presented (and, if so configured, trusted) certificate, with the policy and mode of an offered endpoint; nonces are fresh. Without interference nothing is refused.",
 ["fault_sequences","inputs","schedules","configurations"],
 "every security policy and mode; the library's own client and an independent one; any message of any stream tampered with in any of 15 ways at any moment, during renewals and multi-chunk messages",
 "The tests only exchange untouched messages; that an altered, replayed or dropped chunk is noticed needs somebody in the middle.",
 ["server/server_secure_channel.go","client/client_secure_channel.go","ua/security_policy.go"],
 [("verification of received chunks","server/server_secure_channel.go readRequest, Open; client/client_secure_channel.go readResponse"),("sequence numbers","server/server_secure_channel.go and client/client_secure_channel.go acceptSequenceNumber, getNextSequenceNumber"),("signing and encryption","server/server_secure_channel.go sendServiceResponse, sendOpenSecureChannelResponse; client/client_secure_channel.go send*Request")],
 ["both ends of the connection and the bytes between them","effects in the simulated application (method calls, values)"],
 "1-2 victims with up to 16 (thorough 40) requests and 8 (20) attacks, sequence numbers that wrap around included; the attacker does not break the cryptographic primitives; a closed connection is a legal reaction, a lost CloseSecureChannel is not noticed")
prop("P04", "Security tokens are renewed without disturbance and lapse when they are not",
 "While a channel is in use its security token is renewed as often as needed, at any moment relative to requests, responses and notifications under way: no request fails, is repeated or is answered wrongly, no notification is lost, and every message is secured with the keys of the token it names. After a renewal the server accepts the old token until the new one is used and from then on answers with the new one. The library's client renews by itself in time. A channel whose token is not renewed stops being served soon after the lifetime the server granted.",
 ["schedules","histories","configurations","fault_sequences"],
 "every security policy and mode; renewals meeting concurrent requests and publishing moments; renewals not used, repeated or delayed; steps of the wall clock; several workers on one channel",
 "Tokens live for at least five minutes, so no test renews one; a message secured with the wrong keys needs a renewal in the microseconds in which another message is built.",
 ["server/server_secure_channel.go","client/client_secure_channel.go"],
 [("taking the new token into use","server/server_secure_channel.go readRequest, sendServiceResponse"),("renewal","server/server_secure_channel.go handleOpenSecureChannel; client/client_secure_channel.go sendRequest, renewToken"),("lifetime","server/server_secure_channel.go tokenExpiration")],
 ["the wire, at an independent client, and the library's own client, with simulated time"],
 "1-2 clients with up to 5 concurrent callers, 2-5 (thorough 7) renewals, lifetimes of 5 to 7 minutes; lapse is checked at 1.25 lifetimes plus 20 s")
prop("P06", "A session lives exactly as long as its timeout allows, on whatever connection",
 "A session is served as long as the client uses it at least once within the granted timeout, even after its connection is lost: activated again on a new channel it continues with its user, subscriptions and data, and is not served on the old channel. A session not used for its timeout ends: it is not served or activated again, at the latest a few seconds later it is gone and its place is free, and a session that was never activated ends the same way. Only requests of the session count as use. Steps of the wall clock in either direction change none of this.",
 ["schedules","histories","fault_sequences","configurations"],
 "any sequence of use, silence, lost connections, resumption and clock steps, with requests aimed just before and after the end of the timeout; all security policies; several clients; any limit of sessions",
 "Timeouts are at least ten seconds and a test does not change the clock; expiry that is early, late or fooled by a clock step needs simulated time.",
 ["server/session_manager.go","server/session.go","server/server_service_set.go"],
 [("expiry","server/session.go IsExpired; server/session_manager.go Get, checkForExpiredSessions"),("resumption","server/server_service_set.go handleActivateSession"),("limit","server/session_manager.go Add")],
 ["the wire, at an independent client, with simulated time"],
 "1-3 clients, timeouts of 10 s to 3 minutes, up to 35 simulated minutes, clock steps of up to days; slack of 2.5 s for injected delays, 6 s for the removal")
prop("P13", "Browsing and path translation show exactly the references that exist",
 "Browse and BrowseNext together return every reference of the node that matches direction, reference type (with subtypes if asked), and node class mask, once, described as asked by the result mask, and nothing else, in pieces no longer than requested; a piece that ends early comes with a continuation point that yields the rest exactly once, stays valid until used, released or the session ends, and is refused afterwards. TranslateBrowsePathsToNodeIds returns exactly the nodes the path leads to. Each entry of a request is answered by itself. While the application adds and deletes nodes and trees (cyclic ones too), a reference that exists throughout is always reported and one that never existed is not; adding and deleting keeps forward and inverse references consistent and always ends.",
 ["schedules","inputs","histories"],
 "any address space of hubs with shared and cyclic references, any combination of directions, types, masks and piece sizes, several clients, nodes added and deleted at any moment between and during requests",
 "The tests browse a fixed address space; lost or repeated references need continuation under change, and dangling ones a deletion in the middle of a browse.",
 ["server/server_service_set.go","server/namespace_manager.go","server/session.go"],
 [("Browse and BrowseNext","server/server_service_set.go handleBrowse, handleBrowseNext; server/session.go addBrowseContinuationPoint"),("TranslateBrowsePathsToNodeIds","server/server_service_set.go follow, target"),("address space","server/namespace_manager.go AddNodes, DeleteNodes, DeleteNodeByIDRecursive, GetChildren, GetSubTypes, IsSubtype")],
 ["the wire, at independent clients, compared with a model of the address space"],
 "1-3 clients with up to 14 (thorough 40) operations on 3 hubs and up to 40 nodes; the order of the references is not judged")

prop("P19", "Messages of any size arrive whole; one that is too large is refused alone",
 "Within the buffer sizes, message sizes and chunk counts the two ends agree on, a request, response or notification of any size, including one that ends exactly at a chunk boundary, arrives complete and unchanged, in order with the others. A request, response or value that exceeds a limit or cannot be encoded fails alone and with a definite error: the connection, the session and every other request and notification go on. Neither end sends a chunk or message larger than the other accepts.",
 ["inputs","schedules","configurations"],
 "messages from a few bytes to beyond every limit, all security policies and modes, any agreed limits on either side, several requests at once, any segmentation of the stream",
 "The tests send small messages with default limits; boundaries need exact sizes per security policy, and a refusal must not disturb what else is under way.",
 ["server/server_secure_channel.go","client/client_secure_channel.go","server/subscription.go"],
 [("chunking","server/server_secure_channel.go sendServiceResponse; client/client_secure_channel.go sendServiceRequest"),("reassembly and limits","server/server_secure_channel.go readRequest, Open; client/client_secure_channel.go readResponse, Open")],
 ["the wire, at an independent client, and the library's own client"],
 "messages of up to a few hundred kilobytes; messages built to end exactly at, just below and just beyond each limit")
prop("P16", "Every client call ends by its deadline with a definite outcome",
 "Every call of the client, Dial, Close and Abort included, returns at the latest at the end of its context, or of its timeout hint if that comes first (the hint of the request, or else of the client), whatever the network and the server do: silence, a full pipe, a connection that is refused, lost or never answered, any number of other calls outstanding. A result it returns is its own; a method called once is run at most once, and exactly once when the call succeeds. When the connection is lost or the client aborted, the calls outstanding fail at once. A call that gave up while waiting for its answer harms no other: while the connection lasts, later calls succeed. A Dial that failed and a client that was closed leave no connection behind.",
 ["fault_sequences","schedules","histories"],
 "any sequence of calls (up to 60 at once) with any deadlines, hints and cancellations, and any partitions, stalls, full pipes, resets and unanswered or refused connections, at any moment of connecting, calling, renewing and closing",
 "The tests talk to a server that answers; a call that hangs needs a peer that goes silent at a particular point, and often many calls at once.",
 ["client/client_secure_channel.go","client/client.go","client/client_service_set.go"],
 [("deadlines and outstanding calls","client/client_secure_channel.go Request, sendRequest, handleResponse, renewToken"),("connecting and closing","client/client_secure_channel.go Open, Close, Abort; client/client.go Dial, Close; client/client_service_set.go GetEndpoints")],
 ["the library's own client, with simulated time and network"],
 "one client with up to 60 calls at once; slack of 2.5 s for injected delays; a Dial without a deadline has to end within 170 s")
prop("P24", "Monitoring modes and triggering links decide exactly what is reported",
 "A Reporting item reports what comes in, a Sampling item keeps the newest values its queue holds and reports them once and in order when an item linked to it receives a value or event, and never otherwise; a Disabled item reports and keeps nothing, and once enabled again starts with the current value. Links are added and removed singly, each with its own result; a link exists or not, however often it was added, and ends with either item. Items may trigger themselves and each other in any pattern, while values and events come in from other threads, without anything blocking. The counts of items and disabled items are exact.",
 ["schedules","histories","inputs","configurations"],
 "any sequence of creating, deleting, mode changes, links (also to itself, mutual, in cycles, repeated, unknown), writes and events; any queue sizes, intervals and limits of notifications per message; concurrent mode and link changes, events and writes",
 "The tests set a mode once and link two items; lost or unasked notifications and deadlocks need cycles of links, particular modes and several threads.",
 ["server/datachange_monitored_item.go","server/event_monitored_item.go","server/subscription.go","server/server_service_set.go"],
 [("modes","server/datachange_monitored_item.go and server/event_monitored_item.go SetMonitoringMode, notificationsAvailable"),("links","AddTriggeredItem, RemoveTriggeredItem, SetTriggered, enqueue; server/server_service_set.go handleSetTriggering"),("publishing","server/subscription.go publish, handleLatePublishRequest")],
 ["notifications on the wire, per item","results of SetMonitoringMode and SetTriggering","subscription diagnostics"],
 "2-10 items on 4 variables and 2 event sources, up to 24 (thorough 70) steps, each followed by quiet so that the set of possible item states is tracked exactly; half the runs end with concurrent changes")
prop("P21", "Nothing that arrives from a server or the network harms a client",
 "Whatever bytes arrive at the client on the connections it makes - an acknowledgement with any limits, endpoints with any certificates and policies, responses of another service than was asked for, with any contents, cut, changed, repeated, withheld or broken into endless pieces - the program that uses the client goes on: nothing crashes, Dial, GetEndpoints, FindServers and every service call return an error or a response of the service they asked for by their deadline, the memory used stays bounded, and a client that is closed or aborted, or a Dial that failed, leaves no connection open. A client that connects afterwards works.",
 ["inputs","fault_sequences","schedules"],
 "any change to any message that the server sends, on any connection of a Dial, GetEndpoints or FindServers, at any point of connecting, calling and closing; with one or two calls outstanding, any security policy, any buffer size the client may choose",
 "The tests talk to the library's own, well-behaved server; a crash or hang needs a particular malformed or unexpected response at a particular moment.",
 ["client/client_secure_channel.go","client/client.go","client/client_service_set.go","ua/binary_decoder.go"],
 [("receiving and matching responses","client/client_secure_channel.go Open, Read, readResponse, handleResponse, Request"),("use of what a server sent","client/client.go Dial, open; client/client_service_set.go")],
 ["the library's own client, with simulated time and network"],
 "one client with at most two calls at once, one changed run of messages per connection; messages on secured connections are changed both as an outsider could and, with the keys, as a hostile server could; slack of 2.5 s for injected delays")
