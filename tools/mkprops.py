#!/usr/bin/env python3
# Generates /verif/properties.jsonl (one place to edit the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("E01","A caller sees exactly the outcome the handler produced",
 "For a unary or multi RPC, every response a server sends answers exactly one request: a response without error carries the handler's marshalled result, and an error returned by the handler (or by the server interceptors around it) is sent with its error code, message and details (psrpc errors as they are, gRPC status errors translated to the corresponding code, anything else as Unknown). On the client a response delivered to the call (for a request needing a claim: to the call after selection) that reports an error always becomes a non-nil psrpc error with that code, message and details, and a response without error becomes the unmarshalled result; an error is never turned into a success, not even an error whose message is empty. A request the server cannot decode is answered with malformed_request and the handler is not run, and a response that cannot be encoded or decoded yields malformed_result.",
 ["inputs","schedules","programs"],"every handler result (any response, any error value including nil-message, wrapped, gRPC-status and psrpc errors with details), every request and response payload, unary and multi calls",
 "Tests exercise two or three hand-picked error values over the local bus; they never return an error with an empty message, a wrapped status or undecodable payloads, so most of the handler-error/wire/caller-error product is unsampled.",
 ["pkg/server/rpc.go","pkg/client/rpc.go","pkg/client/multi.go","errors.go"],
 [("rpcHandlerImpl.sendResponse","pkg/server/rpc.go"),("newRPC (closure)","pkg/client/rpc.go"),("multiRPC.handleResponses","pkg/client/multi.go"),("NewErrorFromResponse","errors.go")],
 [("internal.Response","wire form of an outcome","internal/internal.pb.go")])

p("E02","Error codes translate faithfully to HTTP, gRPC and Twirp",
 "Every psrpc error code has a defined HTTP status, gRPC code and Twirp code, and a code other than OK never translates to a success in any of the three (HTTP status is always at least 400). Translating any of the 17 standard gRPC codes to psrpc and back gives the same gRPC code, and unknown codes in either direction become Unknown (500 for HTTP). A psrpc error matches its cause and its code under errors.Is, converts to a Twirp error and to a gRPC status with the translated code and the same message, and GetErrorCode recovers the code from psrpc errors and gRPC status errors, wrapped or not.",
 ["inputs"],"every error code string (known or not), every gRPC code value, every wrapped error",
 "Tests check a few codes; the statement is about all strings and all integers and about every pair of tables agreeing.",
 ["errors.go"],[("ErrorCode.ToHTTP/ToGRPC/ToTwirp","errors.go"),("ErrorCodeFromGRPC","errors.go"),("psrpcError.Unwrap/As/GRPCStatus","errors.go"),("GetErrorCode","errors.go")])

p("C01","Bus channel names never collide between different endpoints",
 "The bus channel names computed for requests, claims, claim responses, responses and streams are a function of the endpoint only, and two endpoints of a service that differ in kind, method or topic (given non-empty service and method names of letters, digits and underscores and non-empty, valid UTF-8 topic parts) never get the same legacy channel name, nor the same pair of server channel and local channel; the server's handler key has the same property. Legacy names and topic parts contain only letters, digits, underscore, '+' and the separator, whatever characters the topic contains. The channel a client publishes on is the one the server subscribes to for the same service, method and topic.",
 ["inputs"],"every method name, every list of topic strings, every client id without separator characters",
 "Tests compare a handful of literal names; injectivity of the escaping and joining is a statement about all pairs of strings.",
 ["pkg/info/channels.go"],[("formatChannel, appendSanitizedChannelPart","pkg/info/channels.go"),("formatServerChannel","pkg/info/channels.go")])

p("S01","Server selection honours the selection options",
 "When a request needs a claim, the client only selects a server that actually sent a claim for this request and whose affinity is at least the minimum affinity (when one is set). With AcceptFirstAvailable, or when a claim reaches a set maximum affinity, the first such eligible claim is selected immediately; otherwise at the selection deadline a custom selection function decides over exactly the eligible claims in arrival order, or else the eligible claim with the highest affinity (the earliest among equals, affinity above zero) wins. If no server can be selected the call fails: with the error a server reported for the request if there was one, otherwise with an unavailable error, and the short-circuit timer is started once, by the first eligible claim.",
 ["inputs","schedules","histories"],"every sequence of claims (server, affinity) and error responses of any length, every combination of selection options",
 "The tests try a few fixed claim sequences with real timers; the rule is over all sequences and option combinations.",
 ["pkg/client/rpc.go","request.go"],[("selectServer","pkg/client/rpc.go")])

p("R01","A claimed request is run by at most the one selected server",
 "For an RPC that requires a claim, the client publishes at most one claim response per request, naming the selected server, and only for its own request. A server runs the handler for such a request only after it sent a claim for it and received a claim response for this request that names this server; a server with negative affinity neither claims nor runs it. Each delivered request runs the handler at most once and is answered at most once, and a server to which the request was not given sends no response (other than reporting a request it could not decode).",
 ["schedules","histories","configurations"],"every interleaving of requests, claims and claim responses, any number of servers and concurrent requests, every affinity value",
 "Tests run two or three servers on the local bus and look at the total count; losing the server comparison or the request-id correlation only shows with particular interleavings.",
 ["pkg/client/rpc.go","pkg/server/rpc.go","pkg/server/stream.go","pkg/client/stream.go"],[("newRPC (closure)","pkg/client/rpc.go"),("rpcHandlerImpl.handleRequest/claimRequest","pkg/server/rpc.go"),("streamHandler.handleOpenRequest/claimRequest","pkg/server/stream.go")])

p("R02","Deadlines and expiry are computed and honoured",
 "A unary request carries an expiry equal to its send time plus the effective timeout, clamped to the caller's deadline; multi requests and stream opens carry send time plus effective timeout. The effective timeout is the last request-timeout option if given, else the client timeout or the caller's remaining time, whichever is smaller, else the default of 3 seconds. A server never starts a handler for a request that is already expired on receipt, the handler's context expires exactly at the request's expiry, and a server waits for a claim response no longer than until the expiry.",
 ["inputs","schedules"],"every combination of caller deadline, client timeout, request options and clock readings",
 "Tests use generous timeouts; off-by-one-hop clamping, wrong base time or a missing expiry test only show for specific deadline/option combinations.",
 ["pkg/client/rpc.go","pkg/client/options.go","pkg/server/rpc.go","pkg/server/stream.go","pkg/client/multi.go","pkg/client/stream.go"],[("getRequestOpts","pkg/client/options.go"),("newRPC (closure)","pkg/client/rpc.go"),("rpcHandlerImpl.run/handleRequest","pkg/server/rpc.go")])

p("R03","Responses reach only their own request and no in-flight entry leaks",
 "The client hands an incoming response, claim or stream message only to the in-flight call that registered its id and hands it over at most once; messages for unknown ids are dropped. Before a request is published its id is registered for responses (and claims, when required), and when the call returns, on every path including publish errors, timeouts, cancellation and panicking hooks excepted, exactly its own registrations are gone. A call that stops waiting without a response fails with the request-canceled error if its context was canceled, the request-timed-out error if its deadline passed, and an internal error if publishing failed.",
 ["schedules","histories","fault_sequences"],"every interleaving of concurrent calls, responses, late or duplicate messages, timeouts and cancellations, publish failures at any point",
 "The tests do not look at the tables and never fail a publish half-way; leaks and cross-talk need particular fault or timing sequences.",
 ["pkg/client/rpc.go","pkg/client/client.go","pkg/client/multi.go","pkg/client/stream.go"],[("newRPC (closure)","pkg/client/rpc.go"),("NewRPCClient dispatcher","pkg/client/client.go"),("OpenStream","pkg/client/stream.go")],
 [("claimRequests/responseChannels/streamChannels","in-flight calls by id","pkg/client/client.go")])

p("R04","One slow or finished call never stalls the client or server dispatcher",
 "The goroutine that dispatches incoming messages to in-flight calls never waits on a single call without a way out: whenever it hands a message to a call it can also proceed once that call has finished. (A multi call whose caller stops reading holds the dispatcher at most until that call's own timeout.) Hence no number of surplus claims, duplicate responses, or late stream messages can block the delivery of messages to other calls for ever, for any channel size. The same holds for the server's dispatch of claim responses to waiting handlers.",
 ["schedules","histories","configurations"],"every channel size including zero, every number of servers claiming, every duplicate or late message",
 "Tests use the default channel size of 100 and few servers; the stall needs more surplus messages than buffer space at the moment a call ends.",
 ["pkg/client/client.go","pkg/server/rpc.go","pkg/server/stream.go"],[("NewRPCClient dispatcher","pkg/client/client.go"),("rpcHandlerImpl.run","pkg/server/rpc.go"),("streamHandler.run","pkg/server/stream.go")])

p("M01","Multi-RPC results are forwarded once each and the channel is closed once",
 "For a multi RPC every response delivered to the call before it ends produces exactly one result on the caller's channel, in delivery order, with the response or the error it carried. As long as the caller reads its channel, the call ends exactly when its timeout passes or its context is done; then its registration is removed first and the result channel is closed exactly once, and nothing is sent on it afterwards. The request is registered before it is published, and a failing publish is reported to the caller as an internal error.",
 ["schedules","histories"],"every number and order of responses, every moment of timeout or cancellation",
 "Tests collect a fixed number of answers; double close, send after close or leaked registrations need a specific race with the timer.",
 ["pkg/client/multi.go"],[("multiRPC.Send/handleResponses/Recv/Close","pkg/client/multi.go")])

p("T01","A stream send succeeds only if the peer acknowledged that message",
 "Send on a stream returns nil only after an acknowledgement for that very message arrived; on an unacknowledged message it returns the stream's own error if the stream ended, or the timed-out error once the send timeout passed. On the receiving side a message is acknowledged, with the id of that message, only after it was placed in the receive channel; a message that finds the receive channel full is reported as a slow-consumer error and is not acknowledged, and an undecodable message is not acknowledged and closes the stream. Sending or receiving on a closed stream fails with the stream's close cause, and the pending-acknowledgement table holds no entry of a send that has returned.",
 ["schedules","histories","inputs"],"every interleaving of sends, acknowledgements, closes and timeouts on both ends, every channel size",
 "Tests send a few messages in lock step; acknowledging before delivery, waking the wrong send, or reporting success on timeout needs specific orders.",
 ["internal/stream/stream.go"],[("streamBase.Send","internal/stream/stream.go"),("stream.HandleStream","internal/stream/stream.go"),("streamBase.Recv","internal/stream/stream.go")],
 [("acks","sends waiting for acknowledgement","internal/stream/stream.go")])

p("T02","A stream closes exactly once and keeps its first cause",
 "A stream is closed by the first of local close, remote close or undecodable message; its error is that first cause (stream-closed for a nil cause) and never changes afterwards, and later closes change nothing and report the first cause. Exactly one closer tears the stream down: it deregisters the stream, cancels its context and closes the receive channel exactly once, and a local close does so only after pending sends and receives have finished, so nothing is sent on the closed channel. A local close tells the peer the cause's code and message, and the peer's stream error carries that code and message.",
 ["schedules","histories","inputs"],"every interleaving of local closes, remote closes, sends and receives, every cause",
 "TestClosePanic samples one race a thousand times; the guarantee is over all interleavings and causes.",
 ["internal/stream/stream.go"],[("streamBase.setClosed/addPending/Close","internal/stream/stream.go"),("stream.HandleStream","internal/stream/stream.go")],
 [("closed, err","close state","internal/stream/stream.go")])

p("T03","Opening a stream either yields a live stream or cleans up completely",
 "Opening a stream registers the claim and stream channels before the open message is published, returns the stream only after the server acknowledged the open, and on every failure (client closed, publish error, no server selected, timeout, cancellation) returns an error and closes the stream so that no registration survives. On the server an open request is answered with an acknowledgement only after the stream is registered; the stream handler is run at most once per open and only if this server was selected (when a claim is required); when the handler returns the stream is closed with its error unless it was hijacked.",
 ["schedules","histories","fault_sequences"],"every failure point of the open handshake, every interleaving with messages and closes",
 "Tests only open streams successfully; the failure paths of the handshake need publish failures or timeouts at particular points.",
 ["pkg/client/stream.go","pkg/server/stream.go"],[("OpenStream","pkg/client/stream.go"),("streamHandler.handleOpenRequest","pkg/server/stream.go")])

p("B01","Local bus: every subscriber gets every message, a queue exactly one",
 "On the local bus a published message is handed to every live subscription of its channel and to exactly one live queue subscription of its channel if there is any, chosen round-robin so that a live queue subscription is never skipped for a whole round; it is never handed to a subscription of another channel or to one that was closed. Subscribing and closing in any order keeps the subscriber lists consistent: closing removes only that subscription, a slot is reused only when free, the subscriber count equals the number of live slots and an empty list is removed.",
 ["histories","schedules"],"every sequence of subscribe, subscribe-queue, publish and close operations, any number of subscribers",
 "Tests subscribe a few readers and never reuse slots after closes in the middle of the list; the index bookkeeping is a whole-history invariant.",
 ["internal/bus/bus_local.go"],[("localMessageBus.Publish/subscribe","internal/bus/bus_local.go"),("localSubList.create/dispatch","internal/bus/bus_local.go")],
 [("localSubList.subs/subCount/next","subscriber slots","internal/bus/bus_local.go")])

p("B02","Redis bus: subscriptions converge to what is wanted and deliver correctly",
 "On the Redis bus a channel that gains its first local subscriber or loses its last one is always marked for reconciliation and the reconciler is woken; a reconciliation pass subscribes exactly the marked channels that are wanted and not yet subscribed, unsubscribes exactly those that are subscribed and no longer wanted, records what succeeded and keeps marked what failed. A received message is handed to every local subscription of its channel and to exactly one local queue subscription, round-robin. Unsubscribing removes only that subscription and drops the channel when it was the last one.",
 ["histories","schedules","fault_sequences"],"every history of subscribe/unsubscribe, every failure pattern of the Redis commands",
 "The Redis tests need a server and are not run here; failures of SUBSCRIBE/UNSUBSCRIBE at particular points are not tested at all.",
 ["internal/bus/bus_redis.go"],[("redisReconcileSubscriptionsOp.run","internal/bus/bus_redis.go"),("redisMessageBus.subscribe/unsubscribe","internal/bus/bus_redis.go"),("redisSubList.dispatch/dispatchQueue","internal/bus/bus_redis.go")],
 [("dirtyChannels/currentChannels","reconciliation state","internal/bus/bus_redis.go")])

p("B03","Redis bus: messages of one channel are published in order, none lost or doubled",
 "All messages published to one channel go through the same publish queue, are appended in publish order, and a queued message always leaves a wake-up pending for the worker. The worker takes the whole batch atomically and publishes every message of it exactly once, in order, to the channel it was queued for with its own payload.",
 ["schedules","histories"],"every interleaving of publishers with the worker, any number of messages and channels",
 "Tests run a single producer against a server at best; loss or reordering needs an enqueue at a particular point of the worker's loop.",
 ["internal/bus/bus_redis.go"],[("redisMessageBus.Publish","internal/bus/bus_redis.go"),("redisPublishQueue.Enqueue/worker","internal/bus/bus_redis.go")],
 [("messages","publish queue","internal/bus/bus_redis.go")])

p("B04","NATS bus: routed messages reach exactly the subscriptions they are for",
 "On the NATS bus subscriptions with a local channel share one server subscription per server channel, opened by the first and dropped with the last; a message on it is handed only to subscriptions of the message's local channel: to all of them for a broadcast subscription, and to exactly one of them for a queue subscription. Opening a broadcast and a queue subscription on the same server channel is refused without changing anything, a failed server subscription leaves no router behind, and closing a subscription removes only that subscription.",
 ["histories","schedules","fault_sequences"],"every history of subscribe/close operations on any set of channels, every message",
 "The NATS tests need a server and are not run here; two queue subscriptions of one process on the same method are not tested.",
 ["internal/bus/bus_nats.go"],[("natsMessageBus.subscribeRouter/unsubscribeRouter","internal/bus/bus_nats.go"),("natsRouter.open/close/write","internal/bus/bus_nats.go")],
 [("routers, routes","routing tables","internal/bus/bus_nats.go")])

p("B05","Messages survive the bus envelope; a bad message is skipped, not fatal",
 "A message put in the bus envelope and taken out again is the same message of the same type, and the local routing channel read from the envelope is the one that was put in. A subscription delivers every well-formed message of its type, in order and once each; a message that cannot be decoded, is of an unknown type or of a different message type is skipped without stopping or crashing the subscription. When the underlying reader ends, the subscription's channel is closed exactly once.",
 ["inputs","histories"],"every message and channel string, every byte sequence arriving on a subscription, every order of good and bad messages",
 "Tests only publish well-formed messages of the expected type.",
 ["internal/bus/serialization.go","internal/bus/subscription.go"],[("serialize/deserialize/deserializeChannel","internal/bus/serialization.go"),("newSubscription","internal/bus/subscription.go")])

p("I01","Interceptors wrap in order, each exactly once, and see the call's info",
 "Client, multi-RPC and stream interceptors are nested in the given order: the first is outermost, per-client interceptors come before per-request ones, and each wraps the next exactly once with the call's RPC info. The server interceptor chain invokes interceptor 0 with the request and its info; every call of the 'next' handler given to interceptor i invokes interceptor i+1, or the real handler after the last one, with the context and request passed to it, and returns its result, no matter how often or when 'next' is called. With no interceptors the handler runs directly and with one, that one is used alone.",
 ["inputs","programs"],"any number of interceptors, each calling next any number of times and with any arguments",
 "Tests use one or two well-behaved interceptors that call next exactly once.",
 ["internal/interceptors/interceptor.go","pkg/client/options.go","pkg/server/rpc.go"],[("ChainClientInterceptors/ChainServerInterceptors","internal/interceptors/interceptor.go"),("getRequestInterceptors","pkg/client/options.go")])

p("D01","Metadata travels unchanged and contexts stay independent",
 "The outgoing metadata of a context is what was set, later settings overriding earlier ones key by key, whether set as a map or appended as key-value pairs; adding metadata to a derived context never changes the metadata seen through the parent or a sibling context, and the map handed out is the caller's own copy. Requests and stream opens carry exactly the outgoing metadata of the caller's context and the caller's client id, and the handler's context exposes exactly that metadata, client id and send time as its incoming header, again as an independent copy.",
 ["inputs","histories"],"every sequence of set/append operations on a tree of contexts, every key and value",
 "Tests set one or two keys once; overriding across the two APIs and sibling contexts are not sampled.",
 ["pkg/metadata/metadata.go","pkg/client/rpc.go","pkg/client/multi.go","pkg/client/stream.go","pkg/server/rpc.go","pkg/server/stream.go"],[("WithOutgoingMetadata/AppendMetadataToOutgoingContext/OutgoingContextMetadata","pkg/metadata/metadata.go"),("NewContextWithIncomingHeader/IncomingHeader","pkg/metadata/metadata.go")])

p("Y01","Retries stop exactly when they should and report the right outcome",
 "The retry middleware calls the wrapped call once and then again only after a failure that the retry parameters declare retryable; it returns nil as soon as an attempt succeeds, and the last attempt's error (and, for unary calls, its response) when it stops. With the default parameters it makes at most MaxAttempts attempts (when positive), retries only recoverable errors (deadline-exceeded, unavailable and untyped errors by default), and gives attempt k a timeout of Timeout plus (k-1) times Backoff; custom parameters are asked with the error and the attempt number, counted from 1. For unary calls a caller that cancels between attempts gets the request-canceled error and no further attempt is made.",
 ["inputs","histories","fault_sequences"],"every sequence of attempt outcomes, every retry option combination, cancellation between any two attempts",
 "Tests drive a few fixed outcome sequences.",
 ["pkg/middleware/retry.go"],[("retry","pkg/middleware/retry.go"),("getRetryWithBackoffParameters, isTimeout","pkg/middleware/retry.go")])

p("K01","A panicking handler becomes an internal error; other outcomes pass through",
 "With the recovery interceptor a handler panic never escapes: the call returns an internal error. A handler that does not panic has its response and error passed through unchanged, and the handler is called exactly once with the interceptor's context and request.",
 ["inputs","programs"],"every handler behaviour: any response, any error, any panic value",
 "Tests panic once with one value.",
 ["pkg/middleware/recovery.go"],[("WithServerRecovery","pkg/middleware/recovery.go")])

p("K02","Metrics and tracing middleware never change the call and report what happened",
 "The metrics middleware calls the wrapped handler, send, receive or close exactly once with the same arguments and returns its result unchanged. Each completed unary call, stream send and stream receive is reported exactly once with its actual error; a multi request is reported once at close with the number of successful and failed responses that were forwarded; a stream close is reported at most once. The tracing middleware likewise passes request, response and error through unchanged and ends its span exactly once.",
 ["inputs","histories"],"every outcome of the wrapped calls, every sequence of receives and closes",
 "Tests count a few successful calls.",
 ["pkg/middleware/metrics.go","pkg/middleware/otelpsrpc/otel.go"],[("new*MetricsInterceptor","pkg/middleware/metrics.go"),("ClientOptions/ServerOptions","pkg/middleware/otelpsrpc/otel.go")])

p("L01","Registering and closing handlers is atomic and loses nothing",
 "A method and topic is registered at most once at a time: a second registration of a registered key fails and leaves the first untouched, also when both are made concurrently, and a failed registration leaves no bus subscription behind. After the server was closed every registration is refused with the server-closed error. Closing a handler closes its subscriptions and removes exactly its own registration once, however often and from wherever it is closed, and a graceful close returns only after all unary requests being handled have finished (streams are closed, not awaited), while a forced close does not wait for them.",
 ["schedules","histories","fault_sequences"],"every interleaving of register, deregister and close calls, subscribe failures at any point",
 "Tests register and close sequentially.",
 ["pkg/server/server.go","pkg/server/rpc.go","pkg/server/stream.go"],[("RegisterHandler/RegisterStreamHandler/DeregisterHandler/Close","pkg/server/server.go"),("rpcHandlerImpl.close","pkg/server/rpc.go"),("streamHandler.close","pkg/server/stream.go")],
 [("handlers, active","registered handlers","pkg/server/server.go")])

p("L02","A closed client refuses new work and releases its subscriptions",
 "After a client was closed, new unary, multi, stream and subscription calls fail immediately with the client-closed error and nothing is published. Closing the client, or losing one of its bus subscriptions, ends its dispatcher and closes each of its bus subscriptions exactly once. If creating a client fails, every bus subscription made so far is closed.",
 ["schedules","fault_sequences"],"every call made after close, every failing subscription during construction, every bus shutdown moment",
 "Tests close clients at the end and never look at what happens afterwards; construction failures are not tested.",
 ["pkg/client/client.go","pkg/client/rpc.go","pkg/client/multi.go","pkg/client/stream.go","pkg/client/subscription.go"],[("NewRPCClient","pkg/client/client.go"),("closed fuse","pkg/client/client.go")])

p("A01","Registering a topic group is all or nothing",
 "Registering a group of methods registers them in order with the given topic; if one fails, exactly the ones registered before it are deregistered again, none that came later is touched, and the failing registration's error is returned. If all succeed the result is nil and nothing is deregistered; deregistering a group deregisters every member exactly once.",
 ["inputs","fault_sequences"],"any number of members, any failing position, any error",
 "The test covers one failing position in one small group.",
 ["pkg/server/registration.go"],[("RegistererSlice.Register/Deregister","pkg/server/registration.go")])

p("G01","Generated client and server agree with the .proto routing options",
 "For every method the generated client and the generated server register the same routing flags, and these are the ones the .proto options ask for, in both the oneof and the legacy form: affinity, multi, queue, and a claim is required exactly when the method is neither multi nor single-server by its topic options. The generated client calls the single, multi, stream or subscription entry point the options ask for.",
 ["inputs","configurations"],"every combination of method options in every service definition",
 "The generator tests compile a few sample .proto files and cannot cover all option combinations.",
 ["protoc-gen-psrpc/generator.go"],[("getOptions/getRequireClaim","protoc-gen-psrpc/generator.go"),("generateClient/generateServer","protoc-gen-psrpc/generator.go")])

p("N01","Generated identifiers are well-formed",
 "Every generated client, server, request and stream identifier consists of its documented prefix followed by exactly 12 characters, each a letter or digit, for every sequence of random numbers. The generator's random source is only used while its lock is held, so concurrent use never corrupts or repeats its state.",
 ["inputs","schedules"],"every random sequence, any number of concurrent callers",
 "Tests draw samples only.",
 ["pkg/rand/id.go"],[("formatID/readIDChars","pkg/rand/id.go"),("lockedRandSource","pkg/rand/id.go")])

p("Z01","Shared state is only touched under its lock and locks are always released",
 "Every access to the shared tables of clients, servers, handlers, streams and buses (in-flight calls, registered handlers, waiting claims, open streams, pending acknowledgements, subscriber lists, routing tables, publish queues, reconciliation state) happens while the lock that guards them is held, with the write lock for changes. Every lock taken is released on every path of the call that took it, no lock is acquired twice by one call, and all calls acquire nested locks in one global order, so that they cannot deadlock on these locks.",
 ["schedules","inputs"],"every path of every exported operation and background worker, every schedule",
 "The race detector only sees the schedules that happen to run; missing unlocks sit on error paths the tests do not take.",
 ["pkg/client/client.go","pkg/client/rpc.go","pkg/client/multi.go","pkg/client/stream.go","pkg/server/server.go","pkg/server/rpc.go","pkg/server/stream.go","internal/stream/stream.go","internal/bus/bus_local.go","internal/bus/bus_nats.go","internal/bus/bus_redis.go","pkg/rand/id.go"],
 [("sync.Mutex/RWMutex fields","all of the above")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    if len(x["title"])>80: print("TITLE",x["id"],len(x["title"]))
