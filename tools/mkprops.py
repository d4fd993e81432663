#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in one place so that statements are easy to review).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","A unary call ends exactly once, with its own answer or a truthful error",
 "Every unary call returns by its timeout or its caller's cancellation, whatever responses and claims arrive, in whatever order, duplicated, late or for other calls. A successful call returns the payload of a response addressed to that very call; a failed call returns that response's error, a publish error, 'request canceled' only if the caller cancelled, or 'request timed out' only once its deadline passed. When it has returned, the client keeps no bookkeeping for it.",
 ["schedules","inputs","fault_sequences"],"every interleaving of caller, dispatcher and delivery threads within the round bound, for arbitrary response/claim sequences and publish failures",
 "Tests run one or two well-behaved servers and a lucky schedule; late, duplicated and foreign messages and timer/response races are never produced.",
 ["pkg/client/rpc.go","pkg/client/client.go"],
 [("correlation by request id","pkg/client/client.go: dispatch goroutine"),("wait/timeout/cleanup","pkg/client/rpc.go: newRPC")],
 [("responseChannels/claimRequests","pending calls by request id","pkg/client/client.go: RPCClient")],["return of RequestSingle"])
p("P02","Server selection honours the affinity options",
 "Among the claims received before selection ends, the client never picks a server below the minimum affinity or, picking by affinity, one that offered 0 (unavailable), accepts at once the first eligible claim when accept-first is set or when it reaches the maximum affinity, otherwise picks an eligible claim of highest affinity, or whatever the custom selection function returns when given exactly the eligible claims. Selection ends at the affinity timeout, at the short-circuit timeout after the first eligible claim, or when the call's context ends. If nothing was selected the error is the server's own error if one arrived, 'no servers available' if only ineligible claims arrived, and 'no response' otherwise.",
 ["inputs","schedules"],"all affinity values (all float32), all option combinations, all claim sequences up to the bound, all timer/claim orderings",
 "The unit tests exercise a few fixed affinity values in one arrival order.",
 ["pkg/client/rpc.go","request.go"],[("selection loop","pkg/client/rpc.go: selectServer")],None,["claim response published by the client"])
p("P03","Only the chosen server runs the handler of a claimed call",
 "For methods that require claiming, a server invokes its handler for a request only after receiving, before the request expires, a claim response for that request naming this server; a response naming another server, or none at all, means the handler is never run. A server whose affinity is negative never offers to handle the request, and every offer carries the request's id, the server's id and the computed affinity (1 when there is no affinity function). The bookkeeping of a claim is gone when the claim is decided.",
 ["schedules","inputs"],"every interleaving of request handling, claim responses for this and other requests, duplicates and expiry",
 "Tests never race expiry against a claim response, never deliver foreign or duplicate claim responses.",
 ["pkg/server/rpc.go","pkg/server/stream.go"],[("claim handshake (unary)","pkg/server/rpc.go: claimRequest"),("claim handshake (stream)","pkg/server/stream.go: claimRequest")],
 [("claims","pending claims by request id","pkg/server/rpc.go: rpcHandlerImpl")],["handler invocation","messages on the claim request channel"])
p("P04","A server answers each accepted request exactly once, to its sender",
 "For each request it accepts, a server runs the handler at most once and publishes exactly one response, carrying the request's id, on the response channel of the client that sent it, with the handler's result or its error. A request that cannot be decoded gets a malformed-request error without running the handler, and a request already expired on arrival is dropped without running the handler. The handler sees the request payload, the sender's id and metadata, and a context that expires at the request's expiry.",
 ["schedules","inputs"],"arbitrary request sequences (valid, malformed, expired, concurrent, from different clients), arbitrary handler results, all interleavings within bounds",
 "Tests send single well-formed requests; concurrent, malformed and expired requests are not combined.",
 ["pkg/server/rpc.go"],[("request loop","pkg/server/rpc.go: run"),("response","pkg/server/rpc.go: sendResponse")],None,["bus messages on the response channel","handler invocations"])
p("P05","Errors keep code, message and details across the wire and map consistently",
 "An error returned by a handler reaches the caller with the same code, message and details whether it is a psrpc error, wraps one, or is a gRPC status error (whose code is translated); any other error arrives with its message and code 'unknown'. Translating a gRPC code to a psrpc code and back yields the same gRPC code for every canonical code, and each psrpc code has one fixed HTTP, gRPC and Twirp.",
 ["inputs"],"all codes (known and unknown strings up to the bound), all messages, detail lists and wrapping depths up to the bound",
 "Tests check one or two codes and never a round trip for arbitrary codes/messages/wrappings.",
 ["errors.go","pkg/server/rpc.go","pkg/client/rpc.go"],[("encode","pkg/server/rpc.go: sendResponse"),("decode","errors.go: NewErrorFromResponse"),("mappings","errors.go: ToHTTP, ToGRPC, ToTwirp, ErrorCodeFromGRPC")],None,["error returned to the caller"])
p("P06","A multi-response call delivers each response once and closes its channel once",
 "Every response addressed to a multi-response call that reaches the client before the call ends is delivered exactly once, in arrival order, on the returned channel, with its payload or its error. The channel is closed exactly once, when the timeout passes or the caller's context ends, and nothing is ever sent on it afterwards, even when the consumer stops reading. When the call has ended the client keeps no bookkeeping for it.",
 ["schedules","inputs","fault_sequences"],"all interleavings of arrivals, consumer, timeout and cancellation within bounds, arbitrary response contents",
 "The tests collect responses from two or three servers with generous timing; no late, duplicate or slow-consumer case is tested.",
 ["pkg/client/multi.go","pkg/client/client.go"],[("response pump","pkg/client/multi.go: handleResponses")],None,["the channel returned by RequestMulti"])
p("P07","A stream delivers in order, acknowledges truthfully and closes once",
 "A stream Send that returns success was acknowledged by the peer after the message was placed in the peer's receive channel; otherwise Send returns an error, at the latest when its timeout passes or the stream closes. Whatever the interleaving of Send, Recv, local close, remote close, context end and malformed messages, the stream closes exactly once, its channel is closed once and never written afterwards, Err reports the first cause, and nothing panics or blocks forever. Messages are received in the order in which they arrived, and when the stream has closed no bookkeeping for it remains on its owner.",
 ["schedules","inputs","fault_sequences"],"all interleavings of two senders, message handling, local/remote close and timeouts within bounds; arbitrary bodies",
 "Stream tests follow the happy path and one close race; they cannot enumerate interleavings of close with in-flight messages.",
 ["internal/stream/stream.go"],[("ack bookkeeping","internal/stream/stream.go: Send, HandleStream"),("close protocol","internal/stream/stream.go: setClosed, Close")],
 [("acks, pending, closed","in-flight sends and close state","internal/stream/stream.go: streamBase")],["ServerStream/ClientStream API"])
p("P08","Graceful shutdown waits for running handlers and lets nothing start afterwards",
 "Once a non-forced server close has returned, no unary handler invocation is running or starts later, every request whose handler ran has had its response published, and every bus subscription the server opened is closed. Every stream the server accepted is ended (handlers of streams are not waited for), and no stream is accepted later. The close takes no longer than the requests in progress. Closing is idempotent, safe to call concurrently with requests, registrations and other closes, never deadlocks, and a forced close does not wait for running handlers. After close, registrations fail with 'server is closed' and leave nothing subscribed.",
 ["schedules"],"all interleavings of close, concurrent registration, request arrival and handler completion within bounds",
 "The shutdown test uses sleeps to reach one interleaving; the windows between request pick-up and accounting are nanoseconds wide.",
 ["pkg/server/server.go","pkg/server/rpc.go","pkg/server/stream.go"],[("close","pkg/server/rpc.go: close"),("server close","pkg/server/server.go: Close")],
 [("handling","in-flight accounting","pkg/server/rpc.go: rpcHandlerImpl.handling"),("active","registered handlers","pkg/server/server.go: RPCServer.active")],["return of Close/Shutdown"])
p("P09","The local bus delivers to every subscriber, and to exactly one queue member",
 "On the in-process bus a message published on a channel reaches, exactly once, every subscription open on that channel for the whole publish, in publishing order per publisher, and exactly one member of the channel's queue group, rotating among members; subscriptions on other channels see nothing. Subscribing, publishing and closing concurrently never panics, loses a message to a subscription that stays open, or blocks forever, and a closed subscription neither receives nor delays messages. The bus keeps nothing for channels without subscriptions.",
 ["schedules","histories"],"all interleavings of publishers, readers, subscribe and close within bounds; all operation histories up to the bound",
 "Bus tests publish sequentially with static subscriptions.",
 ["internal/bus/bus_local.go","internal/bus/bus.go"],[("dispatch","internal/bus/bus_local.go: dispatch"),("unsubscribe","internal/bus/bus_local.go: subscribe/onUnsubscribe")],
 [("subs/queues","subscription lists per channel","internal/bus/bus_local.go: localMessageBus")],["Reader/Subscription channel"])
p("P10","The Redis bus converges to the subscriptions in use and publishes in order",
 "After any history of subscribing and closing, with any failures of the Redis subscribe and unsubscribe commands, the set of Redis channels subscribed converges to exactly the channels that have an open subscription. Messages published on one channel are sent to Redis in publishing order, each exactly once. A received message goes to every plain subscription on its channel and to exactly one queue member, in rotation, and a queue message is returned only by the member that wins the lock for that message on that channel.",
 ["schedules","histories","fault_sequences"],"all histories of subscribe/close and command failures up to the bound, all interleavings with the reconcile worker and publish workers",
 "Needs a Redis server; failures of individual commands and races with the reconcile worker are not injected.",
 ["internal/bus/bus_redis.go"],[("reconciliation","internal/bus/bus_redis.go: redisReconcileSubscriptionsOp.run"),("publish queue","internal/bus/bus_redis.go: redisPublishQueue.worker"),("queue lock","internal/bus/bus_redis.go: redisSubscription.read")],
 [("dirtyChannels/currentChannels","desired vs. actual","internal/bus/bus_redis.go: redisMessageBus")],["commands sent to Redis"])
p("P11","The NATS bus routes by local channel and releases subscriptions",
 "Subscriptions that share a NATS subject each receive exactly the messages published for their own local channel, every one of them once. The NATS subscription of a subject exists while at least one local subscription on it is open and is dropped when the last one closes, whatever the history of opens, closes and subscribe failures, and a later open subscribes again. Mixing queue and plain subscriptions on one subject is refused without disturbing the existing ones. Opening and closing race safely with each other and with arriving messages.",
 ["histories","fault_sequences","inputs"],"all histories of open/close/deliver/failure up to the bound",
 "Needs a NATS server; subscribe failures and re-open histories are not exercised.",
 ["internal/bus/bus_nats.go"],[("router","internal/bus/bus_nats.go: natsRouter")],[("routers","router per subject","internal/bus/bus_nats.go: natsMessageBus")],["Reader"])
p("P12","Malformed or foreign bus messages never crash or stall a subscription",
 "A subscription delivers every well-formed message of its type in order and silently skips anything else - undecodable bytes, unknown types, messages of another type - without panicking, blocking or losing the following messages. Its channel is closed exactly when the underlying subscription ends. The envelope written by a publisher decodes to an equal message and to the same local channel name for every message.",
 ["inputs","histories"],"all sequences of arbitrary raw messages up to the bound",
 "Tests feed only messages produced by the library itself, of the right type.",
 ["internal/bus/subscription.go","internal/bus/serialization.go"],[("decode loop","internal/bus/subscription.go: newSubscription"),("envelope","internal/bus/serialization.go: serialize, deserialize, deserializeChannel")],None,["Subscription.Channel()"])
p("P13","Interceptors run in declared order, once per invocation of the next handler",
 "Client, multi, stream and server interceptors wrap the call in declaration order, the first declared being outermost and per-request client interceptors innermost, each seeing the call's description. Each time an interceptor calls its next handler, exactly the remaining interceptors and then the real handler run once, including when an interceptor calls next several times or not at all. The outermost interceptor's result is the call's result.",
 ["configurations","inputs"],"all chains up to the bound in which each interceptor calls next 0, 1 or 2 times, with arbitrary results",
 "The interceptor test covers one linear chain.",
 ["internal/interceptors/interceptor.go","pkg/client/options.go","pkg/server/rpc.go"],[("server chain","internal/interceptors/interceptor.go: ChainServerInterceptors"),("client chain","internal/interceptors/interceptor.go: ChainClientInterceptors")],None,["order of interceptor calls"])
p("P14","Effective timeouts and expiries follow the options and the caller's deadline",
 "A call's timeout is the per-request option if given, else the smaller of the client's configured timeout and the time left to the caller's deadline, else the default when neither is set. The expiry a request carries is the sending time plus that timeout and is never later than the caller's deadline, for unary, multi-response and stream-opening requests alike. Affinity selection options take their defaults from the client unless overridden per request.",
 ["inputs"],"all timeouts, deadlines and option combinations (64-bit values within a stated range)",
 "Tests check one deadline; boundary combinations of option, default and deadline are not enumerated.",
 ["pkg/client/options.go","pkg/client/rpc.go","pkg/client/multi.go","pkg/client/stream.go"],[("options","pkg/client/options.go: getRequestOpts"),("expiry","pkg/client/rpc.go: newRPC")],None,["Expiry field of published requests"])
p("P15","Outgoing metadata merges with the latest value winning and never leaks",
 "The metadata sent with a request equals the result of applying the context's metadata operations (reset, merge, append) in order, the latest value for a key winning. Deriving a context, or reading metadata, never changes what any other context or the caller's own maps and slices hold, and the maps handed out are copies. Incoming headers are returned exactly as received.",
 ["histories","inputs"],"all operation sequences up to the bound over branching contexts, with arbitrary keys and values",
 "No test covers metadata beyond a single append.",
 ["pkg/metadata/metadata.go"],[("merge","pkg/metadata/metadata.go: WithOutgoingMetadata, AppendMetadataToOutgoingContext, OutgoingContextMetadata")],None,["OutgoingContextMetadata"])
p("P16","Retries stop at the limit, follow recoverable errors only, keep the last result",
 "With the retry middleware a call is attempted until it first succeeds or fails unrecoverably, at most the configured number of attempts, and the caller gets the last attempt's response and error. The attempt timeouts start at the configured value and grow by the backoff on each retry, or follow the custom parameters function, and caller-supplied options are preserved and never modified. Cancelling the caller's context stops further attempts, including during a wait between attempts, with 'request canceled'.",
 ["inputs","schedules"],"all outcome sequences up to the attempt bound, all limits, timeouts, backoffs and cancellation points",
 "Tests try a handful of outcome sequences.",
 ["pkg/middleware/retry.go"],[("loop","pkg/middleware/retry.go: retry")],None,["calls to the next handler"])
p("P17","Recovery and metrics middleware observe without altering the call",
 "The recovery interceptor turns any panic of the wrapped handler into an 'internal' error and otherwise passes request, response and error through unchanged. The metrics middleware reports each unary call, multi-response call, stream send, receive, open and close exactly once with the right role, error, counts and sizes, and forwards everything unchanged to and from the next handler.",
 ["inputs","histories"],"all handler outcomes (result, error, panic), all sequences of multi and stream events up to the bound",
 "No test covers these interceptors under panics, errors or repeated closes.",
 ["pkg/middleware/recovery.go","pkg/middleware/metrics.go"],[("recover","pkg/middleware/recovery.go: WithServerRecovery"),("observers","pkg/middleware/metrics.go")],None,["observer callbacks"])
p("P18","Channel names are well-formed, stable and never collide",
 "Requests, responses, claims and streams of different services, methods, topics, clients or kinds never share a bus channel, and both sides of one exchange always compute the same channel name. Topics are sequences of non-empty parts of any Unicode text: they are escaped to letters, digits, underscore and plus, differently for different topics. Handler keys are equal exactly when method and topic are equal, and building names concurrently never mixes them up.",
 ["inputs"],"all valid UTF-8 topic parts up to the bound in pairs, all identifiers up to the bound",
 "Tests compare a few literal names.",
 ["pkg/info/channels.go"],[("escaping","pkg/info/channels.go: appendSanitizedChannelPart"),("assembly","pkg/info/channels.go: formatChannel, formatServerChannel")],None,["bus.Channel values"])
p("P19","Generated identifiers have the documented shape for every random stream",
 "Whatever the random source returns, every generated identifier is its kind's prefix followed by exactly twelve characters of the 0-9A-Za-z alphabet, generation terminates as soon as the source yields enough usable bits, and no usable random bits are skipped or used twice. Each alphabet character is equally likely for uniformly distributed bits.",
 ["inputs"],"all 63-bit outputs of the random source for the bounded number of draws",
 "A test can only sample the random stream; biased or out-of-range indexing on rare bit patterns stays unseen.",
 ["pkg/rand/id.go"],[("bit slicing","pkg/rand/id.go: readIDChars")],None,["NewClientID, NewServerID, NewRequestID, NewStreamID"])
p("P20","A closed client refuses new work and releases everything",
 "After a client is closed, every operation on it - unary and multi-response calls, joining subscriptions, joining queues, opening streams - fails with 'client is closed' without publishing or subscribing anything. Closing closes the client's bus subscriptions exactly once, ends its open streams, and is idempotent and safe concurrently with calls in progress, which still end by their timeout. Losing a bus subscription closes the client.",
 ["schedules","histories"],"all interleavings of close with calls and message arrival within bounds",
 "Only a sequential close-then-call of one operation kind is tested.",
 ["pkg/client/client.go","pkg/client/subscription.go","pkg/client/stream.go"],[("fuse","pkg/client/client.go: Close, dispatch goroutine")],None,["errors returned after Close"])
p("P21","Handlers are registered at most once and groups register atomically",
 "For one method and topic at most one handler is registered at any time: a second registration fails and leaves the first working and nothing extra subscribed, also when both happen concurrently, and after deregistration the slot is free again. Registering a group either registers all members or, when one fails, deregisters exactly those registered before it and returns that error. Failed registrations leave no bus subscription behind.",
 ["schedules","fault_sequences","histories"],"all interleavings of two registrations, all subscribe failures, all group sizes and failure positions up to the bound",
 "Concurrent duplicate registration and failing subscriptions are not tested.",
 ["pkg/server/server.go","pkg/server/registration.go","pkg/server/rpc.go","pkg/server/stream.go"],[("duplicate check","pkg/server/server.go: RegisterHandler, RegisterStreamHandler"),("rollback","pkg/server/registration.go: RegistererSlice.Register")],
 [("handlers","registered handlers by key","pkg/server/server.go: RPCServer")],["return of RegisterHandler"])
p("P22","Generated code uses the names protoc-gen-go uses and the paths requested",
 "For every valid proto identifier the generator derives the same Go identifier as protoc-gen-go. For every form of the go_package option it extracts the same import path and package name as protoc-gen-go, output file names follow the requested path mode and module prefix, and plugin parameters are parsed or rejected consistently.",
 ["inputs","programs"],"all identifiers, go_package values and parameter strings up to the bound",
 "Table tests cover a few dozen strings.",
 ["protoc-gen-psrpc/internal/gen/stringutils/stringutils.go","protoc-gen-psrpc/go_naming.go","protoc-gen-psrpc/command_line.go"],[("identifier","protoc-gen-psrpc/internal/gen/stringutils/stringutils.go"),("package option","protoc-gen-psrpc/go_naming.go"),("parameters","protoc-gen-psrpc/command_line.go")],None,["generated file names and identifiers"])
p("P23","Opening a stream succeeds only when acknowledged and cleans up otherwise",
 "Opening a stream returns a usable stream only after the serving side acknowledged it (and, when claiming is required, the selected server was told so); otherwise it returns by its timeout with the publish, selection, cancellation or timeout error. After a failed opening the server is told that the stream closed and the client keeps no bookkeeping for it. Streams are bound to their own identifiers: messages of other streams never reach them.",
 ["schedules","inputs","fault_sequences"],"all interleavings of opening, acknowledgement, claims, timeout and publish failures within bounds",
 "Only successful openings are tested.",
 ["pkg/client/stream.go","pkg/server/stream.go"],[("handshake","pkg/client/stream.go: OpenStream")],[("streamChannels","open streams by id","pkg/client/client.go: RPCClient")],["return of OpenStream"])
p("P24","Traffic for one call never stalls the other calls of a client",
 "However many responses, claims or stream messages arrive for a call that has finished or is abandoned by its consumer, the client goes on delivering messages to its other calls and streams; a slow consumer delays the others at most until its own call ends. No sequence of bus messages blocks the client's delivery forever.",
 ["schedules","inputs","histories"],"all sequences of deliveries up to the bound, all interleavings with call completion",
 "Tests never send duplicates or surplus messages, so the full-buffer case is never reached.",
 ["pkg/client/client.go","pkg/client/rpc.go","pkg/client/multi.go"],[("dispatch","pkg/client/client.go: dispatch goroutine")],None,["progress of the dispatch goroutine"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
