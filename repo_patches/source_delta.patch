From 82d15d31c9a123adddb5099d9caf3cee0faaad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 01/21] fix: do not drop handler errors that have an empty
 message

A response carries an error when its code is set, even if the message is
empty: the caller used to get a zero response and a nil error.
---
 pkg/client/multi.go | 2 +-
 pkg/client/rpc.go   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 00c80b5..777afed 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -128,7 +128,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 		case res := <-resChan:
 			var v ResponseType
 			var err error
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
 				v, err = bus.DeserializePayload[ResponseType](res.RawResponse)
diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 8d879de..b6cc6fb 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -145,7 +145,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 
 		select {
 		case res := <-resChan:
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
 				response, err = bus.DeserializePayload[ResponseType](res.RawResponse)
@@ -228,7 +228,7 @@ func selectServer(
 
 		case res := <-resChan:
 			// will only happen with malformed requests
-			if res.Error != "" {
+			if res.Error != "" || res.Code != "" {
 				resErr = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			}
 		}
-- 
2.43.0


From 0dca3adbbdceb04a9cb92c12611cbe48cd1dec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 02/21] fix: let a later metadata merge win over values
 appended earlier

---
 pkg/metadata/metadata.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pkg/metadata/metadata.go b/pkg/metadata/metadata.go
index a900172..66204f1 100644
--- a/pkg/metadata/metadata.go
+++ b/pkg/metadata/metadata.go
@@ -65,16 +65,14 @@ func WithOutgoingMetadata(ctx context.Context, md Metadata) context.Context {
 	if len(md) == 0 {
 		return ctx
 	}
-	m, ok := ctx.Value(metadataKey{}).(ctxMD)
-	if ok && m.md != nil {
-		m.md = maps.Clone(m.md)
-		for k, v := range md {
-			m.md[k] = v
-		}
-	} else {
-		m.md = md
+	m := OutgoingContextMetadata(ctx)
+	if m == nil {
+		m = make(Metadata, len(md))
+	}
+	for k, v := range md {
+		m[k] = v
 	}
-	return context.WithValue(ctx, metadataKey{}, m)
+	return context.WithValue(ctx, metadataKey{}, ctxMD{md: m})
 }
 
 // AppendMetadataToOutgoingContext appends key-value pairs to the outgoing context.
-- 
2.43.0


From abf25f224d81698ba9278f19371b20a7abb7429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 03/21] fix: run the remaining server interceptors each time
 next is called

---
 internal/interceptors/interceptor.go | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/internal/interceptors/interceptor.go b/internal/interceptors/interceptor.go
index 6698835..8e6e4bb 100644
--- a/internal/interceptors/interceptor.go
+++ b/internal/interceptors/interceptor.go
@@ -42,21 +42,23 @@ func ChainServerInterceptors(interceptors []psrpc.ServerRPCInterceptor) psrpc.Se
 		return interceptors[0]
 	default:
 		return func(ctx context.Context, req proto.Message, rpcInfo psrpc.RPCInfo, handler psrpc.ServerRPCHandler) (proto.Message, error) {
-			// the struct ensures the variables are allocated together, rather than separately, since we
-			// know they should be garbage collected together. This saves 1 allocation and decreases
-			// time/call by about 10% on the microbenchmark.
-			var state struct {
-				i    int
-				next psrpc.ServerRPCHandler
-			}
-			state.next = func(ctx context.Context, req proto.Message) (proto.Message, error) {
-				if state.i == len(interceptors)-1 {
-					return interceptors[state.i](ctx, req, rpcInfo, handler)
-				}
-				state.i++
-				return interceptors[state.i-1](ctx, req, rpcInfo, state.next)
-			}
-			return state.next(ctx, req)
+			return chainServerHandler(interceptors, 0, rpcInfo, handler)(ctx, req)
 		}
 	}
 }
+
+// chainServerHandler returns the handler that runs the interceptors from curr on, then handler.
+// It keeps no state between calls, so an interceptor may call its next handler several times.
+func chainServerHandler(
+	interceptors []psrpc.ServerRPCInterceptor,
+	curr int,
+	rpcInfo psrpc.RPCInfo,
+	handler psrpc.ServerRPCHandler,
+) psrpc.ServerRPCHandler {
+	if curr == len(interceptors) {
+		return handler
+	}
+	return func(ctx context.Context, req proto.Message) (proto.Message, error) {
+		return interceptors[curr](ctx, req, rpcInfo, chainServerHandler(interceptors, curr+1, rpcInfo, handler))
+	}
+}
-- 
2.43.0


From b05c914bd3fca989171ae03b9ed0e201dfbb05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 04/21] fix: never block the client's dispatch loop on a
 finished call, end multi calls once and on time

---
 pkg/client/client.go | 29 +++++++++++++++++++++++------
 pkg/client/multi.go  | 35 ++++++++++++++++++++++-------------
 pkg/client/rpc.go    | 11 +++++++++--
 pkg/client/stream.go |  7 ++++++-
 4 files changed, 60 insertions(+), 22 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index e160548..de32ee1 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -33,12 +33,23 @@ type RPCClient struct {
 	bus bus.MessageBus
 
 	mu               sync.Mutex
-	claimRequests    map[string]chan *internal.ClaimRequest
-	responseChannels map[string]chan *internal.Response
+	claimRequests    map[string]claimChannel
+	responseChannels map[string]responseChannel
 	streamChannels   map[string]streamChannels
 	closed           core.Fuse
 }
 
+// done is closed once nothing reads from the channel any more
+type claimChannel struct {
+	claimChan chan *internal.ClaimRequest
+	done      <-chan struct{}
+}
+
+type responseChannel struct {
+	resChan chan *internal.Response
+	done    <-chan struct{}
+}
+
 func NewRPCClientWithStreams(
 	sd *info.ServiceDefinition,
 	b bus.MessageBus,
@@ -56,8 +67,8 @@ func NewRPCClient(
 		ServiceDefinition: sd,
 		ClientOpts:        getClientOpts(opts...),
 		bus:               b,
-		claimRequests:     make(map[string]chan *internal.ClaimRequest),
-		responseChannels:  make(map[string]chan *internal.Response),
+		claimRequests:     make(map[string]claimChannel),
+		responseChannels:  make(map[string]responseChannel),
 		streamChannels:    make(map[string]streamChannels),
 	}
 	if c.ClientID != "" {
@@ -113,7 +124,10 @@ func NewRPCClient(
 				claimChan, ok := c.claimRequests[claim.RequestId]
 				c.mu.Unlock()
 				if ok {
-					claimChan <- claim
+					select {
+					case claimChan.claimChan <- claim:
+					case <-claimChan.done:
+					}
 				}
 
 			case res := <-responses.Channel():
@@ -125,7 +139,10 @@ func NewRPCClient(
 				resChan, ok := c.responseChannels[res.RequestId]
 				c.mu.Unlock()
 				if ok {
-					resChan <- res
+					select {
+					case resChan.resChan <- res:
+					case <-resChan.done:
+					}
 				}
 
 			case msg := <-streams.Channel():
diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 777afed..b111297 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -16,6 +16,7 @@ package client
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -54,6 +55,7 @@ func RequestMulti[ResponseType proto.Message](
 		i:         i,
 		requestID: rand.NewRequestID(),
 		resChan:   resChan,
+		stop:      func() {},
 	}
 
 	reqInterceptors := getRequestInterceptors(
@@ -65,6 +67,7 @@ func RequestMulti[ResponseType proto.Message](
 	)
 
 	if err = m.handler.Send(ctx, request, opts...); err != nil {
+		m.stop()
 		for _, hook := range c.ResponseHooks {
 			hook(ctx, request, i.RPCInfo, nil, err)
 		}
@@ -80,6 +83,10 @@ type multiRPC[ResponseType proto.Message] struct {
 	requestID string
 	handler   psrpc.ClientMultiRPCHandler
 	resChan   chan<- *psrpc.Response[ResponseType]
+
+	startOnce sync.Once
+	ctx       context.Context
+	stop      context.CancelFunc
 }
 
 func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) error {
@@ -101,13 +108,17 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 		Metadata:   metadata.OutgoingContextMetadata(ctx),
 	}
 
-	resChan := make(chan *internal.Response, m.c.ChannelSize)
+	// Interceptors may call Send more than once, the responses are those of a single call.
+	m.startOnce.Do(func() {
+		m.ctx, m.stop = context.WithTimeout(ctx, o.Timeout)
+		resChan := make(chan *internal.Response, m.c.ChannelSize)
 
-	m.c.mu.Lock()
-	m.c.responseChannels[m.requestID] = resChan
-	m.c.mu.Unlock()
+		m.c.mu.Lock()
+		m.c.responseChannels[m.requestID] = responseChannel{resChan, m.ctx.Done()}
+		m.c.mu.Unlock()
 
-	go m.handleResponses(ctx, req, resChan, o)
+		go m.handleResponses(ctx, req, resChan)
+	})
 
 	if err = m.c.bus.Publish(ctx, m.i.GetRPCChannel(), ir); err != nil {
 		return psrpc.NewError(psrpc.Internal, err)
@@ -120,9 +131,8 @@ func (m *multiRPC[ResponseType]) handleResponses(
 	ctx context.Context,
 	req proto.Message,
 	resChan chan *internal.Response,
-	opts psrpc.RequestOpts,
 ) {
-	timer := time.NewTimer(opts.Timeout)
+	defer m.stop()
 	for {
 		select {
 		case res := <-resChan:
@@ -144,11 +154,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 
 			m.handler.Recv(v, err)
 
-		case <-timer.C:
-			m.handler.Close()
-			return
-
-		case <-ctx.Done():
+		case <-m.ctx.Done():
 			m.handler.Close()
 			return
 		}
@@ -156,9 +162,12 @@ func (m *multiRPC[ResponseType]) handleResponses(
 }
 
 func (m *multiRPC[ResponseType]) Recv(msg proto.Message, err error) {
-	m.resChan <- &psrpc.Response[ResponseType]{
+	select {
+	case m.resChan <- &psrpc.Response[ResponseType]{
 		Result: msg.(ResponseType),
 		Err:    err,
+	}:
+	case <-m.ctx.Done():
 	}
 }
 
diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index b6cc6fb..11faf43 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -103,15 +103,21 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 		var claimChan chan *internal.ClaimRequest
 		resChan := make(chan *internal.Response, 1)
 
+		// Release the client's dispatch loop as soon as nothing reads claims or responses.
+		resCtx, resDone := context.WithCancel(ctx)
+		claimCtx, claimDone := context.WithCancel(resCtx)
+
 		c.mu.Lock()
 		if i.RequireClaim {
 			claimChan = make(chan *internal.ClaimRequest, c.ChannelSize)
-			c.claimRequests[requestID] = claimChan
+			c.claimRequests[requestID] = claimChannel{claimChan, claimCtx.Done()}
 		}
-		c.responseChannels[requestID] = resChan
+		c.responseChannels[requestID] = responseChannel{resChan, resCtx.Done()}
 		c.mu.Unlock()
 
 		defer func() {
+			claimDone()
+			resDone()
 			c.mu.Lock()
 			if i.RequireClaim {
 				delete(c.claimRequests, requestID)
@@ -130,6 +136,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 
 		if i.RequireClaim {
 			serverID, err := selectServer(ctx, claimChan, resChan, o.SelectionOpts)
+			claimDone()
 			if err != nil {
 				return nil, err
 			}
diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index 54f236b..65f3884 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -61,12 +61,16 @@ func OpenStream[SendType, RecvType proto.Message](
 	recvChan := make(chan *internal.Stream, c.ChannelSize)
 	closed := make(chan struct{})
 
+	// Release the client's dispatch loop as soon as nothing reads claims.
+	claimCtx, claimDone := context.WithCancel(ctx)
+
 	c.mu.Lock()
-	c.claimRequests[requestID] = claimChan
+	c.claimRequests[requestID] = claimChannel{claimChan, claimCtx.Done()}
 	c.streamChannels[streamID] = streamChannels{recvChan, closed}
 	c.mu.Unlock()
 
 	defer func() {
+		claimDone()
 		c.mu.Lock()
 		delete(c.claimRequests, requestID)
 		c.mu.Unlock()
@@ -109,6 +113,7 @@ func OpenStream[SendType, RecvType proto.Message](
 			return nil, psrpc.NewError(psrpc.Internal, err)
 		}
 	}
+	claimDone()
 
 	select {
 	case <-ackChan:
-- 
2.43.0


From 8f6202a2d0ccab28f29c49b3021757ed61758ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 05/21] fix: clamp the expiry of multi and stream requests to
 the caller's deadline

---
 pkg/client/multi.go  | 7 ++++++-
 pkg/client/stream.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index b111297..db7daac 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -98,11 +98,16 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 	}
 
 	now := time.Now()
+	// Clamp expiry to the caller's deadline so downstream hops don't outlive it.
+	expiry := now.Add(o.Timeout)
+	if deadline, ok := ctx.Deadline(); ok && deadline.Before(expiry) {
+		expiry = deadline
+	}
 	ir := &internal.Request{
 		RequestId:  m.requestID,
 		ClientId:   m.c.ID,
 		SentAt:     now.UnixNano(),
-		Expiry:     now.Add(o.Timeout).UnixNano(),
+		Expiry:     expiry.UnixNano(),
 		Multi:      true,
 		RawRequest: b,
 		Metadata:   metadata.OutgoingContextMetadata(ctx),
diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index 65f3884..da42e84 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -44,11 +44,16 @@ func OpenStream[SendType, RecvType proto.Message](
 	streamID := rand.NewStreamID()
 	requestID := rand.NewRequestID()
 	now := time.Now()
+	// Clamp expiry to the caller's deadline so downstream hops don't outlive it.
+	expiry := now.Add(o.Timeout)
+	if deadline, ok := ctx.Deadline(); ok && deadline.Before(expiry) {
+		expiry = deadline
+	}
 	req := &internal.Stream{
 		StreamId:  streamID,
 		RequestId: requestID,
 		SentAt:    now.UnixNano(),
-		Expiry:    now.Add(o.Timeout).UnixNano(),
+		Expiry:    expiry.UnixNano(),
 		Body: &internal.Stream_Open{
 			Open: &internal.StreamOpen{
 				NodeId:   c.ID,
-- 
2.43.0


From 9084c03ca703473a2f8c9a1c881399abd66820a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 06/21] fix: report the error of a stream receive to the
 metrics observer

---
 pkg/middleware/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index ff17306..6cf2756 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -120,7 +120,7 @@ type streamMetricsInterceptor struct {
 }
 
 func (s *streamMetricsInterceptor) Recv(msg proto.Message) (err error) {
-	s.observer.OnStreamRecv(s.role, s.info, err, proto.Size(msg))
+	defer func() { s.observer.OnStreamRecv(s.role, s.info, err, proto.Size(msg)) }()
 	return s.StreamHandler.Recv(msg)
 }
 
-- 
2.43.0


From 85223b9afdba817d071c23a7b33adae9b0859be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 07/21] fix: strip the module prefix from output names only at
 path element boundaries

---
 protoc-gen-psrpc/go_naming.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/go_naming.go b/protoc-gen-psrpc/go_naming.go
index 4c9ab5b..c8bdb10 100644
--- a/protoc-gen-psrpc/go_naming.go
+++ b/protoc-gen-psrpc/go_naming.go
@@ -82,7 +82,11 @@ func (t *psrpc) goFileName(f *descriptor.FileDescriptorProto) string {
 	// otherwise, the directory is taken from the option go_package
 	if impPath, _, ok := goPackageOption(f); ok && impPath != "" {
 		if t.modulePrefix != "" {
-			impPath = strings.TrimPrefix(strings.TrimPrefix(impPath, t.modulePrefix), "/")
+			// only whole path elements are removed
+			rest, ok := strings.CutPrefix(impPath, strings.TrimSuffix(t.modulePrefix, "/"))
+			if ok && (rest == "" || rest[0] == '/') {
+				impPath = strings.TrimPrefix(rest, "/")
+			}
 		}
 
 		// Replace the existing dirname with the import path from go_package
-- 
2.43.0


From aefa062a8abdd51206fbae676c6f4543a88df11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 08/21] fix: name nested messages with lower-case names as
 protoc-gen-go does

---
 protoc-gen-psrpc/generator.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index a039af0..df99c2f 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -1005,10 +1005,14 @@ func (t *psrpc) goTypeName(protoName string) string {
 	}
 
 	var name string
-	for _, parent := range def.Lineage() {
-		name += stringutils.CamelCase(parent.Descriptor.GetName()) + "_"
+	for _, m := range append(def.Lineage(), def) {
+		n := m.Descriptor.GetName()
+		// like protoc-gen-go, which only separates nested names that start with a capital letter
+		if name != "" && (n[0] < 'a' || n[0] > 'z') {
+			name += "_"
+		}
+		name += stringutils.CamelCase(n)
 	}
-	name += stringutils.CamelCase(def.Descriptor.GetName())
 	return prefix + name
 }
 
-- 
2.43.0


From d0c5cdd042606445d20b2d38d3bb8bacc41c6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 09/21] fix: parse plugin parameters in their order instead of
 map order

---
 protoc-gen-psrpc/command_line.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/command_line.go b/protoc-gen-psrpc/command_line.go
index 8024a1a..fe1251a 100644
--- a/protoc-gen-psrpc/command_line.go
+++ b/protoc-gen-psrpc/command_line.go
@@ -30,6 +30,7 @@ type commandLineParams struct {
 // It then sets command line parameter mappings defined by those entries.
 func parseCommandLineParams(parameter string) (*commandLineParams, error) {
 	ps := make(map[string]string)
+	var keys []string // in order, so that the outcome does not depend on map iteration
 	for _, p := range strings.Split(parameter, ",") {
 		if p == "" {
 			continue
@@ -43,13 +44,17 @@ func parseCommandLineParams(parameter string) (*commandLineParams, error) {
 		if v == "" {
 			return nil, fmt.Errorf("invalid parameter %q: expected format of parameter to be k=v", k)
 		}
+		if _, ok := ps[k]; !ok {
+			keys = append(keys, k)
+		}
 		ps[k] = v
 	}
 
 	clp := &commandLineParams{
 		importMap: make(map[string]string),
 	}
-	for k, v := range ps {
+	for _, k := range keys {
+		v := ps[k]
 		switch {
 		// Support import map 'M' prefix: https://developers.google.com/protocol-buffers/docs/reference/go-generated
 		case len(k) > 0 && k[0] == 'M':
-- 
2.43.0


From e8de7b7c8b29a44b5c397514fbd5d25f93d6bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 10/21] fix: local bus: do not hold locks while writing to a
 slow subscription, pass queue messages over closing members

---
 internal/bus/bus_local.go | 62 ++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/internal/bus/bus_local.go b/internal/bus/bus_local.go
index 283b564..10e8126 100644
--- a/internal/bus/bus_local.go
+++ b/internal/bus/bus_local.go
@@ -134,33 +134,35 @@ func (l *localSubList) create(ctx context.Context, size int) *localSubscription
 }
 
 func (l *localSubList) dispatch(b []byte) {
-	if l.queue {
-		l.Lock()
-		defer l.Unlock()
+	// the lock is not held while writing, which can block on a slow reader
+	for _, s := range l.targets() {
+		if s.write(b) && l.queue {
+			return
+		}
+	}
+}
 
+// targets returns the open subscriptions, queue members in the order they are to be tried
+func (l *localSubList) targets() []*localSubscription {
+	l.Lock()
+	defer l.Unlock()
+
+	subs := make([]*localSubscription, 0, l.subCount)
+	start := 0
+	if l.queue {
 		// round-robin
-		for i := 0; i <= len(l.subs); i++ {
-			if l.next >= len(l.subs) {
-				l.next = 0
-			}
-			s := l.subs[l.next]
-			l.next++
-			if s != nil {
-				s.write(b)
-				return
-			}
-		}
-	} else {
-		l.RLock()
-		defer l.RUnlock()
-
-		// send to all
-		for _, s := range l.subs {
-			if s != nil {
-				s.write(b)
+		start = l.next
+	}
+	for i := range l.subs {
+		index := (start + i) % len(l.subs)
+		if s := l.subs[index]; s != nil {
+			if len(subs) == 0 {
+				l.next = index + 1
 			}
+			subs = append(subs, s)
 		}
 	}
+	return subs
 }
 
 type localSubscription struct {
@@ -168,12 +170,22 @@ type localSubscription struct {
 	cancel  context.CancelFunc
 	msgChan chan []byte
 	onClose func()
+	writing sync.RWMutex // held for reading by writers, for writing to close msgChan
 }
 
-func (l *localSubscription) write(b []byte) {
+// write returns false if the subscription is closed
+func (l *localSubscription) write(b []byte) bool {
+	l.writing.RLock()
+	defer l.writing.RUnlock()
+
+	if l.ctx.Err() != nil {
+		return false
+	}
 	select {
 	case l.msgChan <- b:
+		return true
 	case <-l.ctx.Done():
+		return false
 	}
 }
 
@@ -188,6 +200,10 @@ func (l *localSubscription) read() ([]byte, bool) {
 func (l *localSubscription) Close() error {
 	l.cancel()
 	l.onClose()
+
+	// cancelling has released the writers
+	l.writing.Lock()
 	close(l.msgChan)
+	l.writing.Unlock()
 	return nil
 }
-- 
2.43.0


From 0f5042ea66a86a99c4c814a1290d146d2464211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 11/21] fix: skip bus messages of another type instead of
 panicking

---
 internal/bus/subscription.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/bus/subscription.go b/internal/bus/subscription.go
index 5a45fae..02f147c 100644
--- a/internal/bus/subscription.go
+++ b/internal/bus/subscription.go
@@ -42,7 +42,11 @@ func newSubscription[MessageType proto.Message](sub Reader, size int) Subscripti
 			if err != nil {
 				continue
 			}
-			msgChan <- p.(MessageType)
+			msg, ok := p.(MessageType)
+			if !ok {
+				continue
+			}
+			msgChan <- msg
 		}
 	}()
 
-- 
2.43.0


From 5d0a011d251c0fbbe8ad9644ab612728e15216af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 12/21] fix: stream Send reports an error when the parent
 context ends before the stream closes

---
 internal/stream/stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/stream/stream.go b/internal/stream/stream.go
index 9d20867..2686c73 100644
--- a/internal/stream/stream.go
+++ b/internal/stream/stream.go
@@ -241,7 +241,10 @@ func (s *streamBase[SendType, RecvType]) Send(msg proto.Message, opts ...psrpc.S
 	case <-ctx.Done():
 		select {
 		case <-s.ctx.Done():
-			err = s.Err()
+			// the parent context can end before the stream is closed
+			if err = s.Err(); err == nil {
+				err = s.ctx.Err()
+			}
 		default:
 			err = psrpc.ErrRequestTimedOut
 		}
-- 
2.43.0


From 875dd5fc1c06ff23e7f0ddf964d5413d62d94a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 13/21] fix: opening a stream on a closed client fails with
 ErrClientClosed

---
 pkg/client/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index da42e84..c29e272 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -37,6 +37,9 @@ func OpenStream[SendType, RecvType proto.Message](
 	topic []string,
 	opts ...psrpc.RequestOption,
 ) (psrpc.ClientStream[SendType, RecvType], error) {
+	if c.closed.IsBroken() {
+		return nil, psrpc.ErrClientClosed
+	}
 
 	i := c.GetInfo(rpc, topic)
 	o := getRequestOpts(ctx, i, c.ClientOpts, opts...)
-- 
2.43.0


From f71d92028a7700a8d2dc2b7014c1b712753fd87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 14/21] fix: a request being picked up while its handler closes
 is counted before the close can return, or not handled

---
 pkg/server/rpc.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 07ccd22..b1ea623 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -45,6 +45,7 @@ type rpcHandlerImpl[RequestType proto.Message, ResponseType proto.Message] struc
 	claimSub    bus.Subscription[*internal.ClaimResponse]
 	claims      map[string]chan *internal.ClaimResponse
 	handling    sync.WaitGroup
+	closing     bool
 	closeOnce   sync.Once
 	complete    chan struct{}
 	onCompleted func()
@@ -130,8 +131,9 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 				if ir == nil {
 					continue
 				}
-				if time.Now().UnixNano() < ir.Expiry {
+				if time.Now().UnixNano() < ir.Expiry && h.accept() {
 					go func() {
+						defer h.handling.Done()
 						if err := h.handleRequest(s, ir); err != nil {
 							logger.Error(err, "failed to handle request", "requestID", ir.RequestId)
 						}
@@ -153,13 +155,21 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 	}()
 }
 
+// accept counts a request as being handled, unless the handler is closing.
+func (h *rpcHandlerImpl[RequestType, ResponseType]) accept() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.closing {
+		return false
+	}
+	h.handling.Add(1)
+	return true
+}
+
 func (h *rpcHandlerImpl[RequestType, ResponseType]) handleRequest(
 	s *RPCServer,
 	ir *internal.Request,
 ) error {
-	h.handling.Add(1)
-	defer h.handling.Done()
-
 	head := &metadata.Header{
 		RemoteID: ir.ClientId,
 		SentAt:   time.Unix(0, ir.SentAt),
@@ -288,6 +298,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 
 func (h *rpcHandlerImpl[RequestType, ResponseType]) close(force bool) {
 	h.closeOnce.Do(func() {
+		h.mu.Lock()
+		h.closing = true
+		h.mu.Unlock()
+
 		_ = h.requestSub.Close()
 		if !force {
 			h.handling.Wait()
-- 
2.43.0


From 19e946ef49f6fe42d4fbf87bd2397823f26ba9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:02 +0000
Subject: [PATCH 15/21] fix: registrations race neither with each other nor
 with closing the server

---
 pkg/server/server.go | 99 +++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 43 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index c992b16..3303c9a 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -40,6 +40,7 @@ type RPCServer struct {
 
 	mu       sync.RWMutex
 	handlers map[string]rpcHandler
+	closing  bool
 	active   sync.WaitGroup
 	shutdown core.Fuse
 }
@@ -65,39 +66,26 @@ func RegisterHandler[RequestType proto.Message, ResponseType proto.Message](
 	svcImpl func(context.Context, RequestType) (ResponseType, error),
 	affinityFunc AffinityFunc[RequestType],
 ) error {
-	if s.shutdown.IsBroken() {
-		return psrpc.ErrServerClosed
-	}
-
 	i := s.GetInfo(rpc, topic)
 
 	key := i.GetHandlerKey()
-	s.mu.RLock()
-	_, ok := s.handlers[key]
-	s.mu.RUnlock()
-	if ok {
-		return errors.New("handler already exists")
+	if err := s.reserve(key); err != nil {
+		return err
 	}
 
 	// create handler
 	h, err := newRPCHandler(s, i, svcImpl, s.ChainedInterceptor, affinityFunc)
 	if err != nil {
+		s.release(key)
 		return err
 	}
-
-	s.active.Add(1)
-	h.onCompleted = func() {
-		s.active.Done()
-		s.mu.Lock()
-		delete(s.handlers, key)
-		s.mu.Unlock()
-	}
-
-	s.mu.Lock()
-	s.handlers[key] = h
-	s.mu.Unlock()
+	h.onCompleted = func() { s.release(key) }
 
 	h.run(s)
+	if !s.activate(key, h) {
+		h.close(true)
+		return psrpc.ErrServerClosed
+	}
 	return nil
 }
 
@@ -108,49 +96,69 @@ func RegisterStreamHandler[RequestType proto.Message, ResponseType proto.Message
 	svcImpl func(psrpc.ServerStream[ResponseType, RequestType]) error,
 	affinityFunc StreamAffinityFunc,
 ) error {
-	if s.shutdown.IsBroken() {
-		return psrpc.ErrServerClosed
-	}
-
 	i := s.GetInfo(rpc, topic)
 
 	key := i.GetHandlerKey()
-	s.mu.RLock()
-	_, ok := s.handlers[key]
-	s.mu.RUnlock()
-	if ok {
-		return errors.New("handler already exists")
+	if err := s.reserve(key); err != nil {
+		return err
 	}
 
 	// create handler
 	h, err := newStreamRPCHandler(s, i, svcImpl, affinityFunc)
 	if err != nil {
+		s.release(key)
 		return err
 	}
+	h.onCompleted = func() { s.release(key) }
 
-	s.active.Add(1)
-	h.onCompleted = func() {
-		s.active.Done()
-		s.mu.Lock()
-		delete(s.handlers, key)
-		s.mu.Unlock()
+	h.run(s)
+	if !s.activate(key, h) {
+		h.close(true)
+		return psrpc.ErrServerClosed
+	}
+	return nil
+}
+
+// reserve keeps the slot of a handler that is being registered.
+func (s *RPCServer) reserve(key string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closing {
+		return psrpc.ErrServerClosed
+	}
+	if _, ok := s.handlers[key]; ok {
+		return errors.New("handler already exists")
 	}
+	s.handlers[key] = nil
+	s.active.Add(1)
+	return nil
+}
 
+// activate puts a handler into its reserved slot, unless the server is closing.
+func (s *RPCServer) activate(key string, h rpcHandler) bool {
 	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closing {
+		return false
+	}
 	s.handlers[key] = h
-	s.mu.Unlock()
+	return true
+}
 
-	h.run(s)
-	return nil
+func (s *RPCServer) release(key string) {
+	s.mu.Lock()
+	delete(s.handlers, key)
+	s.mu.Unlock()
+	s.active.Done()
 }
 
 func (s *RPCServer) DeregisterHandler(rpc string, topic []string) {
 	i := s.GetInfo(rpc, topic)
 	key := i.GetHandlerKey()
 	s.mu.RLock()
-	h, ok := s.handlers[key]
+	h := s.handlers[key]
 	s.mu.RUnlock()
-	if ok {
+	if h != nil {
 		h.close(true)
 	}
 }
@@ -162,12 +170,17 @@ func (s *RPCServer) Publish(ctx context.Context, rpc string, topic []string, msg
 
 func (s *RPCServer) Close(force bool) {
 	s.shutdown.Once(func() {
-		s.mu.RLock()
+		s.mu.Lock()
+		s.closing = true
 		handlers := maps.Values(s.handlers)
-		s.mu.RUnlock()
+		s.mu.Unlock()
 
 		var wg sync.WaitGroup
 		for _, h := range handlers {
+			if h == nil {
+				// its registration fails when it completes
+				continue
+			}
 			wg.Add(1)
 			h := h
 			go func() {
-- 
2.43.0


From 052c67a1205d40712a989f283430ea7bd87bcc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:58 +0000
Subject: [PATCH 16/21] fix: repeated or late claim responses do not block a
 handler's request loop

---
 pkg/server/rpc.go    | 5 ++++-
 pkg/server/stream.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index b1ea623..9345434 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -148,7 +148,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 				claimChan, ok := h.claims[claim.RequestId]
 				h.mu.RUnlock()
 				if ok {
-					claimChan <- claim
+					select {
+					case claimChan <- claim:
+					default: // the claim is decided
+					}
 				}
 			}
 		}
diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 8946d55..8c8004d 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -121,7 +121,10 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 				claimChan, ok := h.claims[claim.RequestId]
 				h.mu.RUnlock()
 				if ok {
-					claimChan <- claim
+					select {
+					case claimChan <- claim:
+					default: // the claim is decided
+					}
 				}
 			}
 		}
-- 
2.43.0


From 4713da06e23f1fc9943837da054ff8d6e9f2c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 17/21] fix: a stream being opened while its handler closes is
 not opened afterwards

---
 pkg/server/stream.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 8c8004d..4e37900 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -194,6 +194,11 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 	)
 
 	h.mu.Lock()
+	if h.draining.Load() {
+		// closed since the request was picked up
+		h.mu.Unlock()
+		return nil
+	}
 	h.streams[is.StreamId] = ss
 	h.mu.Unlock()
 
@@ -265,9 +270,8 @@ func (h *streamHandler[RecvType, SendType]) claimRequest(
 
 func (h *streamHandler[RecvType, SendType]) close(force bool) {
 	h.closeOnce.Do(func() {
-		h.draining.Store(true)
-
 		h.mu.Lock()
+		h.draining.Store(true)
 		serverStreams := maps.Values(h.streams)
 		h.mu.Unlock()
 
-- 
2.43.0


From bbc7e652d4a0c2f700486ed5f1423f604eb44c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 18/21] fix: a closing handler does not spin on its closed
 subscription

---
 pkg/server/rpc.go    | 10 ++++++++--
 pkg/server/stream.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 9345434..fb995ac 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -127,7 +127,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 			case <-h.complete:
 				return
 
-			case ir := <-requests:
+			case ir, ok := <-requests:
+				if !ok {
+					requests = nil
+				}
 				if ir == nil {
 					continue
 				}
@@ -140,7 +143,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 					}()
 				}
 
-			case claim := <-claims:
+			case claim, ok := <-claims:
+				if !ok {
+					claims = nil
+				}
 				if claim == nil {
 					continue
 				}
diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 4e37900..e12a8fd 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -103,7 +103,10 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 			case <-h.complete:
 				return
 
-			case is := <-requests:
+			case is, ok := <-requests:
+				if !ok {
+					requests = nil
+				}
 				if is == nil {
 					continue
 				}
@@ -113,7 +116,10 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 					}
 				}
 
-			case claim := <-claims:
+			case claim, ok := <-claims:
+				if !ok {
+					claims = nil
+				}
 				if claim == nil {
 					continue
 				}
-- 
2.43.0


From c430da3ecb2a7ba643a1ec98c420f7fad0b42503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:56 +0000
Subject: [PATCH 19/21] fix: a NATS subscription that shares a subject being
 subscribed waits for the outcome

---
 internal/bus/bus_nats.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 19c92de..1f8b751 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -101,28 +101,28 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 	}
 
 	n.mu.Lock()
-	r, ok := n.routers[channel.Server]
-	if !ok {
-		r = &natsRouter{
-			routes:  map[string][]*natsRouterSubscription{},
-			bus:     n,
-			channel: channel.Server,
-			queue:   queue,
+	defer n.mu.Unlock()
+
+	if r, ok := n.routers[channel.Server]; ok {
+		if r.queue != queue {
+			cancel()
+			return nil, fmt.Errorf("subscription type mismatch for channel %q %q", channel, sub.channel)
 		}
-		n.routers[channel.Server] = r
-	} else if r.queue != queue {
-		n.mu.Unlock()
-		return nil, fmt.Errorf("subscription type mismatch for channel %q %q", channel, sub.channel)
+		sub.router = r
+		r.open(sub.channel, sub)
+		return sub, nil
 	}
 
-	r.open(sub.channel, sub)
-	sub.router = r
-	n.mu.Unlock()
-
-	if ok {
-		return sub, nil
+	r := &natsRouter{
+		routes:  map[string][]*natsRouterSubscription{},
+		bus:     n,
+		channel: channel.Server,
+		queue:   queue,
 	}
+	sub.router = r
+	r.open(sub.channel, sub)
 
+	// others may share the router only once it is subscribed
 	var err error
 	if queue {
 		r.sub, err = n.nc.QueueSubscribe(channel.Server, "bus", r.write)
@@ -130,12 +130,11 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		r.sub, err = n.nc.Subscribe(channel.Server, r.write)
 	}
 	if err != nil {
-		n.mu.Lock()
-		delete(n.routers, channel.Server)
-		n.mu.Unlock()
+		cancel()
 		return nil, err
 	}
 
+	n.routers[channel.Server] = r
 	return sub, nil
 }
 
-- 
2.43.0


From a8c2ad87714900b639948d0f7dc50c18bf2a62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 20/21] fix: a message arriving while a NATS subscription
 closes does not panic

---
 internal/bus/bus_nats.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 1f8b751..85a3ff1 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -142,10 +142,17 @@ type natsSubscription struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	sub     *nats.Subscription
+	mu      sync.Mutex
+	closed  bool
 	msgChan chan *nats.Msg
 }
 
 func (n *natsSubscription) write(msg *nats.Msg) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	if n.closed {
+		return
+	}
 	select {
 	case n.msgChan <- msg:
 	case <-n.ctx.Done():
@@ -163,6 +170,10 @@ func (n *natsSubscription) read() ([]byte, bool) {
 func (n *natsSubscription) Close() error {
 	n.cancel()
 	err := n.sub.Unsubscribe()
+
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	n.closed = true
 	close(n.msgChan)
 	return err
 }
-- 
2.43.0


From ef1d6e06c94c50e81490c27e212042e00475c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:31 +0000
Subject: [PATCH 21/21] fix: a failed Redis subscribe or unsubscribe command is
 repeated or undone

---
 internal/bus/bus_redis.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/bus/bus_redis.go b/internal/bus/bus_redis.go
index 7d770e2..8069a40 100644
--- a/internal/bus/bus_redis.go
+++ b/internal/bus/bus_redis.go
@@ -53,7 +53,7 @@ type redisMessageBus struct {
 	wakeup          chan struct{}
 	ops             *redisWriteOpQueue
 	dirtyChannels   map[string]struct{}
-	currentChannels map[string]struct{}
+	currentChannels map[string]bool // false where the last command failed, with unknown effect
 
 	publishQueues [publishBuckets]*redisPublishQueue
 }
@@ -70,7 +70,7 @@ func NewRedisMessageBus(rc redis.UniversalClient) MessageBus {
 		wakeup:          make(chan struct{}, 1),
 		ops:             &redisWriteOpQueue{},
 		dirtyChannels:   map[string]struct{}{},
-		currentChannels: map[string]struct{}{},
+		currentChannels: map[string]bool{},
 	}
 	for i := range len(r.publishQueues) {
 		r.publishQueues[i] = newRedisPublishQueue(r.ctx, r.rc)
@@ -249,9 +249,9 @@ func (r *redisReconcileSubscriptionsOp) run() error {
 		subscribe := make(map[string]struct{}, len(r.dirtyChannels))
 		unsubscribe := make(map[string]struct{}, len(r.dirtyChannels))
 		for c := range r.dirtyChannels {
-			_, current := r.currentChannels[c]
+			subscribed, current := r.currentChannels[c]
 			desired := r.subs[c] != nil || r.queues[c] != nil
-			if !current && desired {
+			if !subscribed && desired {
 				subscribe[c] = struct{}{}
 			} else if current && !desired {
 				unsubscribe[c] = struct{}{}
@@ -276,13 +276,17 @@ func (r *redisReconcileSubscriptionsOp) run() error {
 		r.mu.Lock()
 		if subscribeErr != nil {
 			maps.Copy(r.dirtyChannels, subscribe)
-		} else {
-			maps.Copy(r.currentChannels, subscribe)
+		}
+		for c := range subscribe {
+			r.currentChannels[c] = subscribeErr == nil
 		}
 		if unsubscribeErr != nil {
 			maps.Copy(r.dirtyChannels, unsubscribe)
-		} else {
-			for c := range unsubscribe {
+		}
+		for c := range unsubscribe {
+			if unsubscribeErr != nil {
+				r.currentChannels[c] = false
+			} else {
 				delete(r.currentChannels, c)
 			}
 		}
-- 
2.43.0

